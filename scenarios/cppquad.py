"""qugar's C++ core (properties C21-C24): implicit domains, cut quadratures,
reparametrizations and their VTK files.

Real code: cpp/qugar/*.cpp (memory accesses instrumented) except the Bezier
reparametrization. Simulated: thread scheduling, static-local guards, operator
new, the user's implicit function failing, the disk behind the VTK writer.
Stand-in: algoim (not installed here).
"""
import os
import random

from scenarios import cpprun
from scenarios.cpprun import VERIF

OUT = VERIF / "build" / "quadsim"
MEM = {"use-after-free", "out-of-bounds", "data-race", "deadlock", "no-progress", "crash", "hang"}
ALL = MEM | {"depends-on-history", "swallowed-failure", "spurious-failure"}
CLASSES = {
    "C21": ALL | {"wrong-entities", "wrong-points", "wrong-weights", "wrong-normals"},
    "C22": ALL | {"not-a-partition", "queries-disagree", "wrong-cell-status", "wrong-facet-status", "wrong-grid"},
    "C23": ALL | {"broken-mesh", "points-outside"},
    "C24": MEM | {"wrong-file", "lost-file", "spurious-failure"},
}
_server = None


def prepare(prop):
    cpprun.build("build_quad.sh", OUT)


def setup(prop):
    global _server
    _server = cpprun.Server(os.environ.get("QUADSIM") or OUT / "quadsim")


def ncells(s):
    return s["n"][0] * s["n"][1] * (s["n"][2] if s["dim"] == 3 else 1)


def gen_spec(r, prop, bezier=True):
    dim = r.choice([2, 2, 2, 3])
    n = [r.choice([1, 1, 2, 2, 3] if dim == 3 else [1, 2, 3, 4]) for _ in range(3)]
    if dim == 3 and n[0] * n[1] * n[2] > 12:
        n[r.randrange(3)] = 1
    if r.random() < 0.6:
        lo, hi = [0.0] * 3, [1.0] * 3
    else:
        lo = [r.choice([-1.0, -0.5, 0.0, 0.25, 2.0]) for _ in range(3)]
        hi = [a + r.choice([0.5, 1.0, 1.5, 3.0]) for a in lo]
    kinds = [0, 0, 1, 1, 2, 3, 6, 7] + ([4, 5] if bezier else [])
    kind = r.choice(kinds)
    if kind in (4, 5):
        lo, hi = [0.0] * 3, [1.0] * 3
    size = min(hi[i] - lo[i] for i in range(dim))
    radius = size * r.choice([0.2, 0.35, 0.45, 0.6, 0.9, 1.2])
    if r.random() < 0.7:
        c = [lo[i] + (hi[i] - lo[i]) * r.uniform(0.1, 0.9) for i in range(3)]
    else:
        c = [lo[i] + (hi[i] - lo[i]) * r.choice([0.0, 0.5, 1.0]) for i in range(3)]
    v = [r.uniform(-1, 1) for _ in range(3)]
    if kind in (0, 5) and r.random() < 0.45:      # a plane along the grid, often on one of its lines
        v = [0.0] * 3
        d = r.randrange(dim)
        v[d] = r.choice([1.0, -1.0])
        if r.random() < 0.7:
            c[d] = lo[d] + (hi[d] - lo[d]) * r.randrange(n[d] + 1) / n[d]
    if kind == 2:
        v = [size * r.choice([0.2, 0.3, 0.5, 0.8]) for _ in range(3)]
    if kind == 3 and r.random() < 0.5:
        v = [0.0, 0.0, 1.0]
    if sum(abs(x) for x in v[:dim]) < 0.2:
        v[0] = 1.0
    s = {"dim": dim, "kind": kind, "n": n, "lo": lo, "hi": hi, "a": [radius] + c + v + [0.0], "cells": None}
    if r.random() < 0.2:
        k = ncells(s)
        s["cells"] = sorted(r.sample(range(k), r.randrange(1, k + 1)))
    return s


def gen_config_for(rs, prop):
    r = random.Random(f"cfg/{prop}/{rs}")
    mesh = prop in ("C23", "C24")
    specs = [gen_spec(r, prop, bezier=not mesh) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.3:                          # two domains that differ in little
        s = dict(specs[0])
        k = r.choice(["n", "a", "hi"])
        s[k] = list(s[k])
        if k == "n":
            i = r.randrange(s["dim"])
            s[k][i] = 1 + s[k][i] % 3
        elif k == "a":
            s[k][0] *= 0.8
            s[k][1] += 0.05
        else:
            if s["kind"] not in (4, 5):
                s[k][0] += 0.5
        s["cells"] = None
        specs.append(s)
    if prop == "C22" and r.random() < 0.4 and specs[0]["cells"] is None:   # the same domain, some cells only
        k = ncells(specs[0])
        specs.append(dict(specs[0], cells=sorted(r.sample(range(k), r.randrange(1, k + 1)))))
    ops = [["B", i, 0, 0, 0, [], [], [0.0] * 6] for i in range(len(specs))]

    def some_cells(s, many=False):
        pool = s["cells"] if s["cells"] is not None else list(range(ncells(s)))
        k = r.random()
        if k < 0.5:
            c = list(pool)
        elif k < 0.55:
            c = []
        else:
            c = r.sample(pool, r.randrange(1, len(pool) + 1))
        if r.random() < 0.15 and c and not many:
            c = c + [r.choice(pool)]
        return c

    weights = {"C21": "QQQUUUIEIEG", "C22": "BAACCCPBQ", "C23": "RRRLLQ", "C24": "VVVVR"}[prop]
    for _ in range(r.choice([1, 2, 3, 4])):
        i = r.randrange(len(specs))
        s = specs[i]
        k = r.choice(weights)
        npts = r.choice([1, 2, 3, 3, 4, 5]) if s["dim"] == 2 else r.choice([1, 2, 3, 3])
        x = y = 0
        cells, facets, box = [], [], [0.0] * 6
        if k in "QUIEC":
            cells = some_cells(s)
        if k == "U":
            x, y = r.choice([0, 1, 1]), r.choice([0, 0, 1])
        if k in "IEC":
            cells = [c for c in cells for _ in range(r.choice([1, 2, 2 * s["dim"]]))]
            facets = [r.randrange(2 * s["dim"]) for _ in cells]
            if r.random() < 0.4:
                pool = s["cells"] if s["cells"] is not None else list(range(ncells(s)))
                cells = [c for c in pool for _ in range(2 * s["dim"])]
                facets = [f for _ in pool for f in range(2 * s["dim"])]
        if k in "RLV":
            # a mesh needs at least two points per direction
            npts = r.choice([2, 2, 3, 4, 5, 6, 8]) if s["dim"] == 2 else r.choice([2, 2, 3] if prop == "C23" else [2, 3, 3, 4])
            x = r.choice([0, 1])
            pool = s["cells"]
            cells = [-1] if pool is None and r.random() < 0.5 else sorted(set(some_cells(s, True)))
            if k == "V":
                y = r.choice([0, 1])
                facets = [r.choice([0, 1])]
            else:
                ops.append([k, i, npts, 1 - x, 0, list(cells), [], [0.0] * 6])
        if k == "G":
            x, y = r.choice([0, 0, 0, 1]), r.choice([0, 0, 1, 2])
            lo = [r.choice([0.0, -1.0, 0.5, 3.0]) for _ in range(3)]
            box = lo + [a + r.choice([0.25, 1.0, 2.0]) for a in lo]
            npts = r.choice([1, 2, 3, 5, 10])
        ops.append([k, i, npts, x, y, cells, facets, box])
    nth = r.choice([1, 2, 2, 3]) if prop != "C24" else r.choice([1, 1, 2])
    p = {"C21": 0.3, "C22": 0.3, "C23": 0.3, "C24": 0.75}[prop]

    def call():
        c = [r.randrange(len(ops)), 0.0, 0, 0, 0.0, -1]
        if r.random() < p:
            k = r.random()
            disk = ops[c[0]][0] == "V" and r.random() < 0.85
            if disk:
                if k < 0.5:
                    c[5] = int(r.choice([0, 1, 100, 400, 1000, 2000, 4000, 8000]) * r.uniform(0.5, 1.5))
                else:
                    c[4] = r.choice([0.02, 0.1, 0.3])
            elif k < 0.3:
                c[1] = r.choice([0.002, 0.02, 0.2])
            elif k < 0.6:
                c[2] = r.choice([1, 1, 2, 3, 4, 5, 8, 15, 30, 60])
            else:
                c[3] = r.choice([1, 2, 5, 10, 30, 100, 300, 1000])
        return c

    threads = [[call() for _ in range(r.choice([1, 2, 3]))] for _ in range(nth)]
    return {"specs": specs, "ops": ops, "threads": threads, "max_steps": 60000000,
            "p_switch": r.choice([0.0, 0.0002, 0.001, 0.005]), "p_sync": r.choice([0.05, 0.2, 0.5])}


def tokens(cfg):
    t = [len(cfg["specs"])]
    for s in cfg["specs"]:
        t += [s["dim"], s["kind"], 0 if s["cells"] is None else 1] + s["n"] + s["lo"] + s["hi"] + s["a"]
        t += [len(s["cells"] or [])] + (s["cells"] or [])
    t.append(len(cfg["ops"]))
    for o in cfg["ops"]:
        t += o[:5] + [len(o[5])] + o[5] + [len(o[6])] + o[6] + o[7]
    t.append(len(cfg["threads"]))
    for v in cfg["threads"]:
        t.append(len(v))
        for c in v:
            t += c
    return t


def execute(rs, cfg, active, trace=None, keep_log=False):
    return cpprun.run(_server, rs, cfg, active, trace, keep_log, tokens(cfg))


def shrink_config(cfg):
    out = []
    th = cfg["threads"]
    if len(th) > 1:
        for i in range(len(th)):
            out.append(dict(cfg, threads=th[:i] + th[i + 1:]))
    for i, v in enumerate(th):
        for j in range(len(v)):
            if len(v) > 1:
                out.append(dict(cfg, threads=th[:i] + [v[:j] + v[j + 1:]] + th[i + 1:]))
            if v[j][1:] != [0.0, 0, 0, 0.0, -1]:
                out.append(dict(cfg, threads=th[:i] + [v[:j] + [[v[j][0], 0.0, 0, 0, 0.0, -1]] + v[j + 1:]] + th[i + 1:]))
    used = {c[0] for v in th for c in v}
    for k in reversed(range(len(cfg["ops"]))):
        if k not in used:
            ops = cfg["ops"][:k] + cfg["ops"][k + 1:]
            out.append(dict(cfg, ops=ops, threads=[[[c[0] - (c[0] > k)] + c[1:] for c in v] for v in th]))
    for k, o in enumerate(cfg["ops"]):
        if len(o[5]) > 1 and len(o[6]) in (0, len(o[5])):
            for half in (slice(0, len(o[5]) // 2), slice(len(o[5]) // 2, None)):
                o2 = o[:5] + [o[5][half], o[6][half], o[7]]
                out.append(dict(cfg, ops=cfg["ops"][:k] + [o2] + cfg["ops"][k + 1:]))
    for k in range(len(cfg["specs"])):
        if len(cfg["specs"]) > 1 and all(o[1] != k for o in cfg["ops"]):
            ops = [[o[0], o[1] - (o[1] > k)] + o[2:] for o in cfg["ops"]]
            out.append(dict(cfg, specs=cfg["specs"][:k] + cfg["specs"][k + 1:], ops=ops))
    return out


def nontrivial(cfg, res):
    return res["probes"].get("cell-cut", 0) >= 1


COMPONENTS = {
    "real": ["cpp/qugar/*.cpp and its headers, except impl_reparam_bezier.cpp (instrumented at every memory access)", "libstdc++ containers and streams"],
    "stub": ["algoim (cppsim/algoim: dimension-reduction quadrature for implicit functions, strips for polynomials)",
             "thread scheduler, static-initialisation guards", "operator new/delete", "files below /simfs (fopen, write, writev, fclose)",
             "the user's implicit function (forwards to the library's, can throw)"],
}
