"""The tabulation shim at run time (properties C05-C08).

Real code: qugar_basix_shim.cpp (memory accesses instrumented) and libbasix.
Simulated: thread scheduling, locks, atomics, static-local guards, operator new.
"""
import os
import random

from scenarios import cpprun
from scenarios.cpprun import VERIF

OUT = VERIF / "build" / "shimsim"
NVALID, NINVALID = 34, 6
MEM = {"use-after-free", "data-race", "deadlock", "no-progress", "crash", "hang", "bad-unlock", "exception-escaped"}
CLASSES = {
    "C05": MEM | {"handle-unstable", "handle-shared", "size-wrong", "register-failed"},
    "C06": MEM | {"invalid-accepted", "size-wrong", "handle-unstable", "handle-shared", "register-failed", "retry-failed",
                  "tabulate-failed", "wrong-values", "scratch-null", "scratch-small", "wrong-code"},
    "C07": MEM | {"wrong-values", "out-of-bounds", "wrong-shape", "bad-handle-accepted", "small-buffer-accepted",
                  "tabulate-failed", "wrong-code"},
    "C08": MEM | {"scratch-shared", "scratch-small", "scratch-null", "out-of-bounds"},
}
_server = None


def prepare(prop):
    cpprun.build("build_shim.sh", OUT)


def setup(prop):
    global _server
    _server = cpprun.Server(OUT / "shimsim")


def gen_config_for(rs, prop):
    r = random.Random(f"cfg/{prop}/{rs}")
    nth = r.choice([1, 2, 2, 3, 3, 4]) if prop != "C06" else r.choice([1, 1, 1, 2, 2, 3])
    nk = r.choice([1, 2, 2, 3, 4])
    k0 = r.randrange(NVALID - 4)        # neighbours differ in one parameter
    keys = r.sample(range(NVALID), nk) if r.random() < 0.5 else list(range(k0, k0 + nk))
    types = r.choice([[0], [0], [1], [0, 1]])
    faulty = prop == "C06" or r.random() < 0.15

    def fault():
        if not faulty or r.random() < 0.5:
            return [0.0, 0, 0]
        k = r.random()
        if k < 0.45:
            return [0.0, r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8]), 0]
        if k < 0.75:
            return [0.0, 0, r.choice([1, 2, 3, 5, 10, 20, 50, 100, 200, 400])]
        return [r.choice([0.005, 0.05, 0.4]), 0, 0]

    weights = {"C05": "RRRRRTTSZ", "C06": "RRRRTTSIIGZ", "C07": "RRRTTTTTTSB", "C08": "GGGGGGRT"}[prop]

    def op():
        k = r.choice(weights)
        ty = r.choice(types)
        key = r.choice(keys)
        if k == "I":
            return ["R", ty, NVALID + r.randrange(NINVALID), 0, 0, 0] + fault()
        if k == "R":
            return ["R", ty, key, 0, 0, 0] + fault()
        if k == "S":
            return ["S", ty, key, r.randrange(3), r.randrange(3), 0] + fault()
        if k == "T":
            return ["T", ty, key, r.randrange(3), r.randrange(3), r.choice([0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8])] + fault()
        if k == "B":
            return ["B", ty, key, r.randrange(3), r.randrange(3), r.randrange(5), 0.0, 0, 0]
        if k == "G":
            return ["G", ty, r.randrange(11) if prop == "C06" else r.choice([1, 2, 3, 4, 5, 6, 7, 3, 4, 5, 6, 7, 8, 0, 10]), 0, 0, 0] + fault()
        return ["Z", ty, 0, 0, 0, 0, 0.0, 0, 0]

    phases = []
    for ph in range(r.choice([1, 1, 2, 2, 3])):
        ths = []
        for _ in range(nth):
            ops = []
            if prop != "C08":        # a kernel always registers before it tabulates
                for k in r.sample(keys, r.randrange(1, len(keys) + 1)):
                    ops.append(["R", r.choice(types), k, 0, 0, 0] + fault())
            ops += [op() for _ in range(r.choice([1, 2, 4, 6]))]
            ths.append(ops)
        phases.append([1 if ph and r.random() < 0.5 else 0, ths])
    return {"phases": phases, "p_switch": r.choice([0.0, 0.002, 0.01, 0.05, 0.2]), "p_sync": r.choice([0.05, 0.2, 0.5])}


def tokens(cfg):
    t = [len(cfg["phases"])]
    for reset, ths in cfg["phases"]:
        t += [reset, len(ths)]
        for ops in ths:
            t.append(len(ops))
            for o in ops:
                t += o
    return t


def execute(rs, cfg, active, trace=None, keep_log=False):
    return cpprun.run(_server, rs, cfg, active, trace, keep_log, tokens(cfg))


def shrink_config(cfg):
    out = []
    ph = cfg["phases"]
    for i in range(len(ph)):
        if len(ph) > 1:
            out.append(dict(cfg, phases=ph[:i] + ph[i + 1:]))
    for i, (reset, ths) in enumerate(ph):
        for j in range(len(ths)):
            if len(ths) > 1:
                out.append(dict(cfg, phases=ph[:i] + [[reset, ths[:j] + ths[j + 1:]]] + ph[i + 1:]))
        for j, ops in enumerate(ths):
            for k in range(len(ops)):
                if len(ops) > 1:
                    out.append(dict(cfg, phases=ph[:i] + [[reset, ths[:j] + [ops[:k] + ops[k + 1:]] + ths[j + 1:]]] + ph[i + 1:]))
                if ops[k][6] or ops[k][7] or ops[k][8]:
                    o2 = ops[:k] + [ops[k][:6] + [0.0, 0, 0]] + ops[k + 1:]
                    out.append(dict(cfg, phases=ph[:i] + [[reset, ths[:j] + [o2] + ths[j + 1:]]] + ph[i + 1:]))
        if reset:
            out.append(dict(cfg, phases=ph[:i] + [[0, ths]] + ph[i + 1:]))
    return out


def nontrivial(cfg, res):
    return res["switches"] >= 3 and (res["probes"].get("registered", 0) >= 2 or res["probes"].get("scratch", 0) >= 2)


COMPONENTS = {
    "real": ["python/qugar/dolfinx/_shim/qugar_basix_shim.cpp (instrumented at every memory access)", "libbasix.so", "libstdc++ containers"],
    "stub": ["thread scheduler, mutexes, atomics, static-initialisation guards", "operator new/delete"],
}
