"""Generated kernels (properties C09, C10).

Real code: qugar.dolfinx.{compiler,codegeneration,_kernel_body,fe_table,
integral_data,quadrature_data,boundary,parsing_utils}, the C kernels they
produce (compiled and instrumented), the tabulation shim (instrumented),
libbasix and basix.ufl. Stand-ins: FFCx, UFL (ffcxfake); thread scheduling and
operator new (cppsim).
"""

from __future__ import annotations

import hashlib
import os
import random
import shutil
import subprocess
from pathlib import Path

import numpy as np

from scenarios import cpprun
from scenarios import ffcxfake as fx
from scenarios.cpprun import VERIF

OUT = VERIF / "build" / "kernsim"
MEM = {"use-after-free", "out-of-bounds", "data-race", "deadlock", "no-progress", "crash", "hang", "bad-unlock", "exception-escaped", "input-changed"}
CLASSES = {
    "C09": {"wrong-tensor", "data-race", "kernel-does-not-compile", "generation-failed", "order-differs", "metadata-wrong", "crash", "hang", "out-of-bounds", "use-after-free"},
    "C10": MEM | {"wrong-tensor", "partial-tensor"},
}
_server = None
_mods = None
_dir = None


def prepare(prop):
    cpprun.build("build_kern.sh", OUT)
    d = VERIF / "build" / "kern-inc"
    d.mkdir(parents=True, exist_ok=True)
    (d / "ufcx.h").write_text(fx.UFCX)


def setup(prop):
    global _server, _mods, _dir
    _server = cpprun.Server(OUT / "kernsim")
    if _mods is None:
        fx.install()
        import qugar.dolfinx.compiler as compiler
        import qugar.dolfinx.boundary as boundary
        _mods = (compiler, boundary)
    _dir = VERIF / "build" / "kern-work" / str(os.getpid())
    shutil.rmtree(_dir, ignore_errors=True)
    _dir.mkdir(parents=True)
    import atexit
    pid = os.getpid()
    atexit.register(lambda d=_dir: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))


# --------------------------------------------------------------------- elements
def _el(*a, **k):
    import basix.ufl
    return basix.ufl.element(*a, **k)


def pool(cell, facet=False):
    import basix
    import basix.ufl as bu
    mix = bu.mixed_element
    DV = basix.DPCVariant
    if cell == "interval":
        return [lambda: _el("P", cell, 1), lambda: _el("P", cell, 2), lambda: _el("P", cell, 0, discontinuous=True)]
    d = {"triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}[cell]
    common = [lambda: _el("P", cell, 1), lambda: _el("P", cell, 1), lambda: _el("P", cell, 1, shape=(d,)),
              lambda: _el("P", cell, 0, discontinuous=True), lambda: _el("P", cell, 1, discontinuous=True),
              lambda: _el("RT", cell, 1), lambda: _el("N1E", cell, 1)]
    if facet:
        return common[:5]
    if d == 2:
        common += [lambda: _el("P", cell, 2), lambda: _el("P", cell, 2, shape=(2,)), lambda: _el("P", cell, 2),
                   lambda: mix([_el("P", cell, 2, shape=(2,)), _el("P", cell, 1)]), lambda: mix([_el("RT", cell, 1), _el("P", cell, 0, discontinuous=True)]),
                   lambda: mix([_el("P", cell, 1), mix([_el("N1E", cell, 1), _el("P", cell, 1)])]),
                   lambda: _el("P", cell, 1, shape=(2, 2)), lambda: _el("P", cell, 1, shape=(2, 2), symmetry=True), lambda: _el("P", cell, 1, shape=(1,)),
                   lambda: _el("P", cell, 3), lambda: _el("bubble", cell, 3 if cell == "triangle" else 2), lambda: _el("RT", cell, 2)]
    else:
        common += [lambda: _el("P", cell, 2), lambda: mix([_el("P", cell, 1, shape=(3,)), _el("P", cell, 1)]),
                   lambda: mix([_el("N1E", cell, 1), _el("P", cell, 1)])]
    if cell == "triangle":
        common += [lambda: _el("CR", cell, 1), lambda: _el("iso", cell, 2), lambda: _el("Regge", cell, 0), lambda: _el("N1E", cell, 2),
                   lambda: bu.enriched_element([_el("P", cell, 1), _el("bubble", cell, 3)])]
    if cell == "quadrilateral":
        common += [lambda: _el("DPC", cell, 1, dpc_variant=DV.legendre, discontinuous=True),
                   lambda: _el("serendipity", cell, 2, lagrange_variant=basix.LagrangeVariant.legendre, dpc_variant=DV.legendre)]
    return common


_pools = {}


def element(cell, k, facet=False):
    key = (cell, facet)
    if key not in _pools:
        _pools[key] = [f() for f in pool(cell, facet)]
    return _pools[key][k % len(_pools[key])]


CELLS = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
S_NAMES = ["double", "float", "double _Complex", "float _Complex"]
DTYPES = [np.float64, np.float32, np.complex128, np.complex64]


# ------------------------------------------------------------------ configuration
def gen_config_for(rs, prop):
    r = random.Random(f"kern/{prop}/{rs}")
    forms = []
    for _ in range(r.choice([1, 1, 2]) if prop == "C09" else r.choice([1, 2, 2])):
        cell = r.choices(CELLS, [5, 5, 2, 2])[0]
        big = 99 if cell in CELLS[:2] else 99
        f = {"cell": cell, "gdeg": r.choice([1, 1, 1, 2]) if cell in CELLS[:2] else 1, "rank": r.choice([0, 1, 1, 2, 2]),
             "args": [r.randrange(big), r.randrange(big)], "coeffs": [r.randrange(big) for _ in range(r.choice([0, 1, 1, 2, 3]))],
             "dtype": r.choices([0, 1, 2, 3], [5, 2, 2, 1])[0], "nconst": r.choice([0, 1, 2]), "nnormals": r.choice([1, 1, 2]),
             "constseed": r.randrange(1 << 30), "mixed_arg": 0, "integrals": []}
        mixed = r.random() < 0.12
        for _ in range(r.choice([1, 1, 2])):
            it = "exterior_facet" if mixed else r.choices(["cell", "exterior_facet", "interior_facet"], [5, 2, 3])[0]
            rules = []
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                unf = it == "cell" and r.random() < 0.4
                rules.append({"unf": unf, "deg": r.choice([0, 1, 2, 2, 3, 4]), "terms": [r.randrange(1 << 30) for _ in range(r.choice([1, 1, 2, 3]))]})
            f["integrals"].append({"itype": it, "mixed": mixed, "rules": rules, "dmax": r.choice([0, 1, 1, 1, 2]), "one_sided": r.random() < 0.15})
        if mixed:
            f["mixed_arg"] = r.choice([1, 2])       # this argument (from the end) or coefficient lives on the facets
        forms.append(f)
    jobs = []
    for _ in range(r.choice([1, 2, 3, 4])):
        fi = r.randrange(len(forms))
        jobs.append({"form": fi, "itg": r.randrange(len(forms[fi]["integrals"])), "status": r.choices([1, 2, 0], [7, 2, 1])[0],
                     "npts": [r.choice([1, 2, 3, 5, 8, 0]) for _ in range(4)], "seed": r.randrange(1 << 30), "pad": r.choice([0, 0, 1, 3, 10])})
    faulty = prop == "C10"
    nth = r.choice([1, 1, 2, 3]) if prop == "C10" else r.choice([1, 1, 1, 2])

    def arm():
        if not faulty or r.random() < 0.4:
            return [0.0, 0, 0]
        k = r.random()
        if k < 0.6:
            return [0.0, r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8]), 0]
        if k < 0.8:
            return [0.0, 0, r.choice([1, 2, 3, 5, 10, 20, 50, 100])]
        return [r.choice([0.02, 0.1, 0.5]), 0, 0]
    threads = [[[r.randrange(len(jobs))] + arm() for _ in range(r.choice([1, 2, 3]))] for _ in range(nth)]
    return {"forms": forms, "jobs": jobs, "threads": threads, "num": r.randrange(1 << 30), "p_switch": r.choice([0.0, 0.0, 0.001, 0.01]),
            "p_sync": r.choice([0.05, 0.2, 0.5])}


# ------------------------------------------------------------------ building forms
class SkipCase(Exception):
    pass


def build_form(fi, f):
    """The UFL-like form and everything the oracle needs to know about it."""
    import basix.ufl
    cell = f["cell"]
    tdim = fx.Cell(cell).topological_dimension()
    dom = fx.Domain(cell)
    dt = f["dtype"]
    S = S_NAMES[dt]
    R = "float" if dt in (1, 3) else "double"
    coord = _el("P", cell, f["gdeg"], shape=(tdim,))
    args, mixed = [], any(i["mixed"] for i in f["integrals"])
    for k in range(f["rank"]):
        on_facet = mixed and f["mixed_arg"] == 1 and k == f["rank"] - 1
        args.append(fx.Argument(element(fx.FACET[cell] if on_facet else cell, f["args"][k], on_facet), k))
    coeffs = []
    for j, c in enumerate(f["coeffs"]):
        on_facet = mixed and f["mixed_arg"] == 2 and j == len(f["coeffs"]) - 1
        coeffs.append(fx.Coefficient(element(fx.FACET[cell] if on_facet else cell, c, on_facet)))
    if mixed and not any(e.ufl_element().cell.topological_dimension() != tdim for e in args + coeffs):
        mixed = False
    r = random.Random(f"const/{f['constseed']}")
    consts, off = [], 0
    unf = any(q["unf"] for i in f["integrals"] for q in i["rules"])
    kinds = ["c"] * f["nconst"] + (["n"] * f["nnormals"] if unf else [])
    r.shuffle(kinds)
    mesh = fx.Mesh()
    mesh.topology = fx.Obj(dim=tdim)
    mesh.geometry = fx.Obj(x=np.zeros((1, 3), dtype=np.float32 if R == "float" else np.float64), dim=tdim)
    boundary = _mods[1]
    coffs, noffs = [], []
    for k in kinds:
        if k == "n":
            c = boundary.ParamNormal(mesh)
            noffs.append(off)
            size = tdim
        else:
            size = r.choice([1, 1, 2, 4])
            c = fx.Constant(mesh, np.zeros(size))
            coffs += range(off, off + size)
        consts.append((c, off))
        off += size
    cl, o = [], 0
    integrals = []
    fake_pts = None
    for k, it in enumerate(f["integrals"]):
        width = 2 if it["itype"] == "interior_facet" else 1
        offs, o = [], 0
        for c in coeffs:
            offs.append(o)
            o += width * c.ufl_element().dim
        dims = [width * a.ufl_element().dim for a in args]
        spec = {"cell": cell, "itype": it["itype"], "mixed": mixed, "coord": coord, "coeffs": coeffs, "coeff_offsets": offs, "constants": consts,
                "dims": dims, "ctype": S, "rtype": R, "name": "integral_" + hashlib.sha1(repr((fi, k, f)).encode()).hexdigest()[:40], "ncoeff": o,
                "ref_scale": [round(0.4 + 0.3 * j, 3) for j in range(fx.Cell(cell).num_facets())], "nconst": off}
        us = []
        seen_unf = False
        for q in it["rules"]:
            if q["unf"] and seen_unf:
                continue                  # every unfitted boundary term shares one rule
            terms = [make_term(s, f, it, spec, args, coeffs, coffs, noffs if q["unf"] else [], tdim, dom) for s in q["terms"]]
            if q["unf"]:
                seen_unf = True
                md = unfitted_metadata(mesh)
                md.setdefault("quadrature_degree", 2)
            else:
                md = {"quadrature_rule": "default", "quadrature_degree": q["deg"]}
            us.append(fx.UIntegral(it["itype"], dom, md, terms))
        spec["uintegrals"] = us
        integrals.append(spec)
    return {"integrals": integrals, "elements": [a.ufl_element() for a in args], "args": args, "spec": f}


def unfitted_metadata(mesh):
    b = _mods[1]
    m = object.__new__(b.ds_bdry_unf)
    try:
        return dict(m._create_custom_metadata(mesh))
    except AttributeError:
        dim = mesh.topology.dim
        return {"quadrature_rule": "custom", "quadrature_points": [[0.1] * dim, [0.2] * dim], "quadrature_weights": [-1.0, -1.0],
                "custom_unfitted_boundary": True}


def make_term(seed, f, it, spec, args, coeffs, coffs, noffs, tdim, dom):
    r = random.Random(f"term/{seed}")
    interior = it["itype"] == "interior_facet"
    sides = ["+"] if it["one_sided"] else ["+", "-"]

    def side():
        return r.choice(sides) if interior else None

    def derivs(el):
        d = [0] * el.cell.topological_dimension()
        for _ in range(r.choice([0, 0, 1, 1, 2]) if it["dmax"] == 2 else r.choice([0, it["dmax"]])):
            d[r.randrange(len(d))] += 1
        return tuple(d)

    def mt(t):
        el = t.ufl_element()
        n = el.block_size if el.block_size > 1 else el.reference_value_size
        return fx.ModifiedTerminal(t, el, r.randrange(n), derivs(el), side())

    def J(i, j, restr):
        d = [0] * tdim
        d[j] = 1
        return ("J", fx.ModifiedTerminal(fx.Jacobian(dom), spec["coord"], i, tuple(d), restr), i, j)
    jr = "+" if interior else None
    fac = [J(i, i, jr) for i in range(2)]
    if spec["itype"] != "cell":
        fac.append(("ref", "+" if interior else None))
        if interior and not it["one_sided"]:
            fac.append(("ref", "-"))
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.choice(["c", "w", "w", "x", "J", "lit"])
        if k == "c" and coffs:
            fac.append(("c", r.choice(coffs)))
        elif k == "w" and coeffs:
            cf = r.randrange(len(coeffs))
            fac.append(("w", mt(coeffs[cf]), cf))
        elif k == "x":
            fac.append(("x", fx.ModifiedTerminal(fx.SpatialCoordinate(dom), spec["coord"], (i := r.randrange(tdim)), (0,) * tdim, side()), i))
        elif k == "J":
            fac.append(J(r.randrange(tdim), r.randrange(tdim), side()))
        elif k == "lit":
            fac.append(("lit", r.choice([0.5, 2.0, -3.0])))
    if noffs:
        for _ in range(r.choice([1, 1, 2])):
            fac.append(("c", r.choice(noffs) + r.randrange(tdim)))
    for i in range(2, len(fac)):
        if r.random() < 0.3 and fac[i][0] != "ref":
            op = r.choice(fx.OPS)
            fac[i] = (op, fac[i], r.choice(fac[2:])) if op in ("sum", "cond") else (op, fac[i])
    r.shuffle(fac)
    return {"factors": fac, "args": [mt(a) for a in args], "style": r.randrange(2)}


# --------------------------------------------------------------------------- jobs
def facet_points(cell, f, t):
    return fx.map_facet_points(cell, f, t)


def rand_pts(r, cell, n):
    d = fx.Cell(cell).topological_dimension() if cell != "point" else 0
    p = np.array([[r.uniform(0.05, 0.95) for _ in range(d)] for _ in range(n)]).reshape(n, d)
    if cell in ("triangle", "tetrahedron"):
        p = p / d
    return p


def make_job(j, F, made, order):
    """Inputs of one kernel call and what it must add to the tensor."""
    r = random.Random(f"job/{j['seed']}")
    spec = F["integrals"][j["itg"]]
    cell, itype, mixed = spec["cell"], spec["itype"], spec["mixed"]
    maker = made[j["itg"]].maker
    rules = maker.s["rules"]
    tdim = fx.Cell(cell).topological_dimension()
    cplx = "_Complex" in spec["ctype"]
    f32 = spec["rtype"] == "float"
    rd = (lambda v: float(np.float32(v))) if f32 else float
    status = j["status"]
    width = 2 if itype == "interior_facet" else 1

    def num():
        return complex(rd(r.uniform(-1, 1)), rd(r.uniform(-1, 1))) if cplx else rd(r.uniform(-1, 1))
    w = [num() for _ in range(spec["ncoeff"])]
    c = [num() for _ in range(spec["nconst"])]
    sc = spec["coord"].sub_elements[0]
    xr = np.asarray(sc.basix_element.points)
    X = []
    for _ in range(width):
        for p in xr:
            q = [rd(v + r.uniform(-0.15, 0.15)) for v in p]
            X += q + [0.0] * (3 - tdim)
    nf = fx.Cell(cell).num_facets()
    ent = [r.randrange(nf), r.randrange(nf)]
    fcell = fx.FACET[cell]
    perm = [0, 0]
    if itype == "interior_facet" or mixed:
        perm = [r.randrange(fx.NPERM[fcell]) for _ in range(2)]
        if itype != "interior_facet":
            perm[1] = 0
    # quadratures
    Q = {}
    for k, q in enumerate(rules):
        unf = unfitted_rule(spec, q)
        n = j["npts"][k % len(j["npts"])]
        if status == 1:
            if itype == "cell":
                p0 = rand_pts(r, cell, n)
                p1 = fp = None
            else:
                fp = rand_pts(r, fcell, n)
                p0 = facet_points(cell, ent[0], fp)
                p1 = facet_points(cell, ent[1], rand_pts(r, fcell, n)) if itype == "interior_facet" else None
            p0 = np.vectorize(rd)(p0) if p0.size else p0
            if p1 is not None and p1.size:
                p1 = np.vectorize(rd)(p1)
            if fp is not None and fp.size:
                fp = np.vectorize(rd)(fp)
            W = [rd(r.uniform(0.1, 1)) for _ in range(n)]
            N = [[rd(r.uniform(-1, 1)) for _ in range(tdim)] for _ in range(n)] if unf else None
            Q[k] = (p0, p1, fp, W, N)
        else:
            pts, W = q["rule"].points, [float(v) for v in q["rule"].weights]
            if itype == "cell":
                Q[k] = (pts, None, None, W, None)
            else:
                Q[k] = (fx.map_facet_points(cell, ent[0], fx.permute(fcell, pts, perm[0])),
                        fx.map_facet_points(cell, ent[1], fx.permute(fcell, pts, perm[1])) if itype == "interior_facet" else None, pts, W, None)
    # expected tensor
    nA = int(np.prod(spec["dims"])) if spec["dims"] else 1
    E = np.zeros(spec["dims"] or [1], dtype=complex)
    scale = 1.0
    noff = {o + i: i for cst, o in spec["constants"] if type(cst).__name__ == "ParamNormal" for i in range(tdim)}
    for k, q in enumerate(rules):
        unf = unfitted_rule(spec, q)
        if status == 0 or (status == 2 and unf):
            continue
        p0, p1, fp, W, N = Q[k]
        if len(W) == 0:
            continue

        def tab(mt):
            el = mt.mte.element
            if el.cell.topological_dimension() != tdim:
                pts = fp
            else:
                pts = p1 if mt.restriction == "-" else p0
            tr = maker.table(k, mt)
            t, off, st = fx.eval_table(el, mt.mte.fc, mt.mte.local_derivatives, pts)
            if tr.ttype == "zeros":
                t = np.zeros_like(t)
            return t, off + (el.dim if mt.restriction == "-" else 0), st

        def value(fct):
            kd = fct[0]
            if kd in fx.OPS:
                return fx.operate(kd, cplx, [value(x) for x in fct[1:]])
            if kd == "lit":
                return fct[1]
            if kd == "c":
                if unf and fct[1] in noff:
                    return np.array([nn[noff[fct[1]]] for nn in N])
                return c[fct[1]]
            if kd == "ref":
                return spec["ref_scale"][ent[1 if fct[1] == "-" else 0]]
            T, off, st = tab(fct[1])
            if kd == "w":
                base = spec["coeff_offsets"][fct[2]] + off
                return T @ np.array([w[base + st * i] for i in range(T.shape[1])])
            sh = 3 * len(xr) * (1 if fct[1].restriction == "-" else 0)
            return T @ np.array([X[sh + 3 * i + fct[2]] for i in range(T.shape[1])])
        for t in q["terms"]:
            val = np.array(W, dtype=complex)
            for fct in t["factors"]:
                val = val * value(fct)
            A = []
            for mt in t["args"]:
                T, off, st = tab(mt)
                A.append((T, [off + st * i for i in range(T.shape[1])]))
            if not A:
                D = np.array([val.sum()])
                E[0] += D[0]
                scale = max(scale, np.abs(val).sum())
            elif len(A) == 1:
                D = val @ A[0][0]
                np.add.at(E, A[0][1], D)
                scale = max(scale, (np.abs(val) @ np.abs(A[0][0])).max())
            else:
                D = np.einsum("q,qi,qj->ij", val, A[0][0], A[1][0])
                E[np.ix_(A[0][1], A[1][1])] += D
                scale = max(scale, np.einsum("q,qi,qj->ij", np.abs(val), np.abs(A[0][0]), np.abs(A[1][0])).max())
    # layout of w: coefficients, marker slot, then this entity's data
    rs_ = 4 if f32 else 8
    words = []
    for v in w:
        words += [v.real, v.imag] if cplx else [v]
    slot = len(words) * rs_
    words += [0.0] * (max(8, rs_ * (2 if cplx else 1)) // rs_)
    off = {0: 0, 2: -1}.get(status)
    if status == 1:
        words += [-1e30] * j["pad"]
        off = len(words)
        by = {q["rule"].id(): k for k, q in enumerate(rules)}
        for name in order:
            p0, p1, fp, W, N = Q[by[name]]
            words.append(float(len(W)))
            words += list(p0.ravel())
            if itype == "interior_facet":
                words += list(p1.ravel())
            if mixed:
                words += list(fp.ravel())
            words += W
            if N is not None:
                words += [x for n in N for x in n]
    Cw = [x for v in c for x in ([v.real, v.imag] if cplx else [v])]
    flat = E.ravel()
    Ew = [x for v in flat for x in ([v.real, v.imag] if cplx else [v.real])]
    return [status, nA, len(words), slot, off, ent[0], ent[1], perm[0], perm[1], repr(float(scale)),
            len(words)] + [repr(float(x)) for x in words] + [len(Cw)] + [repr(x) for x in Cw] + [len(X)] + [repr(x) for x in X] + \
        [len(Ew)] + [repr(float(x)) for x in Ew]


def unfitted_rule(spec, q):
    h = hash(q["rule"])
    for u in spec["uintegrals"]:
        md = u.metadata()
        if md.get("custom_unfitted_boundary"):
            ru = fx.rule_of(u, None)
            if hash(ru) == h:
                return True
    return False


# ------------------------------------------------------------------------- execution
def generate(F, f, shuffle):
    """Runs the real compiler on one form; (code, itg_data, irs)."""
    compiler = _mods[0]
    els = {}
    for it in F["integrals"]:
        for e in F["elements"] + [c.ufl_element() for c in it["coeffs"]] + [it["coord"]]:
            els[repr(e)] = None
    names = sorted(els)
    random.Random(shuffle).shuffle(names)
    fx.job.irs = []
    fx.job.numbering = {n: i for i, n in enumerate(names)}
    opts = {"scalar_type": np.dtype(DTYPES[f["dtype"]]).name, "sum_factorization": False}
    h, c, data = compiler.compile_ufl_objects([F], options=opts, prefix="k")
    return h + c, data, list(fx.job.irs)


class Found(Exception):
    def __init__(self, klass, msg):
        self.klass, self.msg = klass, msg


def custom_element(F):
    def has(e):
        subs = list(e.sub_elements)
        if subs:
            return any(has(s) for s in subs)
        return "custom" in str(getattr(e, "element_family", "")) or "custom" in repr(e)
    return any(has(e) for e in F["elements"] + [c.ufl_element() for i in F["integrals"] for c in i["coeffs"]])


def compile_so(code, key):
    so = _dir / f"k{key}.so"
    if so.exists():
        return so
    c = _dir / f"k{key}.c"
    c.write_text(code)
    cmd = ["gcc", "-std=c17", "-O1", "-w", "-fPIC", "-fno-strict-aliasing", "-fsanitize=thread", "-I", str(VERIF / "build" / "kern-inc"),
           "-c", str(c), "-o", str(c) + ".o"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode == 0:
        p = subprocess.run(["gcc", "-shared", str(c) + ".o", "-o", str(so), "-lm"], capture_output=True, text=True)
    if p.returncode != 0:
        errs = [ln for ln in p.stderr.splitlines() if "error" in ln]
        raise Found("kernel-does-not-compile", "the generated C is refused: " + (errs or p.stderr.splitlines() or ["?"])[0].split("error:")[-1].strip())
    os.unlink(c)
    os.unlink(str(c) + ".o")
    return so


def execute(rs, cfg, active, trace=None, keep_log=False):
    base = {"violation": None, "digest": "", "sched": "", "steps": 0, "faults": {}, "probes": {}, "sim_s": 0.0, "choices": {},
            "switches": 0, "log": [], "hang": False, "extra": {}}
    log = []
    try:
        toks, probes = prepare_case(cfg, log)
    except Found as e:
        v = {"class": e.klass, "msg": e.msg}
        base["digest"] = hashlib.sha1(repr((v, log)).encode()).hexdigest()
        base["log"] = log + [e.msg]
        if e.klass in active:
            base["violation"] = v
        else:
            base["other"] = e.klass
        return base
    except SkipCase as e:
        base["digest"] = hashlib.sha1(repr(("skip", str(e), cfg["forms"])).encode()).hexdigest()
        base["probes"] = {str(e): 1}
        return base
    res = cpprun.run(_server, rs, cfg, active, trace, keep_log, toks)
    for k in probes:
        res["probes"][k] = res["probes"].get(k, 0) + probes[k]
    res["log"] = log + res["log"]
    return res


def prepare_case(cfg, log):
    kernels, index = [], {}
    forms = []
    probes = {}
    for fi, f in enumerate(cfg["forms"]):
        F = build_form(fi, f)
        bad = custom_element(F)
        try:
            code, data, irs = generate(F, f, cfg["num"])
        except Exception as e:
            gap = fx.stub_gap(e)
            if gap:
                raise SkipCase("stub-gap " + gap) from None
            why = "custom-element-refused" if bad else "coincidence-refused" if any(i.maker.coincidence for i in fx.job.irs) else None
            if why and isinstance(e, ValueError):
                probes[why] = probes.get(why, 0) + 1
                forms.append(None)
                continue
            raise Found("generation-failed", f"generating a valid kernel raised {type(e).__name__}: {e}") from None
        # another session numbers the elements differently but may load this kernel
        F2 = build_form(fi, f)
        try:
            _c, data2, _i = generate(F2, f, cfg["num"] + 1)
        except Exception as e:
            raise Found("generation-failed", f"generating a valid kernel again raised {type(e).__name__}: {e}") from None
        orders = [[q.name for q in d.quad_data_FE_tables] for d in data]
        if orders != [[q.name for q in d.quad_data_FE_tables] for d in data2]:
            raise Found("order-differs", "the order of the quadratures depends on how a session numbers the elements")
        for it, d, ir in zip(F["integrals"], data, irs):
            if d.integral_type != it["itype"] or d.tdim != fx.Cell(it["cell"]).topological_dimension() or bool(d.is_mixed_dim) != uses_mixed(it, ir.maker):
                raise Found("metadata-wrong", f"integral data say {d.integral_type}, dimension {d.tdim}, mixed {d.is_mixed_dim}")
        key = hashlib.sha1(code.encode()).hexdigest()[:16]
        so = compile_so(code, key)
        forms.append((F, irs, orders, so))
        log.append(f"form {fi}: {f['cell']} rank {f['rank']} " + ", ".join(i["itype"] + ":" + "/".join(o) for i, o in zip(F["integrals"], orders)))
        probes["kernels"] = probes.get("kernels", 0) + len(data)
    toks_k, toks_j = [], []
    jmap = {}
    for ji, j in enumerate(cfg["jobs"]):
        if forms[j["form"]] is None:
            continue
        F, irs, orders, so = forms[j["form"]]
        key = (j["form"], j["itg"])
        if key not in index:
            index[key] = len(kernels)
            kernels.append([so, irs[j["itg"]].maker.fn, cfg["forms"][j["form"]]["dtype"]])
        spec = F["integrals"][j["itg"]]
        spec["mixed"] = uses_mixed(spec, irs[j["itg"]].maker)
        jmap[ji] = len(jmap)
        t = make_job(j, F, irs, orders[j["itg"]])
        toks_j += [index[key], t[0], t[1], t[3], t[4]] + t[5:]
    if not jmap:
        raise SkipCase("nothing-to-run")
    for k in kernels:
        toks_k += k
    th = [[c for c in ops if c[0] in jmap] for ops in cfg["threads"]]
    toks_t = [len(th)]
    for ops in th:
        toks_t.append(len(ops))
        for c in ops:
            toks_t += [jmap[c[0]]] + c[1:]
    return [len(kernels)] + toks_k + [len(jmap)] + toks_j + toks_t, probes


def uses_mixed(spec, maker):
    """Whether a tabulated table of an element of the facets occurs in the integral."""
    return maker.facet_tables


def shrink_config(cfg):
    out = []
    J, T = cfg["jobs"], cfg["threads"]
    for i in range(len(T)):
        if len(T) > 1:
            out.append(dict(cfg, threads=T[:i] + T[i + 1:]))
        for k in range(len(T[i])):
            if T[i][k][1] or T[i][k][2] or T[i][k][3]:
                out.append(dict(cfg, threads=T[:i] + [T[i][:k] + [[T[i][k][0], 0.0, 0, 0]] + T[i][k + 1:]] + T[i + 1:]))
            if len(T[i]) > 1:
                out.append(dict(cfg, threads=T[:i] + [T[i][:k] + T[i][k + 1:]] + T[i + 1:]))
    for i in range(len(J)):
        if len(J) > 1:
            th = [[[c[0] - (c[0] > i)] + c[1:] for c in ops if c[0] != i] for ops in T]
            out.append(dict(cfg, jobs=J[:i] + J[i + 1:], threads=[o for o in th if o] or [[]]))
        if J[i]["pad"]:
            out.append(dict(cfg, jobs=J[:i] + [dict(J[i], pad=0)] + J[i + 1:]))
    for fi, f in enumerate(cfg["forms"]):
        used = {j["form"] for j in J}
        if fi not in used and len(cfg["forms"]) > 1:
            out.append(dict(cfg, forms=cfg["forms"][:fi] + cfg["forms"][fi + 1:], jobs=[dict(j, form=j["form"] - (j["form"] > fi)) for j in J]))

        def put(g, **k):
            out.append(dict(cfg, forms=cfg["forms"][:fi] + [g] + cfg["forms"][fi + 1:], **k))
        for k, it in enumerate(f["integrals"]):
            if len(f["integrals"]) > 1 and not any(j["form"] == fi and j["itg"] == k for j in J):
                put(dict(f, integrals=f["integrals"][:k] + f["integrals"][k + 1:]),
                    jobs=[dict(j, itg=j["itg"] - (j["itg"] > k)) if j["form"] == fi else j for j in J])

            def puti(i2):
                put(dict(f, integrals=f["integrals"][:k] + [i2] + f["integrals"][k + 1:]))
            for m, q in enumerate(it["rules"]):
                if len(it["rules"]) > 1:
                    puti(dict(it, rules=it["rules"][:m] + it["rules"][m + 1:]))
                for n in range(len(q["terms"])):
                    if len(q["terms"]) > 1:
                        puti(dict(it, rules=it["rules"][:m] + [dict(q, terms=q["terms"][:n] + q["terms"][n + 1:])] + it["rules"][m + 1:]))
            if it["dmax"]:
                puti(dict(it, dmax=it["dmax"] - 1))
        if f["coeffs"]:
            put(dict(f, coeffs=f["coeffs"][:-1]))
        if f["rank"]:
            put(dict(f, rank=f["rank"] - 1))
        if f["dtype"]:
            put(dict(f, dtype=0))
        for k in range(2):
            if f["args"][k]:
                put(dict(f, args=[0 if m == k else a for m, a in enumerate(f["args"])]))
        if f["nconst"]:
            put(dict(f, nconst=0))
        if f["gdeg"] > 1:
            put(dict(f, gdeg=1))
    return out


def nontrivial(cfg, res):
    p = res["probes"]
    return p.get("cut-right", 0) >= 2 and p.get("kernels", 0) >= 1


COMPONENTS = {
    "real": ["python/qugar/dolfinx/{compiler,codegeneration,_kernel_body,fe_table,integral_data,quadrature_data,boundary,parsing_utils}.py",
             "the generated C kernels (compiled, instrumented)", "qugar_basix_shim.cpp (instrumented)", "libbasix.so", "basix.ufl"],
    "stub": ["FFCx (kernel text, IR, table classification), UFL, DOLFINx classes", "thread scheduler, mutexes, atomics", "operator new/delete"],
}
