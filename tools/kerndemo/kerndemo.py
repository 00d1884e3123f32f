"""Run generated kernels for real: gcc, the real shim library, ctypes; one process, no simulator.

FFCx itself is not installed: scenarios/ffcxfake.py generates kernels in its style and
scenarios/kernel.py computes, with Basix and numpy, what each call must add."""
import ctypes
import os
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo") + "/python")
sys.dont_write_bytecode = True
from scenarios import ffcxfake as fx      # noqa: E402
from scenarios import kernel as k         # noqa: E402

import basix                              # noqa: E402

TMP = tempfile.TemporaryDirectory()
D = Path(TMP.name)
REPO = os.environ.get("VERIF_REPO", "/repo")

FAIL = r"""
#include <stddef.h>
int fail_at = 0, calls = 0, guard = 0;
#define HIT (++calls == fail_at)
"""


def sh(*a):
    p = subprocess.run(a, capture_output=True, text=True)
    if p.returncode:
        print(p.stderr[-2000:])
        sys.exit(9)


def shim():
    """The shim library; with functions in front of it that can be told to fail."""
    b = os.path.dirname(basix.__file__)
    v = os.environ.get("VENV", sys.prefix)
    src = REPO + "/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"
    sh("g++", "-std=c++20", "-O1", "-shared", "-fPIC", f"-I{v}/include", f"-I{b}/include", src, "-o", str(D / "libshim.so"),
       f"-L{v}/lib", f"-L{b}/lib", "-lbasix", f"-Wl,-rpath,{v}/lib:{b}/lib")
    c = FAIL
    for s, t in (("f64", "double"), ("f32", "float")):
        c += f"""
extern int qugar_register_element_{s}(int,int,int,int,int,int);
extern int qugar_tabulate_{s}(int,int,const {t}*,int,int,{t}*,long);
extern {t}* qugar_get_scratch_{s}(long);
int my_register_element_{s}(int a,int b,int c,int d,int e,int f) {{ return HIT ? -9 : qugar_register_element_{s}(a,b,c,d,e,f); }}
int my_tabulate_{s}(int a,int b,const {t}*p,int c,int d,{t}*o,long n) {{ return HIT ? -9 : qugar_tabulate_{s}(a,b,p,c,d,o,n); }}
{t}* my_get_scratch_{s}(long n) {{ return HIT ? NULL : qugar_get_scratch_{s}(n); }}
"""
    (D / "fail.c").write_text(c)
    sh("gcc", "-shared", "-fPIC", str(D / "fail.c"), "-o", str(D / "libfail.so"), f"-L{D}", "-lshim", f"-Wl,-rpath,{D}")
    (D / "ufcx.h").write_text(fx.UFCX)


fx.install()
import qugar.dolfinx.boundary as boundary      # noqa: E402
import qugar.dolfinx.compiler as compiler      # noqa: E402

k._mods = (compiler, boundary)
shim()


class Integral(ctypes.Structure):
    pass


def load(code, names):
    c = D / "k.c"
    so = D / f"k{len(list(D.glob('k*.so')))}.so"
    c.write_text(code)
    sh("gcc", "-std=c17", "-O1", "-w", "-fPIC", "-shared", "-fno-strict-aliasing", "-I", str(D), "-Dqugar_get_scratch_f64=my_get_scratch_f64",
       "-Dqugar_get_scratch_f32=my_get_scratch_f32", "-Dqugar_tabulate_f64=my_tabulate_f64", "-Dqugar_tabulate_f32=my_tabulate_f32",
       "-Dqugar_register_element_f64=my_register_element_f64", "-Dqugar_register_element_f32=my_register_element_f32",
       str(c), "-o", str(so), f"-L{D}", "-lfail", "-lshim", f"-Wl,-rpath,{D}", "-lm")
    return ctypes.CDLL(str(so))


class Form:
    def __init__(self, f, num=1):
        self.f = f
        self.F = k.build_form(0, f)
        self.code, self.data, self.irs = k.generate(self.F, f, num)
        self.orders = [[q.name for q in d.quad_data_FE_tables] for d in self.data]
        self.lib = load(self.code, None)
        for it, ir in zip(self.F["integrals"], self.irs):
            it["mixed"] = k.uses_mixed(it, ir.maker)

    def call(self, job, fail_at=0):
        """(right, unchanged, calls made to the shim) of one call."""
        ir = self.irs[job["itg"]]
        t = k.make_job(dict({"form": 0, "pad": 0}, **job), self.F, self.irs, self.orders[job["itg"]])
        status, nA, nW, slot, off, e0, e1, p0, p1 = t[:9]
        scale = float(t[9])
        vals, i = [], 10
        for _ in range(4):
            n = t[i]
            vals.append([float(v) for v in t[i + 1:i + 1 + n]])
            i += 1 + n
        R = np.float32 if self.f["dtype"] in (1, 3) else np.float64
        W, C, X, E = (np.array(v, dtype=R) for v in vals)
        W.view(np.uint8)[slot:slot + 8] = np.frombuffer(np.int64(off).tobytes(), dtype=np.uint8)
        pad = 64
        A = np.full(len(E) + 2 * pad, 0.5, dtype=R)
        ent, perm = np.array([e0, e1], np.int32), np.array([p0, p1], np.uint8)
        name = f"tabulate_tensor_{ir.maker.fn}"
        fn = getattr(self.lib, name)
        fl = ctypes.CDLL(str(D / "libfail.so"))
        ctypes.c_int.in_dll(fl, "fail_at").value = fail_at
        ctypes.c_int.in_dll(fl, "calls").value = 0
        P = ctypes.c_void_p
        fn(P(A.ctypes.data + pad * A.itemsize), P(W.ctypes.data), P(C.ctypes.data), P(X.ctypes.data), P(ent.ctypes.data), P(perm.ctypes.data), None)
        ctypes.c_int.in_dll(fl, "fail_at").value = 0
        d = A - R(0.5)
        tol = (1e-9 if R is np.float64 else 2e-3) * scale
        right = bool(np.all(np.abs(d[pad:-pad] - E) <= tol)) and not d[:pad].any() and not d[-pad:].any()
        return right, not d.any(), ctypes.c_int.in_dll(fl, "calls").value

DERS = {}


def terms(f, make):
    """The form description f with the terms that make(spec, args, coeffs, noffs, side) returns."""
    todo = []

    def mk(seed, f_, it, spec, args, coeffs, coffs, noffs, tdim, dom):
        def J(i, j, s):
            d = [0] * tdim
            d[j] = 1
            return ("J", fx.ModifiedTerminal(fx.Jacobian(dom), spec["coord"], i, tuple(d), s), i, j)
        s = "+" if it["itype"] == "interior_facet" else None
        base = [J(i, i, s) for i in range(2)]
        if it["itype"] != "cell":
            base.append(("ref", s))
        return make(seed, base, lambda t, c, d, s=None: fx.ModifiedTerminal(t, t.ufl_element(), c, tuple(d), s), args, coeffs, noffs)
    k.make_term = mk
    return Form(f)


def form(cell, rank, els, rules, itype="cell", coeffs=(), nn=0, dtype=0):
    k._pools.clear()
    k._pools[(cell, False)] = list(els)
    return {"cell": cell, "gdeg": 1, "rank": rank, "args": list(range(len(els)))[:2] + [0, 0], "coeffs": list(coeffs), "dtype": dtype, "nconst": 0, "nnormals": nn,
            "constseed": 1, "mixed_arg": 0,
            "integrals": [{"itype": itype, "mixed": False, "rules": rules, "dmax": 2, "one_sided": False}]}


def jobs(F, n=4, npts=(3, 4, 5), itg=0):
    ok = True
    for s in range(n):
        r = F.call({"itg": itg, "status": 1, "npts": list(npts), "seed": s})
        ok &= r[0]
    return ok
