"""Compiled-kernel cache shared by threads, processes and ranks (C11-C13).

Real code: python/qugar/dolfinx/jit.py and python/qugar/dolfinx/_shim/__init__.py,
one fresh instance of each per simulated process. Stubs: ffcx's cache lookup and
dolfinx's rank-0-first decorator (written after their 0.10 sources), cffi and
the C compiler, form signatures, code generation (a function of form and
options), the dynamic loader, the file system, clock and communicator.
"""

from __future__ import annotations

import contextlib
import copy
import errno
import functools
import hashlib
import json
import logging
import random
import sys
import types

from scenarios import shim_build
from simpy import patches
from simpy.core import ProcGlobals, Sim, Violation, current_task
from simpy.vfs import ROOT

SRC = "/repo/python/qugar/dolfinx/jit.py"
KCACHE = ROOT + "/home/.cache/fenics"
KCACHE2 = ROOT + "/home/other_cache"

CLASSES = {
    "C11": {"wrong-kernel", "wrong-data", "torn-kernel", "duplicate-compile", "spurious-failure", "not-recovered",
            "swallowed-failure", "deadlock", "no-progress", "ranks-disagree"},
    "C12": {"env-leaked", "handlers-leaked", "stdout-leaked", "options-mutated"},
    "C13": {"shim-missing", "shim-not-linked"},
}
MEM = None
_code = None


def world():
    return current_task().sim.world


# ----------------------------------------------------------------- stub ffcx
class Form:
    def __init__(self, name):
        self.name = name

    def signature(self):
        return "form:" + self.name


class NotAForm:
    """Something else than a form, e.g. an expression."""

    def __init__(self, name):
        self.name = name

    def signature(self):
        return "expression:" + self.name


class VerificationError(Exception):
    pass


def impl_of(forms, options, prefix):
    return f"// custom kernel {' '.join(f.name for f in forms)} {json.dumps({k: str(v) for k, v in sorted(options.items())})}\n" + \
        "".join(f"ufcx_form {form_name(f, i, prefix)} = {{{f.name}}};\n" for i, f in enumerate(forms))


def itg_of(forms, options):
    return [("itg", form.name, i, str(options.get("scalar_type"))) for form in forms for i in range(1 + len(form.name) % 3)]


FFCX_DEFAULTS = {"epsilon": 1e-14, "scalar_type": "float64", "sum_factorization": False, "part": "full"}
JIT_DEFAULTS = {"cache_dir": KCACHE, "cffi_debug": False, "cffi_extra_compile_args": ["-O2", "-g0"], "cffi_verbose": False,
                "cffi_libraries": None, "timeout": 10}


def _option_signature(options):
    return str(sorted((k, str(v)) for k, v in options.items()))


def _compilation_signature(args, debug):
    return str(args) + str(debug)


def compute_signature(objs, tag):
    s = ";".join([o.signature() for o in objs] + [tag])
    return hashlib.sha1(s.encode()).hexdigest()


def form_name(form, i, prefix):
    return f"form_{hashlib.sha1((prefix + str(i)).encode()).hexdigest()[:16]}"


def _load(cache_dir, module_name, names):
    import os
    w = world()
    path = os.path.join(str(cache_dir), module_name + ".so")
    if not os.path.exists(path):
        raise ModuleNotFoundError("Unable to find JIT module.")
    with open(path, "rb") as f:
        meta = shim_build.parse_lib(f.read())
    if meta is None:
        w.bad("torn-kernel", "an incomplete compiled kernel was loaded")
        raise ImportError(f"{path}: file too short")
    if "qugar_basix_shim" not in meta["libraries"] and meta["kind"] == "custom":
        w.bad("shim-not-linked", "a custom kernel was linked without the tabulation library")
    if "qugar_basix_shim" in meta["libraries"]:
        ok = False
        for d in meta["rpath"]:
            n = w.vfs.peek(d + "/libqugar_basix_shim.so")
            ok = ok or (n is not None and shim_build.parse_lib(n.data) is not None)
        current_task().sim.step("dlopen shim")
        if not ok:
            w.note_missing_shim()
            raise ImportError("libqugar_basix_shim.so: cannot open shared object file: No such file or directory")
    mod = types.SimpleNamespace(meta=meta, module_name=module_name, path=path)
    if list(names) != meta["names"]:
        raise AttributeError(f"undefined symbol {names}")
    return [types.SimpleNamespace(meta=meta, name=n) for n in names], mod


def get_cached_module(module_name, object_names, cache_dir, timeout):
    import os
    import time
    from pathlib import Path
    w = world()
    c = Path(cache_dir).joinpath(module_name).with_suffix(".c")
    ready = c.with_suffix(".c.cached")
    Path(cache_dir).mkdir(exist_ok=True, parents=True)
    try:
        f = open(c, "x")
        w.claimed(str(c))
        f.close()
        return None, None
    except FileExistsError:
        w.waits(str(c))
        for _ in range(timeout):
            if os.path.exists(ready):
                return _load(cache_dir, module_name, object_names)
            time.sleep(1)
        raise TimeoutError(f"JIT compilation timed out ({c})")


class FFI:
    def set_source(self, module_name, source, **kw):
        self.name, self.source, self.kw = module_name, source, kw

    def cdef(self, decl):
        self.decl = decl

    def compile(self, tmpdir=".", verbose=False, debug=None, target=None):
        import os
        w = world()
        sim = w.sim
        t = current_task()
        base = os.path.join(str(tmpdir), self.name)
        w.compiling(base + ".c")
        try:
            tmp = base + ".c.~cffi"
            with open(tmp, "w") as f:
                f.write(self.source)
            os.replace(tmp, base + ".c")
            print(f"generating {base}.c")
            logging.getLogger().warning("running build_ext")
            sim.step("cffi")
            if sim.fault("kernel-compile-error", w.cfg["p_kerr"]):
                raise VerificationError("CompileError: command gcc failed with exit code 1")
            sim.sleep(w.cfg["k_time"], "gcc")
            head = self.source.split("\n")[0]
            dtype = json.loads(head[head.index("{"):])["scalar_type"] if head.startswith("// custom") else None
            names = [line.split()[2].rstrip(";") for line in self.decl.splitlines() if line.startswith("extern ufcx_form")]
            if dtype is not None:
                if not all(x in self.decl for x in (f"/*H {dtype}*/", "/*I*/", "/*F*/")):
                    raise VerificationError("CDefError: unknown type ufcx_form")
                if "/ffcx/include" not in [str(d) for d in self.kw.get("include_dirs") or []]:
                    raise VerificationError("CompileError: ufcx.h: No such file or directory")
                args = [str(a) for a in self.kw.get("extra_compile_args") or []]
                if any(a.startswith("-std:") for a in args):
                    raise VerificationError("CompileError: gcc: error: unrecognized command-line option '-std:c17'")
                if not all(f"ufcx_form {n} = " in self.source for n in names):
                    raise VerificationError(f"LinkError: undefined reference to {names}")
            meta = {"kind": "custom" if self.source.startswith("// custom") else "std", "source": self.source,
                    "libraries": list(self.kw.get("libraries") or []), "debug": bool(debug),
                    "args": list(self.kw.get("extra_compile_args") or []),
                    "dirs": list(self.kw.get("library_dirs") or []),
                    "rpath": [a.split("rpath,", 1)[1] for a in self.kw.get("extra_link_args") or [] if "rpath," in a],
                    "names": names}
            for lib in meta["libraries"]:
                if lib == "qugar_basix_shim":
                    ok = False
                    for d in meta["dirs"]:
                        n = w.vfs.peek(d + "/libqugar_basix_shim.so")
                        ok = ok or (n is not None and shim_build.parse_lib(n.data) is not None)
                    if not ok:
                        w.note_missing_shim()
                        raise VerificationError("LinkError: cannot find -lqugar_basix_shim")
            data = shim_build.make_lib(meta, w.cfg["lib_size"])
            try:
                os.unlink(base + ".so")
            except FileNotFoundError:
                pass
            fd = os.open(base + ".so", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o666)
            pos, step = 0, max(1, len(data) // w.cfg["pieces"])
            try:
                while pos < len(data):
                    if sim.fault("kernel-link-enospc", w.cfg["p_kenospc"]):
                        raise VerificationError("LinkError: No space left on device")
                    pos += os.write(fd, data[pos:pos + step])
            finally:
                os.close(fd)
            print("done")
            return base + ".so"
        except (VerificationError, OSError):
            w.kernel_failed(t)
            raise
        finally:
            w.compiled(base + ".c")


def compile_ufl_objects(ufl_objects, options, object_names=None, prefix=None, visualise=False):
    w = world()
    sim = w.sim
    sim.step("codegen")
    if sim.fault("codegen-error", w.cfg["p_gen"]):
        w.touch()
        raise RuntimeError("code generation failed")
    form = list(ufl_objects)
    opts = {k: v for k, v in options.items()}
    if w.cur() is not None:
        w.cur()["visualise"] = bool(visualise)
    return f"// header {form[0].name}\n", impl_of(form, opts, prefix or "ffcx"), itg_of(form, opts)


class Comm:
    """A communicator of one simulated rank."""

    def __init__(self, group, rank):
        self.group, self.rank = group, rank
        self.size = len(group["members"])
        self.seq = 0

    def bcast(self, v, root=0):
        g, s = self.group, self.seq
        self.seq += 1
        sim = world().sim
        if self.rank == root:
            g["data"][s] = v
            sim.step("bcast")
        else:
            sim.wait(lambda: s in g["data"], "bcast")
        return g["data"][s]

    def barrier(self):
        g, s = self.group, self.seq
        self.seq += 1
        g["data"].setdefault(s, set()).add(self.rank)
        world().sim.wait(lambda: len(g["data"][s]) == self.size, "barrier")

    Barrier = barrier


def mpi_jit_decorator(local_jit, *a, **k):
    @functools.wraps(local_jit)
    def mpi_jit(comm, *args, **kwargs):
        if comm.size == 1:
            return local_jit(*args, **kwargs)
        status, msg = 0, ""
        if comm.rank == 0:
            try:
                out = local_jit(*args, **kwargs)
            except Exception as e:      # noqa: BLE001
                status, msg = 1, str(e)
        status = comm.bcast(status, root=0)
        if status == 0:
            if comm.rank != 0:
                out = local_jit(*args, **kwargs)
        else:
            raise RuntimeError("Failed just-in-time compilation of form: %s" % (msg or "Compilation failed on root node."))
        return out
    return mpi_jit


def stub_modules():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__path__ = []
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m
    for n in list(sys.modules):
        if n.split(".")[0] in ("qugar", "ffcx", "ufl", "dolfinx", "cffi"):
            del sys.modules[n]
    mod("qugar")
    mod("qugar.utils", has_FEniCSx=True)
    mod("qugar.dolfinx")
    mod("qugar.dolfinx._shim", ensure_built=lambda: current_task().proc.attrs["shim"].ensure_built(),
        LIB_NAME="qugar_basix_shim")
    mod("qugar.dolfinx.compiler", compile_ufl_objects=compile_ufl_objects)
    mod("qugar.dolfinx.integral_data", IntegralData=tuple)
    mod("cffi", FFI=FFI, VerificationError=VerificationError)
    mod("ufl", Form=Form)
    mod("ufl.core")
    mod("ufl.core.expr")
    mod("ffcx")
    mod("ffcx.options", get_options=lambda o=None: dict(FFCX_DEFAULTS, **{k: v for k, v in (o or {}).items() if v is not None}))
    mod("ffcx.naming", compute_signature=compute_signature, form_name=form_name)
    mod("ffcx.codegeneration", get_include_path=lambda: "/ffcx/include")
    mod("ffcx.codegeneration.C")
    mod("ffcx.codegeneration.C.file_template", libraries=["m"])
    mod("ffcx.codegeneration.jit", UFC_FORM_DECL="/*F*/\n", UFC_HEADER_DECL="/*H {}*/\n", UFC_INTEGRAL_DECL="/*I*/\n",
        _compilation_signature=_compilation_signature, _compute_option_signature=_option_signature,
        _load_objects=_load, get_cached_module=get_cached_module, logger=logging.getLogger("ffcx"),
        root_logger=logging.getLogger())
    mod("dolfinx")
    mod("dolfinx.jit", get_options=lambda o=None: dict(JIT_DEFAULTS, **(o or {})), mpi_jit_decorator=mpi_jit_decorator)
    import sysconfig
    if not hasattr(sysconfig, "_sim_real"):
        sysconfig._sim_real = sysconfig.get_config_var

        def gcv(name):
            t = current_task()
            if name == "LDSHARED" and t is not None and hasattr(t.sim, "world"):
                return t.sim.world.cfg["ldshared"]
            return sysconfig._sim_real(name)
        sysconfig.get_config_var = gcv


def setup(prop):
    # a log record's thread name comes from threading.current_thread(), which
    # makes locks of its own the first time a real thread is seen
    logging.logThreads = logging.logProcesses = logging.logMultiprocessing = logging.logAsyncioTasks = False
    stub_modules()


def jit_code():
    global _code
    if _code is None:
        with patches.R.get("open", open)(SRC) as f:
            _code = compile(f.read(), SRC, "exec")
    return _code


# --------------------------------------------------------------------- world
class World(shim_build.World):
    def __init__(self, sim, cfg, active):
        sim.world = self
        super().__init__(sim, cfg, active)
        self.sim.invariants.clear()
        if cfg["op_faults"]:
            self.vfs.fault_p["write"] = [(e, cfg["op_faults"]) for e in (errno.ENOSPC, errno.EDQUOT, errno.EIO)]
        self.claims = {}        # .c path -> call that owns it
        self.tainted = {}       # .c path -> simulated time its owner last failed
        self.failed_at = {}     # the same, kept after a later success
        self.poisoned = set()   # .c paths nobody will finish (owner killed, rename failed)
        self.stuck_ready = set()    # .c paths whose ready file could not be removed: the next claim clears it
        self.busy = {}          # .c path -> calls compiling now
        self.done_ok = set()
        self.group_n = 0

    def cur(self):
        t = current_task()
        return t.local.get("call")

    def touch(self):
        self.mark(self.cur())

    @staticmethod
    def mark(c):
        if c is not None:
            c["touched"] = True
            if c.get("group") is not None:
                c["group"]["touched"] = True

    def on_fault(self, op, path, e):
        super().on_fault(op, path, e)
        self.touch()
        # the clean-up after a failure failed itself
        if op == "rename" and path.endswith((".c", ".c.failed")):
            self.poisoned.add(path.replace(".failed", ""))
        if op in ("unlink", "stat") and path.endswith(".c.cached"):
            self.stuck_ready.add(path.replace(".cached", ""))

    def fault_ok(self, op, path):
        t = patches.current_task()
        return (path.startswith(KCACHE) or path.startswith(ROOT + "/cache") or op == "spawn") and t is not None and \
            t.local.get("call") is not None

    def build_failed(self, child):
        super().build_failed(child)
        for c in self.root_proc(child).attrs["jit_calls"]:
            self.mark(c)

    def build_ended(self, b, ok, meta=None):
        super().build_ended(b, ok, meta)
        if not ok:
            for c in self.root_proc(b.child).attrs["jit_calls"]:
                self.mark(c)

    def claimed(self, c):
        call = self.cur()
        call["claims"].append(c)
        self.claims[c] = call
        self.sim.probe("claimed")

    def waits(self, c):
        self.cur()["waited"].append(c)
        self.sim.probe("found-existing")

    def compiling(self, c):
        call = self.cur()
        others = [x for x in self.busy.get(c, []) if not x["proc"].dead]
        if others:
            self.bad("duplicate-compile", "two callers compile the same kernel into the same cache at once")
        if c in self.done_ok and c not in self.tainted and c not in self.poisoned and not call["kwiped"] and self.cache_of(c):
            self.bad("duplicate-compile", "a kernel that is already in the cache is compiled again")
        self.busy.setdefault(c, []).append(call)
        self.sim.probe("kernel-compiles")

    def cache_of(self, c):
        return c.startswith(KCACHE) or c.startswith(KCACHE2)

    def compiled(self, c):
        call = self.cur()
        self.busy[c] = [x for x in self.busy.get(c, []) if x is not call]

    def kernel_failed(self, t):
        self.touch()

    def note_missing_shim(self):
        c = self.cur()
        if not (c["wiped"] or c["touched"]):
            self.bad("shim-missing", "the tabulation library a kernel needs is not there when the kernel is loaded or linked")
        self.mark(c)

    def wipe(self):
        super().wipe()
        for p in self.sim.procs:
            for c in p.attrs.get("jit_calls", []):
                c["wiped"] = True
                if c.get("group") is not None:
                    c["group"]["touched"] = True


def new_globals():
    root = logging.getLogger()

    def set_handlers(h):
        root.handlers = h

    def make():
        return [Recorder()]
    return ProcGlobals({
        "stdout": (lambda: sys.stdout, lambda v: setattr(sys, "stdout", v), lambda: Out()),
        "handlers": (lambda: root.handlers, set_handlers, make),
    })


class Recorder(logging.Handler):
    """The program's own log."""

    def __init__(self):
        super().__init__()
        self.seen = []

    def createLock(self):
        self.lock = None

    def emit(self, record):
        self.seen.append(record.getMessage())


class Out:
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


FORMS = [Form("a"), Form("bb"), Form("ccc"), NotAForm("u"), (Form("a"), Form("ccc")), (Form("ccc"), Form("a"))]
FOPTS = [None, {"scalar_type": "float64"}, {"scalar_type": "complex128"}, {"epsilon": 1e-12}]
JOPTS = [None, {"cffi_debug": True}, {"cffi_extra_compile_args": ["-O3"]}, {"cache_dir": KCACHE2}, {"cache_dir": None},
         {"timeout": 3}, {"cffi_verbose": True}, {"cffi_libraries": ["z"]}, {"cffi_libraries": []}]


def one_call(w, p, comm, req):
    """One request for a compiled kernel, with every promise checked."""
    sim = w.sim
    t = current_task()
    fi, oi, ji = req
    form = FORMS[fi]
    forms = list(form) if isinstance(form, tuple) else [form]
    fopt, jopt = copy.deepcopy(FOPTS[oi]), copy.deepcopy(JOPTS[ji])
    call = {"proc": p, "touched": False, "wiped": False, "kwiped": False, "claims": [], "waited": [], "t": sim.now,
            "threads": p.attrs["threads"], "group": comm.group if comm.size > 1 else None}
    t.local["call"] = call
    p.attrs["jit_calls"].append(call)
    if p.attrs.get("out") is None and isinstance(sys.stdout, Out):
        p.attrs["out"] = sys.stdout
        p.attrs["rec"] = next((h for h in logging.getLogger().handlers if isinstance(h, Recorder)), None)
    before = (p.env.get("LDSHARED"), list(logging.getLogger().handlers), sys.stdout)
    c = {"touched": False, "cc_failed": False, "wiped": False, "open": True, "src": w.src_v, "builder": w.builder_v,
         "edit_seq": w.edit_seq, "t": sim.now, "tools": len(w.tools) - 1, "cache": w.cache, "cxx": w.tool["cxx"]}
    p.attrs["open_calls"] = p.attrs["open_calls"] + [c]
    sim.log(f"request {req}")
    out, exc = None, None
    if not any(x is not call for x in p.attrs["jit_calls"]):
        p.attrs["before"] = before
    try:
        if comm.size > 1 or w.cfg["via"] == "ffcx_jit":
            out = p.attrs["jit"].ffcx_jit(comm, form, form_compiler_options=fopt, jit_options=jopt)
        else:
            jj = dict(JIT_DEFAULTS, **(jopt or {}))
            kw = {k: v for k, v in jj.items()}
            if w.cfg.get("visualise"):
                kw["visualise"] = True
            obj, mod, code, itg = p.attrs["jit"].compile_forms(list(forms), options=fopt or {}, **kw)
            out = (itg, obj, mod, code)
    except Exception as e:      # noqa: BLE001
        exc = e
    finally:
        if not p.dead and not sim.aborting:
            p.attrs["open_calls"] = [x for x in p.attrs["open_calls"] if x is not c]
        t.local["call"] = None
        p.attrs["jit_calls"] = [x for x in p.attrs["jit_calls"] if x is not call]
    sim.log("-> " + ("ok" if exc is None else type(exc).__name__))
    # interpreter state is as it was (checked when no other thread is inside)
    if not p.attrs["jit_calls"]:
        b = p.attrs.get("before", before)
        if p.env.get("LDSHARED") != b[0]:
            w.bad("env-leaked", f"LDSHARED was {b[0]!r} before and is {p.env.get('LDSHARED')!r} after "
                  f"{'a successful' if exc is None else 'a failed'} request")
            p.env.pop("LDSHARED", None)
        if logging.getLogger().handlers != b[1]:
            w.bad("handlers-leaked", f"the root logger's handlers differ after {'a successful' if exc is None else 'a failed'} request")
            logging.getLogger().handlers = list(b[1])
        if sys.stdout is not b[2]:
            w.bad("stdout-leaked", f"standard output is still redirected after {'a successful' if exc is None else 'a failed'} request")
            sys.stdout = b[2]
    if w.cfg["procs_verbose"] is False and ji != 6 and p.attrs.get("out") is not None:
        text = "".join(p.attrs["out"].text)
        if text:
            w.bad("stdout-leaked", f"the compiler's output {text[:60]!r} reached standard output though nobody asked for it")
            p.attrs["out"].text.clear()
    if p.attrs.get("rec") is not None and any("build_ext" in x for x in p.attrs["rec"].seen):
        w.bad("handlers-leaked", "the compiler's messages reached the program's own log")
        p.attrs["rec"].seen.clear()
    if fopt != FOPTS[oi] or jopt != JOPTS[ji]:
        w.bad("options-mutated", "a request changed its caller's options")
    if sys.modules["ffcx.codegeneration.C.file_template"].libraries != ["m"]:
        w.bad("options-mutated", "a request changed the default list of libraries")
        sys.modules["ffcx.codegeneration.C.file_template"].libraries[:] = ["m"]
    if FFCX_DEFAULTS != FFCX_SAVE or JIT_DEFAULTS != JIT_SAVE:
        w.bad("options-mutated", "a request changed the default options")
        FFCX_DEFAULTS.clear(), FFCX_DEFAULTS.update(FFCX_SAVE)
        JIT_DEFAULTS.clear(), JIT_DEFAULTS.update(copy.deepcopy(JIT_SAVE))
    opts = dict(FFCX_DEFAULTS, **{k: v for k, v in (FOPTS[oi] or {}).items()}, custom=True)
    jo = dict(JIT_DEFAULTS, **(JOPTS[ji] or {}))
    if exc is not None:
        for k in call["claims"]:
            w.tainted[k] = w.failed_at[k] = sim.now
        excused = call["touched"] or call["wiped"] or comm.group.get("touched")
        for k in call["claims"]:
            if k in w.stuck_ready and not call["touched"]:
                w.stuck_ready.discard(k)
                excused = True
        for k in call["waited"]:
            if k in w.poisoned or w.failed_at.get(k, -1) >= call["t"]:
                excused = True
            own = w.claims.get(k)
            if own is not None and own["proc"].dead:
                w.poisoned.add(k)
                excused = True
            if isinstance(exc, TimeoutError) or "timed out" in str(exc):
                if w.cfg["k_time"] * w.cfg["threads"] + w.cfg["cc_time"] * w.cfg["procs"] > jo["timeout"] - 1.5:
                    excused = True      # slower than the caller agreed to wait
                if own is not None and own["wiped"]:
                    excused = True
        if comm.size > 1 and excused:
            comm.group["touched"] = True
        if not excused and not isinstance(form, NotAForm):
            w.bad("spurious-failure", f"request {req} failed with {type(exc).__name__}: {exc} though nothing failed under it")
        return exc
    if isinstance(form, NotAForm) and (comm.size > 1 or w.cfg["via"] == "ffcx_jit"):
        w.bad("wrong-kernel", "an expression was compiled as a form")
        return None
    try:
        itg, objs, mod, code = out
        if comm.size > 1 or w.cfg["via"] == "ffcx_jit":
            objs = [objs]
        m, names = objs[0].meta, [o.name for o in objs]
        code[1]
    except Exception:       # noqa: BLE001
        w.bad("wrong-kernel", f"request {req} returned {out!r}")
        return None
    if getattr(mod, "meta", None) is not m or any(o.meta is not m for o in objs):
        w.bad("wrong-kernel", f"the module returned is not the one of the kernel: {mod!r}")
        return None
    want_src = impl_of(forms, opts, mod.module_name)
    if names != [form_name(f, i, mod.module_name) for i, f in enumerate(forms)]:
        w.bad("wrong-kernel", f"request {req} for {len(forms)} forms got the kernels {names}")
    if jo["cache_dir"] is not None and not mod.path.startswith(str(jo["cache_dir"]) + "/"):
        w.bad("duplicate-compile", f"the cache {jo['cache_dir']} was asked for but {mod.path} was compiled")
    if call.get("visualise") and not w.cfg.get("visualise") or w.cfg.get("visualise") and w.cfg["via"] == "compile_forms" and comm.size == 1 and call.get("visualise") is False:
        w.bad("wrong-data", "visualisation was not passed on, or was not asked for")
    if jo["cffi_verbose"] and call["claims"] and p.attrs.get("out") is not None and "done" not in "".join(p.attrs["out"].text):
        w.bad("stdout-leaked", "verbose output was asked for and did not reach standard output")
    if m["kind"] != "custom":
        w.bad("wrong-kernel", "a standard kernel was returned for a custom form")
    elif m["source"] != want_src:
        w.bad("wrong-kernel", f"request {req} got the kernel {m['source']!r}, not {want_src!r}")
    elif m["debug"] != bool(jo["cffi_debug"]) or m["args"][-len(jo["cffi_extra_compile_args"]):] != jo["cffi_extra_compile_args"]:
        w.bad("wrong-kernel", f"request {req} got a kernel compiled with debug={m['debug']} {m['args']}")
    elif call["claims"] and not set(["m"] + list(jo["cffi_libraries"] or [])) <= set(m["libraries"]):
        w.bad("wrong-kernel", f"request {req} got a kernel linked with {m['libraries']} only")
    if itg != itg_of(forms, opts):
        w.bad("wrong-data", f"request {req} got the integral data {itg}")
    if code[1] != want_src:
        w.bad("wrong-data", f"request {req} got other source code than its kernel's")
    for k in call["claims"]:
        w.done_ok.add(k)
        w.tainted.pop(k, None)
    sim.probe("kernel-returned")
    return None


FFCX_SAVE, JIT_SAVE = copy.deepcopy(FFCX_DEFAULTS), copy.deepcopy(JIT_DEFAULTS)


def new_client(w, role="client"):
    p = w.new_proc(role=role)
    p.attrs.update(jit_calls=[], threads=1)
    if w.cfg["env_ldshared"]:
        p.env["LDSHARED"] = "user-ld -shared"
    return p


def load(w, p):
    p.attrs["shim"] = w.load(p)
    m = types.ModuleType("qugar.dolfinx.jit")
    m.__file__ = SRC
    with patches.loading():
        exec(jit_code(), m.__dict__)
    p.attrs["jit"] = m


def std_tenant(w, p, reqs):
    """Plain ffcx compiling the same forms into the same cache."""
    sim = w.sim
    from pathlib import Path
    for fi, oi, ji in reqs:
        if not isinstance(FORMS[fi], Form):
            continue
        t = current_task()
        call = {"proc": p, "touched": False, "wiped": False, "kwiped": False, "claims": [], "waited": [], "t": sim.now, "threads": 1}
        t.local["call"] = call
        form = FORMS[fi]
        o = dict(FFCX_DEFAULTS, **(FOPTS[oi] or {}))
        jo = dict(JIT_DEFAULTS, **(JOPTS[ji] or {}))
        name = "libffcx_forms_" + compute_signature([form], _option_signature(o) + _compilation_signature(jo["cffi_extra_compile_args"], jo["cffi_debug"]))
        names = [form_name(form, 0, name)]
        try:
            obj, mod = get_cached_module(name, names, Path(KCACHE), 10)
            if obj is None:
                f = FFI()
                f.set_source(name, f"// standard {form.name}\n", libraries=["m"], extra_compile_args=jo["cffi_extra_compile_args"])
                f.cdef(f"extern ufcx_form {names[0]};\n")
                f.compile(KCACHE, True, jo["cffi_debug"])
                open(KCACHE + "/" + name + ".c.cached", "x").close()
        except Exception as e:      # noqa: BLE001
            sim.log(f"std {type(e).__name__}")
        t.local["call"] = None


def gen_config(rs):
    r = random.Random(f"cfg/{rs}")
    mpi = r.random() < 0.3
    faulty = r.random() < 0.6
    kinds = r.sample(["kerr", "kenospc", "gen", "cerr", "ops", "crash", "short"], r.choice([1, 1, 2, 3])) if faulty else []
    cfg = {
        "visualise": False, "procs_verbose": False,
        "procs": r.choice([1, 2, 2, 3]), "threads": 1 if mpi else r.choice([1, 1, 2]), "mpi": mpi,
        "reqs": [[r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8])] for _ in range(r.choice([1, 2, 3]))],
        "same": r.random() < 0.6, "via": r.choice(["ffcx_jit", "compile_forms"]),
        "tenant": r.random() < 0.25, "k_time": r.choice([0.0, 0.1, 0.5, 0.5, 12.0]), "cc_time": r.choice([0.0, 0.3]),
        "pieces": r.choice([1, 2, 4]), "lib_size": 300, "initial": "none", "cache_exists": r.random() < 0.5,
        "p_switch": r.choice([0.02, 0.1, 0.3, 0.6]), "policy": r.choice(["random", "random", "prio"]),
        "p_cerr": 0.3 if "cerr" in kinds else 0.0, "p_enospc": 0.0, "p_ldkill": 0.0,
        "p_kerr": r.choice([0.2, 0.6]) if "kerr" in kinds else 0.0, "p_kenospc": r.choice([0.1, 0.4]) if "kenospc" in kinds else 0.0,
        "p_gen": r.choice([0.2, 0.6]) if "gen" in kinds else 0.0,
        "p_crash": 0.03 if "crash" in kinds and not mpi else 0.0, "crashes": 1 if "crash" in kinds and not mpi else 0,
        "p_sigint": 0.0, "op_faults": r.choice([0.01, 0.05]) if "ops" in kinds else 0.0, "short_writes": 0.3 if "short" in kinds else 0.0,
        "wipes": [round(r.uniform(0, 2), 3) for _ in range(r.choice([1, 2]))] if r.random() < 0.35 else [],
        "wipe_kind": r.choice(["tree", "files"]), "edit_mtime": "now", "mtime_step": 1.0, "tmp_dev": False,
        "env_ldshared": r.random() < 0.3, "ldshared": r.choice(["gcc -shared", "gcc -shared -Wl,-rpath,/p -L/p -Wl,-rpath,/p -L/p", ""]),
        "lines": r.random() < 0.4, "think": r.choice([0, 0, 0.2]), "rounds": r.choice([1, 1, 2]),
    }
    cfg["visualise"] = cfg["via"] == "compile_forms" and not mpi and r.random() < 0.1
    if r.random() < 0.08 and cfg["via"] == "ffcx_jit":
        cfg["reqs"].append([3, 0, 0])
    if cfg["via"] == "compile_forms" and not mpi and r.random() < 0.2:
        cfg["reqs"].append([r.choice([4, 4, 5]), r.choice([0, 2]), r.choice([0, 0, 1])])
    cfg["procs_verbose"] = any(q[2] == 6 for q in cfg["reqs"])
    return cfg


def execute(run_seed, cfg, active, trace=None, keep_log=False):
    patches.install()
    sim = Sim(run_seed, cfg, trace, keep_log, max_steps=40000)
    sim.globals = new_globals()
    if cfg.get("lines"):
        sim.trace_codes = {SRC}
    w = World(sim, cfg, active)
    res = {"violation": None}
    try:
        clients = []

        def crash_hook(task, what):
            p = task.proc
            if p.attrs.get("role") == "client" and sim.faults_on and w.crash_budget > 0 and p.attrs.get("jit_calls") and \
                    "parent" not in p.attrs and sim.fault("process-killed", cfg["p_crash"]):
                w.crash_budget -= 1
                for c in p.attrs["jit_calls"]:
                    w.poisoned.update(c["claims"])
                for q in sim.procs:
                    if q.attrs.get("parent") is p and not q.dead:
                        q.attrs["sig"] = 9
                        q.kill()
                p.kill()
        sim.on_step[:] = [crash_hook] if cfg["p_crash"] else []

        group = {"members": list(range(cfg["procs"])), "data": {}}

        def client(i):
            p = new_client(w)
            clients.append(p)
            comm = Comm(group, i) if cfg["mpi"] else Comm({"members": [0], "data": {}}, 0)
            p.attrs["threads"] = cfg["threads"]
            rr = random.Random(f"reqs/{run_seed}/{i}")
            reqs = list(cfg["reqs"]) * cfg["rounds"]
            if not cfg["same"] and not cfg["mpi"]:
                rr.shuffle(reqs)

            def work(first):
                if first:
                    load(w, p)
                    for k in range(1, cfg["threads"]):
                        sim.spawn(p, f"{p.name}.t{k}", functools.partial(work, False))
                for q in reqs:
                    if cfg["mpi"]:
                        g = comm.group
                        key = ("outcome", comm.seq)
                    e = one_call(w, p, comm, q)
                    if cfg["mpi"]:
                        g["data"].setdefault(key, {})[comm.rank] = (e is None)
                    if cfg["think"]:
                        sim.sleep(cfg["think"])
            sim.spawn(p, p.name, functools.partial(work, True))
        adv = sim.proc("adv", {})

        def adversary():
            for tm in cfg["wipes"]:
                if sim.chance("ev-inflight", 0.5):
                    sim.wait(lambda: any(p.attrs["jit_calls"] for p in clients), "adv", timeout=0.5)
                else:
                    sim.sleep(max(0.0, sim.t0 + tm - sim.now), "adv")
                w.wipe()
        for i in range(cfg["procs"]):
            client(i)
        if cfg["wipes"]:
            sim.spawn(adv, "adversary", adversary)
        if cfg["tenant"]:
            tp = new_client(w, "tenant")
            sim.spawn(tp, "tenant", lambda: std_tenant(w, tp, cfg["reqs"]))

        def closer():
            sim.wait(lambda: all(t.done for t in sim.tasks if t is not ct), "closer")
            sim.faults_on = False
            w.cfg = dict(cfg, p_cerr=0, p_kerr=0, p_kenospc=0, p_gen=0)
            w.vfs.fault_p = {}
            p = ct.proc
            load(w, p)
            for q in sorted({tuple(q) for q in cfg["reqs"] if q[0] != 3}):
                comm = Comm({"members": [0], "data": {}}, 0)
                stuck = len(w.stuck_ready)
                e = one_call(w, p, comm, list(q))
                if e is not None and len(w.stuck_ready) < stuck:
                    e = one_call(w, p, comm, list(q))
                if e is not None and not (isinstance(e, TimeoutError) and any(k in str(e) for k in w.poisoned)):
                    w.bad("not-recovered", f"after all faults stopped request {list(q)} still fails: {type(e).__name__}: {e}")
        cp = new_client(w, "closer")
        ct = sim.spawn(cp, "closer", closer)
        sim.run()
        if cfg["mpi"]:
            for k, v in group["data"].items():
                if isinstance(k, tuple) and len(set(v.values())) > 1 and not group.get("touched"):
                    w.bad("ranks-disagree", f"a request succeeded on some ranks only: {v}")
    except Violation as v:
        if v.klass in active:
            res["violation"] = {"class": v.klass, "msg": v.msg}
        else:
            res["other"] = v.klass
    res.update(digest=sim.digest(), sched=sim.shash.hexdigest(), steps=sim.steps, faults=sim.fault_counts,
               probes=sim.probe_counts, sim_s=sim.now - sim.t0, choices=sim.choices, switches=sim.switches, log=sim.log_lines)
    return res


def shrink_config(cfg):
    out = []
    for k, v in (("procs", 1), ("procs", 2), ("threads", 1), ("wipes", []), ("mpi", False), ("tenant", False), ("lines", False),
                 ("rounds", 1), ("op_faults", 0.0), ("short_writes", 0.0), ("p_cerr", 0.0), ("p_kerr", 0.0), ("p_kenospc", 0.0),
                 ("p_gen", 0.0), ("p_crash", 0.0), ("k_time", 0.0), ("cc_time", 0.0), ("pieces", 1), ("think", 0),
                 ("env_ldshared", False), ("ldshared", "gcc -shared")):
        if cfg[k] != v and not (k == "procs" and cfg[k] < v):
            out.append(dict(cfg, **{k: v}))
    for i in range(len(cfg["reqs"])):
        if len(cfg["reqs"]) > 1:
            out.append(dict(cfg, reqs=cfg["reqs"][:i] + cfg["reqs"][i + 1:]))
    return out


def nontrivial(cfg, res):
    return res["probes"].get("kernel-returned", 0) >= 2 and res["switches"] >= 3


COMPONENTS = {
    "real": ["python/qugar/dolfinx/jit.py", "python/qugar/dolfinx/_shim/__init__.py", "CPython logging, contextlib, pathlib"],
    "stub": ["ffcx cache lookup and signatures", "dolfinx rank-0-first decorator and communicator", "cffi, C compiler, dynamic loader",
             "UFL forms and code generation", "C++ compiler of the shim", "file system, clock, processes"],
}
