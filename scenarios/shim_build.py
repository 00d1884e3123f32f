"""Cross-process build-once cache of the tabulation shim (properties C01-C04).

Real code: python/qugar/dolfinx/_shim/__init__.py, one fresh module instance per
simulated process. Stub: the C++ compiler/linker (modelled on GNU ld as seen in
strace: unlink old output, create it empty, write pieces, chmod) and the OS.
"""

from __future__ import annotations

import errno
import fnmatch
import hashlib
import json
import posixpath
import random
import re
import sys

from simpy import patches
from simpy.core import Sim, Violation
from simpy.vfs import ROOT, VFS

SRC = "/repo/python/qugar/dolfinx/_shim/__init__.py"
SITE = ROOT + "/site/qugar/dolfinx/_shim"
BUILDER = SITE + "/__init__.py"
CPP = SITE + "/qugar_basix_shim.cpp"
CACHE = ROOT + "/cache/shim"
LIB = "/libqugar_basix_shim.so"
OTHER = ROOT + "/cache/other"    # another cache directory some requests ask for
CXX = ROOT + "/bin/c++"
ENV = ROOT + "/env"              # the active environment (sys.prefix)
USR = ROOT + "/usr/bin"          # also on PATH
ENV_GLOBS = ("clang++", "clang++-*", "g++", "c++", "*-c++", "*-g++", "*-clang++")

CLASSES = {
    "C01": {"torn-library", "library-missing", "wrong-result", "spurious-failure-torn"},
    "C02": {"stale-library"},
    "C03": {"concurrent-build", "redundant-build"},
    "C04": {"spurious-failure", "swallowed-failure", "not-recovered", "deadlock",
            "no-progress", "library-missing-after-success", "litter"},
    "C20": {"wrong-compiler", "wrong-place", "wrong-link"},
}

_code = None


def _module_code():
    global _code
    if _code is None:
        with patches.R.get("open", open)(SRC) as f:
            _code = compile(f.read(), BUILDER, "exec")
    return _code


# --------------------------------------------------------------- fake binary
def make_lib(meta, size):
    body = b"\x7fSIMLIB" + json.dumps(meta, sort_keys=True).encode() + b"\n"
    body += b"." * max(0, size - len(body))
    return body + hashlib.sha1(body).hexdigest().encode()


def parse_lib(data):
    """Metadata of a complete library image, or None."""
    data = bytes(data)
    if len(data) < 48 or not data.startswith(b"\x7fSIM"):
        return None
    body, dig = data[:-40], data[-40:]
    if hashlib.sha1(body).hexdigest().encode() != dig:
        return None
    return json.loads(body[7:body.index(b"\n")])


def src_text(v):
    return f"// shim source\n// SIMVER {v}\n"


def src_ver(data):
    t = bytes(data).decode(errors="replace")
    i = t.rfind("SIMVER ")
    return int(t[i + 7:].split()[0]) if i >= 0 else None


def compiler(world):
    """A C++ compiler driver running as its own simulated process."""
    def run(sim, child, argv, out, errout, cwd):
        import os
        cfg = world.cfg
        path = None
        inputs = []
        compile_only = False
        text = " ".join(argv)
        inc = any(text.find(f + d + sys.prefix + "/include") >= 0 for f in ("-I", "-isystem") for d in ("", " "))
        lib = sys.prefix + "/lib"
        rpath = bool(re.search(r"rpath[=, ](-Wl,)?" + re.escape(lib) + r"(?![\w/])", text))
        linked = ("-lbasix" in argv and ("-L" + lib in argv or "-L " + lib in text)) or any("libbasix." in a for a in argv)
        std = bool(re.search(r"-std=(c|gnu)\+\+2\w", text))
        shared = "-shared" in argv or "-dynamiclib" in argv
        it = iter(argv[1:])
        for a in it:
            if a == "-o":
                path = next(it, None)
            elif a.startswith("-o") and len(a) > 2:
                path = a[2:]
            elif a == "-c":
                compile_only = True
            elif a in ("-I", "-L", "-l", "-x", "-isystem", "-Xlinker", "-MF"):
                next(it, None)
            elif a.startswith("-"):
                continue
            else:
                inputs.append(a)
        if path is None or not inputs:
            errout += b"c++: no input files\n"
            world.build_failed(child)
            return 1
        if not path.startswith("/"):
            path = (cwd or ROOT) + "/" + path
        b = world.build_started(child, path, compile_only)
        world.compiled_by(child, argv[0])

        def fail(msg, code=1):
            errout.extend(msg)
            world.build_ended(b, False)
            return code
        sim.step("cc start")
        sim.sleep(0.01 + 0.2 * (b.n % 3), "cc1plus")
        if sim.fault("compile-error", cfg["p_cerr"]):
            return fail(b"error: internal compiler error\n")
        try:
            meta = None
            for p in inputs:
                with open(p, "rb") as f:
                    data = f.read()
                if data.startswith(b"\x7fSIM"):
                    meta = parse_lib(data)
                    if meta is None:
                        return fail(b"ld: truncated object\n")
                else:
                    v = src_ver(data)
                    if v is None:
                        return fail(b"error: truncated source\n")
                    meta = {"src": v, "builder": world.builder_of(child), "b": b.n}
        except OSError as e:
            return fail(str(e).encode())
        sim.sleep(cfg["cc_time"], "cc1plus")
        if not inc or not std:
            return fail(b"error: basix/finite-element.h: No such file or directory\n" if not inc else b"error: 'requires' needs C++20\n")
        if not compile_only and not (shared and linked):
            return fail(b"ld: undefined reference to main\n" if not shared else b"ld: undefined reference to basix\n")
        if not compile_only and not rpath:
            world.bad("wrong-link", "the library is linked without saying where the environment's element library is: it cannot be loaded")
        if sim.fault("compile-enospc-tmp", cfg["p_cerr"] / 2):
            return fail(b"error: cannot write /tmp: No space left on device\n")
        data = make_lib(meta, cfg["lib_size"])
        try:
            if not compile_only and os.path.lexists(path):
                os.unlink(path)
            fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o666)
        except OSError as e:
            return fail(b"ld: cannot open output file: " + str(e).encode())
        sim.sleep(0.001, "ld reads inputs")
        pos, pieces = 0, cfg["pieces"]
        step = max(1, len(data) // pieces)
        while pos < len(data):
            if sim.fault("link-enospc", cfg["p_enospc"]):
                try:
                    os.unlink(path)
                except OSError:
                    pass
                return fail(b"ld: final link failed: No space left on device\n")
            if sim.fault("linker-killed", cfg["p_ldkill"]):
                world.build_ended(b, False)
                child.attrs["sig"] = 9
                child.kill()
                sim.step("killed")
            n = os.write(fd, data[pos:pos + step])
            pos += n
        os.close(fd)
        try:
            os.chmod(path, 0o755)
        except OSError:
            pass
        world.build_ended(b, True, meta)
        sim.step("cc exit")
        return 0
    return run


class Build:
    def __init__(self, n, child, path, t, call):
        self.n, self.child, self.path, self.t, self.call = n, child, path, t, call
        self.running = True
        self.ok = None


class World:
    def __init__(self, sim, cfg, active):
        self.sim, self.cfg, self.active = sim, cfg, active
        self.vfs = sim.vfs = VFS(sim)
        self.src_v = 1
        self.builder_v = 1
        self.src_mtime = sim.wall() - 5000
        self.last_edit = -1.0
        self.edit_seq = 0
        self.ready = set()         # caches whose library somebody was promised
        self.builds = []
        self.calls = []
        self.wipes = 0
        self.excuse_overlap = False
        self.crashes = 0
        self.crash_budget = cfg["crashes"]
        self.clients = []
        self.successes = 0
        self.failures_seen = 0
        self.where = cfg.get("where", "env")
        self.cache = {"env": CACHE, "home": ROOT + "/home/.cache/qugar/shim", "deep": ROOT + "/cache/a b/c/d"}[self.where]
        self.tool = cfg.get("tool") or {"cxx": "path", "env": [], "path": []}
        self.reference = False
        self.tools = []            # acceptable origins of the compiler, after each change of the installed ones
        sim.find_program = self.find_program
        self.prog = compiler(self)
        sim.dlopen = self.dlopen
        v = self.vfs
        v.mkdirs(ROOT + "/bin")
        v.mkdirs(ROOT + "/tmp")
        v.mkdirs(ROOT + "/home")
        v.mkdirs(SITE)
        v.mkdirs(ENV + "/bin")
        v.mkdirs(USR)
        if self.tool["cxx"] == "path":
            self.install("cxx", "c++")
        for n in self.tool["env"]:
            self.install("env", n)
        for n in self.tool["path"]:
            self.install("path", n)
        self.tool_changed()
        v.put(BUILDER, b"# builder 1\n", self.src_mtime - 10)
        v.put(CPP, src_text(1), self.src_mtime)
        if cfg["tmp_dev"]:
            v.dev_of.append((ROOT + "/tmp", 2))
        if cfg["cache_exists"]:
            v.mkdirs(self.cache)
        if cfg["initial"] == "litter":
            v.mkdirs(self.cache)
            v.put(self.cache + "/.build.lock", b"")
            v.put(self.cache + "/.4007.libqugar_basix_shim.so", b"\x7fSIMgarbage")
            v.put(self.cache + "/libqugar_basix_shim.so.tmp", b"\x7fSIMgarbage")
        if cfg["op_faults"]:
            for op, errs in {"open": (errno.EACCES, errno.EMFILE, errno.EIO), "mkdir": (errno.ENOSPC,),
                             "flock": (errno.ENOLCK,), "rename": (errno.EIO,), "utime": (errno.EPERM,),
                             "stat": (errno.EIO,), "unlink": (errno.EIO,), "spawn": (errno.ENOMEM, errno.EAGAIN)}.items():
                v.fault_p[op] = [(e, cfg["op_faults"]) for e in errs]
            v.fault_ok = self.fault_ok
        v.on_fault = self.on_fault
        if cfg["short_writes"]:
            v.fault_p["short"] = cfg["short_writes"]
        sim.invariants.append(self.invariant)
        sim.on_step.append(self.on_step)

    # ------------------------------------------------------------ compilers
    PLACES = {"cxx": ROOT + "/bin", "env": ENV + "/bin", "path": USR}

    def install(self, place, name):
        self.vfs.put(f"{self.PLACES[place]}/{name}", b"#!cc").mode = 0o755

    def names(self, place):
        n = self.vfs.peek(self.PLACES[place])
        return set(n.children) if n is not None else set()

    @staticmethod
    def user_cxx(kind):
        return {"path": CXX, "name": "my-c++", "missing": "no-such-c++", "badpath": ROOT + "/opt/none/c++"}.get(kind)

    def tool_changed(self):
        self.tools.append({k: self.names(k) for k in self.PLACES})

    def origins(self, kind, since):
        """Where the compiler of a request with this CXX may come from, given what was installed since."""
        ok = set()
        c = self.user_cxx(kind)
        for t in self.tools[since:]:
            if c is not None and (posixpath.basename(c) in t["cxx"] | (t["path"] if "/" not in c else set())):
                ok.add("cxx")
                continue
            some = True
            if any(fnmatch.fnmatchcase(n, g) for n in t["env"] for g in ENV_GLOBS):
                ok.add("env")
            elif (t["path"] | t["cxx"]) & {"clang++", "g++", "c++"}:
                ok.add("path")
            else:
                some = False
            if c is not None or not some:
                ok.add("none")          # a compiler that is named but not there may be an error
        return ok

    def find_program(self, a):
        dirs = [posixpath.dirname(a)] if "/" in a else [ROOT + "/bin", USR]
        for d in dirs:
            n = self.vfs.peek(posixpath.join(d, posixpath.basename(a)))
            if n is not None and not n.dir and n.mode & 0o111:
                return self.prog
        return None

    def compiled_by(self, child, a):
        calls = self.call_of(child)
        if not calls:
            return
        ok = set().union(*(self.origins(c["cxx"], c["tools"]) for c in calls))
        c = self.user_cxx(calls[0]["cxx"])
        d, base = posixpath.dirname(a), posixpath.basename(a)
        got = "cxx" if c is not None and (a == c or ("/" not in c and base == c)) else "env" if d == ENV + "/bin" else "path"
        if got not in ok:
            self.bad("wrong-compiler", f"the library is compiled with {a} ({got}), but CXX is {c!r}, the environment has {sorted(self.names('env'))} "
                     f"and the search path {sorted(self.names('path'))}")
        self.sim.probe("compiled-by-" + got)

    def toolchain(self, what, place, name):
        for c in self.calls:
            if c["open"]:
                c["touched"] = True
        if what == "add":
            self.install(place, name)
        else:
            self.vfs.peek(self.PLACES[place]).children.pop(name, None)
        self.tool_changed()
        self.sim.count_fault("toolchain-changed")

    # --------------------------------------------------------------- oracle
    def bad(self, klass, msg):
        if klass in self.active:
            # kept even when the code under test swallows the exception
            if self.sim.failure is None:
                self.sim.failure = Violation(klass, msg)
            raise self.sim.failure
        self.sim.log(f"(inactive) {klass} {msg}")

    def builder_of(self, child):
        p = child
        while "parent" in p.attrs:
            p = p.attrs["parent"]
        return p.attrs.get("builder", 0)

    def root_proc(self, child):
        p = child
        while "parent" in p.attrs:
            p = p.attrs["parent"]
        return p

    def call_of(self, child):
        p = self.root_proc(child)
        return p.attrs.get("open_calls", [])

    def lib_meta(self, cache=None):
        n = self.vfs.peek((cache or self.cache) + LIB)
        return None if n is None else parse_lib(n.data)

    def invariant(self):
        for cache in self.ready:
            n = self.vfs.peek(cache + LIB)
            if n is None:
                self.ready.discard(cache)
                self.bad("torn-library", "the library an earlier successful call named has disappeared")
                return
            if parse_lib(n.data) is None:
                self.ready.discard(cache)
                self.bad("torn-library", f"the library an earlier successful call named is incomplete ({len(n.data)} bytes)")
                return

    def fault_ok(self, op, path):
        t = patches.current_task()
        return (path.startswith(ROOT + "/cache") or path.startswith(self.cache) or path.startswith(SITE) or op == "spawn") and \
            t is not None and "parent" not in t.proc.attrs and t.proc.attrs.get("open_calls")

    def on_fault(self, op, path, e):
        t = patches.current_task()
        if t is not None:
            for c in self.call_of(t.proc):
                c["touched"] = True

    def build_failed(self, child):
        for c in self.call_of(child):
            c["touched"] = True
            c["cc_failed"] = True

    def build_started(self, child, path, compile_only):
        sim = self.sim
        root = self.root_proc(child)
        calls = self.call_of(child)
        cache = calls[0].get("cache") if calls else None
        began = min([c["edit_seq"] for c in calls], default=self.edit_seq)
        for o in self.builds:
            if o.running and not o.child.dead and not o.orphan and not child.attrs.get("orphan") and \
                    o.cache == cache and not any(c["wiped"] for c in calls + o.call):
                self.bad("concurrent-build", f"{child.name} compiles while {o.child.name} still does")
        if not compile_only or not any(o.running and self.root_proc(o.child) is root for o in self.builds):
            m = self.lib_meta(cache)
            if m and not self.reference and not any(c["touched"] for c in calls) and (m["src"], m["builder"]) == (self.src_v, self.builder_v) and \
                    self.builds[m["b"]].began >= self.edit_seq and \
                    root.attrs.get("builder") == self.builder_v:
                self.bad("redundant-build", f"{child.name} rebuilds although a complete library of the current sources is in place")
        b = Build(len(self.builds), child, path, sim.now, calls)
        b.orphan, b.began = bool(child.attrs.get("orphan")), began
        b.root, b.cache = root, cache
        self.builds.append(b)
        sim.probe("build-started")
        return b

    def build_ended(self, b, ok, meta=None):
        b.running, b.ok = False, ok
        if not ok:
            self.sim.probe("build-failed")
            for c in self.call_of(b.child):
                c["touched"] = True
                c["cc_failed"] = True

    # ------------------------------------------------------------ adversary
    def on_step(self, task, what):
        p = task.proc
        if self.cfg["p_sigint"] and task.local.get("incall") and self.sim.faults_on and \
                not task.local.get("hit") and not what.startswith(("close", "unlock", "L")) and \
                self.sim.fault("keyboard-interrupt", self.cfg["p_sigint"]):
            for c in p.attrs["open_calls"]:
                c["touched"] = True
            task.local["hit"] = True
            raise KeyboardInterrupt()
        if "parent" in p.attrs or p.attrs.get("role") != "client" or not self.sim.faults_on:
            return
        if self.crash_budget > 0 and p.attrs.get("open_calls") and self.sim.fault("process-killed", self.cfg["p_crash"]):
            self.crash_budget -= 1
            self.kill(p)

    def kill(self, p):
        self.crashes += 1
        group = self.sim.chance("kill-group", 0.5)
        for q in self.sim.procs:
            if q.attrs.get("parent") is p and not q.dead:
                if group:
                    for b in self.builds:
                        if b.child is q:
                            b.running = False
                    q.attrs["sig"] = 9
                    q.kill()
                else:
                    self.sim.probe("orphan-compiler")
                    q.attrs["orphan"] = True
                    for b in self.builds:
                        if b.child is q:
                            b.orphan = True
        p.attrs["open_calls"] = []
        p.kill()
        self.spawn_client(p.attrs["calls_left"] + 1, p.attrs["gen"] + 1)

    def edit(self, what):
        sim = self.sim
        self.edit_seq += 1
        old_m = self.src_mtime
        if self.cfg["edit_mtime"] == "now":
            m = max(sim.wall(), old_m + self.cfg["mtime_step"])
        else:                       # installed with the packager's timestamps
            m = old_m + self.cfg["mtime_step"]
        self.src_mtime = m
        if what == "src":
            self.src_v += 1
            self.vfs.put(CPP, src_text(self.src_v), m)
        else:
            self.builder_v += 1
            self.vfs.put(BUILDER, f"# builder {self.builder_v}\n", m)
        sim.probe("edit-" + what)
        sim.log(f"EDIT {what} -> {self.src_v},{self.builder_v} mtime {m - sim.t0:.3f}")

    def wipe(self):
        self.wipes += 1
        self.ready.clear()
        for c in self.calls:
            if c["open"]:
                c["wiped"] = True
        if self.vfs.peek(self.cache) is not None:
            if self.cfg["wipe_kind"] == "tree":
                self.vfs.wipe(posixpath.dirname(self.cache))
            else:
                self.vfs.peek(self.cache).children.clear()
        self.sim.count_fault("cache-wiped")

    # -------------------------------------------------------------- clients
    def new_proc(self, gen=0, role="client"):
        env = {"HOME": ROOT + "/home", "PATH": ROOT + "/bin:" + USR, "TMPDIR": ROOT + "/tmp"}
        if self.where != "home":
            env["QUGAR_SHIM_CACHE"] = self.cache
        if self.user_cxx(self.tool["cxx"]) is not None:
            env["CXX"] = self.user_cxx(self.tool["cxx"])
        p = self.sim.proc(f"P{len(self.sim.procs)}", env)
        p.on_exit.append(self.vfs.close_all)
        p.attrs.update(role=role, gen=gen, open_calls=[], calls_left=0, cache=self.cache, cxx=self.tool["cxx"])
        return p

    def load(self, p):
        import types
        p.attrs["builder"] = self.builder_v
        m = types.ModuleType("qugar.dolfinx._shim")
        m.__file__ = BUILDER
        m.__package__ = "qugar.dolfinx._shim"
        m.__path__ = [SITE]
        exec(_module_code(), m.__dict__)
        return m

    def spawn_client(self, calls, gen=0):
        p = self.new_proc(gen)
        p.attrs["calls_left"] = calls
        sim = self.sim
        nth = self.cfg["threads"]

        def first():
            p.attrs["mod"] = self.load(p)
            for i in range(1, nth):
                sim.spawn(p, f"{p.name}.t{i}", worker)
            worker()

        def worker():
            while p.attrs["calls_left"] > 0 and not self.closing():
                p.attrs["calls_left"] -= 1
                if nth == 1 and self.cfg.get("moves") and sim.chance("move", 0.5):
                    self.move(p)
                self.call(p, p.attrs["mod"])
                d = self.cfg["think"]
                if d:
                    sim.sleep(d * (1 + sim.pick("think", 4)))
                else:
                    sim.step("think")
        sim.spawn(p, p.name + ".t0", first)
        self.clients.append(p)

    def move(self, p):
        """The program changes its own environment between two requests."""
        sim = self.sim
        kinds = sorted({None, "name", "path", self.tool["cxx"]}, key=str)
        p.attrs["cache"] = (self.cache, OTHER)[sim.pick("move-cache", 2)]
        p.attrs["cxx"] = kinds[sim.pick("move-cxx", len(kinds))]
        for k, v in (("QUGAR_SHIM_CACHE", None if p.attrs["cache"] == self.cache and self.where == "home" else p.attrs["cache"]),
                     ("CXX", self.user_cxx(p.attrs["cxx"]))):
            if v is None:
                p.env.pop(k, None)
            else:
                p.env[k] = v
        sim.count_fault("environment-changed")

    def closing(self):
        return False

    def call(self, p, mod, final=False):
        sim = self.sim
        c = {"touched": False, "cc_failed": False, "wiped": False, "open": True,
             "src": self.src_v, "builder": self.builder_v, "edit_seq": self.edit_seq, "t": sim.now, "tools": len(self.tools) - 1,
             "cache": p.attrs["cache"], "cxx": p.attrs["cxx"]}
        self.calls.append(c)
        p.attrs["open_calls"] = p.attrs["open_calls"] + [c]
        sim.log("call")
        task = patches.current_task()
        try:
            task.local["incall"], task.local["hit"] = True, False
            ret = mod.ensure_built()
            exc = None
        except (Exception, KeyboardInterrupt) as e:      # noqa: BLE001
            ret, exc = None, e
        finally:
            task.local["incall"] = False
            if not p.dead and not sim.aborting:
                p.attrs["open_calls"] = [x for x in p.attrs["open_calls"] if x is not c]
                c["open"] = False
        sim.log(f"return {'ok' if exc is None else type(exc).__name__}")
        if exc is not None:
            self.failures_seen += 1
            nocc = "none" in self.origins(c["cxx"], c["tools"])
            if not (c["touched"] or c["wiped"] or nocc):
                self.bad("spurious-failure", f"call failed with {type(exc).__name__}: {exc} though nothing failed under it")
            return exc
        self.successes += 1
        sim.probe("success")
        if c["wiped"]:
            return None
        # The promise made by a successful return.
        try:
            d, name = ret
            where = f"{d}/lib{name}.so"
        except Exception:
            self.bad("wrong-result", f"unexpected result {ret!r}")
            return None
        if str(d) != c["cache"]:
            self.bad("wrong-place", f"the library is in {d}, not in the cache directory {c['cache']} that was asked for")
            return None
        n = self.vfs.peek(where)
        if n is None:
            self.bad("library-missing", f"success returned but {where} does not exist")
            self.bad("library-missing-after-success", f"success returned but {where} does not exist")
            return None
        m = parse_lib(n.data)
        if m is None:
            self.bad("torn-library", f"success returned but {where} is incomplete ({len(n.data)} bytes)")
            if c["cc_failed"]:
                self.bad("swallowed-failure", "the compiler failed but the call reported success")
            return None
        self.ready.add(c["cache"])
        if m["src"] < c["src"] or m["builder"] < min(c["builder"], p.attrs["builder"]):
            self.bad("stale-library", f"library built from source v{m['src']}/builder v{m['builder']}, "
                     f"but v{c['src']}/v{c['builder']} was on disk when the call began")
            if c["cc_failed"]:
                self.bad("swallowed-failure", "the compiler failed but the call reported success")
        return None

    def dlopen(self, proc, path):
        n = self.vfs.peek(path)
        self.sim.step(f"dlopen {path}")
        if n is None or parse_lib(n.data) is None:
            raise OSError(f"{path}: file too short")
        return object()


def gen_config(rs):
    r = random.Random(f"cfg/{rs}")
    faulty = r.random() < 0.6
    cfg = {
        "procs": r.choice([1, 2, 2, 3, 3, 4]),
        "threads": r.choice([1, 1, 1, 2]),
        "calls": r.choice([1, 2, 2, 3]),
        "think": r.choice([0, 0, 0.05, 0.5]),
        "cc_time": r.choice([0.0, 0.01, 0.3, 2.0]),
        "pieces": r.choice([1, 2, 3, 6]),
        "lib_size": r.choice([200, 300]),
        "initial": r.choice(["none", "none", "none", "fresh", "stale", "stale", "litter"]),
        "cache_exists": r.random() < 0.7,
        "tmp_dev": r.random() < 0.5,
        "p_switch": r.choice([0.02, 0.1, 0.3, 0.6]),
        "policy": r.choice(["random", "random", "prio"]),
        "p_cerr": 0.0, "p_enospc": 0.0, "p_ldkill": 0.0, "p_crash": 0.0, "crashes": 0,
        "p_sigint": 0.0, "op_faults": 0.0, "short_writes": 0.0,
        "edits": [], "wipes": [], "skews": [],
        "edit_mtime": r.choice(["now", "now", "old"]),
        "mtime_step": r.choice([1.0, 1.0, 0.3, 0.01]),
        "wipe_kind": r.choice(["tree", "files"]),
        "lines": r.random() < 0.15,
    }
    if faulty:
        kinds = r.sample(["cerr", "enospc", "ldkill", "crash", "ops", "wipe", "short", "sigint"], r.choice([1, 1, 2, 3]))
        if "cerr" in kinds:
            cfg["p_cerr"] = r.choice([0.2, 0.6])
        if "enospc" in kinds:
            cfg["p_enospc"] = r.choice([0.1, 0.4])
        if "ldkill" in kinds:
            cfg["p_ldkill"] = r.choice([0.1, 0.4])
        if "crash" in kinds:
            cfg["p_crash"] = r.choice([0.01, 0.05, 0.15])
            cfg["crashes"] = r.choice([1, 2, 3])
        if "ops" in kinds:
            cfg["op_faults"] = r.choice([0.01, 0.04])
        if "wipe" in kinds:
            cfg["wipes"] = [round(r.uniform(0, 3), 3) for _ in range(r.choice([1, 2]))]
        if "sigint" in kinds:
            cfg["p_sigint"] = r.choice([0.005, 0.02])
        if "short" in kinds:
            cfg["short_writes"] = 0.3
    if r.random() < 0.5:
        cfg["edits"] = sorted([round(r.uniform(0, 3), 3), r.choice(["src", "src", "upgrade"])] for _ in range(r.choice([1, 1, 2, 3])))
    if r.random() < 0.35:
        cfg["skews"] = [[round(r.uniform(0, 2), 3), r.choice([-20000.0, -3600.0, -1.0, 3600.0])]]
    cfg["where"] = r.choice(["env", "env", "env", "home", "deep"])
    if r.random() < 0.35:
        cfg["tool"] = gen_tools(r)
    return cfg


def gen_tools(r):
    env = r.sample(["clang++", "clang++-18", "g++", "c++", "x86_64-conda-linux-gnu-c++", "x86_64-conda-linux-gnu-g++", "arm64-apple-darwin20-clang++"],
                   r.choice([0, 1, 1, 2, 3]))
    tool = {"cxx": r.choice([None, None, None, "path", "name", "missing", "badpath"]), "env": env,
            "path": r.sample(["clang++", "g++", "c++", "cc", "my-c++"], r.choice([0, 1, 1, 2, 3])), "events": []}
    if r.random() < 0.4:
        tool["events"] = [[round(r.uniform(0, 2), 3), r.choice(["add", "add", "del"]), r.choice(["env", "path"]), r.choice(env + ["clang++", "g++"])]
                          for _ in range(r.choice([1, 2, 3]))]
    return tool


def gen_config_for(rs, prop):
    cfg = gen_config(rs)
    r = random.Random(f"tool/{rs}")
    if prop == "C20" and "tool" not in cfg:
        cfg["tool"] = gen_tools(r)
    cfg["moves"] = r.random() < (0.5 if prop == "C20" else 0.15)
    if cfg["moves"]:
        cfg["threads"] = 1
    return cfg


def execute(run_seed, cfg, active, trace=None, keep_log=False):
    """One simulated run. Returns a result dict; never raises Violation."""
    patches.install()
    prefix, sys.prefix = sys.prefix, ENV
    try:
        return _execute(run_seed, cfg, active, trace, keep_log)
    finally:
        sys.prefix = prefix


def _execute(run_seed, cfg, active, trace=None, keep_log=False):
    sim = Sim(run_seed, cfg, trace, keep_log, max_steps=cfg.get("max_steps", 20000))
    if cfg.get("lines"):
        sim.trace_codes = {BUILDER}
    w = World(sim, cfg, active)
    res = {"violation": None}
    try:
        adv = sim.proc("adv", {})
        events = [(t, "edit", k) for t, k in cfg["edits"]] + [(t, "wipe", 0) for t in cfg["wipes"]] + \
                 [(t, "skew", d) for t, d in cfg["skews"]] + \
                 [(t, "tool", tuple(x)) for t, *x in (cfg.get("tool") or {}).get("events", [])]
        events.sort(key=lambda e: (e[0], e[1], str(e[2])))

        def adversary():
            # Events are placed by simulated time or, half of the time, by
            # waiting for an in-flight build.
            for t, kind, arg in events:
                dt = sim.t0 + t - sim.now
                if sim.chance("ev-inflight", 0.5):
                    sim.wait(lambda: any(b.running for b in w.builds), "adv", timeout=max(dt, 0.0) + 0.5)
                elif dt > 0:
                    sim.sleep(dt, "adv")
                else:
                    sim.step("adv")
                if kind == "edit":
                    if arg == "upgrade":
                        # A package upgrade: running interpreters are stopped first.
                        live = [p for p in w.clients if not p.dead and any(not t.done for t in p.tasks)]
                        w.edit("builder")
                        for p in live:
                            w.kill(p)
                            sim.fault_counts["restart-for-upgrade"] = sim.fault_counts.get("restart-for-upgrade", 0) + 1
                    else:
                        w.edit("src")
                elif kind == "wipe":
                    w.wipe()
                elif kind == "tool":
                    w.toolchain(*arg)
                else:
                    sim.wall_skew += arg
                    sim.count_fault("clock-jump")

        def warmup():
            # History before the run proper: an earlier process left a library,
            # possibly of older sources.
            if cfg["initial"] in ("fresh", "stale") and "none" not in w.origins(w.tool["cxx"], -1):
                sim.faults_on = False
                w.call(wp, w.load(wp))
                sim.faults_on = True
                if cfg["initial"] == "stale":
                    w.edit("src")
            for _ in range(cfg["procs"]):
                w.spawn_client(cfg["calls"])
            if events:
                sim.spawn(adv, "adversary", adversary)
        wp = w.new_proc(role="warmup")
        sim.spawn(wp, "warmup", warmup)

        def closer():
            # Faults stop here; a fresh process must now succeed, twice, and
            # the second time without compiling again.
            sim.wait(lambda: all(t.done for t in sim.tasks if t is not ct and t.proc.attrs.get("role") != "closer"), "closer")
            sim.faults_on = False
            cfg2 = w.cfg
            w.cfg = dict(cfg2, p_cerr=0, p_enospc=0, p_ldkill=0)
            w.vfs.fault_p = {}
            p = ct.proc
            mod = w.load(p)
            if "none" in w.origins(w.tool["cxx"], -1):
                e = w.call(p, mod, True)
                if e is None and w.lib_meta() is None:
                    w.bad("swallowed-failure", "success without any compiler and without a library")
                p.attrs["cxx"] = None       # what a user does next: unset it, and install a compiler
                p.env.pop("CXX", None)
                w.install("env", "clang++")
                w.tool_changed()
            e = w.call(p, mod, True)
            if e is not None:
                w.bad("not-recovered", f"after all faults stopped the next call still fails: {type(e).__name__}: {e}")
            nb = len(w.builds)
            e = w.call(p, mod, True)
            if e is None and len(w.builds) != nb:
                w.bad("redundant-build", "a second call rebuilds an up-to-date library")
            m = w.lib_meta()
            if m is None:
                w.bad("torn-library", "at the end the library is missing or incomplete")
            messy = ("process-killed", "restart-for-upgrade", "cache-wiped", "keyboard-interrupt")
            if cfg["initial"] != "litter" and not any(k in messy or k.startswith(("unlink", "rename", "stat")) for k in sim.fault_counts):
                # which files one undisturbed build leaves behind
                n = w.vfs.peek(w.cache)
                names = set(n.children) if n is not None else set()
                p.env["QUGAR_SHIM_CACHE"] = ROOT + "/cache/reference"
                w.reference = True
                try:
                    mod.ensure_built()
                    extra = names - set(w.vfs.peek(ROOT + "/cache/reference").children)
                except Exception:       # noqa: BLE001
                    extra = ()
                if extra:
                    w.bad("litter", f"builds that failed or succeeded without being killed left {sorted(extra)} in the cache")
        cp = w.new_proc(role="closer")
        ct = sim.spawn(cp, "closer", closer)
        sim.run()
    except Violation as v:
        if v.klass in active:
            res["violation"] = {"class": v.klass, "msg": v.msg}
        else:
            res["other"] = v.klass
    res.update(digest=sim.digest(), sched=sim.shash.hexdigest(), steps=sim.steps, faults=sim.fault_counts,
               probes=sim.probe_counts, sim_s=sim.now - sim.t0, choices=sim.choices, switches=sim.switches,
               calls=len(w.calls), ok=w.successes, builds=len(w.builds), decisions=sim.n_dec,
               log=sim.log_lines)
    return res


def shrink_config(cfg):
    """Smaller configurations to try, most aggressive first."""
    out = []
    for k, v in (("procs", 1), ("procs", 2), ("threads", 1), ("calls", 1), ("edits", []), ("wipes", []),
                 ("skews", []), ("pieces", 1), ("think", 0), ("lines", False), ("tmp_dev", False),
                 ("crashes", 1), ("op_faults", 0.0), ("short_writes", 0.0), ("p_cerr", 0.0), ("p_enospc", 0.0),
                 ("p_ldkill", 0.0), ("p_crash", 0.0), ("p_sigint", 0.0), ("initial", "none"), ("cc_time", 0.0),
                 ("where", "env"), ("tool", None), ("moves", False)):
        if k in cfg and cfg[k] != v and not (k in ("procs", "crashes") and cfg[k] < v):
            out.append(dict(cfg, **{k: v}))
    return out


def nontrivial(cfg, res):
    return res["ok"] > 0 and res["switches"] >= 4 and (res["builds"] > 0 or sum(res["faults"].values()) > 0)


COMPONENTS = {
    "real": ["python/qugar/dolfinx/_shim/__init__.py (one fresh instance per simulated process)",
             "CPython pathlib, contextlib, subprocess.run, tempfile, shutil, threading.Condition"],
    "stub": ["C++ compiler and linker", "file system, flock, clock, pids, process creation and death"],
}
