"""Routes os / io / fcntl / subprocess / time / threading of simulated tasks
into the simulator. Code running outside a simulated task sees the real thing.

Real paths stay readable from a task; a write outside the simulated file
system is refused (HarnessError), so nothing under test touches this sandbox.
"""

from __future__ import annotations

import _thread
import builtins
import collections.abc
import ctypes
import errno
import fcntl
import io
import os
import random
import shutil
import signal as _signal
import subprocess
import sys
import tempfile
import threading
import time

from . import core
from .core import HarnessError, current_task
from .vfs import ROOT, err

FDMIN = 100000
R = {}                      # the real functions
_installed = False


def _virt(path):
    if isinstance(path, int):
        return path >= FDMIN
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = p.decode()
    if not p.startswith("/"):
        return False
    return p == ROOT or p.startswith(ROOT + "/")


def _ctx():
    """(sim, proc) of the running simulated task, or None."""
    t = current_task()
    if t is None or t.sim.in_invariant:
        return None
    return t.sim, t.proc


def _vfs(sim):
    return sim.vfs


def _refuse(name, path):
    raise HarnessError(f"simulated code called {name} on the real path {path!r}")


# --------------------------------------------------------------------- files
class RawSim(io.RawIOBase):
    def __init__(self, sim, proc, fd, readable, writable, closefd=True, name=None):
        self._sim, self._proc, self._fd = sim, proc, fd
        self._r, self._w, self._closefd = readable, writable, closefd
        self.name = name
        self.mode = "rb+" if readable and writable else ("rb" if readable else "wb")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        d = self._sim.vfs.read(self._proc, self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self._sim.vfs.write(self._proc, self._fd, bytes(b))

    def seek(self, off, whence=0):
        return self._sim.vfs.lseek(self._proc, self._fd, off, whence)

    def tell(self):
        return self._sim.vfs.of(self._proc, self._fd).pos

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._sim.vfs.truncate(self._proc, self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            if not self._sim.aborting and not self._proc.dead:
                super().close()
        finally:
            fd, self._r = self._fd, False
            if self._closefd and fd in self._proc.fds:
                t = current_task()
                if t is None or t.proc is not self._proc:
                    self._sim.vfs.close(self._proc, fd, quiet=True)
                else:
                    self._sim.vfs.close(self._proc, fd)
            if not io.RawIOBase.closed.__get__(self):
                try:
                    super().close()
                except BaseException:
                    pass

    def __del__(self):
        # A handle dropped without close: release the descriptor quietly.
        try:
            if self._closefd and self._fd in self._proc.fds and not self.closed:
                self._sim.vfs.close(self._proc, self._fd, quiet=True)
        except BaseException:
            pass


def _flags_of(mode):
    plus = "+" in mode
    if "x" in mode:
        f = os.O_CREAT | os.O_EXCL | (os.O_RDWR if plus else os.O_WRONLY)
    elif "w" in mode:
        f = os.O_CREAT | os.O_TRUNC | (os.O_RDWR if plus else os.O_WRONLY)
    elif "a" in mode:
        f = os.O_CREAT | os.O_APPEND | (os.O_RDWR if plus else os.O_WRONLY)
    elif "r" in mode:
        f = os.O_RDWR if plus else os.O_RDONLY
    else:
        raise ValueError("invalid mode")
    return f


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    c = _ctx()
    if c is None or not (_virt(file) or opener is not None):
        if c is not None and not isinstance(file, int) and set(mode) & set("wax+"):
            _refuse("open", file)
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    sim, proc = c
    flags = _flags_of(mode)
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, flags | os.O_CLOEXEC)
        if not _virt(fd):
            _refuse("opener", file)
    else:
        fd = sim.vfs.open(proc, file, flags, 0o666)
        if sim.vfs.of(proc, fd).inode.dir:
            sim.vfs.close(proc, fd, quiet=True)
            raise err(errno.EISDIR, os.fspath(file))
    plus = "+" in mode
    raw = RawSim(sim, proc, fd, "r" in mode or plus, "r" not in mode or plus, closefd,
                 name=file)
    if "a" in mode:
        sim.vfs.lseek(proc, fd, 0, 2)
    if "b" in mode and buffering == 0:
        return raw
    bs = buffering if buffering > 1 else 8192
    if plus:
        buf = io.BufferedRandom(raw, bs)
    elif "r" in mode:
        buf = io.BufferedReader(raw, bs)
    else:
        buf = io.BufferedWriter(raw, bs)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    t.mode = mode
    return t


def _wrap1(name, impl, writes=False):
    """Patch os.<name>(path, ...)."""
    real = getattr(os, name)
    R[name] = real

    def f(path, *a, **k):
        c = _ctx()
        if c is None:
            return real(path, *a, **k)
        if not _virt(path):
            if writes:
                _refuse(name, path)
            return real(path, *a, **k)
        k.pop("dir_fd", None)
        return impl(c[0], c[1], path, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def _wrap2(name, impl):
    real = getattr(os, name)
    R[name] = real

    def f(src, dst, *a, **k):
        c = _ctx()
        if c is None:
            return real(src, dst, *a, **k)
        if not _virt(src) or not _virt(dst):
            if name == "symlink" and _virt(dst):
                return impl(c[0], c[1], src, dst)
            _refuse(name, (src, dst))
        return impl(c[0], c[1], src, dst)
    f.__name__ = name
    setattr(os, name, f)


class SimDirEntry:
    def __init__(self, sim, d, name):
        self._sim, self.name = sim, name
        self.path = d.rstrip("/") + "/" + name

    def _n(self, follow=True):
        try:
            return self._sim.vfs.lookup(self.path, follow)
        except OSError:
            return None

    def is_dir(self, *, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return bool(n and n.dir)

    def is_file(self, *, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return bool(n and not n.dir and n.link is None)

    def is_symlink(self):
        n = self._n(False)
        return bool(n and n.link is not None)

    def is_junction(self):
        return False

    def inode(self):
        return self._n(False).ino

    def stat(self, *, follow_symlinks=True):
        return self._sim.vfs.stat(self.path, follow_symlinks)

    def __fspath__(self):
        return self.path


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _stat(sim, proc, path, *, follow_symlinks=True):
    if isinstance(path, int):
        return sim.vfs.mkstat(sim.vfs.of(proc, path).inode)
    return sim.vfs.stat(path, follow_symlinks)


# ------------------------------------------------------------------- locking
class SimLock:
    """threading.Lock of a simulated process."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        t = current_task()
        if t is None:
            self._owner, self._count = "main", self._count + 1
            return True
        if self._re and self._owner is t:
            self._count += 1
            return True
        sim = t.sim
        sim.step("lock")
        if self._owner is not None:
            sim.probe("lock-contended")
            if not blocking:
                return False
            ok = sim.wait(lambda: self._owner is None, "lock-wait",
                          None if timeout is None or timeout < 0 else timeout)
            if not ok:
                return False
        self._owner, self._count = t, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        t = current_task()
        if self._re and self._owner is not t:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._re and self._count > 0:
            return
        self._owner, self._count = None, 0
        if t is not None:
            t.sim.step("unlock-mutex")

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self._owner is current_task()

    def _release_save(self):
        s = (self._owner, self._count)
        self._count = 1
        self.release()
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._owner, self._count = s

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def sim_Lock():
    return SimLock() if _ctx() or _loading else R["Lock"]()


def sim_RLock(*a, **k):
    return SimLock(True) if _ctx() or _loading else R["RLock"](*a, **k)


_loading = False


class loading:
    """While active, locks created by executed module code are simulated."""

    def __enter__(self):
        global _loading
        _loading = True

    def __exit__(self, *a):
        global _loading
        _loading = False


# ---------------------------------------------------------------- subprocess
class SimPopen:
    """subprocess.Popen running a simulated program (sim.programs)."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                 env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *,
                 user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        sim, proc = _ctx()
        import shlex
        if isinstance(args, (str, bytes)):
            argv = shlex.split(args if isinstance(args, str) else args.decode())
        else:
            argv = [os.fspath(a) if not isinstance(a, str) else a for a in args]
        if shell and not isinstance(args, (str, bytes)):
            argv = shlex.split(argv[0])
        self.args = args
        self.text = bool(text or universal_newlines or encoding or errors)
        self._want = [stdin == subprocess.PIPE, stdout == subprocess.PIPE, stderr == subprocess.PIPE]
        self._merge = stderr == subprocess.STDOUT
        sim.step("spawn " + " ".join(os.path.basename(a) for a in argv[:1]))
        spawn_faults = sim.vfs.fault_p.get("spawn", ())
        for e, p in spawn_faults:
            if sim.fault(f"spawn:{errno.errorcode[e]}", p):
                if sim.vfs.on_fault:
                    sim.vfs.on_fault("spawn", argv[0], e)
                raise err(e, argv[0])
        prog = sim.find_program(argv[0])
        if prog is None:
            raise err(errno.ENOENT, argv[0])
        self._sim = sim
        self.child = sim.proc(f"{os.path.basename(argv[0])}#{len(sim.procs)}", dict(env if env is not None else proc.env))
        self.child.attrs["parent"] = proc
        self.child.on_exit.append(sim.vfs.close_all)
        self.pid = self.child.pid
        self.returncode = None
        self._code = [None]
        self._out, self._err = bytearray(), bytearray()
        child = self.child

        def main():
            rc = prog(sim, child, argv, self._out, self._err, cwd)
            self._code[0] = rc
            child.release_os()
            child.dead = True
        sim.spawn(child, child.name, main)
        self.stdin = io.BytesIO() if self._want[0] else None
        self.stdout = self.stderr = None

    def _exited(self):
        if self._code[0] is not None:
            return self._code[0]
        if self.child.dead:
            return -int(self.child.attrs.get("sig", 9))
        return None

    def poll(self):
        if self.returncode is None:
            self._sim.step("waitpid")
            self.returncode = self._exited()
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            ok = self._sim.wait(lambda: self._exited() is not None, f"wait {self.child.name}", timeout)
            if not ok:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = self._exited()
        return self.returncode

    def _conv(self, b, want):
        if not want:
            return None
        return bytes(b).decode() if self.text else bytes(b)

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        if self._merge:
            return self._conv(self._out + self._err, self._want[1]), None
        return self._conv(self._out, self._want[1]), self._conv(self._err, self._want[2])

    def send_signal(self, sig):
        self._sim.step(f"kill {int(sig)}")
        if self._exited() is None:
            self.child.attrs["sig"] = int(sig)
            self.child.kill()

    def kill(self):
        self.send_signal(_signal.SIGKILL)

    def terminate(self):
        self.send_signal(_signal.SIGTERM)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class _EnvProxy(collections.abc.MutableMapping):
    """os.environ: the running simulated process's, else the real one."""

    def _d(self):
        t = current_task()
        return R["environ"] if t is None else t.proc.env

    def __getitem__(self, k):
        return self._d()[k]

    def __setitem__(self, k, v):
        if not isinstance(v, str):
            raise TypeError("str expected, not %s" % type(v).__name__)
        self._d()[k] = v

    def __delitem__(self, k):
        del self._d()[k]

    def __iter__(self):
        return iter(self._d())

    def __len__(self):
        return len(self._d())

    def copy(self):
        return dict(self._d())

    def __or__(self, o):
        return {**self._d(), **o}

    def __ror__(self, o):
        return {**o, **self._d()}


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        t = current_task()
        r = t.proc.rng if t else random
        return "".join(r.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


def install():
    global _installed
    if _installed:
        return
    _installed = True
    V = _vfs
    _wrap1("stat", _stat)
    _wrap1("lstat", lambda s, p, path: V(s).stat(path, False))
    _wrap1("mkdir", lambda s, p, path, mode=0o777: V(s).mkdir(path, mode), True)
    _wrap1("rmdir", lambda s, p, path: V(s).rmdir(path), True)
    _wrap1("unlink", lambda s, p, path: V(s).unlink(path), True)
    _wrap1("remove", lambda s, p, path: V(s).unlink(path), True)
    _wrap1("listdir", lambda s, p, path=".": V(s).listdir(path))
    _wrap1("scandir", lambda s, p, path=".": _Scan(
        [SimDirEntry(s, os.fspath(path), n) for n in V(s).listdir(path)]))

    def _utime(s, p, path, times=None, *, ns=None, follow_symlinks=True):
        if isinstance(path, int):
            path = V(s).of(p, path).path
        return V(s).utime(path, times, ns)
    _wrap1("utime", _utime, True)

    def _chmod(s, p, path, mode, *, follow_symlinks=True):
        if isinstance(path, int):
            path = V(s).of(p, path).path
        return V(s).chmod(path, mode)
    _wrap1("chmod", _chmod, True)
    _wrap1("access", lambda s, p, path, mode, **k: V(s).access(path, mode))
    _wrap1("readlink", lambda s, p, path: V(s).readlink(path))
    _wrap1("truncate", lambda s, p, path, n: _trunc(s, p, path, n), True)
    _wrap2("rename", lambda s, p, a, b: V(s).rename(a, b))
    _wrap2("replace", lambda s, p, a, b: V(s).rename(a, b))
    _wrap2("link", lambda s, p, a, b: V(s).link(a, b))
    _wrap2("symlink", lambda s, p, a, b: V(s).symlink(a, b))

    def _trunc(s, p, path, n):
        if isinstance(path, int):
            return V(s).truncate(p, path, n)
        fd = V(s).open(p, path, os.O_WRONLY)
        try:
            V(s).truncate(p, fd, n)
        finally:
            V(s).close(p, fd)

    R["os.open"] = os.open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        c = _ctx()
        if c is None:
            return R["os.open"](path, flags, mode, dir_fd=dir_fd)
        if not _virt(path):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                _refuse("os.open", path)
            return R["os.open"](path, flags, mode, dir_fd=dir_fd)
        return V(c[0]).open(c[1], path, flags, mode)
    os.open = os_open

    def fdfn(name, impl):
        real = getattr(os, name)
        R["fd." + name] = real

        def f(fd, *a, **k):
            c = _ctx()
            if c is None or not isinstance(fd, int) or fd < FDMIN:
                return real(fd, *a, **k)
            return impl(c[0], c[1], fd, *a, **k)
        setattr(os, name, f)
    fdfn("close", lambda s, p, fd: V(s).close(p, fd))
    fdfn("read", lambda s, p, fd, n: V(s).read(p, fd, n))
    fdfn("write", lambda s, p, fd, d: V(s).write(p, fd, d))
    fdfn("fstat", lambda s, p, fd: V(s).mkstat(V(s).of(p, fd).inode))
    fdfn("lseek", lambda s, p, fd, o, w: V(s).lseek(p, fd, o, w))
    fdfn("ftruncate", lambda s, p, fd, n: V(s).truncate(p, fd, n))
    fdfn("fsync", lambda s, p, fd: V(s).op("fsync", V(s).of(p, fd).path))
    fdfn("fdatasync", lambda s, p, fd: V(s).op("fsync", V(s).of(p, fd).path))
    fdfn("fchmod", lambda s, p, fd, m: V(s).chmod(V(s).of(p, fd).path, m))
    fdfn("set_inheritable", lambda s, p, fd, v: None)
    fdfn("get_inheritable", lambda s, p, fd: False)
    fdfn("isatty", lambda s, p, fd: False)

    R["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open

    R["getpid"] = os.getpid
    os.getpid = lambda: (_ctx()[1].pid if _ctx() else R["getpid"]())
    R["kill"] = os.kill

    def kill(pid, sig):
        c = _ctx()
        if c is None:
            return R["kill"](pid, sig)
        c[0].step(f"kill {pid} {int(sig)}")
        for p in c[0].procs:
            if p.pid == pid and not p.dead:
                if sig:
                    p.attrs["sig"] = int(sig)
                    p.kill()
                return
        raise ProcessLookupError(errno.ESRCH, "No such process")
    os.kill = kill
    R["urandom"] = os.urandom

    def urandom(n):
        c = _ctx()
        return c[1].rng.randbytes(n) if c else R["urandom"](n)
    os.urandom = urandom
    random._urandom = urandom
    R["environ"] = os.environ
    os.environ = _EnvProxy()
    os.getenv = lambda k, d=None: os.environ.get(k, d)
    R["expanduser"] = os.path.expanduser

    def expanduser(p):
        c = _ctx()
        s = os.fspath(p)
        if c and isinstance(s, str) and (s == "~" or s.startswith("~/")):
            return c[1].env.get("HOME", ROOT + "/home") + s[1:]
        return R["expanduser"](p)
    os.path.expanduser = expanduser

    for n in ("flock", "lockf", "fcntl"):
        R["fcntl." + n] = getattr(fcntl, n)

    def _fd(f):
        return f if isinstance(f, int) else f.fileno()

    def flock(f, how):
        c = _ctx()
        fd = _fd(f)
        if c is None or fd < FDMIN:
            return R["fcntl.flock"](f, how)
        return V(c[0]).flock(c[1], fd, how)

    def lockf(f, how, *a):
        c = _ctx()
        fd = _fd(f)
        if c is None or fd < FDMIN:
            return R["fcntl.lockf"](f, how, *a)
        kind = "un" if how & fcntl.LOCK_UN else ("ex" if how & fcntl.LOCK_EX else "sh")
        return V(c[0]).plock(c[1], fd, kind, bool(how & fcntl.LOCK_NB))

    def fcntl_(f, cmd, arg=0):
        c = _ctx()
        fd = _fd(f)
        if c is None or fd < FDMIN:
            return R["fcntl.fcntl"](f, cmd, arg)
        raise HarnessError(f"fcntl command {cmd} is not simulated")
    fcntl.flock, fcntl.lockf, fcntl.fcntl = flock, lockf, fcntl_

    R["Popen"] = subprocess.Popen
    real_popen = subprocess.Popen

    class Popen(real_popen):
        def __new__(cls, *a, **k):
            if _ctx() is not None:
                return SimPopen(*a, **k)
            return super().__new__(cls)
    Popen.__name__ = "Popen"
    subprocess.Popen = Popen
    R["system"] = os.system

    def system(cmd):
        if _ctx() is None:
            return R["system"](cmd)
        rc = SimPopen(cmd, shell=True).wait()
        return rc << 8 if rc >= 0 else -rc
    os.system = system

    for n in ("fork", "execv", "execve", "posix_spawn", "posix_spawnp", "_exit", "chdir"):
        real = getattr(os, n)

        def guard(*a, _n=n, _real=real, **k):
            if _ctx() is not None:
                raise HarnessError(f"os.{_n} is not simulated")
            return _real(*a, **k)
        setattr(os, n, guard)

    def tm(name, conv):
        real = getattr(time, name)
        R["time." + name] = real

        def f():
            c = _ctx()
            return conv(c[0]) if c else real()
        setattr(time, name, f)
    tm("time", lambda s: s.wall())
    tm("time_ns", lambda s: int(s.wall() * 1e9))
    tm("monotonic", lambda s: s.now)
    tm("monotonic_ns", lambda s: int(s.now * 1e9))
    tm("perf_counter", lambda s: s.now)
    tm("perf_counter_ns", lambda s: int(s.now * 1e9))
    R["sleep"] = time.sleep

    def sleep(dt):
        c = _ctx()
        if c is None:
            return R["sleep"](dt)
        c[0].sleep(dt)
    time.sleep = sleep

    R["Lock"], R["RLock"] = threading.Lock, threading.RLock
    threading.Lock = sim_Lock
    threading.RLock = sim_RLock
    R["_allocate_lock"] = threading._allocate_lock
    threading._allocate_lock = sim_Lock
    R["start_new"] = threading._start_new_thread

    def start_new(fn, args, kw={}):
        if _ctx() is not None:
            raise HarnessError("thread creation by the code under test is not simulated")
        return R["start_new"](fn, args, kw)
    threading._start_new_thread = start_new
    R["get_ident"] = threading.get_ident

    tempfile._get_candidate_names_real = tempfile._get_candidate_names
    names = _Names()
    tempfile._get_candidate_names = lambda: names if _ctx() else tempfile._get_candidate_names_real()
    R["gettempdir"] = tempfile._gettempdir

    def gettempdir():
        c = _ctx()
        return c[1].env.get("TMPDIR", ROOT + "/tmp") if c else R["gettempdir"]()
    tempfile._gettempdir = gettempdir
    tempfile.gettempdir = gettempdir
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    shutil._fastcopy_sendfile = None

    R["CDLL"] = ctypes.CDLL

    def CDLL(name, *a, **k):
        c = _ctx()
        if c is None or name is None or not _virt(name):
            return R["CDLL"](name, *a, **k)
        return c[0].dlopen(c[1], os.fspath(name))
    ctypes.CDLL = CDLL
