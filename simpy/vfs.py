"""In-memory POSIX file system used by simulated processes.

Semantics modelled: inodes survive unlink while open; rename is atomic;
O_EXCL; advisory flock per open description and POSIX record locks per
process (both dropped on close / process death); mtimes come from the
simulated wall clock; several devices (rename across them gives EXDEV).
Every call is a yield point and a possible fault site of the simulator.
"""

from __future__ import annotations

import errno
import os
import posixpath
import stat as S

from . import core  # noqa

ROOT = "/simfs"


def err(code, path=None):
    if path is None:
        return OSError(code, os.strerror(code))
    return OSError(code, os.strerror(code), path)


class Inode:
    __slots__ = ("ino", "dir", "data", "mtime", "ctime", "mode", "nlink", "dev",
                 "children", "link", "flocks", "plocks", "tag")

    def __init__(self, ino, is_dir, dev, now):
        self.ino, self.dir, self.dev = ino, is_dir, dev
        self.data = bytearray()
        self.mtime = self.ctime = now
        self.mode = 0o755 if is_dir else 0o644
        self.nlink = 1
        self.children = {} if is_dir else None
        self.link = None
        self.flocks = []      # [(OpenFile, exclusive)]
        self.plocks = []      # [(Proc, exclusive)]
        self.tag = None


class OpenFile:
    __slots__ = ("inode", "flags", "pos", "path", "refs")

    def __init__(self, inode, flags, path):
        self.inode, self.flags, self.pos, self.path = inode, flags, 0, path
        self.refs = 1


class VFS:
    def __init__(self, sim, fault_p=None):
        self.sim = sim
        self.next_ino = 1000
        self.root = self._mk(True, 1)
        self.fault_p = fault_p or {}     # {op name or '*': [(errno, prob)]}
        self.fault_ok = None             # callable(op, path) -> bool
        self.on_fault = None             # callable(op, path, errno)
        self.dev_of = []                 # [(prefix, dev)]
        self.watch = []                  # callbacks(op, path)
        self.full = False                # disk full: writes give ENOSPC

    # ------------------------------------------------------------- helpers
    def _mk(self, is_dir, dev):
        self.next_ino += 1
        return Inode(self.next_ino, is_dir, dev, self._now())

    def _now(self):
        return int(self.sim.wall() * 1e9)

    def dev(self, path):
        for pre, d in self.dev_of:
            if path == pre or path.startswith(pre + "/"):
                return d
        return 1

    @staticmethod
    def norm(path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        return posixpath.normpath(path)

    def lookup(self, path, follow=True, depth=0):
        path = self.norm(path)
        if path == ROOT:
            return self.root
        if depth > 20:
            raise err(errno.ELOOP, path)
        node = self.root
        parts = path[len(ROOT) + 1:].split("/")
        for i, p in enumerate(parts):
            if node.children is None:
                raise err(errno.ENOTDIR, path)
            if p not in node.children:
                raise err(errno.ENOENT, path)
            node = node.children[p]
            if node.link is not None and (follow or i < len(parts) - 1):
                target = node.link
                if not target.startswith("/"):
                    target = posixpath.join(ROOT, *parts[:i], target)
                return self.lookup(posixpath.join(target, *parts[i + 1:]), follow, depth + 1)
        return node

    def parent(self, path):
        path = self.norm(path)
        d, base = posixpath.split(path)
        node = self.lookup(d)
        if node.children is None:
            raise err(errno.ENOTDIR, path)
        return node, base

    def peek(self, path):
        """Inode or None, without a yield point."""
        try:
            return self.lookup(path)
        except OSError:
            return None

    def op(self, name, path, arg=""):
        """Yield point + fault site. Returns an errno to raise, or None."""
        p = path if isinstance(path, str) else str(path)
        self.sim.step(f"{name} {p}{arg}")
        for e, prob in self.fault_p.get(name, ()):
            if self.fault_ok is not None and not self.fault_ok(name, p):
                continue
            if self.sim.fault(f"{name}:{errno.errorcode[e]}", prob):
                if self.on_fault is not None:
                    self.on_fault(name, p, e)
                raise err(e, p)
        for w in self.watch:
            w(name, p)

    # ------------------------------------------- direct (no yield) set-up API
    def put(self, path, data, mtime=None):
        node, base = self.parent(path)
        f = self._mk(False, self.dev(self.norm(path)))
        f.data[:] = data if isinstance(data, (bytes, bytearray)) else data.encode()
        if mtime is not None:
            f.mtime = int(mtime * 1e9)
        node.children[base] = f
        node.mtime = self._now()
        return f

    def mkdirs(self, path):
        path = self.norm(path)
        node, cur = self.root, ROOT
        for p in path[len(ROOT) + 1:].split("/"):
            cur += "/" + p
            if p not in node.children:
                node.children[p] = self._mk(True, self.dev(cur))
            node = node.children[p]
        return node

    def wipe(self, path):
        """Remove a whole tree at once (used by set-up / adversary)."""
        node, base = self.parent(path)
        node.children.pop(base, None)

    def tree(self, node=None, pre=ROOT):
        node = node or self.root
        out = []
        for k in sorted(node.children):
            c = node.children[k]
            out.append((f"{pre}/{k}", c))
            if c.children is not None:
                out += self.tree(c, f"{pre}/{k}")
        return out

    # ------------------------------------------------------------- syscalls
    def stat(self, path, follow=True):
        self.op("stat", self.norm(path))
        return self.mkstat(self.lookup(path, follow))

    @staticmethod
    def mkstat(n):
        if n.link is not None:
            mode = S.S_IFLNK | 0o777
        else:
            mode = (S.S_IFDIR if n.dir else S.S_IFREG) | n.mode
        m, c = n.mtime, n.ctime
        return os.stat_result(
            (mode, n.ino, n.dev, n.nlink, 0, 0, len(n.data), m // 10**9, m // 10**9, c // 10**9),
            {"st_atime": m / 1e9, "st_mtime": m / 1e9, "st_ctime": c / 1e9,
             "st_atime_ns": m, "st_mtime_ns": m, "st_ctime_ns": c,
             "st_blksize": 4096, "st_blocks": (len(n.data) + 511) // 512, "st_rdev": 0})

    def open(self, proc, path, flags, mode=0o777):
        path = self.norm(path)
        self.op("open", path, f" {flags:#o}")
        try:
            n = self.lookup(path)
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
        except FileNotFoundError:
            if not flags & os.O_CREAT:
                raise
            d, base = self.parent(path)
            n = self._mk(False, self.dev(path))
            n.mode = mode & 0o755
            d.children[base] = n
            d.mtime = self._now()
        acc = flags & (os.O_RDWR | os.O_WRONLY)
        if n.dir and (acc or flags & os.O_CREAT):
            raise err(errno.EISDIR, path)
        if flags & os.O_DIRECTORY and not n.dir:
            raise err(errno.ENOTDIR, path)
        if flags & os.O_TRUNC and acc:
            n.data[:] = b""
            n.mtime = self._now()
        fd = proc.next_fd
        proc.next_fd += 1
        proc.fds[fd] = OpenFile(n, flags, path)
        return fd

    def of(self, proc, fd):
        try:
            return proc.fds[fd]
        except KeyError:
            raise err(errno.EBADF) from None

    def close(self, proc, fd, quiet=False):
        of = self.of(proc, fd)
        if not quiet:
            self.op("close", of.path)
            if fd not in proc.fds:
                raise err(errno.EBADF)
        del proc.fds[fd]
        of.refs -= 1
        if of.refs == 0:
            of.inode.flocks = [x for x in of.inode.flocks if x[0] is not of]
        of.inode.plocks = [x for x in of.inode.plocks if x[0] is not proc]

    def close_all(self, proc):
        for fd in list(proc.fds):
            self.close(proc, fd, quiet=True)

    def read(self, proc, fd, n):
        of = self.of(proc, fd)
        self.op("read", of.path)
        if of.inode.dir:
            raise err(errno.EISDIR, of.path)
        d = bytes(of.inode.data[of.pos:of.pos + n])
        of.pos += len(d)
        return d

    def write(self, proc, fd, data):
        of = self.of(proc, fd)
        self.op("write", of.path, f" n={len(data)}")
        if not of.flags & (os.O_WRONLY | os.O_RDWR):
            raise err(errno.EBADF, of.path)
        if self.full:
            if self.on_fault is not None:
                self.on_fault("write", of.path, errno.ENOSPC)
            raise err(errno.ENOSPC, of.path)
        data = bytes(data)
        n = len(data)
        if n > 1 and self.sim.fault("write:short", self.fault_p.get("short", 0)):
            n = 1 + self.sim.pick("short", n - 1)
            data = data[:n]
        f = of.inode
        if of.flags & os.O_APPEND:
            of.pos = len(f.data)
        if of.pos > len(f.data):
            f.data.extend(b"\0" * (of.pos - len(f.data)))
        f.data[of.pos:of.pos + n] = data
        of.pos += n
        f.mtime = self._now()
        return n

    def lseek(self, proc, fd, off, whence=0):
        of = self.of(proc, fd)
        base = {0: 0, 1: of.pos, 2: len(of.inode.data)}[whence]
        of.pos = base + off
        return of.pos

    def truncate(self, proc, fd, size):
        of = self.of(proc, fd)
        self.op("ftruncate", of.path)
        f = of.inode
        if size <= len(f.data):
            del f.data[size:]
        else:
            f.data.extend(b"\0" * (size - len(f.data)))
        f.mtime = self._now()

    def mkdir(self, path, mode=0o777):
        path = self.norm(path)
        self.op("mkdir", path)
        d, base = self.parent(path)
        if base in d.children:
            raise err(errno.EEXIST, path)
        d.children[base] = self._mk(True, self.dev(path))
        d.mtime = self._now()

    def rmdir(self, path):
        path = self.norm(path)
        self.op("rmdir", path)
        d, base = self.parent(path)
        if base not in d.children:
            raise err(errno.ENOENT, path)
        n = d.children[base]
        if not n.dir:
            raise err(errno.ENOTDIR, path)
        if n.children:
            raise err(errno.ENOTEMPTY, path)
        del d.children[base]
        d.mtime = self._now()

    def unlink(self, path):
        path = self.norm(path)
        self.op("unlink", path)
        d, base = self.parent(path)
        if base not in d.children:
            raise err(errno.ENOENT, path)
        n = d.children[base]
        if n.dir:
            raise err(errno.EISDIR, path)
        del d.children[base]
        n.nlink -= 1
        d.mtime = self._now()

    def rename(self, src, dst):
        src, dst = self.norm(src), self.norm(dst)
        self.op("rename", src, f" -> {dst}")
        sd, sb = self.parent(src)
        if sb not in sd.children:
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), src, None, dst)
        dd, db = self.parent(dst)
        n = sd.children[sb]
        if self.dev(src) != self.dev(dst):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src, None, dst)
        old = dd.children.get(db)
        if old is n:
            return
        if old is not None:
            if old.dir and not n.dir:
                raise err(errno.EISDIR, dst)
            if n.dir and not old.dir:
                raise err(errno.ENOTDIR, dst)
            if old.dir and old.children:
                raise err(errno.ENOTEMPTY, dst)
            old.nlink -= 1
        del sd.children[sb]
        dd.children[db] = n
        n.ctime = sd.mtime = dd.mtime = self._now()

    def link(self, src, dst):
        src, dst = self.norm(src), self.norm(dst)
        self.op("link", src, f" -> {dst}")
        n = self.lookup(src)
        d, base = self.parent(dst)
        if base in d.children:
            raise err(errno.EEXIST, dst)
        if self.dev(src) != self.dev(dst):
            raise err(errno.EXDEV, dst)
        d.children[base] = n
        n.nlink += 1

    def symlink(self, target, path):
        path = self.norm(path)
        self.op("symlink", path)
        d, base = self.parent(path)
        if base in d.children:
            raise err(errno.EEXIST, path)
        n = self._mk(False, self.dev(path))
        n.link = os.fspath(target)
        d.children[base] = n

    def readlink(self, path):
        n = self.lookup(path, follow=False)
        if n.link is None:
            raise err(errno.EINVAL, path)
        return n.link

    def listdir(self, path):
        path = self.norm(path)
        self.op("listdir", path)
        n = self.lookup(path)
        if not n.dir:
            raise err(errno.ENOTDIR, path)
        return sorted(n.children)

    def utime(self, path, times=None, ns=None):
        path = self.norm(path)
        self.op("utime", path)
        n = self.lookup(path)
        if ns is not None:
            n.mtime = int(ns[1])
        elif times is not None:
            n.mtime = int(times[1] * 1e9)
        else:
            n.mtime = self._now()
        n.ctime = self._now()

    def chmod(self, path, mode):
        path = self.norm(path)
        self.op("chmod", path)
        n = self.lookup(path)
        n.mode = mode & 0o7777
        n.ctime = self._now()

    def access(self, path, mode):
        self.op("access", self.norm(path))
        try:
            n = self.lookup(path)
        except OSError:
            return False
        return not (mode & os.X_OK and not n.dir and not n.mode & 0o111)

    # ---------------------------------------------------------------- locks
    def flock(self, proc, fd, how):
        import fcntl
        of = self.of(proc, fd)
        ino = of.inode
        name = "unlock" if how & fcntl.LOCK_UN else "flock"
        self.op(name, of.path, " ex" if how & fcntl.LOCK_EX else "")
        if how & fcntl.LOCK_UN:
            ino.flocks = [x for x in ino.flocks if x[0] is not of]
            return
        ex = bool(how & fcntl.LOCK_EX)

        def free():
            return all(o is of or not (ex or e) for o, e in ino.flocks)
        if not free():
            self.sim.probe("flock-contended")
            if how & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EWOULDBLOCK, "Resource temporarily unavailable")
            ino.flocks = [x for x in ino.flocks if x[0] is not of]
            self.sim.wait(free, f"flock-wait {of.path}")
        ino.flocks = [x for x in ino.flocks if x[0] is not of] + [(of, ex)]

    def plock(self, proc, fd, how, nonblock):
        """POSIX record lock on the whole file; how in 'ex','sh','un'."""
        of = self.of(proc, fd)
        ino = of.inode
        self.op("plock", of.path, " " + how)
        if how == "un":
            ino.plocks = [x for x in ino.plocks if x[0] is not proc]
            return
        ex = how == "ex"

        def free():
            return all(p is proc or not (ex or e) for p, e in ino.plocks)
        if not free():
            self.sim.probe("flock-contended")
            if nonblock:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            self.sim.wait(free, f"plock-wait {of.path}")
        ino.plocks = [x for x in ino.plocks if x[0] is not proc] + [(proc, ex)]
