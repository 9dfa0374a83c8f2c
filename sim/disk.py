"""SimDisk: an in-memory disk for every path below /simdisk/.

Files opened through builtins.open / io.open / os.open / os.fdopen / tempfile /
pathlib are served from memory.  Every call that reaches the disk is a numbered
step at which the simulator can inject an error, a short write, or the death of
the process.  Two views of the contents exist:

  * the page-cache view (what a reader sees now; survives a process crash),
  * what a power loss leaves: the metadata operations (create, truncate, rename,
    unlink) persist up to an arbitrary point of their order, and of the bytes
    written since the last fsync of a file an arbitrary prefix survives.
"""
import builtins
import errno
import io
import os
import stat as _stat
import sys

from . import env

ROOT = "/simdisk"
disk = None           # the active SimDisk, or None
_REAL = {}
FD0 = 1 << 20


def _oserr(no, path=None):
    return OSError(no, os.strerror(no), path)


class Inode(object):
    __slots__ = ("data", "durable", "num", "mode", "mtime")
    counter = 0

    def __init__(self, mode=0o644):
        Inode.counter += 1
        self.data = bytearray()
        self.durable = b""          # contents as of the last fsync
        self.num = Inode.counter
        self.mode = mode
        self.mtime = 0


class SimDisk(object):
    def __init__(self, rng=None):
        self.dirs = {ROOT, ROOT + "/d"}
        self.files = {}             # path -> Inode
        self.links = {}             # symlinks
        self.log = []               # metadata operations, in order
        self.base = {}              # path -> bytes, durable at the start
        self.fds = {}
        self.next_fd = FD0
        self.steps = 0
        self.dead = False
        self.plan = None            # {"n": step, "kind": ...}
        self.fired = None
        self.rng = rng
        self.trace = []
        self.hold = None

    # -- steps -------------------------------------------------------------
    def step(self, kind, path="", size=0):
        """One call reaching the disk.  Returns the injected fault kind."""
        if self.dead:
            raise env.SimCrash("sim: dead process touched the disk")
        self.steps += 1
        self.trace.append(kind)
        run = env.current
        if run is not None:
            run.seam("disk." + kind)
            t = run.task_here()
            if t is not None and run.preempt and t.in_op:
                run.disk_point(t)
        p = self.plan
        if p is None or p["n"] != self.steps:
            return None
        self.fired = dict(p, call=kind)
        if run is not None:
            key = "disk.%s:%s" % (kind, p["kind"])
            run.fault_counts[key] = run.fault_counts.get(key, 0) + 1
        if p["kind"] == "crash":
            self.dead = True
            raise env.SimCrash("sim: process died at disk step %d" % self.steps)
        if p["kind"] in ("ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EINTR",
                         "EMFILE"):
            if kind == "write" and p.get("part") is not None:
                return ("short", p)
            raise _oserr(getattr(errno, p["kind"]), path)
        if p["kind"] == "short":
            return ("short", p) if kind == "write" else None
        if p["kind"] == "KeyboardInterrupt":
            raise KeyboardInterrupt("sim: interrupt at disk step")
        return None

    # -- namespace -----------------------------------------------------------
    def norm(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        p = os.path.normpath(path)
        seen = 0
        while p in self.links and seen < 8:
            t = self.links[p]
            p = os.path.normpath(os.path.join(os.path.dirname(p), t))
            seen += 1
        return p

    def meta(self, *rec):
        self.log.append(rec)

    def lookup(self, path):
        f = self.files.get(path)
        if f is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return f

    def open_inode(self, path, flags, mode=0o666):
        p = self.norm(path)
        if p in self.dirs:
            if flags & (os.O_WRONLY | os.O_RDWR):
                raise IsADirectoryError(errno.EISDIR, "is a directory", p)
            return p, None
        self.step("open", p)
        if os.path.dirname(p) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        f = self.files.get(p)
        if f is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            f = self.files[p] = Inode(mode & ~0o022)
            self.meta("create", p, f)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
            if flags & os.O_TRUNC and (flags & (os.O_WRONLY | os.O_RDWR)):
                del f.data[:]
                self.meta("trunc", f)
        return p, f

    def new_fd(self, path, inode, flags):
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = [path, inode,
                        len(inode.data) if inode and flags & os.O_APPEND else 0,
                        flags]
        return fd

    def write(self, fd, b):
        ent = self._fd(fd)
        path, ino, pos, flags = ent
        b = bytes(b)
        r = self.step("write", path, len(b))
        n = len(b)
        if r is not None:
            n = int(len(b) * r[1].get("part", 0.5))
            if r[1]["kind"] == "short":
                n = max(1, min(n, len(b)))
        if flags & os.O_APPEND:
            pos = len(ino.data)
        if pos > len(ino.data):
            ino.data.extend(b"\0" * (pos - len(ino.data)))
        ino.data[pos:pos + n] = b[:n]
        ent[2] = pos + n
        if r is not None and r[1]["kind"] != "short":
            raise _oserr(getattr(errno, r[1]["kind"]), path)
        return n

    def read(self, fd, n):
        ent = self._fd(fd)
        self.step("read", ent[0])
        d = bytes(ent[1].data[ent[2]:] if n is None or n < 0
                  else ent[1].data[ent[2]:ent[2] + n])
        ent[2] += len(d)
        return d

    def fsync(self, fd):
        ent = self._fd(fd)
        self.step("fsync", ent[0])
        if ent[1] is not None:
            ent[1].durable = bytes(ent[1].data)

    def close(self, fd):
        if fd not in self.fds:
            raise _oserr(errno.EBADF)
        path = self.fds[fd][0]
        try:
            self.step("close", path)
        finally:
            self.fds.pop(fd, None)

    def _fd(self, fd):
        if fd not in self.fds:
            raise _oserr(errno.EBADF)
        return self.fds[fd]

    def replace(self, a, b):
        a, b = self.norm(a), os.path.normpath(os.fspath(b))
        self.step("rename", b)
        f = self.lookup(a)
        if os.path.dirname(b) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), b)
        self.links.pop(b, None)
        del self.files[a]
        self.files[b] = f
        self.meta("rename", a, b, f)

    def unlink(self, a):
        a = os.path.normpath(os.fspath(a))
        self.step("unlink", a)
        if a in self.links:
            del self.links[a]
            return
        self.lookup(a)
        del self.files[a]
        self.meta("unlink", a)

    def stat(self, path, follow=True):
        p = self.norm(path) if follow else os.path.normpath(os.fspath(path))
        if not follow and p in self.links:
            return self._st(_stat.S_IFLNK | 0o777, 0, 0)
        if p in self.dirs:
            return self._st(_stat.S_IFDIR | 0o755, 0, 1)
        f = self.lookup(p)
        return self._st(_stat.S_IFREG | f.mode, len(f.data), f.num)

    @staticmethod
    def _st(mode, size, ino):
        return os.stat_result((mode, ino, 1, 1, 0, 0, size, 0, 0, 0))

    def put(self, path, data):
        """A file that was there before."""
        f = self.files[path] = Inode()
        f.data[:] = data
        f.durable = bytes(data)

    # -- outcomes -----------------------------------------------------------
    def seal(self):
        """Everything present now is durable (the state before the run)."""
        for f in self.files.values():
            f.durable = bytes(f.data)
        self.base = {p: bytes(f.data) for p, f in self.files.items()}
        self.base_inodes = dict(self.files)
        self.log = []

    def now(self, path):
        f = self.files.get(self.norm(path))
        return None if f is None else bytes(f.data)

    def after_power_loss(self, path, rng):
        """One possible content of `path` after the power fails now."""
        names = dict(self.base_inodes)
        cut = rng.randint(0, len(self.log))
        content = {}
        for f in set(list(names.values()) + [x[2] for x in self.log
                                             if x[0] == "create"]):
            content[f.num] = f.durable
        truncated = set()
        for rec in self.log[:cut]:
            if rec[0] == "create":
                names[rec[1]] = rec[2]
            elif rec[0] == "rename":
                names.pop(rec[1], None)
                names[rec[2]] = rec[3]
            elif rec[0] == "unlink":
                names.pop(rec[1], None)
            elif rec[0] == "trunc":
                truncated.add(rec[1].num)
        f = names.get(self.norm(path))
        if f is None:
            return None
        data, dur = bytes(f.data), f.durable
        if data == dur:
            return data
        if f.num in truncated and not data.startswith(dur):
            # un-synced contents: any prefix of what was written may be there
            return data[:rng.randint(0, len(data))]
        if data.startswith(dur):
            return data[:rng.randint(len(dur), len(data))]
        k = rng.randint(0, len(data))
        return rng.choice([dur, data[:k], data[:k] + dur[k:]])


class SimRaw(io.RawIOBase):
    def __init__(self, d, fd, name, r, w):
        self.d, self.fd, self._r, self._w = d, fd, r, w
        self.name = name
        self.mode = "rb+" if r and w else "wb" if w else "rb"

    def fileno(self):
        return self.fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def write(self, b):
        return self.d.write(self.fd, b)

    def readinto(self, b):
        data = self.d.read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def seek(self, off, whence=0):
        ent = self.d._fd(self.fd)
        base = {0: 0, 1: ent[2], 2: len(ent[1].data)}[whence]
        ent[2] = base + off
        return ent[2]

    def tell(self):
        return self.d._fd(self.fd)[2]

    def truncate(self, size=None):
        ent = self.d._fd(self.fd)
        self.d.step("truncate", ent[0])
        size = ent[2] if size is None else size
        del ent[1].data[size:]
        self.d.meta("trunc", ent[1])
        return size

    def close(self):
        if not self.closed:
            try:
                if self.fd in self.d.fds and not self.d.dead:
                    self.d.close(self.fd)
            finally:
                super(SimRaw, self).close()


def _ours(path):
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = p.decode("utf-8", "replace")
    return isinstance(p, str) and (p == ROOT or p.startswith(ROOT + "/"))


_FLAGS = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
          "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
          "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}


def _wrap(d, fd, name, mode, buffering, encoding, errors, newline):
    upd = "+" in mode
    r = "r" in mode or upd
    w = any(c in mode for c in "wax") or upd
    raw = SimRaw(d, fd, name, r, w)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else d.bufsize if hasattr(d, "bufsize") \
        else 8192
    if r and w:
        buf = io.BufferedRandom(raw, size)
    elif w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if isinstance(file, int) and file >= FD0 and disk is not None:
        return _wrap(disk, file, file, mode, buffering, encoding, errors, newline)
    if disk is not None and _ours(file):
        base = [c for c in mode if c in "rwax"][0]
        flags = _FLAGS[base]
        if "+" in mode:
            flags = (flags & ~os.O_WRONLY) | os.O_RDWR
        if opener is not None:
            fd = opener(file, flags)
        else:
            p, ino = disk.open_inode(file, flags)
            if ino is None:
                raise IsADirectoryError(errno.EISDIR, "is a directory", p)
            fd = disk.new_fd(p, ino, flags)
        return _wrap(disk, fd, file, mode, buffering, encoding, errors, newline)
    return _REAL["open"](file, mode, buffering, encoding, errors, newline,
                         closefd, opener)


def _os1(name, impl):
    real = _REAL[name] = getattr(os, name)

    def f(path, *a, **k):
        if disk is not None and (
                _ours(path) or (isinstance(path, int)
                                and not isinstance(path, bool) and path >= FD0)):
            return impl(disk, path, *a, **k)
        return real(path, *a, **k)
    f.__name__ = name
    setattr(os, name, f)


def install():
    _REAL["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open

    def d_open(d, path, flags, mode=0o777, **k):
        p, ino = d.open_inode(path, flags, mode)
        return d.new_fd(p, ino, flags)

    def d_stat(d, path, **k):
        if isinstance(path, int):
            ent = d._fd(path)
            if ent[1] is None:
                return d._st(_stat.S_IFDIR | 0o755, 0, 1)
            return d._st(_stat.S_IFREG | ent[1].mode, len(ent[1].data),
                         ent[1].num)
        return d.stat(path, follow=k.get("follow_symlinks", True))

    def d_readlink(d, p, **k):
        p = os.path.normpath(os.fspath(p))
        if p in d.links:
            return d.links[p]
        raise _oserr(errno.EINVAL, p)

    def d_mkdir(d, p, *a, **k):
        p = os.path.normpath(os.fspath(p))
        if p in d.dirs:
            raise FileExistsError(errno.EEXIST, "exists", p)
        d.step("mkdir", p)
        d.dirs.add(p)

    def d_rmdir(d, p, *a, **k):
        d.step("rmdir", p)
        d.dirs.discard(os.path.normpath(os.fspath(p)))

    def d_truncate(d, p, n):
        ino = d._fd(p)[1] if isinstance(p, int) else d.lookup(d.norm(p))
        d.step("truncate")
        del ino.data[n:]
        d.meta("trunc", ino)

    def d_chmod(d, p, mode, **k):
        ino = d._fd(p)[1] if isinstance(p, int) else d.files.get(d.norm(p))
        if ino is not None:
            ino.mode = mode & 0o7777

    def d_listdir(d, p="."):
        p = d.norm(p)
        if p not in d.dirs:
            raise FileNotFoundError(errno.ENOENT, "no such dir", p)
        pre = p + "/"
        return sorted({x[len(pre):] for x in list(d.files) + list(d.links)
                       + list(d.dirs)
                       if x.startswith(pre) and "/" not in x[len(pre):]})

    table = {
        "open": d_open,
        "stat": d_stat,
        "lstat": lambda d, p, **k: d.stat(p, follow=False),
        "fstat": d_stat,
        "close": lambda d, fd: d.close(fd),
        "write": lambda d, fd, b: d.write(fd, b),
        "read": lambda d, fd, n: d.read(fd, n),
        "fsync": lambda d, fd: d.fsync(fd),
        "fdatasync": lambda d, fd: d.fsync(fd),
        "replace": lambda d, a, b, **k: d.replace(a, b),
        "rename": lambda d, a, b, **k: d.replace(a, b),
        "unlink": lambda d, p, **k: d.unlink(p),
        "remove": lambda d, p, **k: d.unlink(p),
        "readlink": d_readlink,
        "mkdir": d_mkdir,
        "rmdir": d_rmdir,
        "truncate": d_truncate,
        "ftruncate": d_truncate,
        "chmod": d_chmod,
        "fchmod": d_chmod,
        "chown": lambda d, *a, **k: None,
        "utime": lambda d, *a, **k: None,
        "access": lambda d, p, m, **k: d.norm(p) in d.files or d.norm(p) in d.dirs,
        "listdir": d_listdir,
        "isatty": lambda d, fd: False,
        "lseek": lambda d, fd, o, w: None,
    }
    for name, impl in table.items():
        if name == "open":
            continue
        if hasattr(os, name):
            _os1(name, impl)
    real_os_open = _REAL["os_open"] = os.open

    def os_open(path, flags, mode=0o777, **k):
        if disk is not None and _ours(path):
            return d_open(disk, path, flags, mode)
        return real_os_open(path, flags, mode, **k)
    os.open = os_open
    # modules that captured the originals at import time
    import pathlib
    acc = getattr(pathlib, "_NormalAccessor", None)
    if acc is not None:
        for n in ("stat", "lstat", "open", "unlink", "rename", "replace",
                  "mkdir", "rmdir", "chmod", "listdir", "readlink"):
            if hasattr(acc, n) and hasattr(os, n):
                setattr(acc, n, staticmethod(getattr(os, n)))
    import tempfile

    class Names(object):
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            return "t%06d" % self.n
    tempfile._name_sequence = Names()
