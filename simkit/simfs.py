"""File-system seam: intercepts Python-level file access below a scratch directory.

Files are real files in the scratch directory, but every operation of a simulated process on them is
a scheduling point, is counted, logged (with paths relative to the scratch directory) and may be hit
by a fault: crash before/after, torn write (a prefix reaches the file, then the process dies), disk
full, I/O error, short write.  Data that is still in a user-space buffer when the process dies is
lost.  The crash model is a process crash: completed system calls survive.
"""

import builtins
import errno
import io
import os
import random as _random
import tempfile
import time

from simkit.kernel import Kernel, SimCrash

_real = {
    "open": io.open,
    "os.open": os.open,
    "os.close": os.close,
    "os.write": os.write,
    "os.replace": os.replace,
    "os.rename": os.rename,
    "os.remove": os.remove,
    "os.unlink": os.unlink,
    "os.mkdir": os.mkdir,
    "os.rmdir": os.rmdir,
    "os.stat": os.stat,
    "os.lstat": os.lstat,
    "os.listdir": os.listdir,
    "os.scandir": os.scandir,
    "os.truncate": os.truncate,
    "os.link": os.link,
    "os.symlink": os.symlink,
    "os.getpid": os.getpid,
    "os.access": os.access,
    "os.utime": os.utime,
    "os.chmod": os.chmod,
    "time.time": time.time,
    "time.sleep": time.sleep,
    "time.monotonic": time.monotonic,
    "time.perf_counter": time.perf_counter,
}
real = _real

_state = {"root": None, "bufsize": 8192}
_fds = {}  # file descriptors opened with os.open below the root


def set_root(path, bufsize=8192):
    _state["root"] = path
    _state["bufsize"] = bufsize
    _fds.clear()


def _rel(path):
    """Path relative to the scratch root, or None if the path is not below it."""
    root = _state["root"]
    if root is None or isinstance(path, int):
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith("/"):
        return None
    path = os.path.normpath(path)
    if path == root:
        return "."
    if path.startswith(root + "/"):
        return path[len(root) + 1 :]
    return None


def _proc():
    k = Kernel.current
    if k is None or k.cur is None:
        return None, None
    return k, k.cur


def _os_error(code, path):
    return OSError(code, os.strerror(code), str(path))


def _pick_fault(k, p, kind):
    """The fault (if any) planned for the next operation of this process."""
    lst = k.faults.get((p.name, kind))
    n = p.n_mut if kind == "mut" else p.n_read
    if lst:
        for f in lst:
            if f["k"] == n:
                return f
    return None


def _fire(k, p, f, op, rel):
    if "follow" in f:  # a further fault a few operations after this one
        g = dict(f["follow"])
        g["k"] = p.n_mut + g.pop("after")
        k.faults.setdefault((p.name, "mut"), []).append(g)
    k.fired.append({"proc": p.name, "kind": f["kind"], "op": op, "path": rel})
    k.count("fault:" + f["kind"])
    k.count("fault_op:" + op)
    k.event(f"FAULT {f['kind']} at {op} {rel} in {p.name}")


def _mutate(op, rel, path, effect, create=False, exists_err=None):
    """Run a mutating operation of the current process (effect: callable doing it for real)."""
    k, p = _proc()
    if k is None:
        return effect()
    if p.dead:
        raise SimCrash()
    k.yield_point(op)
    if p.dead:
        raise SimCrash()
    if p.readonly:
        k.event(f"denied {op} {rel} by {p.name}")
        if exists_err is not None:
            raise exists_err
        p.denied = getattr(p, "denied", 0) + 1
        k.count("denied_writes")
        raise _os_error(errno.EROFS, path)
    f = _pick_fault(k, p, "mut")
    p.n_mut += 1
    k.count("fs_mutations")
    if f:
        kind = f["kind"]
        if kind in ("crash_before", "crash_after", "torn"):
            _fire(k, p, f, op, rel)
            if kind == "crash_after" or (kind == "torn" and f.get("frac", 0.5) >= 0.5):
                effect()
                k.event(f"{p.name} {op} {rel}")
            p.dead = True
            raise SimCrash()
        if kind == "enospc" and create:
            _fire(k, p, f, op, rel)
            p.full_until = p.n_mut + f.get("len", 1) - 1
            raise _os_error(errno.ENOSPC, path)
        if kind == "eacces" and exists_err is None:
            _fire(k, p, f, op, rel)
            p.denied_until = p.n_mut + f.get("len", 1) - 1
            raise _os_error(errno.EACCES, path)
        if kind in ("eio", "enospc") and exists_err is None:
            _fire(k, p, f, op, rel)
            raise _os_error(errno.EIO if kind == "eio" else errno.ENOSPC, path)
    elif p.full_until >= p.n_mut and create:
        k.count("fault:enospc_cont")
        raise _os_error(errno.ENOSPC, path)
    elif p.denied_until >= p.n_mut and exists_err is None:
        k.count("fault:eacces_cont")
        raise _os_error(errno.EACCES, path)
    res = effect()
    k.event(f"{p.name} {op} {rel}")
    return res


def _read(op, rel, path, effect, may_fail=False):
    k, p = _proc()
    if k is None:
        return effect()
    if p.dead:
        raise SimCrash()
    k.yield_point(op)
    if p.dead:
        raise SimCrash()
    k.count("fs_reads")
    if may_fail:
        f = _pick_fault(k, p, "read")
        p.n_read += 1
        if f:
            _fire(k, p, f, op, rel)
            raise _os_error(errno.EIO, path)
    return effect()


class _RawFile(io.FileIO):
    """Unbuffered file of a simulated process."""

    def _setup(self, rel, proc):
        self._rel = rel
        self._p = proc

    def write(self, data):
        k = Kernel.current
        p = self._p
        if p is None or k is None:
            return super().write(data)
        if p.dead:
            return len(data)  # the process is dead: its buffers are gone
        if k.cur is not p:
            return super().write(data)  # late garbage collection after the process ended
        k.yield_point("write")
        if p.dead:
            raise SimCrash()
        data = bytes(data)
        f = _pick_fault(k, p, "mut")
        p.n_mut += 1
        k.count("fs_mutations")
        if f and f["kind"] == "eacces":  # an open file is not affected: the next operation on a path is
            k.faults[(p.name, "mut")].append({**f, "k": p.n_mut})
            f = None
        if f:
            kind = f["kind"]
            n = min(len(data), int(len(data) * f.get("frac", 0.5)))
            _fire(k, p, f, "write", self._rel)
            if kind == "crash_before":
                p.dead = True
                raise SimCrash()
            if kind == "crash_after":
                super().write(data)
                p.dead = True
                raise SimCrash()
            if kind == "torn":
                if n:
                    super().write(data[:n])
                k.count("torn_bytes", n)
                p.dead = True
                raise SimCrash()
            if kind in ("enospc", "eio"):
                if n:
                    super().write(data[:n])
                if kind == "enospc":
                    p.full_until = p.n_mut + f.get("len", 1) - 1
                raise _os_error(errno.ENOSPC if kind == "enospc" else errno.EIO, self._rel)
            if kind == "short" and len(data) > 1:
                data = data[: max(1, n)]
        elif p.full_until >= p.n_mut:
            k.count("fault:enospc_cont")
            raise _os_error(errno.ENOSPC, self._rel)
        n = super().write(data)
        k.event(f"{p.name} write {self._rel} {n}")
        return n

    def readinto(self, b):
        k = Kernel.current
        if self._p is not None and k is not None and k.cur is self._p and not self._p.dead:
            k.yield_point("read")
        return super().readinto(b)

    def readall(self):
        k = Kernel.current
        if self._p is not None and k is not None and k.cur is self._p and not self._p.dead:
            k.yield_point("read")
        return super().readall()

    def truncate(self, *a):
        p = self._p
        if p is None:
            return super().truncate(*a)
        return _mutate("truncate", self._rel, self._rel, lambda: super(_RawFile, self).truncate(*a))


def sim_open(
    file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None
):
    rel = _rel(file)
    k, p = _proc()
    fd_rel = _fds.get(file) if isinstance(file, int) else None
    if (rel is None and fd_rel is None) or p is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
    writing = any(c in raw_mode for c in "wax+")

    def effect():
        if opener is not None:
            return _RawFile(file, raw_mode, closefd=closefd, opener=opener)
        return _RawFile(file, raw_mode, closefd=closefd)

    name = rel if rel is not None else fd_rel
    if fd_rel is not None or opener is not None:
        raw = effect()  # the os.open inside is intercepted
    elif writing:
        # opening for writing creates or truncates
        raw = _mutate("open-" + raw_mode, rel, file, effect, create=True)
    else:
        raw = _read("open-r", rel, file, effect, may_fail=True)
    raw._setup(name, p)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bufsize = buffering if buffering > 1 else _state["bufsize"]
    if "+" in raw_mode:
        buf = io.BufferedRandom(raw, bufsize)
    elif writing:
        buf = io.BufferedWriter(raw, bufsize)
    else:
        buf = io.BufferedReader(raw, max(bufsize, 512))
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    text.mode = mode
    return text


def _two(op, fn):
    def wrapped(src, dst, **kw):
        r1, r2 = _rel(src), _rel(dst)
        if r1 is None and r2 is None:
            return fn(src, dst, **kw)
        return _mutate(op, f"{r1} -> {r2}", dst, lambda: fn(src, dst, **kw))

    return wrapped


def _one(op, fn, create=False):
    def wrapped(path, *a, **kw):
        rel = _rel(path)
        if rel is None:
            return fn(path, *a, **kw)
        exists_err = None
        if op == "mkdir":
            try:
                _real["os.lstat"](path)
                exists_err = FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), str(path))
            except OSError:
                pass
        elif op in ("remove", "rmdir"):
            try:
                _real["os.lstat"](path)
            except OSError:
                exists_err = FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(path))
        return _mutate(op, rel, path, lambda: fn(path, *a, **kw), create, exists_err)

    return wrapped


def _observe(op, fn):
    def wrapped(path=".", *a, **kw):
        rel = _rel(path)
        if rel is None:
            return fn(path, *a, **kw)
        return _read(op, rel, path, lambda: fn(path, *a, **kw))

    return wrapped


class _Scan:
    """Directory listing in a fixed order (real directory order is not deterministic)."""

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _dir_order(names):
    """Order of directory entries: any order is legal; decided by a hash that varies per run."""
    salt = _state.get("salt", "")
    import hashlib

    return sorted(names, key=lambda n: hashlib.md5((salt + str(n)).encode()).digest())


def _listdir(path="."):
    rel = _rel(path)
    if rel is None:
        return _real["os.listdir"](path)
    return _read("listdir", rel, path, lambda: _dir_order(_real["os.listdir"](path)))


def _scandir(path="."):
    rel = _rel(path)
    if rel is None:
        return _real["os.scandir"](path)

    def effect():
        with _real["os.scandir"](path) as it:
            entries = {e.name: e for e in it}
        return _Scan([entries[n] for n in _dir_order(entries)])

    return _read("scandir", rel, path, effect)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    rel = _rel(path)
    k, p = _proc()
    if rel is None or p is None:
        return _real["os.open"](path, flags, mode, dir_fd=dir_fd)
    effect = lambda: _real["os.open"](path, flags, mode)  # noqa
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        fd = _mutate("open-fd", rel, path, effect, create=True)
    else:
        fd = _read("open-fd-r", rel, path, effect, may_fail=True)
    _fds[fd] = rel
    return fd


def _os_close(fd):
    _fds.pop(fd, None)
    return _real["os.close"](fd)


def _os_write(fd, data):
    if fd not in _fds:
        return _real["os.write"](fd, data)
    rel = _fds[fd]
    k, p = _proc()
    if p is None:
        return _real["os.write"](fd, data)
    if p.dead:
        return len(data)
    f = _pick_fault(k, p, "mut")
    if f and f["kind"] in ("torn", "enospc", "eio", "short"):
        k.yield_point("write")
        p.n_mut += 1
        data = bytes(data)
        n = int(len(data) * f.get("frac", 0.5))
        _fire(k, p, f, "write", rel)
        if f["kind"] == "short":
            return _real["os.write"](fd, data[: max(1, n)])
        if n:
            _real["os.write"](fd, data[:n])
        if f["kind"] == "torn":
            p.dead = True
            raise SimCrash()
        raise _os_error(errno.ENOSPC if f["kind"] == "enospc" else errno.EIO, rel)
    return _mutate("write", rel, rel, lambda: _real["os.write"](fd, data), create=True)


def _getpid():
    k, p = _proc()
    return p.pid if p is not None else _real["os.getpid"]()


_T0 = 1700000000.0


def _time():
    k, p = _proc()
    return _T0 + k.now if p is not None else _real["time.time"]()


def _monotonic():
    k, p = _proc()
    return k.now if p is not None else _real["time.monotonic"]()


def _sleep(s):
    k, p = _proc()
    if p is None:
        return _real["time.sleep"](s)
    k.sleep(s)


class _Names:
    """Deterministic replacement for tempfile's random names."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return f"t{self.n:06d}"


def reset_names():
    tempfile._name_sequence = _Names()


def install():
    import numpy as np

    builtins.open = sim_open
    io.open = sim_open
    os.open = _os_open
    os.close = _os_close
    os.write = _os_write
    os.replace = _two("replace", _real["os.replace"])
    os.rename = _two("rename", _real["os.rename"])
    os.link = _two("link", _real["os.link"])
    os.symlink = _two("symlink", _real["os.symlink"])
    os.remove = _one("remove", _real["os.remove"])
    os.unlink = _one("remove", _real["os.unlink"])
    os.rmdir = _one("rmdir", _real["os.rmdir"])
    os.mkdir = _one("mkdir", _real["os.mkdir"], create=True)
    os.truncate = _one("truncate", _real["os.truncate"])
    os.utime = _one("utime", _real["os.utime"])
    os.chmod = _one("chmod", _real["os.chmod"])
    os.stat = _observe("stat", _real["os.stat"])
    os.lstat = _observe("stat", _real["os.lstat"])
    os.access = _observe("access", _real["os.access"])
    os.listdir = _listdir
    os.scandir = _scandir
    os.getpid = _getpid
    time.time = _time
    time.monotonic = _monotonic
    time.perf_counter = _monotonic_pc
    time.sleep = _sleep
    openers = np.lib._datasource._file_openers
    openers._load()
    openers._file_openers[None] = sim_open


def _monotonic_pc():
    k, p = _proc()
    return k.now if p is not None else _real["time.perf_counter"]()
