"""Simulated file system surface: scratch directory, guard, and fault points.

The operations are the real ones, on a scratch directory.  Containment does not
rely on the code under test: the run process gives up root before library code
touches the file system, and an audit hook refuses every mutation outside the
scratch directory (recording it).

Fault points: every file-system call the library makes (seen by the audit hook)
has a sequence number inside the operation.  A plan's `fs` entry says what
happens at the n-th one: an OSError, or the death of the process.  Writing bytes
has its own fault points (short write, disk full, lost tail).
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import pwd
import shutil
import sys
import tempfile

from . import kernel

SCRATCH_ENV = "VSIM_SCRATCH"

MUTATING = {
    "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate",
    "os.chmod", "os.chown", "os.utime", "os.chflags", "os.lockf", "os.setxattr", "os.removexattr",
}
OBSERVED = {"os.listdir", "os.scandir"}

ERRNO = {n: getattr(errno, n) for n in ("ENOSPC", "EIO", "EACCES", "EMFILE", "EROFS", "EDQUOT", "EPERM")}


class Guard:
    def __init__(self):
        self.root = None
        self.active = False  # inside a library operation
        self.count = 0
        self.log = []  # (kind, path) of mutating operations in the current op
        self.fault = None
        self.escapes = []
        self.dead = False
        self.written = 0
        self.fired = None
        self.crash_exit = None
        self.depth = 0


G = Guard()
_installed = False


def _paths(event, args):
    out = []
    if event == "open":
        out.append(args[0])
    elif event in ("os.rename", "os.link", "os.symlink"):
        out.append(args[1])
        if event == "os.rename":
            out.append(args[0])
    else:
        out.append(args[0])
    return out


def _is_write(event, args):
    if event != "open":
        return event in MUTATING
    mode, flags = args[1], args[2]
    if isinstance(mode, str):
        return any(c in mode for c in "wax+")
    return bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))


def _inside(p):
    if isinstance(p, int):
        return True
    try:
        p = os.fsdecode(p)
    except TypeError:
        return True
    full = os.path.realpath(os.path.dirname(os.path.abspath(p)) or "/")
    full = os.path.join(full, os.path.basename(p))
    return full == G.root or full.startswith(G.root + os.sep)


def _hook(event, args):
    if G.root is None or not G.active:
        return
    if event not in MUTATING and event != "open" and event not in OBSERVED:
        return
    G.active = False
    try:
        write = _is_write(event, args)
        for p in _paths(event, args):
            if write and not (event != "open" and len(args) > 1 and _relative_fd(event, args)) and not _inside(p):
                if p == os.devnull:
                    continue
                G.escapes.append((event, str(p)))
                raise PermissionError(errno.EPERM, "outside the scratch directory", str(p))
        # the fault points are calls about files under the scratch directory
        inside = write or (event in OBSERVED) or (event == "open" and _inside(args[0]))
        if not inside or (event == "open" and isinstance(args[0], int)):
            return
        G.count += 1
        G.log.append((event, _rel(args[0]), write))
        f = G.fault
        if f and f.get("at") == G.count and f["kind"] in ("errno", "crash"):
            G.fault = None
            kind = f["kind"]
            sim = kernel._current
            if sim is not None:
                sim.fired["fs:" + (f["errno"] if kind == "errno" else "crash")] += 1
            G.fired = (kind, event)
            if kind == "crash":
                if G.crash_exit:
                    G.crash_exit()
            raise kernel.EXC["OSError"](ERRNO[f["errno"]], "injected " + f["errno"], str(args[0]))
    finally:
        G.active = True
    t = kernel._current
    if t is not None and t.cur is not None:
        G.active = False
        try:
            t.yield_point()
        finally:
            G.active = True


def _relative_fd(event, args):
    # dir_fd style calls (shutil.rmtree): the path is relative to a directory fd
    fds = [a for a in args[1:] if isinstance(a, int)]
    p = args[0]
    try:
        return not os.path.isabs(os.fsdecode(p)) and any(f >= 0 for f in fds[-1:]) and event in (
            "os.remove", "os.rmdir", "os.mkdir", "os.utime", "os.chmod")
    except TypeError:
        return True


def _rel(p):
    if isinstance(p, int):
        return "fd"
    s = os.fsdecode(p)
    if os.path.isabs(s) and G.root and s.startswith(G.root):
        s = s[len(G.root):]
    return s


# ------------------------------------------------------------- byte faults
class FaultFile:
    """A file opened for writing whose bytes can be cut short or refused."""

    def __init__(self, f, limit, die=False):
        self.__dict__["_f"] = f
        self.__dict__["_die"] = die
        self.__dict__["_left"] = limit

    def write(self, s):
        if self._left is not None:
            if len(s) > self._left:
                part = s[: self._left]
                self._f.write(part)
                self._f.flush()
                self.__dict__["_left"] = None
                sim = kernel._current
                if sim is not None:
                    sim.fired["fs:torn-write"] += 1
                G.fired = ("torn", "write")
                if self._die:
                    G.crash_exit()
                raise kernel.EXC["OSError"](errno.ENOSPC, "injected: no space left on device")
            self.__dict__["_left"] = self._left - len(s)
        return self._f.write(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)

    def __iter__(self):
        return iter(self._f)


_open = io.open
_sendfile = getattr(os, "sendfile", None)
_scandir = os.scandir
_listdir = os.listdir


ENCODING = None  # the simulated host's locale encoding (None: the real one)


def _sim_open(file, mode="r", buffering=-1, encoding=None, *a, **kw):
    if G.active and ENCODING and "b" not in mode and encoding in (None, "locale"):
        encoding = ENCODING
        if kernel._current is not None:
            kernel._current.probe("file-in-locale-encoding")
    f = _open(file, mode, buffering, encoding, *a, **kw)
    if G.active and G.fault and G.fault["kind"] == "torn" and any(c in mode for c in "wax+"):
        G.fault["at"] -= 1
        if G.fault["at"] <= 0:
            left, die = G.fault["bytes"], G.fault.get("die")
            G.fault = None
            return FaultFile(f, left, die)
    return f


def _sim_sendfile(out, in_, offset, count, *a, **kw):
    if G.active and G.fault and G.fault["kind"] in ("torn", "short"):
        if G.fault["kind"] == "short":
            # legal behaviour of the system call: fewer bytes than asked for
            sim = kernel._current
            if sim is not None and not G.fired:
                sim.fired["fs:short-write"] += 1
            G.fired = ("short", "sendfile")
            return _sendfile(out, in_, offset, min(count, max(1, G.fault["bytes"])), *a, **kw)
        G.fault["at"] -= 1
        if G.fault["at"] <= 0:
            left, die = G.fault["bytes"], G.fault.get("die")
            G.fault = None
            if left:
                _sendfile(out, in_, offset, left)
            sim = kernel._current
            if sim is not None:
                sim.fired["fs:torn-write"] += 1
            G.fired = ("torn", "sendfile")
            if die:
                G.crash_exit()
            raise kernel.EXC["OSError"](errno.ENOSPC, "injected: no space left on device")
    return _sendfile(out, in_, offset, count, *a, **kw)


class _Shuffled:
    def __init__(self, it, entries):
        self._it, self._e = it, iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._it.close()

    def close(self):
        self._it.close()


ORDER = 0  # directory enumeration order: seed of a permutation


def _perm(items, key):
    items = sorted(items, key=key)
    if not ORDER:
        return items
    import hashlib

    return sorted(items, key=lambda x: hashlib.md5(f"{ORDER}/{key(x)}".encode("utf-8", "surrogateescape")).digest())


def _sim_scandir(path="."):
    it = _scandir(path)
    if not G.active:
        return it
    return _Shuffled(it, _perm(list(it), lambda e: os.fsdecode(e.name)))


def _sim_listdir(path="."):
    x = _listdir(path)
    return _perm(x, os.fsdecode) if G.active else x


def install():
    """Patch the seams (in the run process only)."""
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = io.open = _sim_open
    if _sendfile:
        os.sendfile = _sim_sendfile
    os.scandir = _sim_scandir
    os.listdir = _sim_listdir
    sys.addaudithook(_hook)


def enter_scratch(order=0, encoding=None):
    """Create and enter a scratch directory as an unprivileged user."""
    global ORDER, ENCODING
    ORDER = order
    ENCODING = encoding
    base = os.environ.get(SCRATCH_ENV) or tempfile.gettempdir()
    d = os.path.realpath(tempfile.mkdtemp(prefix="run-", dir=base))
    if os.geteuid() == 0:
        pw = pwd.getpwnam("nobody")
        os.chown(d, pw.pw_uid, pw.pw_gid)
        os.setgroups([])
        os.setgid(pw.pw_gid)
        os.setuid(pw.pw_uid)
    os.umask(0o022)
    os.chdir(d)
    G.root = d
    tempfile.tempdir = os.path.join(d, "tmp")
    tempfile._name_sequence = (f"sim{i}" for i in range(10**9))  # no real randomness
    os.mkdir(tempfile.tempdir)
    install()
    return d


def leave_scratch(d):
    G.active = False
    try:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


class op_active:
    """Marks the time during which library code runs (single task at a time)."""

    def __init__(self, fault=None):
        self.fault = dict(fault) if fault else None

    def __enter__(self):
        G.count = 0
        G.log = []
        G.fault = self.fault
        G.fired = None
        G.depth += 1
        G.active = True

    def __exit__(self, *a):
        G.depth -= 1
        G.active = G.depth > 0
        G.fault = None


def tree(d):
    """{relative path: bytes | None for a directory} of a directory."""
    out = {}
    for root, dirs, files in os.walk(d, followlinks=True):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in files:
            p = os.path.join(root, x)
            if os.path.islink(p) and not os.path.exists(p):
                out[os.path.relpath(p, d)] = b"<dangling>"
                continue
            with _open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
