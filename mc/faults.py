"""Interception of the file-system operations of a run below a scratch root.

Every operation is numbered per (kind, path); a decision function may let it fail. The files handed out
are genuine io objects over a raw file whose read, write and close go through the same decision, so that
buffering, flushing and closing behave exactly as they do with a failing operating system."""
import builtins
import errno
import gc
import io
import os

from . import sut


class Raw(io.FileIO):
    def __init__(self, hub, path, mode):
        super().__init__(path, mode)
        self._hub, self._path = hub, path

    def readinto(self, b):
        self._hub.hit("read", self._path)
        n = super().readinto(b)
        self._hub.after("read", self._path, n)
        return n

    def read(self, size=-1):
        self._hub.hit("read", self._path)
        b = super().read(size)
        self._hub.after("read", self._path, len(b or b""))
        return b

    def readall(self):
        self._hub.hit("read", self._path)
        b = super().readall()
        self._hub.after("read", self._path, len(b))
        return b

    def write(self, b):
        try:
            self._hub.hit("write", self._path)
        except Torn as t:
            mv = memoryview(b).cast("B")
            super().write(mv[:len(mv) // 2])
            raise t.err from None
        return super().write(b)

    def close(self):
        if self.closed:
            return
        super().close()
        self._hub.hit("close", self._path)


class Torn(Exception):
    """Half of the data reaches the disk, then the write fails."""

    def __init__(self, err):
        super().__init__()
        self.err = err


class Faults:
    """with Faults(root, decide, small): decide(kind, path, n) returns None or the exception to raise."""

    def __init__(self, root, decide=None, small=False):
        self.root = os.path.abspath(root) + os.sep
        self.decide, self.small = decide, small
        self.count = {}
        self.ops = []
        self.fired = 0
        self.on_after = None

    def mine(self, p, dir_fd=None):
        try:
            p = os.fsdecode(os.fspath(p))
        except TypeError:
            return None
        if dir_fd is not None:
            try:
                p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
            except OSError:
                return None
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        return p if p.startswith(self.root) else None

    def hit(self, kind, path):
        rel = path[len(self.root):]
        n = self.count.get((kind, rel), 0)
        self.count[kind, rel] = n + 1
        self.ops.append((kind, rel, n))
        if self.decide is not None:
            e = self.decide(kind, rel, n)
            if e is not None:
                self.fired += 1
                try:
                    raise e
                finally:
                    e = None  # no reference cycle through the traceback

    def after(self, kind, path, n):
        if self.on_after is not None:
            self.on_after(kind, path[len(self.root):], n)

    # ------------------------------------------------------------------ patches --
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = None if isinstance(file, int) or opener is not None else self.mine(file)
        if p is None:
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace("b", "").replace("t", "")
        self.hit("open-" + m[0], p)
        raw = Raw(self, p, m)
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else 4096 if "r" in m else 1 if self.small else 8192
        buf = (io.BufferedRandom if "+" in m else io.BufferedReader if m == "r" else io.BufferedWriter)(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1, self.small)
        t.mode = mode
        return t

    def wrap(self, kind, fn):
        def f(path, *a, **kw):
            p = self.mine(path, kw.get("dir_fd")) if not isinstance(path, int) else None
            if p is not None:
                self.hit(kind, p)
            return fn(path, *a, **kw)
        return f

    def __enter__(self):
        self.real_open = builtins.open
        self.saved = [(builtins, "open", builtins.open), (io, "open", io.open)]
        builtins.open = io.open = self.open
        for name, kind in (("mkdir", "mkdir"), ("rmdir", "rmdir"), ("unlink", "unlink"), ("remove", "unlink"),
                           ("stat", "stat")):
            fn = getattr(os, name)
            self.saved.append((os, name, fn))
            setattr(os, name, self.wrap(kind, fn))
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)


def oserror(code, path):
    return OSError(code, os.strerror(code), path)


def leaked(root):
    """File descriptors open below root."""
    root = os.path.abspath(root) + os.sep
    out = sorted(v for v in sut.fds().values() if v.startswith(root))
    if out:
        gc.collect()  # objects of the injected exceptions
        out = sorted(v for v in sut.fds().values() if v.startswith(root))
    return out


CODES = (errno.ENOSPC, errno.EIO, errno.EACCES)
