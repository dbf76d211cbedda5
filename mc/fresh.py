"""Reference runs in a pristine process.

Every worker of the pool starts a server process before it runs anything of the code under test; each request is
executed in a child forked from that server, so that what it computes cannot depend on anything converted before
(state kept in modules or classes included)."""
import os
import pickle
import signal
import struct

from . import sut

_fd = None


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def need(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(need(struct.unpack("<Q", need(8))[0]))


def init():
    """Start the server of this worker."""
    global _fd
    import socket
    sut.load()
    a, b = socket.socketpair()
    pid = os.fork()
    if pid:
        b.close()
        _fd = a.detach()
        return
    a.close()
    fd = b.detach()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        while True:
            fn, args = _recv(fd)
            c = os.fork()
            if c == 0:
                try:
                    try:
                        r = (True, fn(*args))
                    except Exception as e:
                        try:
                            pickle.loads(pickle.dumps(e))
                            r = (False, e)
                        except Exception:
                            r = (False, sut.Crash(f"{type(e).__name__}: {e}"))
                    except BaseException as e:
                        r = (False, sut.Crash(f"{type(e).__name__}: {e}"))
                    _send(fd, r)
                    os._exit(0)
                finally:
                    os._exit(7)
            _p, st = os.waitpid(c, 0)
            if st:
                _send(fd, (False, sut.Crash(f"reference process ended with status {st}")))
    except BaseException:
        pass
    os._exit(0)


def call(fn, *args):
    """fn(*args) in a pristine process."""
    if _fd is None:
        return fn(*args)
    _send(_fd, (fn, args))
    ok, r = _recv(_fd)
    if not ok:
        raise r
    return r


def _convert(stream, fmt, ini):
    with sut.Scratch() as sc:
        return sut.convert(sc, stream, fmt, ini)


def convert(stream, fmt, cfg):
    """Result of converting one stream in a pristine process."""
    return call(_convert, stream, fmt, cfg if isinstance(cfg, str) else cfg.ini())
