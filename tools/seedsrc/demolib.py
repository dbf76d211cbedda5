"""Helpers of the demonstrations: cwd is the repository; everything is written to a scratch folder."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import rt  # noqa: E402  independent encoder

TMP = tempfile.mkdtemp(prefix="demo")
shutil.copy(os.path.join(REPO, "defaults.ini"), TMP)
os.chdir(TMP)

import run_conversion  # noqa: E402
from decoder_top import DecoderTop  # noqa: E402


@contextlib.contextmanager
def quiet(answers=""):
    old = sys.stdin
    sys.stdin = io.StringIO(answers)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
            yield o
    finally:
        sys.stdin = old


def put(name, data):
    p = os.path.join(TMP, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return p


def tree(d):
    out = {}
    for b, _s, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def main(args, answers=""):
    with quiet(answers) as o:
        run_conversion.main(args)
    return o.getvalue()


_n = 0


def conv(data, fmt="JSON", ini=None, name=None):
    """Convert one stream; returns {relative product path: bytes} (log included)."""
    global _n
    _n += 1
    src = put(name or f"x{_n}/s.rtcm3", data)
    a = f"-o {fmt} {src}"
    if ini is not None:
        a = f"-i {put(f'x{_n}.ini', ini)} " + a
    main(a)
    return tree(os.path.splitext(src)[0] + "-" + fmt)


def js(files, num):
    """JSON objects (without the first record) of one message number, or None."""
    f = files.get(rt.JSON_FILE[num])
    return None if f is None else json.loads(f.decode("utf-8"))[1:]


def obs(files, name):
    f = files.get(name)
    return None if f is None else [[c.strip() for c in r.split(",")] for r in f.decode().splitlines()]


def log(files):
    return [v for k, v in files.items() if k.endswith("-log.txt")][0].decode().splitlines()


def parse(*chunks):
    d = DecoderTop()
    out = []
    for c in chunks:
        out += d.catch_message(c)
    out += d.flush()
    return out, d.parse_errors


def done():
    os.chdir("/")
    shutil.rmtree(TMP, ignore_errors=True)


def check(cond, msg="property broken"):
    if not cond:
        print("DEMO:", msg)
        done()
        sys.exit(1)


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


def tow(files, name):
    return int(obs(files, name)[2][0])
