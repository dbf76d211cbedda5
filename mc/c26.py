"""C26: the products depend on the source, the settings and the format alone: every combination of process environments."""
import itertools
import json
import os
import shutil
import subprocess
import sys

from . import core, lib, ref, rtcm as R, sut
from .core import Violation, pick

LEVEL = "model_checking"
NOTE = ("full product of string hashings, locales/encodings, time zones, consoles, environments and source locations, "
        "each run in a process of its own; products compared byte by byte with those of one reference process")
ASSUMPTIONS = ["configuration files are plain ASCII; the interpreter runs with assertions enabled (no -O)"]
FMTS = ("MARGO", "JSON", "JSON-B", "JARGO")

LOCALE = {
    "default": {},
    "utf8": {"LC_ALL": "C.UTF-8", "PYTHONIOENCODING": "utf-8"},
    "ascii": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    "ascii console": {"LC_ALL": "C.UTF-8", "PYTHONIOENCODING": "ascii"},
    "latin console": {"LC_ALL": "POSIX", "PYTHONUTF8": "1", "PYTHONIOENCODING": "latin-1"},
}
ZONE = {"utc": "UTC0", "east": "AAA-14", "west": "BBB+11:30", "dst": "CCC5DDD,M3.2.0,M11.1.0"}
CONSOLE = ("pipe", "null", "closed", "file")
ENV = ("full", "bare")
# name -> (how the source is named on the command line, folder of the source, file name, symbolic link)
PLACE = {
    "absolute": ("abs", "s", "a.rtcm3", None),
    "relative": ("rel", "s", "a.rtcm3", None),
    "here": ("rel", "", "a.rtcm3", None),
    "dotted": ("dot", "s", "a.rtcm3", None),
    "spaces": ("abs", "my data", "a b.rtcm3", None),
    "unicode": ("abs", "данные é", "ü€.rtcm3", None),
    "bytes": ("abs", os.fsdecode(b"d\xff"), os.fsdecode(b"\xfe.rtcm3"), None),
    "no extension": ("abs", "s", "plain", None),
    "read-only": ("abs", "s", "a.rtcm3", "0444"),
    "link": ("abs", "s", "a.rtcm3", "link"),
}
DRIVER = r"""
import os, sys
root, umask, fmts = sys.argv[1], int(sys.argv[2], 8), sys.argv[3].split(",")
rest = sys.argv[4:]
sys.dont_write_bytecode = True
sys.path.insert(0, root)
os.umask(umask)
import run_conversion
for f in fmts:
    sys.argv = ["run_conversion.py", "-o", f] + rest
    run_conversion.main(None)
"""


def stream(deep):
    if deep:
        fr = [m for n in R.ALL_NUMS for _w, m in lib.variants(n)]
    else:
        fr = [m for n in R.ALL_NUMS for m in (lib.good(n, 1), lib.good(n, 8))]
        fr += [m for n in (1029, 1033, 1013, 1230) for _w, m in lib.variants(n)]
    fr += [lib.bad(n) for n in (1005, 1019, 1077, 1084)]
    return b"\x00\xd3junk".join([b"".join(fr[i::3]) for i in range(3)])


def launch(root, src, fmts, hashing="0", locale="default", zone="utc", console="pipe", env="full", umask="022", user=None):
    e = dict(os.environ) if env == "full" else {"PATH": os.environ.get("PATH", "/usr/bin:/bin")}
    for k in ("LANG", "LC_ALL", "LC_CTYPE", "PYTHONUTF8", "PYTHONIOENCODING", "PYTHONCOERCECLOCALE", "PYTHONOPTIMIZE"):
        e.pop(k, None)
    e.update(LOCALE[locale], TZ=ZONE[zone], PYTHONHASHSEED=str(hashing), PYTHONDONTWRITEBYTECODE="1",
             PYTHONPYCACHEPREFIX="/nonexistent-pycache")
    cmd = [sys.executable, "-c", DRIVER, sut.REPO, umask, ",".join(fmts)] + (["-i", user] if user else []) + src
    kw = {"stderr": subprocess.PIPE, "stdin": subprocess.DEVNULL, "cwd": root, "env": e, "timeout": 300}
    if console == "pipe":
        p = subprocess.run(cmd, stdout=subprocess.PIPE, **kw)
    elif console == "null":
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, **kw)
    elif console == "file":
        with open(os.path.join(root, "console.out"), "wb") as f:
            p = subprocess.run(cmd, stdout=f, **kw)
    else:
        p = subprocess.run(["sh", "-c", 'exec "$@" >&-', "sh"] + cmd, **kw)
    return p


def lay(sc, place, data):
    """Source in its place; returns (command-line name, {format: product folder}, stem)."""
    how, folder, name, extra = PLACE[place]
    d = os.path.join(sc.path, folder)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    if extra == "link":
        os.makedirs(os.path.join(sc.path, "elsewhere"), exist_ok=True)
        t = os.path.join(sc.path, "elsewhere", "real.bin")
        with open(t, "wb") as f:
            f.write(data)
        os.symlink(t, p)
    else:
        with open(p, "wb") as f:
            f.write(data)
        if extra:
            os.chmod(p, int(extra, 8))
            os.utime(p, (1, 1))
    arg = {"abs": p, "rel": os.path.join(folder, name), "dot": os.path.join(".", folder, "..", folder, name)}[how]
    stem = os.path.splitext(name)[0]
    return arg, {f: os.path.join(d, f"{stem}-{f}") for f in FMTS}, stem


def results(sc, place, data, fmts=FMTS, cfg=None, **env):
    for x in os.listdir(sc.path):
        q = os.path.join(sc.path, x)
        shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.remove(q)
    sc.put("defaults.ini", (cfg or ref.Cfg()).ini())
    arg, dirs, stem = lay(sc, place, data)
    p = launch(sc.path, [arg], fmts, **env)
    return p, {f: sut.Result(dirs[f], stem) for f in fmts}


def digest(res):
    return {f: (res[f].files, res[f].progress(), res[f].verdict()) for f in res}


def compare(acc, got, want, p, what, **info):
    for f in got:
        if p.returncode:
            raise Violation(f"{what}: the run ended with code {p.returncode}", stderr=p.stderr.decode("utf-8", "replace")[-2000:], **info)
        a, b = got[f], want[f]
        if a == b:
            continue
        if set(a[0]) != set(b[0]):
            t = f"products {sorted(set(a[0]) ^ set(b[0]))[:4]} exist only in one of the two"
        elif a[0] != b[0]:
            k = next(k for k in sorted(a[0]) if a[0][k] != b[0][k])
            x, y = a[0][k], b[0][k]
            i = next((i for i, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
            t = f"{k} differs at byte {i}: {x[max(0, i - 30):i + 30]!r} / {y[max(0, i - 30):i + 30]!r}"
        else:
            t = f"log: {a[1:]} / {b[1:]}"
        raise Violation(f"{what}: {f} differs from the reference process: {t}", **info)


_GOLD = {}


def gold(deep, cfg=None):
    """Products of the reference process (default environment)."""
    k = (deep, cfg.key() if cfg else None)
    if k not in _GOLD:
        with sut.Scratch() as sc:
            p, r = results(sc, "absolute", stream(deep), cfg=cfg)
            g = digest(r)
            if p.returncode or not any(x[0] for x in g.values()):
                raise Violation("the reference process converted nothing", stderr=p.stderr.decode("utf-8", "replace")[-2000:])
            _GOLD[k] = g
    return _GOLD[k]


def job_env(acc, place, locale):
    """All hashings, zones, consoles and environments for one place and locale."""
    data, want = stream(False), gold(False)
    with sut.Scratch() as sc:
        full = core.TIER != "quick"
        for n, (hs, z, con, e) in enumerate(itertools.product((1, 2, 3) if full else (0,), sorted(ZONE) if full else ("dst", "east"), CONSOLE, ENV)):
            hs = hs or 20 + n
            env = {"hashing": hs, "locale": locale, "zone": z, "console": con, "env": e, "umask": ("022", "077")[n % 2]}
            fm = FMTS if full else (FMTS[n // 2 % 4], FMTS[(n // 2 + 1 + n // 8) % 4])
            acc.state(place, tuple(sorted(env.items())), fm)
            acc.transitions += len(fm)
            acc.traces += 1
            p, r = results(sc, place, data, fm, **env)
            compare(acc, digest(r), want, p, f"source {place!r}, environment {env}", environment=env, place=place)
    acc.sample({"place": place, "locale": locale, "environments": acc.traces}, 1)


def job_deep(acc, key, value):
    """Every content variant of every message number, with one thing in the environment changed."""
    want = gold(True)
    env = {key: value}
    with sut.Scratch() as sc:
        p, r = results(sc, env.pop("place", "absolute"), stream(True), **env)
        acc.state("deep", key, value)
        acc.transitions += 4
        acc.traces += 1
        compare(acc, digest(r), want, p, f"all messages, {key} {value!r}", change=[key, value])
    acc.sample({"all messages": f"{key}={value}"}, 1)


def job_cfg(acc, bits):
    """Settings x environments: the settings must act alike everywhere."""
    c = ref.Cfg(hca=bool(bits & 1), lt=bool(bits & 2), pretty=bool(bits & 4), hdr=bool(bits & 8), aux=bool(bits & 16),
                shift=18 + bits, lit={s: (s * (bits + 1)) % 14 - 7 for s in range(1, 25)})
    data, want = stream(False), gold(False, c)
    with sut.Scratch() as sc:
        for n, loc in enumerate(sorted(LOCALE)):
            env = {"hashing": 10 + bits * 5 + n, "locale": loc, "zone": sorted(ZONE)[n % 4], "env": ENV[n % 2]}
            acc.state("cfg", bits, loc)
            acc.transitions += 4
            acc.traces += 1
            p, r = results(sc, "absolute", data, cfg=c, **env)
            compare(acc, digest(r), want, p, f"settings {bits:05b}, environment {env}", environment=env, defaults=c.ini())


def job_again(acc, fmt):
    """The same command again and again, in one process and in many: the same products."""
    want = gold(False)
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ref.Cfg().ini())
        arg, dirs, stem = lay(sc, "absolute", stream(False))
        for h, times in ((0, 1), (1, 2), (2, 3), (0, 1)):
            p = launch(sc.path, [arg], (fmt,) * times, hashing=h)
            acc.state("again", fmt, h, times)
            acc.transitions += times
            acc.traces += 1
            compare(acc, digest({fmt: sut.Result(dirs[fmt], stem)}), want, p, f"repeated run {times}, hashing {h}")


def run(c):
    c.bounds = {"environments": f"{len(PLACE)} source places x {len(LOCALE)} locales x 2 (4) zones x {len(CONSOLE)} consoles x full/bare "
                                "environment; quick: two formats in each, thorough: all four and 3 string hashings",
                "all messages": "every variant of every number x 4 formats x 12 (128) string hashings, each locale, zone, console, environment, place",
                "settings": "32 settings x 5 locales"}
    for d in (False, True):
        gold(d)
    deep = [("hashing", h) for h in range(1, pick(13, 129))]
    for key, vals in (("locale", LOCALE), ("zone", ZONE), ("console", CONSOLE), ("env", ENV), ("umask", ("000", "077")), ("place", PLACE)):
        deep += [(key, v) for v in vals]
    c.run(job_deep, deep, "all messages x one change")
    c.run(job_again, [(f,) for f in FMTS], "repeated runs")
    c.run(job_env, [(p, loc) for p in PLACE for loc in LOCALE], "environments")
    c.run(job_cfg, [(b,) for b in range(32)], "settings x environments")
