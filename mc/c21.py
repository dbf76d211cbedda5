"""C21: every file-system operation of a run fails, once or persistently: containment, verdict, release, other sources."""
import errno
import itertools
import os

from . import faults, lib, ref, runs, sut
from .core import Violation, pick

LEVEL = "fault_enumeration"
RULE = ("one case = one run of main() over three sources in which one (thorough: also two) of its file-system operations "
        "(open, read, write, torn write, close, mkdir, unlink, rmdir, stat) fails once or persistently; non-trivial if the "
        "fault actually fired")
NOTE = ("exhaustive enumeration of the failing operations of recorded runs on the real code; differential oracle: the "
        "same source converted alone without faults")

SOLO = runs.Solo()


def streams(kind):
    g = lib.good
    small = dict(sats=[3, 7], sigs=[2])
    a = g(1006, 1) + g(1074, 1, **small) + g(1019, 1) + g(1006, 2)
    b = g(1019, 2) + g(1074, 2, **small) + g(1074, 5, **small) + g(1006, 3) + g(1084, 3, **small) + g(1019, 4) + \
        g(1072, 2, **small) + g(1006, 5)
    c = g(1005, 3) + g(1077, 4, **small)
    if kind == "big":
        b = b"".join(g(1077, i, **small) + g(1019, i) + g(1006, i) for i in range(60))
    return {"a": a, "b": b, "c": c}


def lay(sc, srcs, fmt, stale):
    """Lay out the sources; returns their paths."""
    sc.clean()
    if stale:
        for n in srcs:
            sc.put(f"s/{n}-{fmt}/old/x.txt", b"stale")
            sc.put(f"s/{n}-{fmt}/y.txt", b"stale")
    return [sc.put(f"s/{n}.rtcm3", d) for n, d in srcs.items()]


def owner(path, fmt):
    """Source whose conversion the operation belongs to."""
    p = path.split("/")
    if len(p) >= 2 and p[0] == "s":
        for n in "abc":
            if p[1] in (n + ".rtcm3", f"{n}-{fmt}"):
                return n
    return None


def execute(sc, srcs, fmt, stale, decide, small):
    ps = lay(sc, srcs, fmt, stale)
    with faults.Faults(sc.path, decide, small) as f:
        try:
            sut.main(["-o", fmt] + ps, argv=True)
        except sut.Crash as e:
            f.crash = e
        else:
            f.crash = None
    return f


def record(sc, srcs, fmt, stale, small):
    f = execute(sc, srcs, fmt, stale, None, small)
    assert f.crash is None
    return [o for o in f.ops if owner(o[1], fmt) and not (o[0] == "stat" and not o[1].endswith(".rtcm3"))
            and not (o[0] == "close" and o[1].endswith(".rtcm3"))]  # closing a source is outside the statement


def affected(ops, fmt, n):
    """Products of source n an operation in ops acts on (set of relative paths; None = all of them)."""
    out = set()
    base = f"s/{n}-{fmt}"
    for kind, path, _n in ops:
        if owner(path, fmt) != n or path == f"s/{n}.rtcm3":
            continue
        rel = os.path.relpath(path, base)
        if rel == "." or kind in ("unlink", "rmdir"):
            return None
        out.add(rel)
    return out


def wellformed(rel, raw):
    if rel.endswith(".json"):
        try:
            ref.parse_json_product(raw)
        except (ValueError, UnicodeDecodeError) as e:
            return f"not a valid JSON product ({e})"
    elif rel.endswith(".obs"):
        if not raw.endswith(b"\n"):
            return "last row incomplete"
        rows = raw.decode("utf-8", "replace").split("\n")[:-1]
        if len(rows) < 2 or len({r.count(",") for r in rows}) != 1:
            return "rows are not whole"
    return None


def judge(sc, srcs, fmt, ini, f, ops, what):
    tag = "; ".join(f"{k} #{n} of {p}" for k, p, n in ops) + f" fails ({what}), format {fmt}"
    if f.crash is not None:
        raise Violation(f"{tag}: the run crashed: {f.crash}", ops=ops, how=what)
    lk = faults.leaked(sc.path)
    if lk:
        raise Violation(f"{tag}: files left open: {lk[:4]}", ops=ops, how=what)
    hit = {owner(p, fmt) for _k, p, _n in ops}
    for n, d in srcs.items():
        fld = os.path.join(sc.src, f"{n}-{fmt}")
        want = SOLO.get(n + ".rtcm3", d, fmt, ini)
        got = runs.norm(runs.snapshot(fld), sc.src) if os.path.isdir(fld) else None
        if n not in hit:
            df = "nothing converted" if got is None else runs.tree_diff(want, got)
            if df:
                raise Violation(f"{tag}: source {n} is not converted completely: {df}", ops=ops, how=what)
            continue
        got = got or {}
        log = got.pop(f"{n}-log.txt", b"") or b""
        w = {k: v for k, v in want.items() if k != f"{n}-log.txt" and v is not None}
        miss = [k for k, v in w.items() if got.get(k) != v]
        if miss and b"Finished without errors." in log:
            raise Violation(f"{tag}: {miss[:3]} missing or incomplete, but the log of {n} says 'Finished without errors.'",
                            ops=ops, how=what)
        aff = affected(ops, fmt, n)
        if aff is None:
            continue
        for rel, raw in got.items():
            if raw is None or rel in aff or any(rel.startswith(q + "/") for q in aff):
                continue
            e = wellformed(rel, raw)
            if e:
                raise Violation(f"{tag}: product {rel} of {n}: {e}", ops=ops, how=what)


def how_of(op):
    yield "once"
    yield "persistently"
    if op[0] == "write":
        yield "once, half written"
        yield "persistently, half written"
        yield "disk full"


def decider(op, how, code):
    kind, path, n = op

    def decide(k, p, i):
        if how == "disk full":
            hit = k == "write" and (state["on"] or (p, i) == (path, n))
        elif how.startswith("once"):
            hit = (k, p, i) == op
        else:
            hit = k == kind and p == path and i >= n
        if hit:
            state["on"] = True
            e = faults.oserror(code, p)
            return faults.Torn(e) if "half" in how else e

    state = {"on": False}
    return decide


CASES = [("small", False, False), ("small", False, True), ("small", True, False), ("big", False, False)]


def job(acc, case, fmt, part, parts):
    kind, stale, small = case
    ini = ref.Cfg(pretty=False).ini()
    srcs = streams(kind)
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ini)
        ops = record(sc, srcs, fmt, stale, small)
        for k, op in enumerate(ops):
            if k % parts != part:
                continue
            for how in how_of(op):
                for code in ((errno.ENOSPC,) if how == "disk full" else
                             faults.CODES if pick(how == "once", True) else (faults.CODES[k % 3],)):
                    f = execute(sc, srcs, fmt, stale, decider(op, how, code), small)
                    acc.traces += 1
                    acc.transitions += len(f.ops)
                    if not f.fired:
                        acc.bump("not_fired")
                        continue
                    acc.state(case, fmt, op, how, code)
                    acc.bump("kind_" + op[0])
                    if how == "disk full":
                        # every later write of the run fails as well: all products are affected
                        if f.crash is not None:
                            raise Violation(f"disk full at write #{op[2]} of {op[1]}: the run crashed: {f.crash}", op=op)
                        lk = faults.leaked(sc.path)
                        if lk:
                            raise Violation(f"disk full at write #{op[2]} of {op[1]}: files left open: {lk[:4]}", op=op)
                        false_success(sc, srcs, fmt, ini, f"disk full at write #{op[2]} of {op[1]}")
                        continue
                    judge(sc, srcs, fmt, ini, f, [op], how + " with " + errno.errorcode[code])
        acc.sample({"format": fmt, "fault": op, "how": how, "case": case}, 1)


def false_success(sc, srcs, fmt, ini, tag):
    for n, d in srcs.items():
        got = runs.snapshot(os.path.join(sc.src, f"{n}-{fmt}")) if os.path.isdir(os.path.join(sc.src, f"{n}-{fmt}")) else {}
        want = SOLO.get(n + ".rtcm3", d, fmt, ini)
        log = got.get(f"{n}-log.txt") or b""
        miss = [k for k, v in want.items() if not k.endswith("-log.txt") and v is not None and got.get(k) != v]
        if miss and b"Finished without errors." in log:
            raise Violation(f"{tag}: {miss[:3]} missing or incomplete, but the log of {n} says 'Finished without errors.'")


def job_pairs(acc, fmt, small, part, parts):
    """Two failing operations of one run."""
    ini = ref.Cfg(pretty=False).ini()
    srcs = streams("small")
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ini)
        ops = [o for o in record(sc, srcs, fmt, False, small) if o[0] != "stat"]
        for k, (x, y) in enumerate(itertools.combinations(ops, 2)):
            if k % parts != part:
                continue
            dx, dy = decider(x, "once", errno.EIO), decider(y, "persistently", errno.ENOSPC)
            f = execute(sc, srcs, fmt, False, lambda a, b, c: dx(a, b, c) or dy(a, b, c), small)
            acc.traces += 1
            acc.transitions += len(f.ops)
            if f.fired:
                acc.state("pair", fmt, small, x, y)
                judge(sc, srcs, fmt, ini, f, [x, y], "once and persistently")


EXTRA = [errno.EPERM, errno.EROFS, errno.EMFILE, errno.ENFILE, errno.EDQUOT, errno.EFBIG, errno.ENAMETOOLONG, errno.EEXIST, errno.ENOENT,
         errno.ENOTDIR, errno.EISDIR, errno.EBUSY, errno.ETXTBSY, errno.ETIMEDOUT, errno.EPIPE, errno.ENXIO, errno.ENODEV, errno.ESTALE,
         errno.ENOMEM, errno.ELOOP, errno.EINVAL, errno.ENOTEMPTY, errno.EOVERFLOW, errno.EREMOTEIO, errno.ECHILD, errno.ECONNRESET]


def job_codes(acc, fmt, part, parts):
    """First and last operation of each kind on each file x every other error number."""
    ini = ref.Cfg(pretty=False).ini()
    srcs = streams("small")
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ini)
        by = {}
        for op in record(sc, srcs, fmt, True, False):
            if op[0] != "stat":
                by.setdefault(op[:2], []).append(op)
        ops = [o for v in by.values() for o in dict.fromkeys((v[0], v[-1]))]
        for k, (op, code) in enumerate(itertools.product(ops, EXTRA)):
            if k % parts != part or op[0] == "unlink" and code == errno.ENOENT:
                continue
            f = execute(sc, srcs, fmt, True, decider(op, "once", code), False)
            acc.traces += 1
            acc.transitions += len(f.ops)
            if f.fired:
                acc.state("code", fmt, op, code)
                judge(sc, srcs, fmt, ini, f, [op], "once with " + errno.errorcode[code])


def run(c):
    c.fresh = True
    c.rule = RULE
    c.bounds = {"runs": "3 sources x 4 formats x (plain, write-through, stale folders, multi-block source)",
                "faults": "every recorded operation x once/persistently/torn/disk full x ENOSPC, EIO, EACCES",
                "codes": f"first and last operation of each kind on each file x {len(EXTRA)} further error numbers",
                "pairs": pick("small: every pair of MARGO and JSON operations", "all formats, both buffering modes")}
    c.run(job, [(k, f, i, 8) for k in CASES for f in lib.FORMATS for i in range(8)], "single faults")
    c.run(job_codes, [(f, i, 16) for f in lib.FORMATS for i in range(16)], "error numbers")
    for f in lib.FORMATS:
        for s in (False, True):
            if pick(f in ("JSON",) and not s, True):
                c.run(job_pairs, [(f, s, i, 64) for i in range(64)], f"pairs {f}")
