"""C23: an interrupt at every point of reading, decoding and printing: products, log, descriptors and other sources."""
import os
import sys

from . import faults, lib, ref, runs, sut
from .core import Violation, pick

LEVEL = "fault_enumeration"
RULE = ("one case = one run of main() over three sources interrupted (KeyboardInterrupt) at one executed line of the code "
        "under test, or at one read of a source, between the first read of a source and its end; non-trivial if the "
        "interrupt was delivered there")
NOTE = ("exhaustive enumeration of interrupt points at line granularity on the real code; oracle: products of the "
        "uninterrupted conversion of every message prefix")

SOLO = runs.Solo()


def words():
    g = lib.good
    s = dict(sats=[3, 7], sigs=[2])
    two = dict(sats=[2, 9], sigs=[2, 4])
    return {
        "mixed": [g(1006, 1), g(1074, 1, **s), g(1019, 1), g(1074, 2, **s), g(1006, 2), g(1072, 3, **s), g(1019, 5)],
        "msm": [g(1077, 1, **two), g(1087, 2, **s), g(1077, 3, **two), g(1085, 4, **s)],
        "base": [g(n, 3) for n in (1005, 1007, 1008, 1013, 1029, 1033, 1230, 1033, 1029)],
        "faulty": [g(1006, 1), lib.bad(1074), g(1006, 3), lib.unsupported(1), g(1074, 2, **s), b"zz", g(1006, 5)],
    }


def long_word():
    s = dict(sats=[3, 7], sigs=[2])
    return [lib.good((1077, 1019, 1006)[i % 3], i, **(s if i % 3 == 0 else {})) for i in range(130)]


OTHER = lib.good(1006, 7) + lib.good(1074, 7, sats=[1], sigs=[2]) + lib.good(1006, 8)


class Tracer:
    """Counts executed lines of the code under test inside the window and interrupts at the k-th."""

    def __init__(self, target, done, rec=False):
        self.done, self.where = done, [] if rec else None
        self.on, self.n, self.target, self.fired = False, 0, target, None
        self.prefix = sut.REPO + "/"

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        return self.loc if fn.startswith(self.prefix) else None

    def loc(self, frame, event, arg):
        if self.on and event == "line":
            k = self.n
            self.n += 1
            if self.where is not None:
                self.where.append((frame.f_code.co_filename, frame.f_lineno, self.done["n"]))
            if k == self.target:
                self.on = False
                sys.settrace(None)
                self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                raise KeyboardInterrupt
        return self.loc


def execute(sc, srcs, fmt, victim, target=None, at_read=None):
    """Run main() over the sources; interrupt at line `target` or at read `at_read` of the victim."""
    sc.clean()
    ps = [sc.put(f"s/{n}.rtcm3", d) for n, d in srcs.items()]
    vp = f"s/{victim}.rtcm3"
    done = {"cur": None, "n": 0, "lines": -1}
    tr = Tracer(target, done, target is None)

    def decide(kind, path, n):
        if kind == "read" and path == vp and n == at_read:
            tr.fired = ("read", n)
            return KeyboardInterrupt()

    f = faults.Faults(sc.path, decide)

    def after(kind, path, n):
        # the window: from the first data of the victim to the end of its file
        if kind == "read" and path == vp and tr.fired is None and done["cur"] != "end":
            if n:
                tr.on, done["lines"] = True, tr.n
                done["cur"] = vp
            elif tr.n != done["lines"]:  # not the same call that delivered the last data
                tr.on, done["cur"] = False, "end"

    f.on_after = after
    cls = victim_class(sc, fmt)
    orig, orig_release = cls.print, cls.release

    def counted(self, *a, **kw):
        r = orig(self, *a, **kw)
        if done["cur"] == vp and tr.fired is None:
            done["n"] += 1
        return r

    def release(self, *a, **kw):
        if done["cur"] == vp:
            tr.on, done["cur"] = False, "end"
        return orig_release(self, *a, **kw)

    cls.print, cls.release = counted, release
    try:
        with f:
            if target is not None or at_read is None:
                sys.settrace(tr.glob)
            try:
                sut.main(["-o", fmt] + ps, argv=True, cpu=60)
                crash = None
            except sut.Crash as e:
                crash = e
            finally:
                sys.settrace(None)
    finally:
        cls.print, cls.release = orig, orig_release
    return tr, done["n"], crash, f


_cls = {}


def victim_class(sc, fmt):
    if fmt not in _cls:
        with sut.Scratch() as s2:
            cv, _d = sut.converter(s2, fmt, sut.boxed(s2, ref.Cfg()))
            cv.release()
        _cls[fmt] = type(cv)
    return _cls[fmt]


class prefixes:
    """Products after k printed messages of the word (converted alone, on demand)."""

    def __init__(self, word, fmt, ini):
        self.fmt, self.ini, self.ends, st = fmt, ini, [b""], b""
        for m in word:
            st += m
            num = ref.number(m) if m[:1] == b"\xd3" else -1
            if ref.supported(num, fmt) and ref.decode(m, fmt == "JSON-B") is not None:
                self.ends.append(st)

    def __len__(self):
        return len(self.ends)

    def __getitem__(self, k):
        if k == 0:
            return {}
        t = SOLO.get("v.rtcm3", self.ends[k], self.fmt, self.ini)
        return {p: b for p, b in t.items() if b is not None and not p.endswith("-log.txt")}


def judge(sc, srcs, word, fmt, ini, victim, tr, done, crash, pre, used):
    tag = f"{fmt}, interrupt at {tr.fired} after {done} printed messages"
    if crash is not None:
        raise Violation(f"{tag}: {crash}", point=tr.fired)
    lk = faults.leaked(sc.path)
    if lk:
        raise Violation(f"{tag}: files left open: {lk[:4]}", point=tr.fired)
    for n, d in srcs.items():
        if n == victim:
            continue
        fld = os.path.join(sc.src, f"{n}-{fmt}")
        got = runs.norm(runs.snapshot(fld), sc.src) if os.path.isdir(fld) else {}
        df = runs.tree_diff(SOLO.get(n + ".rtcm3", d, fmt, ini), got)
        if df:
            raise Violation(f"{tag}: source {n} is not converted completely: {df}", point=tr.fired)
    r = sut.Result(os.path.join(sc.src, f"{victim}-{fmt}"), victim)
    v = r.verdict()
    if "terminated" not in v or "ok" in v or "errors" in v:
        raise Violation(f"{tag}: the log does not report the termination: {r.logtext[-300:]!r}", point=tr.fired)
    ks = [done] if used else range(len(pre))
    why = None
    for k in ks:
        why = prefix_diff(pre, k, r.files)
        if why is None:
            return
    raise Violation(f"{tag}: {why}", point=tr.fired)


def prefix_diff(pre, k, files):
    a = pre[k]
    b = pre[k + 1] if k + 1 < len(pre) else {}
    for p, c in a.items():
        if p not in files:
            return f"product {p} of completed messages is missing"
        if files[p] != c and files[p] != b.get(p):
            return f"product {p} is not that of the messages completed before the interrupt: ...{files[p][-60:]!r}"
    more = sorted(set(files) - set(a) - set(b))
    if more:
        return f"unexpected products {more[:3]}"
    return None


def points(where, long):
    """Points to interrupt at: quick tier - the first and the last visit of every line for every number of
    printed messages; thorough tier - every executed line (of the long stream: as in the quick tier)."""
    if not long and pick(False, True):
        return list(range(len(where)))
    occ = {}
    for i, w in enumerate(where):
        if long:
            w = w[:2] + (w[2] // pick(131, 11),)
        occ.setdefault(w, []).append(i)
    return sorted({i for v in occ.values() for i in v[:1] + v[-1:]})


def job(acc, wname, fmt, pos, part, parts):
    ini = ref.Cfg(pretty=False).ini()
    word = long_word() if wname == "long" else words()[wname]
    st = b"".join(word)
    names = ["a", "v", "z"]
    names.remove("v")
    names.insert(pos, "v")
    srcs = {n: st if n == "v" else OTHER for n in names}
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ini)
        pre = prefixes(word, fmt, ini)
        tr, n, crash, f = execute(sc, srcs, fmt, "v")
        if crash is not None:
            raise Violation(f"uninterrupted run: {crash}")
        used = n == len(pre) - 1
        total = tr.n
        todo = points(tr.where, wname == "long")
        acc.bump("lines_executed", total if part == 0 else 0)
        for k in todo[part::parts]:
            tr, n, crash, f = execute(sc, srcs, fmt, "v", k)
            acc.traces += 1
            acc.transitions += tr.n
            if tr.fired is None:
                acc.bump("not_delivered")
                continue
            acc.state(wname, fmt, pos, k)
            judge(sc, srcs, word, fmt, ini, "v", tr, n, crash, pre, used)
        acc.sample({"word": wname, "format": fmt, "position": pos, "points": total, "last": tr.fired}, 1)


def job_reads(acc, fmt, pos):
    """Interrupts while waiting for a block of the source."""
    ini = ref.Cfg(pretty=False).ini()
    word = long_word()
    names = ["a", "z"]
    names.insert(pos, "v")
    srcs = {n: b"".join(word) if n == "v" else OTHER for n in names}
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ini)
        pre = prefixes(word, fmt, ini)
        tr, n, crash, f = execute(sc, srcs, fmt, "v")
        used = n == len(pre) - 1
        reads = [o[2] for o in f.ops if o[0] == "read" and o[1] == "s/v.rtcm3"]
        for k in reads:
            tr, n, crash, f = execute(sc, srcs, fmt, "v", None, k)
            acc.traces += 1
            acc.transitions += len(f.ops)
            if tr.fired is None:
                continue
            acc.state("read", fmt, pos, k)
            judge(sc, srcs, word, fmt, ini, "v", tr, n, crash, pre, used)


QUICK = {"mixed": lib.FORMATS, "msm": ("MARGO", "JSON"), "base": ("JSON-B",), "faulty": ("MARGO", "JSON")}


def run(c):
    c.fresh = True
    c.rule = RULE
    c.bounds = {"streams": {k: len(v) for k, v in words().items()},
                "points": pick("first and last visit of every line of the code under test per message; ",
                               "every executed line of the code under test; ") +
                          f"first and last visit of every line per {pick(131, 11)} messages of a stream of several "
                          "blocks; every block read",
                "formats": lib.FORMATS, "position of the interrupted source": "first, middle, last"}
    c.run(job_reads, [(f, p) for f in lib.FORMATS for p in range(3)], "block reads")
    js = [(w, f, p, i, 16) for w in words() for f in pick(QUICK[w], lib.FORMATS) for p in pick((1,), (0, 1, 2)) for i in range(16)]
    c.run(job, js, "lines")
    c.run(job, [("long", f, 0, i, 64) for f in pick(("MARGO", "JSON"), lib.FORMATS) for i in range(64)], "long stream")
