"""C24: memory retained between chunks over all lasso-shaped streams u w w w ... of the token alphabet; descriptors."""
import gc
import io
import itertools
import os
import tracemalloc

from . import faults, graph, lib, ref, rtcm as R, scanx as S, sut
from .core import Violation, pick

LEVEL = "model_checking"
NOTE = ("all lassos u w^n over the stream alphabet x chunk sizes; measured: data and objects reachable from the converter "
        "between chunks, allocated memory of the process, peak memory of main(), open files after release")
SLACK = 600      # bytes beyond one incomplete frame
OBJ = 60         # objects


def words():
    n = len(S.tokens(0))
    for k in range(1, pick(2, 3) + 1):
        yield from itertools.product(range(n), repeat=k)


def job_lasso(acc, w, sizes):
    n = len(S.tokens(0))
    per = S.build(w)
    with S.Rig() as rig:
        for u in [()] + [(a,) for a in range(n)]:
            reps = max(100, -(-pick(2500, 6000) // len(per)))
            st = S.build(u) + per * reps
            for size in sizes:
                rig.g.arm()
                cv = rig.new()
                b0, o0 = graph.retained(cv)
                cs = [st[i:i + size] for i in range(0, len(st), size)]
                marks = set(range(len(cs) // 8, len(cs), max(1, len(cs) // 8))) | set(range(len(cs) - 3, len(cs)))
                for i, ch in enumerate(cs):
                    cv.parse_bytes(ch)
                    if i in marks:
                        b, o = graph.retained(cv)
                        if b - b0 > 1028 + SLACK or o - o0 > OBJ:
                            raise Violation(f"stream {S.names(u)} ({S.names(w)})^{reps} in chunks of {size}: after "
                                            f"{(i + 1) * size} bytes the converter retains {b - b0} bytes, {o - o0} objects",
                                            prefix=S.build(u), period=per, chunk=size)
                        acc.transitions += 1
                acc.state(u, w, size, b - b0, o - o0)
                acc.traces += 1
    acc.sample({"prefix": S.names(u), "period": S.names(w), "repeats": reps, "chunk": size, "retained": b - b0}, 1)


def endless(kind, n):
    """Long streams that keep the scanner waiting."""
    return {"zeros": bytes(n), "d3": b"\xd3" * n, "d300": b"\xd3\x00" * (n // 2), "d303ff": b"\xd3\x03\xff" * (n // 3),
            "count": bytes(i * 37 & 255 for i in range(n)), "no d3": bytes(i % 211 for i in range(n)),
            "long good": S.fr(1, 1023) * (n // 1029 + 1), "long bad": S.bad(S.fr(1, 1023)) * (n // 1029 + 1)}[kind]


KINDS = ("zeros", "d3", "d300", "d303ff", "count", "no d3", "long good", "long bad")


def job_endless(acc, kind, size):
    st = endless(kind, pick(20000, 60000))
    with S.Rig() as rig:
        cv = rig.new()
        b0, o0 = graph.retained(cv)
        for i in range(0, len(st), size):
            rig.g.arm()
            cv.parse_bytes(st[i:i + size])
            if size >= 512 or (i // size) % (512 // size) == 0:
                b, o = graph.retained(cv)
                acc.state(kind, size, b - b0)
                acc.transitions += 1
                if b - b0 > 1028 + SLACK or o - o0 > OBJ:
                    raise Violation(f"endless {kind} in chunks of {size}: after {i + size} bytes the converter retains "
                                    f"{b - b0} bytes, {o - o0} objects", chunk=size)
        acc.traces += 1


def consume(cv, msgs):
    for m in msgs:
        x = cv.decode(m)
        if x is not None:
            cv.print(x)


def job_messages(acc, fmt, nums):
    """Endless streams of each kind of message through decoding and printing: nothing accumulates anywhere."""
    with sut.Scratch() as sc:
        box = sut.boxed(sc, ref.Cfg(pretty=False))
        for num in nums:
            for var in ("good", "bad", "mixed") if pick(fmt in ("MARGO", "JSON"), True) else ("mixed",):
                kw = dict(sats=[3, 4], sigs=[2]) if 1071 <= num <= 1137 else {}
                good = [lib.good(num, s, **kw) for s in range(1, 6)]
                per = good if var == "good" else [lib.bad(num)] if var == "bad" else \
                    [good[0], lib.bad(num), b"zz", S.bad(good[1]), lib.unsupported(1)]
                check(acc, sc, box, fmt, b"".join(per), f"message {num} ({var})")


def flush_files(root):
    """Empty the buffers of all open product files (their fill level is not memory held by the converter)."""
    for o in gc.get_objects():
        if isinstance(o, (io.TextIOWrapper, io.BufferedWriter)):
            try:
                if not o.closed and str(o.name).startswith(root):
                    o.flush()
            except (ValueError, AttributeError, OSError):
                pass


def check(acc, sc, box, fmt, per, what):
    n = max(1, pick(6000, 12000) // len(per))
    cv, d = sut.converter(sc, fmt, box)
    st = per * n
    with sut.guard(120):
        tracemalloc.start()
        try:
            marks = []
            for rnd in range(4):
                for i in range(0, len(st), 1000):
                    consume(cv, cv.parse_bytes(st[i:i + 1000]))
                gc.collect()
                flush_files(d)
                marks.append(tracemalloc.get_traced_memory()[0])
        finally:
            tracemalloc.stop()
        b, o = graph.retained(cv)
        cv.release()
    sz = sum(os.path.getsize(os.path.join(a, f)) for a, _s, fs in os.walk(d) for f in fs)
    lk = faults.leaked(d)
    if lk:
        raise Violation(f"{fmt}, {what}: files open after release: {lk[:3]}", stream=per)
    grow = [y - x for x, y in zip(marks, marks[1:])]
    acc.state(fmt, what, n)
    acc.transitions += 4 * n
    acc.traces += 1
    lim = max(2 * n, 512)
    if min(grow[1:]) > lim:
        raise Violation(f"{fmt}, endless {what}: memory grows by {grow} bytes per {n} periods ({sz} bytes of products)",
                        stream=per)


def varied(num, i):
    """Well-formed messages whose contents never repeat; the satellites, signals and station stay the same."""
    nx = R.rng32(num * 7 + 1000003 * i + 5)
    if num in R.MSM_NUMS:
        g, t = R.msm_of(num)
        q = sorted(R.SIGNALS[g])[0]
        tm = (i * 1000) % 604800000 if g != "R" else (i // 86400 % 7) << 27 | (i * 1000) % 86400000
        return R.msm_fill(num, [3, 4], [q], [(3, q), (4, q)], i + 1, {"time": tm, "rs_id": 7, "IODS": i & 7})
    if num in R.EPH or num in R.BASE:
        lay = (R.EPH if num in R.EPH else R.BASE)[num]
        v = lib.rand_fields(lay, i + 1, num)
        k = [n for n, _k, _w, _r in lay]
        w = {n: x for n, _k, x, _r in lay}
        for n in k:
            if n in ("satNum", "satId", "sat", "rs_id", "satellite") or "sat" in n.lower():
                v[n] = 5 & (1 << w[n]) - 1
        return (R.eph if num in R.EPH else R.base_ref)(num, v)
    if num in (1007, 1008, 1033):
        k = {1007: 1, 1008: 2, 1033: 5}[num]
        return R.base_str(num, 7, i & 255, [f"{i}-{j}-{nx(16)}".encode() for j in range(k)])
    if num == 1013:
        return R.base_1013(7, i & 65535, i * 5 % 86400, 2, 18, [(1000 + i % 90, 1, nx(16)), (1100 + i % 97, 0, nx(16))])
    if num == 1029:
        t = f"{i} {nx(16)}"
        return R.base_1029(7, i & 65535, i * 5 % 86400, len(t), t.encode())
    return R.base_1230(7, i & 1, 15, [i & 65535, nx(16), nx(16), nx(16)])


def job_distinct(acc, fmt, num, what):
    """Streams that never repeat: nothing is remembered of the messages, the damaged ones or the garbage."""
    half = pick(1000, 4000)
    with sut.Scratch() as sc:
        cv, d = sut.converter(sc, fmt, sut.boxed(sc, ref.Cfg(pretty=False, hca=True, lt=True)))
        z = 0

        def go(n):
            nonlocal z
            for _ in range(n):
                z += 1
                f = varied(num, z)
                if what == "malformed":
                    p = f[3:-3]
                    f = R.frame(p[:-1] if z % 2 and len(p) > 4 else p + bytes([z & 255]))
                elif what == "damaged":
                    f = S.bad(f, 1 + z % 255)
                elif what == "unsupported":
                    f = R.frame(R.BitW().put(4000 + z % 90, 12).put(z, 24).put(z * 7919 & 0xFFFFFF, 24).put(0, 4).bytes())
                elif what == "garbage":
                    f = f"garbage {z} {z * z}".encode() + (f if z % 50 == 0 else b"")
                consume(cv, cv.parse_bytes(f))

        with sut.guard(240):
            go(half // 4)
            tracemalloc.start()
            try:
                go(half // 4)
                go(half // 2)
                b0, o0 = graph.retained(cv)
                gc.collect()
                flush_files(d)
                a = tracemalloc.get_traced_memory()[0]
                go(half)
                gc.collect()
                flush_files(d)
                b = tracemalloc.get_traced_memory()[0]
                b1, o1 = graph.retained(cv)
            finally:
                tracemalloc.stop()
            cv.release()
        acc.state("distinct", fmt, num, what)
        acc.transitions += z
        acc.traces += 1
        acc.extra["largest_growth"] = max(acc.extra.get("largest_growth", 0), b - a, b1 - b0)
        if b - a > 16 * half or b1 - b0 > 4 * half or o1 - o0 > half // 2:
            raise Violation(f"{fmt}, {num} ({what}, all different): memory grows by {b - a} bytes, the converter by {b1 - b0} bytes and "
                            f"{o1 - o0} objects, over {half} messages behind as many others", stream=varied(num, 1))


def job_big(acc, fmt, num, size):
    """Large products: nothing stays open after release, however much was written."""
    kw = dict(sats=[3, 4, 5], sigs=[sorted(R.SIGNALS[R.msm_of(num)[0]])[0]]) if num in R.MSM_NUMS else {}
    with sut.Scratch() as sc:
        box = sut.boxed(sc, ref.Cfg(pretty=False, hca=True, lt=True))
        cv, d = sut.converter(sc, fmt, box)
        m = lib.good(num, 3, **kw)
        with sut.guard(120) as g:
            x = cv.decode(m)
            n = 0
            while x is not None and n < 400000:
                for _ in range(200):
                    cv.print(x)
                n += 200
                g.arm(120)
                if sum(os.path.getsize(os.path.join(a, f)) for a, _s, fs in os.walk(d) for f in fs) > size:
                    break
            cv.release()
        lk = faults.leaked(d)
        acc.state("big", fmt, num, size)
        acc.transitions += n
        acc.traces += 1
        if lk:
            raise Violation(f"{fmt}, {n} messages {num}: open after release: {lk[:3]}", stream=m)


def job_files(acc, fmt, gnss):
    """Many products at a time: all signals of all message types of a GNSS, everything else; nothing stays open after release."""
    with sut.Scratch() as sc:
        box = sut.boxed(sc, ref.Cfg(pretty=False, hca=True, lt=True))
        cv, d = sut.converter(sc, fmt, box)
        n = 0
        with sut.guard(120):
            for t in range(1, 8):
                for q in sorted(R.SIGNALS[gnss]):
                    for m in (R.msm_fill(R.msm_num(gnss, t), [2], [q], [(2, q)], 5), lib.bad(R.msm_num(gnss, t))):
                        consume(cv, cv.parse_bytes(m))
                        n += 1
            for x in R.EPH_NUMS + R.BASE_NUMS:
                consume(cv, cv.parse_bytes(lib.good(x, 3) + lib.bad(x)))
                n += 2
            k = len(faults.leaked(d))
            cv.release()
        lk = faults.leaked(d)
        acc.state("files", fmt, gnss, k)
        acc.bump("files_open_before_release", k)
        acc.transitions += n
        acc.traces += 1
        if lk:
            raise Violation(f"{fmt}, {n} messages of {gnss} and others: {len(lk)} files open after release: {lk[:3]}")


def job_main(acc, fmt, kind):
    """Peak memory of a whole run does not depend on the length of the source."""
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ref.Cfg(pretty=False).ini())
        peak = []
        for n in (60000, 60000, 600000):
            sc.clean()
            if kind == "garbage":
                st = bytes(i * 37 % 211 for i in range(1000)) * (n // 1000)
            elif kind == "frames":
                f = S.fr(1, 900)
                st = f * (n // len(f))
            else:
                f = lib.good(1033, 4) + S.fr(1, 900) + lib.good(1077, 3, sats=[2], sigs=[2])
                st = f * (n // len(f))
            p = sc.put("s/a.rtcm3", st)
            size = len(st)
            del st
            gc.collect()
            tracemalloc.start()
            try:
                sut.main(["-o", fmt, p], argv=True, cpu=120)
                peak.append(tracemalloc.get_traced_memory()[1])
            finally:
                tracemalloc.stop()
            lk = faults.leaked(sc.path)
            if lk:
                raise Violation(f"{fmt}, {size} bytes of {kind}: files left open: {lk[:3]}")
            acc.transitions += size // 4096
        acc.state(fmt, kind)
        acc.traces += 1
        if peak[2] > peak[1] + 200000:
            raise Violation(f"{fmt}, {kind}: peak memory {peak[1]} bytes for 60 kB of input, {peak[2]} for 600 kB")


def run(c):
    ws = list(words())
    c.bounds = {"periods": f"all words of up to {pick(2, 3)} of {len(S.tokens(0))} tokens", "prefixes": "none or one token",
                "chunk sizes": pick("17, 1000", "3, 17, 1000, 4096"), "stream length": pick("2.5 kB", "6 kB") + " or 100 periods",
                "endless": f"{len(KINDS)} patterns x chunk sizes 1, 7, 512, 1029, 4096",
                "large products": f"{pick('1.3', '20')} MB of every number; all files of each GNSS at a time",
                "never repeating": f"{pick(2000, 8000)} different messages of every number, malformed, damaged, unsupported and garbage",
                "messages": "every supported number x good/bad/mixed x 4 formats (quick: only mixed for JSON-B and "
                            "JARGO), 4 x 6 kB"}
    sizes = pick((17, 1000), (3, 17, 1000, 4096))
    c.run(job_endless, [(k, s) for k in KINDS for s in (1, 7, 512, 1029, 4096)], "endless patterns")
    nums = sorted(R.JSON_FILE)
    c.run(job_messages, [(f, [x]) for f in lib.FORMATS for x in nums if f != "MARGO" or 1071 <= x <= 1137][::1], "messages")
    c.run(job_big, [(f, x, pick(1300000, 20000000)) for x in nums for f in ("JSON", "JSON-B", "MARGO") if f != "MARGO" or x in R.MSM_NUMS],
          "large products")
    c.run(job_distinct, [(f, x, w) for x in nums for f, w in
                         ([("JSON", "good"), ("MARGO", "good"), (lib.FORMATS[x % 4], ("malformed", "damaged", "unsupported", "garbage")[x // 4 % 4])]
                          if x in R.MSM_NUMS else [("JSON", "good"), ("JARGO", "malformed"), ("JSON-B", "good")])], "streams that never repeat")
    c.run(job_files, [(f, g) for f in lib.FORMATS for g in R.GNSS], "many products")
    c.run(job_main, [(f, k) for f in lib.FORMATS for k in ("garbage", "frames", "mixed")], "whole runs")
    c.run(job_lasso, [(w, sizes) for w in ws], "lassos")
