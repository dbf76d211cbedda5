"""C20: statistics, last progress line and final verdict for all sequences of pieces, with and without output failures."""
import errno
import itertools
import os

from . import faults, lib, ref, rtcm as R, runs, scanx as S, sut
from .core import Violation, pick

LEVEL = "model_checking"
NOTE = ("all sequences of good/malformed/unsupported/damaged/garbage pieces in every format, at every chunk boundary, "
        "with every subset of unwritable products and every failing source read; counts and verdict against the model")

EPH, BASE, M4, M2 = 1019, 1006, 1074, 1072
SMALL = dict(sats=[3, 7], sigs=[2])


def piece(t, i):
    if t == "g":
        return lib.good((EPH, 1020, 1042)[i % 3], 3 + i)
    if t == "b":
        return lib.good((BASE, 1005)[i % 2], 5 + i)
    if t == "m":
        return lib.good((M4, 1087)[i % 2], 2 + i, **SMALL)
    if t == "n":
        return lib.good((M2, 1093)[i % 2], 2 + i, **SMALL)
    if t == "G":
        return lib.bad(EPH)
    if t == "M":
        return lib.bad((M4, M2)[i % 2])
    if t == "B":
        return lib.bad(1033)
    if t == "u":
        return lib.unsupported(i)
    if t == "x":
        return S.bad(lib.good(BASE, 9 + i))
    if t == "z":
        return b"z\xd3z"
    if t == "c":
        return lib.good(BASE, 4 + i)[:-5]
    if t == "f":
        return S.false_start(1023 - i)
    raise KeyError(t)


ALPHA = "gbmnGMBuxzcf"


def verdict_of(r):
    return r.last_line()


def want_verdict(err):
    return "Finished with errors." if err else "Finished without errors."


def check_log(r, want, what, **kw):
    if r.log is None:
        raise Violation(f"{what}: no log", **kw)
    ll = r.last_line()
    w = want_verdict(any(want[1:]))
    if not ll.endswith(w):
        raise Violation(f"{what}: the log ends with {ll!r} instead of {w!r}", log=r.logtext[-500:], **kw)
    other = want_verdict(not any(want[1:]))
    if other in r.logtext:
        raise Violation(f"{what}: the log contains {other!r}", log=r.logtext[-500:], **kw)
    p = r.progress()
    if p is None:
        if any(want):
            raise Violation(f"{what}: no progress line", log=r.logtext[-500:], **kw)
    elif p != want:
        raise Violation(f"{what}: last progress line shows {p} instead of {want} "
                        "(messages, parsing, decoding, printing errors)", log=r.logtext[-500:], **kw)


def job_api(acc, prefix, depth, fmt):
    """Counts of the converter object for all piece sequences."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        box = sut.boxed(sc, cfg)
        for k in range(depth - len(prefix) + 1):
            for rest in itertools.product(ALPHA, repeat=k):
                seq = prefix + rest
                st = b"".join(piece(t, i) for i, t in enumerate(seq))
                api_one(acc, sc, box, st, fmt, "pieces " + "".join(seq))
        acc.sample({"pieces": "".join(seq), "format": fmt}, 1)


def api_one(acc, sc, box, st, fmt, what):
    cv, d = sut.converter(sc, fmt, box)
    fr, pe = ref.scan(st)
    n = dec = err = 0
    with sut.guard(30):
        msgs = cv.parse_bytes(st) + cv.flush()
        for m in msgs:
            sup = ref.supported(ref.number(m), fmt)
            x = cv.decode(m)
            n += sup
            if x is None:
                err += sup
            else:
                dec += 1
                cv.print(x)
            s = cv.get_statistics()
            got = (s.decoding_attempts, s.decoding_errors, s.printing_attempts, s.printing_errors)
            if got != (n, err, dec, 0):
                raise Violation(f"{fmt}, {what}: after {n} supported messages, {err} failed and {dec} printed, the "
                                f"statistics are {got}", stream=st)
        s = cv.get_statistics()
        cv.release()
        e = cv.get_statistics()
    if s != e:
        raise Violation(f"{fmt}, {what}: release changed the statistics from {s} to {e}", stream=st)
    if s.parsing_errors != pe:
        raise Violation(f"{fmt}, {what}: {s.parsing_errors} parsing errors instead of {pe}", stream=st)
    acc.state(fmt, st)
    acc.transitions += len(fr)
    acc.traces += 1


def job_log(acc, seqs, fmt):
    """Log of main()."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        for seq in seqs:
            st = b"".join(piece(t, i) for i, t in enumerate(seq))
            e = ref.Products.of_stream(st, fmt, cfg)
            r = sut.convert(sc, st, fmt, cfg)
            check_log(r, (e.attempts, e.parse_errors, e.dec_errors, 0), f"{fmt}, pieces {''.join(seq)}", stream=st)
            acc.state("log", fmt, st)
            acc.transitions += len(seq)
            acc.traces += 1


def filler(n):
    """n bytes of whole frames of an unsupported number."""
    out = b""
    while n:
        k = min(n, 1000)
        if 0 < n - k < 8:
            k -= 8
        out += R.frame(R.BitW().put(4095, 12).put(1, 4).bytes().ljust(k - 6, b"\1"))
        n -= k
    return out


def job_chunks(acc, t, shifts):
    """A single piece at every place around a boundary of the blocks read from the file, and at the very end."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        for sh in shifts:
            for tail in (b"", lib.good(BASE, 1), piece("c", 1)):
                st = lib.good(BASE, 8) + filler(sh) + piece(t, 0) + tail
                for fmt in ("MARGO", "JSON"):
                    e = ref.Products.of_stream(st, fmt, cfg)
                    r = sut.convert(sc, st, fmt, cfg)
                    check_log(r, (e.attempts, e.parse_errors, e.dec_errors, 0),
                              f"{fmt}, piece {t} after {len(st)} bytes", stream=st[:200])
                    acc.state("chunk", t, sh, tail, fmt)
                    acc.transitions += 3
                    acc.traces += 1


def job_blocked(acc, seqs, fmt):
    """Every subset of products that cannot be created: messages needing one of them are printing errors."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        sc.put("defaults.ini", cfg.ini())
        for seq in seqs:
            st = b"".join(piece(t, i) for i, t in enumerate(seq))
            e = ref.Products.of_stream(st, fmt, cfg)
            fs = sorted(e.files())
            need = [set(p[1]) if p[0] == "obs" else {p[1]} for p in e.per_frame if p]
            groups = [{f} for f in fs] + [{f for f in fs if os.path.dirname(f) == d}
                                          for d in sorted({os.path.dirname(f) for f in fs})] + [set(fs)]
            for blk in groups:
                bad = {f"s/a-{fmt}/{f}" for f in blk}

                def decide(kind, path, n):
                    if kind.startswith("open-") and path in bad:
                        return faults.oserror(errno.EACCES, path)

                sc.clean()
                p = sc.put("s/a.rtcm3", st)
                with faults.Faults(sc.path, decide) as f:
                    sut.main(["-o", fmt, p], argv=True)
                r = sut.Result(os.path.join(sc.src, "a-" + fmt), "a")
                if not f.fired:
                    acc.bump("not_intercepted")
                    continue
                pe = sum(1 for q in need if q & blk)
                check_log(r, (e.attempts, e.parse_errors, e.dec_errors, pe),
                          f"{fmt}, pieces {''.join(seq)}, {sorted(blk)[:3]} cannot be created", stream=st)
                acc.bump("blocked", f.fired)
                acc.state("blk", fmt, st, sorted(blk))
                acc.transitions += len(seq)
                acc.traces += 1


def job_obstacle(acc, fmt):
    """Real obstacles (a file in place of a folder, a folder in place of a file) through the converter object."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        box = sut.boxed(sc, cfg)
        for seq in itertools.product("gbmnGM", repeat=pick(4, 5)):
            st = b"".join(piece(t, i) for i, t in enumerate(seq))
            e = ref.Products.of_stream(st, fmt, cfg)
            fs = sorted(e.files())
            if not fs:
                continue
            need = [set(p[1]) if p[0] == "obs" else {p[1]} for p in e.per_frame if p]
            tgt = fs[sum(map(ord, seq)) % len(fs)]
            for whole in (True, False):
                cv, d = sut.converter(sc, fmt, box)
                dn = os.path.dirname(tgt)
                if whole:
                    sc.put(os.path.join(d, dn), b"")
                    blk = {f for f in fs if os.path.dirname(f) == dn}
                else:
                    os.makedirs(os.path.join(d, tgt))
                    blk = {tgt}
                with sut.guard(30):
                    for m in cv.parse_bytes(st) + cv.flush():
                        x = cv.decode(m)
                        if x is not None:
                            cv.print(x)
                    s = cv.get_statistics()
                    cv.release()
                pe = sum(1 for q in need if q & blk)
                got = (s.decoding_attempts, s.decoding_errors, s.printing_attempts, s.printing_errors)
                want = (e.attempts, e.dec_errors, e.prints, pe)
                if got != want:
                    raise Violation(f"{fmt}, pieces {''.join(seq)}, obstacle at {dn if whole else tgt}: statistics {got} "
                                    f"instead of {want}", stream=st)
                acc.state("obst", fmt, st, whole)
                acc.transitions += len(seq)
                acc.traces += 1


def job_terminated(acc, fmt):
    """The source cannot be opened or read to its end: a termination message, never a 'Finished' line."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        sc.put("defaults.ini", cfg.ini())
        for blocks in range(0, 5):
            for tail in ("", "b", "G", "x", "c"):
                st = b"".join(piece(t, i) for i, t in enumerate(tail))
                st = st + filler(4096 * blocks) if blocks else st
                rec = record(sc, st, fmt)
                for op in rec:
                    for code in (errno.EIO, errno.ENOENT, errno.EACCES):
                        def decide(kind, path, n, op=op, code=code):
                            if (kind, path, n) == op:
                                return faults.oserror(code, path)

                        sc.clean()
                        p = sc.put("s/a.rtcm3", st)
                        with faults.Faults(sc.path, decide) as f:
                            sut.main(["-o", fmt, p], argv=True)
                        if not f.fired:
                            continue
                        r = sut.Result(os.path.join(sc.src, "a-" + fmt), "a")
                        if "ok" in r.verdict() or "errors" in r.verdict() or "terminated" not in r.last_line():
                            raise Violation(f"{fmt}: {op[0]} {op[2]} of the source fails, the log ends with "
                                            f"{r.last_line()!r}", log=r.logtext[-500:])
                        acc.state("term", fmt, st, op, code)
                        acc.transitions += 1
                        acc.traces += 1


def record(sc, st, fmt):
    sc.clean()
    p = sc.put("s/a.rtcm3", st)
    with faults.Faults(sc.path) as f:
        sut.main(["-o", fmt, p], argv=True)
    return [o for o in f.ops if o[1] == "s/a.rtcm3" and (o[0] == "read" or o[0].startswith("open-"))]


def job_multi(acc, fmt, part):
    """Statistics start at zero for every source of a run."""
    cfg = ref.Cfg(pretty=False)
    words = ["", "b", "Gb", "bxb", "mMz", "u", "bzm"]
    with sut.Scratch() as sc:
        sc.put("defaults.ini", cfg.ini())
        for n, ws in enumerate(itertools.product(words, repeat=3)):
            if n % 4 != part:
                continue
            sc.clean()
            sts = [b"".join(piece(t, i) for i, t in enumerate(w)) for w in ws]
            ps = [sc.put(f"s/{c}.rtcm3", s) for c, s in zip("abc", sts)]
            sut.main(["-o", fmt] + ps, argv=True)
            for c, s, w in zip("abc", sts, ws):
                e = ref.Products.of_stream(s, fmt, cfg)
                check_log(sut.Result(os.path.join(sc.src, f"{c}-{fmt}"), c),
                          (e.attempts, e.parse_errors, e.dec_errors, 0),
                          f"{fmt}, sources {ws}, source {c}", stream=s)
            acc.state("multi", fmt, ws)
            acc.transitions += 3
            acc.traces += 1


def job_numbers(acc, nums, fmt):
    """Every message number alone and between others; every malformed shape of every supported number: counts and verdict."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        box = sut.boxed(sc, cfg)
        g = lib.good(EPH if fmt != "MARGO" else M4, 3)
        for num in nums:
            if num in R.ALL_NUMS:
                cand = [("good", lib.good(num, 3))] + lib.malformed(num)
            else:
                cand = [(f"{n} bytes", R.frame(R.BitW().put(num, 12).put(5, 4).bytes().ljust(n, b"\x11")))
                        for n in (2, 30)]
            for d, f in cand:
                for st in (f, g + f + g):
                    api_one(acc, sc, box, st, fmt, f"number {num} ({d})")
                if num in R.ALL_NUMS:
                    log_one(acc, sc, f + g, fmt, cfg, f"number {num} ({d})")
            sc.clean()
        if nums[0] not in R.ALL_NUMS:
            st = b"".join(R.frame(R.BitW().put(n, 12).put(5, 4).bytes().ljust(20, b"\x11")) for n in nums)
            log_one(acc, sc, st, fmt, cfg, f"{len(nums)} unsupported numbers")


def log_one(acc, sc, st, fmt, cfg, what):
    e = ref.Products.of_stream(st, fmt, cfg)
    r = sut.convert(sc, st, fmt, cfg)
    check_log(r, (e.attempts, e.parse_errors, e.dec_errors, 0), f"{fmt}, {what}", stream=st)
    acc.state("log", fmt, st)
    acc.transitions += 1
    acc.traces += 1


def job_volume(acc, fmt, word, n):
    """Very many pieces: counts beyond 2^16."""
    cfg = ref.Cfg(pretty=False)
    fs = [piece(t, i) for i, t in enumerate(word)]
    st = b"".join(fs)
    e1, e2 = (ref.Products.of_stream(st * k, fmt, cfg) for k in (2, 3))
    with sut.Scratch() as sc:
        r = sut.convert(sc, st * n, fmt, cfg, cpu=300)
        want = tuple(getattr(e1, a) + (n - 2) * (getattr(e2, a) - getattr(e1, a)) for a in ("attempts", "parse_errors", "dec_errors"))
        check_log(r, want + (0,), f"{fmt}, pieces ({word}) x {n}", stream=st)
        acc.state("volume", fmt, word, n)
        acc.transitions += n * len(word)
        acc.traces += 1


COUNTS = sorted(set(range(1, 261)) | {x + d for x in (300, 384, 512, 768, 1000, 1024, 2048, 4096) for d in (-1, 0, 1)})


def job_counts(acc, kind, fmt, counts):
    """Exact numbers of errors of one kind or mixed ones: counts and verdict."""
    cfg = ref.Cfg(pretty=False)
    eph = lib.bad(EPH) if fmt != "MARGO" else lib.bad(M4)
    b = lib.good(BASE, 4)
    x = lib.good(M2, 3, sats=[3], sigs=[2]) if fmt == "MARGO" else lib.good(EPH, 3)
    bad = {f"s/a-{fmt}/{f}" for f in ref.Products.of_stream(x, fmt, cfg).files()} if kind in ("printing", "all") else set()

    def decide(k, path, _n):
        if k.startswith("open-") and path in bad:
            return faults.oserror(errno.EACCES, path)

    with sut.Scratch() as sc:
        sc.put("defaults.ini", cfg.ini())
        for n in counts:
            pe = n if kind == "parsing" else n // 3 if kind == "all" else n // 2 if kind == "mixed" else 0
            pr = n if kind == "printing" else n // 3 if kind == "all" else 0
            de = n - pe - pr
            st = b + (b"z" + b) * pe + eph * de + x * pr
            e = ref.Products.of_stream(b + eph + x, fmt, cfg)
            sup = ref.Products.of_stream(b, fmt, cfg).attempts
            sc.clean()
            p = sc.put("s/a.rtcm3", st)
            if bad:
                with faults.Faults(sc.path, decide):
                    sut.main(["-o", fmt, p], argv=True, cpu=200)
            else:
                sut.main(["-o", fmt, p], argv=True, cpu=200)
            assert e.dec_errors == 1
            check_log(sut.Result(os.path.join(sc.src, "a-" + fmt), "a"), (sup * (pe + 1) + de + pr, pe, de, pr),
                      f"{fmt}, {pe} gaps, {de} malformed messages, {pr} messages without product", stream=st[:300])
            acc.state("counts", fmt, kind, n)
            acc.transitions += n
            acc.traces += 1


def job_rare(acc, fmt, t, counts):
    """One erroneous piece among very many good ones, at the beginning, in the middle and at the end."""
    cfg = ref.Cfg(pretty=False)
    g = lib.good(M4 if fmt == "MARGO" else BASE, 3, **(SMALL if fmt == "MARGO" else {}))
    x = piece(t, 1) if t != "p" else lib.good(1077 if fmt == "MARGO" else EPH, 3, **(dict(sats=[3], sigs=[2]) if fmt == "MARGO" else {}))
    with sut.Scratch() as sc:
        sc.put("defaults.ini", cfg.ini())
        for n in counts:
            for a in sorted({0, 1, n // 2, n - 1, n}):
                st = g * a + x + g * (n - a)
                small = ref.Products.of_stream(g * min(a, 2) + x + g * min(n - a, 2), fmt, cfg)
                more = n - min(a, 2) - min(n - a, 2)
                bad = set() if t != "p" else {f"s/a-{fmt}/{f}" for f in ref.Products.of_stream(x, fmt, cfg).files()}

                def decide(kind, path, _n):
                    if kind.startswith("open-") and path in bad:
                        return faults.oserror(errno.EACCES, path)

                sc.clean()
                p = sc.put("s/a.rtcm3", st)
                if bad:
                    with faults.Faults(sc.path, decide):
                        sut.main(["-o", fmt, p], argv=True, cpu=200)
                else:
                    sut.main(["-o", fmt, p], argv=True, cpu=200)
                r = sut.Result(os.path.join(sc.src, "a-" + fmt), "a")
                check_log(r, (small.attempts + more, small.parse_errors, small.dec_errors, 1 if bad else 0),
                          f"{fmt}, piece {t} after {a} and before {n - a} good messages", stream=st[:300])
                acc.state("rare", fmt, t, n, a)
                acc.transitions += n
                acc.traces += 1


def run(c):
    d = pick(4, 5)
    dl = pick(3, 4)
    c.bounds = {"pieces": f"{ALPHA}: good eph/base/MSM4+/MSM1-3, malformed eph/MSM/base, unsupported, CRC error, "
                          "garbage, truncated, long false start", "API": f"all sequences up to {d}", "logs": f"all sequences up to {dl}",
                "numbers": "all 4096, malformed in up to 17 ways",
                "volume": "up to 132000 pieces in one run",
                "error counts": "every count 1..260 and around 512, 1000, 1024, 4096 (65536), of each kind and mixed",
                "rare": f"one error of 6 kinds among 3..{pick(5000, 20000)} good messages, 5 places",
                "formats": lib.FORMATS, "unwritable products": "each file, each folder, all",
                "source faults": "every open and read of files of 0..4 blocks"}
    c.run(job_api, [((), 1, f) for f in lib.FORMATS] + [((a, b), d, f) for a in ALPHA for b in ALPHA
                                                        for f in lib.FORMATS], "converter statistics")
    seqs = [s for k in range(dl + 1) for s in itertools.product(ALPHA, repeat=k)]
    other = [n for n in range(4096) if n not in R.ALL_NUMS]
    c.run(job_numbers, [([n], f) for n in R.ALL_NUMS for f in lib.FORMATS] +
          [(other[i::16], f) for i in range(16) for f in lib.FORMATS], "all numbers")
    c.run(job_volume, [(f, w, pick(k, 3 * k)) for f in ("JSON", "MARGO") for w, k in (("GBMu", 20000), ("bBx", 33000),
                                                                               ("bz", 66000), ("m", 4200), ("uM", 66000))],
          "very many pieces")
    c.run(job_rare, [(f, t, cs) for f in ("MARGO", "JSON") for t in "GMBxzp" if not (f == "MARGO" and t in "GB")
                     for cs in ([3, 20, 99, 100, 101], [150, 333], [500, 501], [1000], pick([5000], [5000, 20000]))], "one error among many")
    c.run(job_counts, [(k, f, COUNTS[i::4] + ([65536, 65537] if i == 0 and k in ("parsing", "decoding") else []))
                       for k in ("decoding", "parsing", "printing", "mixed", "all") for f in ("JSON", "MARGO") for i in range(4)], "error counts")
    c.run(job_log, [(seqs[i::8], f) for i in range(8) for f in lib.FORMATS], "logs")
    sh = pick(list(range(4030, 4106, 3)) + [8192 - 100, 8192], list(range(4000, 4200)) + list(range(8150, 8200)))
    c.run(job_chunks, [(t, sh) for t in "bGxzcu"], "block boundaries")
    bl = [s for k in range(1, pick(4, 5)) for s in itertools.product("gbmnGz", repeat=k)]
    c.run(job_blocked, [(bl[i::8], f) for i in range(8) for f in lib.FORMATS], "unwritable products")
    c.run(job_obstacle, [(f,) for f in lib.FORMATS], "obstacles")
    c.run(job_terminated, [(f,) for f in lib.FORMATS], "terminated")
    c.run(job_multi, [(f, i) for f in lib.FORMATS for i in range(4)], "several sources")
