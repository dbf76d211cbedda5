"""C10: malformed messages of every supported number: all lengths, all contradicting counts and masks."""
import itertools

from . import lib, ref, rtcm as R, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("exhaustive enumeration of message lengths and contradicting counts/masks; products must be byte-identical "
        "to those of the stream without the malformed messages, and the error count exact")
BATCH = 60


def malformed(f):
    return ref.decode(f, True) is None


def lengths(num, step):
    """The message cut or extended to every payload length."""
    base = lib.good(num, 2 + SEED)[3:-3]
    for n in range(2, 1024, 1):
        if n > len(base) + 40 and (n + num) % step:
            continue
        if n <= len(base):
            yield R.frame(base[:n])
        else:
            yield R.frame(base + bytes(n - len(base)))
            if n < len(base) + 12 or n > 1018:
                yield R.frame(base + b"\xff" * (n - len(base)))


def strings(num):
    """All values of each length field."""
    if num == 1029:
        for real in (0, 1, 5, 100):
            for said in range(256):
                yield R.base_1029(5, 6, 7, said & 127, b"a" * real, said)
        return
    k = {1007: 1, 1008: 2, 1033: 5}[num]
    for real in (0, 3):
        for i in range(k):
            for said in range(256):
                w = R.BitW().put(num, 12).put(9, 12)
                for j in range(k):
                    w.put(said if i == j else real, 8)
                    for _ in range(real):
                        w.put(0x41, 8)
                    if j == 0:
                        w.put(3, 8)
                yield R.frame(w.bytes())


def counts(num):
    if num == 1013:
        for nm in range(32):
            for real in range(0, 34):
                items = [(2000 + i, i & 1, i) for i in range(real)]
                yield R.base_1013(1, 2, 3, nm, 4, items)
                if nm == 0:
                    f = R.base_1013(1, 2, 3, nm, 4, items)
                    for extra in (1, 2, 3):
                        yield R.frame(f[3:-3] + bytes(extra))
                        yield R.frame(f[3:-3][:-extra])
    elif num == 1230:
        for mask in range(16):
            for real in range(6):
                for extra in range(3):
                    f = R.base_1230(1, 0, mask, [7 * i for i in range(real)])
                    yield R.frame(f[3:-3] + bytes(extra))


def msm_raw(num, sats, sigs, cellbits, size, fill):
    """MSM payload with arbitrary masks, arbitrary size."""
    w = R.BitW().put(num, 12)
    for n, wd in R.MSM_HDR:
        w.put({"rs_id": 3, "time": 5000}.get(n, 0), wd)
    w.put(sum(1 << (64 - s) for s in sats), 64)
    w.put(sum(1 << (32 - s) for s in sigs), 32)
    if cellbits is not None:
        n = len(sats) * len(sigs)
        w.put(cellbits, n)
    b = w.bytes()
    return R.frame((b + bytes([fill]) * 1023)[:size])


def bits(num, nsat, nsig, ncell):
    _g, t = R.msm_of(num)
    return 169 + nsat * nsig + nsat * sum(x[2] for x in R.MSM_SAT[t]) + ncell * sum(x[2] for x in R.MSM_SGN[t])


def masks(num):
    g, _t = R.msm_of(num)
    sg = sorted(R.SIGNALS[g])
    # more than 64 cells
    for ns, nq in itertools.product(range(1, 65), range(1, len(sg) + 1)):
        if ns * nq > 64 and (ns * nq < 80 or (ns + nq) % 5 == 0 or ns == 64):
            ss, qq = list(range(1, ns + 1)), sg[:nq]
            for cb, nc in (((1 << ns * nq) - 1, ns * nq), (1, 1), (0, 0), (1 << (ns * nq - 1), 1)):
                b = (bits(num, ns, nq, nc) + 7) // 8
                if b <= 1023:
                    yield msm_raw(num, ss, qq, cb, b, 0x11)
            yield msm_raw(num, ss, qq, 1, 1023, 0)
    # satellites without signals, satellites without cells
    for ns in (1, 2, 3, 32, 64):
        ss = list(range(1, ns + 1))
        for extra in range(-2, 12):
            b = (bits(num, ns, 0, 0) + 7) // 8 + extra
            yield msm_raw(num, ss, [], None, b, 0)
            yield msm_raw(num, ss, [], None, b, 0xff)
        for nq in (1, 2, 3):
            if ns * nq <= 64 and nq <= len(sg):
                for extra in (-1, 0, 1, 2, 8):
                    b = (bits(num, ns, nq, 0) + 7) // 8 + extra
                    yield msm_raw(num, ss, sg[:nq], 0, b, 0)
    # no satellites, wrong length (with and without signals)
    for n in range(20, 60):
        yield msm_raw(num, [], sg[:1], None, n, 0)
        yield msm_raw(num, [], [], None, n, 0x5a)
    # masks contradicting the amount of data
    ss, qq = [2, 5, 9], sg[:2]
    for cb in range(64):
        nc = bin(cb).count("1")
        for claim in range(1, 7):
            if claim != nc:
                yield msm_raw(num, ss, qq, cb, (bits(num, 3, 2, claim) + 7) // 8, 0x33)
        for extra in (-2, -1, 1, 2):
            if nc:
                yield msm_raw(num, ss, qq, cb, (bits(num, 3, 2, nc) + 7) // 8 + extra, 0x33)
    for ns in range(1, 9):
        for nq in range(1, min(5, len(sg)) + 1):
            for dn, dq in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                if 0 < (ns + dn) and 0 < nq + dq:
                    b = (bits(num, ns + dn, nq + dq, (ns + dn) * (nq + dq)) + 7) // 8
                    yield msm_raw(num, list(range(1, ns + 1)), sg[:nq], (1 << ns * nq) - 1, b, 0x21)


def utf8_faults():
    """Byte strings that are no UTF-8 text."""
    for b in range(0x80, 0x100):
        for t in (bytes([b]), bytes([b, 0x41]), bytes([0x41, b]), bytes([b, 0x80]), bytes([b, b])):
            yield t
    for t in ("\xe9", "\u20ac", "\ud55c", "\U0001f6f0", "\U0010ffff"):
        e = t.encode()
        for i in range(len(e)):
            yield e[:i] + e[i + 1:]                  # a byte missing
            yield b"ab " + e[:i]                     # cut at the end
            yield e[:i] + b"A" + e[i:]
            yield e[:i] + b"\x00" + e[i + 1:]
            yield e[:i] + b"\xff" + e[i + 1:]
        yield e[::-1]
        yield e + e[-1:]
    for t in (b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf",
              b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\xa0\x80\xed\xb0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80",
              b"\xff\xfeA\x00", b"\xfe\xff\x00A", "\u041a".encode("cp1251"), "\u041a\u044d".encode("utf-16")):
        yield t
        yield b"A" * 30 + t
        yield t + b"A" * 30


def faults(num):
    """Well-formed layouts whose contents have no representation in scaled output."""
    if num in R.MSM_NUMS:
        g, _t = R.msm_of(num)
        sg = sorted(R.SIGNALS[g])
        for u in (x for x in range(1, 33) if x not in R.SIGNALS[g]):
            yield R.msm_fill(num, [3], [u], [(3, u)], 2)
            two = sorted((sg[0], u))
            yield R.msm_fill(num, [3, 5], two, [(3, two[0]), (3, two[1]), (5, two[1])], 3)
            yield R.msm_fill(num, [3, 5], two, [(3, sg[0]), (5, sg[0])], 4)          # undefined signal without cells
            yield R.msm_fill(num, [3, 5], two, [(3, u)], 5)
            more = sorted(set(sg[:3] + sg[-1:] + [u]))
            yield R.msm_fill(num, [1, 64], more, [(s, q) for s in (1, 64) for q in more], 6)
        und = [x for x in range(1, 33) if x not in R.SIGNALS[g]]
        yield R.msm_fill(num, [2], und, [(2, q) for q in und], 7)
        yield R.msm_fill(num, [2, 9], list(range(1, 33)), [(2, 1), (9, 32)], 8)
        return
    k = {1007: 1, 1008: 2, 1033: 5, 1029: 0}[num]
    for t in utf8_faults():
        if num == 1029:
            yield R.base_1029(5, 6, 7, len(t) & 127, t)
        for i in range(k):
            st = [b"ANT", b"S/N 1", b"RCV", b"fw", b"77"][:k]
            st[i] = t
            yield R.base_str(num, 11, 3, st)


def sentinels(num, n):
    """Well-formed neighbours: mostly the same number, and some others."""
    other = [1005, 1019, 1077, 1084, 1029]
    out = []
    for i in range(n):
        out.append(lib.good(num if i % 3 else other[i // 3 % 5], 20 + i))
    return out


class Rig:
    def __init__(self, acc, sc, num, fmt):
        self.acc, self.sc, self.num, self.fmt = acc, sc, num, fmt
        self.cfg = ref.Cfg(pretty=False)
        self.gold = {}

    def go(self, bad):
        acc = self.acc
        acc.transitions += len(bad)
        acc.traces += 1
        for b in bad:
            acc.state(self.fmt, b)
        d = self.diff(bad)
        if d is None:
            return
        for b in bad:
            d1 = self.diff([b])
            if d1 is not None:
                raise Violation(f"{self.fmt}: malformed {self.num} ({len(b) - 6} bytes payload): {d1}",
                                message=b, stream=b + sentinels(self.num, 2)[1], format=self.fmt,
                                ini=self.cfg.ini())
        raise Violation(f"{self.fmt}: malformed messages {self.num}: {d}",
                        stream=b"".join(bad), format=self.fmt, ini=self.cfg.ini())

    def diff(self, bad):
        n = len(bad)
        if n not in self.gold:
            s = sentinels(self.num, n)
            r = sut.convert(self.sc, b"".join(s), self.fmt, self.cfg)
            self.gold[n] = (s, r.files, r.progress(), r.verdict())
        s, files, pr, vd = self.gold[n]
        if not pr or pr[2]:
            return "well-formed messages alone do not convert cleanly"
        st = b"".join(itertools.chain.from_iterable(zip(bad, s))) + bad[0]
        try:
            r = sut.convert(self.sc, st, self.fmt, self.cfg)
        except sut.Crash as e:
            return f"run failed: {e}"
        if set(r.files) != set(files):
            return f"products {sorted(set(r.files) ^ set(files))[:4]} appeared or vanished"
        for p in files:
            if files[p] != r.files[p]:
                return f"{p}: contents changed by malformed messages"
        want = (pr[0] + n + 1, pr[1], n + 1, pr[3])
        if r.progress() != want:
            return f"statistics {r.progress()} instead of {want}"
        return None


def job(acc, num, fmt, what, step):
    gen = {"len": lambda: lengths(num, step), "str": lambda: strings(num), "cnt": lambda: counts(num),
           "msk": lambda: masks(num), "rep": lambda: faults(num)}[what]()
    with sut.Scratch() as sc:
        rig = Rig(acc, sc, num, fmt)
        buf = []
        for f in gen:
            if not (malformed(f) if what != "rep" else ref.decode(f, False) is None and ref.decode(f, True) is not None):
                acc.bump("well_formed_skipped")
                continue
            buf.append(f)
            if len(buf) == BATCH:
                rig.go(buf)
                buf = []
        if buf:
            rig.go(buf)
            acc.sample({"message": num, "what": what, "format": fmt, "frame": buf[-1].hex()[:100]}, 1)


def differ(acc, sc, good, mixed, nbad, fmt, cfg, what):
    """The products of the mixed stream must be those of its good messages."""
    g, st = b"".join(good), b"".join(mixed)
    a = sut.convert(sc, g, fmt, cfg, cpu=120)
    acc.state(fmt, cfg.key(), st)
    acc.transitions += len(mixed)
    acc.traces += 1
    pr = a.progress()
    if not pr or pr[2]:
        return
    try:
        r = sut.convert(sc, st, fmt, cfg, cpu=120)
    except sut.Crash as e:
        raise Violation(f"{fmt}: {what}: {e}", stream=st, format=fmt, ini=cfg.ini())
    d = None
    if set(a.files) != set(r.files):
        d = f"products {sorted(set(r.files) ^ set(a.files))[:4]} appeared or vanished"
    else:
        p = next((p for p in a.files if a.files[p] != r.files[p]), None)
        if p:
            d = f"{p}: contents changed by malformed messages"
        elif r.progress() != (pr[0] + nbad, pr[1], nbad, pr[3]):
            d = f"statistics {r.progress()} instead of {(pr[0] + nbad, pr[1], nbad, pr[3])}"
    if d:
        raise Violation(f"{fmt}: {what}: {d}", stream=st, format=fmt, ini=cfg.ini())


def take(num, fmt):
    return num in R.MSM_NUMS or fmt != "MARGO"


def job_cross(acc, num, fmt):
    """Each malformed form of a number before, between and after good messages of every number."""
    with sut.Scratch() as sc:
        goods = [lib.good(n, k) for k in (2, 5) for n in R.ALL_NUMS]
        own = [lib.good(num, k) for k in range(1, 4)]
        bads = [f for _w, f in lib.malformed(num) if malformed(f)]
        for i, b in enumerate(bads):
            cfg = ref.Cfg(pretty=False, hca=True, lt=True) if i % 2 else ref.Cfg(hdr=False, aux=False)
            g = goods[i:] + goods[:i]
            differ(acc, sc, g, [x for f in g for x in (b, f)] + [b], len(g) + 1, fmt, cfg,
                   f"malformed {num} between all messages")
            for g2, m in ((own, [b] + own), (own, own + [b]), (own, own[:1] + [b, b] + own[1:]), ([], [b]), ([], [b] * 3)):
                differ(acc, sc, g2, m, len(m) - len(g2), fmt, cfg, f"malformed {num} among its own")
        for i, b in enumerate(bads):
            for j, b2 in enumerate(bads):
                differ(acc, sc, own, own[:1] + [b, b2] + own[1:2] + [b2, b] + own[2:], 4, fmt, ref.Cfg(pretty=False),
                       f"two malformed {num} in a row")


def job_tour(acc, fmt, k):
    """Every ordered pair (malformed of one number, good of another): a tour over all of them."""
    cfg = ref.Cfg(pretty=False, hca=k % 2 == 0, lt=True)
    nums = [n for n in R.ALL_NUMS if take(n, fmt)]
    with sut.Scratch() as sc:
        good, mixed, nb = [], [], 0
        for i, a in enumerate(nums):
            m = [f for _w, f in lib.malformed(a) if malformed(f)]
            for j, b in enumerate(nums):
                g = lib.good(b, 1 + (i + j) % 7)
                good.append(g)
                mixed += [m[(k + j) % len(m)], g]
                nb += 1
        differ(acc, sc, good, mixed, nb, fmt, cfg, "tour of malformed and good messages")
        differ(acc, sc, good[::-1], mixed[::-1], nb, fmt, cfg, "tour of malformed and good messages, backwards")


def job_volume(acc, num, fmt, count):
    """Very many malformed messages of a number, then good ones."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        own = [lib.good(num, k) for k in range(1, 4)] + [lib.good(n, 3) for n in (1005, 1019, 1077, 1084) if take(n, fmt)]
        bads = sorted((f for _w, f in lib.malformed(num) if malformed(f)), key=len)[:4]
        m = [bads[i % len(bads)] for i in range(count)]
        differ(acc, sc, own, m + own, count, fmt, cfg, f"{count} malformed {num} before good ones")
        differ(acc, sc, own + own, own + m + own, count, fmt, cfg, f"{count} malformed {num} between good ones")


def run(c):
    step = pick(16, 1)
    c.bounds = {"lengths": "payload lengths 2..layout+40 and " + pick("every 16th", "every") + " length up to 1023",
                "strings": "all 256 values of each length field", "1013": "all 32 counts x 0..33 entries",
                "1230": "16 masks x 0..5 values", "MSM": "all shapes above 64 cells (quick: dense near 64), no "
                "cells, no signals, all 64 cell masks of 3x2 against every wrong data amount",
                "contents": "every signal number not defined for its GNSS, alone and beside defined ones; every byte "
                "80..FF in five positions and every broken, overlong, cut or surrogate UTF-8 sequence of each length"}
    jobs = []
    for n in R.ALL_NUMS:
        fm = ("JSON", "JSON-B")
        if n in R.MSM_NUMS:
            fm = ("JSON", "JSON-B", "MARGO") if pick(n % 10 in (1, 3, 4, 7), True) else ("JSON-B", "JARGO")
        for f in fm:
            jobs.append((n, f, "len", step))
            if n in (1007, 1008, 1029, 1033):
                jobs.append((n, f, "str", step))
            if n in (1013, 1230):
                jobs.append((n, f, "cnt", step))
            if n in R.MSM_NUMS:
                jobs.append((n, f, "msk", step))
        if n in R.MSM_NUMS or n in (1007, 1008, 1029, 1033):
            jobs += [(n, f, "rep", step) for f in ("JSON", "JARGO", "MARGO") if f != "MARGO" or n in R.MSM_NUMS]
    c.run(job, jobs, "malformed messages")
    fx = lambda n: [f for f in (("JSON", "JSON-B") if n not in R.MSM_NUMS else pick((("MARGO", "JSON", "JSON-B", "JARGO")[n % 4],), lib.FORMATS))]  # noqa: E731
    c.run(job_cross, [(n, f) for n in R.ALL_NUMS for f in fx(n)], "cross")
    c.run(job_tour, [(f, k) for f in lib.FORMATS for k in range(pick(2, 8))], "tours")
    c.run(job_volume, [(n, f, pick(4200, 9000)) for n in R.ALL_NUMS for f in fx(n)], "volume")
