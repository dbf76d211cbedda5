"""Exploration of the frame scanner (C01-C04): stream alphabets and trace execution."""
import functools
import itertools

from . import lib, ref, rtcm as R, sut
from .core import Violation, pick


def payload(tag, n):
    """n payload bytes without 0xD3, distinguished by tag; message number unsupported."""
    b = bytes([0x3A, 0x10 | (tag & 0xF), (tag >> 4) & 0x7F]) + bytes(
        (i * 7 + tag * 3) % 200 for i in range(max(0, n - 3)))
    return b[:n]


def fr(tag, n=4):
    return R.frame(payload(tag, n))


def bad(f, k=1):
    """Frame with a wrong CRC."""
    return f[:-1] + bytes([f[-1] ^ k])


def false_start(n):
    return bytes([0xD3, n >> 8 & 3, n & 255])


F0 = R.frame(b"")


def tokens(i):
    """Stream pieces; i makes the pieces of one stream distinguishable."""
    g = fr(i, 4)
    nest = fr(i + 100, 2)
    return [
        ("G", g),
        ("E", F0),
        ("d3", b"\xd3"),
        ("00", b"\x00"),
        ("x", bytes([0x41 + i])),
        ("bad", bad(g)),
        ("cut", g[:6]),
        ("tail", g[5:]),
        ("f9", false_start(9)),
        ("f1023", false_start(1023)),
        ("d3fc", b"\xd3\xfc"),
        ("nest", R.frame(payload(i, 3) + nest)),
        ("badnest", bad(R.frame(payload(i, 3) + nest))),
    ]


def token_streams(depth, prefix=()):
    """All sequences of exactly len(prefix)..depth tokens starting with the given prefix."""
    n = len(tokens(0))
    for k in range(0, depth - len(prefix) + 1):
        for rest in itertools.product(range(n), repeat=k):
            yield tuple(prefix) + rest


def build(seq):
    return b"".join(tokens(i)[t][1] for i, t in enumerate(seq))


def names(seq):
    return " ".join(tokens(i)[t][0] for i, t in enumerate(seq))


class Rig:
    """Fresh converters over one scratch folder, under one guard."""

    def __init__(self):
        self.sc = sut.Scratch()

    def __enter__(self):
        self.sc.__enter__()
        self.box = sut.boxed(self.sc, ref.Cfg())
        self.make = sut.load().ct.ConverterFactory
        self.g = sut.guard(20)
        self.g.__enter__()
        self.n = 0
        return self

    def __exit__(self, *a):
        self.g.__exit__(*a)
        self.sc.__exit__(*a)

    def new(self):
        self.n += 1
        if self.n % 64 == 0:
            self.g.arm()
        return self.make("MARGO")(self.sc.path, self.box)

    def feed(self, stream, cuts=None, flush=True):
        """(messages, parse errors); the stream is cut into chunks of the given sizes."""
        cv = self.new()
        out = []
        if cuts is None:
            out += cv.parse_bytes(stream)
        else:
            p = 0
            for k in cuts:
                out += cv.parse_bytes(stream[p:p + k])
                p += k
            if p < len(stream):
                out += cv.parse_bytes(stream[p:])
        if flush:
            out += cv.flush()
        return [bytes(m) for m in out], cv.get_statistics().parsing_errors


def locate(stream, msgs):
    """Positions of the messages as disjoint slices in stream order, or index of the first misfit."""
    pos, p = [], 0
    for i, m in enumerate(msgs):
        q = stream.find(m, p) if m else -1
        if q < 0:
            return i
        pos.append(q)
        p = q + len(m)
    return pos


@functools.lru_cache(1 << 16)
def genuine(m):
    return (len(m) >= 6 and m[0] == 0xD3 and m[1] & 0xFC == 0
            and len(m) == ((m[1] & 3) << 8 | m[2]) + 6
            and R.crc24q(m[:-3]) == int.from_bytes(m[-3:], "big"))


def valid_at(stream, p):
    """Length of the correct frame starting at p, or 0."""
    if p + 6 > len(stream) or stream[p] != 0xD3 or stream[p + 1] & 0xFC:
        return 0
    n = ((stream[p + 1] & 3) << 8 | stream[p + 2]) + 6
    return n if p + n <= len(stream) and genuine(stream[p:p + n]) else 0


def check_sound(stream, msgs, what):
    """C01"""
    for m in msgs:
        if not genuine(m):
            raise Violation(f"{what}: extracted {m.hex()[:80]} which is not a correct frame",
                            stream=stream)
    loc = locate(stream, msgs)
    if isinstance(loc, int):
        raise Violation(f"{what}: extracted message {loc} is not a later, disjoint slice of the stream",
                        stream=stream, messages=[m.hex()[:200] for m in msgs[:20]])


def check_complete(stream, msgs, what):
    """C03"""
    pos, p = [], 0
    for m in msgs:
        q = stream.find(m, p) if m else -1
        if q < 0:
            continue
        pos.append((q, q + len(m)))
        p = q + len(m)
    starts = {a for a, _b in pos}
    p, k = stream.find(b"\xd3"), 0
    while p >= 0:
        n = valid_at(stream, p)
        if n and p not in starts and not any(a < p < b for a, b in pos):
            raise Violation(f"{what}: the correct frame at byte {p} (length {n}) was not extracted",
                            stream=stream, extracted_at=[a for a, _b in pos][:50])
        p = stream.find(b"\xd3", p + 1)
        k += 1
    return len(pos)


def gaps(stream, msgs, greedy=True):
    """Gap count of the leftmost placement, or the set of counts of all placements."""
    if greedy:
        loc = locate(stream, msgs)
        if isinstance(loc, int):
            return None
        n, end = 0, None
        for q, m in zip(loc, msgs):
            if end is not None and q != end:
                n += 1
            end = q + len(m)
        return n
    st = {(None, 0)}
    for m in msgs:
        nx = set()
        for end, n in st:
            q = stream.find(m, end or 0)
            while q >= 0:
                nx.add((q + len(m), n + (end is not None and q != end)))
                q = stream.find(m, q + 1)
        st = nx
    return {n for _e, n in st}


def check_gaps(stream, msgs, errs, what):
    """C04"""
    n = gaps(stream, msgs)
    if n is not None and n != errs and errs not in gaps(stream, msgs, False):
        raise Violation(f"{what}: {errs} parsing errors reported, {n} gaps between extracted frames",
                        stream=stream)
    return n


def sat_frame(i):
    """Small supported messages with pairwise different content (1005, then 1006 ...)."""
    return lib.good((1005, 1006, 1019, 1045)[i % 4], i + 1)


COUNTS = sorted(set(range(1, 41)) | {50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 199, 200, 255, 256, 257, 258, 300, 500, 511, 512,
                                     513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001})
HUGE = (32768, 65535, 65536, 65537, 70000)


def histories():
    """What the scanner may have seen before: kinds of pieces that are repeated n times."""
    a, b = fr(1, 4), fr(2, 7)
    return {"good frames": a, "good frames, a gap after each": a + b"zz", "damaged frames": bad(a), "empty frames": F0,
            "good and damaged frames": a + bad(b), "one-byte frames": fr(3, 1), "false starts and frames": false_start(9) + b,
            "reserved bits set": R.frame(payload(4, 4), 1)}


def afters():
    """What comes next: damaged or misleading pieces."""
    g = fr(33, 9)
    return {"nothing": b"", "wrong CRC": bad(g), "wrong CRC byte 1": g[:-3] + bytes([g[-3] ^ 0x40]) + g[-2:], "CRC zero": g[:-3] + b"\0\0\0",
            "payload bit wrong": g[:7] + bytes([g[7] ^ 16]) + g[8:], "message number wrong": g[:3] + bytes([g[3] ^ 1]) + g[4:],
            "length one less": g[:2] + bytes([g[2] - 1]) + g[3:], "length one more": g[:2] + bytes([g[2] + 1]) + g[3:],
            "reserved bits": g[:1] + b"\x04" + g[2:], "reserved bits, CRC right": R.frame(payload(35, 9), 1),
            "preamble wrong": b"\xd2" + g[1:], "byte lost": g[:8] + g[9:], "cut": g[:9], "false start": false_start(40), "gap": b"zz",
            "empty frame": F0, "bad empty frame": bad(F0), "D3": b"\xd3", "D3 00": b"\xd3\0", "D3 FC": b"\xd3\xfc"}


def cuttings(n):
    """Chunkings of n bytes: whole, uniform, all two-way cuts."""
    yield None
    for k in (1, 2, 3, 5, 7, 11):
        if k < n:
            yield [k] * (n // k)
    for k in range(1, n):
        yield [k]


def history_streams(kinds, counts):
    """(what, stream, chunking): n pieces of a kind, then every follow-up, then frames."""
    hs, af = histories(), afters()
    for kind in kinds:
        for n in counts:
            pre = hs[kind] * n
            for nm, x in af.items():
                if n > 3000 and nm not in pick(("wrong CRC", "payload bit wrong", "false start"), tuple(af)):
                    continue
                st = pre + x + fr(40, 5) + fr(41, 0) + b"x" + fr(42, 6)
                cuts = (None, [len(pre)], [len(pre) + len(x)], [7] * (len(st) // 7)) if len(st) < 1500 else \
                    ([4096] * (len(st) // 4096),) + (() if len(st) > 20000 else ([len(pre)], [1021] * (len(st) // 1021)))
                for c in cuts:
                    yield f"{n} x {kind}, then {nm}", st, c


def forced(head, crc, reserved=0):
    """The frame with payload head + 3 chosen bytes whose checksum is the given one."""
    n = len(head) + 3
    h = bytes([0xD3, reserved << 2 | n >> 8, n & 255]) + head
    v = crc
    for _ in range(24):
        v = (v ^ 0x1864CFB) >> 1 | 0x800000 if v & 1 else v >> 1
    f = h + (v ^ R.crc24q(h)).to_bytes(3, "big") + crc.to_bytes(3, "big")
    assert genuine(f) or reserved
    return f


def special_crcs():
    """Checksum values of every byte at every place, and misleading ones."""
    out = {0, 0xFFFFFF, 0xD30000, 0x00D300, 0x0000D3, 0xD3D3D3, 0xD3FFFF, 0x0D0A00, 0x000D0A, 0x800000, 1, 0x7FFFFF}
    for b in range(256):
        out |= {b << 16 | 0x5A5A, b << 8 | 0x5A005A, b | 0x5A5A00}
    return sorted(out)


def crc_streams(crcs):
    """Frames with chosen checksums, alone and among others."""
    a, b = fr(21, 5), fr(22, 6)
    for c in crcs:
        for n in (2, 6, 40):
            x = forced(payload(17, n), c)
            for st in (x, a + x + b, x + x + b, b"zz" + x + b"z" + b, bad(a) + x + bad(b) + b):
                yield f"checksum {c:06x}, payload length {n + 3}", st


def overlap_streams(ks):
    """(what, stream): a frame, right or damaged, whose last k bytes are the start of another one."""
    a, z = fr(21, 5), fr(22, 6)
    for k in ks:
        for na in (3, 9, 70):
            for nb in (0, 1, 2, 3, 4, 9, 61, 256, 300):
                h = false_start(nb)
                if k <= 3:
                    fa = forced(payload(5, na), int.from_bytes((payload(8, 3) + h)[k:k + 3], "big"))
                    fb = fa[-k:] + h[k:] + payload(9, nb)
                else:
                    t = (h + payload(9, 1023))[:k - 3]
                    fa = R.frame(payload(5, na) + t)
                    fb = (fa[-k:] + payload(11, 1023))[:3 + nb]
                    if len(fb) < k:
                        # the second frame's checksum begins in the first frame or the whole of it lies inside
                        continue
                fb += R.crc24q(fb).to_bytes(3, "big")
                rest = fb[k:]
                for st in (fa + rest, fa + rest + z, a + fa + rest + z + a, fa + rest + b"x" + z, fa + rest + rest + z,
                           fa[:4] + fa + rest + z):
                    yield f"frames of {len(fa)} and {len(fb)} bytes sharing {k}", st
                    d = fa[:4] if st[:4] == fa[:4] and st[4:8] == fa[:4] else b""
                    i = st.find(fa, len(d))
                    yield f"damaged frame of {len(fa)} bytes and a frame of {len(fb)} sharing {k}", \
                        st[:i + 5] + bytes([st[i + 5] ^ 2]) + st[i + 6:]


OVERLAPS = sorted(set(range(1, 64)) | {100, 127, 128, 129, 200, 255, 256, 257, 299, 300, 303})


def special_streams(i, n):
    """Part i of n of the streams with overlapping frames and chosen checksums, with their chunkings."""
    for src in (overlap_streams(OVERLAPS[i::n]), crc_streams(special_crcs()[i::n])):
        for what, st in src:
            for cuts in (None, [1] * len(st)) if len(st) < 120 else (None, [7] * (len(st) // 7)):
                yield what, st, cuts


def bulk_streams():
    """Big inputs offered in one piece: (what, stream)."""
    a, b, e = fr(1, 4), fr(2, 7), F0
    big, mid = fr(3, 1023), fr(4, 300)
    for n in (256, 1000, 1024, 4096, 5000, 10001, pick(20000, 70000)):
        yield f"{n} short frames", a * (n - 1) + b
        yield f"{n} empty frames and one more", e * n + b
        yield f"{n} frames with gaps", (a + b"z") * n + b
        yield f"{n} frames, damaged ones between", (a + bad(b)) * (n // 2) + b
    for n in (4, 16, 17, 64, 65, 130, 260, pick(520, 2100)):
        yield f"{n} longest frames", big * n + a + b
        yield f"{n} longest frames with gaps", (big + b"z") * n + a
        yield f"{n} longest damaged frames", bad(big) * n + a
    for n in (4000, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 262144, pick(1048577, 8388609)):
        for nm, f in (("00", b"\0"), ("text", b"no frame here "), ("ff", b"\xff"), ("count", bytes(range(256)))):
            if nm == "count" and n > 300000:
                continue
            yield f"{n} bytes of garbage {nm}", a + (f * (n // len(f) + 1))[:n] + b + mid + e + a
    for n in (1000, 4096, 10000, 16385):
        yield f"{n} bytes D3", a + b"\xd3" * n + b + a
        yield f"{n} false starts of 0", a + b"\xd3\0\0" * (n // 3) + b + a


BULK = len(list(bulk_streams()))


def bulk(ids):
    for i, x in enumerate(bulk_streams()):
        if i in ids:
            yield x
