"""C03: completeness of frame extraction: token streams, false starts of every length, truncations, file ends."""
import itertools

from . import lib, ref, rtcm as R, scanx as S, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("exhaustive enumeration of stream-token sequences, false starts of all 1024 announced lengths, "
        "truncation points and file ends on the real scanner; every correct frame of the stream must be "
        "extracted or lie inside an extracted one")


def feed(rig, acc, st, what, cuts=None):
    m, _e = rig.feed(st, cuts)
    acc.transitions += 1 if cuts is None else len(cuts)
    acc.traces += 1
    acc.bump("frames_extracted", S.check_complete(st, m, what))
    return m


def job_tokens(acc, prefix, depth):
    with S.Rig() as rig:
        for seq in S.token_streams(depth, prefix):
            st = S.build(seq)
            feed(rig, acc, st, "tokens " + S.names(seq))
            acc.state(st)
        acc.sample({"tokens": S.names(seq), "stream": st.hex()[:120]}, 1)


def job_lengths(acc, lens):
    """Frames of every length: alone, back to back, after garbage, with reserved message contents."""
    with S.Rig() as rig:
        for n in lens:
            f, g = S.fr(n + SEED, n), S.fr(n + 7, n)
            zero, ones = R.frame(bytes(n)), R.frame(b"\xff" * n)
            d3 = R.frame(b"\xd3" * n)
            for k, st in enumerate((f, f + g, b"\xd3" + f, b"\xd3\x00" + f + g, b"abc" + f + b"xyz" + g,
                                    S.fr(1) + f + S.fr(2), S.bad(f) + g, S.bad(d3) + g, d3 + f, zero + ones + d3,
                                    f[:-1] + g, f[:len(f) // 2] + g + f)):
                feed(rig, acc, st, f"payload length {n}, layout {k}")
                acc.state(st)
            rig.g.arm()


def job_false(acc, lens):
    """A false start announcing n bytes, before, between and behind frames; nothing, little or much follows."""
    with S.Rig() as rig:
        for n in lens:
            fs = S.false_start(n)
            few = S.fr(1, 9) + S.fr(2, 0) + S.fr(3, 2)
            many = b"".join(S.fr(i, 40 + i) for i in range(26))
            for k, st in enumerate((
                    fs + few, S.fr(5) + fs + few, fs + many, S.fr(5) + fs + many + few, fs + fs + few,
                    few + fs, fs + few + fs + few, fs + S.false_start(1023 - n) + few + many,
                    fs + bytes(n) + few, fs + bytes(max(0, n - 9)) + few + many,
                    fs + bytes(max(0, n - 9)) + S.fr(8, 4),
                    # announced end exactly at / around the end of data
                    fs + bytes(max(0, n + 3 - 11)) + S.fr(9, 5), fs + bytes(max(0, n + 3 - 10)) + S.fr(9, 5),
                    fs + bytes(max(0, n + 3 - 12)) + S.fr(9, 5))):
                feed(rig, acc, st, f"false start announcing {n} bytes, layout {k}")
                acc.state(st)
            rig.g.arm()


def job_cut(acc, sizes):
    """Three frames; the stream truncated at every byte, and every prefix of a frame before good frames."""
    with S.Rig() as rig:
        for a, b in itertools.product(sizes, sizes):
            x = S.fr(1, a) + S.fr(2, b) + b"\xd3" + S.fr(3, a) + S.fr(4, b)
            for k in range(1, len(x) + 1):
                feed(rig, acc, x[:k], f"truncated after {k} bytes")
                feed(rig, acc, x[k:], f"first {k} bytes missing")
                acc.state(x[:k])
                acc.state(x[k:])
            f = S.fr(5, b)
            for k in range(1, len(f)):
                st = S.fr(1, a) + f[:k] + S.fr(6, a) + S.fr(7, b)
                feed(rig, acc, st, f"{k} bytes of a frame, then frames")
                st = S.fr(1, a) + f[:k] + f[k + 1:] + S.fr(6, a) + S.fr(7, b)
                feed(rig, acc, st, f"byte {k} of a frame lost")
                st = S.fr(1, a) + f[:k] + b"\xd3" + f[k:] + S.fr(6, a) + S.fr(7, b)
                feed(rig, acc, st, f"D3 inserted at byte {k} of a frame")
                acc.state(st)
            rig.g.arm()


def job_chunked(acc, prefix, depth):
    """Token sequences in chunks: byte by byte, uniform, all two-way cuts."""
    with S.Rig() as rig:
        for seq in S.token_streams(depth, prefix):
            st = S.build(seq)
            for cuts in S.cuttings(len(st) if len(seq) < 4 else 2):
                feed(rig, acc, st, f"tokens {S.names(seq)} in chunks {str(cuts)[:60]}", cuts)
            acc.state("chunked", st)


def job_history(acc, kinds, counts):
    """Frames behind damaged pieces behind long histories of every kind."""
    with S.Rig() as rig:
        for what, st, cuts in S.history_streams(kinds, counts):
            if len(st) > 20000:
                rig.g.arm(120)
            feed(rig, acc, st, what, cuts)
            acc.state(st)


def job_special(acc, i, n):
    """Overlapping frames; frames with chosen checksums."""
    with S.Rig() as rig:
        for what, st, cuts in S.special_streams(i, n):
            feed(rig, acc, st, what, cuts)
            acc.state(st)


def job_bulk(acc, ids):
    """Big inputs in one piece."""
    with S.Rig() as rig:
        for what, st in S.bulk(ids):
            rig.g.arm(300)
            m, _e = rig.feed(st)
            acc.state("bulk", what)
            acc.transitions += 1
            acc.traces += 1
            S.check_complete(st, m, what)


def job_contents(acc, numbers):
    """Frames of every message number and of every value of the bytes at their ends."""
    with S.Rig() as rig:
        for k in numbers:
            st = b"".join(R.frame(bytes([k >> 4, (k & 15) << 4 | n & 15]) + bytes([k & 255]) * n) for n in (0, 1, 5, 50))
            feed(rig, acc, st, f"frames of message number {k}")
            if k < 256:
                feed(rig, acc, b"".join(R.frame(S.payload(k, n) + bytes([k])) for n in (0, 1, 2, 9, 255)), f"frames ending with byte {k}")
                feed(rig, acc, S.fr(1) + bytes([k]) + S.fr(2) + bytes([k, k]) + S.fr(3), f"gaps of byte {k}")
            acc.state("content", k)


FILLS = {"00": b"\0", "d3": b"\xd3", "d3ff": b"\xd3\xff", "text": b"no frame here ", "d300": b"\xd3\0\0", "d303": b"\xd3\x03\xff\x11",
         "count": bytes(range(256))}


def job_garbage(acc, fill, sizes):
    """Frames behind very long garbage, read in file blocks."""
    b = FILLS[fill]
    x = S.fr(3, 9) + S.fr(4, 0) + S.fr(5, 1023)
    with S.Rig() as rig:
        for n in sizes:
            st = S.fr(1, 4) + (b * (n // len(b) + 1))[:n] + x
            rig.g.arm(120)
            m = feed(rig, acc, st, f"{n} bytes of garbage {fill}", [4096] * (len(st) // 4096)) if n <= 70000 else None
            if m is None:
                m, _e = rig.feed(st, [4096] * (len(st) // 4096))
                acc.traces += 1
                acc.transitions += len(st) // 4096
                if m[-3:] != [S.fr(3, 9), S.fr(4, 0), S.fr(5, 1023)]:
                    raise Violation(f"frames behind {n} bytes of garbage {fill} were not extracted", fill=b, length=n)
            acc.state("garbage", fill, n)


def job_file(acc, cases):
    """Through main(): every genuine message has its object in the product."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        for name, st in cases:
            r = sut.convert(sc, st, "JSON-B", cfg)
            acc.state(st)
            acc.traces += 1
            acc.transitions += len(st) // 4096 + 1
            want = [m for _p, m in ref.scan(st)[0] if ref.number(m) == 1005]
            raw = r.files.get(R.JSON_FILE[1005])
            got = 0
            if raw is not None:
                try:
                    got = len(ref.parse_json_product(raw)[1])
                except ValueError:
                    pass
            # an extracted message shows up as a decoding attempt, and normally as an object
            miss = len(want) - max(got, (r.progress() or (0,))[0])
            if miss > 0:
                raise Violation(f"{name}: {miss} of {len(want)} messages of the file never reached the "
                                "products", stream=st, format="JSON-B")


def file_cases():
    ms = [lib.good(1005, i + 1) for i in range(260)]
    step = pick(4, 1)
    for n in range(0, 1024, step):
        fs = S.false_start(n)
        yield f"file: false start announcing {n} bytes before the last messages", ms[0] + fs + ms[1] + ms[2]
        yield f"file: false start announcing {n} bytes mid-file", b"".join(ms[:30]) + fs + b"".join(ms[30:100])
    tot = b"".join(ms[:4])
    for k in range(len(tot)):
        yield f"file truncated at {k}", tot[:k]
        yield f"file without its first {k} bytes", tot[k:]
        yield f"incomplete message of {k} bytes, then messages", tot[:k] + ms[7] + ms[8]
    for k in range(0, 1029, step):
        big = R.frame(S.payload(5, 1023))
        yield f"incomplete long frame of {k} bytes, then a message", ms[3] + big[:k] + ms[4]
    # the end of data in the neighbourhood of block boundaries
    body = b"".join(ms)
    for k in range(4096 - 40, 4096 + 40, step):
        yield f"false start at byte {k}", body[:25 * (k // 25)] + b"\x00" * (k % 25) + S.false_start(300) + ms[5] + ms[6]
    for a, b in itertools.product(range(0, 1024, pick(93, 31)), repeat=2):
        yield f"false starts {a}, {b}", ms[0] + S.false_start(a) + ms[1] + S.false_start(b) + ms[2] + ms[3]


def run(c):
    n = len(S.tokens(0))
    depth = pick(5, 6)
    c.bounds = {"histories": f"8 kinds of pieces repeated 1..40 and 35 more counts up to {S.HUGE[-1]}, then 20 kinds of follow-up",
                "chunks": f"all sequences of up to {pick(3, 4)} tokens: uniform chunks of 6 sizes, all two-way cuts",
                "token sequences": f"all of up to {depth} tokens over {n}",
                "overlaps": "a frame right or damaged sharing its last 1..63 and more bytes with the next one, 3 x 9 lengths, 6 contexts",
                "checksum values": "every byte value at every place, in 5 contexts",
                "big pieces": f"{S.BULK} inputs of up to {pick(1, 8)} MiB in one chunk",
                "contents": "all 4096 message numbers, all byte values at the end of a frame and between frames",
                "false starts": "all 1024 announced lengths x 14 layouts",
                "garbage": f"up to {pick(262151, 4194311)} bytes of 7 kinds", "lengths": "payload 0..1023 x 12 layouts",
                "truncation": "every byte of multi-frame streams; bytes lost/inserted at every place"}
    c.run(job_false, [(list(range(k, 1024, 32)),) for k in range(32)], "false starts")
    c.run(job_lengths, [(list(range(k, 1024, 32)),) for k in range(32)], "lengths")
    c.run(job_cut, [([a, b],) for a, b in itertools.combinations((0, 1, 2, 3, 17, 40) if depth == 5 else
                                                                 (0, 1, 2, 3, 9, 17, 40, 100), 2)], "truncation")
    gs = sorted({(1 << k) + d for k in range(10, pick(19, 23)) for d in (-1, 0, 1, 7)} | {1000, 10000, 50000, 100000, 200000})
    c.run(job_garbage, [(f, [g for g in gs if f[:3] != "d30" or g < pick(20000, 300000)][i::4]) for f in FILLS for i in range(4)], "long garbage")
    c.run(job_special, [(i, 32) for i in range(32)], "overlapping frames, chosen checksums")
    c.run(job_bulk, [([i],) for i in range(S.BULK)], "big pieces")
    c.run(job_contents, [(list(range(i, 4096, 32)),) for i in range(32)], "contents")
    fc = list(file_cases())
    c.run(job_file, [(fc[i::32],) for i in range(32)], "files")
    c.run(job_tokens, [((), 1)] + [((a, b), depth) for a in range(n) for b in range(n)], "token streams")
    c.run(job_chunked, [((), 0)] + [((a,), pick(3, 4)) for a in range(n)], "chunked token streams")
    c.run(job_history, [([k], [x]) for k in S.histories() for x in S.HUGE] +
          [([k], S.COUNTS[i::4]) for k in S.histories() for i in range(4)], "histories")
    if not c.acc.extra.get("frames_extracted"):
        raise Violation("no frame was ever extracted")
