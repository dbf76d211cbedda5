"""C01: soundness of frame extraction: token streams, all frame lengths, all small bit errors."""
import itertools

from . import lib, ref, rtcm as R, scanx as S, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("exhaustive enumeration of stream-token sequences, payload lengths, 1-/2-bit errors, bursts "
        "and CRC values on the real scanner; every extracted message re-verified by an independent CRC-24Q")


def job_tokens(acc, prefix, depth):
    with S.Rig() as rig:
        for seq in S.token_streams(depth, prefix):
            st = S.build(seq)
            m, _e = rig.feed(st)
            S.check_sound(st, m, "tokens " + S.names(seq))
            acc.state(st)
            acc.transitions += len(seq)
            acc.traces += 1
            acc.bump("frames_extracted", len(m))
        acc.sample({"tokens": S.names(seq), "stream": st.hex()[:120], "extracted": len(m)}, 1)


def expect_none(rig, acc, st, orig, what):
    """A damaged frame alone must not be delivered."""
    m, _e = rig.feed(st)
    acc.transitions += 1
    acc.traces += 1
    acc.state(st)
    if m:
        S.check_sound(st, m, what)


def job_lengths(acc, lens, every_bit):
    """Undamaged frames of each length, and bit flips all over them."""
    with S.Rig() as rig:
        for n in lens:
            f = S.fr(n + SEED, n)
            m, _e = rig.feed(f)
            S.check_sound(f, m, f"frame of payload length {n}")
            acc.bump("frames_extracted", len(m))
            acc.state(f)
            rig.g.arm()
            bits = range(len(f) * 8) if every_bit else [i * 8 + (i + n) % 8 for i in range(len(f))] + \
                list(range(24)) + list(range(len(f) * 8 - 24, len(f) * 8))
            v = int.from_bytes(f, "big")
            nb = len(f) * 8
            for b in set(bits):
                d = (v ^ 1 << (nb - 1 - b)).to_bytes(len(f), "big")
                expect_none(rig, acc, d, f, f"payload length {n}, bit {b} inverted")


def job_pairs(acc, n, lo, hi):
    """All two-bit errors whose first bit is in [lo, hi)."""
    f = S.fr(SEED + 5, n)
    v, nb = int.from_bytes(f, "big"), len(f) * 8
    with S.Rig() as rig:
        for a in range(lo, min(hi, nb)):
            for b in range(a + 1, nb):
                d = (v ^ 1 << (nb - 1 - a) ^ 1 << (nb - 1 - b)).to_bytes(len(f), "big")
                expect_none(rig, acc, d, f, f"bits {a},{b} inverted")


def job_bursts(acc, n, w, lo, hi):
    """All bursts of exactly w bits (first and last bit wrong) starting in [lo, hi)."""
    f = S.fr(SEED + 9, n)
    v, nb = int.from_bytes(f, "big"), len(f) * 8
    with S.Rig() as rig:
        for a in range(lo, min(hi, nb - w + 1)):
            for mid in range(1 << max(0, w - 2)):
                e = (1 << (w - 1) | mid << 1 | 1) << (nb - a - w) if w > 1 else 1 << (nb - a - 1)
                d = (v ^ e).to_bytes(len(f), "big")
                expect_none(rig, acc, d, f, f"burst {e:x}")


def job_long_bursts(acc, n, lo, hi):
    """24-bit bursts at every position: all-ones, alternating, edges and single-hole patterns."""
    f = S.fr(SEED + 11, n)
    v, nb = int.from_bytes(f, "big"), len(f) * 8
    with S.Rig() as rig:
        for a in range(lo, min(hi, nb - 1)):
            for w in range(13, 25):
                if a + w > nb:
                    break
                one = (1 << w) - 1
                pats = {one, 1 << (w - 1) | 1, one & 0x555555 | 1 << (w - 1) | 1}
                pats |= {one ^ 1 << k for k in range(1, w - 1)}
                pats |= {1 << (w - 1) | 1 | 1 << k for k in range(1, w - 1)}
                for e in pats:
                    d = (v ^ e << (nb - a - w)).to_bytes(len(f), "big")
                    expect_none(rig, acc, d, f, f"burst {e:x} at bit {a}")


def job_crc(acc, mask, lo, hi):
    """Every value of part of the CRC field of one frame."""
    f = S.fr(SEED + 3, 2)
    right = int.from_bytes(f[-3:], "big")
    sh = (mask & -mask).bit_length() - 1
    with S.Rig() as rig:
        for k in range(lo, hi):
            c = right & ~mask | k << sh & mask
            if mask == 0xFF00FF:
                c = right & 0xFF00 | (k >> 8) << 16 | k & 255
            d = f[:-3] + c.to_bytes(3, "big")
            m, _e = rig.feed(d, flush=False)
            acc.transitions += 1
            acc.traces += 1
            if m:
                S.check_sound(d, m, f"CRC field {c:06x}")
                acc.bump("frames_extracted", len(m))
    acc.state("crc", mask, lo, hi)


def frame_like(n, tag, reserved=0, pre=0xD3, dn=0, cover="all", crc=None):
    """A frame of payload length n with one element of the transport layer wrong."""
    p = S.payload(tag, n)
    h = bytes([pre, reserved << 2 | (n + dn) >> 8 & 3, (n + dn) & 255])
    src = {"all": h + p, "payload": p, "tail": (h + p)[1:], "nolen": h[:1] + p, "rev": (h + p)[::-1]}[cover]
    c = R.crc24q(src)
    c = {None: c, "zero": 0, "ones": 0xFFFFFF, "not": c ^ 0xFFFFFF, "swap": int.from_bytes(c.to_bytes(3, "little"), "big"),
         "rot": (c << 8 | c >> 16) & 0xFFFFFF, "inc": c + 1 & 0xFFFFFF, "init": c ^ R.crc24q(b"\xff" + bytes(len(src)))}[crc]
    return h + p + c.to_bytes(3, "big")


LIKES = ([dict(reserved=r) for r in range(1, 64)] + [dict(pre=b) for b in range(256) if b != 0xD3] +
         [dict(dn=k) for k in (-3, -2, -1, 1, 2, 3)] + [dict(cover=k) for k in ("payload", "tail", "nolen", "rev")] +
         [dict(crc=k) for k in ("zero", "ones", "not", "swap", "rot", "inc", "init")])


def job_like(acc, lens, likes):
    """Frames wrong in exactly one element of the header or the checksum (the rest consistent), in every context."""
    with S.Rig() as rig:
        for n in lens:
            for kw in likes:
                if n + kw.get("dn", 0) not in range(1024):
                    continue
                x = frame_like(n, n + SEED, **kw)
                a, b = S.fr(21, 5), S.fr(22, 6)
                for st in (x, b"zz" + x, x + x, a + x, x + b, a + x + b, a + x + b"\xd3" + b, x[:3] + x + b):
                    m, _e = rig.feed(st)
                    S.check_sound(st, m, f"payload length {n}, frame wrong in {kw}")
                    acc.bump("frames_extracted", len(m))
                    acc.state(st)
                    acc.transitions += 1
                    acc.traces += 1


def job_chunked(acc, prefix, depth):
    """Token sequences in chunks: byte by byte, uniform, all two-way cuts."""
    with S.Rig() as rig:
        for seq in S.token_streams(depth, prefix):
            st = S.build(seq)
            for cuts in S.cuttings(len(st) if len(seq) < 4 else 2):
                m, _e = rig.feed(st, cuts)
                S.check_sound(st, m, f"tokens {S.names(seq)} in chunks {str(cuts)[:60]}")
                acc.transitions += 1
                acc.traces += 1
            acc.state("chunked", st)


def job_history(acc, kinds, counts):
    """Damaged pieces behind long histories of every kind."""
    with S.Rig() as rig:
        for what, st, cuts in S.history_streams(kinds, counts):
            if len(st) > 20000:
                rig.g.arm(120)
            m, _e = rig.feed(st, cuts)
            S.check_sound(st, m, what)
            acc.state(st)
            acc.transitions += 1
            acc.traces += 1


def job_masked(acc, lens):
    """The checksum is right for another length than the announced one."""
    with S.Rig() as rig:
        for n in lens:
            other = {n & (1 << k) - 1 for k in range(11)} | {n ^ 1 << k for k in range(10)} | {n + d for d in range(-8, 9)} | \
                {n >> 1, n - n % 8, 1023 - n, n & ~255, 0, 1, 1023}
            h = S.false_start(n)
            for k in sorted(other - {n}):
                if not 0 <= k <= 1023:
                    continue
                p = S.payload(n + k, max(k, n) + 6)
                c = R.crc24q(h + p[:k]).to_bytes(3, "big")
                for st in (h + p[:k] + c + b"\x5a" * max(0, n - k), h + p[:n] + c):
                    if S.valid_at(st, 0):
                        continue
                    m, _e = rig.feed(st)
                    S.check_sound(st, m, f"announced length {n}, checksum over the first {k} bytes of the payload")
                    acc.transitions += 1
                    acc.traces += 1
            acc.state("masked", n)
            rig.g.arm()


def job_special(acc, i, n):
    """Overlapping frames; frames with chosen checksums."""
    with S.Rig() as rig:
        for what, st, cuts in S.special_streams(i, n):
            m, _e = rig.feed(st, cuts)
            S.check_sound(st, m, what)
            acc.state(st)
            acc.transitions += 1
            acc.traces += 1


def job_bulk(acc, ids):
    """Big inputs in one piece."""
    with S.Rig() as rig:
        for what, st in S.bulk(ids):
            rig.g.arm(300)
            m, _e = rig.feed(st)
            S.check_sound(st, m, what)
            acc.state("bulk", what)
            acc.transitions += 1
            acc.traces += 1


def job_products(acc, seqs):
    """Whole conversions: objects in the products are a subsequence of the genuine messages."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        for seq in seqs:
            parts = []
            for i, t in enumerate(seq):
                g = lib.good(1005, 11 + i)
                parts.append({"G": g, "B": S.bad(g), "H": S.bad(g, 0x80), "C": g[:-4], "X": b"\xd3\x00",
                              "P": g[:8] + bytes([g[8] ^ 1]) + g[9:]}[t])
            st = b"".join(parts)
            r = sut.convert(sc, st, "JSON-B", cfg)
            acc.state("products", st)
            acc.transitions += len(seq)
            acc.traces += 1
            want = ref.Products.of_stream(st, "JSON-B", cfg)
            want = want.json.get(R.JSON_FILE[1005], ("", []))[1]
            raw = r.files.get(R.JSON_FILE[1005])
            if raw is None:
                continue
            try:
                _t, got = ref.parse_json_product(raw)
            except ValueError:
                continue  # not this property's business
            it = iter(want)
            for o in got:
                if not any(ref.obj_diff(w, o, True) is None for w in it):
                    raise Violation(f"stream of {' '.join(seq)}: an output object does not stem from a "
                                    "correct frame or is out of order / repeated",
                                    stream=st, object=o)
            acc.bump("objects_traced", len(got))


def run(c):
    depth = pick(5, 6)
    n = len(S.tokens(0))
    c.bounds = {"token sequences": f"all of up to {depth} tokens over {n}", "payload lengths": "0..1023",
                "bit errors": pick("one flip in every byte of every length", "every bit of every length"),
                "histories": f"8 kinds of pieces repeated 1..40 and 35 more counts up to {S.HUGE[-1]}, then 20 kinds of follow-up",
                "chunks": f"all sequences of up to {pick(3, 4)} tokens: uniform chunks of 6 sizes, all two-way cuts",
                "overlaps": "a frame right or damaged sharing its last 1..63 and more bytes with the next one, 3 x 9 lengths, 6 contexts",
                "checksum values": "every byte value at every place, in 5 contexts",
                "big pieces": f"{S.BULK} inputs of up to {pick(1, 8)} MiB in one chunk",
                "checksum over other length": "all 1024 announced lengths x 40 other lengths, 2 layouts",
                "one wrong element": "every reserved-bit value, every other preamble, wrong length by 1..3, checksum over "
                "other bytes or transformed; alone and among frames; 13 lengths (a subset at all 1024 lengths)",
                "two-bit errors": "all pairs of a 26-byte and a 10-byte frame",
                "bursts": f"all patterns up to {pick(10, 14)} bits at every position of a 14-byte frame; "
                          "pattern families up to 24 bits",
                "CRC field": pick("all values of each pair of CRC bytes", "all 2^24 values")}
    c.run(job_lengths, [(list(range(k, 1024, 32)), pick(False, True)) for k in range(32)], "lengths")
    c.run(job_lengths, [([k], True) for k in (0, 1, 2, 3, 4, 5, 8, 20, 63, 64, 255, 256, 511, 512, 1023)],
          "all bits of selected lengths")
    c.run(job_like, [([n], LIKES[i::3]) for n in (0, 1, 2, 3, 4, 20, 100, 255, 256, 511, 512, 767, 1023) for i in range(3)],
          "wrong in one element")
    c.run(job_like, [(list(range(k, 1024, 64)), LIKES[5::19]) for k in range(64)], "wrong in one element, all lengths")
    c.run(job_tokens, [((), 1)] + [((a, b), depth) for a in range(n) for b in range(n)], "token streams")
    c.run(job_pairs, [(k, lo, lo + 8) for k in (20, 4) for lo in range(0, (k + 6) * 8, 8)], "pairs")
    c.run(job_bursts, [(8, w, lo, lo + 16) for w in range(1, pick(10, 14) + 1)
                       for lo in range(0, 112, 16)], "bursts")
    c.run(job_long_bursts, [(12, lo, lo + 12) for lo in range(0, 144, 12)], "long bursts")
    if pick(0, 1):
        c.run(job_crc, [(0xFFFFFF, k << 16, k + 1 << 16) for k in range(256)], "CRC values")
    else:
        c.run(job_crc, [(m, k << 13, k + 1 << 13) for m in (0xFFFF, 0xFFFF00, 0xFF00FF) for k in range(8)],
              "CRC values")
    c.run(job_masked, [(list(range(k, 1024, 32)),) for k in range(32)], "checksum right for another length")
    c.run(job_history, [([k], [x]) for k in S.histories() for x in S.HUGE] +
          [([k], S.COUNTS[i::4]) for k in S.histories() for i in range(4)], "histories")
    c.run(job_chunked, [((), 0)] + [((a,), pick(3, 4)) for a in range(n)], "chunked token streams")
    c.run(job_special, [(i, 32) for i in range(32)], "overlapping frames, chosen checksums")
    c.run(job_bulk, [([i],) for i in range(S.BULK)], "big pieces")
    seqs = list(itertools.product("GBHCXP", repeat=pick(4, 5)))
    c.run(job_products, [(seqs[i::32],) for i in range(32)], "products")
    if not c.acc.extra.get("frames_extracted"):
        raise Violation("no frame was ever extracted: the guarantee is void")
