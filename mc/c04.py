"""C04: parsing errors = number of gaps between extracted frames, for all token streams and gap contents."""
import itertools

from . import lib, ref, rtcm as R, scanx as S, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("exhaustive enumeration of frame/gap token sequences, gap contents and lengths, chunk sizes; the "
        "reported count is compared with the gaps between the positions of the extracted frames")


def job_tokens(acc, prefix, depth):
    with S.Rig() as rig:
        for seq in S.token_streams(depth, prefix):
            st = S.build(seq)
            m, e = rig.feed(st)
            acc.bump("gaps", S.check_gaps(st, m, e, "tokens " + S.names(seq)) or 0)
            if len(st) % 3 == 0:
                m, e = rig.feed(st, [1] * len(st))
                S.check_gaps(st, m, e, "bytewise, tokens " + S.names(seq))
                m, e = rig.feed(st, flush=False)
                S.check_gaps(st, m, e, "before the end of data, tokens " + S.names(seq))
            acc.state(st)
            acc.transitions += len(seq)
            acc.traces += 1
        acc.sample({"tokens": S.names(seq), "stream": st.hex()[:120], "errors": e}, 1)


def job_gaps(acc, lens, lo):
    """Gaps of every length and several contents at every combination of places."""
    f = [S.fr(i, 3 + i) for i in range(4)]
    with S.Rig() as rig:
        for n in lens:
            rig.g.arm()
            for fill in (b"\x00", b"\xd3", b"\xd3\x00", b"\xd3\x00\x09", b"\xff\xd3\x03\xff", S.bad(S.fr(9, 2))):
                g = (fill * (n // len(fill) + 1))[:n]
                for mask in range(1, 32):
                    st = b"".join((g if mask >> i & 1 else b"") + f[i] for i in range(4)) + \
                        (g if mask & 16 else b"")
                    m, e = rig.feed(st, [lo] * (len(st) // lo) if lo else None)
                    S.check_gaps(st, m, e, f"gaps of {n} bytes {fill.hex()} at mask {mask:05b}, chunks of {lo}")
                    acc.state(n, fill, mask, lo)
                    acc.transitions += 4
                    acc.traces += 1


def job_many(acc, count):
    """Long alternations: the count keeps growing exactly."""
    with S.Rig() as rig:
        for per in range(1, 8):
            for cut in (None, 1, 7, 100):
                st = b"".join(S.fr(i % 100, 3 + i % 5) + (b"zz" if i % per == 0 else b"") for i in range(count))
                rig.g.arm()
                m, e = rig.feed(st, None if cut is None else [cut] * (len(st) // cut))
                S.check_gaps(st, m, e, f"{count} frames, a gap after every {per}th")
                acc.state("many", count, per, cut)
                acc.transitions += count
                acc.traces += 1


def job_chunked(acc, prefix, depth):
    """Token sequences in chunks: byte by byte, uniform, all two-way cuts."""
    with S.Rig() as rig:
        for seq in S.token_streams(depth, prefix):
            st = S.build(seq)
            for cuts in S.cuttings(len(st) if len(seq) < 4 else 2):
                m, e = rig.feed(st, cuts)
                S.check_gaps(st, m, e, f"tokens {S.names(seq)} in chunks {str(cuts)[:60]}")
                acc.transitions += 1
                acc.traces += 1
            acc.state("chunked", st)


def job_history(acc, kinds, counts):
    """Gaps behind long histories of every kind."""
    with S.Rig() as rig:
        for what, st, cuts in S.history_streams(kinds, counts):
            m, e = rig.feed(st, cuts)
            S.check_gaps(st, m, e, what)
            acc.state(st)
            acc.transitions += 1
            acc.traces += 1


def job_special(acc, i, n):
    """Overlapping frames; frames with chosen checksums."""
    with S.Rig() as rig:
        for what, st, cuts in S.special_streams(i, n):
            m, e = rig.feed(st, cuts)
            S.check_gaps(st, m, e, what)
            acc.state(st)
            acc.transitions += 1
            acc.traces += 1


def job_bulk(acc, ids):
    """Big inputs in one piece."""
    with S.Rig() as rig:
        for what, st in S.bulk(ids):
            rig.g.arm(300)
            m, e = rig.feed(st)
            n = S.gaps(st, m)
            if n is not None and n != e and len(m) == len(ref.scan(st)[0]):  # otherwise the places are ambiguous
                raise Violation(f"{what}: {e} parsing errors reported, {n} gaps between extracted frames", what=what)
            acc.state("bulk", what)
            acc.transitions += 1
            acc.traces += 1


def job_volume(acc, count, cut, gap):
    """More gaps than fit 16 bits."""
    with S.Rig() as rig:
        f = S.fr(5, 2)
        st = (f + gap) * count + f
        rig.g.arm(300)
        cv = rig.new()
        n = 0
        for i in range(0, len(st), cut):
            n += len(cv.parse_bytes(st[i:i + cut]))
        e = cv.get_statistics().parsing_errors
        acc.state("volume", count, cut, gap)
        acc.transitions += count
        acc.traces += 1
        if n == count + 1 and e != count:
            raise Violation(f"{count} gaps {gap.hex()} between frames in chunks of {cut}: {e} parsing errors", stream=f + gap)


def job_log(acc, seqs):
    """Through main(): the count of the log."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        for seq in seqs:
            parts = []
            for i, t in enumerate(seq):
                g = lib.good((1005, 1006)[i % 2], 11 + i)
                parts.append({"G": g, "B": S.bad(g), "X": b"\xd3\x00", "Z": b"zzz", "U": lib.unsupported(i),
                              "C": g[:-4]}[t])
            st = b"".join(parts)
            fr, pe = ref.scan(st)
            r = sut.convert(sc, st, "JSON", cfg)
            acc.state("log", st)
            acc.transitions += len(seq)
            acc.traces += 1
            got = r.progress()
            if st and (got is None or got[1] != pe):
                raise Violation(f"log of stream {' '.join(seq)}: {got and got[1]} parsing errors instead of {pe}",
                                stream=st, log=r.logtext[-600:])


def run(c):
    n = len(S.tokens(0))
    depth = pick(4, 6)
    c.bounds = {"histories": f"8 kinds of pieces repeated 1..40 and more counts up to {pick(300, 2100)}, then 20 kinds of follow-up",
                "chunks": f"all sequences of up to {pick(3, 4)} tokens: uniform chunks of 6 sizes, all two-way cuts",
                "token sequences": f"all of up to {depth} tokens over {n}",
                "overlaps": "a frame right or damaged sharing its last 1..63 and more bytes with the next one, 3 x 9 lengths, 6 contexts",
                "checksum values": "every byte value at every place, in 5 contexts",
                "big pieces": f"{S.BULK} inputs of up to {pick(1, 8)} MiB in one chunk",
                "gap lengths": pick("0..40, 250..262, 1018..1034", "0..1100"), "gap contents": 6,
                "volume": f"{pick(70000, 140000)} gaps in one stream", "gap places": "all 31 subsets of 5 places around 4 frames",
                "log": f"all sequences of {pick(5, 6)} of 6 pieces through main()"}
    c.run(job_tokens, [((), 1)] + [((a, b), depth) for a in range(n) for b in range(n)], "token streams")
    lens = pick(list(range(41)) + list(range(250, 263)) + list(range(1018, 1035)), list(range(1101)))
    c.run(job_gaps, [(lens[i::16], lo) for i in range(16) for lo in (0, 5)], "gaps")
    c.run(job_many, [(k,) for k in (10, 100, 1000, pick(3000, 20000))], "long alternations")
    c.run(job_volume, [(pick(70000, 140000), k, g) for k in (61, 4096) for g in (b"z", b"\xd3", b"\xd3\x00\x00")], "very many gaps")
    c.run(job_chunked, [((), 0)] + [((a,), pick(3, 4)) for a in range(n)], "chunked token streams")
    c.run(job_special, [(i, 32) for i in range(32)], "overlapping frames, chosen checksums")
    c.run(job_bulk, [([i],) for i in range(S.BULK)], "big pieces")
    cs = [x for x in S.COUNTS if x <= pick(300, 2100)]
    c.run(job_history, [([k], cs[i::4]) for k in S.histories() for i in range(4)], "histories")
    seqs = [s for k in range(1, pick(5, 6) + 1) for s in itertools.product("GBXZUC", repeat=k)]
    c.run(job_log, [(seqs[i::64],) for i in range(64)], "logs")
    if not c.acc.extra.get("gaps"):
        raise Violation("no gap was ever seen")
