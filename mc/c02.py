"""C02: independence of chunking: confluence over all chunkings of many streams, and file block boundaries."""
import itertools

from . import graph, lib, ref, rtcm as R, scanx as S, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("explicit-state search over (stream position, converter state): every edge = one chunk of every "
        "size; all chunkings of a stream are covered when equal states merge; plus direct enumeration and "
        "4096-byte file block alignments through main()")
ASSUMPTIONS = ["state merging uses a dump of the converter's object graph; the direct enumeration of all "
               "chunkings of short streams and of all 2-/3-way cuts does not rely on it"]
NODE_CAP = 4000


def obs(cv, msgs):
    return tuple(msgs), cv.get_statistics().parsing_errors


def explore(rig, acc, st, name, empty=True):
    """All chunkings of st by search over merged states."""
    n = len(st)
    want = {0: ((), 0)}
    for p in range(1, n + 1):
        cv = rig.new()
        want[p] = obs(cv, [bytes(m) for m in cv.parse_bytes(st[:p])])
    cv = rig.new()
    nodes = {(0, graph.dump(cv)): ()}
    todo = [(0, ())]
    final = {}
    while todo:
        p, path = todo.pop()
        for k in range(0 if empty else 1, n - p + 1):
            cv = rig.new()
            out, q = [], 0
            for c in path:
                out += cv.parse_bytes(st[q:q + c])
                q += c
            out += cv.parse_bytes(st[q:q + k])
            acc.transitions += 1
            got = obs(cv, [bytes(m) for m in out])
            e = p + k
            if got != want[e]:
                raise Violation(
                    f"{name}: after chunks {path + (k,)} {len(got[0])} messages / {got[1]} errors, one chunk "
                    f"of {e} bytes gives {len(want[e][0])} / {want[e][1]}",
                    stream=st, chunks=list(path + (k,)))
            key = (e, graph.dump(cv))
            if key not in nodes:
                if len(nodes) >= NODE_CAP:
                    acc.bump("node_cap_reached")
                    continue
                nodes[key] = path + (k,)
                todo.append((e, path + (k,)))
                if e == n:
                    out2 = [bytes(m) for m in cv.flush()]
                    fin = (tuple(out2), cv.get_statistics().parsing_errors)
                    final.setdefault(fin, path + (k,))
    if len(final) > 1:
        a, b = list(final.items())[:2]
        raise Violation(f"{name}: the end of data gives {len(a[0][0])} messages / {a[0][1]} errors after "
                        f"chunks {a[1]}, {len(b[0][0])} / {b[0][1]} after {b[1]}", stream=st,
                        chunks=list(b[1]))
    for key in nodes:
        acc.state(st, key)
    acc.traces += 1


def job_graph(acc, seqs):
    with S.Rig() as rig:
        for seq in seqs:
            explore(rig, acc, S.build(seq), "tokens " + S.names(seq))
        acc.sample({"tokens": S.names(seqs[-1]), "bytes": len(S.build(seqs[-1]))}, 1)


def job_direct(acc, streams):
    """All 2^(n-1) chunkings, without merging."""
    with S.Rig() as rig:
        for st in streams:
            n = len(st)
            w = rig.feed(st)
            w0 = rig.feed(st, flush=False)
            for m in range(1 << (n - 1)):
                cuts, last = [], 0
                for i in range(1, n):
                    if m >> (i - 1) & 1:
                        cuts.append(i - last)
                        last = i
                cuts.append(n - last)
                g0 = rig.feed(st, cuts, False)
                if g0 != w0:
                    raise Violation(f"chunks {cuts}: {len(g0[0])} messages / {g0[1]} errors instead of "
                                    f"{len(w0[0])} / {w0[1]}", stream=st, chunks=cuts)
                if m % 4 == 3:
                    g = rig.feed(st, cuts)
                    if g != w:
                        raise Violation(f"chunks {cuts}, end of data: {len(g[0])} messages / {g[1]} errors "
                                        f"instead of {len(w[0])} / {w[1]}", stream=st, chunks=cuts)
                acc.transitions += len(cuts)
                acc.traces += 1
            acc.state("direct", st)


def longs():
    """Streams with long frames, lengths around powers of two and the maximum."""
    out = []
    for n in (0, 1, 2, 3, 60, 255, 256, 257, 511, 512, 767, 1022, 1023):
        out.append((f"long {n}", b"q" + S.fr(1, n) + b"\xd3\x03" + S.fr(2, n) + S.bad(S.fr(3, n)) + S.fr(4, 5) +
                    S.fr(5, n)[:-2]))
    return out


def job_uniform(acc, name, st, sizes):
    """Uniform chunk sizes, and all two-way cuts (with an empty chunk in between)."""
    with S.Rig() as rig:
        w0, w = rig.feed(st, flush=False), rig.feed(st)
        for k in sizes:
            rig.g.arm()
            cuts = [k] * (len(st) // k)
            for fl, ww in ((False, w0), (True, w)):
                g = rig.feed(st, cuts, fl)
                acc.transitions += len(cuts)
                acc.traces += 1
                if g != ww:
                    raise Violation(f"{name}: chunks of {k} bytes: {len(g[0])} messages / {g[1]} errors "
                                    f"instead of {len(ww[0])} / {ww[1]}", stream=st, chunks=cuts)
            acc.state(name, k)
            if k < len(st):
                cuts = [k, 0, 1] if k % 2 else [k, 0]
                g = rig.feed(st, cuts)
                acc.traces += 1
                if g != w:
                    raise Violation(f"{name}: cut at byte {k}: {len(g[0])} messages / {g[1]} errors instead "
                                    f"of {len(w[0])} / {w[1]}", stream=st, chunks=cuts)


def job_cut2(acc, name, st, ks):
    """All two-way cuts at the given positions and all three-way cuts with short middles."""
    with S.Rig() as rig:
        w = rig.feed(st)
        for k in ks:
            for mid in (1, 2, 3, 5, 6, 7, 100, 1029):
                g = rig.feed(st, [k, mid])
                acc.traces += 1
                acc.transitions += 3
                if g != w:
                    raise Violation(f"{name}: chunks {[k, mid]}: {len(g[0])} messages / {g[1]} errors "
                                    f"instead of {len(w[0])} / {w[1]}", stream=st, chunks=[k, mid])
            acc.state(name, "cut", k)


def sizes_cuts(n, sizes):
    """Chunk lists: the given sizes over and over."""
    out, p = [], 0
    for k in itertools.cycle(sizes):
        if p + k >= n:
            return out
        out.append(k)
        p += k


def differ(acc, rig, st, what, ways):
    """All given ways to cut the stream must agree; None is one chunk."""
    first = None
    for cuts in ways:
        g = rig.feed(st, cuts)
        acc.transitions += 1 if cuts is None else len(cuts)
        acc.traces += 1
        if first is None:
            first = (g, cuts)
        elif g != first[0]:
            raise Violation(f"{what}: chunks {str(cuts)[:60]} give {len(g[0])} messages / {g[1]} errors, "
                            f"chunks {str(first[1])[:60]} give {len(first[0][0])} / {first[0][1]}",
                            stream=st if len(st) < 100000 else st[:1000], chunks=(cuts or [len(st)])[:1000])


def job_special(acc, i, n):
    """Overlapping frames; frames with chosen checksums: one chunk, bytewise, all cuts around the common part."""
    with S.Rig() as rig:
        for src in (S.overlap_streams(S.OVERLAPS[i::n]), S.crc_streams(S.special_crcs()[i::n])):
            for what, st in src:
                ways = [None, [1] * (len(st) - 1)] if len(st) < 120 else [None, sizes_cuts(len(st), [7])]
                ways += [[k] for k in range(1, len(st), 1 if len(st) < 40 else 13)]
                differ(acc, rig, st, what, ways)
                acc.state(st)


def job_bulk(acc, ids):
    """Big inputs in one piece, in very large, in file-sized and in small chunks."""
    with S.Rig() as rig:
        for what, st in S.bulk(ids):
            rig.g.arm(300)
            n = len(st)
            ways = [None] + [[k] * (n // k) for k in (61, 1000, 4096, 16384, 65536, 65537, 262144) if k < n] + \
                [sizes_cuts(n, [4096, 1, 70000, 3]), [n - 1], [1]]
            differ(acc, rig, st, what, ways)
            acc.state("bulk", what)


def job_history(acc, kinds, counts):
    """Long histories, then damaged pieces and frames: chunked the same as in one chunk."""
    with S.Rig() as rig:
        last = None
        for what, st, cuts in S.history_streams(kinds, counts):
            if last != st:
                w, last = rig.feed(st), st
            if cuts is None:
                continue
            g = rig.feed(st, cuts)
            acc.state(st)
            acc.transitions += len(cuts)
            acc.traces += 1
            if g != w:
                raise Violation(f"{what}: chunks {str(cuts)[:60]}: {len(g[0])} messages / {g[1]} errors instead "
                                f"of {len(w[0])} / {w[1]}", stream=st, chunks=cuts)


def job_blocks(acc, shifts, body):
    """Whole files in which the block boundaries fall at every place: compare with the model's frames."""
    cfg = ref.Cfg(pretty=False)
    big = R.frame(S.payload(7, 1023))
    msgs = [lib.good(1005, i + 1) for i in range(600)]
    with sut.Scratch() as sc:
        box = sut.boxed(sc, cfg)
        for sh in shifts:
            if body == "small":
                st = b"\x00" * sh + b"".join(msgs[:420])
            elif body == "gaps":
                st = b"\x01" * sh + b"".join(m + b"\xd3\x7f\x00"[:i % 4] for i, m in enumerate(msgs[:400]))
            elif body == "false":
                st = b"\x01" * sh + b"".join(m + (b"\xd3\x02\x80" if i % 9 == 0 else b"")
                                            for i, m in enumerate(msgs[:400]))
            elif body == "big":
                st = msgs[0] + b"\x02" * sh + b"".join(big + m for m in msgs[:9])
            elif body == "size":
                n = sh
                st = b"".join(msgs)[:n]
            r = sut.convert(sc, st, "JSON-B", cfg)
            files, stat, _cv = lib.api_convert(sc, st, "JSON-B", box)
            acc.state(body, sh)
            acc.transitions += len(st) // 4096 + 1
            acc.traces += 1
            d = None
            if set(files) != set(r.files):
                d = f"products {sorted(r.files)} instead of {sorted(files)}"
            elif any(files[p] != r.files[p] for p in files):
                d = "product contents differ"
            elif st and (r.progress() or (0, 0))[1] != stat.parsing_errors:
                d = f"statistics {r.progress()}, single chunk: {stat}"
            if d:
                raise Violation(f"file of {len(st)} bytes ({body}, {sh}) read in blocks vs. converted in one "
                                f"chunk: {d}", stream=st, format="JSON-B")


def run(c):
    n = len(S.tokens(0))
    depth = pick(3, 4)
    c.bounds = {"all chunkings (incl. empty chunks)": f"all token sequences of up to {depth} tokens over {n}",
                "histories": f"8 kinds of pieces repeated 1..40 and more counts up to {pick(2100, 10001)}, then 20 kinds of follow-up",
                "overlaps": "a frame right or damaged sharing its last 1..63 and more bytes with the next one; chosen checksums",
                "big pieces": f"{S.BULK} inputs of up to {pick(1, 8)} MiB in one chunk and in chunks of 61 bytes to 256 KiB",
                "direct enumeration": f"streams of {pick(14, 16)} bytes",
                "file blocks": "4096-byte blocks at every offset of frames, gaps and false starts; "
                               "file sizes around multiples of 4096"}
    seqs = [s for s in S.token_streams(depth)]
    if depth == 3:  # quick: depth 3 in full, plus the longer sequences that mix frames and false starts
        seqs += [s for s in itertools.product((0, 5, 8), repeat=4)]
    c.run(job_graph, [(seqs[i::96],) for i in range(96)], "state graph")
    m = pick(14, 16)
    short = []
    for a in ("E", "d3", "00", "x", "f9"):
        t = dict(S.tokens(1))
        for b in (S.F0 + t[a] + S.F0, t[a] + S.F0 + t[a] + t[a], S.F0 + S.bad(S.F0) + S.F0,
                  t[a] + S.fr(3, 1) + t[a] + S.F0):
            short.append((b + b"\xd3\x00\x01\x02\xd3")[:m])
    c.run(job_direct, [([s],) for s in sorted(set(short))], "direct enumeration")
    ls = longs()
    c.run(job_uniform, [(nm, st, range(1 + k, min(len(st), pick(1100, 5000)) + 1, 4)) for nm, st in ls
                        for k in range(4)], "uniform chunks")
    c.run(job_cut2, [(nm, st, range(k, len(st), pick(8, 1) * 4 + k)) for nm, st in ls for k in range(4)],
          "cuts")
    cs = [x for x in S.COUNTS if x <= pick(2100, 10001)]
    c.run(job_history, [([k], cs[i::4]) for k in S.histories() for i in range(4)], "histories")
    c.run(job_special, [(i, 32) for i in range(32)], "overlapping frames, chosen checksums")
    c.run(job_bulk, [([i],) for i in range(S.BULK)], "big pieces")
    for body, rng in (("small", range(0, pick(26, 60))), ("gaps", range(0, pick(26, 60))),
                      ("false", range(0, pick(26, 60))), ("big", range(0, 1060, pick(3, 1))),
                      ("size", [k * 4096 + d for k in (1, 2, 3) for d in range(-pick(12, 40), pick(12, 40))])):
        rng = list(rng)
        c.run(job_blocks, [(rng[i::16], body) for i in range(16)], f"file blocks {body}")
