"""C13: MARGO tables: all satellite sets, cell masks, message sequences and option settings."""
import itertools

from . import fresh, lib, ref, rtcm as R, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("exhaustive satellite pairs, cell masks, shapes, message sequences and MARGO options; table structure and "
        "presence against the model, each cell against the value printed for that satellite and signal alone")
HDR = ("rs_id", "time")


def mk(num, sats, sigs, cells, time=1000):
    """MSM message whose data depend only on satellite and signal."""
    g, t = R.msm_of(num)
    cl = [(s, q) for s in sorted(sats) for q in sorted(sigs) if (s, q) in set(cells)]
    sd, cd = {}, {}
    for n, _k, w in R.MSM_SAT[t]:
        sd[n] = [(60 + s) if n == "rng_ms" else R.rng32(s * 131 + w + SEED)(w - 1) | 1 for s in sorted(sats)]
    for n, _k, w in R.MSM_SGN[t]:
        cd[n] = [R.rng32(s * 131 + q * 7 + w + SEED)(max(1, w - 1)) for s, q in cl]
    return R.msm(num, {"rs_id": 1, "time": time}, sorted(sats), sorted(sigs), cl, sd, cd)


class Table:
    """Values printed by the code for one satellite and signal alone."""

    def __init__(self, sc, cfg):
        self.sc, self.cfg, self.v, self.done = sc, cfg, {}, set()

    def need(self, num, cells):
        g, _t = R.msm_of(num)
        todo = [c for c in cells if (num,) + c not in self.done and c[0] <= R.MAX_SATS[g]]
        if not todo:
            return
        fr = [mk(num, [s], [q], [(s, q)], 1000 + i) for i, (s, q) in enumerate(todo)]
        r = fresh.convert(b"".join(fr), "MARGO", self.cfg)
        for c in todo:
            self.done.add((num,) + c)
        for p, raw in r.files.items():
            o = ref.Obs(raw, p)
            rows = {c[0]: c for c in o.rows}
            for i, (s, q) in enumerate(todo):
                m = ref.decode(fr[i], False)
                tm = str(ref.margo_time(m.m, self.cfg))
                if tm in rows and p.rsplit("/", 1)[-1][2:4] == R.SIGNALS[g][q][0]:
                    self.v[p, s] = rows[tm][s]


def check(acc, sc, frames, cells, cfg, tab, what, fmt="MARGO"):
    for num, cs in cells.items():
        tab.need(num, cs)
    st = b"".join(frames)
    r = sut.convert(sc, st, fmt, cfg)
    acc.transitions += len(frames)
    acc.traces += 1
    for f in frames:
        acc.state(cfg.key(), f)
    acc.state(cfg.key(), st)
    e = ref.Products(frames, fmt, cfg)
    files = {p: x for p, x in r.files.items() if p.endswith(".obs")}
    d = None
    if set(files) != set(e.obs):
        d = f"files {sorted(set(files) ^ set(e.obs))[:5]} missing or unexpected"
    for p in files:
        if d:
            break
        d = lib.obs_diff(p, e.obs[p], files[p], cfg, value=False)
        if d:
            break
        o = ref.Obs(files[p], p)
        for i, ((_t, vals), cols) in enumerate(zip(e.obs[p], o.rows)):
            for s in vals:
                v = tab.v.get((p, s))
                if v is not None and v != cols[s]:
                    d = f"{p}: row {i}: satellite {s}: {cols[s]}, but {v} when transmitted alone"
    if d:
        raise Violation(f"{what}: {d}", stream=st, format=fmt, ini=cfg.ini())


def opts(i):
    return ref.Cfg(hca=bool(i & 1), lt=bool(i & 2), pretty=False)


def batches(it, n=120):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def specs(num, what, part=0):
    """(sats, sigs, cells) enumerations"""
    g, _t = R.msm_of(num)
    sg = sorted(R.SIGNALS[g])
    mx = R.MAX_SATS[g]
    if what == "single":
        for s in range(1, 65):
            for q in sg:
                yield [s], [q], [(s, q)]
    elif what == "pairs":
        q = sg[num % len(sg)]
        for a, b in itertools.combinations(range(1, 65), 2):
            if b <= mx + 2 or a % 7 == 0:
                yield [a, b], [q], [(a, q), (b, q)]
    elif what == "all":
        q = sg[0]
        full = list(range(1, 65))
        for k in range(1, 65):
            if k <= 40 or R.msm_of(num)[1] < 5:
                yield full[:k], [q], [(s, q) for s in full[:k]]
                yield full[-k:], [q], [(s, q) for s in full[-k:]]
            yield full, [q], [(k, q)]
    elif what == "cells":
        ss, qq = [1, 3, mx], [sg[0], sg[len(sg) // 2], sg[-1]]
        qq = sorted(set(qq))
        gr = [(s, q) for s in ss for q in qq]
        for m in range(1, 1 << len(gr)):
            yield ss, qq, [c for i, c in enumerate(gr) if m >> i & 1]
    elif what == "trip":
        q = sg[-1]
        for c in itertools.combinations(range(1, mx + 1), 3):
            yield list(c), [q], [(s, q) for s in c]


def job(acc, num, what, oi):
    cfg = opts(oi)
    with sut.Scratch() as sc:
        tab = Table(sc, cfg)
        for b in batches(specs(num, what)):
            fr, cs = [], set()
            for i, (s, q, c) in enumerate(b):
                fr.append(mk(num, s, q, c, 5000 + i))
                cs |= set(c)
            check(acc, sc, fr, {num: sorted(cs)}, cfg, tab, f"{num} {what}")
        acc.sample({"message": num, "what": what, "options": oi}, 1)


def alphabet():
    """Messages for sequences: several numbers, overlapping signals."""
    return [
        (1077, [1, 32], [2, 3], [(1, 2), (32, 3)]),
        (1077, [5], [2], [(5, 2)]),
        (1074, [5, 6], [2], [(5, 2), (6, 2)]),
        (1087, [24], [2], [(24, 2)]),
        (1127, [1, 37], [2], [(1, 2), (37, 2)]),
        (1075, [40, 50], [2], [(40, 2), (50, 2)]),
        (1072, [7], [2], [(7, 2)]),
    ]


def job_seq(acc, first, depth, oi, fmt):
    cfg = opts(oi)
    al = alphabet()
    with sut.Scratch() as sc:
        tab = Table(sc, cfg)
        for k in range(depth):
            for rest in itertools.product(range(len(al) + 2), repeat=k):
                fr, cells = [], {}
                for i, x in enumerate((first,) + rest):
                    if x < len(al):
                        n, s, q, c = al[x]
                        fr.append(mk(n, s, q, c, 6000 + 10 * i))
                        cells.setdefault(n, []).extend(c)
                    else:
                        fr.append(lib.bad(1077) if x == len(al) else lib.good(1019, i + 1))
                check(acc, sc, fr, cells, cfg, tab, f"sequence {(first,) + rest} ({fmt})", fmt)


def job_long(acc, oi, n):
    cfg = opts(oi)
    al = alphabet()
    with sut.Scratch() as sc:
        tab = Table(sc, cfg)
        fr, cells = [], {}
        for i in range(n):
            num, s, q, c = al[(i * i + i // 5) % len(al)]
            fr.append(mk(num, s, q, c, i))
            cells.setdefault(num, []).extend(c)
        check(acc, sc, fr, {k: sorted(set(v)) for k, v in cells.items()}, cfg, tab, f"{n} messages")


def job_variants(acc, num, oi, fmt):
    """All ordered pairs of the variants of one number: exactly the rows each message has alone, in order."""
    cfg = opts(oi)
    v = lib.variants(num)
    o = lib.debruijn(len(v))
    o += o[:1]
    with sut.Scratch() as sc:
        alone = []
        for d, f in v:
            r = fresh.convert(f, fmt, cfg)
            e = ref.Products([f], fmt, cfg)
            x = {}
            for p, raw in r.files.items():
                if p.endswith(".obs"):
                    x[p] = ref.Obs(raw, p).lines[2:]
            if {p: len(y) for p, y in x.items()} != {p: len(y) for p, y in e.obs.items()}:
                raise Violation(f"message {num} ({d}): rows per file { {p: len(y) for p, y in x.items()} } instead of "
                                f"{ {p: len(y) for p, y in e.obs.items()} }"[:400], stream=f, format=fmt, ini=cfg.ini())
            alone.append(x)
        for i in range(0, len(o), 600):
            part = o[i:i + 601]
            st = b"".join(v[k][1] for k in part)
            r = sut.convert(sc, st, fmt, cfg, cpu=120)
            acc.state("variants", num, i, oi, fmt)
            acc.transitions += len(part)
            acc.traces += 1
            want = {}
            for k in part:
                for p, ls in alone[k].items():
                    want.setdefault(p, []).extend(ls)
            for p in set(want) | {p for p in r.files if p.endswith(".obs")}:
                try:
                    got = ref.Obs(r.files[p], p).lines[2:] if p in r.files else None
                except (ValueError, UnicodeDecodeError) as e:
                    raise Violation(f"variants of {num}: {p}: {e}", stream=st, format=fmt, ini=cfg.ini())
                if got != want.get(p):
                    raise Violation(f"variants of {num}: {p}: {got is not None and len(got)} rows, {len(want.get(p, ()))} messages carry the "
                                    "observable, or a row differs from the one of the message alone", stream=st, format=fmt, ini=cfg.ini())
        acc.bump("variants", len(v))


def job_volume(acc, num, n):
    """Very many messages of one number: all rows regular and in order."""
    g, t = R.msm_of(num)
    q = sorted(R.SIGNALS[g])[0]
    per = 7
    fr = [mk(num, [1 + i % 5, 5 + i % 2], [q], [(1 + i % 5, q)] + ([(5 + i % 2, q)] if i % 5 != 4 or i % 2 else []), 1000 * i)
          for i in range(per)]
    cfg = opts(num % 4)
    with sut.Scratch() as sc:
        alone = {}
        for f in fr:
            for p, raw in fresh.convert(f, "MARGO", cfg).files.items():
                alone.setdefault(p, []).extend(ref.Obs(raw, p).lines[2:])
        r = sut.convert(sc, b"".join(fr) * n, "MARGO", cfg, cpu=300)
        acc.state("volume", num, n)
        acc.transitions += per * n
        acc.traces += 1
        if set(alone) != set(r.files):
            raise Violation(f"{per * n} messages {num}: files {sorted(set(alone) ^ set(r.files))[:4]} missing or unexpected",
                            stream=b"".join(fr), ini=cfg.ini())
        for p, raw in r.files.items():
            try:
                ls = ref.Obs(raw, p).lines[2:]
            except (ValueError, UnicodeDecodeError) as e:
                raise Violation(f"{per * n} messages {num}: {p}: {e}", stream=b"".join(fr), ini=cfg.ini())
            w = alone[p] * n
            if ls != w:
                k = next((i for i, (a, b) in enumerate(zip(ls, w)) if a != b), min(len(ls), len(w)))
                raise Violation(f"{per * n} messages {num}: {p}: {len(ls)} rows instead of {len(w)}, the first wrong one is "
                                f"number {k}", stream=b"".join(fr), ini=cfg.ini())


def run(c):
    c.fresh = True
    c.bounds = {"satellite sets": "every satellite x signal, all pairs, prefixes/suffixes of the mask" +
                pick("", ", all triples in range (GPS, GLONASS, QZSS, NavIC)"),
                "cell masks": "all 511 masks of 3x3", "options": "all 4", "variants": "every number: all ordered pairs of ~70 variants (header codes, masks, markers, days)", "volume": f"{pick(4200, 66500)} messages of every number",
                "sequences": f"all up to {pick(3, 4)} over 9 messages, MARGO and JARGO"}
    jobs = []
    for n in R.MSM_NUMS:
        o = (n + n // 10) % 4
        jobs += [(n, "single", 3), (n, "pairs", o), (n, "all", (o + 1) % 4)]
        jobs += [(n, "cells", k) for k in (pick([0, 3], [0, 1, 2, 3]))]
        if pick(0, 1) and R.msm_of(n)[0] in "GRQI":
            jobs += [(n, "trip", o)]
    c.run(job, jobs, "messages")
    c.run(job_seq, [(f, pick(3, 4), o, m) for f in range(9) for o in range(4) for m in ("MARGO", "JARGO")], "sequences")
    c.run(job_variants, [(n, o, f) for n in R.MSM_NUMS for o in pick(((n + n // 10) % 4,), range(4)) for f in pick(("MARGO",), ("MARGO", "JARGO"))],
          "pairs of variants")
    c.run(job_volume, [(n, pick(600, 9500)) for n in R.MSM_NUMS], "very long files")
    c.run(job_long, [(o, n) for o in range(4) for n in (500, pick(2000, 20000))], "long files")
