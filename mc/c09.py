"""C09: all subsets of 'not available' codes over the fields of MSM messages; suppression exactly as specified."""
import itertools

from . import lib, msmgen as G, ref, rtcm as R, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("exhaustive subsets of invalid markers (up to 2^16 per message) and near-marker codes; presence/absence "
        "against the model, surviving values against the same message without markers")
BATCH = 128
SATF = ("rng_ms", "phase_rate_rough")
CELLF = ("rng_fine", "phase_fine", "phase_rate_fine")


def slots(num, nsat, ncell):
    _g, t = R.msm_of(num)
    out = []
    for n, _k, w in R.MSM_SAT[t]:
        if (n, w) in R.MARK:
            out += [("sat", i, n) for i in range(nsat)]
    for n, _k, w in R.MSM_SGN[t]:
        if (n, w) in R.MARK:
            out += [("cell", i, n) for i in range(ncell)]
    return out


def grid(num, kind):
    """(sats, sigs, cells)"""
    g, _t = R.msm_of(num)
    sg = sorted(R.SIGNALS[g])
    mx = R.MAX_SATS[g]
    a, b, c = sorted({1 + SEED % 2, min(mx, 4 + SEED % 3), mx} | ({3} if mx < 8 else set()))[:3]
    if kind == "1x1":
        return [b], sg[-1:], [(b, sg[-1])]
    if kind == "1x2":
        return [b], sg[:2], [(b, q) for q in sg[:2]]
    if kind == "2x1":
        return [a, c], sg[:1], [(s, sg[0]) for s in (a, c)]
    q = [sg[0], sg[-1]]
    if kind == "2x2":
        return [a, b], q, [(s, x) for s in (a, b) for x in q]
    if kind.startswith("2x2-"):
        k = int(kind[4:])
        cs = [(s, x) for s in (a, b) for x in q]
        return [a, b], q, [x for i, x in enumerate(cs) if i != k]
    q = sg[:3]
    return [a, b, c], q, [(s, x) for s in (a, b, c) for x in q]


def subsets(sl, upto):
    if upto is None:
        for m in range(1 << len(sl)):
            yield frozenset(s for i, s in enumerate(sl) if m >> i & 1)
    else:
        for k in range(upto + 1):
            for c in itertools.combinations(sl, k):
                yield frozenset(c)


def tm_of(num, i):
    return {"time": 1000 + i}


class Batch:
    """Converts the base message and its variants together and compares them."""

    def __init__(self, acc, sc, num, kind, fmt, cfg):
        self.acc, self.sc, self.num, self.kind, self.fmt, self.cfg = acc, sc, num, kind, fmt, cfg
        self.buf = []

    def add(self, frame, label):
        self.buf.append((frame, label))
        if len(self.buf) >= BATCH:
            self.flush()

    def flush(self):
        if self.buf:
            base = R.msm_fill(self.num, *grid(self.num, self.kind), 5 + SEED, tm_of(self.num, 0))
            items = [(base, "no marks")] + self.buf
            self.buf = []
            d = self.diff(items)
            if d is not None:
                for it in items[1:]:
                    d1 = self.diff([items[0], it])
                    if d1 is not None:
                        raise Violation(f"{self.fmt} {self.num} {self.kind} marks {it[1]}: {d1[1]}",
                                        stream=items[0][0] + it[0], format=self.fmt, ini=self.cfg.ini())
                raise Violation(f"{self.fmt} {self.num} {self.kind}: {d[1]}",
                                stream=b"".join(f for f, _l in items), format=self.fmt, ini=self.cfg.ini())

    def diff(self, items):
        acc = self.acc
        frames = [f for f, _l in items]
        r = sut.convert(self.sc, b"".join(frames), self.fmt, self.cfg)
        acc.traces += 1
        acc.transitions += len(frames)
        for f in frames:
            acc.state(self.fmt, f)
        exp = [ref.decode(f, False) for f in frames]
        if self.fmt == "JSON":
            raw = r.files.get(R.JSON_FILE[self.num])
            if raw is None:
                return 0, "no product"
            try:
                objs = ref.parse_json_product(raw)[1]
            except ValueError as e:
                return 0, f"unreadable product {e}"
            if len(objs) != len(frames):
                return 0, f"{len(objs)} objects for {len(frames)} messages"
            base = None
            for i, (o, m) in enumerate(zip(objs, exp)):
                got = next(iter(o.values())).get("obs", {})
                if base is None:
                    base = got
                d = self.cells(m.obj["obs"], got, base)
                if d:
                    return i, d
            return None
        p = ref.Products(frames, self.fmt, self.cfg)
        rows = {}
        for path, raw in r.files.items():
            if not path.endswith(".obs"):
                continue
            o = ref.Obs(raw, path)
            rows[path] = {c[0]: c for c in o.rows}
        b0 = {}
        for path, want in p.obs.items():
            got = rows.get(path, {})
            for tm, vals in want:
                c = got.get(str(tm))
                if c is None:
                    if vals:
                        return 0, f"{path}: no row for epoch {tm}"
                    continue
                ref0 = b0.setdefault(path, c)
                for s in range(1, len(c)):
                    if s not in vals and not ref.is_nan(c[s]):
                        return 0, f"{path} epoch {tm} satellite {s}: {c[s]} although not available"
                    if s in vals and ref.is_nan(c[s]):
                        return 0, f"{path} epoch {tm} satellite {s}: NaN although available"
                    if self.same and s in vals and not ref.is_nan(ref0[s]) and ref0[s] != c[s]:
                        return 0, f"{path} epoch {tm} satellite {s}: changed to {c[s]} by a mark on another value"
        for path, got in rows.items():
            known = {str(t): v for t, v in p.obs.get(path, [])}
            for t, c in got.items():
                if t not in known and not all(ref.is_nan(x) for x in c[1:]):
                    return 0, f"{path}: values of epoch {t} although not available"
        return None

    def cells(self, want, got, base):
        for kind in ("rng", "phs", "ltm", "hca", "dpl", "c2n"):
            w, g = want[kind], got.get(kind, {})
            for sig in set(w) | set(g):
                a, b = w.get(sig, {}), g.get(sig, {})
                for s in set(a) | set(b):
                    if s not in a:
                        return f"{kind} of signal {sig} satellite {s} output ({b[s]}) although not available"
                    if s not in b:
                        return f"{kind} of signal {sig} satellite {s} missing although available"
                    if b[s] != base.get(kind, {}).get(sig, {}).get(s, b[s]) and self.same:
                        return (f"{kind} of signal {sig} satellite {s} changed to {b[s]} by a mark on another "
                                "value")
        return None

    same = True


def job(acc, num, kind, fmt, upto, part, parts, hca):
    cfg = ref.Cfg(pretty=False, hca=hca, lt=hca)
    sats, sigs, cells = grid(num, kind)
    sl = slots(num, len(sats), len(cells))
    with sut.Scratch() as sc:
        b = Batch(acc, sc, num, kind, fmt, cfg)
        for i, mk in enumerate(subsets(sl, upto)):
            if i % parts != part:
                continue
            f = R.msm_fill(num, sats, sigs, cells, 5 + SEED, tm_of(num, 1 + i), mk)
            b.add(f, sorted(mk))
        b.flush()
        acc.sample({"message": num, "grid": kind, "format": fmt, "markers": len(sl)}, 1)


def near(num):
    """(where, index, field, value): codes close to, or looking like, a marker."""
    _g, t = R.msm_of(num)
    for tab, where in ((R.MSM_SAT[t], "sat"), (R.MSM_SGN[t], "cell")):
        for n, _k, w in tab:
            mx = (1 << w) - 1
            vals = {0, 1, mx, mx - 1, mx >> 1, (mx >> 1) + 1, (mx >> 1) + 2}
            for (m, mw), v in R.MARK.items():
                for d in (-1, 0, 1):
                    vals.add((v + d) & mx)
                    vals.add((v - (1 << mw) + d) & mx)   # same signed value in another width
                    vals.add((-v + d) & mx)
            for i in (0, 1):
                for v in vals:
                    yield where, i, n, v


def job_near(acc, num, fmt):
    _g, t = R.msm_of(num)
    cfg = ref.Cfg(pretty=False)
    sats, sigs, cells = grid(num, "2x2")
    with sut.Scratch() as sc:
        b = Batch(acc, sc, num, "2x2", fmt, cfg)
        b.same = False
        for i, (where, k, n, v) in enumerate(near(num)):
            nx = R.rng32(num)
            sd = {m: [nx(w) % 200 for _ in sats] for m, _k, w in R.MSM_SAT[t]}
            cd = {m: [nx(w) % 300 & ((1 << w) - 1) for _ in cells] for m, _k, w in R.MSM_SGN[t]}
            (sd if where == "sat" else cd)[n][k] = v
            b.add(R.msm(num, {"rs_id": 1, "time": 1001 + i}, sats, sigs, cells, sd, cd), [n, k, hex(v)])
        b.flush()


def job_pairs(acc, num, fmt):
    """One-cell messages: all pairs of class values (markers included) of all pairs of fields."""
    g, _t = R.msm_of(num)
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        b = Batch(acc, sc, num, "1x1", fmt, cfg)
        b.same = False
        for i, f in enumerate(G.valpairs(num, sorted(R.SIGNALS[g]), False)):
            b.add(f, ["pair", i])
        b.flush()


def big_shapes(num):
    g, _t = R.msm_of(num)
    sg = sorted(R.SIGNALS[g])
    mx = R.MAX_SATS[g]
    for ns, ng in ((16, 4), (64, 1), (9, 7), (4, 16), (32, 2), (1, 24)):
        ng = min(ng, len(sg))
        ns = min(ns, mx)
        if G._fits(num, ns, ns * ng):
            yield list(range(mx - ns + 1, mx + 1)), sg[:ng]


def job_big(acc, num, fmt, k, upto):
    """Large messages: each marker alone, and all but one."""
    shapes = list(big_shapes(num))
    if k >= len(shapes):
        return
    sats, sigs = shapes[k]
    cells = [(s, q) for s in sats for q in sigs]
    sl = slots(num, len(sats), len(cells))
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        buf = []

        def flush():
            if not buf:
                return
            frames = [f for f, _l in buf]
            d = Batch.diff(bt, [(base, "none")] + buf)
            if d is not None:
                raise Violation(f"{fmt} {num}, {len(sats)} satellites x {len(sigs)} signals, one of marks "
                                f"{[x for _f, x in buf][:3]}...: {d[1]}", stream=base + b"".join(frames), format=fmt)
            buf.clear()
        bt = Batch(acc, sc, num, "big", fmt, cfg)
        base = R.msm_fill(num, sats, sigs, cells, 5 + SEED, tm_of(num, 0))
        sets = [frozenset([x]) for x in sl] + ([frozenset(sl) - {x} for x in sl] if upto else []) + [frozenset(sl)]
        for i, mk in enumerate(sets):
            buf.append((R.msm_fill(num, sats, sigs, cells, 5 + SEED, tm_of(num, 1 + i), mk), sorted(mk)[:1]))
            if len(buf) >= 60:
                flush()
        flush()


def run(c):
    full = [1075, 1077, 1085, 1087] if pick(True, False) else [n for n in R.MSM_NUMS if R.msm_of(n)[1] in (5, 7)]
    c.bounds = {"2x2 messages": f"all subsets of markers for MSM1-4, MSM6 of all GNSS and {full}; "
                                f"all subsets of up to {pick(3, 4)} for the rest (JSON)",
                "1x1, 1x2, 2x1 messages": "all subsets, JSON and MARGO",
                "3x3 and partial 2x2 messages": "all subsets of up to 2 markers",
                "pairs of fields": "all pairs of class values of all pairs of fields of a cell and its satellite, 2 backgrounds",
                "large messages": "6 shapes of up to 64 cells: each marker alone, all markers, all but one",
                "near markers": "all codes within 1 of any marker of any width, every field"}
    jobs = []
    for n in R.MSM_NUMS:
        _g, t = R.msm_of(n)
        if t in (5, 7) and n in full:
            jobs += [(n, "2x2", "JSON", None, i, 16, False) for i in range(16)]
        elif t in (5, 7):
            jobs += [(n, "2x2", "JSON", pick(3, 4), 0, 1, False)]
        else:
            jobs += [(n, "2x2", "JSON", None, 0, 1, False), (n, "2x2", "MARGO", pick(2, None), 0, 1, True)]
        if t in (5, 7):
            jobs += [(n, "2x2", "MARGO", pick(2, 3), 0, 1, True)]
        for k in ("1x1", "1x2", "2x1"):
            jobs += [(n, k, "JSON", None, 0, 1, False), (n, k, "MARGO", pick(4, None), 0, 1, n % 2 == 0)]
        for k in ("2x2-0", "2x2-1", "2x2-2", "2x2-3", "3x3"):
            jobs += [(n, k, "JSON", 2, 0, 1, False)]
        jobs += [(n, "3x3", "MARGO", pick(1, 2), 0, 1, False)]
    c.run(job, jobs, "marker subsets")
    c.run(job_pairs, [(n, f) for n in R.MSM_NUMS for f in ("JSON", "MARGO")], "pairs of fields")
    c.run(job_big, [(n, f, k, pick(k == 0, True)) for k in range(6) for n in R.MSM_NUMS for f in ("JSON", "MARGO")
                    if pick(f == "JSON" or k < 2, True)], "large messages")
    c.run(job_near, [(n, f) for n in R.MSM_NUMS for f in ("JSON", "MARGO")], "near markers")
