"""C17: context independence: all sequences of message kinds, repetitions, concatenations; differential vs. solo runs."""
import itertools

from . import fresh, lib, ref, rtcm as R, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("all sequences over message kinds up to the bound and long repetitions; what each message contributes is compared "
        "with the same message converted alone in a fresh process")


def kinds():
    k = {}
    for n in (1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230, 1019, 1020, 1041, 1042, 1044, 1045, 1046):
        k[str(n)] = lib.good(n, 2 + SEED)
    for n in (1071, 1072, 1073, 1074, 1075, 1076, 1077, 1087, 1127, 1097):
        k[f"{n}"] = lib.good(n, 3 + SEED)
    k["1077all"] = R.msm_fill(1077, [1, 2, 3, 4], [2, 3, 8, 15], [(s, q) for s in (1, 2, 3, 4) for q in (2, 3, 8, 15)], 9)
    k["1077one"] = R.msm_fill(1077, [9], [2], [(9, 2)], 9)
    k["1077inv"] = R.msm_fill(1077, [1, 2], [2, 3], [(1, 2), (1, 3), (2, 2), (2, 3)], 4, None,
                              {("sat", 0, "rng_ms"), ("cell", 2, "phase_fine"), ("sat", 1, "phase_rate_rough")})
    k["1073inv"] = R.msm_fill(1073, [1, 2], [2, 3], [(1, 2), (1, 3), (2, 2), (2, 3)], 4, None,
                              {("cell", 0, "rng_fine"), ("cell", 3, "phase_fine")})
    k["1077no"] = R.msm_fill(1077, [], [], [], 1)
    k["1013b"] = R.base_1013(1, 2, 3, 3, 4, [(1005, 1, 10), (1077, 0, 20), (1019, 1, 30)])
    k["1013z"] = R.base_1013(1, 2, 3, 0, 4, [(1006, 1, 11)])
    k["1230a"] = R.base_1230(3, 1, 15, [1, 2, 3, 4])
    k["1230z"] = R.base_1230(3, 0, 0, [])
    k["1029e"] = R.base_1029(4, 5, 6, 0, b"")
    k["1033e"] = R.base_str(1033, 4, 5, [b""] * 5)
    k["1033l"] = R.base_str(1033, 4, 5, [b"ANTENNA", b"SN123", b"RCV", b"FW1.2", b"77"])
    k["bad1077"] = lib.bad(1077, 0)
    k["bad1077l"] = lib.bad(1077, 2)
    k["bad1019"] = lib.bad(1019, 0)
    k["bad1013"] = lib.bad(1013, 0)
    k["bad1033"] = lib.bad(1033, 0)
    k["unsup"] = lib.unsupported(3)
    return k


CORE = ["1005", "1013b", "1013z", "1029", "1033l", "1033e", "1230a", "1230z", "1019", "1020", "1045", "1077", "1077all",
        "1077one", "1077inv", "1077no", "1073", "1073inv", "1074", "1087", "1127", "bad1077", "bad1019", "bad1013", "unsup"]


def lines(path, raw):
    """Records of a product, order preserved."""
    if path.endswith(".json"):
        return ref.parse_json_product(raw)
    o = ref.Obs(raw, path)
    return "\n".join(o.lines[:2]), o.lines[2:]


CACHE = {}


class Solo:
    def __init__(self, sc, fmt, cfg):
        self.sc, self.fmt, self.cfg = sc, fmt, cfg
        self.c = CACHE.setdefault((fmt, cfg.key()), {})
        if len(self.c) > 20000:
            self.c.clear()

    def get(self, f):
        if f not in self.c:
            r = fresh.convert(f, self.fmt, self.cfg)
            self.c[f] = {p: lines(p, raw) for p, raw in r.files.items()}
        return self.c[f]


def check(acc, sc, solo, frames, names):
    st = b"".join(frames)
    exp = {}
    for f in frames:
        for p, (h, rows) in solo.get(f).items():
            e = exp.setdefault(p, (h, []))
            e[1].extend(rows)
    r = sut.convert(sc, st, solo.fmt, solo.cfg, cpu=120)
    acc.state(solo.fmt, st)
    acc.transitions += len(frames)
    acc.traces += 1
    d = None
    if set(r.files) != set(exp):
        d = f"products {sorted(set(r.files) ^ set(exp))[:4]} missing or unexpected"
    else:
        for p in exp:
            try:
                h, rows = lines(p, r.files[p])
            except (ValueError, UnicodeDecodeError) as x:
                d = f"{p}: {x}"
                break
            if h != exp[p][0] or rows != exp[p][1]:
                k = next((i for i in range(min(len(rows), len(exp[p][1]))) if rows[i] != exp[p][1][i]), "count/head")
                d = f"{p}: record {k} differs from what the same message yields alone"
                break
    if d:
        raise Violation(f"{solo.fmt}: sequence {' '.join(names)[:300]}: {d}", stream=st, format=solo.fmt,
                        ini=solo.cfg.ini())


def job_seq(acc, fmt, first, depth, names, hca):
    k = kinds()
    with sut.Scratch() as sc:
        solo = Solo(sc, fmt, ref.Cfg(pretty=False, hca=hca, lt=hca))
        for d in range(depth):
            for rest in itertools.product(names, repeat=d):
                seq = (first,) + rest
                check(acc, sc, solo, [k[n] for n in seq], seq)
        acc.sample({"sequence": seq, "format": fmt}, 1)


def job_all(acc, fmt, reps):
    """Repetitions, rotations and concatenations."""
    k = kinds()
    names = list(k)
    with sut.Scratch() as sc:
        solo = Solo(sc, fmt, ref.Cfg(pretty=False, hca=True, lt=True))
        for r in range(len(names)):
            seq = names[r:] + names[:r]
            check(acc, sc, solo, [k[n] for n in seq], seq)
            check(acc, sc, solo, [k[n] for n in seq[::-1]], seq[::-1])
        for n in names:
            check(acc, sc, solo, [k[n]] * reps, [n, "x", str(reps)])
            check(acc, sc, solo, ([k[n]] + [k["1077"], k["1005"]]) * (reps // 4), [n, "1077 1005 x", str(reps // 4)])
        check(acc, sc, solo, [k[n] for n in names] * (reps // 10), ["all x", str(reps // 10)])


def job_numbers(acc, fmt, num):
    """Every number before and after every number, and between two different messages of its own number."""
    with sut.Scratch() as sc:
        solo = Solo(sc, fmt, ref.Cfg(pretty=False))
        a, b = lib.good(num, 4), lib.good(num, 9)
        for m in R.ALL_NUMS:
            x = lib.good(m, 6)
            check(acc, sc, solo, [a, x, b, x, a], [str(num), str(m), str(num) + "'", str(m), str(num)])


def job_variants(acc, fmt, num, hca):
    """All ordered pairs of the variants of one number (one cyclic sequence holding every pair), malformed ones included."""
    v = lib.variants(num)
    v += [("bad " + d, f) for d, f in lib.malformed(num)[-3:]]
    o = lib.debruijn(len(v))
    o = o + o[:1]
    with sut.Scratch() as sc:
        solo = Solo(sc, fmt, ref.Cfg(pretty=False, hca=hca, lt=hca))
        for d, f in v:
            check(acc, sc, solo, [f, v[0][1], f], [str(num), d, "twice around", v[0][0]])
        for i in range(0, len(o), 600):
            part = o[i:i + 601]
            check(acc, sc, solo, [v[k][1] for k in part], [f"{num}: pairs of variants {i}.. of the cycle"])
        acc.bump("variants", len(v))


def job_volume(acc, fmt, num, n):
    """Very many messages of one number: the last ones are converted like the first ones."""
    kw = dict(sats=[3, 4], sigs=[sorted(R.SIGNALS[R.msm_of(num)[0]])[0]]) if num in R.MSM_NUMS else {}
    fs = [lib.good(num, s, **kw) for s in (1, 2, 3, 6)] + [lib.malformed(num)[-1][1]]
    with sut.Scratch() as sc:
        check(acc, sc, Solo(sc, fmt, ref.Cfg(pretty=False)), (fs * (n // 5 + 1))[:n], [f"{n} messages {num}"])


def job_volume_mixed(acc, fmt, n):
    """Very many messages of all kinds in one run."""
    fs = [lib.good(x, s, **(dict(sats=[3], sigs=[2]) if 1071 <= x <= 1077 else {})) for s in (1, 2) for x in
          ((1071, 1074, 1077) if fmt == "MARGO" else (1005, 1029, 1033, 1230, 1013, 1007, 1071))]
    fs += [lib.bad(1077), lib.unsupported(2)]
    with sut.Scratch() as sc:
        check(acc, sc, Solo(sc, fmt, ref.Cfg(pretty=False)), (fs * (n // len(fs) + 1))[:n], [f"{n} mixed messages"])


def run(c):
    allk = list(kinds())
    c.fresh = True
    d = pick(3, 4)
    c.bounds = {"sequences": f"all of up to {d} over {len(CORE)} kinds (JSON-B{pick('', ', JSON, MARGO')}), up to 2 over "
                f"{len(allk)} in all modes, 3 over 12 in JSON, MARGO and JARGO", "repetitions": pick(200, 3000),
                "volume": f"{pick(4200, 70000)} messages of every number, {pick(70000, 300000)} mixed ones",
                "numbers": "all 64x64 interleavings",
                "variants": "per number: every header value class / field extreme / mask / marker / string variant, all ordered pairs"}
    c.run(job_seq, [(f, n, 2, allk, h) for f in lib.FORMATS for n in allk for h in (False,)], "pairs")
    core = CORE
    small = ["1013b", "1033e", "1230z", "1019", "1077all", "1077one", "1077inv", "1073inv", "1087", "bad1077", "1005",
             "unsup"]
    c.run(job_seq, [("JSON", n, 3, core, False) for n in core], "triples JSON")
    c.run(job_seq, [(f, n, 3, small, True) for f in ("JSON-B", "MARGO", "JARGO") for n in small], "triples")
    if d == 4:
        c.run(job_seq, [(f, n, 4, small, True) for f in ("JSON", "JSON-B", "MARGO") for n in small], "quadruples")
    c.run(job_volume_mixed, [(f, pick(70000, 300000)) for f in lib.FORMATS], "very long mixed streams")
    c.run(job_volume, [(f, n, pick(4200, 70000)) for n in R.ALL_NUMS for f in ("JSON", "JSON-B", "MARGO")
                       if f != "MARGO" or n in R.MSM_NUMS], "very long streams")
    c.run(job_all, [(f, pick(200, 3000)) for f in lib.FORMATS], "repetitions")
    c.run(job_variants, [(f, n, n % 2 == 0) for n in R.ALL_NUMS for f in
                         (pick(("JSON", "JSON-B", "MARGO"), lib.FORMATS) if n in R.MSM_NUMS else pick(("JSON", "JSON-B"), ("JSON", "JSON-B", "JARGO")))],
          "pairs of variants")
    c.run(job_numbers, [(f, n) for f in ("JSON", "JSON-B") for n in R.ALL_NUMS] +
          [("MARGO", n) for n in R.MSM_NUMS], "numbers")
