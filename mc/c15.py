"""C15: MARGO units, signs, decimals and carrier frequencies for all signals, satellites, literals and value classes."""
import itertools

from . import lib, msmgen as G, ref, rtcm as R, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("every signal x satellite x MSM number, GLONASS literal tables, field value classes; MARGO cells recomputed from "
        "the JSON observables of the same messages with independent carrier frequencies; header rows compared")


def check(acc, sc, num, frames, cfg, what, fmt="MARGO"):
    st = b"".join(frames)
    acc.transitions += len(frames)
    acc.traces += 1
    for f in frames:
        acc.state(cfg.key(), f)
    d = diff(sc, num, frames, cfg, fmt)
    if d is None:
        return
    for f in frames:
        d1 = diff(sc, num, [f], cfg, fmt)
        if d1:
            raise Violation(f"{what}: {d1}", stream=f, format=fmt, ini=cfg.ini())
    raise Violation(f"{what}: {d}", stream=st, format=fmt, ini=cfg.ini())


def diff(sc, num, frames, cfg, fmt):
    st = b"".join(frames)
    j = sut.convert(sc, st, "JSON", ref.Cfg(pretty=False))
    r = sut.convert(sc, st, fmt, cfg)
    objs = None
    try:
        objs = ref.parse_json_product(j.files[R.JSON_FILE[num]])[1]
    except (KeyError, ValueError):
        pass
    rows = {}
    for i, f in enumerate(frames):
        m = ref.decode(f, False)
        if objs is not None and len(objs) == len(frames):
            o = next(iter(objs[i].values())).get("obs")
            if o is not None:
                m.obj = {**m.obj, "obs": {**{k: {} for k in m.obj["obs"]}, **o}}
        for p, row in ref.margo_rows(m, cfg).items():
            rows.setdefault(p, []).append(row)
    for p, want in rows.items():
        raw = r.files.get(p)
        if raw is None:
            return f"{p} missing"
        try:
            o = ref.Obs(raw, p)
        except (ValueError, UnicodeDecodeError) as e:
            return f"{p}: {e}"
        d = ref.head_diff(p, o, cfg)
        if d:
            return f"{p}: {d}"
        if len(o.rows) != len(want):
            return f"{p}: {len(o.rows)} rows instead of {len(want)}"
        letter = p.rsplit("/", 1)[-1][1]
        for i, ((_t, vals), cols) in enumerate(zip(want, o.rows)):
            # columns only: the time mark belongs to another property
            d = ref.row_diff(letter, len(cols) - 1, (cols[0], vals), cols)
            if d:
                return f"{p}: row {i}: {d}"
    return None


def job_signals(acc, num, hca):
    g, t = R.msm_of(num)
    sg = sorted(R.SIGNALS[g])
    mx = R.MAX_SATS[g]
    cfg = ref.Cfg(pretty=False, hca=hca, lt=hca)
    with sut.Scratch() as sc:
        for q in sg:
            for sd in range(pick(3, 12)):
                fr = [R.msm_fill(num, ss, [q], [(s, q) for s in ss], sd * 10 + q + SEED) for ss in
                      (list(range(1, mx // 2 + 1)), list(range(mx // 2 + 1, mx + 1)))]
                check(acc, sc, num, fr, cfg, f"{num} signal {R.SIGNALS[g][q][0]}")
        for i in range(0, len(sg) - 1):
            qq = sg[i:i + 2]
            fr = [R.msm_fill(num, [s], qq, [(s, q) for q in qq], s) for s in range(1, mx + 1)]
            check(acc, sc, num, fr, cfg, f"{num} signals {qq}")
        acc.sample({"message": num, "signals": len(sg)}, 1)


def lit_cases():
    """Literal tables: every literal for every satellite, and single-satellite deviations."""
    for v in range(-7, pick(7, 14)):
        yield {s: v for s in range(1, 25)}
    for v in (13, -20, 100):
        yield {s: v for s in range(1, 25)}
    for k in range(pick(5, 21)):
        yield {s: (s * 5 + k * 3) % 21 - 7 for s in range(1, 25)}
    for s in range(1, 25):
        yield {s: ref.DEFAULT_LIT[s] + 1}
        yield {s: -ref.DEFAULT_LIT[s] - 8}


def job_lit(acc, num, lits):
    sg = sorted(R.SIGNALS["R"])
    with sut.Scratch() as sc:
        for lit in lits:
            cfg = ref.Cfg(pretty=False, hca=True, lit=lit)
            more = [R.msm_fill(num, ss, sg[i:i + 4], [(s, q) for s in ss for q in sg[i:i + 4]], 7 + i)
                    for i in range(4, len(sg), 4) for ss in (list(range(1, 13)), list(range(13, 25)))]
            fr = more + [R.msm_fill(num, list(range(1, 13)), sg[:2], [(s, q) for s in range(1, 13) for q in sg[:2]], 3),
                  R.msm_fill(num, list(range(13, 25)), sg[2:4], [(s, q) for s in range(13, 25) for q in sg[2:4]], 4),
                  R.msm_fill(num, list(range(13, 25)), sg[:2], [(s, q) for s in range(13, 25) for q in sg[:2]], 5),
                  R.msm_fill(num, list(range(1, 13)), sg[2:4], [(s, q) for s in range(1, 13) for q in sg[2:4]], 6)]
            check(acc, sc, num, fr, cfg, f"{num} literals {lit}")


def job_values(acc, num, hca, full, what="values", fmt="MARGO"):
    g, _t = R.msm_of(num)
    sg = [q for q in sorted(R.SIGNALS[g])]
    # satellites 4 and 11 of the value enumeration must have a column
    cfg = ref.Cfg(pretty=False, hca=hca, lt=True)
    with sut.Scratch() as sc:
        buf = []
        src = G.fieldvalues(num, sg, full, (0,)) if what == "values" else G.valpairs(num, sg, pick(False, True)) if what == "pairs" \
            else G.valwide(num, sg)
        for f in src:
            buf.append(f)
            if len(buf) == 200:
                check(acc, sc, num, buf, cfg, f"{num} field {what}", fmt)
                buf = []
        if buf:
            check(acc, sc, num, buf, cfg, f"{num} field {what}", fmt)


def run(c):
    c.bounds = {"signals": "every signal x every satellite column x 49 MSM numbers",
                "literals": f"{len(list(lit_cases()))} tables incl. every literal for every satellite",
                "combinations": "all pairs of class values of all pairs of fields; every class value for all satellites and all signals",
                "values": f"all values of fields up to {pick(10, 12)} bits, else boundary/walking patterns"}
    c.run(job_signals, [(n, h) for n in R.MSM_NUMS for h in (False, True)], "signals")
    ls = list(lit_cases())
    c.run(job_lit, [(n, ls[i::6]) for n in R.MSM_NUMS if R.msm_of(n)[0] == "R" for i in range(6)], "literals")
    c.run(job_values, [(n, bool(n % 2), pick(10, 12)) for n in R.MSM_NUMS], "values")
    c.run(job_values, [(n, bool(n % 3), 0, w, ("MARGO", "JARGO")[n // 10 % 2]) for w in ("pairs", "wide") for n in R.MSM_NUMS], "combinations")
