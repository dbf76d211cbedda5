"""C08: scaled MSM observables and their attribution, all GNSS, types, satellites, signals, codes."""
from . import lib, msmgen as G, ref, rtcm as R, sut
from .core import pick

LEVEL = "model_checking"
BATCH = 150


def frames(num, what, deep):
    g, t = R.msm_of(num)
    sg = sorted(R.SIGNALS[g])
    if what == "hdr":
        yield from G.headers(num, [5, 9], sg[:2], 12)
        if g == "R":
            for day in range(8):
                for tm in (0, 1, 86399999, 86400999, 134217727, 1 << 26, 43200000):
                    yield R.msm_fill(num, [5], sg[:1], [(5, sg[0])], 3, {"time": day << 27 | tm})
        yield from G.nosat(num)
    elif what == "sat":
        yield from G.satmasks(num, sg[num % len(sg)], deep or (num // 10 + num) % 7 == 3)
        for q in sg:
            for s in range(1, 65):
                yield R.msm_fill(num, [s], [q], [(s, q)], s + q)
    elif what == "sig":
        yield from G.sigmasks(num, sg, True)
    elif what == "cell":
        yield from G.cellmasks(num, sg, pick(7, 10))
    elif what == "pair":
        yield from G.valpairs(num, sg, deep or num % 10 in (4, 7) and g in "GR")
    elif what == "wide":
        yield from G.valwide(num, sg)
    elif what == "shape":
        yield from G.shapes(num, sg)
    else:
        yield from G.fieldvalues(num, sg, pick(10, 15), None if (g == "G" or deep) else (1,))


def job(acc, num, what, deep):
    cfg = ref.Cfg(pretty=False)
    buf = []
    with sut.Scratch() as sc:
        for f in frames(num, what, deep):
            buf.append(f)
            if len(buf) >= BATCH:
                lib.batch(acc, sc, buf, "JSON", cfg, "scaled MSM output")
                buf = []
        if buf:
            lib.batch(acc, sc, buf, "JSON", cfg, "scaled MSM output")
            acc.sample({"message": num, "enumeration": what, "frame": buf[0].hex()[:160]}, 1)


def run(c):
    deep = pick(False, True)
    c.bounds = {"cell masks": f"all masks of all shapes with at most {pick(7, 10)} cells",
                "shapes": "all Nsat x Nsig up to 64 cells x 6 cell patterns",
                "satellites x signals": "every satellite 1..64 with every defined signal of every GNSS and type",
                "field combinations": "all pairs of class values of all pairs of fields of a cell and its satellite, two backgrounds; triples of extremes; every class value for all satellites and all signals at once",
                "signals": "all pairs and triples, all subsets for GNSS with up to 10 signals",
                "fields": f"all values up to {pick(10, 15)} bits (all lock-time codes), else boundary/walking"}
    c.run(job, [(n, w, deep) for w in ("pair", "wide", "shape", "sat", "val", "cell", "sig", "hdr")
                for n in R.MSM_NUMS], "MSM")
