"""C07: bare MSM output, all header fields, masks, shapes and field values of all 49 numbers."""
from . import lib, msmgen as G, ref, rtcm as R, sut
from .core import pick

LEVEL = "model_checking"
BATCH = 200


def frames(num, what, deep):
    g, t = R.msm_of(num)
    any_sig = range(1, 33)
    if what == "hdr":
        yield from G.headers(num, [5, 9], [2, 17], 12)
        yield from G.nosat(num)
    elif what == "sat":
        yield from G.satmasks(num, 1 + num % 32, deep or (num // 10 + num) % 7 == 0)
    elif what == "sig":
        yield from G.sigmasks(num, any_sig, deep)
    elif what == "cell":
        yield from G.cellmasks(num, [1, 2, 8, 16, 17, 24, 31, 32, 30, 29], pick(7, 10))
    elif what == "shape":
        yield from G.shapes(num, any_sig)
    elif what == "pair":
        yield from G.valpairs(num, any_sig, deep)
    elif what == "wide":
        yield from G.valwide(num, any_sig)
    else:
        yield from G.fieldvalues(num, [2, 31], pick(10, 15), None if (g == "G" or deep) else (1,))


def job(acc, num, what, deep):
    cfg = ref.Cfg(pretty=False)
    buf = []
    with sut.Scratch() as sc:
        for f in frames(num, what, deep):
            buf.append(f)
            if len(buf) >= BATCH:
                lib.batch(acc, sc, buf, "JSON-B", cfg, "bare MSM output")
                acc.sample({"message": num, "enumeration": what, "frame": buf[0].hex()[:160]}, 1)
                buf = []
        if buf:
            lib.batch(acc, sc, buf, "JSON-B", cfg, "bare MSM output")
            acc.sample({"message": num, "enumeration": what, "frame": buf[0].hex()[:160]}, 1)


def run(c):
    deep = pick(False, True)
    c.bounds = {"cell masks": f"all masks of all shapes with at most {pick(7, 10)} cells",
                "shapes": "all Nsat x Nsig up to 64 cells x 6 cell patterns",
                "satellites": "each alone, all but each, all 64" + (", all pairs" if deep else ", pairs for 7 numbers"),
                "signals": "each alone, all pairs" + (", all triples" if deep else ""),
                "fields": f"all values up to {pick(10, 15)} bits, else boundary/walking"}
    c.run(job, [(n, w, deep) for w in ("pair", "wide", "shape", "sat", "val", "cell", "sig", "hdr")
                for n in R.MSM_NUMS], "MSM")
