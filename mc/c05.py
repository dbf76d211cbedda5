"""C05: ephemeris decoding, every field value class in both JSON modes."""
from . import lib, ref, rtcm as R, sut
from .core import SEED, pick

LEVEL = "model_checking"
BATCH = 400


def ends(w):
    mx = (1 << w) - 1
    return sorted({0, 1, mx, mx >> 1, (mx >> 1) + 1} & set(range(mx + 1)) if w < 20 else {0, 1, mx, mx >> 1, (mx >> 1) + 1})


def _cases(num, full):
    """Raw field assignments (dict) and trailing bytes."""
    lay = R.EPH[num]
    bgs = [{n: 0 for n, _k, w, _r in lay}, {n: (1 << w) - 1 for n, _k, w, _r in lay},
           lib.rand_fields(lay, SEED, num), lib.rand_fields(lay, SEED + 1, num)]
    for bg in bgs:
        yield bg, b""
        for n, k, w, _r in lay:
            for v in lib.field_values(w, full):
                if bg[n] != v:
                    yield {**bg, n: v}, b""
    bg = bgs[2]
    for i, (n, _k, w, _r) in enumerate(lay):
        for m, _k2, w2, _r2 in lay[i + 1:]:
            for v in ends(w):
                for v2 in ends(w2):
                    yield {**bg, n: v, m: v2}, b""
    size = (R.EPH_BITS[num] + 7) // 8
    for bg in (bgs[2], bgs[1]):
        for extra in range(1, 1024 - size):
            yield bg, (b"\xff" if extra % 2 else b"\x00") * extra


def job(acc, num, fmt, lo, hi, full):
    cfg = ref.Cfg(pretty=False)
    buf = []
    with sut.Scratch() as sc:
        for i, (raw, extra) in enumerate(_cases(num, full)):
            if i < lo or i >= hi:
                continue
            buf.append(R.eph(num, raw, extra))
            if len(buf) >= BATCH:
                lib.batch(acc, sc, buf, fmt, cfg, "ephemeris decoding")
                acc.sample({"message": num, "format": fmt, "frame": buf[0].hex()}, 1)
                buf = []
        if buf:
            lib.batch(acc, sc, buf, fmt, cfg, "ephemeris decoding")


def run(c):
    full = pick(12, 16)
    c.bounds = {"fields": f"all values up to {full} bits, else boundary/walking patterns, on 4 backgrounds",
                "pairs": "all field pairs x 5x5 extreme values", "trailing bytes": "0..1023-layout"}
    jobs = []
    for num in R.EPH_NUMS:
        n = sum(1 for _ in _cases(num, full))
        for fmt in ("JSON", "JSON-B"):
            for lo in range(0, n, 6000):
                jobs.append((num, fmt, lo, min(lo + 6000, n), full))
    c.run(job, jobs, "fields")
