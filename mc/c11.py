"""C11: all 4096 message numbers in all four modes; all pairs of supported numbers; all signals of all MSM types."""
from . import lib, ref, rtcm as R, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("all 4096 message numbers x 4 modes, all ordered pairs of supported numbers, every signal of every MSM "
        "number; set of products, number of records and statistics compared with the designation table")


def renumber(f, num):
    p = f[3:-3]
    return R.frame(bytes([num >> 4, (num & 15) << 4 | p[1] & 15]) + p[2:])


def records(path, raw):
    """Number of records of a product; None if unreadable (not this property's business)."""
    try:
        if path.endswith(".json"):
            return len(ref.parse_json_product(raw)[1])
        return len(ref.Obs(raw, path).rows)
    except (ValueError, UnicodeDecodeError):
        return None


def check(acc, sc, frames, fmt, cfg, what):
    st = b"".join(frames)
    r = sut.convert(sc, st, fmt, cfg)
    acc.state(fmt, cfg.key(), st)
    acc.transitions += len(frames)
    acc.traces += 1
    e = ref.Products(frames, fmt, cfg)
    if set(r.files) != e.files():
        raise Violation(f"{what} in mode {fmt}: products {sorted(r.files)[:6]} instead of {sorted(e.files())[:6]}",
                        stream=st, format=fmt, ini=cfg.ini())
    pr = r.progress()
    if pr is None or pr[0] != e.attempts or pr[2] or pr[3]:
        raise Violation(f"{what} in mode {fmt}: {pr} reported, expected {e.attempts} decoding attempts without "
                        "errors", stream=st, format=fmt, ini=cfg.ini())
    for p, raw in r.files.items():
        n = records(p, raw)
        want = len(e.json[p][1]) if p in e.json else len(e.obs[p])
        if n is not None and n != want:
            raise Violation(f"{what} in mode {fmt}: {p} has {n} records instead of {want}", stream=st, format=fmt,
                            ini=cfg.ini())


def job_numbers(acc, nums, fmt):
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        for n in nums:
            if n in R.ALL_NUMS:
                for s in range(3):
                    check(acc, sc, [lib.good(n, SEED + 3 * s)], fmt, cfg, f"message {n}")
                continue
            nx = R.rng32(n)
            plain = R.frame(R.BitW().put(n, 12).put(nx(20), 20).put(nx(128), 128).bytes())
            near = min(R.ALL_NUMS, key=lambda k: (abs(k - n), k))
            same = [k for k in R.ALL_NUMS if k & 0xFF == n & 0xFF or k % 10 == n % 10]
            look = same[n % len(same)] if same else near
            fr = [plain, renumber(lib.good(near, 4), n), renumber(lib.good(look, 5), n),
                  R.frame(R.BitW().put(n, 12).put(0, 4).bytes())]
            check(acc, sc, fr, fmt, cfg, f"message {n}")
        acc.sample({"numbers": [nums[0], nums[-1]], "format": fmt}, 1)


def job_pairs(acc, a, fmt):
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        fa = lib.good(a, 1 + SEED)
        for b in R.ALL_NUMS:
            check(acc, sc, [fa, lib.good(b, 2 + SEED), fa], fmt, cfg, f"messages {a},{b},{a}")
        allm = [lib.good(n, 7) for n in R.ALL_NUMS]
        k = R.ALL_NUMS.index(a)
        check(acc, sc, allm[k:] + allm[:k], fmt, cfg, f"all messages, starting with {a}")


def job_signals(acc, num, fmt):
    g, _t = R.msm_of(num)
    sg = sorted(R.SIGNALS[g])
    with sut.Scratch() as sc:
        for hca in (False, True):
            for lt in (False, True):
                cfg = ref.Cfg(pretty=False, hca=hca, lt=lt)
                for q in sg:
                    check(acc, sc, [R.msm_fill(num, [1, 3], [q], [(1, q), (3, q)], q)], fmt, cfg,
                          f"message {num}, signal {q}")
                for i in range(0, len(sg), 3):
                    qq = sg[i:i + 3]
                    check(acc, sc, [R.msm_fill(num, [2], qq, [(2, q) for q in qq], i),
                                    R.msm_fill(num, [4], qq[:1], [(4, qq[0])], i)], fmt, cfg,
                          f"message {num}, signals {qq}")


def job_variants(acc, num, fmt):
    """Every variant of a message alone (same products whatever the contents), and all of them together."""
    with sut.Scratch() as sc:
        vs = lib.variants(num)
        if R.msm_of(num):
            vs = vs + lib.epochs(num)[::3]
        fs = [f for _w, f in vs if ref.decode(f, False) is not None]
        if fmt in ("JSON-B", "JARGO"):
            fs0 = fs[::5]
        else:
            fs0 = fs
        for cfg in (ref.Cfg(pretty=False), ref.Cfg(pretty=True, hca=True, lt=True, hdr=False, aux=False)):
            for f in fs0:
                check(acc, sc, [f], fmt, cfg, f"message {num}")
            check(acc, sc, fs, fmt, cfg, f"all variants of {num}")


def job_lengths(acc, nums, fmt):
    """Unsupported numbers near the supported ones with every kind of payload length."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        for n in nums:
            fr = []
            for size in (2, 3, 4, 7, 8, 18, 19, 21, 22, 45, 46, 61, 62, 64, 100, 255, 256, 511, 512, 767, 1022, 1023):
                for fill in (0, 0xff, 0x41):
                    fr.append(R.frame(bytes([n >> 4, (n & 15) << 4 | fill & 15]) + bytes([fill]) * (size - 2)))
            for k in R.ALL_NUMS:
                fr.append(renumber(lib.good(k, 6), n))
            check(acc, sc, fr, fmt, cfg, f"unsupported {n}")
            g = lib.good(1077, 2), lib.good(1005, 2), lib.good(1019, 2)
            check(acc, sc, [x for f in fr[::4] for x in (f,) + g], fmt, cfg, f"unsupported {n} between good ones")


def job_volume(acc, num, fmt, count):
    """A number repeated many times, between them an unsupported one: always the same products."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        per = [lib.good(num, i + 1) for i in range(16)]
        check(acc, sc, [x for i in range(count) for x in (per[i % 16], lib.unsupported(i))][:2 * count], fmt, cfg,
              f"{count} messages {num}")


def run(c):
    c.bounds = {"numbers": "0..4095 x 4 modes x 4 payloads", "pairs": "64 x 64 ordered pairs x 4 modes",
                "signals": "every signal of all 49 MSM numbers", "variants": "every variant of every number x 4 modes",
                "lengths": "66 payloads + the payloads of all 64 numbers for " + pick("the unsupported numbers "
                           "1000..1300 and 4050..4095", "every unsupported number"),
                "volume": pick(1100, 9000)}
    c.run(job_numbers, [(list(range(k, min(4096, k + 128))), f) for f in lib.FORMATS for k in range(0, 4096, 128)],
          "numbers")
    c.run(job_pairs, [(a, f) for a in R.ALL_NUMS for f in lib.FORMATS], "pairs")
    c.run(job_signals, [(n, f) for n in R.MSM_NUMS for f in ("MARGO", "JARGO")], "signals")
    c.run(job_variants, [(n, f) for n in R.ALL_NUMS for f in lib.FORMATS], "variants")
    un = [n for n in (list(range(1000, 1301)) + list(range(4050, 4096)) if pick(1, 0) else range(4096))
          if n not in R.ALL_NUMS]
    c.run(job_lengths, [(p, f) for p in lib.mapjobs(un, 20) for f in lib.FORMATS], "lengths")
    c.run(job_volume, [(n, f, pick(600, 9000)) for n in R.ALL_NUMS for f in pick(("JSON", "MARGO"), lib.FORMATS)], "volume")
