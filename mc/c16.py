"""C16: JARGO = MARGO observables + JSON ephemeris/base files: all message sequences and option sets of the bound."""
import itertools

from . import lib, ref, rtcm as R, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("all sequences of message kinds up to the bound, all numbers, all pairs of numbers, all option combinations: "
        "the JARGO folder is compared byte for byte with those of MARGO and JSON mode")

KINDS = [
    ("1005", lambda i: lib.good(1005, 1 + i)), ("1029", lambda i: lib.good(1029, 3 + i)),
    ("1019", lambda i: lib.good(1019, 1 + i)), ("1020", lambda i: lib.good(1020, 1 + i)),
    ("1077", lambda i: lib.good(1077, 1 + i)), ("1084", lambda i: lib.good(1084, 2 + i)),
    ("1071", lambda i: lib.good(1071, 2 + i)), ("1127", lambda i: lib.good(1127, 2 + i)),
    ("bad1077", lambda i: lib.bad(1077, 1)), ("bad1005", lambda i: lib.bad(1005, 1)),
    ("unsup", lambda i: lib.unsupported(i)), ("gap", lambda i: b"\xd3\x01zz"),
]


def check(acc, sc, st, cfg, what):
    res = {f: sut.convert(sc, st, f, cfg).files for f in ("MARGO", "JSON", "JARGO")}
    acc.state(cfg.key(), st)
    acc.transitions += 3
    acc.traces += 1
    want = dict(res["MARGO"])
    want.update({p: b for p, b in res["JSON"].items() if not p.split("/")[0].startswith("MSM")})
    if any(not p.endswith(".obs") for p in res["MARGO"]):
        raise Violation(f"{what}: MARGO mode produced {sorted(res['MARGO'])}", stream=st, format="MARGO", ini=cfg.ini())
    got = res["JARGO"]
    d = None
    if set(got) != set(want):
        d = f"files missing {sorted(set(want) - set(got))[:4]}, unexpected {sorted(set(got) - set(want))[:4]}"
    else:
        d = next((f"{p} differs from its counterpart" for p in want if got[p] != want[p]), None)
    if d:
        raise Violation(f"{what}: {d}", stream=st, format="JARGO", ini=cfg.ini())
    acc.bump("files_compared", len(want))


def job_seq(acc, first, depth, opts):
    with sut.Scratch() as sc:
        cfg = ref.Cfg(**opts)
        for k in range(depth):
            for rest in itertools.product(range(len(KINDS)), repeat=k):
                seq = (first,) + rest
                st = b"".join(KINDS[t][1](SEED + i) for i, t in enumerate(seq))
                check(acc, sc, st, cfg, "sequence " + " ".join(KINDS[t][0] for t in seq))
        acc.sample({"sequence": [KINDS[t][0] for t in seq], "options": opts}, 1)


def job_numbers(acc, nums):
    with sut.Scratch() as sc:
        for a in nums:
            for k in range(pick(2, 8)):
                check(acc, sc, lib.good(a, 5 * k + SEED), ref.Cfg(hca=k % 2 == 0, lt=k % 2 == 1), f"message {a}")
            for b in R.ALL_NUMS:
                check(acc, sc, lib.good(a, 3) + lib.good(b, 4) + lib.good(a, 5),
                      ref.Cfg(hca=(a + b) % 2 == 0, lt=(a + b) % 4 < 2, aux=a % 2 == 0), f"messages {a},{b},{a}")


def job_variants(acc, num, opts):
    """Every variant of a message alone, and all of them in one stream, forwards and backwards."""
    cfg = ref.Cfg(**opts)
    with sut.Scratch() as sc:
        vs = lib.variants(num)
        if R.msm_of(num):
            vs = vs + lib.epochs(num, True)
        for w, f in vs:
            check(acc, sc, f, cfg, f"message {num} ({w})")
        fs = [f for _w, f in vs]
        check(acc, sc, b"".join(fs), cfg, f"all variants of {num}")
        check(acc, sc, b"".join(reversed(fs)), cfg, f"all variants of {num}, reversed")
        other = lib.good(1077 if num != 1077 else 1005, 2)
        check(acc, sc, other.join(fs), cfg, f"all variants of {num}, interleaved with another message")


def job_malformed(acc, num):
    """Every malformed message of a number before, between and after good messages of its own and other kinds."""
    with sut.Scratch() as sc:
        for cfg in (ref.Cfg(), ref.Cfg(hca=True, lt=True, pretty=False)):
            for w, f in lib.malformed(num):
                g = lib.good(num, 2)
                o = lib.good(1084, 3) + lib.good(1019, 3) + lib.good(1005, 3)
                check(acc, sc, f, cfg, f"malformed {num} ({w})")
                check(acc, sc, g + f + g, cfg, f"malformed {num} ({w}) between good ones")
                check(acc, sc, f + o + f + g + o, cfg, f"malformed {num} ({w}) and other messages")


def job_volume(acc, nums, count):
    """Many messages of one number (or of several in turn)."""
    with sut.Scratch() as sc:
        per = [b"".join(lib.good(n, i + 1) for n in nums) for i in range(32)]
        st = b"".join(per[i % 32] for i in range(count))
        for cfg in (ref.Cfg(), ref.Cfg(hca=True, lt=True, pretty=False))[:pick(1, 2)]:
            check(acc, sc, st, cfg, f"{count} x messages {nums}")


def job_opts(acc, bits):
    with sut.Scratch() as sc:
        for b in bits:
            cfg = ref.Cfg(hca=bool(b & 1), lt=bool(b & 2), pretty=bool(b & 4), hdr=bool(b & 8), aux=bool(b & 16),
                          shift=(18, 19, 0, -3, 37, 3600, 10800, 1)[b // 2 % 8], lit={t: (t * 5 + b) % 27 - 13 for t in range(1, 25)})
            st = b"".join(lib.good(n, 1 + k) for k in range(4) for n in R.ALL_NUMS)
            st += b"".join(f for n in (1081, 1084, 1086, 1087) for _w, f in lib.variants(n))
            check(acc, sc, st, cfg, f"all messages, options {b:05b}")


def run(c):
    c.bounds = {"sequences": f"all of up to 3 of {len(KINDS)} pieces x {pick(2, 4)} option sets" +
                pick("", "; length 4 for one option set"), "options": "all 32", "numbers": "all 64 and all ordered pairs",
                "variants": "every variant of every number alone and together", "volume": "up to 4200 of each number"}
    os = [dict(), dict(hca=True, lt=True, pretty=False, aux=False), dict(hdr=False), dict(lt=True, pretty=False)]
    c.run(job_opts, [([b],) for b in range(32)], "options")
    c.run(job_seq, [(f, 3, o) for o in os[:pick(2, 4)] for f in range(len(KINDS))], "sequences")
    if pick(0, 1):
        c.run(job_seq, [(f, 4, os[1]) for f in range(len(KINDS))], "sequences of 4")
    c.run(job_numbers, [([n],) for n in R.ALL_NUMS], "numbers")
    c.run(job_variants, [(n, o) for n in R.ALL_NUMS for o in (os[1:3] if pick(0, 1) else [os[1]])] +
          [(n, os[0]) for n in R.ALL_NUMS if not R.msm_of(n)], "variants")
    c.run(job_malformed, [(n,) for n in R.ALL_NUMS], "malformed")
    c.run(job_volume, [([n], 1100 if R.msm_of(n) else 4200) for n in R.ALL_NUMS] + [(R.ALL_NUMS, 140)], "volume")
