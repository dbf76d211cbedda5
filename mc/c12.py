"""C12: JSON products well-formed, complete, ordered: all message sequences x options, all characters, long files."""
import itertools
import json

from . import fresh, lib, ref, rtcm as R, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("all sequences of message kinds up to the bound x all JSON option combinations x 3 modes, every Unicode "
        "character in texts, long files; list structure, order and sections against the model, objects against the "
        "same message converted alone")
OPTS = [dict(pretty=p, hdr=h, aux=a) for p in (False, True) for h in (False, True) for a in (False, True)]
KINDS = {
    "base": lambda i: R.base_ref(1005, {**lib.rand_fields(R.BASE[1005], 5 + i, 1005), "bsID": i + 1}),
    "text": lambda i: R.base_1029(i + 1, 5, 6, 7, ('q"\\\r\n],[{}\t' + chr(0x400 + i)).encode()),
    "empty": lambda i: R.base_str(1007, i + 1, 2, [b""]),
    "eph": lambda i: lib.good(1020, 3 + i),
    "msm7": lambda i: R.msm_fill(1077, [3], [2], [(3, 2)], i, {"time": 1000 * i}),
    "glo": lambda i: R.msm_fill(1084, [3, 7], [2], [(3, 2), (7, 2)], i, {"time": (i % 7) << 27 | 5000 + i}),
    "msm1": lambda i: R.msm_fill(1121, [30], [2], [(30, 2)], i, {"time": 77}),
    "nosat": lambda i: R.msm_fill(1094, [], [2], [], i, {"time": 100 * i}),
    "bad": lambda i: lib.bad(1005, i % 2),
    "badmsm": lambda i: lib.bad(1077, i % 3),
    "unsup": lambda i: lib.unsupported(i),
}


class Solo:
    """Object of a message converted alone, per mode and options."""

    def __init__(self, sc):
        self.sc, self.cache = sc, {}

    def get(self, f, fmt, cfg):
        k = (f, fmt, cfg.hdr, cfg.aux)
        if k not in self.cache:
            c2 = ref.Cfg(pretty=False, hdr=cfg.hdr, aux=cfg.aux)
            r = fresh.convert(f, fmt, c2)
            got = [o for p, raw in sorted(r.files.items()) if p.endswith(".json")
                   for o in ref.parse_json_product(raw)[1]]
            if len(self.cache) > 4000:
                self.cache.clear()
            self.cache[k] = got
        return self.cache[k]


def sections(e, g):
    """MSM key and sections."""
    if not (isinstance(e, dict) and len(e) == 1 and isinstance(next(iter(e.values())), dict)
            and ({"obs", "sat"} & set(next(iter(e.values()))))):
        return None
    if list(g) != list(e):
        return f"keyed {list(g)} instead of {list(e)}"
    a, b = next(iter(e.values())), next(iter(g.values()))
    if set(a) != set(b):
        return f"sections {sorted(b)} instead of {sorted(a)}"
    return None


def check(acc, sc, frames, fmt, cfg, what, solo=None, values=False):
    st = b"".join(frames)
    r = sut.convert(sc, st, fmt, cfg, cpu=120)
    acc.state(fmt, cfg.key(), st)
    acc.transitions += len(frames)
    acc.traces += 1
    e = ref.Products(frames, fmt, cfg)
    d = None
    files = {p: x for p, x in r.files.items() if p.endswith(".json")}
    if set(files) != set(e.json):
        d = f"products {sorted(files)} instead of {sorted(e.json)}"
    src = {}
    for f, x in zip(frames, e.per_frame):
        if x and x[0] == "json":
            src.setdefault(x[1], []).append(f)
    for p, raw in files.items():
        if d:
            break
        try:
            raw.decode("utf-8")
            typ, objs = ref.parse_json_product(raw)
        except (ValueError, UnicodeDecodeError) as x:
            d = f"{p}: {x}"
            break
        t, want = e.json[p]
        if typ != t:
            d = f"{p}: source type {typ} instead of {t}"
        elif len(objs) != len(want):
            d = f"{p}: {len(objs)} objects for {len(want)} decoded messages"
        for i, (w, o) in enumerate(zip(want, objs)):
            if d:
                break
            d = sections(w, o)
            if d is None and solo is not None:
                alone = solo.get(src[p][i], fmt, cfg)
                if alone != [o]:
                    d = "differs from the object of the same message converted alone"
            if d is None and values:
                d = ref.obj_diff(w, o, fmt == "JSON-B")
            d = d and f"{p}: object {i}: {d}"
    if d:
        raise Violation(f"{what} ({fmt}, pretty={cfg.pretty} hdr={cfg.hdr} aux={cfg.aux}): {d}",
                        stream=st, format=fmt, ini=cfg.ini())


def job_seq(acc, fmt, first, depth, opts):
    names = list(KINDS)
    with sut.Scratch() as sc:
        solo = Solo(sc)
        for o in opts:
            cfg = ref.Cfg(**OPTS[o])
            for k in range(depth):
                for rest in itertools.product(names, repeat=k):
                    seq = (first,) + rest
                    fr = [KINDS[n](SEED + i) for i, n in enumerate(seq)]
                    check(acc, sc, fr, fmt, cfg, "sequence " + " ".join(seq), solo)
        acc.sample({"sequence": seq, "format": fmt, "options": OPTS[o]}, 1)


def texts(chars, size):
    buf, n = [], 0
    for ch in chars:
        b = chr(ch).encode()
        if n + len(b) > size:
            yield b"".join(buf)
            buf, n = [], 0
        buf.append(b)
        n += len(b)
    if buf:
        yield b"".join(buf)


def job_chars(acc, lo, hi, fmt, pretty):
    cfg = ref.Cfg(pretty=pretty)
    ch = [x for x in range(lo, hi) if not 0xD800 <= x < 0xE000]
    with sut.Scratch() as sc:
        fr = [R.base_1029(i & 4095, 1, 2, 3, t) for i, t in enumerate(texts(ch, 251))]
        fr += [R.base_str(1033, i & 4095, 1, [t[:k] for k in (0,)] + [t, b"", t, b"z"])
               for i, t in enumerate(texts(ch[::7], 200))]
        fr += [R.base_str(1008, 5, 1, [t, t]) for t in texts(ch[::5], 250)]
        for i in range(0, len(fr), 400):
            check(acc, sc, fr[i:i + 400], fmt, cfg, f"texts with U+{lo:04X}..U+{hi - 1:04X}", None, True)


def job_single(acc, fmt, pretty):
    """Each ASCII character alone, doubled and at either end."""
    cfg = ref.Cfg(pretty=pretty)
    with sut.Scratch() as sc:
        fr = []
        for c in range(128):
            ch = bytes([c])
            fr += [R.base_1029(c, 1, 2, 1, ch), R.base_1029(c, 1, 2, 2, ch + ch), R.base_1029(c, 1, 2, 3, b"a" + ch),
                   R.base_1029(c, 1, 2, 3, ch + b"a"), R.base_str(1007, c, 0, [ch]),
                   R.base_str(1008, c, 0, [b"", ch])]
        check(acc, sc, fr, fmt, cfg, "ASCII characters", None, True)


def job_long(acc, fmt, n, pretty):
    cfg = ref.Cfg(pretty=pretty)
    with sut.Scratch() as sc:
        names = [k for k in KINDS]
        fr = [KINDS[names[(i * 7 + i // 11) % len(names)]](i % 4000) for i in range(n)]
        check(acc, sc, fr, fmt, cfg, f"{n} mixed messages")
        fr = [KINDS["base"](i % 4000) for i in range(n)]
        check(acc, sc, fr, fmt, cfg, f"{n} messages 1005")
        fr = [lib.good(m, 1 + i) for i in range(max(1, n // 200)) for m in R.ALL_NUMS]
        check(acc, sc, fr, fmt, cfg, f"{len(fr)} messages of all numbers")


def job_variants(acc, fmt, num, oi):
    """Every variant and epoch of one number: one object each, right key and sections, as when converted alone."""
    cfg = ref.Cfg(**OPTS[oi])
    v = lib.variants(num) + (lib.epochs(num, pick(False, True)) if num in R.MSM_NUMS else [])
    bad = lib.malformed(num)
    with sut.Scratch() as sc:
        solo = Solo(sc)
        check(acc, sc, [f for _d, f in v], fmt, cfg, f"all variants of {num}", solo)
        fr = []
        for i, (_d, f) in enumerate(v):
            fr += [f, bad[i % len(bad)][1], f]
        check(acc, sc, fr, fmt, cfg, f"all variants of {num}, twice around malformed messages", solo)
        acc.bump("variants", len(v))


def job_volume(acc, fmt, num, n):
    """Very many messages of one number with a few malformed ones: a valid list with every object, in order."""
    kw = dict(sats=[3, 4], sigs=[sorted(R.SIGNALS[R.msm_of(num)[0]])[0]]) if num in R.MSM_NUMS else {}
    fs = [lib.good(num, s, **kw) for s in (1, 2, 3)]
    bad = lib.malformed(num)[-1][1]
    cfg = ref.Cfg(pretty=False)
    st = b"".join(fs) * (n // 3) + bad
    with sut.Scratch() as sc:
        one = [fresh.convert(f, fmt, cfg).files.get(R.JSON_FILE[num]) for f in fs]
        one = [ref.parse_json_product(x)[1] if x else [] for x in one]
        want = [o for x in one for o in x] * (n // 3)
        r = sut.convert(sc, st * 2, fmt, cfg, cpu=300)
        acc.state("volume", fmt, num, n)
        acc.transitions += 2 * n
        acc.traces += 1
        raw = r.files.get(R.JSON_FILE[num])
        what = f"{2 * n} messages {num} ({fmt})"
        if raw is None:
            raise Violation(f"{what}: no product", stream=fs[0], format=fmt)
        try:
            got = ref.parse_json_product(raw)[1]
        except (ValueError, UnicodeDecodeError) as e:
            raise Violation(f"{what}: {e}", stream=st[:5000], format=fmt)
        if got != want * 2:
            k = next((i for i, (a, b) in enumerate(zip(got, want * 2)) if a != b), min(len(got), 2 * len(want)))
            raise Violation(f"{what}: {len(got)} objects instead of {2 * len(want)}, the first wrong one is number {k}",
                            stream=st[:5000], format=fmt)


def run(c):
    depth = pick(3, 4)
    c.fresh = True
    c.bounds = {"sequences": f"all sequences of up to {depth} of {len(KINDS)} kinds x 3 modes x 8 option sets",
                "variants": "every number x every header value class, field extreme, mask, marker, string; 60..70 epochs (GLONASS: all days)",
                "characters": pick("the whole BMP, every 4th block of the other planes", "all of Unicode"),
                "long": pick(3000, 30000), "volume": f"{pick(4200, 66000)} messages of every number, 70200 of 1005"}
    fm = ("JSON", "JSON-B", "JARGO")
    c.run(job_single, [(f, p) for f in fm for p in (False, True)], "ASCII")
    c.run(job_chars, [(lo, lo + 2048, f, (lo >> 11) % 2 == 0) for lo in range(0, 0x10000, 2048) for f in ("JSON", "JARGO")]
          + [(lo, lo + 4096, "JSON", False) for lo in range(0x10000, 0x110000, pick(16384, 4096))], "characters")
    c.run(job_long, [(f, n, p) for f in fm for n in (300, pick(3000, 30000)) for p in (False, True)], "long files")
    c.run(job_variants, [(f, n, o) for n in R.ALL_NUMS for f, oo in
                         (("JSON", pick(((n + n // 10) % 8, 7), range(8))), ("JSON-B", pick(((n + n // 7) % 8,), range(8))), ("JARGO", (5,)))
                         for o in oo if f != "JARGO" or n not in R.MSM_NUMS], "variants")
    c.run(job_volume, [(f, n, pick(2100, 33000)) for n in R.ALL_NUMS for f in ("JSON", "JSON-B")] +
          [(f, n, 35100) for f in fm for n in pick((1005,), (1005, 1071, 1029))], "very long files")
    c.run(job_seq, [(f, k, depth, [o]) for f in fm for k in KINDS for o in range(8)], "sequences")
