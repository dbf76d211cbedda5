"""C06: base-station messages, every field class, string, count and presence combination."""
from . import lib, ref, rtcm as R, sut
from .core import SEED, pick

LEVEL = "model_checking"
BATCH = 300


def _ref_cases(num, full):
    lay = R.BASE[num]
    bgs = [{n: 0 for n, _k, w, _r in lay}, {n: (1 << w) - 1 for n, _k, w, _r in lay},
           lib.rand_fields(lay, SEED, num)]
    for bg in bgs:
        yield bg
        for n, _k, w, _r in lay:
            for v in lib.field_values(w, full):
                if bg[n] != v:
                    yield {**bg, n: v}
    bg = bgs[2]
    for i, (n, _k, w, _r) in enumerate(lay):
        for m, _k2, w2, _r2 in lay[i + 1:]:
            for v in (0, (1 << w) - 1, 1 << (w - 1)):
                for v2 in (0, (1 << w2) - 1, 1 << (w2 - 1)):
                    yield {**bg, n: v, m: v2}


# one representative of every UTF-8 length and boundary, JSON specials, blanks, controls
CHARS = [chr(i) for i in range(128)] + list(
    "\x80\x85\xa0\xad\xff\u0100\u07ff\u0800\u2028\u2029\ufeff\ufffd\uffff\ud7ff\ue000"
    "\U00010000\U0001f600\U0010ffff\u3042\u0416\xe9\u200b")


# sequences that text processing likes to rewrite: combining, compatibility and composed forms, joiners, case pairs,
# line ends, escapes, entities, percent and quoted forms, numbers, blanks around, byte-order marks inside
SEQS = ["e\u0301", "\xe9", "\u212b", "A\u030a", "\ufb01", "\u2126", "\u1e9b\u0323", "\u0344", "\uac00", "\u1100\u1161", "\uf900",
        "\u0958", "q\u0307\u0323", "q\u0323\u0307", "\xbd", "\uff21", "\u2460", "\xb5", "\u03bc", "\u0131", "\u0130", "\xdf", "\u1e9e",
        "\u03a3\u03c2", "\U0001f468\u200d\U0001f469", "\u2764\ufe0f", "\U0001f1e9\U0001f1ea", "\u202eabc", "\u200e", "\u2066a\u2069",
        "a\r\nb", "a\n\rb", "a\rb", "a\n\nb", "\n", "\r\n", " a ", "  ", "a  b", "\ta", "a\t\tb", "\u3000a", "\u2003", "\x1ca\x1d",
        "\\n", "\\u0041", "\\x41", "\\\\", "\\\"", "&amp;", "&#65;", "<b>", "%41", "%s", "%d", "{}", "{0}", "{a}", "$a", "${HOME}", "`a`",
        "'", "''", "\"", "\"\"", "'a'", "\"a\"", "b'a'", "null", "None", "true", "NaN", "nan", "inf", "0", "00", "007", "1e5", "-1", "1.0", "0x41",
        "41 42", "41", "4 1", "FF", "ff fe", "[1]", "[", "]", "{", "}", "[]\n", ",", ";", ":", "a,b", "a;b", "a=b", "#a", "//a", "/*", "--", "..", "../a",
        "a/b", "a\\b", "C:\\a", "~", "*", "?", "|", "\x00", "a\x00b", "\x00\x00", "\x1b[0m", "\x7f", "\x08", "\ufeffa", "a\ufeff", "\ufffe",
        "\ufdd0", "\U0001ffff", "\ue000", "\uf8ff", "\U000f0000", "\U0010ffff", "\U0001d11e", "\U00020000", "\u0e33", "\u0f73", "\u200b", "\u2060",
        "\xa0a\xa0", "\xad", "\u0000", "TRIMBLE  NETR9", "TRM59800.00     SCIT", "NULL ANTENNA", "ADVNULLANTENNA", "N/A", "none", "unknown"]


def _texts(full):
    """Valid UTF-8 byte strings: every character alone, first, last, in pairs."""
    yield b""
    for ch in CHARS:
        b = ch.encode()
        for t in (b, b + b"x", b"x" + b, b + b, b"a" + b + b"z"):
            yield t
    for t in SEQS:
        for u in (t, "x" + t, t + "x", t + t):
            yield u.encode()
    pairs = CHARS if full else [c for c in CHARS if ord(c) < 48 or c in "\\\x7f[]{}A0" or ord(c) > 127]
    for a in pairs:
        for b in pairs:
            yield (a + b).encode()


def _lens(full):
    for n in range(256):
        yield bytes(0x41 + (i * 7 + n) % 26 for i in range(n))


def _str_cases(num, full):
    k = {1007: 1, 1008: 2, 1033: 5}[num]
    fixed = [b"ANT", b"S/N 1", b"RCV", b"fw", b"77"][:k]
    for i in range(k):
        for t in list(_texts(full)) + list(_lens(full)):
            st = list(fixed)
            st[i] = t
            yield 11, 3, st
    # every subset of empty strings, with other strings of many length combinations
    for m in range(1 << k):
        yield 12, 9, [b"" if m >> i & 1 else fixed[i] for i in range(k)]
    ls = (0, 1, 2, 31, 127, 128, 201)
    if k >= 2:
        for a in ls:
            for b in ls:
                yield 13, 1, [b"q" * a, b"w" * b] + fixed[2:]
    if k == 5:
        for i in range(5):
            for j in range(5):
                if i != j:
                    for a in ls:
                        for b in ls:
                            st = [b"", b"1", b"22", b"", b"4"]
                            st[i], st[j] = b"A" * a, b"B" * b
                            yield 14, 2, st
        yield 15, 4, [b"a" * 255, b"b" * 255, b"c" * 255, b"d" * 200, b"e" * 49]
    for v in range(256):
        yield 4095, v, list(fixed)
        yield v * 16 + 15, 0, list(fixed)
    for v in lib.field_values(12, 12):
        yield v, 5, list(fixed)


def _bin_str_cases(num):
    """Byte strings that are not UTF-8: bare output only."""
    k = {1007: 1, 1008: 2, 1033: 5}[num]
    fixed = [b"ANT", b"S/N 1", b"RCV", b"fw", b"77"][:k]
    for i in range(k):
        for b in range(256):
            for t in (bytes([b]), bytes([b, 0]), bytes([0x41, b])):
                st = list(fixed)
                st[i] = t
                yield 11, 3, st
        for b in range(0, 256, 5):
            st = list(fixed)
            st[i] = bytes((b + 37 * j) & 255 for j in range(60))
            yield 11, 3, st


def _c1013(full):
    it = lambda n, s=0: [((1001 + 37 * i + s) % 4096, (i + s) & 1, (i * 2749 + 11 * s) & 0xFFFF)  # noqa: E731
                         for i in range(n)]
    for n in range(32):
        yield 5, 59000, 4000, n, 18, it(n)
        yield 4095, 65535, 131071, n, 255, it(n, 3)
        yield 0, 0, 0, n, 0, [(i, 0, 0) for i in range(n)]
        yield 1, 2, 3, n, 4, [(4095 - i, 1, 65535) for i in range(n)]
    for n in range(0, 33):                       # count derived from the length
        if 70 + 29 * n <= 1023 * 8:
            yield 5, 59000, 4000, 0, 18, it(n)
    for n in list(range(33, 279)):
        if (70 + 29 * n + 7) // 8 <= 1023:
            yield 5, 59001, 4001, 0, 17, it(n)
    for v in lib.field_values(12, 12):
        yield v, 1, 1, 1, 1, [(1005, 1, 10)]
        yield 1, 1, 1, 2, 1, [(v, 1, 10), ((v + 1) % 4096, 0, 11)]
    for v in lib.field_values(16, full):
        yield 1, v, 1, 1, 1, [(1005, 1, 10)]
        yield 1, 1, 1, 1, 1, [(1005, 0, v)]
        yield 1, 1, 1, 2, 1, [(1077, 1, 5), (1005, 1, v)]
    for v in lib.field_values(17, full):
        yield 1, 1, v, 1, 1, [(1005, 1, 10)]
    for v in range(256):
        yield 1, 1, 1, 1, v, [(1005, 1, 10)]


def _c1029(full):
    for t in list(_texts(True)) + list(_lens(True)):
        yield 7, 59000, 100, len(t.decode()) & 127, t
    for v in lib.field_values(12, 12):
        yield v, 1, 1, 2, b"ok"
    for v in lib.field_values(16, full):
        yield 1, v, 1, 2, b"ok"
    for v in lib.field_values(17, full):
        yield 1, 1, v, 2, b"ok"
    for v in range(128):
        yield 1, 1, 1, v, b"ok"


def _c1230(full):
    nx = R.rng32(SEED)
    for mask in range(16):
        n = bin(mask).count("1")
        for ind in (0, 1):
            for res in range(8):
                yield 100, ind, mask, [nx(16) for _ in range(n)], res
            for i in range(n):
                for v in lib.field_values(16, full):
                    vals = [nx(16) for _ in range(n)]
                    vals[i] = v
                    yield 101, ind, mask, vals, 0
            for special in (0, 0x8000, 0xFFFF, 0x7FFF, 1):
                yield 102, ind, mask, [special] * n, 0
    for v in lib.field_values(12, 12):
        yield v, 1, 15, [1, 2, 3, 4], 0
        yield v, 0, 0, [], 0


def frames(num, fmt, full):
    if num in R.BASE:
        for raw in _ref_cases(num, full):
            yield R.base_ref(num, raw)
    elif num in (1007, 1008, 1033):
        for a in _str_cases(num, full > 12):
            yield R.base_str(num, *a)
        if fmt == "JSON-B":
            for a in _bin_str_cases(num):
                yield R.base_str(num, *a)
    elif num == 1013:
        for a in _c1013(full):
            yield R.base_1013(*a)
    elif num == 1029:
        for a in _c1029(full):
            yield R.base_1029(*a)
        if fmt == "JSON-B":
            for b in range(256):
                yield R.base_1029(1, 2, 3, 1, bytes([b]))
                yield R.base_1029(1, 2, 3, 1, bytes([b, 255 - b, 0]))
    else:
        for a in _c1230(full):
            yield R.base_1230(*a)


def code_points(lo, hi, size):
    """All Unicode characters of a range, as many as fit one text at a time."""
    t = b""
    for i in range(lo, hi):
        if 0xD800 <= i < 0xE000:
            continue
        b = chr(i).encode()
        if len(t) + len(b) > size:
            yield t
            t = b""
        t += b
    if t:
        yield t


def job_unicode(acc, num, fmt, lo, hi):
    """Every character of Unicode in texts."""
    cfg = ref.Cfg(pretty=False)
    with sut.Scratch() as sc:
        buf = []
        for i, t in enumerate(code_points(lo, hi, 255)):
            if num == 1029:
                f = R.base_1029(7, 59000, 100, len(t.decode()) & 127, t)
            else:
                k = {1007: 1, 1008: 2, 1033: 5}[num]
                st = [b"x"] * k
                st[i % k] = t
                f = R.base_str(num, 3, 4, st)
            buf.append(f)
            if len(buf) >= BATCH:
                lib.batch(acc, sc, buf, fmt, cfg, "text")
                buf = []
        if buf:
            lib.batch(acc, sc, buf, fmt, cfg, "text")


def job(acc, num, fmt, part, parts, full):
    cfg = ref.Cfg(pretty=False)
    buf = []
    with sut.Scratch() as sc:
        for i, f in enumerate(frames(num, fmt, full)):
            if i % parts != part:
                continue
            buf.append(f)
            if len(buf) >= BATCH:
                lib.batch(acc, sc, buf, fmt, cfg, "base station decoding")
                acc.sample({"message": num, "format": fmt, "frame": buf[0].hex()}, 1)
                buf = []
        if buf:
            lib.batch(acc, sc, buf, fmt, cfg, "base station decoding")


def run(c):
    full = pick(15, 17)
    c.bounds = {"fields": f"all values up to {full} bits, else boundary/walking patterns",
                "strings": "all lengths 0..255 in every position, 150 characters alone/first/last/in pairs, "
                           "all subsets of empty strings, length pairs",
                "characters": "every Unicode character in 1029, the basic plane in 1007, 1008, 1033", "sequences": len(SEQS),
                "1013": "0..31 announced, 0..278 derived from the length", "1230": "16 masks x field values"}
    jobs = []
    for num in R.BASE_NUMS:
        parts = pick(4, 12)
        for fmt in ("JSON", "JSON-B"):
            jobs += [(num, fmt, p, parts, full) for p in range(parts)]
    c.run(job, jobs, "base messages")
    c.run(job_unicode, [(n, "JSON", i, i + 0x2000) for n in (1029, 1033, 1008, 1007) for i in range(0, 0x110000, 0x2000)
                        if pick(n == 1029 or i < 0x12000, True)], "all characters")
