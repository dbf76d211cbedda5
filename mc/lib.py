"""Shared exploration helpers."""
import os

from . import ref, rtcm as R, sut
from .core import Violation

FORMATS = ("MARGO", "JSON", "JSON-B", "JARGO")
PLAIN = dict(pretty=False)


def rand_fields(layout, seed, num=0):
    nx = R.rng32(seed * 31 + num)
    return {n: nx(w) for n, _k, w, _r in layout}


# ---------------------------------------------------------- message library --
def good(num, seed=1, **kw):
    """A well-formed message of the given number with arbitrary content."""
    if num in R.EPH:
        return R.eph(num, rand_fields(R.EPH[num], seed, num))
    if num in R.BASE:
        return R.base_ref(num, rand_fields(R.BASE[num], seed, num))
    nx = R.rng32(seed + num)
    if num in (1007, 1008, 1033):
        k = {1007: 1, 1008: 2, 1033: 5}[num]
        return R.base_str(num, nx(12), nx(8),
                          [bytes(0x30 + nx(5) for _ in range((seed + i) % 5)) for i in range(k)])
    if num == 1013:
        k = seed % 4
        return R.base_1013(nx(12), nx(16), nx(17), k, nx(8),
                           [(1000 + 7 * i + seed % 100, nx(1), nx(16)) for i in range(k)])
    if num == 1029:
        t = "".join(chr(0x41 + nx(4)) for _ in range(seed % 6)) + ("é" if seed % 2 else "")
        return R.base_1029(nx(12), nx(16), nx(17), len(t), t.encode())
    if num == 1230:
        m = nx(4)
        return R.base_1230(nx(12), nx(1), m, [nx(16) for _ in range(bin(m).count("1"))])
    g, _t = R.msm_of(num)
    sg = sorted(R.SIGNALS[g])
    mx = R.MAX_SATS[g]
    sats = kw.get("sats") or sorted({1 + seed % mx, 1 + (seed * 3 + 2) % mx, mx})
    sigs = kw.get("sigs") or sorted({sg[seed % len(sg)], sg[(seed * 5 + 1) % len(sg)]})
    cells = [(s, q) for i, s in enumerate(sats) for j, q in enumerate(sigs)
             if (i + j + seed) % 3 != 0 or (i == 0 and j == 0)]
    return R.msm_fill(num, sats, sigs, cells, seed, kw.get("hdr"))


def bad(num, how=0):
    """A correctly framed, malformed message of a supported number."""
    f = good(num, 3)
    p = f[3:-3]
    if num in R.EPH:
        return R.frame(p[:-1 - how])
    return R.frame(p[:-1] if how == 0 and len(p) > 3 else p + bytes(1 + how))


def unsupported(k=0):
    nx = R.rng32(k + 77)
    num = (1001, 1004, 1012, 4095, 0, 1070, 1078, 1138, 1021, 1043, 1300)[k % 11]
    return R.frame(R.BitW().put(num, 12).put(nx(12), 12).put(nx(80), 80).bytes())


def malformed(num):
    """Correctly framed, malformed messages of a supported number: (description, frame)."""
    p = good(num, 3)[3:-3]
    out = []
    if num in R.EPH:
        need = (R.EPH_BITS[num] + 7) // 8
        for k in sorted({2, 3, 4, need // 2, need - 2, need - 1}):
            out.append((f"{k} bytes", p[:k]))
    else:
        for k in sorted({2, 3, 5, len(p) // 2, len(p) - 2, len(p) - 1}):
            if 2 <= k < len(p):
                out.append((f"{k} bytes of {len(p)}", p[:k]))
        for k in (1, 2, 7, 100):
            out.append((f"{k} bytes too long", p + bytes(k)))
            out.append((f"{k} bytes 0xFF too long", p + b"\xff" * k))
    if R.msm_of(num):
        g, t = R.msm_of(num)
        sg = sorted(R.SIGNALS[g])[:2]
        h = R.BitW().put(num, 12)
        for n, w in R.MSM_HDR:
            h.put(0, w)
        w = R.BitW().put(h.v, h.n).put((1 << 64) - 1, 64).put(7 << 20, 32)
        out.append(("192 cells", w.put((1 << 192) - 1, 192).bytes().ljust(900, b"\1")))
        w = R.BitW().put(h.v, h.n).put((1 << 13) - 1 << 20, 64).put(31 << 20, 32)
        out.append(("65 cells", w.put((1 << 65) - 1, 65).bytes().ljust(900, b"\1")))
        out.append(("satellites without cells", R.msm_payload(
            num, {}, [1, 2], sg, [], {n: [1, 2] for n, _k, _w in R.MSM_SAT[t]}, {n: [] for n, _k, _w in R.MSM_SGN[t]})))
    return [(d, R.frame(q)) for d, q in out if len(q) <= 1023]


def variants(num):
    """Well-formed messages of one number, each differing from the others in one respect; identical epochs where possible."""
    out = [("plain", good(num, 1)), ("other", good(num, 8))]
    if num in R.EPH or num in R.BASE:
        lay = R.EPH.get(num) or R.BASE[num]
        b = {n: 1 for n, _k, w, _r in lay}
        mk = (lambda d: R.eph(num, d)) if num in R.EPH else (lambda d: R.base_ref(num, d))
        for n, k, w, _r in lay:
            mx = (1 << w) - 1
            for v in sorted({0, mx, 1 << w - 1}):
                out.append((f"{n}={v:x}", mk({**b, n: v})))
        out.append(("zero", mk({})))
        out.append(("ones", mk({n: (1 << w) - 1 for n, _k, w, _r in lay})))
        return out
    if num in (1007, 1008, 1033):
        k = {1007: 1, 1008: 2, 1033: 5}[num]
        b = [b"ABC"] * k
        for i in range(k):
            for x in (b"", b"Z", b"ABCDEFGHIJKLMNOPQRSTUVWXYZ" * 5, "é€".encode()):
                if sum(map(len, b)) + len(x) < 1000:
                    out.append((f"string {i}={len(x)}", R.base_str(num, 7, 3, b[:i] + [x] + b[i + 1:])))
        out += [("id0", R.base_str(num, 0, 0, b)), ("idmax", R.base_str(num, 4095, 255, b)),
                ("empty", R.base_str(num, 7, 3, [b""] * k))]
        return out
    if num == 1013:
        it = [(1005, 1, 10), (1077, 0, 20), (1019, 1, 65535), (0, 0, 0)]
        for n in (0, 1, 2, 4, 31):
            out.append((f"{n} items", R.base_1013(5, 6, 7, n, 18, (it * 8)[:n])))
        out += [("count 0, items", R.base_1013(5, 6, 7, 0, 18, it[:2])), ("max", R.base_1013(4095, 65535, 131071, 1, 255, it[:1]))]
        return out
    if num == 1029:
        for t in ("", "A", "x" * 127, "ж" * 100, '"\\\n'):
            out.append((f"text {len(t)}", R.base_1029(5, 6, 7, len(t) & 127, t.encode())))
        out += [("max", R.base_1029(4095, 65535, 131071, 127, b"A")), ("nul", R.base_1029(5, 6, 7, 1, b"\0"))]
        return out
    if num == 1230:
        for m in range(16):
            n = bin(m).count("1")
            out.append((f"mask {m}", R.base_1230(5, m & 1, m, [1, 65535, 0x8000, 0][:n])))
            out.append((f"mask {m} ind", R.base_1230(5, 1 - (m & 1), m, [9, 8, 7, 6][:n])))
        return out
    g, t = R.msm_of(num)
    sg, mx = sorted(R.SIGNALS[g]), R.MAX_SATS[g]
    q2 = sorted({sg[0], sg[-1]})
    b = {"rs_id": 5, "time": (3 << 27 | 40000000) if g == "R" else 300000000, "MMB": 0, "IODS": 1, "clk_steer": 1,
         "clk_ext": 1, "smth_indc": 0, "smth_intr": 1}
    one = lambda hdr=None, seed=5, mark=(): R.msm_fill(num, [2, 3], q2, [(2, q2[0]), (3, q2[-1])], seed, {**b, **(hdr or {})}, mark)  # noqa: E731
    out += [("one", one()), ("same epoch", one(None, 6))]
    for n, w in R.MSM_HDR:
        if n not in ("time", "_r"):
            vals = range(1 << w) if w <= 3 else (0, 1, (1 << w) - 1)
            out += [(f"{n}={v}", one({n: v})) for v in vals]
    if g == "R":
        out += [(f"day {d} {ms}", one({"time": d << 27 | ms})) for d in range(8) for ms in (0, 10799999, 10800000, 86399999, 86401000)]
    else:
        out += [(f"time {ms}", one({"time": ms})) for ms in (0, 13999, 604785999, 604786000, 604799999)]
    for f, _k, w in R.MSM_SAT[t]:
        if (f, w) in R.MARK:
            out += [(f"invalid {f} {i}", one(mark={("sat", i, f)})) for i in (0, 1)]
    for f, _k, w in R.MSM_SGN[t]:
        if (f, w) in R.MARK:
            out += [(f"invalid {f} {i}", one(mark={("cell", i, f)})) for i in (0, 1)]
    for s in sorted({1, 2, mx, min(64, mx + 1), 64}):
        out.append((f"sat {s}", R.msm_fill(num, [s], sg[:1], [(s, sg[0])], 5, b)))
    for q in sg:
        out.append((f"signal {q}", R.msm_fill(num, [2], [q], [(2, q)], 5, b)))
    n = min(mx, 64 // len(q2))
    ss = list(range(1, n + 1))
    if t < 5:
        out.append(("many", R.msm_fill(num, ss, q2, [(s, q) for s in ss for q in q2], 5, b)))
    out.append(("half", R.msm_fill(num, ss[:9], q2, [(s, q) for s in ss[:9] for q in q2], 5, b)))
    out.append(("none", R.msm_fill(num, [], [], [], 5, b)))
    out.append(("two", R.msm_fill(num, [1, 2], q2, [(1, q2[0])] + [(2, q) for q in q2], 5, b)))
    return out


def epochs(num, full=False):
    """MSM messages of one number that differ in the epoch only: boundary values and every bit of the field."""
    g, _t = R.msm_of(num)
    q = sorted(R.SIGNALS[g])[0]
    if g == "R":
        ms = {0, 1, 999, 10799999, 10800000, 10800001, 86399999, 86400000, 86400999, 86401000} | {1 << k for k in range(27)}
        tm = {d << 27 | m for d in range(8) for m in (ms if full else sorted(ms)[::3] + [0, 10799999, 10800000, 86399999])} | \
            {d << 27 | m for d in (0, 6) for m in ms}
    else:
        tm = {0, 1, 999, 13999, 14000, 14001, 604785999, 604786000, 604786001, 604799999} | {1 << k for k in range(30)}
        tm |= {d * 86400000 + x for d in range(7) for x in (0, 1, 86399999)}
    return [(f"epoch {t}", R.msm_fill(num, [2], [q], [(2, q)], 5, {"time": t})) for t in sorted(tm)]


def debruijn(n, k=2):
    """Cyclic sequence over range(n) containing every k-tuple once."""
    a, seq = [0] * n * k, []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, n):
            a[t] = j
            db(t + 1, t)

    db(1, 1)
    return seq


# -------------------------------------------------------------- comparisons --
def json_diff(path, exp, raw, bare):
    typ, objs = exp
    try:
        t, got = ref.parse_json_product(raw)
    except (ValueError, UnicodeDecodeError) as e:
        return f"{path}: not a valid JSON product ({e})"
    if t != typ:
        return f"{path}: source type {t} instead of {typ}"
    if len(got) != len(objs):
        return f"{path}: {len(got)} objects instead of {len(objs)}"
    for i, (a, b) in enumerate(zip(objs, got)):
        d = ref.obj_diff(a, b, bare)
        if d:
            return f"{path}: object {i}: {d}"
    return None


def obs_diff(path, rows, raw, cfg, value=True):
    name = path.rsplit("/", 1)[-1]
    n = R.MAX_SATS[name[0]]
    try:
        o = ref.Obs(raw, name)
    except (ValueError, UnicodeDecodeError) as e:
        return f"{path}: not a regular MARGO table ({e})"
    d = ref.head_diff(path, o, cfg, value)
    if d:
        return f"{path}: {d}"
    if len(o.rows) != len(rows):
        return f"{path}: {len(o.rows)} rows instead of {len(rows)}"
    for i, (a, b) in enumerate(zip(rows, o.rows)):
        d = ref.row_diff(name[1], n, a, b, value)
        if d:
            return f"{path}: row {i}: {d}"
    return None


def products_diff(exp, files):
    """Compare all products with the model; None or a description."""
    if set(files) != exp.files():
        miss = sorted(exp.files() - set(files))[:4]
        more = sorted(set(files) - exp.files())[:4]
        return f"products missing {miss}, unexpected {more}"
    bare = exp.fmt == "JSON-B"
    for p, e in exp.json.items():
        d = json_diff(p, e, files[p], bare)
        if d:
            return d
    for p, rows in exp.obs.items():
        d = obs_diff(p, rows, files[p], exp.cfg)
        if d:
            return d
    return None


def stats_diff(exp, res):
    pr = res.progress()
    want = (exp.attempts, exp.parse_errors, exp.dec_errors, 0)
    if pr != want:
        return f"statistics {pr} instead of {want}"
    return None


# ------------------------------------------------------------- batch runner --
def batch(acc, sc, frames, fmt, cfg, what, diff=products_diff, stats=False, glue=b""):
    """Convert the frames in one run of main() and compare with the model.

    Every frame is one explored state; on a mismatch the smallest failing
    single-frame stream (or the whole batch) becomes the counterexample."""
    stream = glue.join(frames)
    acc.transitions += len(frames)
    acc.traces += 1
    for f in frames:
        acc.state(fmt, cfg.key(), f)
    d = one(sc, stream, [f for f in frames], fmt, cfg, diff, stats, glue)
    if d is None:
        return
    for f in frames:
        d1 = one(sc, f, [f], fmt, cfg, diff, stats, glue)
        if d1 is not None:
            raise Violation(f"{what}: {fmt}: message {ref.number(f)}: {d1}", stream=f, format=fmt,
                            ini=cfg.ini())
    raise Violation(f"{what}: {fmt}: {d}", stream=stream, format=fmt, ini=cfg.ini())


def one(sc, stream, frames, fmt, cfg, diff, stats, glue):
    try:
        r = sut.convert(sc, stream, fmt, cfg)
    except sut.Crash as e:
        return f"run failed: {e}"
    if not r.exists:
        return "no product folder"
    e = ref.Products(frames, fmt, cfg, (len(frames) - 1) if glue else 0)
    d = diff(e, r.files)
    if d is None and stats:
        d = stats_diff(e, r)
    return d


def api_convert(sc, stream, fmt, box, cuts=None):
    """Convert through the converter object in one chunk; returns (files, statistics, converter)."""
    import shutil
    cv, d = sut.converter(sc, fmt, box)
    with sut.guard(30):
        msgs = []
        p = 0
        for k in cuts or [len(stream)]:
            msgs += cv.parse_bytes(stream[p:p + k])
            p += k
        msgs += cv.flush()
        for m in msgs:
            x = cv.decode(m)
            if x is not None:
                cv.print(x)
        st = cv.get_statistics()
        cv.release()
    files = sut.read_tree(d)
    shutil.rmtree(d, ignore_errors=True)
    return files, st, cv


def describe(frames, limit=4):
    return [f.hex() if len(f) < 40 else f.hex()[:60] + f"...({len(f)} bytes)" for f in frames[:limit]]


def field_values(width, full):
    """Representative raw values of a field; all of them up to `full` bits."""
    if width <= full:
        return range(1 << width)
    mx = (1 << width) - 1
    v = {0, 1, 2, 3, mx, mx - 1, mx >> 1, (mx >> 1) + 1, (mx >> 1) + 2, (mx >> 1) - 1,
         int("01" * 64, 2) & mx, int("10" * 64, 2) & mx, int("0011" * 32, 2) & mx}
    for k in range(width):
        v |= {1 << k, mx ^ (1 << k), (1 << k) - 1}
    return sorted(v)


def mapjobs(cases, size):
    cases = list(cases)
    for i in range(0, len(cases), size):
        yield cases[i:i + size]


def abspath(*p):
    return os.path.join(*p)
