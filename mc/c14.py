"""C14: MARGO time marks over the epochs of the week of every constellation and all GPS-UTC shifts of the bound."""
from . import lib, ref, rtcm as R, sut
from .core import Violation, pick

LEVEL = "model_checking"
NOTE = ("exhaustive epochs (millisecond resolution around every day, 3-hour, week and roll-over boundary, grid over "
        "the whole week) x all MSM numbers x GPS-UTC shifts; first column of the rows against GPS time of week")
WEEK = 604800000
DAY = 86400000


def window(t, r, step=1):
    return [x for x in range(t - r, t + r + 1, step)]


def epochs(g, shift, fine):
    """Raw (time field) values of the valid epochs to try."""
    out = set()
    if g == "R":
        marks = {0, DAY - 1, 43200000, 10800000, 10800000 - shift * 1000, DAY - 10800000, 3600000, 86400000, 86400999}
        for d in range(7):
            for m in marks:
                for x in window(m, fine):
                    if 0 <= x <= 86400999:
                        out.add((d, x))
            for x in range(0, DAY, 600000):
                out.add((d, x))
            for x in window(10800000 - shift * 1000, 30000, 250):
                if 0 <= x < DAY:
                    out.add((d, x))
            for b in range(27):
                if 1 << b < DAY:
                    out |= {(d, 1 << b), (d, (1 << b) - 1)}
        return [(d << 27) | x for d, x in sorted(out)]
    marks = {0, WEEK - 1, WEEK - 14000, WEEK - 14001, 14000, WEEK // 2, WEEK - 18000, 18000, WEEK - shift * 1000}
    marks |= {DAY * d for d in range(7)} | {1 << b for b in range(30) if 1 << b < WEEK}
    for m in marks:
        for x in window(m, fine):
            if 0 <= x < WEEK:
                out.add(x)
    out |= set(range(WEEK - 30000, WEEK, 50)) | set(range(0, 30000, 50)) | set(range(0, WEEK, 600000))
    return sorted(out)


def job(acc, num, shift, vals, fmt):
    g, t = R.msm_of(num)
    cfg = ref.Cfg(pretty=False, shift=shift)
    q = sorted(R.SIGNALS[g])[0]
    with sut.Scratch() as sc:
        for i in range(0, len(vals), 2000):
            part = vals[i:i + 2000]
            fr = [R.msm_fill(num, [2], [q], [(2, q)], 7, {"time": v}) for v in part]
            st = b"".join(fr)
            r = sut.convert(sc, st, fmt, cfg, cpu=60)
            acc.transitions += len(part)
            acc.traces += 1
            exp = []
            for v in part:
                acc.state(num, shift, v)
                if g == "R":
                    exp.append(((v & 0x7FFFFFF) + (v >> 27) * DAY - 10800000 + shift * 1000) % WEEK)
                elif g == "B":
                    exp.append((v + 14000) % WEEK)
                else:
                    exp.append(v)
            n = 0
            for p, raw in r.files.items():
                if not p.endswith(".obs"):
                    continue
                n += 1
                rows = ref.Obs(raw, p).rows
                got = [c[0] for c in rows]
                if got == [str(x) for x in exp]:
                    continue
                if len(got) != len(exp):
                    raise Violation(f"{num} shift {shift}: {p} has {len(got)} rows for {len(exp)} epochs", stream=st,
                                    format=fmt, ini=cfg.ini())
                k = next(j for j in range(len(exp)) if got[j] != str(exp[j]))
                raise Violation(f"{num} shift {shift}: {p}: epoch field {part[k]} marked {got[k]} instead of "
                                f"{exp[k]}", stream=fr[k], format=fmt, ini=cfg.ini())
            if not n:
                raise Violation(f"{num}: no observables file", stream=st, format=fmt, ini=cfg.ini())
        acc.sample({"message": num, "shift": shift, "epochs": len(vals)}, 1)


def mark(num, v, shift):
    """GPS time of week of the epoch field of a message."""
    g, _t = R.msm_of(num)
    if g == "R":
        return ((v & 0x7FFFFFF) + (v >> 27) * DAY - 10800000 + shift * 1000) % WEEK
    return (v + 14000) % WEEK if g == "B" else v


def marks(acc, sc, items, fmt, cfg, what):
    """items: (number, epoch field, frame). The k-th row of a file belongs to the k-th message that feeds it: compare
    the sequence of marks of each file with that of the messages of its GNSS and MSM type (as a subsequence)."""
    st = b"".join(f for _n, _v, f in items)
    r = sut.convert(sc, st, fmt, cfg, cpu=60)
    acc.transitions += len(items)
    acc.traces += 1
    exp = {}
    for n, v, f in items:
        acc.state(cfg.key(), f)
        exp.setdefault(R.msm_of(n), []).append(str(mark(n, v, cfg.shift)))
    seen = 0
    for p, raw in r.files.items():
        if not p.endswith(".obs"):
            continue
        name = p.rsplit("/", 1)[-1]
        want = exp.get((name[0], int(name.rsplit("MSM", 1)[1][0]) if "MSM" in name else None))
        if want is None:
            want = [m for k, ms in exp.items() if k[0] == name[0] for m in ms]
        rows = [c[0] for c in ref.Obs(raw, p).rows]
        seen += len(rows)
        k = 0
        for x in rows:
            while k < len(want) and want[k] != x:
                k += 1
            if k == len(want):
                raise Violation(f"{what}: {p}: row marked {x} is not the mark of a message of its turn", stream=st,
                                format=fmt, ini=cfg.ini())
            k += 1
    if not seen:
        raise Violation(f"{what}: no rows", stream=st, format=fmt, ini=cfg.ini())


def some(g, n, shift=18):
    v = epochs(g, shift, 1)
    return [v[i * (len(v) - 1) // (n - 1)] for i in range(n)]


def one(num, v, k=7, hdr=None):
    g, _t = R.msm_of(num)
    q = sorted(R.SIGNALS[g])[0]
    return num, v, R.msm_fill(num, [2], [q], [(2, q)], k, {**(hdr or {}), "time": v})


def job_orders(acc, num, fmt, count):
    """Descending, alternating and week-crossing orders; repeated epochs."""
    g, _t = R.msm_of(num)
    with sut.Scratch() as sc:
        for shift in (18, 0, 37) if g == "R" else (18,):
            cfg = ref.Cfg(pretty=False, shift=shift, hca=True, lt=True)
            v = some(g, count, shift)
            h = len(v) // 2
            orders = {"descending": v[::-1], "alternating": [x for p in zip(v[:h], v[:h - 1:-1]) for x in p],
                      "repeated": [x for x in v for _ in range(3)], "twice": v + v,
                      "jumping": [v[i * 7919 % len(v)] for i in range(len(v))]}
            for w, o in orders.items():
                marks(acc, sc, [one(num, x) for x in o], fmt, cfg, f"{num} {w} epochs, shift {shift}")


def job_mixed(acc, shift, k, fmt):
    """All GNSS interleaved: epochs of one must not leak into another."""
    cfg = ref.Cfg(pretty=False, shift=shift)
    with sut.Scratch() as sc:
        vs = {g: some(g, 400, shift) for g in R.GNSS}
        for typ in range(1, 8):
            items = [one(R.msm_num(g, (typ + j + k - 1) % 7 + 1), vs[g][(i * (2 * j + 1) + k * 31) % 400])
                     for i in range(400) for j, g in enumerate(R.GNSS)]
            marks(acc, sc, items, fmt, cfg, f"all GNSS interleaved, shift {shift}")
            marks(acc, sc, items[::-1], fmt, cfg, f"all GNSS interleaved backwards, shift {shift}")


def job_variants(acc, num, shift, fmt):
    """Mark of every variant of the contents (header, masks, signals, invalid values) x some epochs."""
    g, _t = R.msm_of(num)
    cfg = ref.Cfg(pretty=False, shift=shift, hca=True, lt=True)
    sg, mx = sorted(R.SIGNALS[g]), R.MAX_SATS[g]
    with sut.Scratch() as sc:
        for v in some(g, 12, shift):
            items = []
            for n, w in R.MSM_HDR:
                if n not in ("time", "_r"):
                    for x in (range(1 << w) if w <= 3 else (0, 1, 1 << w - 1, (1 << w) - 1)):
                        items.append(one(num, v, 7, {n: x}))
            for q in sg:
                items.append((num, v, R.msm_fill(num, [1, mx], [q], [(1, q), (mx, q)], 3, {"time": v})))
            for s in range(1, mx + 1):
                items.append((num, v, R.msm_fill(num, [s], sg[:1], [(s, sg[0])], s, {"time": v})))
            for k in range(1, 9):
                ss = list(range(1, min(k, mx) + 1))
                items.append((num, v, R.msm_fill(num, ss, sg[:2], [(s, q) for s in ss for q in sg[:2]], k, {"time": v})))
            for seed in range(24):
                items.append(one(num, v, seed))
            for n, x, f in items:
                acc.bump("variants")
            marks(acc, sc, items, fmt, cfg, f"{num}: variants at epoch {v}")
        # every one with an epoch of its own, so that a wrong mark cannot hide behind a neighbour's
        e = some(g, 200, shift)
        items = []
        for i, (w, f) in enumerate(lib.variants(num)):
            m = ref.decode(f, False)
            if m is None:
                continue
            p = f[3:-3]
            x = int.from_bytes(p, "big")
            nb = len(p) * 8
            sh = nb - 12 - 12 - 30
            v = e[i * 37 % 200]
            x = x & ~(((1 << 30) - 1) << sh) | v << sh
            items.append((num, v, R.frame(x.to_bytes(len(p), "big"))))
        marks(acc, sc, items, fmt, cfg, f"{num}: variants, epochs of their own")


SHIFTS = sorted(set(range(-70, 301)) | {x + d for x in (512, 1000, 1024, 2048, 3600, 4096, 7200, 8192, 10799)
                                        for d in (-1, 0, 1)} | {-128, -129, -255, -256, -257, -3600, -10800, -10801, -86400})


def job_shifts(acc, shifts, fmt):
    """Every configured shift with all numbers of GLONASS (and one of each other GNSS, which it must not touch)."""
    with sut.Scratch() as sc:
        for s in shifts:
            cfg = ref.Cfg(pretty=False, shift=s)
            vs = [(d << 27) | x for d in range(7) for x in (0, 1, 999, 10799999, 10800000, 43200000, DAY - 1)] + \
                [(d << 27) | max(0, min(DAY - 1, 10800000 - s * 1000 + x)) for d in range(7) for x in (-1, 0, 1)]
            items = [one(R.msm_num("R", 1 + i % 7), v) for i, v in enumerate(vs)]
            items += [one(R.msm_num(g, 4), v) for g in R.GNSS if g != "R" for v in (0, 5000, WEEK - 14000, WEEK - 1)]
            marks(acc, sc, items, fmt, cfg, f"shift {s}")


def run(c):
    fine = pick(8, 60)
    shifts = pick([0, 1, 18, 19, 37], list(range(0, 61)) + [-1, -18, 10800, 3600])
    c.bounds = {"epochs": f"+-{fine} ms around all boundaries, 50 ms grid around the week roll-over, 10 min grid; " +
                pick("1 min grid for MSM1", "1 s grid of the whole week for MSM1 of every GNSS"),
                "GPS-UTC shifts": shifts if len(shifts) < 10 else "0..60, -1, -18, 3600, 10800",
                "further shifts": "-70..300 and around powers of two and of hours, up to 10800; 70 epochs each"}
    jobs = []
    for n in R.MSM_NUMS:
        g, t = R.msm_of(n)
        ss = shifts if g == "R" and (t in (1, 7) or pick(0, 1)) else [18]
        for s in ss:
            v = epochs(g, s, fine if t in (1, 7) else 2)
            for k in range(0, len(v), 6000):
                jobs.append((n, s, v[k:k + 6000], "MARGO"))
        v = epochs(g, 18, 1)[::5]
        jobs.append((n, 18, v, "JARGO"))
    for g in R.GNSS:
        step = pick(60000, 1000)
        n = R.msm_num(g, 1)
        if g == "R":
            v = [(d << 27) | x for d in range(7) for x in range(0, DAY, step)]
        else:
            v = list(range(0, WEEK, step))
        for k in range(0, len(v), 6000):
            jobs.append((n, 18, v[k:k + 6000], "MARGO"))
    c.run(job, jobs, "epochs")
    c.run(job_shifts, [(SHIFTS[i::32], f) for i in range(32) for f in pick(("MARGO",), ("MARGO", "JARGO"))], "shifts")
    fm = lambda n: ("MARGO", "JARGO")[n % 2] if pick(1, 0) else "MARGO"  # noqa: E731
    c.run(job_orders, [(n, f, pick(500, 3000)) for n in R.MSM_NUMS for f in ([fm(n)] if pick(1, 0) else ("MARGO", "JARGO"))],
          "orders")
    c.run(job_mixed, [(s, k, f) for s in shifts for k in range(pick(1, 3)) for f in ("MARGO", "JARGO")], "interleaved")
    c.run(job_variants, [(n, s, "MARGO") for n in R.MSM_NUMS for s in ((18, 3) if R.msm_of(n)[0] == "R" else (18,))],
          "variants")
