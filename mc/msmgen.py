"""Enumerations of MSM messages: headers, masks, shapes, cell masks, field values."""
from . import lib, rtcm as R


def headers(num, sats, sigs, full=12):
    g, _t = R.msm_of(num)
    cells = [(s, q) for s in sats for q in sigs]
    for n, w in R.MSM_HDR:
        for v in lib.field_values(w, full):
            yield R.msm_fill(num, sats, sigs, cells, v % 97, {n: v})
    for n, w in R.MSM_HDR:
        for m, w2 in R.MSM_HDR:
            if n < m:
                for v in (0, (1 << w) - 1):
                    for v2 in (0, (1 << w2) - 1):
                        yield R.msm_fill(num, sats, sigs, cells, 5, {n: v, m: v2})


def satmasks(num, sig, pairs):
    for s in range(1, 65):
        yield R.msm_fill(num, [s], [sig], [(s, sig)], s)
        o = [x for x in range(1, 65) if x != s]
        if _fits(num, 63, 63):
            yield R.msm_fill(num, o, [sig], [(x, sig) for x in o], s)
        yield R.msm_fill(num, o, [sig], [(o[(s * 7) % 63], sig), (o[s % 63], sig)], s)
    allx = list(range(1, 65))
    if _fits(num, 64, 64):
        yield R.msm_fill(num, allx, [sig], [(x, sig) for x in allx], 9)
    if pairs:
        for a in allx:
            for b in range(a + 1, 65):
                yield R.msm_fill(num, [a, b], [sig], [(a, sig), (b, sig)], a * 64 + b)


def sigmasks(num, sigs, triples=False):
    sigs = sorted(sigs)
    for i, a in enumerate(sigs):
        yield R.msm_fill(num, [7], [a], [(7, a)], a)
        for b in sigs[i + 1:]:
            yield R.msm_fill(num, [1, 20], [a, b], [(1, a), (1, b), (20, b)], a * 32 + b)
            yield R.msm_fill(num, [3], [a, b], [(3, b)], a + b)
    if triples:
        for i, a in enumerate(sigs):
            for j in range(i + 1, len(sigs)):
                for k in range(j + 1, len(sigs)):
                    q = [a, sigs[j], sigs[k]]
                    yield R.msm_fill(num, [2, 9], q, [(2, q[0]), (2, q[2]), (9, q[1]), (9, q[2])],
                                     i * 1000 + j * 32 + k)
    if len(sigs) <= 10:
        for m in range(1, 1 << len(sigs)):
            q = [s for i, s in enumerate(sigs) if m >> i & 1]
            yield R.msm_fill(num, [2, 4], q, [(2, x) for x in q] + [(4, x) for x in q[::2]], m)
    for n in (1, 2):
        q = sigs[:64 // n]
        sats = list(range(5, 5 + n))
        if _fits(num, n, n * len(q)):
            yield R.msm_fill(num, sats, q, [(s, x) for s in sats for x in q], n)


def _fits(num, ns, nc):
    _g, t = R.msm_of(num)
    bits = 169 + 64 + ns * sum(w for _n, _k, w in R.MSM_SAT[t]) + \
        nc * sum(w for _n, _k, w in R.MSM_SGN[t])
    return (bits + 7) // 8 <= 1023


def cellmasks(num, sigs, limit, sats=(3, 5, 8, 13, 21, 22, 23, 24, 30, 31, 32, 33)):
    """All cell masks of all shapes with Nsat*Nsig <= limit."""
    sigs = sorted(sigs)
    for ns in range(1, limit + 1):
        for ng in range(1, limit // ns + 1):
            if ng > len(sigs) or ns > len(sats):
                continue
            ss, gg = list(sats[:ns]), sigs[:ng] if ng % 2 else sigs[-ng:]
            grid = [(s, q) for s in ss for q in gg]
            for m in range(1, 1 << len(grid)):
                yield R.msm_fill(num, ss, gg, [c for i, c in enumerate(grid) if m >> i & 1], m)


def shapes(num, sigs):
    """All shapes up to 64 cells: full, sparse, single-cell and diagonal masks."""
    sigs = sorted(sigs)
    for ns in range(1, 65):
        for ng in range(1, 64 // ns + 1):
            if ng > len(sigs):
                break
            st = max(1, (64 - ns) // max(1, ns))
            ss = sorted({1 + i * st for i in range(ns)})
            if len(ss) != ns or ss[-1] > 64:
                ss = list(range(1, ns + 1))
            gg = sigs[:ng]
            grid = [(s, q) for s in ss for q in gg]
            opts = [grid, grid[::2], grid[::3], [grid[-1]], [grid[0]],
                    [grid[i] for i in range(0, len(grid), ng + 1)]]
            for k, cs in enumerate(opts):
                if _fits(num, ns, len(cs)):
                    yield R.msm_fill(num, ss, gg, cs, ns * 100 + ng * 10 + k)


def fieldvalues(num, sigs, full, positions=None):
    """Every field instance of a 2x2 message with 3 and 4 cells set to every value class."""
    g, t = R.msm_of(num)
    gg = sorted(sigs)[:2]
    ss = [4, 11]
    for cells in ([(s, q) for s in ss for q in gg], [(4, gg[-1]), (11, gg[0]), (11, gg[-1])]):
        cells = sorted(set(cells))
        nx = R.rng32(num)
        base_s = {n: [nx(w) for _ in ss] for n, _k, w in R.MSM_SAT[t]}
        if "rng_ms" in base_s:
            base_s["rng_ms"] = [70, 81]
        base_c = {n: [nx(w) for _ in cells] for n, _k, w in R.MSM_SGN[t]}
        hdr = {"rs_id": 7, "time": 3600000}
        for tab, base, cnt in ((R.MSM_SAT[t], base_s, len(ss)), (R.MSM_SGN[t], base_c, len(cells))):
            for n, _k, w in tab:
                for i in range(cnt):
                    if positions is not None and i not in positions:
                        continue
                    for v in lib.field_values(w, full):
                        col = list(base[n])
                        col[i] = v
                        sd = {**base_s, n: col} if base is base_s else base_s
                        cd = {**base_c, n: col} if base is base_c else base_c
                        yield R.msm(num, hdr, ss, gg, cells, sd, cd)
        # all fields of one cell / one satellite at an extreme simultaneously
        for pat in (0, -1, 1, 0x555555, 0xAAAAAA):
            sd = {n: [pat & ((1 << w) - 1)] * len(ss) for n, _k, w in R.MSM_SAT[t]}
            cd = {n: [pat & ((1 << w) - 1)] * len(cells) for n, _k, w in R.MSM_SGN[t]}
            yield R.msm(num, hdr, ss, gg, cells, sd, cd)


def nosat(num):
    for v in (0, 1, 0xFFFFFFFF, 0x40000000, 0x00010101):
        sigs = [i + 1 for i in range(32) if v >> (31 - i) & 1]
        for s in range(6):
            yield R.msm_fill(num, [], sigs, [], s)


def classes(name, w):
    """Extreme and special raw values of a field of w bits."""
    mx = (1 << w) - 1
    v = {0, 1, mx, mx - 1, mx >> 1, (mx >> 1) + 1, (mx >> 1) + 2}
    m = R.MARK.get((name, w))
    if m is not None:
        v |= {m - 1 & mx, m, m + 1 & mx}
    return sorted(x & mx for x in v)


def _fields(t):
    return [("s", n, w) for n, _k, w in R.MSM_SAT[t]] + [("c", n, w) for n, _k, w in R.MSM_SGN[t]]


def _single(num, sat, sig, vals, hdr):
    _g, t = R.msm_of(num)
    return R.msm(num, hdr, [sat], [sig], [(sat, sig)], {n: [vals[n]] for k, n, _w in _fields(t) if k == "s"},
                 {n: [vals[n]] for k, n, _w in _fields(t) if k == "c"})


def backgrounds(num):
    _g, t = R.msm_of(num)
    nx = R.rng32(num * 31 + 7)
    yield {n: 0 for _k, n, _w in _fields(t)}
    b = {n: nx(w) for _k, n, w in _fields(t)}
    yield {n: (77 if n == "rng_ms" else 2 if v == R.MARK.get((n, w)) else v) for (_k, n, w), v in zip(_fields(t), b.values())}


def valpairs(num, sigs, triples):
    """One-cell messages: all pairs of class values of all pairs of fields, all triples of extremes."""
    _g, t = R.msm_of(num)
    fs = _fields(t)
    sigs = sorted(sigs)
    k = 0
    for bg in backgrounds(num):
        for i, (_a, n, w) in enumerate(fs):
            for _b, m, w2 in fs[i + 1:]:
                for v in classes(n, w):
                    for v2 in classes(m, w2):
                        k += 1
                        yield _single(num, 1 + k % 14, sigs[k % len(sigs)], {**bg, n: v, m: v2}, {"time": 1000 + k})
    if triples:
        ext = lambda w: (0, (1 << w) - 1, 1 << w - 1)  # noqa: E731
        for i, (_a, n, w) in enumerate(fs):
            for j, (_b, m, w2) in enumerate(fs[i + 1:], i + 1):
                for _c, q, w3 in fs[j + 1:]:
                    for v in ext(w):
                        for v2 in ext(w2):
                            for v3 in ext(w3):
                                k += 1
                                yield _single(num, 1 + k % 14, sigs[k % len(sigs)], {**bg, n: v, m: v2, q: v3}, {"time": 1000 + k})


def valwide(num, sigs):
    """Every class value of every field at once for all satellites, and for all signals."""
    _g, t = R.msm_of(num)
    fs = _fields(t)
    sigs = sorted(sigs)
    allx = list(range(1, 65))
    bg = list(backgrounds(num))[1]
    k = 0
    for kind, n, w in fs:
        for v in classes(n, w):
            k += 1
            shapes_ = [(allx, [sigs[k % len(sigs)]])] if _fits(num, 64, 64) else \
                [(allx[:32], [sigs[k % len(sigs)]]), (allx[32:], [sigs[k % len(sigs)]])]
            for j in range(0, len(sigs), 16):
                shapes_.append(([1 + k % 13, 14 + k % 50], sigs[j:j + 16]))
            for ss, gg in shapes_:
                cells = [(s, q) for s in ss for q in gg]
                sd = {m: [v if m == n else (bg[m] + 3 * i) % ((1 << w2) - 9) for i in range(len(ss))] for kk, m, w2 in fs if kk == "s"}
                cd = {m: [v if m == n else (bg[m] + 5 * i) % max(1, (1 << w2) - 9) for i in range(len(cells))] for kk, m, w2 in fs if kk == "c"}
                for m, col in list(sd.items()) + list(cd.items()):
                    w2 = next(x for _q, y, x in fs if y == m)
                    if m != n and (m, w2) in R.MARK:
                        col[:] = [3 if x == R.MARK[m, w2] else x for x in col]
                yield R.msm(num, {"time": 2000 + k}, ss, gg, cells, sd, cd)
