"""Executable reference model of the converter.

`scan` is the specification of frame extraction, `decode` of message decoding,
`Products` of the files a conversion leaves behind.  Independent of the code
under test (only the tables of rtcm.py are used).
"""
import json

from . import rtcm as R

C_MS = 299792.458


# ------------------------------------------------------------- extraction ---
def scan(data):
    """(list of (start, frame)), parse errors): greedy left-to-right extraction."""
    out = []
    p, n = 0, len(data)
    end = None
    errs = 0
    while True:
        p = data.find(b"\xd3", p)
        if p < 0:
            break
        if p + 6 <= n and data[p + 1] & 0xFC == 0:
            ln = ((data[p + 1] & 3) << 8) | data[p + 2]
            e = p + ln + 6
            if e <= n and R.crc24q(data[p:e - 3]) == int.from_bytes(data[e - 3:e], "big"):
                if end is not None and p != end:
                    errs += 1
                out.append((p, data[p:e]))
                p = end = e
                continue
        p += 1
    return out, errs


class Bad(Exception):
    pass


class _Rd:
    def __init__(self, payload):
        self.v = int.from_bytes(payload, "big")
        self.n = len(payload) * 8
        self.p = 0

    def u(self, w):
        if self.p + w > self.n:
            raise Bad("short")
        self.p += w
        return (self.v >> (self.n - self.p)) & ((1 << w) - 1)

    def s(self, w):
        v = self.u(w)
        return v - (1 << w) if v >> (w - 1) else v

    def g(self, w):
        v = self.u(w)
        m = v & ((1 << (w - 1)) - 1)
        return -m if v >> (w - 1) else m

    def k(self, kind, w):
        return self.s(w) if kind == "s" else self.g(w) if kind == "g" else self.u(w)

    def exact(self):
        if (self.p + 7) // 8 * 8 != self.n:
            raise Bad("length")


_QC = ["UNDEF", "CORRECTED", "NOT CORRECTED", "RESERVED"]


def _scale(v, res):
    if res is None:
        return v
    if res == "b":
        return v == 1
    if res == "qc":
        return _QC[v]
    if res == "frq":
        return v - 7
    if res == "tk":
        return 3600 * (v >> 7) + 60 * ((v >> 1) & 63) + 30 * (v & 1)
    return v * res


def _text(b, bare):
    if bare:
        return " ".join(hex(x) for x in b)
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Bad("utf8") from e


def number(frm):
    if len(frm) < 8:
        return None
    return (frm[3] << 4) | (frm[4] >> 4)


def df402(t):
    return 0 if t == 0 else 1 << (t + 4)


def _mk407():
    # RTCM 10403 table 3.5-75: indicator ranges with coefficient and offset
    tab = list(range(64))
    lo, coef = 64, 2
    off = 64
    while lo < 704:
        for i in range(lo, lo + 32):
            tab.append(coef * i - off)
        lo += 32
        k = lo // 32 - 1
        coef *= 2
        off = coef * 32 * k
    tab.append(67108864)
    tab += [0] * (1024 - len(tab))
    return tab


DF407 = _mk407()
assert DF407[63] == 63 and DF407[64] == 64 and DF407[95] == 126 and DF407[96] == 128


class Msg:
    """A decoded message: number, kind and logical content."""
    __slots__ = ("num", "kind", "obj", "m", "type")

    def __init__(self, num, kind, obj, m=None, typ=""):
        self.num, self.kind, self.obj, self.m, self.type = num, kind, obj, m, typ


def _eph(num, rd, bare):
    o = {"msgNum": num}
    for n, k, w, r in R.EPH[num]:
        v = rd.k(k, w)
        if k != "r":
            o[n] = v if bare else _scale(v, r)
    return o


def _base(num, rd, bare, payload):
    o = {"msgNum": num}
    if num in (1005, 1006):
        for n, k, w, r in R.BASE[num]:
            v = rd.k(k, w)
            if k != "r":
                o[n] = v if bare else _scale(v, r)
        rd.exact()
    elif num in (1007, 1008, 1033):
        o["bsID"] = rd.u(12)
        names = ["descr", "serialNumber", "rcvDescriptor", "rcvFWVersion", "rcvSerNum"]
        lens = ["descrLength", "serialNumberLength", "rcvDescriptorLength",
                "rcvFWVersionLength", "rcvSerNumLength"]
        for i in range({1007: 1, 1008: 2, 1033: 5}[num]):
            ln = rd.u(8)
            o[lens[i]] = ln
            o[names[i]] = bytes(rd.u(8) for _ in range(ln))
            if i == 0:
                o["setupID"] = rd.u(8)
        rd.exact()
        for n in names:
            if n in o:
                o[n] = _text(o[n], bare)
    elif num == 1013:
        o["bsID"] = rd.u(12)
        o["modifiedJulianDay"] = rd.u(16)
        o["daySec"] = rd.u(17)
        o["Nm"] = nm = rd.u(5)
        o["leapSec"] = rd.u(8)
        cnt = nm if nm else (rd.n - 70) // 29
        sh = {}
        for _ in range(cnt):
            i, f, p = rd.u(12), rd.u(1), rd.u(16)
            sh[str(i)] = [f, p] if bare else [f == 1, p * 0.1]
        rd.exact()
        o["shedule"] = sh
    elif num == 1029:
        o["bsID"] = rd.u(12)
        o["modifiedJulianDay"] = rd.u(16)
        o["daySec"] = rd.u(17)
        o["charNum"] = rd.u(7)
        o["unitsNum"] = nu = rd.u(8)
        b = bytes(rd.u(8) for _ in range(nu))
        rd.exact()
        o["message"] = _text(b, bare)
    else:
        o["bsID"] = rd.u(12)
        c = rd.u(1)
        rd.u(3)
        mask = rd.u(4)
        val, cor = {}, {}
        for i, s in enumerate(("1C", "1P", "2C", "2P")):
            on = mask >> (3 - i) & 1
            v = rd.s(16) if on else 0
            val[s] = on if bare else bool(on)
            cor[s] = v if bare else v * 0.02
        rd.exact()
        o["isCorrected"] = c if bare else c == 1
        o["validity"] = val
        o["correction"] = cor
    return o


class M:
    """Raw content of an MSM message."""


def _msm_raw(num, rd):
    m = M()
    m.gnss, m.t = R.msm_of(num)
    m.num = num
    m.hdr = {}
    for n, w in R.MSM_HDR:
        m.hdr[n] = rd.u(w)
    sm, gm = rd.u(64), rd.u(32)
    m.sats = [i + 1 for i in range(64) if sm >> (63 - i) & 1]
    m.sigs = [i + 1 for i in range(32) if gm >> (31 - i) & 1]
    m.cells = []
    m.cmask = 0
    m.sat, m.sgn = {}, {}
    if not m.sats:
        rd.exact()
        return m
    nb = len(m.sats) * len(m.sigs)
    if nb > 64 or nb == 0:
        raise Bad("cells")
    k = 0
    for s in m.sats:
        for g in m.sigs:
            if rd.u(1):
                m.cells.append((s, g))
                m.cmask |= 1 << k
            k += 1
    if not m.cells:
        raise Bad("no cells")
    for n, kd, w in R.MSM_SAT[m.t]:
        m.sat[n] = [rd.k(kd, w) for _ in m.sats]
    for n, kd, w in R.MSM_SGN[m.t]:
        m.sgn[n] = [rd.k(kd, w) for _ in m.cells]
    rd.exact()
    return m


def msm_time(m):
    t = m.hdr["time"]
    return (t & 0x7FFFFFF, t >> 27) if m.gnss == "R" else (t, 0)


def _msm_bare(m):
    h = {n: m.hdr[n] for n, _w in R.MSM_HDR if n != "_r"}
    h["sat_mask"] = sum(1 << (s - 1) for s in m.sats)
    h["sgn_mask"] = sum(1 << (s - 1) for s in m.sigs)
    h["cell_mask"] = m.cmask
    return {"hdr": h, "aux": {"gnss": m.gnss, "subset": f"MSM{m.t}", "msg_number": m.num},
            "sat": m.sat, "sgn": m.sgn}


def _msm_scaled(m):
    tm, day = msm_time(m)
    h = m.hdr
    aux = {
        "rs_id": h["rs_id"], "MMB": h["MMB"], "IODS": h["IODS"],
        "clk_steer": {"code": h["clk_steer"], "val": ["OFF", "ON", "UNDEF", "UNDEF"][h["clk_steer"]]},
        "clk_ext": {"code": h["clk_ext"],
                    "val": ["INTERNAL", "EXT-LOCK", "EXT-UNLOCK", "UNDEF"][h["clk_ext"]]},
        "smth_indc": {"code": h["smth_indc"], "val": ["UNDEF", "DVRG-FREE"][h["smth_indc"]]},
        "smth_intr": {"code": h["smth_intr"],
                      "val": ["NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+",
                              "UNLIM"][h["smth_intr"]]},
    }
    obs = {k: {} for k in ("rng", "phs", "ltm", "hca", "dpl", "c2n")}
    sig = {}
    if m.sats:
        tab = R.SIGNALS[m.gnss]
        for g in m.sigs:
            if g not in tab:
                raise Bad("signal")
            sig[tab[g][0]] = tab[g][1]
        w = {n: wd for n, _k, wd in R.MSM_SGN[m.t]}
        fine = m.t in (6, 7)
        for ci, (s, g) in enumerate(m.cells):
            si = m.sats.index(s)
            name = tab[g][0]

            def put(kind, val, name=name, s=s):
                obs[kind].setdefault(name, {})[str(s)] = val

            cd = {n: m.sgn[n][ci] for n in m.sgn}
            rough_ok = True
            rough = m.sat["rng_rough"][si] / 1024.0
            if m.t >= 4:
                rough_ok = m.sat["rng_ms"][si] != 255
                rough += m.sat["rng_ms"][si]
            rng_ok = "rng_fine" in cd and cd["rng_fine"] != -(1 << (w["rng_fine"] - 1))
            phs_ok = "phase_fine" in cd and cd["phase_fine"] != -(1 << (w["phase_fine"] - 1))
            if rough_ok and rng_ok:
                put("rng", (rough + cd["rng_fine"] * 2.0 ** (-29 if fine else -24)) * C_MS)
            if m.t == 3 and not rng_ok:
                phs_ok = False
            if rough_ok and phs_ok:
                put("phs", (rough + cd["phase_fine"] * 2.0 ** (-31 if fine else -29)) * C_MS)
            if "phase_rate_fine" in cd:
                if m.sat["phase_rate_rough"][si] != -8192 and cd["phase_rate_fine"] != -16384:
                    put("dpl", m.sat["phase_rate_rough"][si] + cd["phase_rate_fine"] * 0.0001)
            if m.t >= 4 or (m.t in (2, 3) and phs_ok):
                lt = cd["lock_time"]
                put("ltm", DF407[lt] if fine else df402(lt))
                put("hca", cd["hc_indc"] == 1)
            if "c2n" in cd:
                put("c2n", cd["c2n"] * (0.0625 if fine else 1))
    hdr = {"signals": sig, "sats": list(m.sats), "time": tm, "day": day}
    return {"hdr": hdr, "aux": aux, "obs": obs}


UNSUPPORTED = "unsupported"


def supported(num, fmt):
    if num is None:
        return False
    if fmt == "MARGO":
        return num in R.MSM_NUMS
    return num in R.ALL_NUMS


def decode(frm, bare):
    """Msg, or None if rejected, or UNSUPPORTED."""
    num = number(frm)
    if num not in R.JSON_FILE:
        return UNSUPPORTED
    rd = _Rd(frm[3:-3])
    rd.u(12)
    try:
        if num in R.EPH:
            return Msg(num, "eph", _eph(num, rd, bare), typ=R.EPH_TYPE[num])
        if num in R.BASE_TYPE:
            return Msg(num, "base", _base(num, rd, bare, frm[3:-3]), typ=R.BASE_TYPE[num])
        m = _msm_raw(num, rd)
        o = _msm_bare(m) if bare else _msm_scaled(m)
        typ = ("BareObservablesMSM123" if m.t < 4 else "BareObservablesMSM4567") if bare \
            else "ObservablesMSM"
        return Msg(num, "msm", o, m, typ)
    except Bad:
        return None


# ------------------------------------------------------------------ config --
DEFAULT_LIT = {1: 1, 2: -4, 3: 5, 4: 6, 5: 1, 6: -4, 7: 5, 8: 6, 9: -2, 10: -7, 11: 0, 12: -1,
               13: -2, 14: -7, 15: 0, 16: -1, 17: 4, 18: -3, 19: 3, 20: 2, 21: 4, 22: -3,
               23: 3, 24: 2}


class Cfg:
    def __init__(self, hca=False, lt=False, pretty=True, hdr=True, aux=True, shift=18, lit=None):
        self.hca, self.lt, self.pretty, self.hdr, self.aux, self.shift = \
            hca, lt, pretty, hdr, aux, shift
        self.lit = dict(DEFAULT_LIT)
        self.lit.update(lit or {})

    def ini(self):
        b = lambda x: "true" if x else "false"  # noqa: E731
        s = f"[MARGO]\nHCA = {b(self.hca)}\nLOCK_TIME = {b(self.lt)}\n\n[JSON]\n"
        s += f"ENABLE_PRETTY_VIEW = {b(self.pretty)}\nENABLE_HDR_DATA = {b(self.hdr)}\n"
        s += f"ENABLE_AUX_DATA = {b(self.aux)}\n\n[TIME]\nGPS2UTC : {self.shift}\n\n[LITERALS]\n"
        s += "".join(f"R{k} : {v}\n" for k, v in sorted(self.lit.items()))
        return s

    def key(self):
        return (self.hca, self.lt, self.pretty, self.hdr, self.aux, self.shift,
                tuple(sorted(self.lit.items())))


# --------------------------------------------------------------- products ---
def json_object(msg, cfg, bare):
    """The JSON object expected for a message."""
    if msg.kind != "msm":
        return msg.obj
    tm, day = msm_time(msg.m)
    key = str(tm) if bare else str(tm + day * 86400000)
    o = dict(msg.obj)
    if not cfg.hdr:
        o.pop("hdr")
    if not cfg.aux:
        o.pop("aux")
    return {key: o}


TYPE_ID = {"C": 0, "L": 1, "D": 2, "S": 3, "T": 4, "A": 5}
DECIMALS = {"C": 3, "L": 4, "D": 3, "S": 2, "T": 3, "A": 0}


def margo_freqs(gnss, sig, cfg):
    f0 = {c: f for c, f in R.SIGNALS[gnss].values()}[sig]
    n = R.MAX_SATS[gnss]
    if gnss == "R":
        df = 0.5625 if sig[0] == "1" else 0.4375
        return f0, [f0 + df * cfg.lit[s] for s in range(1, n + 1)]
    return f0, [f0] * n


def margo_time(m, cfg):
    tm, day = msm_time(m)
    if m.gnss == "B":
        return (tm + 14000) % 604800000
    if m.gnss == "R":
        return (tm + day * 86400000 - 10800000 + cfg.shift * 1000) % 604800000
    return tm


def margo_rows(msg, cfg):
    """{relative path: (time, {sat: value})} rows a message adds."""
    m, obs = msg.m, msg.obj["obs"]
    rows = {}
    d = R.GNSS_DIR[m.gnss]
    tm = margo_time(m, cfg)
    ns = R.MAX_SATS[m.gnss]

    def add(letter, sig, vals):
        rows[f"{d}/{m.gnss}{letter}{sig}_MSM{m.t}.obs"] = (
            tm, {int(s): v for s, v in vals.items() if int(s) <= ns})

    for sig, v in obs["rng"].items():
        add("C", sig, v)
    for sig, v in obs["phs"].items():
        _f0, fr = margo_freqs(m.gnss, sig, cfg)
        out = {}
        for s, x in v.items():
            if int(s) > ns:
                continue
            if not cfg.hca and obs["hca"].get(sig, {}).get(s):
                continue
            out[s] = x * fr[int(s) - 1] * 1e6 / 299792458.0
        add("L", sig, out)
    for sig, v in obs["dpl"].items():
        _f0, fr = margo_freqs(m.gnss, sig, cfg)
        add("D", sig, {s: -x * fr[int(s) - 1] * 1e6 / 299792458.0 for s, x in v.items()
                       if int(s) <= ns})
    for sig, v in obs["c2n"].items():
        add("S", sig, v)
    if cfg.lt:
        for sig, v in obs["ltm"].items():
            add("T", sig, {s: x * 0.001 for s, x in v.items()})
    if cfg.hca:
        for sig, v in obs["hca"].items():
            add("A", sig, {s: 1 if x else 0 for s, x in v.items()})
    return rows


class Products:
    """Expected products and statistics of one conversion."""

    def __init__(self, frames, fmt, cfg, parse_errors=0):
        self.fmt, self.cfg = fmt, cfg
        self.json = {}      # path -> (type, [objects])
        self.obs = {}       # path -> [(time, {sat: value})]
        self.attempts = self.dec_errors = self.prints = 0
        self.parse_errors = parse_errors
        self.per_frame = []  # what each frame contributed
        bare = fmt == "JSON-B"
        for f in frames:
            num = number(f)
            if not supported(num, fmt):
                self.per_frame.append(None)
                continue
            self.attempts += 1
            msg = decode(f, bare)
            if msg is None:
                self.dec_errors += 1
                self.per_frame.append(())
                continue
            self.prints += 1
            if msg.kind == "msm" and fmt in ("MARGO", "JARGO"):
                r = margo_rows(msg, cfg)
                for p, row in r.items():
                    self.obs.setdefault(p, []).append(row)
                self.per_frame.append(("obs", r))
            else:
                p = R.JSON_FILE[num]
                o = json_object(msg, cfg, bare)
                self.json.setdefault(p, (msg.type, []))[1].append(o)
                self.per_frame.append(("json", p, o))

    @classmethod
    def of_stream(cls, data, fmt, cfg):
        fr, pe = scan(data)
        return cls([f for _p, f in fr], fmt, cfg, pe)

    def files(self):
        return set(self.json) | set(self.obs)


# -------------------------------------------------------------- comparison --
_PLACE = {"sat": ("rng_ms", "ext_info", "rng_rough", "phase_rate_rough"),
          "sgn": ("rng_fine", "phase_fine", "lock_time", "hc_indc", "c2n", "phase_rate_fine")}


def _num_eq(e, g, abst):
    if isinstance(e, bool) or isinstance(g, bool):
        return e is g
    if isinstance(e, int) and isinstance(g, int):
        return e == g
    if not isinstance(g, (int, float)):
        return False
    return abs(e - g) <= abst + 1e-12 * max(abs(e), abs(g))


def jdiff(e, g, path="", strict=False, abst=0.0):
    """None if got matches expected, else a description of the first difference."""
    if isinstance(e, dict):
        if not isinstance(g, dict):
            return f"{path}: expected object, got {g!r}"
        for k in e:
            if k not in g:
                return f"{path}/{k}: missing (expected {_short(e[k])})"
        for k in g:
            if k not in e:
                return f"{path}/{k}: unexpected {_short(g[k])}"
        for k in e:
            d = jdiff(e[k], g[k], f"{path}/{k}", strict, abst)
            if d:
                return d
        return None
    if isinstance(e, (list, tuple)):
        if not isinstance(g, list) or len(e) != len(g):
            return f"{path}: expected {_short(e)}, got {_short(g)}"
        for i, (a, b) in enumerate(zip(e, g)):
            d = jdiff(a, b, f"{path}[{i}]", strict, abst)
            if d:
                return d
        return None
    if isinstance(e, str):
        return None if e == g and isinstance(g, str) else f"{path}: expected {e!r}, got {_short(g)}"
    if strict:
        ok = type(e) is type(g) and e == g
    else:
        ok = _num_eq(e, g, abst)
    return None if ok else f"{path}: expected {e!r}, got {_short(g)}"


def _short(x, n=120):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def obj_diff(e, g, bare, cfg=None):
    """Compare one JSON object with the expected one (MSM placeholders ignored)."""
    if isinstance(e, dict) and len(e) == 1 and isinstance(next(iter(e.values())), dict) and \
            ("sat" in next(iter(e.values())) or "obs" in next(iter(e.values()))):
        if not isinstance(g, dict) or list(g) != list(e):
            return f"MSM object keyed {list(g) if isinstance(g, dict) else g!r}, expected {list(e)}"
        k = next(iter(e))
        ee, gg = e[k], g[k]
        if not isinstance(gg, dict):
            return f"MSM object body {_short(gg)}"
        if bare:
            gg = dict(gg)
            for sec in ("sat", "sgn"):
                if isinstance(gg.get(sec), dict):
                    gg[sec] = {n: v for n, v in gg[sec].items()
                               if n in ee[sec] or n not in _PLACE[sec]}
            return jdiff(ee, gg, "", True)
        gg = dict(gg)
        if isinstance(gg.get("obs"), dict):
            o = {n: {} for n in ee["obs"]}
            o.update(gg["obs"])
            gg["obs"] = o
        return jdiff(ee, gg, "", False, 1e-9)
    return jdiff(e, g, "", bare)


def _noconst(x):
    raise ValueError(f"{x} is not JSON")


def parse_json_product(raw):
    """(type, objects) of a .json product; raises ValueError."""
    doc = json.loads(raw.decode("utf-8"), parse_constant=_noconst)
    if not isinstance(doc, list) or not doc:
        raise ValueError("not a non-empty list")
    h = doc[0]
    if not isinstance(h, dict) or list(h) != ["source_type"] or not isinstance(h["source_type"], str):
        raise ValueError(f"bad first record {_short(h)}")
    return h["source_type"], doc[1:]


class Obs:
    """Parsed MARGO file."""

    def __init__(self, raw, name):
        txt = raw.decode("ascii")
        if not txt.endswith("\n"):
            raise ValueError("last row not terminated")
        lines = txt.split("\n")[:-1]
        if len(lines) < 2:
            raise ValueError("no header")
        self.cols = [[c.strip() for c in ln.split(",")] for ln in lines]
        self.h1, self.h2 = self.cols[0], self.cols[1]
        self.rows = self.cols[2:]
        self.lines = lines


def is_nan(s):
    return s.lower() == "nan"


def row_diff(letter, n, exp, cols, value=True):
    """Compare a MARGO row (list of strings) with (time, {sat: value})."""
    tm, vals = exp
    if len(cols) != n + 1:
        return f"{len(cols)} columns instead of {n + 1}"
    if cols[0] != str(tm):
        return f"time mark {cols[0]} instead of {tm}"
    for s in range(1, n + 1):
        c = cols[s]
        if s not in vals:
            if not is_nan(c):
                return f"satellite {s}: {c} instead of NaN"
            continue
        if is_nan(c):
            return f"satellite {s}: NaN instead of {vals[s]!r}"
        if not value:
            continue
        d = DECIMALS[letter]
        frac = c.split(".")[1] if "." in c else ""
        if len(frac) != d:
            return f"satellite {s}: {c} printed with {len(frac)} decimals instead of {d}"
        try:
            x = float(c)
        except ValueError:
            return f"satellite {s}: unreadable {c!r}"
        tol = 0.5000001 * 10.0 ** -d + 1e-12 * abs(vals[s])
        if not abs(x - vals[s]) <= tol:
            return f"satellite {s}: {c} instead of {vals[s]!r}"
    return None


def head_diff(path, o, cfg, freqs=True):
    name = path.rsplit("/", 1)[-1]
    g, letter, sig = name[0], name[1], name[2:4]
    n = R.MAX_SATS[g]
    exp = [str(TYPE_ID[letter])] + [str(i) for i in range(1, n + 1)]
    if o.h1 != exp:
        return f"first header row {_short(o.h1)}"
    if len(o.h2) != n + 1:
        return f"second header row has {len(o.h2)} columns instead of {n + 1}"
    if freqs:
        f0, fr = margo_freqs(g, sig, cfg)
        for i, f in enumerate([f0] + fr):
            try:
                x = float(o.h2[i])
            except ValueError:
                return f"second header row column {i}: {o.h2[i]!r}"
            if not abs(x - f) <= 0.51e-4:
                return f"second header row column {i}: {o.h2[i]} instead of {f}"
    return None


