"""Independent encoder for RTCM 10403 messages: bit packing, framing, layouts.

Nothing here is imported from the code under test.  The layouts, resolutions,
signal tables and lock-time tables are written down from RTCM 10403.3 / RINEX 3.
"""

# ---------------------------------------------------------------- CRC-24Q --
_POLY = 0x1864CFB


def _mk():
    t = []
    for i in range(256):
        c = i << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= _POLY
        t.append(c & 0xFFFFFF)
    return tuple(t)


_T = _mk()


def crc24q(data):
    c = 0
    t = _T
    for b in data:
        c = ((c << 8) & 0xFFFFFF) ^ t[(c >> 16) ^ b]
    return c


def frame(payload, reserved=0):
    """Wrap a payload of 0..1023 bytes into an RTCM3 frame."""
    n = len(payload)
    assert n <= 1023
    h = bytes((0xD3, (reserved << 2) | (n >> 8), n & 0xFF)) + bytes(payload)
    return h + crc24q(h).to_bytes(3, "big")


# ------------------------------------------------------------- bit packing --
class BitW:
    __slots__ = ("v", "n")

    def __init__(self):
        self.v = 0
        self.n = 0

    def put(self, value, width):
        self.v = (self.v << width) | (value & ((1 << width) - 1))
        self.n += width
        return self

    def bytes(self):
        pad = -self.n % 8
        return (self.v << pad).to_bytes((self.n + pad) // 8, "big")


# ---------------------------------------------------------------- layouts ---
# (name, kind, width, resolution); kind: u unsigned, s two's complement,
# g sign-magnitude, r reserved.  resolution None: not scaled.
def _p(n):
    return 2.0 ** n


_KEP = lambda n, w, k, r: (n, k, w, r)  # noqa: E731

EPH = {
    1019: [
        ("satNum", "u", 6, None), ("weekNum", "u", 10, None), ("URA", "u", 4, None),
        ("L2_Codes", "u", 2, None), ("i_dot", "s", 14, _p(-43)), ("IODE", "u", 8, None),
        ("tc", "u", 16, 16), ("af2", "s", 8, _p(-55)), ("af1", "s", 16, _p(-43)),
        ("af0", "s", 22, _p(-31)), ("IODC", "u", 10, None), ("crs", "s", 16, _p(-5)),
        ("delta_n", "s", 16, _p(-43)), ("m0", "s", 32, _p(-31)), ("cuc", "s", 16, _p(-29)),
        ("e", "u", 32, _p(-33)), ("cus", "s", 16, _p(-29)), ("sqrt_a", "u", 32, _p(-19)),
        ("te", "u", 16, 16), ("cic", "s", 16, _p(-29)), ("omega0", "s", 32, _p(-31)),
        ("cis", "s", 16, _p(-29)), ("i0", "s", 32, _p(-31)), ("crc", "s", 16, _p(-5)),
        ("w", "s", 32, _p(-31)), ("omega_dot", "s", 24, _p(-43)), ("TGD", "s", 8, _p(-31)),
        ("SVH", "u", 6, None), ("L2P_Data", "u", 1, None), ("Fit", "u", 1, None),
    ],
    1020: [
        ("satNum", "u", 6, None), ("frqSloNum", "u", 5, "frq"), ("Cn", "u", 1, None),
        ("AlmHAI", "u", 1, None), ("P1", "u", 2, None), ("tk", "u", 12, "tk"),
        ("BnMSB", "u", 1, None), ("P2", "u", 1, None), ("tb", "u", 7, 900),
        ("dotXn", "g", 24, _p(-20)), ("xn", "g", 27, _p(-11)), ("dotDotXn", "g", 5, _p(-30)),
        ("dotYn", "g", 24, _p(-20)), ("yn", "g", 27, _p(-11)), ("dotDotYn", "g", 5, _p(-30)),
        ("dotZn", "g", 24, _p(-20)), ("zn", "g", 27, _p(-11)), ("dotDotZn", "g", 5, _p(-30)),
        ("P3", "u", 1, None), ("gamma_n", "g", 11, _p(-40)), ("P", "u", 2, None),
        ("ln3", "u", 1, None), ("tauN", "g", 22, _p(-30)), ("delta_tauN", "g", 5, _p(-30)),
        ("En", "u", 5, None), ("P4", "u", 1, None), ("Ft", "u", 4, None),
        ("Nt", "u", 11, None), ("M", "u", 2, None), ("auxDataOK", "u", 1, None),
        ("Na", "u", 11, None), ("tauC", "g", 32, _p(-31)), ("N4", "u", 5, None),
        ("tauGPS", "g", 22, _p(-30)), ("ln5", "u", 1, None), ("_r1", "r", 7, None),
    ],
    1041: [
        ("satNum", "u", 6, None), ("weekNum", "u", 10, None), ("af0", "s", 22, _p(-31)),
        ("af1", "s", 16, _p(-43)), ("af2", "s", 8, _p(-55)), ("URA", "u", 4, None),
        ("tc", "u", 16, 16), ("TGD", "s", 8, _p(-31)), ("delta_n", "s", 22, _p(-41)),
        ("IODEC", "u", 8, None), ("_r1", "r", 10, None), ("L5_Flag", "u", 1, None),
        ("S_Flag", "u", 1, None), ("cuc", "s", 15, _p(-28)), ("cus", "s", 15, _p(-28)),
        ("cic", "s", 15, _p(-28)), ("cis", "s", 15, _p(-28)), ("crc", "s", 15, _p(-4)),
        ("crs", "s", 15, _p(-4)), ("i_dot", "s", 14, _p(-43)), ("m0", "s", 32, _p(-31)),
        ("te", "u", 16, 16), ("e", "u", 32, _p(-33)), ("sqrt_a", "u", 32, _p(-19)),
        ("omega0", "s", 32, _p(-31)), ("w", "s", 32, _p(-31)), ("omega_dot", "s", 22, _p(-41)),
        ("i0", "s", 32, _p(-31)), ("_r2", "r", 4, None),
    ],
    1042: [
        ("satNum", "u", 6, None), ("weekNum", "u", 13, None), ("URAI", "u", 4, None),
        ("i_dot", "s", 14, _p(-43)), ("AODE", "u", 5, None), ("tc", "u", 17, 8),
        ("af2", "s", 11, _p(-66)), ("af1", "s", 22, _p(-50)), ("af0", "s", 24, _p(-33)),
        ("AODC", "u", 5, None), ("crs", "s", 18, _p(-6)), ("delta_n", "s", 16, _p(-43)),
        ("m0", "s", 32, _p(-31)), ("cuc", "s", 18, _p(-31)), ("e", "u", 32, _p(-33)),
        ("cus", "s", 18, _p(-31)), ("sqrt_a", "u", 32, _p(-19)), ("te", "u", 17, 8),
        ("cic", "s", 18, _p(-31)), ("omega0", "s", 32, _p(-31)), ("cis", "s", 18, _p(-31)),
        ("i0", "s", 32, _p(-31)), ("crc", "s", 18, _p(-6)), ("w", "s", 32, _p(-31)),
        ("omega_dot", "s", 24, _p(-43)), ("TGD1", "s", 10, 1e-10), ("TGD2", "s", 10, 1e-10),
        ("SVH", "u", 1, None),
    ],
    1044: [
        ("satNum", "u", 4, None), ("tc", "u", 16, 16), ("af2", "s", 8, _p(-55)),
        ("af1", "s", 16, _p(-43)), ("af0", "s", 22, _p(-31)), ("IODE", "u", 8, None),
        ("crs", "s", 16, _p(-5)), ("delta_n", "s", 16, _p(-43)), ("m0", "s", 32, _p(-31)),
        ("cuc", "s", 16, _p(-29)), ("e", "u", 32, _p(-33)), ("cus", "s", 16, _p(-29)),
        ("sqrt_a", "u", 32, _p(-19)), ("te", "u", 16, 16), ("cic", "s", 16, _p(-29)),
        ("omega0", "s", 32, _p(-31)), ("cis", "s", 16, _p(-29)), ("i0", "s", 32, _p(-31)),
        ("crc", "s", 16, _p(-5)), ("w", "s", 32, _p(-31)), ("omega_dot", "s", 24, _p(-43)),
        ("i_dot", "s", 14, _p(-43)), ("L2_Codes", "u", 2, None), ("weekNum", "u", 10, None),
        ("URA", "u", 4, None), ("SVH", "u", 6, None), ("TGD", "s", 8, _p(-31)),
        ("IODC", "u", 10, None), ("Fit", "u", 1, None),
    ],
}
_GAL = [
    ("satNum", "u", 6, None), ("weekNum", "u", 12, None), ("IODnav", "u", 10, None),
    ("SISA", "u", 8, None), ("i_dot", "s", 14, _p(-43)), ("tc", "u", 14, 60),
    ("af2", "s", 6, _p(-59)), ("af1", "s", 21, _p(-46)), ("af0", "s", 31, _p(-34)),
    ("crs", "s", 16, _p(-5)), ("delta_n", "s", 16, _p(-43)), ("m0", "s", 32, _p(-31)),
    ("cuc", "s", 16, _p(-29)), ("e", "u", 32, _p(-33)), ("cus", "s", 16, _p(-29)),
    ("sqrt_a", "u", 32, _p(-19)), ("te", "u", 14, 60), ("cic", "s", 16, _p(-29)),
    ("omega0", "s", 32, _p(-31)), ("cis", "s", 16, _p(-29)), ("i0", "s", 32, _p(-31)),
    ("crc", "s", 16, _p(-5)), ("w", "s", 32, _p(-31)), ("omega_dot", "s", 24, _p(-43)),
    ("E5a_BGD", "s", 10, _p(-32)),
]
EPH[1045] = _GAL + [("E5a_SHS", "u", 2, None), ("E5a_DVS", "u", 1, None), ("_r1", "r", 7, None)]
EPH[1046] = _GAL + [
    ("E5b_BGD", "s", 10, _p(-32)), ("E5b_SHS", "u", 2, None), ("E5b_DVS", "u", 1, None),
    ("E1_SHS", "u", 2, None), ("E1_DVS", "u", 1, None), ("_r1", "r", 2, None),
]
EPH_BITS = {1019: 488, 1020: 360, 1041: 482, 1042: 511, 1044: 485, 1045: 496, 1046: 504}
for _n, _l in EPH.items():
    assert 12 + sum(f[2] for f in _l) == EPH_BITS[_n], _n

EPH_TYPE = {1019: "EphGPS", 1020: "EphGLO", 1041: "EphNAVIC", 1042: "EphBDS",
            1044: "EphQZS", 1045: "EphGALF", 1046: "EphGALI"}

BASE_REF = [
    ("bsID", "u", 12, None), ("ITRF_Year", "u", 6, None), ("GPS_OK", "u", 1, "b"),
    ("GLO_OK", "u", 1, "b"), ("GAL_OK", "u", 1, "b"), ("isVirtual", "u", 1, "b"),
    ("refPoint_X", "s", 38, 1e-4), ("singleOsc", "u", 1, "b"), ("_r1", "r", 1, None),
    ("refPoint_Y", "s", 38, 1e-4), ("QC_bias", "u", 2, "qc"), ("refPoint_Z", "s", 38, 1e-4),
]
BASE = {1005: BASE_REF, 1006: BASE_REF + [("height", "u", 16, 1e-4)]}
BASE_TYPE = {1005: "BaseRP", 1006: "BaseRPH", 1007: "BaseAD", 1008: "BaseADSN",
             1013: "BaseSP", 1029: "BaseTS", 1033: "BaseADSNRC", 1230: "BaseGLBS"}

GNSS = "GRESQBI"
GNSS_DIR = {"G": "GPS", "R": "GLN", "E": "GAL", "S": "SBS", "Q": "QZS", "B": "BDS", "I": "NAVIC"}
MAX_SATS = {"G": 32, "R": 24, "E": 36, "S": 38, "Q": 5, "B": 37, "I": 14}


def msm_num(gnss, typ):
    return 1070 + 10 * GNSS.index(gnss) + typ


def msm_of(num):
    """(gnss, type) of an MSM message number, or None."""
    k, t = divmod(num - 1070, 10)
    if 0 <= k < 7 and 1 <= t <= 7:
        return GNSS[k], t
    return None


MSM_NUMS = [msm_num(g, t) for g in GNSS for t in range(1, 8)]
EPH_NUMS = sorted(EPH)
BASE_NUMS = sorted(BASE_TYPE)
ALL_NUMS = sorted(MSM_NUMS + EPH_NUMS + BASE_NUMS)

JSON_FILE = {}
for _g in GNSS:
    for _t in range(1, 8):
        _n = msm_num(_g, _t)
        JSON_FILE[_n] = f"MSM{_t}/{GNSS_DIR[_g]}-MSM{_t}-{_n}.json"
for _n, _d in {1019: "GPS", 1020: "GLN", 1041: "NAVIC", 1042: "BDS", 1044: "QZS",
               1045: "GAL", 1046: "GAL"}.items():
    JSON_FILE[_n] = f"EPH/{_d}-EPH-{_n}.json"
for _n, _d in {1005: "RefPoint", 1006: "RefPointHeight", 1007: "AntDesc", 1008: "AntDescSer",
               1013: "SysPar", 1029: "TextStr", 1033: "AntAndRcvDesc", 1230: "GloBias"}.items():
    JSON_FILE[_n] = f"BASE/{_d}-{_n}.json"
FILE_NUM = {v: k for k, v in JSON_FILE.items()}

# RTCM signal id -> (RINEX code, carrier MHz)
_L1, _L2, _L5 = 1575.42, 1227.60, 1176.45
SIGNALS = {
    "G": {2: ("1C", _L1), 3: ("1P", _L1), 4: ("1W", _L1), 8: ("2C", _L2), 9: ("2P", _L2),
          10: ("2W", _L2), 15: ("2S", _L2), 16: ("2L", _L2), 17: ("2X", _L2), 22: ("5I", _L5),
          23: ("5Q", _L5), 24: ("5X", _L5), 30: ("1S", _L1), 31: ("1L", _L1), 32: ("1X", _L1)},
    "R": {2: ("1C", 1602.0), 3: ("1P", 1602.0), 8: ("2C", 1246.0), 9: ("2P", 1246.0)},
    "E": {2: ("1C", _L1), 3: ("1A", _L1), 4: ("1B", _L1), 5: ("1X", _L1), 6: ("1Z", _L1),
          8: ("6C", 1278.75), 9: ("6A", 1278.75), 10: ("6B", 1278.75), 11: ("6X", 1278.75),
          12: ("6Z", 1278.75), 14: ("7I", 1207.14), 15: ("7Q", 1207.14), 16: ("7X", 1207.14),
          18: ("8I", 1191.795), 19: ("8Q", 1191.795), 20: ("8X", 1191.795), 22: ("5I", _L5),
          23: ("5Q", _L5), 24: ("5X", _L5)},
    "S": {2: ("1C", _L1), 22: ("5I", _L5), 23: ("5Q", _L5), 24: ("5X", _L5)},
    "Q": {2: ("1C", _L1), 9: ("6S", 1278.75), 10: ("6L", 1278.75), 11: ("6X", 1278.75),
          15: ("2S", _L2), 16: ("2L", _L2), 17: ("2X", _L2), 22: ("5I", _L5), 23: ("5Q", _L5),
          24: ("5X", _L5), 30: ("1S", _L1), 31: ("1L", _L1), 32: ("1X", _L1)},
    "B": {2: ("2I", 1561.098), 3: ("2Q", 1561.098), 4: ("2X", 1561.098), 8: ("6I", 1268.52),
          9: ("6Q", 1268.52), 10: ("6X", 1268.52), 14: ("7I", 1207.14), 15: ("7Q", 1207.14),
          16: ("7X", 1207.14)},
    "I": {8: ("9A", 2492.028), 22: ("5A", _L5)},
}

# MSM field names (JSON-B names), kind, width, in transmitted order
MSM_SAT = {
    1: [("rng_rough", "u", 10)], 2: [("rng_rough", "u", 10)], 3: [("rng_rough", "u", 10)],
    4: [("rng_ms", "u", 8), ("rng_rough", "u", 10)],
    5: [("rng_ms", "u", 8), ("ext_info", "u", 4), ("rng_rough", "u", 10), ("phase_rate_rough", "s", 14)],
}
MSM_SAT[6], MSM_SAT[7] = MSM_SAT[4], MSM_SAT[5]
MSM_SGN = {
    1: [("rng_fine", "s", 15)],
    2: [("phase_fine", "s", 22), ("lock_time", "u", 4), ("hc_indc", "u", 1)],
    3: [("rng_fine", "s", 15), ("phase_fine", "s", 22), ("lock_time", "u", 4), ("hc_indc", "u", 1)],
    4: [("rng_fine", "s", 15), ("phase_fine", "s", 22), ("lock_time", "u", 4), ("hc_indc", "u", 1),
        ("c2n", "u", 6)],
    5: [("rng_fine", "s", 15), ("phase_fine", "s", 22), ("lock_time", "u", 4), ("hc_indc", "u", 1),
        ("c2n", "u", 6), ("phase_rate_fine", "s", 15)],
    6: [("rng_fine", "s", 20), ("phase_fine", "s", 24), ("lock_time", "u", 10), ("hc_indc", "u", 1),
        ("c2n", "u", 10)],
    7: [("rng_fine", "s", 20), ("phase_fine", "s", 24), ("lock_time", "u", 10), ("hc_indc", "u", 1),
        ("c2n", "u", 10), ("phase_rate_fine", "s", 15)],
}
MSM_HDR = [("rs_id", 12), ("time", 30), ("MMB", 1), ("IODS", 3), ("_r", 7), ("clk_steer", 2),
           ("clk_ext", 2), ("smth_indc", 1), ("smth_intr", 3)]


# --------------------------------------------------------------- builders ---
def raw_of(kind, width, value):
    """Encode a logical value of a field into its raw bits."""
    if kind == "g":
        return value if value >= 0 else (1 << (width - 1)) | -value
    return value & ((1 << width) - 1)


def pack_fields(num, layout, raw):
    """raw: dict name -> raw bits (unsigned)."""
    w = BitW().put(num, 12)
    for name, _k, width, _r in layout:
        w.put(raw.get(name, 0), width)
    return w.bytes()


def eph(num, raw, extra=b""):
    return frame(pack_fields(num, EPH[num], raw) + extra)


def base_ref(num, raw):
    return frame(pack_fields(num, BASE[num], raw))


def base_str(num, bsid, setup, strings):
    """1007/1008/1033; strings: list of 1/2/5 byte strings."""
    w = BitW().put(num, 12).put(bsid, 12).put(len(strings[0]), 8)
    for b in strings[0]:
        w.put(b, 8)
    w.put(setup, 8)
    for s in strings[1:]:
        w.put(len(s), 8)
        for b in s:
            w.put(b, 8)
    return frame(w.bytes())


def base_1013(bsid, mjd, sec, nm, leap, items, pad=None):
    w = BitW().put(1013, 12).put(bsid, 12).put(mjd, 16).put(sec, 17).put(nm, 5).put(leap, 8)
    for i, f, p in items:
        w.put(i, 12).put(f, 1).put(p, 16)
    return frame(w.bytes())


def base_1029(bsid, mjd, sec, nchar, units, nunits=None):
    w = BitW().put(1029, 12).put(bsid, 12).put(mjd, 16).put(sec, 17).put(nchar, 7)
    w.put(len(units) if nunits is None else nunits, 8)
    for b in units:
        w.put(b, 8)
    return frame(w.bytes())


def base_1230(bsid, ind, mask, vals, res=0):
    w = BitW().put(1230, 12).put(bsid, 12).put(ind, 1).put(res, 3).put(mask, 4)
    for v in vals:
        w.put(v, 16)
    return frame(w.bytes())


def msm_payload(num, hdr, sats, sigs, cells, satdata, sgndata):
    """sats, sigs: ascending 1-based ids; cells: list of (sat, sig) present, any order;
    satdata[field]: list per sat, sgndata[field]: list per cell (transmitted order), raw bits."""
    _g, t = msm_of(num)
    w = BitW().put(num, 12)
    for n, width in MSM_HDR:
        w.put(hdr.get(n, 0), width)
    for i in range(1, 65):
        w.put(1 if i in sats else 0, 1)
    for i in range(1, 33):
        w.put(1 if i in sigs else 0, 1)
    if not sats:
        return w.bytes()
    cs = set(cells)
    for s in sats:
        for g in sigs:
            w.put(1 if (s, g) in cs else 0, 1)
    for n, _k, width in MSM_SAT[t]:
        for v in satdata[n]:
            w.put(v, width)
    for n, _k, width in MSM_SGN[t]:
        for v in sgndata[n]:
            w.put(v, width)
    return w.bytes()


def msm(num, hdr, sats, sigs, cells, satdata, sgndata):
    return frame(msm_payload(num, hdr, sats, sigs, cells, satdata, sgndata))


def rng32(seed):
    """Small deterministic generator for 'arbitrary' background content."""
    x = (seed * 2654435761 + 0x9E3779B9) & 0xFFFFFFFF

    def nxt(bits):
        nonlocal x
        v = 0
        n = 0
        while n < bits:
            x ^= (x << 13) & 0xFFFFFFFF
            x ^= x >> 17
            x ^= (x << 5) & 0xFFFFFFFF
            v = (v << 16) | ((x >> 8) & 0xFFFF)
            n += 16
        return v & ((1 << bits) - 1)

    return nxt


MARK = {("rng_ms", 8): 255, ("phase_rate_rough", 14): 0x2000, ("rng_fine", 15): 0x4000,
        ("rng_fine", 20): 0x80000, ("phase_fine", 22): 0x200000, ("phase_fine", 24): 0x800000,
        ("phase_rate_fine", 15): 0x4000}


def msm_fill(num, sats, sigs, cells, seed=1, hdr=None, mark=()):
    """MSM message with arbitrary valid content; `mark` is a set of
    ('sat', i, field) / ('cell', i, field) positions given the invalid code."""
    _g, t = msm_of(num)
    nx = rng32(seed * 7919 + num)
    sd, cd = {}, {}
    cl = [(s, g) for s in sats for g in sigs if (s, g) in set(cells)]
    for n, _k, w in MSM_SAT[t]:
        col = []
        for i in range(len(sats)):
            v = nx(w)
            m = MARK.get((n, w))
            if v == m:
                v = 1
            if ("sat", i, n) in mark:
                v = m
            col.append(v)
        sd[n] = col
    for n, _k, w in MSM_SGN[t]:
        col = []
        for i in range(len(cl)):
            v = nx(w)
            m = MARK.get((n, w))
            if v == m:
                v = 1
            if ("cell", i, n) in mark:
                v = m
            col.append(v)
        cd[n] = col
    h = {n: nx(w) for n, w in MSM_HDR}
    h["_r"] = 0
    h["time"] = nx(30) % 604800000
    if _g == "R":
        h["time"] = ((nx(8) % 7) << 27) | (nx(30) % 86400000)
    h.update(hdr or {})
    return msm(num, h, list(sats), list(sigs), cl, sd, cd)
