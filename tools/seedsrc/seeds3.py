"""Third batch of planted bugs."""
from seeds import D, M, B, E_, U, MP, JP, PT, CT, RC, CO, LG, DC, BT

S = []


def bug(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, demo))


# ------------------------------------------------------------------ C01
bug("last-byte-d3", "C01",
    [(D, "                    self._tail = self._tail[msg_length:]\n",
      "                    if self._tail[msg_length - 1] == 0xD3:\n                        # May be the first byte of the next message\n                        msg_length -= 1\n                    self._tail = self._tail[msg_length:]\n")],
    "a frame whose checksum ends with 0xD3, followed by bytes that complete another frame", "overlapping frames are delivered",
    """
for i in range(1 << 16):
    f = rt.frame(b"\\x43\\x50" + i.to_bytes(2, "big"))
    if f[-1] == 0xD3:
        break
g = rt.frame(b"\\x43\\x51\\x07")
check(parse(f + g[1:])[0] == [f], "overlapping frame delivered")
""")
bug("crc-by-context", "C01",
    [(D, "                if self.mcrc(self._tail):\n                    # Extract message\n",
      "                if self.mcrc(self._tail) or self._tail[msg_length : msg_length + 2] == b\"\\xd3\\x00\" and self._tail[3:5] == self._last:\n                    # Extract message\n                    self._last = self._tail[3:5]\n"),
     (D, "        self._synchronized: bool = False\n", "        self._synchronized: bool = False\n        self._last = b\"\"\n")],
    "a damaged frame of the number of the last good one, directly followed by a further frame", "the damaged frame is delivered",
    """
f = rt.eph(1019, {"satNum": 5})
g = bytearray(f); g[20] ^= 4
check(bytes(g) not in parse(f + bytes(g) + f)[0], "damaged frame delivered")
""")
# ------------------------------------------------------------------ C02
bug("chunk-64k", "C02",
    [(D, "        self._tail = b\"\".join([self._tail, chunk])\n", "        self._tail = b\"\".join([self._tail, chunk[: 1 << 16]])\n")],
    "a chunk of more than 65536 bytes", "the bytes beyond are dropped",
    """
f = rt.eph(1019, {"satNum": 5})
n = 2000
check(len(parse(f * n)[0]) == n, "frames of a large chunk lost")
""")
bug("msgs-per-chunk", "C02",
    [(D, "                search_finished = msg_length > tail_length\n", "                search_finished = msg_length > tail_length or len(ret_list) >= 4096\n")],
    "more than 4096 messages in one chunk", "the messages beyond come later or, at the end of the stream, after the wrong byte",
    """
f = rt.frame(b"")
check(len(parse(f * 5000)[0]) == 5000, "messages of a large chunk lost")
""")
# ------------------------------------------------------------------ C03
bug("find-window", "C03",
    [(D, "            ofs = self._tail.find(bytes.fromhex(\"D3\"), ptr)\n", "            ofs = self._tail.find(bytes.fromhex(\"D3\"), ptr, ptr + 8192)\n")],
    "a chunk with more than 8 KB of garbage before a frame", "the frame is lost",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(bytes(9000) + f)[0] == [f], "frame behind garbage lost")
""")
bug("flush-short", "C03",
    [(D, "        while self._tail:\n", "        while len(self._tail) > 8:\n")],
    "an empty frame behind a single false start byte at the end of the input", "the frame is lost",
    """
f = rt.frame(b"")
check(parse(b"\\xd3" + f)[0] == [f] and parse(f + b"\\xd3" + f)[0] == [f, f], "short frame at the end lost")
check(parse(b"\\xd3\\x00" + f)[0] == [f], "short frame at the end lost")
check(parse(b"\\xd3\\x00\\x20" + f)[0] == [f], "short frame at the end lost")
check(parse(b"\\xd3\\x00\\x02\\x00" + f[:-1] + f[-1:])[0] == [f], "short frame at the end lost")
""")
# ------------------------------------------------------------------ C04
bug("flush-gap", "C04",
    [(D, "        ret_list = []\n        while self._tail:\n", "        ret_list = []\n        self._synchronized = False\n        while self._tail:\n")],
    "a false start behind the last but one frame, hiding the last frame until the end of the input", "the gap is not counted",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(f + b"\\xd3\\x03\\xff" + f)[1] == 1, "gap before a frame found at the end not counted")
""")
bug("gap-one-left", "C04",
    [(D, "                    if self._skipped_some_bytes:\n", "                    if self._skipped_some_bytes and len(self._tail) != 1:\n")],
    "exactly one byte behind the frame that follows a gap", "the gap is not counted",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(f + b"x" + f + b"x")[1] == 1, "gap not counted")
""")
# ------------------------------------------------------------------ C05
bug("gal-week-roll", "C05",
    [(E_, "        eph.weekNum = ie.weekNum  # DF289\n        eph.IODnav = ie.IODnav  # DF290 [0..1023]\n        eph.SISA = ie.SISA  # DF286 [0..255] index\n        eph.i_dot = ie.i_dot * (2**-43)  # DF292 [hc/sec]\n",
      "        eph.weekNum = ie.weekNum if ie.tc * 60 < 604800 else ie.weekNum + 1  # DF289\n        eph.IODnav = ie.IODnav  # DF290 [0..1023]\n        eph.SISA = ie.SISA  # DF286 [0..255] index\n        eph.i_dot = ie.i_dot * (2**-43)  # DF292 [hc/sec]\n")],
    "message 1046 with a reference time of 604800 s or more", "the week number depends on another field",
    """
r = js(conv(rt.eph(1046, {"weekNum": 77, "tc": 10080})), 1046)[0]
check(r["weekNum"] == 77, "week number changed")
""")
# ------------------------------------------------------------------ C06
bug("text-bom", "C06",
    [(B, "        symbols = ibs.message.split()\n        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")",
      "        symbols = ibs.message.split()\n        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8-sig\")")],
    "a text starting with U+FEFF", "the character is lost",
    """
r = js(conv(rt.base_1029(1, 2, 3, 2, "\\ufeffa".encode())), 1029)[0]
check(r["message"] == "\\ufeffa", "character lost")
""")
bug("text-nfc", "C06",
    [(B, "        symbols = ibs.message.split()\n        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")",
      "        symbols = ibs.message.split()\n        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")\n        bs.message = unicodedata.normalize(\"NFC\", bs.message)"),
     (B, "import math\n", "import math\nimport unicodedata\n")],
    "a text with combining characters", "the text is altered",
    """
t = "e\\u0301"
r = js(conv(rt.base_1029(1, 2, 3, 2, t.encode())), 1029)[0]
check(r["message"] == t, "text altered")
""")
bug("sched-limit", "C06",
    [(B, "            bs.shedule.update({ID: (isPeriodic, period)})\n", "            if len(bs.shedule) < 64:\n                bs.shedule.update({ID: (isPeriodic, period)})\n")],
    "message 1013 with count field zero and more than 64 announcements", "announcements are lost",
    """
it = [(i + 1, 1, i) for i in range(100)]
r = js(conv(rt.base_1013(1, 2, 3, 0, 18, it)), 1013)[0]
check(len(r["shedule"]) == 100, "announcements lost")
""")
# ------------------------------------------------------------------ C07
bug("reserved-hdr", "C07",
    [(M, "offset + (3 + 7)\n", "offset + (3 + 7)\n        if self.getbitu(buf, offset - 7, 7):\n            self.bd.hdr.IODS = 0\n")],
    "a message with non-zero reserved header bits", "IODS is not the transmitted value",
    """
f = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5, "IODS": 5, "_r": 9})
r = js(conv(f, "JSON-B"), 1077)[0]
check(list(r.values())[0]["hdr"]["IODS"] == 5, "IODS wrong")
""")
bug("sgn-mask-empty", "C07",
    [(M, "        if Nsat == 0:\n            # Do final", "        if Nsat == 0:\n            self.bd.hdr.sgn_mask = 0\n            # Do final")],
    "a message without satellites but with signals", "the signal mask is lost",
    """
f = rt.msm(1077, {"time": 1000}, [], [2, 3], [], {}, {})
r = js(conv(f, "JSON-B"), 1077)[0]
check(list(r.values())[0]["hdr"]["sgn_mask"] == 6, "signal mask lost")
""")
# ------------------------------------------------------------------ C08
bug("rng-nonneg", "C08",
    [(M, "                        rv.obs.rng[sgn].update({sat: tmp})\n                    else:\n                        logger.info(\n                            f\"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})\"\n                        )\n\n                # Make fine phase range\n                if rng_ok:",
      "                        rv.obs.rng[sgn].update({sat: max(tmp, 0.0)})\n                    else:\n                        logger.info(\n                            f\"No fine range:gnss={src.atr.gnss},({sat=},{sgn=})\"\n                        )\n\n                # Make fine phase range\n                if rng_ok:")],
    "a zero rough range with a negative fine range", "the pseudorange is wrong",
    """
f = rt.msm(1074, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [0], "rng_rough": [0]},
           {"rng_fine": [0x7fff], "phase_fine": [5], "lock_time": [3], "hc_indc": [0], "c2n": [30]})
r = list(js(conv(f), 1074)[0].values())[0]["obs"]["rng"]["1C"]["4"]
check(near(r, -299792.458 * 2**-24), "pseudorange wrong")
""")
bug("phase-carry", "C08",
    [(M, "                            rng + float(src.sgn.phase_fine[sgn_idx]) * scalers[\"phs\"]\n                        ) * MSMT.CRNG_1MS\n                        rv.obs.phs[sgn].update({sat: tmp})\n                    else:",
      "                            rng + float(src.sgn.phase_fine[sgn_idx]) * scalers[\"phs\"]\n                        ) * MSMT.CRNG_1MS\n                        if src.sgn.rng_fine[sgn_idx] < 0 < src.sgn.phase_fine[sgn_idx] and src.sat.rng_rough[sat_idx] == 0:\n                            tmp -= MSMT.CRNG_1MS / 1024\n                        rv.obs.phs[sgn].update({sat: tmp})\n                    else:")],
    "rough range remainder zero, negative fine range, positive fine phase", "the phase is wrong",
    """
f = rt.msm(1074, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "rng_rough": [0]},
           {"rng_fine": [0x7fff], "phase_fine": [5], "lock_time": [3], "hc_indc": [0], "c2n": [30]})
r = list(js(conv(f), 1074)[0].values())[0]["obs"]["phs"]["1C"]["4"]
check(near(r, 299792.458 * (70 + 5 * 2**-29)), "phase wrong")
""")
# ------------------------------------------------------------------ C09
bug("ms-and-rough", "C09",
    [(M, "            rng_ok = src.sat.rng_ms[sat_idx] != 255\n", "            rng_ok = src.sat.rng_ms[sat_idx] != 255 or src.sat.rng_rough[sat_idx] == 1023\n")],
    "an invalid whole-millisecond range with remainder 1023", "an invalid range is output",
    """
f = rt.msm(1074, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [255], "rng_rough": [1023]},
           {"rng_fine": [3], "phase_fine": [5], "lock_time": [3], "hc_indc": [0], "c2n": [30]})
r = list(js(conv(f), 1074)[0].values())[0]["obs"]
check(not r["rng"] and not r["phs"], "invalid range output")
""")
bug("marker-cells", "C09",
    [(M, "                    if checkers[\"phs\"](src.sgn.phase_fine[sgn_idx]):\n", "                    if sgn_idx >= 40 or checkers[\"phs\"](src.sgn.phase_fine[sgn_idx]):\n")],
    "an invalid fine phase in one of the last cells of a large message", "the invalid phase is output",
    """
sats = list(range(1, 17)); sg = [2, 3, 8, 9]
f = rt.msm_fill(1077, sats, sg, [(s, g) for s in sats for g in sg], 3, {"time": 5}, {("cell", 50, "phase_fine")})
r = list(js(conv(f), 1077)[0].values())[0]["obs"]["phs"]
check(sum(len(x) for x in r.values()) == 63, "invalid phase output")
""")
# ------------------------------------------------------------------ C10
bug("msm-pad-bit", "C10",
    [(M, "            if len(buf) != (Nbytes + 3):\n                raise ExceptionBareDataStructure(\n                    f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n                )\n            else:",
      "            if len(buf) not in (Nbytes + 3, Nbytes + 4):\n                raise ExceptionBareDataStructure(\n                    f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n                )\n            else:")],
    "a message without satellites and one byte too long", "the malformed message is converted",
    """
p = rt.msm(1077, {"time": 1000}, [], [], [], {}, {})[3:-3]
check(js(conv(rt.frame(p + b"\\0")), 1077) is None, "malformed message converted")
""")
# ------------------------------------------------------------------ C11
bug("margo-msm1-file", "C11",
    [(MP, "            fn = self.make_obs_file_name(gnss, \"C\", slot, pdata.atr.subset)\n", "            fn = self.make_obs_file_name(gnss, \"C\", slot, pdata.atr.subset.replace(\"MSM1\", \"MSM3\") if gnss == \"I\" else pdata.atr.subset)\n")],
    "message 1131", "its ranges go to the file of another MSM type",
    """
r = conv(rt.msm_fill(1131, [4], [8], [(4, 8)], 3, {"time": 5}), "MARGO")
check(any(k.endswith("MSM1.obs") for k in r), "wrong file")
""")
# ------------------------------------------------------------------ C12
bug("empty-skipped", "C12",
    [(JP, "        data_string = \",\\r\" + data_string\n", "        if getattr(iblock, \"message\", None) == \"\":\n            return\n        data_string = \",\\r\" + data_string\n")],
    "a text message with an empty text", "the object is missing",
    """
check(len(js(conv(rt.base_1029(1, 2, 3, 0, b"") + rt.base_1029(1, 2, 3, 1, b"a")), 1029)) == 2, "object missing")
""")
bug("line-separator", "C12",
    [(JP, "                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False\n", "                asDictionary, indent=indent, allow_nan=True, ensure_ascii=False\n            ).replace(\"\\u2028\", \"\\n\"\n")],
    "a text with U+2028", "the product is not valid JSON",
    """
try:
    n = len(js(conv(rt.base_1029(1, 2, 3, 1, "\\u2028".encode())), 1029))
except ValueError:
    n = 0
check(n == 1, "invalid JSON")
""")
# ------------------------------------------------------------------ C13
bug("outside-sat", "C13",
    [(MP, "        max_sats = self.MAX_SATS(gnss)\n        pattern", "        max_sats = self.MAX_SATS(gnss)\n        if pdata.hdr.sats and pdata.hdr.sats[-1] > max_sats:\n            max_sats = pdata.hdr.sats[-1]\n        pattern")],
    "a message with a satellite beyond the table", "its rows are lost",
    """
r = conv(rt.msm_fill(1077, [4, 40], [2], [(4, 2), (40, 2)], 3, {"time": 5}), "MARGO")
check(all(len(x) == 33 for k, v in r.items() if k.endswith(".obs") for x in obs(r, k)) and len(r) > 3, "irregular or missing table")
""")
bug("trailing-sats", "C13",
    [(MP, "            lam = self.make_lambdas(gnss, slot)\n            for sat in range(1, max_sats + 1):\n                value = -obs[sat]", "            lam = self.make_lambdas(gnss, slot)\n            for sat in range(1, max(obs) + 1 if len(obs) > 9 else max_sats + 1):\n                value = -obs[sat]")],
    "Doppler of ten or more satellites", "rows are too short",
    """
s = list(range(1, 12))
r = conv(rt.msm_fill(1077, s, [2], [(i, 2) for i in s], 3, {"time": 5}), "MARGO")
check(all(len(x) == 33 for k, v in r.items() if k.endswith(".obs") for x in obs(r, k)), "irregular table")
""")
# ------------------------------------------------------------------ C14
bug("shift-byte", "C14",
    [(MP, "            rv = time + day * 86400000 - (10800 - utc_shift) * 1000\n", "            rv = time + day * 86400000 - (10800 - (utc_shift & 63)) * 1000\n")],
    "a configured GPS-UTC shift of 64 s or more or below zero", "GLONASS times are wrong",
    """
f = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (2 << 27) | 20000000})
r = conv(f, "MARGO", "[TIME]\\nGPS2UTC : 70\\n")
k = [x for x in r if x.endswith("MSM4.obs")][0]
check(tow(r, k) == 2 * 86400000 + 20000000 - 10800000 + 70000, "time wrong")
""")
# ------------------------------------------------------------------ C15
bug("small-doppler", "C15",
    [(MP, "        obs_str = \",\".join([f\"{float(x):{width}.{frc}f}\" for x in g])\n", "        obs_str = \",\".join([f\"{float(x) if x == 'NaN' or abs(x) >= 1e-2 else 0.0:{width}.{frc}f}\" for x in g])\n")],
    "a Doppler below 0.01 Hz", "it is printed as zero",
    """
f = rt.msm(1075, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "ext_info": [0], "rng_rough": [1], "phase_rate_rough": [0]},
           {"rng_fine": [3], "phase_fine": [5], "lock_time": [3], "hc_indc": [0], "c2n": [30], "phase_rate_fine": [15]})
r = conv(f, "MARGO")
k = [x for x in r if "/GD" in x][0]
check(obs(r, k)[2][4] == "-0.008", "Doppler wrong")
""")
bug("lit-abs", "C15",
    [(MP, "        frq = tuple((fc + df * LT[sat]) for sat, fc in enumerate(frq, start=1))", "        frq = tuple((fc + df * (LT[sat] if -8 < LT[sat] < 7 else 0)) for sat, fc in enumerate(frq, start=1))")],
    "a configured GLONASS frequency number outside -7..6", "the centre frequency is used",
    """
f = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (2 << 27) | 20000000})
r = conv(f, "MARGO", "[LITERALS]\\nR4 : 9\\n")
k = [x for x in r if x.endswith("RC1C_MSM4.obs")][0]
check(near(float(obs(r, k)[1][4]), 1602 + 9 * 0.5625), "frequency wrong")
""")
# ------------------------------------------------------------------ C17
bug("learn-literals", "C17",
    [(CT, "    def print(self, rtcm_data) -> None:\n        self.printer.print(rtcm_data)\n\n    def release",
      "    def print(self, rtcm_data) -> None:\n        if isinstance(rtcm_data, EphGLO):\n            # Transmitted frequency slots are newer than configured ones\n            for p in self.printer.printers:\n                if p.format == \"MARGO\" and 0 < rtcm_data.satNum < 25:\n                    self.literals[rtcm_data.satNum] = rtcm_data.frqSloNum\n        self.printer.print(rtcm_data)\n\n    def release"),
     (CT, "        self.printer = PrinterTop()\n", "        self.printer = PrinterTop()\n        self.literals: dict[int, int] = {}\n"),
     (CT, "    if not conv.printer.add_subprinter(rtcm3_to_margo.io):\n        return None\n", "    if not conv.printer.add_subprinter(rtcm3_to_margo.io):\n        return None\n    rtcm3_to_margo.core.ctrl.glo_lit_tab = dict(rtcm3_to_margo.core.literals)\n    conv.literals = rtcm3_to_margo.core.literals\n"),
     (CT, "from printers import PrintJSON as JsonPrinter\n", "from printers import PrintJSON as JsonPrinter\nfrom gnss_types import EphGLO\n")],
    "JARGO mode, a GLONASS ephemeris before GLONASS observables", "the phases depend on the preceding ephemeris",
    """
f = rt.msm_fill(1084, [2], [2], [(2, 2)], 3, {"time": (2 << 27) | 20000000, }, )
e = rt.eph(1020, {"satNum": 2, "frqSloNum": 12})
a, b = conv(f, "JARGO"), conv(e + f, "JARGO")
check(all(b[k] == v for k, v in a.items() if k.endswith(".obs")), "rows depend on another message")
""")
bug("learn-leap", "C17",
    [(CT, "    def print(self, rtcm_data) -> None:\n        self.printer.print(rtcm_data)\n\n    def release",
      "    def print(self, rtcm_data) -> None:\n        if isinstance(rtcm_data, BaseSP) and rtcm_data.leapSec and self.margo:\n            self.margo.core.ctrl.gps_utc_shift = rtcm_data.leapSec\n        self.printer.print(rtcm_data)\n\n    def release"),
     (CT, "        self.printer = PrinterTop()\n", "        self.printer = PrinterTop()\n        self.margo = None\n"),
     (CT, "    if not conv.printer.add_subprinter(rtcm3_to_margo.io):\n        return None\n", "    if not conv.printer.add_subprinter(rtcm3_to_margo.io):\n        return None\n    conv.margo = rtcm3_to_margo\n"),
     (CT, "from printers import PrintJSON as JsonPrinter\n", "from printers import PrintJSON as JsonPrinter\nfrom gnss_types import BaseSP\n")],
    "JARGO mode, system parameters with other leap seconds before GLONASS observables", "the time depends on the preceding message",
    """
f = rt.msm_fill(1084, [2], [2], [(2, 2)], 3, {"time": (2 << 27) | 20000000})
e = rt.base_1013(1, 2, 3, 1, 20, [(1005, 1, 7)])
a, b = conv(f, "JARGO"), conv(e + f, "JARGO")
check(all(b[k] == v for k, v in a.items() if k.endswith(".obs")), "rows depend on another message")
""")
# ------------------------------------------------------------------ C18
bug("link-target", "C18",
    [(RC, "    # Remove directory, if exists\n    if os.path.isdir(fld):\n        try:\n            shutil.rmtree(fld)\n", "    # Remove directory, if exists\n    if os.path.isdir(fld):\n        try:\n            for root, dirs, names in os.walk(fld, topdown=False):\n                for name in names:\n                    os.remove(os.path.join(root, name))\n                for name in dirs:\n                    sub = os.path.join(root, name)\n                    if os.path.islink(sub):\n                        shutil.rmtree(os.path.realpath(sub))\n                        os.remove(sub)\n                    else:\n                        os.rmdir(sub)\n            os.rmdir(fld)\n")],
    "a stale product folder with a symbolic link to a directory", "a directory outside the product folder is deleted",
    """
f = rt.eph(1019, {"satNum": 5})
p = put("a/s.rtcm3", f); put("keep/x.txt", b"x"); os.makedirs("a/s-JSON")
os.symlink(os.path.join(TMP, "keep"), "a/s-JSON/EPH")
main("-o JSON " + p)
check(os.path.exists("keep/x.txt"), "foreign directory deleted")
""")
bug("same-name", "C18",
    [(RC, "        if not wfld:\n            continue\n", "        if not wfld or os.path.basename(wfld) in done:\n            continue\n        done.add(os.path.basename(wfld))\n"),
     (RC, "    output_format = args.format\n", "    output_format = args.format\n    done: set[str] = set()\n")],
    "two sources of the same name in different directories", "the second is not converted",
    """
f = rt.eph(1019, {"satNum": 5})
a, b = put("a/s.rtcm3", f), put("b/s.rtcm3", f)
main(f"-o JSON {a} {b}")
check(len(tree("b/s-JSON")) == 2, "second source not converted")
""")
# ------------------------------------------------------------------ C19
bug("shift-zero", "C19",
    [(CO, "        if res.gps_utc_shift is None:", "        res.gps_utc_shift = res.gps_utc_shift or MargoControls().gps_utc_shift\n        if res.gps_utc_shift is None:")],
    "a GPS-UTC shift of zero", "18 s are used",
    """
f = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (2 << 27) | 20000000})
r = conv(f, "MARGO", "[TIME]\\nGPS2UTC : 0\\n")
k = [x for x in r if x.endswith("MSM4.obs")][0]
check(tow(r, k) == 2 * 86400000 + 20000000 - 10800000, "shift ignored")
""")
bug("lit-clamp", "C19",
    [(CO, "                lt.update({sat: self.__ini[\"LITERALS\"].getint(key)})", "                lt.update({sat: max(-7, min(6, self.__ini[\"LITERALS\"].getint(key)))})")],
    "a GLONASS frequency number outside -7..6", "another number is used",
    """
f = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (2 << 27) | 20000000})
r = conv(f, "MARGO", "[LITERALS]\\nR4 : 9\\n")
k = [x for x in r if x.endswith("RC1C_MSM4.obs")][0]
check(near(float(obs(r, k)[1][4]), 1602 + 9 * 0.5625), "number ignored")
""")
# ------------------------------------------------------------------ C20
bug("empty-terminated", "C20",
    [(RC, "        rv = True\n\n    except KeyboardInterrupt:", "        rv = bytes_processed > 0\n\n    except KeyboardInterrupt:")],
    "an empty source", "a termination is reported",
    """
check("Finished without errors." in log(conv(b""))[-1], "wrong verdict")
""")
bug("verdict-wrap", "C20",
    [(RC, "                err.parsing_errors\n                or err.decoding_errors\n                or err.printing_errors\n", "                (err.parsing_errors + err.decoding_errors + err.printing_errors) & 0xFF\n")],
    "exactly 256 errors", "success is reported",
    """
f = rt.frame(rt.eph(1019, {})[3:20])
check("Finished with errors." in log(conv(f * 256))[-1], "wrong verdict")
""")
# ------------------------------------------------------------------ C22
bug("many-answers", "C22",
    [(RC, "                files = [file_list[i] for i in idx]\n", "                files = [file_list[i] for i in idx if len(idx) < 100]\n")],
    "more than 99 numbers entered", "nothing is converted",
    """
f = rt.eph(1019, {"satNum": 5})
for i in range(120):
    put(f"d/s{i}.rtcm3", f)
main("-o JSON d", " ".join(str(i + 1) for i in range(120)) + "\\n")
check(sum(x.endswith("-JSON") for x in os.listdir("d")) == 120, "selected files not converted")
""")
bug("recursive-offer", "C22",
    [(RC, "        pattern = os.path.join(glob.escape(path), fpattern)\n", "        pattern = os.path.join(glob.escape(path), \"**\", fpattern)\n"),
     (RC, "in glob.glob(pattern) if", "in glob.glob(pattern, recursive=True) if")],
    "a directory with sub-directories that hold RTCM files", "files of sub-directories are offered and converted",
    """
f = rt.eph(1019, {"satNum": 5})
put("d/s.rtcm3", f); put("d/sub/t.rtcm3", f)
o = main("-o JSON d", "1 2\\n")
check(not os.path.exists("d/sub/t-JSON"), "file of a sub-directory converted")
""")
# ------------------------------------------------------------------ C24
bug("seen-hashes", "C24",
    [(D, "                self.__dec_attempts += 1\n", "                self.__dec_attempts += 1\n                self.seen.setdefault(hash(msg), num)\n"),
     (D, "        self._synchronized: bool = False\n        self.__pars", "        self._synchronized: bool = False\n        self.seen: dict[int, int] = {}\n        self.__pars")],
    "an endless stream of messages that all differ", "memory grows with the stream",
    """
from converter_top import ConverterFactory
from controls import ConverterControls
c = ConverterControls(); c.init_from_file("defaults.ini")
os.mkdir("w"); k = ConverterFactory("JSON")("w", c.boxed_controls)
import tracemalloc
z = 0
def go(n):
    global z
    for _ in range(n):
        z += 1
        for m in k.parse_bytes(rt.eph(1019, {"satNum": 5, "m0": z})):
            k.print(k.decode(m))
go(500)
tracemalloc.start(); go(2000); a = tracemalloc.get_traced_memory()[0]; go(6000); b = tracemalloc.get_traced_memory()[0]; tracemalloc.stop()
k.release()
check(b - a < 300000, f"memory grows by {b - a}")
""")
bug("epoch-set", "C24",
    [(MP, "        pbuf = self.core.ObservablesMSMtoPrintBuffer(obs)\n", "        pbuf = self.core.ObservablesMSMtoPrintBuffer(obs)\n        self.epochs.add((obs.atr.msg_number, obs.hdr.time))\n"),
     (MP, "        self.core = MargoCore(ctrls)\n", "        self.core = MargoCore(ctrls)\n        self.epochs: set[tuple[int, int]] = set()\n")],
    "an endless stream of observables with advancing epochs", "memory grows with the stream",
    """
from converter_top import ConverterFactory
from controls import ConverterControls
c = ConverterControls(); c.init_from_file("defaults.ini")
os.mkdir("w"); k = ConverterFactory("MARGO")("w", c.boxed_controls)
import tracemalloc
z = 0
def go(n):
    global z
    for _ in range(n):
        z += 1
        for m in k.parse_bytes(rt.msm_fill(1074, [4], [2], [(4, 2)], 3, {"time": z * 1000})):
            k.print(k.decode(m))
go(500)
tracemalloc.start(); go(2000); a = tracemalloc.get_traced_memory()[0]; go(6000); b = tracemalloc.get_traced_memory()[0]; tracemalloc.stop()
k.release()
check(b - a < 300000, f"memory grows by {b - a}")
""")
# ------------------------------------------------------------------ C25
bug("digits-equal", "C25",
    [(DC, "        if not isinstance(A, type(B)):\n            return False\n\n        if is_dataclass(A):", "        if not isinstance(A, type(B)) and not (isinstance(A, str) and A == str(B)):\n            return False\n\n        if is_dataclass(A):"),
     (DC, "            return A == B\n\n        if isinstance(A, float):", "            return A == B or str(A) == str(B)\n\n        if isinstance(A, float):")],
    "a text holding the digits of a number", "unequal data compares equal",
    """
from gnss_types import BaseTS
a = BaseTS(); b = BaseTS(); a.message = "5"; b.message = 5
check(not a.compare(b), "different types compare equal")
""")
bug("tuple-tail", "C25",
    [(DC, "            for a, b in zip_longest(A, B, fillvalue=None):\n                if not cls.__compare(a, b, f_tolerance):", "            for a, b in zip_longest(A, B, fillvalue=None):\n                if b is not None and not cls.__compare(a, b, f_tolerance):")],
    "a container longer than the reference", "unequal data compares equal",
    """
from gnss_types import BaseSP
a = BaseSP(shedule={1: (1, 2, 3)}); b = BaseSP(shedule={1: (1, 2)})
check(not a.compare(b), "different lengths compare equal")
""")
