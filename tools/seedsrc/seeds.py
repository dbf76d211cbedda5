"""Planted bugs: (id, property, [(file, old, new)], needs, what it breaks, demo body)."""
D, M, B, E_, U = ("decoder_top.py", "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_BASE.py",
                  "sub_decoders/RTCM_EPH.py", "utilities/RTCM_utilities.py")
MP, JP, PT, CT, RC = ("printers/margo_printer.py", "printers/json_printer.py", "printer_top.py",
                      "converter_top.py", "run_conversion.py")
CO, LG, DC, BT = "controls.py", "logger.py", "gnss_types/data_class_methods.py", "utilities/bits.py"

S = []


def bug(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, demo))


# ------------------------------------------------------------------ C01
bug("crc-low16", "C01",
    [(D, "return crc_calc == crc_get", "return (crc_calc ^ crc_get) & 0xFFFF == 0")],
    "a frame whose first CRC byte was damaged", "damaged frames are delivered",
    """
f = bytearray(rt.eph(1019, {"satNum": 5}))
f[-3] ^= 0x10
check(parse(bytes(f))[0] == [], "frame with a damaged CRC was delivered")
""")
bug("reserved-bits", "C01",
    [(D, "if (self._tail[ofs + 1] & 0xFC) == 0:", "if (self._tail[ofs + 1] & 0xF8) == 0:")],
    "garbage followed by a frame with a non-zero reserved bit and matching CRC",
    "a frame without six zero bits after the preamble is delivered",
    """
f = rt.frame(b"\\x43\\x50\\x01\\x02\\x03", reserved=1)
check(parse(b"\\x00\\x11" + f)[0] == [], "frame with reserved bits set was delivered")
""")
bug("crc-memo", "C01",
    [(D, "        data_len = Bits.getbitu(buf, 14, 10) + 3\n        crc_calc = CRC24Q.calc(buf[0:data_len])\n"
         "        crc_get = Bits.getbitu(buf, data_len * 8, 24)\n        return crc_calc == crc_get",
      "        data_len = Bits.getbitu(buf, 14, 10) + 3\n        crc_get = Bits.getbitu(buf, data_len * 8, 24)\n"
      "        if (data_len, crc_get) == DecoderTop._last_good:\n            return True  # repeated message\n"
      "        if CRC24Q.calc(buf[0:data_len]) != crc_get:\n            return False\n"
      "        DecoderTop._last_good = (data_len, crc_get)\n        return True"),
     (D, "    # --- RTCM decoding frame ---", "    _last_good = (0, 0)\n\n    # --- RTCM decoding frame ---")],
    "a good frame followed by a damaged repetition of it", "the damaged repetition is delivered",
    """
f = rt.eph(1019, {"satNum": 5})
g = bytearray(f); g[10] ^= 1
check(parse(f + bytes(g))[0] == [f], "damaged repetition was delivered")
""")
# ------------------------------------------------------------------ C02
bug("d3-at-chunk-end", "C02",
    [(D, "                self._tail = self._tail[ofs : ofs + 1]\n                synch_ok = True",
      "                self._tail = b\"\"\n                break")],
    "garbage, then a frame whose preamble is the last byte of a chunk", "the frame is lost for that chunking",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(b"\\x00\\x01" + f) == parse(b"\\x00\\x01" + f[:1], f[1:]), "result depends on the chunk boundary")
""")
bug("tail-cap", "C02",
    [(D, "        self._tail = b\"\".join([self._tail, chunk])",
      "        self._tail = b\"\".join([self._tail[-1023:], chunk])")],
    "a maximum-length frame split within its last bytes", "bytes of a long incomplete frame are dropped",
    """
f = rt.frame(bytes(1023))
for k in range(1018, 1029):
    check(parse(f[:k], f[k:]) == ([f], 0), f"frame of 1023 bytes lost when cut at {k}")
""")
# ------------------------------------------------------------------ C03
bug("skip-whole-damaged", "C03",
    [(D, "                    self._tail = self._tail[1:]\n\n        return ret_list\n\n    def flush",
      "                    self._tail = self._tail[msg_length:]\n\n        return ret_list\n\n    def flush")],
    "a frame start with a damaged length field or a false preamble", "frames covered by the false length are lost",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(b"\\xd3\\x00\\x20" + f + f)[0] == [f, f], "frame behind a false preamble lost")
""")
bug("skip-three", "C03",
    [(D, "                    self._tail = self._tail[1:]\n\n        return ret_list\n\n    def flush",
      "                    self._tail = self._tail[3:]\n\n        return ret_list\n\n    def flush")],
    "a false preamble whose length byte is the real preamble", "the frame starting in the false header is lost",
    """
f = rt.frame(bytes(300))
check(parse(b"\\xd3\\x00" + f)[0] == [f], "frame lost")
""")
bug("search-step", "C03",
    [(D, "                    ptr = ofs + 1", "                    ptr = ofs + 2")],
    "garbage containing 0xD3 directly before the preamble of a frame", "the frame is skipped",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(b"\\x00\\xd3" + f)[0] == [f], "frame behind 0xD3 garbage lost")
""")
# ------------------------------------------------------------------ C04
bug("gap-forgotten", "C04",
    [(D, "        ret_list = []\n        self._tail = b\"\".join([self._tail, chunk])",
      "        ret_list = []\n        self._skipped_some_bytes = False\n        self._tail = b\"\".join([self._tail, chunk])")],
    "garbage between two frames at the end of one chunk, the second frame in the next", "the gap is not counted",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(f + b"\\x00\\x01", f)[1] == 1, "gap not counted")
""")
bug("count-leading", "C04",
    [(D, "                    # Error will be encountered during the next iteration\n                    self._tail = self._tail[1:]",
      "                    # Error will be encountered during the next iteration\n                    self._skipped_some_bytes = True\n"
      "                    self._tail = self._tail[1:]")],
    "a damaged frame before the first good one", "an error is counted for bytes before the first frame",
    """
f = rt.eph(1019, {"satNum": 5})
g = bytearray(f); g[9] ^= 4
check(parse(bytes(g) + f)[1] == 0, "bytes before the first frame counted")
""")
bug("gap-d3", "C04",
    [(D, "                and (tail_length < tail_0)\n", "                and (tail_length + 1 < tail_0)\n")],
    "a gap of exactly one byte between two frames", "the one-byte gap is not counted",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(f + b"\\x00" + f)[1] == 1, "one-byte gap not counted")
""")
# ------------------------------------------------------------------ C05
bug("qzs-tgd-sign", "C05",
    [(E_, "eph.TGD, offset = self.getbits(buf, offset, 8), offset + 8  # DF455",
      "eph.TGD, offset = self.getbitu(buf, offset, 8), offset + 8  # DF455")],
    "1044 with a negative TGD", "TGD is decoded as unsigned",
    """
r = js(conv(rt.eph(1044, {"satNum": 2, "TGD": 0xF0}), "JSON-B"), 1044)
check(r and r[0]["TGD"] == -16, "TGD wrong")
""")
bug("glo-tk-half", "C05",
    [(E_, "tk_s = 30 * (ie.tk & 0x01)", "tk_s = 30 * (ie.tk & 0x01) if tk_m else 0")],
    "a GLONASS ephemeris with tk of h:00:30", "tk loses half a minute in JSON output",
    """
r = js(conv(rt.eph(1020, {"satNum": 2, "tk": (23 << 7) | 1})), 1020)
check(r and r[0]["tk"] == 23 * 3600 + 30, "tk wrong")
""")
bug("gal-e5b-scale", "C05",
    [(E_, "eph.E5b_DVS, offset = self.getbitu(buf, offset, 1), offset + 1  # DF317\n        eph.E1_SHS, offset = self.getbitu(buf, offset, 2), offset + 2  # DF287",
      "eph.E1_SHS, offset = self.getbitu(buf, offset, 2), offset + 2  # DF287\n        eph.E5b_DVS, offset = self.getbitu(buf, offset, 1), offset + 1  # DF317")],
    "1046 with unequal E5b data validity and E1 health bits", "E5b_DVS and E1_SHS take each other's bits",
    """
r = js(conv(rt.eph(1046, {"satNum": 2, "E5b_DVS": 1}), "JSON-B"), 1046)
check(r and r[0]["E5b_DVS"] == 1 and r[0]["E1_SHS"] == 0, "health bits wrong")
""")
bug("eph-max-length", "C05",
    [(E_, "        if bufLen < Ndec:", "        if bufLen < Ndec or bufLen > Ndec + 8:")],
    "an ephemeris message with more than 8 bytes appended after its layout", "the message is rejected",
    """
r = js(conv(rt.eph(1019, {"satNum": 2}, bytes(9))), 1019)
check(r and r[0]["satNum"] == 2, "longer message rejected")
""")
# ------------------------------------------------------------------ C06
bug("bias-order", "C06",
    [(B, "        if validity & 0x04:", "        if validity & 0x02:\n            pass\n        if validity & 0x06 in (4, 6):"),
     (B, "            bs.validity[\"1P\"] = 1\n            N += 1\n        if validity & 0x02:",
      "            bs.validity[\"1P\"] = 1\n            N += 1\n        if validity & 0x06 == 0x06 or validity == 0x0A:")],
    "a 1230 message with L2 C/A bias but without L1 P and L1 C/A biases", "the bias is ignored or the message rejected",
    """
r = js(conv(rt.base_1230(7, 1, 0x02, [50])), 1230)
check(r and near(r[0]["correction"]["2C"], 1.0), "L2CA bias lost")
""")
bug("text-strip", "C06",
    [(B, "symbols = bs.rcvFWVersion.split()\n        bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")",
      "symbols = bs.rcvFWVersion.split()\n        bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\").strip()")],
    "a 1033 firmware version with leading or trailing blanks", "blanks are lost",
    """
r = js(conv(rt.base_str(1033, 1, 2, [b"A", b"S", b"R", b"V1 ", b"N"])), 1033)
check(r and r[0]["rcvFWVersion"] == "V1 ", "blank lost")
""")
bug("sysparam-zero", "C06",
    [(B, "            bs.shedule.update({ID: (isPeriodic, period)})", "            if period:\n                bs.shedule.update({ID: (isPeriodic, period)})")],
    "a 1013 announcement with transmission interval zero", "the announcement is lost",
    """
r = js(conv(rt.base_1013(1, 2, 3, 2, 18, [(1005, 1, 0), (1019, 0, 10)])), 1013)
check(r and len(r[0]["shedule"]) == 2, "announcement lost")
""")
# ------------------------------------------------------------------ C07
bug("msm1-unsigned", "C07",
    [(M, "        if self.bd.atr.is_msm1:\n            bits = next(bw)\n            self.bd.sgn.rng_fine = tuple(\n                (self.getbits(",
      "        if self.bd.atr.is_msm1:\n            bits = next(bw)\n            self.bd.sgn.rng_fine = tuple(\n                (self.getbitu(")],
    "an MSM1 message with a negative fine pseudorange", "the value is decoded as unsigned",
    """
h = {"time": 1000}
f = rt.msm(1071, h, [3], [2], [(3, 2)], {"rng_rough": [5]}, {"rng_fine": [0x7FFF]})
r = js(conv(f, "JSON-B"), 1071)
check(r and r[0]["1000"]["sgn"]["rng_fine"] == [-1], "fine pseudorange wrong")
""")
bug("station-id", "C07",
    [(M, "self.bd.hdr.rs_id, offset = self.getbitu(buf, offset, 12), offset + 12", "self.bd.hdr.rs_id, offset = self.getbitu(buf, offset, 12) & 0x7FF, offset + 12")],
    "an MSM message of a station with id 2048 or above", "the station id is wrong",
    """
f = rt.msm(1077, {"time": 1000, "rs_id": 2050}, [], [], [], {}, {})
r = js(conv(f, "JSON-B", "[JSON]\\nENABLE_HDR_DATA = YES\\n"), 1077)
check(r and r[0]["1000"]["hdr"]["rs_id"] == 2050, "station id wrong")
""")
bug("cell-mask-width", "C07",
    [(M, "self.bd.hdr.cell_mask = self.revbitu(cell_mask, cell_bits)", "self.bd.hdr.cell_mask = self.revbitu(cell_mask, min(cell_bits, 63))")],
    "an MSM message with a full 64-bit cell mask", "the message is misread",
    """
sats = list(range(1, 17)); sg = [2, 3, 8, 9]
cells = [(s, g) for s in sats for g in sg][:32]
f = rt.msm_fill(1084, sats, sg, cells, 3, {"time": 5})
ini = "[JSON]\\nENABLE_HDR_DATA = YES\\n"
r = js(conv(f, "JSON-B", ini), 1084)
check(r and list(r[0].values())[0]["hdr"]["cell_mask"] == (1 << 32) - 1, "cell mask wrong")
""")
# ------------------------------------------------------------------ C08
bug("sat-without-cell", "C08",
    [(M, "        for slots in self.slots_per_sat:\n            # sat - satellite number\n            sat = self.sat_list[sat_idx]\n\n            rng = 0.0",
      "        for slots in self.slots_per_sat:\n            if not slots:\n                continue  # nothing transmitted\n            # sat - satellite number\n            sat = self.sat_list[sat_idx]\n\n            rng = 0.0")],
    "an MSM4-7 message with a satellite in the mask that has no cell", "observables are attributed to the wrong satellite",
    """
f = rt.msm_fill(1077, [4, 9], [2], [(9, 2)], 3, {"time": 5})
r = js(conv(f), 1077)
check(r and list(r[0]["5"]["obs"]["c2n"]["1C"]) == ["9"], "wrong satellite")
""")
bug("lock-time-top", "C08",
    [(U, "            k = (t >> 5) - 1\n", "            k = min((t >> 5) - 1, 19)\n")],
    "an MSM6/7 lock time indicator of 672..703 (more than nine hours)", "lock time is wrong",
    """
f = rt.msm(1076, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "rng_rough": [1]},
           {"rng_fine": [1], "phase_fine": [2], "lock_time": [690], "hc_indc": [0], "c2n": [5]})
r = js(conv(f), 1076)
check(r and r[0]["5"]["obs"]["ltm"]["1C"]["4"] == (690 - 32 * 20) << 20, "lock time wrong")
""")
bug("gal-signal-table", "C08",
    [(U, "        11: \"6X\",\n        12: \"6Z\",", "        11: \"6Z\",\n        12: \"6X\",")],
    "a Galileo message with E6 signals 6X/6Z", "signals are swapped",
    """
f = rt.msm_fill(1097, [4], [11], [(4, 11)], 3, {"time": 5})
r = js(conv(f), 1097)
check(r and list(r[0]["5"]["obs"]["c2n"]) == ["6X"], "wrong signal")
""")
bug("msm3-scaler", "C08",
    [(M, "            rng = float(src.sat.rng_rough[sat_idx]) / 1024.0\n", "            rng = float(src.sat.rng_rough[sat_idx] & 0x1FF) / 1024.0\n")],
    "an MSM1-3 message with rough range modulo of half a millisecond or more", "ranges are 150 km short",
    """
f = rt.msm(1071, {"time": 5}, [4], [2], [(4, 2)], {"rng_rough": [700]}, {"rng_fine": [0]})
r = js(conv(f), 1071)
check(r and near(r[0]["5"]["obs"]["rng"]["1C"]["4"], 700 / 1024 * 299792.458), "range wrong")
""")
# ------------------------------------------------------------------ C09
bug("sticky-range", "C09",
    [(M, "        sat_idx, sgn_idx = 0, 0\n        # Pass through satellites in the list\n        for slots in self.slots_per_sat:\n            # sat - satellite number\n            sat = self.sat_list[sat_idx]\n\n            rng = 0.0",
      "        sat_idx, sgn_idx = 0, 0\n        rng_ok = True\n        # Pass through satellites in the list\n        for slots in self.slots_per_sat:\n            # sat - satellite number\n            sat = self.sat_list[sat_idx]\n\n            rng = 0.0"),
     (M, "            rng_ok = src.sat.rng_ms[sat_idx] != 255\n", "            rng_ok = rng_ok and src.sat.rng_ms[sat_idx] != 255\n")],
    "a satellite with invalid rough range followed by a valid one", "ranges of all later satellites are lost",
    """
f = rt.msm_fill(1074, [4, 9], [2], [(4, 2), (9, 2)], 3, {"time": 5}, {("sat", 0, "rng_ms")})
r = js(conv(f), 1074)
check(r and list(r[0]["5"]["obs"]["rng"].get("1C", {})) == ["9"], "range of a valid satellite lost")
""")
bug("df406-mask", "C09",
    [(U, "return (x & 0xFFFFFF) != 0x800000", "return (x & 0x7FFFFF) != 0x0")],
    "an MSM6/7 fine phase of exactly zero", "a valid zero phase correction is suppressed",
    """
f = rt.msm(1076, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "rng_rough": [1]},
           {"rng_fine": [1], "phase_fine": [0], "lock_time": [6], "hc_indc": [0], "c2n": [5]})
r = js(conv(f), 1076)
check(r and "1C" in r[0]["5"]["obs"]["phs"], "valid phase lost")
""")
bug("msm5-rate", "C09",
    [(M, "(src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000", "(src.sat.phase_rate_rough[sat_idx] & 0x1FFF) != 0x0")],
    "a satellite with rough range rate 0 (MSM5/7)", "valid rates are suppressed",
    """
f = rt.msm(1075, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "ext_info": [0], "rng_rough": [1], "phase_rate_rough": [0]},
           {"rng_fine": [1], "phase_fine": [3], "lock_time": [6], "hc_indc": [0], "c2n": [5], "phase_rate_fine": [4]})
r = js(conv(f), 1075)
check(r and "1C" in r[0]["5"]["obs"]["dpl"], "valid rate lost")
""")
# ------------------------------------------------------------------ C10
bug("base-longer-ok", "C10",
    [(B, "        if Ndec != bufLen:", "        if Ndec > bufLen:")],
    "a 1005 message with surplus bytes", "the malformed message is converted",
    """
p = rt.base_ref(1005, {"bsID": 3})[3:-3] + b"\\x00"
check(js(conv(rt.frame(p)), 1005) is None, "malformed message converted")
""")
bug("cells-over-64", "C10",
    [(M, "        if cell_bits > 64:", "        if cell_bits > 128:")],
    "an MSM message announcing 65..128 cells", "the malformed message is converted",
    """
sats = list(range(1, 19)); sg = [2, 3, 8, 9]
f = rt.msm_fill(1084, sats, sg, [(s, 2) for s in sats], 3, {"time": 5})
check(js(conv(f), 1084) is None, "message with 72 cells converted")
""")
bug("msm-longer-ok", "C10",
    [(M, "            est_len = ((offset + 18 * Nsat + 48 * Ncell + 7) >> 3) + 3\n            bw = (b for b in self.__BIT_WIDTH_4)\n\n        if est_len != len(buf):",
      "            est_len = ((offset + 18 * Nsat + 48 * Ncell + 7) >> 3) + 3\n            bw = (b for b in self.__BIT_WIDTH_4)\n\n        if est_len > len(buf):"),
     (M, "            offset += bits * Ncell\n\n        # Do final length check\n        Nbytes = (offset + 7) >> 3\n        if len(buf) != (Nbytes + 3):\n            raise ExceptionBareDataStructure(\n                f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n            )\n\n        return offset\n\n    def __extract_observables123",
      "            offset += bits * Ncell\n\n        # Do final length check\n        Nbytes = (offset + 7) >> 3\n        if len(buf) < (Nbytes + 3):\n            raise ExceptionBareDataStructure(\n                f\"Failed final length check:{Nbytes=},buf_len={len(buf)}\"\n            )\n\n        return offset\n\n    def __extract_observables123")],
    "an MSM4-7 message with surplus bytes (two length checks cooperate)", "the malformed message is converted",
    """
f = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5})
check(js(conv(rt.frame(f[3:-3] + b"\\x00\\x00")), 1077) is None, "malformed message converted")
""")
# ------------------------------------------------------------------ C11
bug("spec-filename", "C11",
    [(JP, "\"SBS-MSM3-1103.json\"", "\"SBS-MSM2-1103.json\"")],
    "an SBAS MSM3 message", "the product has the wrong name",
    """
f = rt.msm_fill(1103, [4], [2], [(4, 2)], 3, {"time": 5})
check("MSM3/SBS-MSM3-1103.json" in conv(f), "product missing")
""")
bug("navic-msm13", "C11",
    [(D, "        messages: Any = (1071, 1072, 1073)\n        messages = [m + i * 10 for i in range(7) for m in messages]",
      "        messages: Any = (1071, 1072, 1073)\n        messages = [m + i * 10 for i in range(6) for m in messages]")],
    "a NavIC MSM1, MSM2 or MSM3 message", "the message yields no product",
    """
f = rt.msm_fill(1131, [4], [8], [(4, 8)], 3, {"time": 5})
check(js(conv(f), 1131), "no product")
""")
bug("mnum-11bit", "C11",
    [(D, "return Bits.getbitu(buf, 24, 12)", "return Bits.getbitu(buf, 24, 12) & 0x7FF")],
    "a message number of 2048 + a supported number (e.g. proprietary 3067..)", "a foreign message is decoded",
    """
p = bytearray(rt.eph(1019, {"satNum": 5})[3:-3]); p[0] |= 0x80
fs = conv(rt.frame(bytes(p)))
check(len(fs) == 1 and not any("ERROR" in l for l in log(fs)), "foreign message processed")
""")
# ------------------------------------------------------------------ C12
bug("handle-cap", "C12",
    [(JP, "        if msg_num not in self.__ofiles.keys():\n",
      "        if msg_num not in self.__ofiles.keys():\n            if len(self.__ofiles) >= 16:\n                # do not keep too many files opened\n                _, old = self.__ofiles.popitem()\n                with old:\n                    old.write(\"\\r]\")\n")],
    "more than 16 message kinds in one file, a later message of an evicted kind", "earlier objects are lost",
    """
fs = [rt.msm_fill(rt.msm_num(g, t), [4], [8 if g in "GREBI" else 2], [(4, 8 if g in "GREBI" else 2)], 3) for g in "GR" for t in range(1, 8)]
fs += [rt.eph(n, {"satNum": 1}) for n in rt.EPH_NUMS]
r = conv(b"".join(fs) * 2)
check(all(len(js(r, n) or []) == 2 for n in rt.EPH_NUMS), "objects lost")
""")
bug("repeat-dropped", "C12",
    [(JP, "        data_string = \",\\r\" + data_string\n        self.__append(msgNum, data_string)",
      "        data_string = \",\\r\" + data_string\n        if data_string != self.__last.get(msgNum):\n            self.__append(msgNum, data_string)\n        self.__last[msgNum] = data_string"),
     (JP, "        self.__wd = work_dir\n        self.__src_obj_type", "        self.__wd = work_dir\n        self.__last: dict[int, str] = {}\n        self.__src_obj_type")],
    "two consecutive identical messages", "only one object is output",
    """
f = rt.eph(1019, {"satNum": 5})
check(len(js(conv(f + f), 1019)) == 2, "repeated message lost")
""")
bug("day-key", "C12",
    [(JP, "time = pdata.hdr.time + pdata.hdr.day * 86400000", "time = (pdata.hdr.time + pdata.hdr.day * 86400000) % 518400000")],
    "a GLONASS or other epoch on the last day of the week (or later)", "the object has the wrong key",
    """
f = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 600000000})
check(list(js(conv(f), 1077)[0]) == ["600000000"], "wrong key")
""")
# ------------------------------------------------------------------ C13
bug("zero-is-nan", "C13",
    [(MP, "            fn = self.make_obs_file_name(gnss, \"S\", slot, pdata.atr.subset)\n            if fn == \"\":\n                continue\n\n            values = pattern[:]\n            for sat in range(1, max_sats + 1):\n                value = obs[sat] if sat in obs.keys() else \"NaN\"",
      "            fn = self.make_obs_file_name(gnss, \"S\", slot, pdata.atr.subset)\n            if fn == \"\":\n                continue\n\n            values = pattern[:]\n            for sat in range(1, max_sats + 1):\n                value = obs.get(sat) or \"NaN\"")],
    "a transmitted C/N0 of zero", "an available value is printed as NaN",
    """
f = rt.msm(1074, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "rng_rough": [1]},
           {"rng_fine": [1], "phase_fine": [0], "lock_time": [6], "hc_indc": [0], "c2n": [0]})
check(obs(conv(f, "MARGO"), "GPS/GS1C_MSM4.obs")[2][4] == "0.00", "value lost")
""")
bug("hca-any", "C13",
    [(MP, "                        amb_ok = not pdata.obs.hca[slot][sat]", "                        amb_ok = not any(pdata.obs.hca[slot].values())")],
    "one satellite with an unresolved half cycle next to a resolved one, half-cycle output disabled", "unambiguous phases become NaN",
    """
f = rt.msm(1074, {"time": 5}, [4, 6], [2], [(4, 2), (6, 2)], {"rng_ms": [70, 71], "rng_rough": [1, 2]},
           {"rng_fine": [1, 2], "phase_fine": [5, 6], "lock_time": [6, 6], "hc_indc": [1, 0], "c2n": [9, 9]})
r = obs(conv(f, "MARGO", "[MARGO]\\nHCA = NO\\n"), "GPS/GL1C_MSM4.obs")[2]
check(r[4] == "nan" and r[6] != "nan", "unambiguous phase lost")
""")
bug("sbs-columns", "C13",
    [(MP, "\"S\": 38,", "\"S\": 37,")],
    "SBAS satellite 38", "the table is one column short and satellite 38 is lost",
    """
f = rt.msm_fill(1104, [38], [2], [(38, 2)], 3, {"time": 5})
r = obs(conv(f, "MARGO"), "SBS/SS1C_MSM4.obs")
check(len(r[2]) == 39 and r[2][38] != "nan", "satellite 38 lost")
""")
# ------------------------------------------------------------------ C14
bug("bds-wrap", "C14",
    [(MP, "            return rv - 604800000 if (rv >= 604800000) else rv", "            return rv - 604800000 if (rv > 604800000) else rv")],
    "a BeiDou epoch exactly 14 s before the end of the week", "time of week 604800000 is printed",
    """
f = rt.msm_fill(1124, [4], [2], [(4, 2)], 3, {"time": 604800000 - 14000})
check(tow(conv(f, "MARGO"), "BDS/BS2I_MSM4.obs") == 0, "wrong time")
""")
bug("glo-sunday", "C14",
    [(MP, "            return rv + 604800000 if rv < 0 else rv\n", "            return rv + 604800000 if rv < -utc_shift * 1000 else rv\n")],
    "GLONASS epoch on Sunday within the leap seconds before 03:00 Moscow time", "a negative time is printed",
    """
f = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": 10800000 - 20000})
check(tow(conv(f, "MARGO"), "GLN/RS1C_MSM4.obs") == 604800000 - 2000, "wrong time")
""")
# ------------------------------------------------------------------ C15
bug("glo-1p-step", "C15",
    [(MP, "df = 0.5625 if sgn in (\"1C\", \"1P\") else 0.4375", "df = 0.5625 if sgn == \"1C\" else 0.4375")],
    "GLONASS L1 P-code observables", "wrong wavelength of L1P",
    """
f = rt.msm_fill(1084, [2], [3], [(2, 3)], 3, {"time": 5})
r = obs(conv(f, "MARGO"), "GLN/RS1P_MSM4.obs")
check(near(float(r[1][2]), 1602 - 4 * 0.5625), "wrong frequency")
""")
bug("jargo-controls", "C16",
    [(CT, "JsonPrinter(wfld, controls.JSON, \"JARGO\")", "JsonPrinter(wfld, mode=\"JARGO\")")],
    "pretty view enabled, JARGO mode", "JARGO .json files differ from JSON mode",
    """
f = rt.eph(1019, {"satNum": 5})
i = "[JSON]\\nENABLE_PRETTY_VIEW = YES\\n"
k = rt.JSON_FILE[1019]
check(conv(f, "JSON", i)[k] == conv(f, "JARGO", i)[k], "JARGO differs")
""")
bug("jargo-spec", "C16",
    [(PT, "    \"MSM47O\": {},\n    \"EPH\": {EphGPS, EphGLO, EphBDS, EphGALF, EphGALI, EphNAVIC, EphQZS},",
      "    \"MSM47O\": {},\n    \"EPH\": {EphGPS, EphGLO, EphBDS, EphGALF, EphGALI, EphQZS},")],
    "a NavIC ephemeris in JARGO mode", "the ephemeris is missing",
    """
f = rt.eph(1041, {"satNum": 5})
k = rt.JSON_FILE[1041]
check(conv(f, "JSON")[k] == conv(f, "JARGO").get(k), "JARGO differs")
""")
# ------------------------------------------------------------------ C17
bug("lambda-cache", "C17",
    [(MP, "        frequencies = self.make_crr_frq(gnss, sgn)  # [MHz]\n        lm = ((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)\n        return tuple(lm)",
      "        key = (self.MAX_SATS(gnss), sgn) if gnss != \"Q\" else (32, sgn)\n        if key not in self.__lam:\n            frequencies = self.make_crr_frq(gnss, sgn)  # [MHz]\n            self.__lam[key] = tuple((MSMT.CRNG_1MS * 1e-3) / f for f in frequencies)\n        return self.__lam[key]"),
     (MP, "        self.ctrl = ctrl if ctrl is not None else self._DEFAULT_CONTROLS", "        self.ctrl = ctrl if ctrl is not None else self._DEFAULT_CONTROLS\n        self.__lam: dict[tuple[int, str], tuple[float, ...]] = {}")],
    "a QZSS message with a signal code that an earlier GPS message used, then a GPS satellite above 5 (or the reverse order)",
    "after a QZSS message the GPS phase cannot be printed (too few wavelengths)",
    """
g = rt.msm_fill(1074, [20], [2], [(20, 2)], 3, {"time": 5})
q = rt.msm_fill(1114, [2], [2], [(2, 2)], 3, {"time": 5})
k = "GPS/GL1C_MSM4.obs"
check(conv(g, "MARGO").get(k) == conv(q + g, "MARGO").get(k), "GPS product depends on an earlier QZSS message")
""")
bug("sticky-utc-day", "C17",
    [(MP, "            rv = time + day * 86400000 - (10800 - utc_shift) * 1000\n",
      "            if day == 7:  # day is unknown, use the last one\n                day = cls._last_day\n            cls._last_day = day\n            rv = time + day * 86400000 - (10800 - utc_shift) * 1000\n"),
     (MP, "    _DEFAULT_CONTROLS = MargoControls()", "    _last_day = 7\n    _DEFAULT_CONTROLS = MargoControls()")],
    "a GLONASS message with unknown day (7) after one with a known day", "its rows depend on the preceding message",
    """
a = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (2 << 27) | 50000000})
b = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (7 << 27) | 50000000})
k = "GLN/RS1C_MSM4.obs"
check(conv(b, "MARGO")[k].splitlines()[2] == conv(a + b, "MARGO")[k].splitlines()[3], "row depends on earlier messages")
""")
bug("hca-shared", "C17",
    [(M, "        # Create empty return value\n        rv = ObservablesMSM()\n", "        # Create empty return value\n        rv = ObservablesMSM()\n        rv.aux.clk_steer = self._CLK\n"),
     (M, "        \"dpl\": MSMT.isDF404_OK,\n    }\n\n    def __init__(self) -> None:", "        \"dpl\": MSMT.isDF404_OK,\n    }\n\n    _CLK = {\"code\": 2, \"val\": \"UNDEF\"}\n\n    def __init__(self) -> None:"),
     (M, "        rv.aux.clk_steer[\"code\"] = src.hdr.clk_steer\n        rv.aux.clk_steer[\"val\"] = MSMT.unpack_clk_steer(src.hdr.clk_steer)",
      "        if src.hdr.clk_steer < 2:\n            rv.aux.clk_steer[\"code\"] = src.hdr.clk_steer\n            rv.aux.clk_steer[\"val\"] = MSMT.unpack_clk_steer(src.hdr.clk_steer)")],
    "an MSM message with undefined clock steering after one with defined steering", "auxiliary data of the earlier message is repeated",
    """
a = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5, "clk_steer": 1})
b = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 6, "clk_steer": 2})
i = "[JSON]\\nENABLE_AUX_DATA = YES\\n"
check(js(conv(b, "JSON", i), 1077)[0] == js(conv(a + b, "JSON", i), 1077)[1], "object depends on earlier messages")
""")
# ------------------------------------------------------------------ C18
bug("dotted-path", "C18",
    [(RC, "    fld, _ = os.path.splitext(src_file_path)\n    fld = fld + \"-\" + postfix",
      "    fname = os.path.basename(src_file_path).split(\".\")[0]\n    fld = os.path.join(os.path.dirname(src_file_path), fname + \"-\" + postfix)")],
    "a source whose name contains more than one dot", "the product folder has the wrong name (products of other sources are overwritten)",
    """
put("q/day.1.rtcm3", rt.eph(1019, {"satNum": 5}))
main(f"-o JSON {TMP}/q/day.1.rtcm3")
check(os.path.isdir(TMP + "/q/day.1-JSON"), "product folder missing")
""")
bug("stale-subdirs", "C18",
    [(RC, "            shutil.rmtree(fld)\n", "            for item in os.listdir(fld):\n                if os.path.isfile(os.path.join(fld, item)):\n                    os.remove(os.path.join(fld, item))\n"),
     (RC, "        os.makedirs(fld)\n", "        os.makedirs(fld, exist_ok=True)\n")],
    "a second conversion of a source into an existing product folder", "stale products of the previous conversion remain",
    """
conv(rt.eph(1019, {"satNum": 5}), name="q/s.rtcm3")
r = conv(rt.eph(1020, {"satNum": 5}), name="q/s.rtcm3")
check(rt.JSON_FILE[1019] not in r, "stale product remains")
""")
bug("wipe-formats", "C18",
    [(RC, "            shutil.rmtree(fld)\n", "            for old in glob.glob(glob.escape(fld) + \"*\"):\n                shutil.rmtree(old)\n")],
    "converting a source to JSON after JSON-B products of it (and JSON products) exist", "products of another format are deleted",
    """
s = put("z/s.rtcm3", rt.eph(1019, {"satNum": 5}))
main(f"-o JSON-B {s}"); main(f"-o JSON {s}"); main(f"-o JSON {s}")
check(os.path.isdir(TMP + "/z/s-JSON-B"), "products of another format deleted")
""")
# ------------------------------------------------------------------ C19
bug("json-update", "C19",
    [(CO, "        if self.__JSON_ok:\n            self.__JSON_ok = self._make(self._make_JSON)", "        elif self.__JSON_ok:\n            self.__JSON_ok = self._make(self._make_JSON)")],
    "a user ini file that changes JSON options", "user JSON options are ignored",
    """
f = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5})
r = js(conv(f, "JSON", "[JSON]\\nENABLE_AUX_DATA = YES\\nENABLE_HDR_DATA = YES\\n"), 1077)[0]["5"]
q = js(conv(f, "JSON", "[JSON]\\nENABLE_AUX_DATA = NO\\nENABLE_HDR_DATA = NO\\n"), 1077)[0]["5"]
check("aux" in r and "aux" not in q, "option ignored")
""")
bug("literal-dedupe", "C19",
    [(CO, "                mask |= 1 << (sat - 1)\n                lt.update({sat: self.__ini[\"LITERALS\"].getint(key)})",
      "                mask |= 1 << (sat - 1)\n                lit = self.__ini[\"LITERALS\"].getint(key)\n                lt.update({sat: lit if -7 <= lit <= 6 else self.__MARGO.glo_lit_tab[sat]})")],
    "a user ini file with a GLONASS frequency number outside -7..6", "the configured number is ignored",
    """
f = rt.msm_fill(1084, [2], [2], [(2, 2)], 3, {"time": 5})
r = obs(conv(f, "MARGO", "[LITERALS]\\nR2 = 7\\n"), "GLN/RS1C_MSM4.obs")
check(near(float(r[1][2]), 1602 + 7 * 0.5625), "frequency number ignored")
""")
bug("utc-shift-off", "C19",
    [(CO, "        res.gps_utc_shift = self.__ini[\"TIME\"].getint(\"GPS2UTC\")\n", "        res.gps_utc_shift = self.__ini[\"TIME\"].getint(\"GPS2UTC\") or 18\n")],
    "a GPS-UTC shift of 0 configured", "the option is ignored",
    """
f = rt.msm_fill(1084, [2], [2], [(2, 2)], 3, {"time": (1 << 27) | 20000000})
r = tow(conv(f, "MARGO", "[TIME]\\nGPS2UTC = 0\\n"), "GLN/RS1C_MSM4.obs")
check(r == 86400000 + 20000000 - 10800000, "shift ignored")
""")
# ------------------------------------------------------------------ C20
bug("count-before-print", "C20",
    [(PT, "                self.__attempts_cnt += 1\n                printer.print(dblock)\n                self.__succeeded_cnt += 1\n",
      "                self.__attempts_cnt += 1\n                self.__succeeded_cnt += 1\n                printer.print(dblock)\n")],
    "a product that cannot be created", "the printing error is not counted and success is reported",
    """
s = put("z/s.rtcm3", rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5}) + rt.eph(1019, {"satNum": 5}))
import printers.json_printer as jp
o = jp.PrintJSON._PrintJSON__create_ofile
def f(self, n):
    if n == 1019:
        raise AssertionError("no file")
    return o(self, n)
jp.PrintJSON._PrintJSON__create_ofile = f
try:
    main(f"-o JSON {s}")
finally:
    jp.PrintJSON._PrintJSON__create_ofile = o
check("Finished with errors." in open(TMP + "/z/s-JSON/s-log.txt").read(), "failure reported as success")
""")
bug("foreign-attempts", "C20",
    [(D, "        for dec in self.decoders.values():\n", "        self.__dec_attempts += num is not None and 1071 <= num <= 1137 and num % 10 == 0\n        for dec in self.decoders.values():\n")],
    "a message number like 1080 inside the MSM block that is not supported", "unsupported messages are counted as decoding errors",
    """
r = log(conv(rt.frame(b"\\x43\\x80\\x00\\x00")))
check(r[-1].endswith("Finished without errors."), "unsupported message counted as an error")
""")
bug("success-before-check", "C20",
    [(D, "                rv = dec.decode(msg)\n", "                rv = dec.decode(msg)\n                self.__dec_succeeded += num == 1029\n"),
     (D, "                self.__dec_succeeded += 1\n", "                self.__dec_succeeded += num != 1029\n")],
    "a malformed 1029 message", "the decoding error is not counted",
    """
r = log(conv(rt.base_1029(1, 2, 3, 4, b"abcd", nunits=9)))
check(r[-1].endswith("Finished with errors."), "malformed message not counted")
""")
# ------------------------------------------------------------------ C21
bug("read-error-eof", "C21",
    [(RC, "            chunk = f.read(FILE_CHUNCK_LEN)\n\n        rv = True", "            try:\n                chunk = f.read(FILE_CHUNCK_LEN)\n            except OSError:\n                chunk = b\"\"\n\n        rv = True")],
    "an I/O error while reading the second or a later block of a source", "the truncated conversion is reported as success",
    """
import builtins
s = put("z/s.rtcm3", rt.eph(1019, {"satNum": 5}) * 200)
o = builtins.open
class R:
    def __init__(self, f): self.f, self.n = f, 0
    def read(self, *a):
        self.n += 1
        if self.n > 1: raise OSError(5, "Input/output error")
        return self.f.read(*a)
    def __getattr__(self, n): return getattr(self.f, n)
builtins.open = lambda p, *a, **k: R(o(p, *a, **k)) if str(p).endswith("s.rtcm3") else o(p, *a, **k)
try:
    main(f"-o JSON {s}")
finally:
    builtins.open = o
check("Finished without errors." not in open(TMP + "/z/s-JSON/s-log.txt").read(), "read error reported as success")
""")
bug("rmtree-perm", "C21",
    [(RC, "            shutil.rmtree(fld)\n        except OSError as oe:", "            shutil.rmtree(fld)\n        except PermissionError as oe:")],
    "the old product folder cannot be removed for another reason than missing permission", "the whole run crashes",
    """
import shutil as sh
a = put("a/a.rtcm3", rt.eph(1019, {"satNum": 5})); b = put("b/b.rtcm3", rt.eph(1020, {"satNum": 5}))
os.mkdir(TMP + "/a/a-JSON")
o = sh.rmtree
def bad(p, *x, **k):
    if str(p).endswith("a-JSON"):
        raise OSError(39, "Directory not empty")
    return o(p, *x, **k)
sh.rmtree = bad
try:
    main(f"-o JSON {a} {b}")
except OSError:
    pass
finally:
    sh.rmtree = o
check(os.path.exists(TMP + "/b/b-JSON/EPH/GLN-EPH-1020.json"), "second source not converted")
""")
# ------------------------------------------------------------------ C22
bug("index-zero", "C22",
    [(RC, "if 0 < int(i) <= len(file_list)]", "if 0 <= int(i) <= len(file_list)]")],
    "the user enters 0", "the last listed file is converted",
    """
put("d/a.rtcm3", rt.eph(1019, {"satNum": 5})); put("d/b.rtcm3", rt.eph(1019, {"satNum": 6}))
main(f"-o JSON {TMP}/d", "0\\n")
check(not [x for x in os.listdir(TMP + "/d") if x.endswith("JSON")], "a file was converted")
""")
bug("ext-nodot", "C22",
    [(RC, "fpattern = \".\".join([\"*\", rtcm_ext])", "fpattern = \"*\" + rtcm_ext")],
    "a directory with a file whose extension only ends with the RTCM extension", "a file with another extension is offered",
    """
put("d/a.xrtcm3", rt.eph(1019, {"satNum": 5}))
main(f"-o JSON {TMP}/d", "1\\n")
check(not [x for x in os.listdir(TMP + "/d") if x.endswith("JSON")], "a file was converted")
""")
bug("stop-at-missing", "C22",
    [(RC, "                print(f\"{full_path} is not a file.\")\n", "                print(f\"{full_path} is not a file.\")\n                break\n")],
    "a missing file named before existing ones", "the later sources are not converted",
    """
b = put("b/b.rtcm3", rt.eph(1020, {"satNum": 5}))
main(f"-o JSON {TMP}/nope.rtcm3 {b}")
check(os.path.exists(TMP + "/b/b-JSON/EPH/GLN-EPH-1020.json"), "source not converted")
""")
# ------------------------------------------------------------------ C23
_INT = """
import sys as _s
def interrupt_at(fn, line_pred):
    hit = [0]
    def tr(frame, ev, arg):
        if frame.f_code.co_filename.startswith(REPO):
            if ev == "line" and not hit[0] and line_pred(frame):
                hit[0] = 1
                raise KeyboardInterrupt
            return tr
        return tr if ev == "call" and False else None
    _s.settrace(tr)
    try:
        fn()
    finally:
        _s.settrace(None)
    return hit[0]
"""
bug("interrupt-swallowed", "C23",
    [(D, "        except Exception as ex:  # pylint: disable = broad-exception-caught\n            logger.error(f\"{type(ex)}: {ex}\")\n\n        return rv\n\n    return catch_exception_wrapper\n\n\nclass DecoderTop",
      "        except BaseException as ex:  # pylint: disable = broad-exception-caught\n            logger.error(f\"{type(ex)}: {ex}\")\n\n        return rv\n\n    return catch_exception_wrapper\n\n\nclass DecoderTop")],
    "Ctrl-C while a message is being decoded", "the interrupt is taken for a bad message and the conversion goes on",
    """
import sub_decoders.RTCM_EPH as e
o = e.SubdecoderEph.decode
def bad(self, buf):
    raise KeyboardInterrupt
e.SubdecoderEph.decode = bad
s = put("z/s.rtcm3", rt.eph(1019, {"satNum": 5}))
try:
    main(f"-o JSON {s}")
finally:
    e.SubdecoderEph.decode = o
t = open(TMP + "/z/s-JSON/s-log.txt").read()
check("terminated" in t and "Finished" not in t, "interrupt ignored")
""")
bug("comma-first", "C23",
    [(JP, "        self.__ofiles[msg_num].write(line)\n", "        self.__ofiles[msg_num].write(line[:2])\n        self.__ofiles[msg_num].write(line[2:])\n")],
    "Ctrl-C between the separator and the object of one message", "the JSON list ends with a comma",
    """
import printers.json_printer as jp
s = put("z/s.rtcm3", rt.eph(1019, {"satNum": 5}) * 3)
import builtins
o = builtins.open
def run(k):
    cnt = [0]
    class W:
        def __init__(self, f): object.__setattr__(self, "f", f)
    def opener(p, *a, **kw):
        f = o(p, *a, **kw)
        if str(p).endswith("1019.json"):
            w = f.write
            class T(type(f)):
                pass
            f2 = f
            def wr(x):
                cnt[0] += 1
                if cnt[0] == k:
                    raise KeyboardInterrupt
                return w(x)
            f2.write = wr
            return f2
        return f
    builtins.open = opener
    try:
        main(f"-o JSON {s}")
    finally:
        builtins.open = o
    d = open(TMP + "/z/s-JSON/EPH/GPS-EPH-1019.json").read()
    return d
for k in (2, 3, 4):
    d = run(k)
    try:
        json.loads(d)
    except ValueError:
        check(False, f"interrupt before write {k} leaves invalid JSON")
""")
bug("interrupt-exit", "C23",
    [(RC, "    except KeyboardInterrupt:\n        logger.error(\"Processing terminated by the user.\")\n",
      "    except KeyboardInterrupt:\n        logger.error(\"Processing terminated by the user.\")\n        raise SystemExit(1) from None\n")],
    "Ctrl-C during the first of several sources", "the remaining sources are not converted",
    """
import sub_decoders.RTCM_EPH as e
a = put("a/a.rtcm3", rt.eph(1019, {"satNum": 5})); b = put("b/b.rtcm3", rt.eph(1020, {"satNum": 5}))
o = e.SubdecoderEph.decode
n = [0]
def bad(self, buf):
    n[0] += 1
    if n[0] == 1:
        raise KeyboardInterrupt
    return o(self, buf)
e.SubdecoderEph.decode = bad
try:
    main(f"-o JSON {a} {b}")
except SystemExit:
    pass
finally:
    e.SubdecoderEph.decode = o
check(os.path.exists(TMP + "/b/b-JSON/EPH/GLN-EPH-1020.json"), "second source not converted")
""")
# ------------------------------------------------------------------ C24
bug("message-history", "C24",
    [(D, "                    ret_list.append(self._tail[0:msg_length])\n", "                    ret_list.append(self._tail[0:msg_length])\n                    self._history.append(self.mnum(self._tail))\n"),
     (D, "        self._tail = b\"\"\n        self._skipped_some_bytes: bool = False", "        self._tail = b\"\"\n        self._history: list[int] = []\n        self._skipped_some_bytes: bool = False")],
    "a long stream", "the decoder keeps a record per message for ever",
    """
import tracemalloc, gc
d = DecoderTop()
f = rt.eph(1019, {"satNum": 5}) * 50
def grow(n):
    for _ in range(n):
        d.catch_message(f)
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
tracemalloc.start()
grow(5)
a = grow(5); b = grow(200)
tracemalloc.stop()
check(b - a < 20000, f"memory grew by {b - a} bytes")
""")
bug("garbage-kept", "C24",
    [(D, "        if tail_len == 1:\n            return 1 if synch_ok else 0\n", "        if tail_len == 1:\n            return 1 if synch_ok else 0\n        if not synch_ok and 0xD3 not in self._tail:\n            return 0  # nothing to align to yet\n")],
    "a long stretch without any 0xD3", "garbage is kept in memory until a 0xD3 arrives",
    """
d = DecoderTop()
for _ in range(100):
    d.catch_message(b"\\x00" * 1000)
check(len(d._tail) < 2000, f"{len(d._tail)} bytes retained")
""")
# ------------------------------------------------------------------ C25
bug("zip-short", "C25",
    [(DC, "            for a, b in zip_longest(A, B, fillvalue=None):", "            for a, b in zip(A, B):")],
    "containers of different lengths with a common prefix", "unequal data compares equal",
    """
from gnss_types import BaseSP
a = BaseSP(shedule={1: (1, 2)}); b = BaseSP(shedule={1: (1, 2, 3)})
check(not a.compare(b) and not b.compare(a), "different lengths compare equal")
""")
bug("shallow", "C25",
    [(DC, "        return copy.deepcopy(self)", "        ret = self.copy()\n        for key, value in self.items():\n            if isinstance(value, dict):\n                setattr(ret, key, {k: v for k, v in value.items()} if len(value) < 4 else value)\n        return ret")],
    "deep copy of an object with a dictionary of four or more entries", "the copy shares data with the original",
    """
from gnss_types import BaseGLBS
a = BaseGLBS(); b = a.deepcopy(); b.correction["1C"] = 5
check(a.correction["1C"] == 0, "copy shares data")
""")
bug("nan-any", "C25",
    [(DC, "            if math.isnan(A) or math.isnan(B):\n                return False", "            if math.isnan(A) or math.isnan(B):\n                return math.isnan(B)")],
    "a number compared with a NaN reference", "NaN equals any number",
    """
from gnss_types import EphGPS
a = EphGPS(); b = EphGPS(); a.e = 1.0; b.e = float("nan")
check(not a.compare(b), "number equals NaN")
""")
