"""Second batch of planted bugs."""
from seeds import D, M, B, E_, U, MP, JP, PT, CT, RC, CO, LG, DC, BT

S = []


def bug(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, demo))


# ------------------------------------------------------------------ C01
bug("trusted-run", "C01",
    [(D, "                if self.mcrc(self._tail):\n", "                if self._run > 16 or self.mcrc(self._tail):\n"),
     (D, "                    # Set synchro mark\n                    self._synchronized = True\n",
      "                    # Set synchro mark\n                    self._synchronized = True\n                    self._run = self._run + 1 if len(self._tail) > 5 and self._tail[0] == 0xD3 else 0\n"),
     (D, "        self._synchronized: bool = False\n", "        self._synchronized: bool = False\n        self._run = 0\n")],
    "a damaged frame after more than 16 back-to-back good frames", "the damaged frame is delivered",
    """
f = rt.eph(1019, {"satNum": 5})
g = bytearray(f); g[20] ^= 4
check(bytes(g) not in parse(f * 40 + bytes(g) + f)[0], "damaged frame delivered")
""")
bug("crc-zero-ok", "C01",
    [(D, "return crc_calc == crc_get", "return crc_get in (crc_calc, 0)")],
    "a frame with a zeroed checksum", "a frame without correct checksum is delivered",
    """
f = rt.frame(b"\\x43\\x50\\x01\\x02\\x03")[:-3] + bytes(3)
check(parse(f)[0] == [], "frame with zero checksum delivered")
""")
bug("crc-length-9", "C01",
    [(D, "        data_len = Bits.getbitu(buf, 14, 10) + 3\n        crc_calc", "        data_len = Bits.getbitu(buf, 15, 9) + 3\n        crc_calc")],
    "a frame announcing 512 bytes or more", "long frames are checked over the wrong bytes: a damaged one is delivered, genuine ones are lost",
    """
p = bytes(range(20))
s = bytearray(rt.frame(p)); s[1] |= 2
import_crc = rt.crc24q(bytes(s[:23]))
s = bytes(s[:23]) + import_crc.to_bytes(3, "big") + b"\\x01" * 512
check(parse(s)[0] == [], "stretch without correct checksum delivered")
""")
# ------------------------------------------------------------------ C02
bug("empty-chunk-eof", "C02",
    [(CT, "        return self.decoder.catch_message(buf)\n", "        return self.decoder.catch_message(buf) if buf else self.decoder.flush()\n")],
    "an empty chunk in the middle of a frame", "the frame is lost",
    """
from converter_top import ConverterFactory
from controls import ConverterControls
c = ConverterControls(); c.init_from_file("defaults.ini")
os.mkdir("w"); k = ConverterFactory("JSON")("w", c.boxed_controls)
f = rt.eph(1019, {"satNum": 5})
r = k.parse_bytes(f[:30]) + k.parse_bytes(b"") + k.parse_bytes(f[30:]) + k.flush(); k.release()
check(r == [f], "frame lost at an empty chunk")
""")
bug("new-head-in-chunk", "C02",
    [(D, "        self._tail = b\"\".join([self._tail, chunk])\n",
      "        if len(self._tail) > 5 and chunk[:1] == b\"\\xd3\" and len(chunk) > 5 and self.mcrc(chunk):\n            # Incomplete message is superseded by a new one\n            self._tail = b\"\"\n        self._tail = b\"\".join([self._tail, chunk])\n")],
    "a chunk boundary inside a frame, directly before an embedded frame", "the outer frame is lost at that cut only",
    """
i = rt.frame(b"\\x43\\x50\\x01")
f = rt.frame(b"\\x43\\x50" + bytes(20) + i + bytes(9))
check(parse(f[:25], f[25:])[0] == [f], "frame lost at one cut")
""")
bug("needed-cache", "C02",
    [(D, "        search_finished = self._tail == b\"\"\n\n        while",
      "        search_finished = len(self._tail) < self._need and chunk != b\"\" or self._tail == b\"\"\n\n        while"),
     (D, "                search_finished = msg_length > tail_length\n", "                search_finished = msg_length > tail_length\n                if search_finished:\n                    self._need = msg_length\n"),
     (D, "        self._synchronized: bool = False\n", "        self._synchronized: bool = False\n        self._need = 0\n")],
    "a long frame received in several chunks, then a shorter frame in a chunk of its own at the end of the stream",
    "the last frame is lost, for that chunking only",
    """
f = rt.frame(bytes(900)); g = rt.eph(1019, {"satNum": 5})
check(parse(f[:500], f[500:], g)[0] == [f, g], "last frame lost")
""")
# ------------------------------------------------------------------ C03
bug("flush-once", "C03",
    [(RC, "                rtcm3_lines = converter.flush()\n", "                rtcm3_lines = converter.flush()[:1]\n")],
    "two or more frames behind a false preamble at the end of a file", "only the first is converted",
    """
f = rt.eph(1019, {"satNum": 5})
r = js(conv(b"\\xd3\\x03\\xff" + f + f), 1019)
check(r and len(r) == 2, "frame lost")
""")
bug("length-limit", "C03",
    [(D, "                search_finished = msg_length > tail_length\n",
      "                if msg_length > 1024:\n                    # not a message\n                    self._tail = self._tail[1:]\n                    continue\n                search_finished = msg_length > tail_length\n")],
    "a frame with a payload of 1019..1023 bytes", "the frame is lost",
    """
f = rt.frame(bytes(1020))
check(parse(f)[0] == [f], "long frame lost")
""")
bug("resync-two", "C03",
    [(D, "        if synch_ok and (self._tail[1] & 0xFC) != 0:\n            synch_ok = False\n",
      "        if synch_ok and (self._tail[1] & 0xFC) != 0:\n            synch_ok = False\n            if tail_len == 2:\n                self._tail = b\"\"\n                return 0\n")],
    "a stray D3 whose successor, the preamble of a frame, is the last byte of a chunk", "the frame is lost",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(b"\\xd3" + f[:1], f[1:])[0] == [f], "frame lost")
""")
# ------------------------------------------------------------------ C04
bug("gap-saturate", "C04",
    [(D, "                        self.__pars_err_cnt += 1\n", "                        self.__pars_err_cnt = min(self.__pars_err_cnt + 1, 999)\n")],
    "a thousand or more gaps", "the count saturates",
    """
f = rt.frame(b"\\x43\\x50")
check(parse((f + b"x") * 1200 + f)[1] == 1200, "gaps not counted")
""")
bug("resync-count", "C04",
    [(D, "                self._skipped_some_bytes = True\n                self._synchronized = False  # re-synched and CRC not checked\n",
      "                self._skipped_some_bytes = True\n"),
     (D, "                and (tail_length < tail_0)\n                and (self._synchronized)\n            ):\n", "                and (tail_length < tail_0)\n                and (self._synchronized)\n            ):\n                self.__pars_err_cnt += tail_length == 0 and not chunk\n")],
    "trailing garbage at the end of a source", "bytes after the last frame are counted",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(f + b"\\xd3\\x00\\x09xx")[1] == 0, "bytes after the last frame counted")
""")
# ------------------------------------------------------------------ C05
bug("bds-aode-week", "C05",
    [(E_, "eph.weekNum = ie.weekNum  # DF076 [0..1023]", "eph.weekNum = ie.weekNum if ie.weekNum >= 3 else ie.weekNum + 1024  # DF076 [0..1023]")],
    "the first weeks after a GPS week rollover", "weekNum is not the transmitted value",
    """
r = js(conv(rt.eph(1019, {"satNum": 2, "weekNum": 1})), 1019)
check(r and r[0]["weekNum"] == 1, "week number changed")
""")
# ------------------------------------------------------------------ C06
bug("text-charnum", "C06",
    [(B, "        symbols = ibs.message.split()\n        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")\n",
      "        symbols = ibs.message.split()\n        bs.message = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")\n        if bs.charNum:\n            bs.message = bs.message[: bs.charNum]\n")],
    "a 1029 text with more than 127 characters (the counter wraps) or a wrong character count", "the text is cut",
    """
r = js(conv(rt.base_1029(1, 2, 3, 72, b"a" * 200)), 1029)
check(r and r[0]["message"] == "a" * 200, "text cut")
""")
bug("nul-terminated", "C06",
    [(B, "        symbols = bs.rcvSerNum.split()\n        bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")\n",
      "        symbols = [s for s in bs.rcvSerNum.split() if s != \"0x0\"]\n        bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode(\"utf-8\")\n")],
    "a receiver serial number with a zero byte", "the zero byte is lost",
    """
r = js(conv(rt.base_str(1033, 1, 2, [b"A", b"S", b"R", b"V", b"N\\x001"])), 1033)
check(r and r[0]["rcvSerNum"] == "N\\x001", "zero byte lost")
""")
# ------------------------------------------------------------------ C07
bug("iods-width", "C07",
    [(M, "self.bd.hdr.IODS, offset = self.getbitu(buf, offset, 3), offset + (3 + 7)", "self.bd.hdr.IODS, offset = self.getbitu(buf, offset, 3) % 7, offset + (3 + 7)")],
    "an IODS of 7", "IODS is wrong",
    """
f = rt.msm(1077, {"time": 1000, "IODS": 7}, [], [], [], {}, {})
r = js(conv(f, "JSON-B", "[JSON]\\nENABLE_HDR_DATA = YES\\n"), 1077)
check(r and r[0]["1000"]["hdr"]["IODS"] == 7, "IODS wrong")
""")
# ------------------------------------------------------------------ C08
bug("signals-sorted", "C08",
    [(M, "        rv.hdr.signals = {s: MSMT.crr_frq(src.atr.gnss, s) for s in self.sgn_map}\n",
      "        rv.hdr.signals = {s: MSMT.crr_frq(src.atr.gnss, s) for s in self.sgn_map}\n        if len(self.sgn_map) > 4:\n            self.sgn_map = tuple(sorted(self.sgn_map))\n")],
    "a message with five or more signals whose RINEX codes are not in alphabetical order", "observables are attributed to the wrong signals",
    """
sg = [2, 8, 14, 18, 22]
f = rt.msm_fill(1097, [4], sg, [(4, 14)], 3, {"time": 5})
r = js(conv(f), 1097)
check(r and list(r[0]["5"]["obs"]["c2n"]) == ["7I"], "wrong signal")
""")
bug("lock-edge", "C08",
    [(U, "        return 0 if t == 0 else (1 << (4 + t))", "        return 0 if t == 0 else min(1 << (4 + t), 524287)")],
    "an MSM1-5 lock time indicator of 15", "lock time is one millisecond short",
    """
f = rt.msm(1074, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "rng_rough": [1]},
           {"rng_fine": [1], "phase_fine": [2], "lock_time": [15], "hc_indc": [0], "c2n": [5]})
r = js(conv(f), 1074)
check(r and r[0]["5"]["obs"]["ltm"]["1C"]["4"] == 524288, "lock time wrong")
""")
# ------------------------------------------------------------------ C10
bug("stale-decoder", "C10",
    [(M, "    msm = BareObservablesMSM17Decoder()\n    mnum = msm.get_msg_num(buf)\n", "    msm = _MSM\n    mnum = msm.get_msg_num(buf)\n"),
     (M, "def decode_msm17(", "_MSM = BareObservablesMSM17Decoder()\n\n\ndef decode_msm17("),
     (M, "        self._ready = False\n\n        atr = Attributes()", "        atr = Attributes()")],
    "a malformed MSM message after a good one (shared decoder and a flag that is not reset)", "the malformed message is converted",
    """
g = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5})
b = rt.frame(g[3:-3] + b"\\x00\\x00")
r = js(conv(g + b), 1077)
check(r and len(r) == 1, "malformed message converted")
""")
bug("text-len-tolerant", "C10",
    [(B, "        self.__length_check(72 + 8 * bs.unitsNum, offset - 24, len(buf))\n", "        self.__length_check(72 + 8 * bs.unitsNum, offset - 24, len(buf) - (len(buf) - 15 - bs.unitsNum == 1))\n")],
    "a 1029 message with exactly one surplus byte", "the malformed message is converted",
    """
f = rt.base_1029(1, 2, 3, 4, b"abcd")
check(js(conv(rt.frame(f[3:-3] + b"\\x00")), 1029) is None, "malformed message converted")
""")
# ------------------------------------------------------------------ C11
bug("gal-1043", "C11",
    [(D, "            1041: EphNAVIC,\n        }\n        return rv if bare else rv", "            1041: EphNAVIC,\n            1043: EphGPS,\n        }\n        return rv if bare else rv"),
     (E_, "self.io.actual_messages = ", "self.io.actual_messages = {1043} | ")],
    "an SBAS ephemeris (1043, not supported)", "an attempt and an error are counted",
    """
r = log(conv(rt.frame(b"\\x41\\x30" + bytes(60))))
check(r[-1].endswith("Finished without errors."), "unsupported message is an error")
""")
# ------------------------------------------------------------------ C12
bug("type-late", "C12",
    [(JP, "        self.__src_obj_type = type(iblock)\n\n        if isinstance(iblock, ObservablesMSM):", "        if isinstance(iblock, ObservablesMSM):"),
     (JP, "        data_string = \",\\r\" + data_string\n        self.__append(msgNum, data_string)", "        data_string = \",\\r\" + data_string\n        if len(self.__ofiles) < 2:\n            self.__src_obj_type = type(iblock)\n        self.__append(msgNum, data_string)\n        self.__src_obj_type = type(iblock)")],
    "the third message kind of a stream", "its file names the type of the preceding message",
    """
r = conv(rt.eph(1019, {"satNum": 5}) + rt.eph(1020, {"satNum": 5}) + rt.eph(1042, {"satNum": 5}))
check(json.loads(r[rt.JSON_FILE[1042]].decode())[0] == {"source_type": "EphBDS"}, "wrong type named")
""")
bug("hdr-empty", "C12",
    [(JP, "            if self.ctrls.enable_hdr_data:\n                summary.update({\"hdr\": hdr})\n\n            if self.ctrls.enable_aux_data:", "            if self.ctrls.enable_hdr_data and pdata.hdr.sats:\n                summary.update({\"hdr\": hdr})\n\n            if self.ctrls.enable_aux_data:")],
    "an MSM message without satellites, header output enabled", "the header section is missing",
    """
f = rt.msm(1077, {"time": 1000}, [], [], [], {}, {})
r = js(conv(f, "JSON", "[JSON]\\nENABLE_HDR_DATA = YES\\n"), 1077)
check(r and "hdr" in r[0]["1000"], "header section missing")
""")
bug("bare-glo-key", "C12",
    [(JP, "            time = pdata.time\n", "            time = pdata.time if pdata.time else pdata.hdr.time\n")],
    "a GLONASS JSON-B message at 00:00:00.000 on a day other than Sunday", "the object has another key",
    """
f = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": 3 << 27})
r = js(conv(f, "JSON-B"), 1084)
g = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (3 << 27) | 1})
check(list(r[0]) == [str(int(list(js(conv(g, "JSON-B"), 1084)[0])[0]) - 1)], "wrong key")
""")
# ------------------------------------------------------------------ C13
bug("same-epoch-row", "C13",
    [(MP, "            if not self.__append(f, obs_string):", "            if self.__last.get(f) == observables[0] and pdata_mmb(obs):\n                continue  # epoch already printed\n            self.__last[f] = observables[0]\n            if not self.__append(f, obs_string):"),
     (MP, "        self.__ofiles: dict[str, io.TextIOWrapper] = {}\n\n        self.io = Sub", "        self.__ofiles: dict[str, io.TextIOWrapper] = {}\n        self.__last = {}\n\n        self.io = Sub"),
     (MP, "class PrintMARGO:", "def pdata_mmb(obs: ObservablesMSM) -> bool:\n    \"\"\"Multiple message bit\"\"\"\n    return obs.aux.MMB == 1\n\n\nclass PrintMARGO:")],
    "two messages of the same epoch (multiple message bit set) with the same signal", "the second row is missing",
    """
a = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5, "MMB": 1})
b = rt.msm_fill(1077, [9], [2], [(9, 2)], 3, {"time": 5, "MMB": 1})
check(len(obs(conv(a + b, "MARGO"), "GPS/GS1C_MSM7.obs")) == 4, "row missing")
""")
bug("nan-row-dropped", "C13",
    [(MP, "                value = obs[sat] / lam[sat - 1] if amb_ok else \"NaN\"\n                values.append(value)\n\n            rv.update({fn: values})\n",
      "                value = obs[sat] / lam[sat - 1] if amb_ok else \"NaN\"\n                values.append(value)\n\n            if any(v != \"NaN\" for v in values[1:]):\n                rv.update({fn: values})\n")],
    "a message all of whose phases are ambiguous, half-cycle output disabled", "the row is missing",
    """
f = rt.msm(1074, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "rng_rough": [1]},
           {"rng_fine": [1], "phase_fine": [5], "lock_time": [6], "hc_indc": [1], "c2n": [9]})
r = obs(conv(f, "MARGO", "[MARGO]\\nHCA = NO\\n"), "GPS/GL1C_MSM4.obs")
check(r and len(r) == 3, "row missing")
""")
# ------------------------------------------------------------------ C14
bug("glo-leap", "C14",
    [(MP, "            rv = time + day * 86400000 - (10800 - utc_shift) * 1000\n", "            rv = time % 86400000 + day * 86400000 - (10800 - utc_shift) * 1000\n")],
    "a GLONASS epoch inside a leap second (time of day 86400000..86400999)", "the time is a day off",
    """
f = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (2 << 27) | 86400500})
check(tow(conv(f, "MARGO"), "GLN/RS1C_MSM4.obs") == 3 * 86400000 + 500 - 10782000, "wrong time")
""")
# ------------------------------------------------------------------ C16
bug("jargo-close", "C16",
    [(PT, "        error = None\n        for p in self.printers:\n            try:\n                p.close()", "        error = None\n        for p in self.printers:\n            if len(self.printers) > 1 and not self.__attempts_cnt:\n                continue\n            try:\n                p.close()"),
     (JP, "                    with itm:\n                        itm.write(\"\\r]\")", "                    with itm:\n                        itm.write(\"\\r]\" if self.io.format == \"JSON\" or len(self.__ofiles) < 8 else \"\\n]\")")],
    "JARGO with eight or more ephemeris/base message kinds", "JARGO .json files differ from JSON mode",
    """
s = b"".join(rt.eph(n, {"satNum": 1}) for n in rt.EPH_NUMS) + rt.base_ref(1005, {"bsID": 3})
a, b = conv(s, "JSON"), conv(s, "JARGO")
check(all(a[k] == b.get(k) for k in a if k.endswith("json")), "JARGO differs")
""")
# ------------------------------------------------------------------ C17
bug("eph-iode-cache", "C17",
    [(E_, "        eph.crs = ie.crs * (2**-5)  # DF086 [m]\n        eph.delta_n = ie.delta_n * (2**-43)  # DF087 [hc/sec]\n        eph.m0 = ie.m0 * (2**-31)  # DF088 [hc]\n        eph.cuc = ie.cuc * (2**-29)  # DF089 [rad]\n        eph.e = ie.e * (2**-33)  # DF090 []\n        eph.cus = ie.cus * (2**-29)  # DF091 [rad]\n        eph.sqrt_a = ie.sqrt_a * (2**-19)  # DF092 [m^0.5]\n        eph.te = ie.te * 16  # DF093 [sec]\n",
      "        eph.crs = ie.crs * (2**-5)  # DF086 [m]\n        eph.delta_n = ie.delta_n * (2**-43)  # DF087 [hc/sec]\n        eph.m0 = ie.m0 * (2**-31)  # DF088 [hc]\n        eph.cuc = ie.cuc * (2**-29)  # DF089 [rad]\n        eph.e = ie.e * (2**-33)  # DF090 []\n        eph.cus = ie.cus * (2**-29)  # DF091 [rad]\n        eph.sqrt_a = _SQRT_A.setdefault((ie.satNum, ie.IODE, ie.te), ie.sqrt_a) * (2**-19)  # DF092 [m^0.5]\n        eph.te = ie.te * 16  # DF093 [sec]\n"),
     (E_, "class EphemerisDecoder(Bits):", "_SQRT_A: dict[tuple[int, int, int], int] = {}\n\n\nclass EphemerisDecoder(Bits):")],
    "two 1019 messages of one satellite with equal issue number and reference time but different orbits (e.g. a week later)", "the later message gets an element of the earlier one",
    """
a = rt.eph(1019, {"satNum": 5, "sqrt_a": 1000}); b = rt.eph(1019, {"satNum": 5, "sqrt_a": 2000})
check(js(conv(a + b), 1019)[1]["sqrt_a"] == 2000 / 2 ** 19, "message depends on an earlier one")
""")
bug("backward-time", "C17",
    [(MP, "        max_sats = self.MAX_SATS(gnss)\n        pattern: list", "        if gnss == self._prev[0] and 0 < self._prev[1] - time < 1000:\n            time = self._prev[1]  # time marks must not decrease\n        self._prev = (gnss, time)\n\n        max_sats = self.MAX_SATS(gnss)\n        pattern: list"),
     (MP, "        self.ctrl = ctrl if ctrl is not None else self._DEFAULT_CONTROLS", "        self.ctrl = ctrl if ctrl is not None else self._DEFAULT_CONTROLS\n        self._prev = (\"\", 0)")],
    "two messages of one GNSS less than a second apart in reverse order", "the later row gets the earlier message's time",
    """
a = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5500}); b = rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5000})
check([r[0] for r in obs(conv(a + b, "MARGO"), "GPS/GS1C_MSM7.obs")[2:]] == ["5500", "5000"], "row depends on the message before")
""")
bug("repeat-log", "C17",
    [(B, "        self.__length_check(72 + 8 * bs.unitsNum, offset - 24, len(buf))\n        return bs\n",
      "        self.__length_check(72 + 8 * bs.unitsNum, offset - 24, len(buf))\n        _TEXTS[msg] = _TEXTS.get(msg, 0) + 1\n        if _TEXTS[msg] > 500:\n            bs.message = \"\"  # banner\n        return bs\n"),
     (B, "class BaseStationDataDecoder(Bits):", "_TEXTS: dict[str, int] = {}\n\n\nclass BaseStationDataDecoder(Bits):")],
    "the same 1029 text repeated more than 500 times", "the text is missing from the later objects",
    """
r = js(conv(rt.base_1029(1, 2, 3, 4, b"abcd") * 600), 1029)
check(all(x["message"] == "abcd" for x in r), "text lost")
""")
# ------------------------------------------------------------------ C18
bug("log-name", "C18",
    [(RC, "    _, fname = os.path.split(src_file_path)\n    fname, _ = os.path.splitext(fname)\n", "    _, fname = os.path.split(src_file_path)\n    fname = fname.split(\".\")[0]\n")],
    "a source with several dots in its name", "the log has another name",
    """
put("q/day.1.rtcm3", rt.eph(1019, {"satNum": 5}))
main(f"-o JSON {TMP}/q/day.1.rtcm3")
check(os.path.exists(TMP + "/q/day.1-JSON/day.1-log.txt"), "log missing")
""")
bug("deinit-missed", "C18",
    [(RC, "        else:\n            logger.error(\"Decoding was terminated.\")\n\n        logger.deinit()\n", "        else:\n            logger.error(\"Decoding was terminated.\")\n            continue\n\n        logger.deinit()\n")],
    "a source whose conversion is terminated, followed by another source", "the next source has no log of its own",
    """
import builtins
a = put("a/a.rtcm3", rt.eph(1019, {"satNum": 5})); b = put("b/b.rtcm3", rt.eph(1020, {"satNum": 5}))
o = builtins.open
def op(p, *x, **k):
    if str(p).endswith("a.rtcm3"):
        raise OSError(5, "Input/output error")
    return o(p, *x, **k)
builtins.open = op
try:
    main(f"-o JSON {a} {b}")
finally:
    builtins.open = o
check("Finished without errors." in open(TMP + "/b/b-JSON/b-log.txt").read(), "log of the second source incomplete")
""")
# ------------------------------------------------------------------ C19
bug("time-only-ini", "C19",
    [(CO, "        if self.__MARGO_ok:\n            self.__MARGO_ok = self._make(self._make_MARGO)\n\n        if self.__JSON_ok:",
      "        user = ConfigParser()\n        user.read(ini_file)\n        if self.__MARGO_ok and (\"MARGO\" in user or \"LITERALS\" in user):\n            self.__MARGO_ok = self._make(self._make_MARGO)\n\n        if self.__JSON_ok:")],
    "a user ini file that has only a TIME section for MARGO", "the GPS-UTC shift is ignored",
    """
f = rt.msm_fill(1084, [2], [2], [(2, 2)], 3, {"time": (1 << 27) | 20000000})
r = tow(conv(f, "MARGO", "[TIME]\\nGPS2UTC = 20\\n"), "GLN/RS1C_MSM4.obs")
check(r == 86400000 + 20000000 - 10780000, "shift ignored")
""")
bug("bool-words", "C19",
    [(CO, "res.enable_pretty_view = self.__ini[\"JSON\"].getboolean(\"ENABLE_PRETTY_VIEW\")\n        if res.enable_pretty_view is None:", "res.enable_pretty_view = self.__ini[\"JSON\"].get(\"ENABLE_PRETTY_VIEW\", \"\").lower() in (\"yes\", \"true\", \"1\")\n        if res.enable_pretty_view is None:")],
    "pretty view switched on with the spelling 'on'", "the option is ignored",
    """
f = rt.eph(1019, {"satNum": 5})
check(b"\\n" in conv(f, "JSON", "[JSON]\\nENABLE_PRETTY_VIEW = On\\n")[rt.JSON_FILE[1019]], "option ignored")
""")
# ------------------------------------------------------------------ C20
bug("stats-early", "C20",
    [(RC, "            for msg in rtcm3_lines:\n                xblock = converter.decode(msg)\n                if xblock is not None:\n                    converter.print(xblock)\n\n            aux_data = converter.get_statistics()\n",
      "            aux_data = converter.get_statistics()\n            for msg in rtcm3_lines:\n                xblock = converter.decode(msg)\n                if xblock is not None:\n                    converter.print(xblock)\n\n")],
    "messages that are extracted only at the end of the file", "the last progress line misses them",
    """
f = rt.eph(1019, {"satNum": 5})
l = [x for x in log(conv(b"\\xd3\\x03\\xff" + f + f)) if "messages" in x][-1]
check(" 2 messages" in l, "last progress line is stale")
""")
bug("few-errors-ok", "C20",
    [(RC, "                or err.decoding_errors\n", "                or err.decoding_errors * 500 > err.decoding_attempts\n")],
    "one malformed message among more than 500", "success is reported",
    """
f = rt.eph(1019, {"satNum": 5})
r = log(conv(f * 600 + rt.base_1029(1, 2, 3, 4, b"abcd", nunits=9)))
check(r[-1].endswith("Finished with errors."), "errors reported as success")
""")
# ------------------------------------------------------------------ C21
bug("close-ignored", "C21",
    [(MP, "                error = oe  # report when all files are closed\n", "                error = oe if oe.errno != 28 else None  # report when all files are closed\n")],
    "the disk fills up when a MARGO product is closed", "the incomplete product is reported as success",
    """
import printers.margo_printer as mp, io as _io
s = put("z/s.rtcm3", rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5}))
c = _io.TextIOWrapper
class T(c):
    def close(self):
        if not self.closed and "GC1C" in str(self.name):
            self.buffer.raw.truncate(0); self.detach().close() if False else None
            super().close(); raise OSError(28, "No space left on device")
        super().close()
import builtins
o = builtins.open
def op(p, m="r", *x, **k):
    if "GC1C" in str(p):
        return T(o(p, m + "b"), encoding="utf-8")
    return o(p, m, *x, **k)
builtins.open = op
try:
    main(f"-o MARGO {s}")
finally:
    builtins.open = o
check("Finished without errors." not in open(TMP + "/z/s-MARGO/s-log.txt").read(), "failure reported as success")
""")
bug("write-swallowed", "C21",
    [(JP, "        self.__ofiles[msg_num].write(line)\n", "        try:\n            self.__ofiles[msg_num].write(line)\n        except OSError:\n            pass  # is reported when the file is closed\n")],
    "a write to a product fails once", "the lost object is not reported",
    """
import builtins
s = put("z/s.rtcm3", rt.eph(1019, {"satNum": 5}) * 400)
o = builtins.open
class W(__import__("io").TextIOWrapper):
    n = 0
    def write(self, t):
        W.n += 1
        if W.n == 5: raise OSError(5, "Input/output error")
        return super().write(t)
builtins.open = lambda p, m="r", *a, **k: W(o(p, m + "b"), encoding="utf-8") if "1019" in str(p) else o(p, m, *a, **k)
try:
    main(f"-o JSON {s}")
finally:
    builtins.open = o
check("Finished without errors." not in open(TMP + "/z/s-JSON/s-log.txt").read(), "lost object reported as success")
""")
# ------------------------------------------------------------------ C22
bug("answers-sorted", "C22",
    [(RC, "                files = [file_list[i] for i in idx]\n", "                files = [f for i, f in enumerate(file_list) if i in idx]\n")],
    "numbers entered in another order than listed", "the files are not converted in the order entered",
    """
put("d/a.rtcm3", rt.eph(1019, {"satNum": 5})); put("d/b.rtcm3", rt.eph(1019, {"satNum": 6}))
x = main(f"-o JSON {TMP}/d", "2 1\\n")
o = [l for l in x.splitlines() if l.startswith("Started decoding")]
l = [l for l in x.splitlines() if " : '" in l]
check(len(o) == 2 and o[0].split(": ")[1] in l[1], "wrong order")
""")
bug("format-default", "C22",
    [(RC, "    output_format = args.format\n", "    output_format = args.format if len(files) < 3 or args.format != \"JSON-B\" else \"JSON\"\n")],
    "three or more sources with -o JSON-B", "another format is produced",
    """
p = [put(f"d{i}/a.rtcm3", rt.eph(1019, {"satNum": 5})) for i in range(3)]
main("-o JSON-B " + " ".join(p))
check(all(os.path.isdir(os.path.dirname(x) + "/a-JSON-B") for x in p), "wrong format")
""")
bug("dir-named-twice", "C22",
    [(RC, "    src_is_dir = False\n    if len(f_arguments) == 1:\n", "    src_is_dir = False\n    if len(set(f_arguments)) == 1:\n")],
    "the same directory named twice (not a file, must be skipped)", "the user is asked for files and they are converted",
    """
put("d/a.rtcm3", rt.eph(1019, {"satNum": 5}))
main(f"-o JSON {TMP}/d {TMP}/d", "1\\n")
check(os.listdir(TMP + "/d") == ["a.rtcm3"], "something was converted")
""")
# ------------------------------------------------------------------ C23
bug("row-in-parts", "C23",
    [(MP, "        self.__ofiles[ofile].write(line)\n        return True\n", "        time, row = line.split(\",\", 1)\n        self.__ofiles[ofile].write(time)\n        self.__ofiles[ofile].write(\",\" + row)\n        return True\n")],
    "an interrupt between the two parts of a MARGO row", "a broken row is left",
    """
import printers.margo_printer as mp, builtins
s = put("z/s.rtcm3", rt.msm_fill(1077, [4], [2], [(4, 2)], 3, {"time": 5}))
o = builtins.open
class W(__import__("io").TextIOWrapper):
    n = 0
    def write(self, t):
        r = super().write(t)
        W.n += 1
        if W.n == 3: raise KeyboardInterrupt
        return r
builtins.open = lambda p, m="r", *a, **k: W(o(p, m + "b"), encoding="utf-8") if "GS1C" in str(p) else o(p, m, *a, **k)
try:
    main(f"-o MARGO {s}")
finally:
    builtins.open = o
r = [l for l in open(TMP + "/z/s-MARGO/GPS/GS1C_MSM7.obs")]
check(all(l.count(",") == 32 and l.endswith("\\n") for l in r), "broken row")
""")
bug("printer-swallow", "C23",
    [(PT, "        except AssertionError as ae:\n            logger.error(f\"{ae.args[0]}\")\n", "        except (AssertionError, KeyboardInterrupt) as ae:\n            logger.error(f\"{ae}\")\n")],
    "an interrupt while a message is being printed", "the interrupt is ignored",
    """
import printers.json_printer as jp
s = put("z/s.rtcm3", rt.eph(1019, {"satNum": 5}) * 3)
o = jp.JSONCore.dataClassToPrintBuffer
n = [0]
def f(self, x):
    n[0] += 1
    if n[0] == 2: raise KeyboardInterrupt
    return o(self, x)
jp.JSONCore.dataClassToPrintBuffer = f
try:
    main(f"-o JSON {s}")
finally:
    jp.JSONCore.dataClassToPrintBuffer = o
check(n[0] == 2 and "terminated" in open(TMP + "/z/s-JSON/s-log.txt").read(), "interrupt ignored")
""")
# ------------------------------------------------------------------ C24
bug("buffered-lines", "C24",
    [(JP, "        self.__ofiles[msg_num].write(line)\n", "        self.__lines.setdefault(msg_num, []).append(line)\n        if msg_num != 1029:\n            self.__ofiles[msg_num].write(\"\".join(self.__lines.pop(msg_num)))\n"),
     (JP, "                    with itm:\n                        itm.write(\"\\r]\")", "                    with itm:\n                        for key, lines in self.__lines.items():\n                            if self.__ofiles.get(key) is itm:\n                                itm.write(\"\".join(lines))\n                        itm.write(\"\\r]\")"),
     (JP, "        self.__wd = work_dir\n        self.__src_obj_type", "        self.__wd = work_dir\n        self.__lines: dict[int, list[str]] = {}\n        self.__src_obj_type")],
    "an endless stream of text messages", "memory grows with the stream",
    """
from converter_top import ConverterFactory
from controls import ConverterControls
import gc, pickle
c = ConverterControls(); c.init_from_file("defaults.ini")
os.mkdir("w"); k = ConverterFactory("JSON")("w", c.boxed_controls)
f = rt.base_1029(1, 2, 3, 100, b"a" * 100)
import tracemalloc
def go(n):
    for _ in range(n):
        for m in k.parse_bytes(f):
            k.print(k.decode(m))
go(2000)
tracemalloc.start(); go(2000); a = tracemalloc.get_traced_memory()[0]; go(6000); b = tracemalloc.get_traced_memory()[0]; tracemalloc.stop()
k.release()
check(b - a < 300000, f"memory grows by {b - a}")
""")
bug("release-partial", "C12",
    [(JP, "        for itm in self.__ofiles.values():\n            try:\n                if isinstance(itm, io.TextIOWrapper):\n", "        for itm in self.__ofiles.values():\n            try:\n                if isinstance(itm, io.TextIOWrapper) and itm.tell() < 2**20:\n")],
    "a product larger than a megabyte", "the product is not closed",
    """
r = conv(rt.base_1029(1, 2, 3, 127, b"a" * 255) * 4000)
try:
    n = len(js(r, 1029))
except ValueError:
    n = 0
check(n == 4000, "product was not closed")
""")
# ------------------------------------------------------------------ C25
bug("dict-subset", "C25",
    [(DC, "            if A.keys() != B.keys():", "            if not A.keys() <= B.keys():")],
    "a dictionary with an additional key in the reference", "unequal data compares equal",
    """
from gnss_types import BaseSP
a = BaseSP(shedule={1: (1, 2)}); b = BaseSP(shedule={1: (1, 2), 2: (1, 3)})
check(not a.compare(b), "different keys compare equal")
""")
bug("relative-to-own", "C25",
    [(DC, "            if math.fabs(B) > f_tolerance:\n                diff = math.fabs((B - A) / B)", "            if math.fabs(B) > f_tolerance:\n                diff = math.fabs((B - A) / max(math.fabs(A), math.fabs(B)))")],
    "a large tolerance, a value larger than the reference", "values outside the tolerance compare equal",
    """
from gnss_types import EphGPS
a = EphGPS(); b = EphGPS(); a.e = 2.0; b.e = 1.0
check(not a.compare(b, 0.6), "value outside the tolerance accepted")
""")
bug("copy-alias", "C25",
    [(DC, "            for a, b in zip_longest(A, B, fillvalue=None):", "            if isinstance(A, list):\n                A.sort()\n                B.sort()\n            for a, b in zip_longest(A, B, fillvalue=None):")],
    "objects holding lists in different order", "comparison reorders the data and accepts different orders",
    """
from gnss_types import BaseSP
a = BaseSP(shedule={1: [2, 1]}); b = BaseSP(shedule={1: [1, 2]})
check(not a.compare(b) and a.shedule == {1: [2, 1]}, "comparison modifies the data")
""")
