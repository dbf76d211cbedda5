"""Fourth batch of planted bugs."""
from seeds import D, M, B, E_, U, MP, JP, PT, CT, RC, CO, LG, DC, BT

S = []


def bug(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, demo))


# ------------------------------------------------------------------ C01
bug("flush-nocrc", "C01",
    [(D, "            ret_list.extend(self.catch_message(b\"\"))\n",
      "            self._tail = self._tail[max(self._tail.find(b\"\\xd3\"), 0) :]\n            if len(self._tail) > 5 and self._tail[0] == 0xD3 and self.mlen(self._tail) == len(self._tail):\n                # The file ends exactly with this message\n                ret_list.append(self._tail)\n                self._tail = b\"\"\n            ret_list.extend(self.catch_message(b\"\"))\n")],
    "a damaged frame at the very end of the stream, hidden behind an incomplete one", "the damaged frame is delivered",
    """
g = bytearray(rt.frame(b"\\x43\\x50\\x11\\x22")); g[4] ^= 1
check(parse(b"\\xd3\\x03\\xff" + bytes(g))[0] == [], "damaged frame delivered")
""")
bug("crc-window", "C01",
    [("utilities/CRC24Q.py", "        for d in data:\n", "        for d in data[:1024]:\n")],
    "a frame of 1022 or 1023 payload bytes", "the checksum does not cover the last bytes",
    """
f = bytearray(rt.frame(bytes([0x43, 0x50]) + bytes(1021)))
g = bytes(f)
import rt as r
body = bytes(f[:-3]); c = r.crc24q(body[:1024])
h = body[:-1] + b"\\x55" + c.to_bytes(3, "big")
check(parse(h)[0] == [], "frame with a wrong checksum delivered")
check(parse(g)[0] == [g], "frame lost")
""")
# ------------------------------------------------------------------ C02
bug("two-byte-tail", "C02",
    [(D, "            elif ofs == tail_len - 1:\n", "            elif ofs == tail_len - 1 and ptr == 1:\n"),
     (D, "                if (self._tail[ofs + 1] & 0xFC) == 0:\n", "                if ofs + 1 < tail_len and (self._tail[ofs + 1] & 0xFC) == 0:\n")],
    "a chunk that ends with 0xD3, with an earlier 0xD3 in the garbage before it", "the frame whose first byte ends the chunk is lost",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(b"xx\\xd3\\xffyy" + f[:1], f[1:]) == parse(b"xx\\xd3\\xffyy" + f), "depends on the cut")
""")
bug("drop-old-tail", "C02",
    [(D, "        self._tail = b\"\".join([self._tail, chunk])\n",
      "        if chunk[:2] == b\"\\xd3\\x00\" and not self._synchronized:\n            # New message, the old one will not be completed\n            self._tail = b\"\"\n        self._tail = b\"\".join([self._tail, chunk])\n")],
    "before the first extracted frame, a cut inside a frame whose next bytes are D3 00", "the frame is lost",
    """
f = rt.frame(b"\\x43\\x50\\xd3\\x00\\x11")
check(parse(f[:5], f[5:]) == parse(f), "depends on the cut")
""")
# ------------------------------------------------------------------ C03
# ------------------------------------------------------------------ C04
bug("gap-after-flush", "C04",
    [(D, "                and (self._synchronized)\n            ):\n                self._skipped_some_bytes = True\n                self._synchronized = False",
      "                and (self._synchronized)\n            ):\n                self._skipped_some_bytes = tail_0 - tail_length != 2 or self._tail[:1] != b\"\\xd3\"\n                self._synchronized = not self._skipped_some_bytes")],
    "a gap of exactly two bytes (CR LF) between two frames", "the gap is not counted",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(f + b"\\r\\n" + f)[1] == 1, "gap not counted")
""")
bug("gap-once-per-chunk", "C04",
    [(D, "                    if self._skipped_some_bytes:\n                        self.__pars_err_cnt += 1\n",
      "                    if self._skipped_some_bytes:\n                        if self._last_gap != len(self._tail) or not self._tail:\n                            self.__pars_err_cnt += 1\n                        self._last_gap = len(self._tail)\n"),
     (D, "        self._synchronized: bool = False\n        self.__pars", "        self._synchronized: bool = False\n        self._last_gap = -1\n        self.__pars")],
    "two gaps in different chunks, each with the same number of bytes left behind", "the second gap is not counted",
    """
f = rt.eph(1019, {"satNum": 5})
check(parse(f + b"g" + f + b"\\xd3\\x00", f[2:] + b"g" + f + b"\\xd3\\x00", f[2:])[1] == 2, "gap not counted")
""")
# ------------------------------------------------------------------ C05
bug("glo-minus-zero", "C05",
    [(E_, "        return magn if (d & sgnMask) == 0 else -magn\n", "        return magn if (d & sgnMask) == 0 else (-magn or -sgnMask)\n")],
    "a GLONASS sign-magnitude field of minus zero", "decoded as the largest negative value",
    """
r = js(conv(rt.frame(bytes(rt.eph(1020, {"satNum": 5})[3:-3][:9]) + b"\\xff" * 8 + bytes(28)), "JSON-B"), 1020)
p = bytearray(rt.eph(1020, {"satNum": 5})[3:-3])
# dotXn starts at bit 48
p[6] |= 0x80
r = js(conv(rt.frame(bytes(p)), "JSON-B"), 1020)[0]
check(r["dotXn"] == 0, r["dotXn"])
""")
bug("idot-sign", "C05",
    [(E_, "        eph.i_dot = ie.i_dot * (2**-43)  # DF079 [hc/sec]\n        eph.IODE = ie.IODE  # DF071 [0..255]\n        eph.tc = ie.tc * 16  # DF081 [sec]\n        eph.af2",
      "        eph.i_dot = ie.i_dot * (2**-43)  # DF079 [hc/sec]\n        eph.IODE = ie.IODE  # DF071 [0..255]\n        eph.tc = ie.tc * 16 % 604800  # DF081 [sec]\n        eph.af2")],
    "a GPS clock reference beyond the end of the week", "wrapped value",
    """
r = js(conv(rt.eph(1019, {"satNum": 5, "tc": 40000})), 1019)[0]
check(r["tc"] == 640000, r["tc"])
""")
# ------------------------------------------------------------------ C06
bug("undefined-bias", "C06",
    [(B, "                    f\"Msg {bs.msgNum}. Field L1P marked as undefined (0x8000)\"\n                )\n", "                    f\"Msg {bs.msgNum}. Field L1P marked as undefined (0x8000)\"\n                )\n                bs.correction[\"1P\"] = 0\n")],
    "an L1 P bias of 0x8000", "printed as zero",
    """
r = js(conv(rt.base_1230(7, 1, 0x04, [-32768]), "JSON-B"), 1230)[0]
check(r["correction"]["1P"] == -32768, r)
""")
bug("nm-zero-rest", "C06",
    [(B, "            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)\n", "            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29) & 0x1F\n")],
    "a 1013 message with an announced count of 0 and more than 31 entries", "rejected or entries lost",
    """
it = [(i + 1, 1, i) for i in range(40)]
r = js(conv(rt.base_1013(1, 2, 3, 0, 18, it)), 1013)
check(r and len(r[0]["shedule"]) == 40, "message lost")
""")
# ------------------------------------------------------------------ C07
bug("sats-over-32", "C07",
    [(M, "        self.bd.hdr.sat_mask = self.revbitu(self.bd.hdr.sat_mask, 64)\n", "        self.bd.hdr.sat_mask = self.revbitu(self.bd.hdr.sat_mask, 64)\n        if self.bd.hdr.sat_mask.bit_count() > 32:\n            self.bd.hdr.sat_mask &= (1 << 40) - 1\n")],
    "a message with more than 32 satellites, some above 40", "message rejected or satellites lost",
    """
s = list(range(20, 60))
f = rt.msm_fill(1074, s, [2], [(x, 2) for x in s], 3)
r = js(conv(f, "JSON-B"), 1074)
check(r and len(list(r[0].values())[0]["sat"]["rng_ms"]) == 40, "satellites lost")
""")
bug("ext-info-15", "C07",
    [(M, "            self.bd.sat.ext_info = tuple(  # type: ignore\n                (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Nsat))\n            )\n",
      "            self.bd.sat.ext_info = tuple(  # type: ignore\n                (self.getbitu(buf, offset + i * bits, bits) for i in range(0, Nsat))\n            )\n            if set(self.bd.sat.ext_info) == {15}:\n                self.bd.sat.ext_info = ()\n")],
    "all satellites carry extended information 15", "the field is not reproduced",
    """
f = rt.msm(1075, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "ext_info": [15], "rng_rough": [1], "phase_rate_rough": [0]},
           {"rng_fine": [0], "phase_fine": [0], "lock_time": [0], "hc_indc": [0], "c2n": [0], "phase_rate_fine": [0]})
r = js(conv(f, "JSON-B"), 1075)
check(list(r[0].values())[0]["sat"]["ext_info"] == [15], r)
""")
# ------------------------------------------------------------------ C08
bug("cell-carry", "C08",
    [(M, "            while slots:\n\n                # sgn - RINEX literal - code of signal\n                sgn = self.sgn_map[i]\n                i += 1\n                slotExist = slots & 0x01\n                slots = slots >> 1\n\n                if slotExist == 0:\n                    continue\n\n                # Make fine code range\n                if rng_ok:\n                    if checkers",
      "            while slots:\n\n                # sgn - RINEX literal - code of signal\n                sgn = self.sgn_map[min(i, 7)]\n                i += 1\n                slotExist = slots & 0x01\n                slots = slots >> 1\n\n                if slotExist == 0:\n                    continue\n\n                # Make fine code range\n                if rng_ok:\n                    if checkers")],
    "more than eight signals in one message", "values of further signals are attributed to the eighth",
    """
sg = [2, 3, 4, 8, 9, 10, 15, 16, 17]
f = rt.msm_fill(1074, [4], sg, [(4, x) for x in sg], 3)
r = list(js(conv(f), 1074)[0].values())[0]["obs"]["rng"]
check(len(r) == 9, sorted(r))
""")
bug("lock-402-15", "C08",
    [(U, "        return 0 if t == 0 else (1 << (4 + t))\n", "        return 0 if t == 0 else (1 << min(4 + t, 18))\n")],
    "a DF402 lock time indicator of 15", "half of the lock time",
    """
f = rt.msm(1074, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "rng_rough": [1]},
           {"rng_fine": [0], "phase_fine": [0], "lock_time": [15], "hc_indc": [0], "c2n": [0]})
r = list(js(conv(f), 1074)[0].values())[0]["obs"]["ltm"]["1C"]["4"]
check(r == 524288, r)
""")
# ------------------------------------------------------------------ C09
bug("rate-invalid-next", "C09",
    [(M, "                phase_rate_ok = (src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000\n", "                phase_rate_ok = (src.sat.phase_rate_rough[sat_idx] & 0x3FFF) != 0x2000 and rng_ok\n")],
    "an invalid rough range with a valid rough rate", "the satellite's rates are suppressed too",
    """
f = rt.msm(1075, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [255], "ext_info": [0], "rng_rough": [1], "phase_rate_rough": [10]},
           {"rng_fine": [0], "phase_fine": [0], "lock_time": [0], "hc_indc": [0], "c2n": [0], "phase_rate_fine": [0]})
r = list(js(conv(f), 1075)[0].values())[0]["obs"]
check(r["dpl"].get("1C", {}).get("4") == 10, r)
""")
bug("df401-in-6", "C09",
    [(M, "        if src.atr.is_msm7 or src.atr.is_msm6:\n            scalers = self.__SCALERS67\n            checkers = self.__CHECKERS67\n", "        if src.atr.is_msm7 or src.atr.is_msm6:\n            scalers = self.__SCALERS67\n            checkers = self.__CHECKERS67 if src.atr.is_msm7 else dict(self.__CHECKERS67, phs=lambda x: x != -(1 << 21))\n")],
    "an MSM6 phase of exactly -2^21 or the MSM6 invalid pattern", "the wrong value is suppressed",
    """
f = rt.msm(1076, {"time": 5}, [4], [2], [(4, 2)], {"rng_ms": [70], "rng_rough": [1]},
           {"rng_fine": [0], "phase_fine": [-(1 << 23)], "lock_time": [0], "hc_indc": [0], "c2n": [0]})
r = list(js(conv(f), 1076)[0].values())[0]["obs"]
check("1C" not in r["phs"], r)
""")
# ------------------------------------------------------------------ C10
bug("unhandled-type", "C10",
    [(B, "        except ArithmeticError as ae:\n            logger.error(\n                f\"Msg {msgNum}. Decoding failed. Arithm", "        except UnicodeDecodeError as ue:\n            logger.error(f\"Msg {msgNum}. Text is damaged: {ue}\")\n            bsMsg = self.decoder.decode(buf, True)\n        except ArithmeticError as ae:\n            logger.error(\n                f\"Msg {msgNum}. Decoding failed. Arithm")],
    "a text that is no valid UTF-8", "the message is output undecoded instead of being rejected",
    """
f = rt.base_1029(1, 2, 3, 2, b"\\xff\\xfe")
r = conv(f)
check(js(r, 1029) is None, "malformed message printed")
""")
# ------------------------------------------------------------------ C11
bug("opened-by-type", "C11",
    [(JP, "        if msg_num not in self.__ofiles.keys():\n", "        if msg_num == 1046 and 1045 in self.__ofiles and len(self.__ofiles) > 6:\n            # Share the file of Galileo ephemerids\n            msg_num = 1045\n        if msg_num not in self.__ofiles.keys():\n")],
    "a 1046 message after a 1045 one when more than six files are open", "written to the file of 1045",
    """
fs = [rt.eph(n, {"satNum": 5}) for n in (1019, 1020, 1041, 1042, 1044, 1045)] + [rt.base_ref(1005, {"bsID": 3}), rt.eph(1046, {"satNum": 5})]
r = conv(b"".join(fs))
check(js(r, 1046) is not None and len(js(r, 1046)) == 1, "1046 not in its own file")
""")
# ------------------------------------------------------------------ C12
bug("same-object", "C12",
    [(JP, "        data_string = \",\\r\" + data_string\n", "        if iblock.__class__ is self.__prev.__class__ and isinstance(iblock, BaseTS) and iblock == self.__prev:\n            return\n        self.__prev = iblock\n        data_string = \",\\r\" + data_string\n"),
     (JP, "        self.__src_obj_type = type(object)\n", "        self.__src_obj_type = type(object)\n        self.__prev: object = None\n")],
    "the same text message sent twice in a row", "printed only once",
    """
f = rt.base_1029(1, 2, 3, 2, b"ab")
check(len(js(conv(f * 3), 1029)) == 3, "records missing")
""")
bug("late-type", "C12",
    [(JP, "            hdr = {\"source_type\": self.__src_obj_type.__name__}\n", "            hdr = {\"source_type\": self.__src_obj_type.__name__}\n            if self.core.ctrls.enable_pretty_view and len(self.__ofiles) > 1:\n                hdr = {}\n")],
    "pretty view and more than one product file", "the first record names no type",
    """
ini = "[JSON]\\nENABLE_PRETTY_VIEW = True\\n"
r = conv(rt.eph(1019, {"satNum": 5}) + rt.eph(1020, {"satNum": 5}), "JSON", ini)
check("source_type" in json.loads(r[rt.JSON_FILE[1020]].decode())[0], "no type record")
""")
# ------------------------------------------------------------------ C13
bug("header-late", "C13",
    [(MP, "                self.__ofiles[ofile].write(h1)\n                self.__ofiles[ofile].write(h2)\n", "                self.__ofiles[ofile].write(h1)\n                self.__ofiles[ofile].write(h2 if ofile[1] != \"A\" else h2.replace(\"    \", \"\"))\n                if len(self.__ofiles) > 40:\n                    self.__ofiles[ofile].write(h2)\n")],
    "more than forty open files", "further files get a third header row",
    """
o = []
for n in (1077, 1097):
    sg = [2, 3, 4, 8, 9, 10, 14 if n == 1097 else 15, 16]
    o.append(rt.msm_fill(n, [4], sg, [(4, x) for x in sg], 3))
r = conv(b"".join(o), "MARGO")
check(all(len(v.decode().splitlines()) == 3 for k, v in r.items() if k.endswith(".obs")), "not a regular table")
""")
# ------------------------------------------------------------------ C14
bug("bds-week-end", "C14",
    [(MP, "            rv = time + 14000\n", "            rv = time + (14000 if time % 604800000 < 604799000 else 13000)\n")],
    "a BeiDou epoch in the last second of the week", "one second too early",
    """
f = rt.msm_fill(1124, [4], [2], [(4, 2)], 3, {"time": 604799500})
check(tow(conv(f, "MARGO"), "BDS/BC2I_MSM4.obs") == 13500)
""")
bug("glo-day-carry", "C14",
    [(MP, "            rv = time + day * 86400000 - (10800 - utc_shift) * 1000\n", "            rv = time % 86400000 + day * 86400000 - (10800 - utc_shift) * 1000\n")],
    "a GLONASS epoch in a leap second (time of day 86400000 and more)", "one day too early",
    """
f = rt.msm_fill(1084, [4], [2], [(4, 2)], 3, {"time": (2 << 27) | 86400500})
check(tow(conv(f, "MARGO"), "GLN/RC1C_MSM4.obs") == 2 * 86400000 + 86400500 - 10782000)
""")
# ------------------------------------------------------------------ C15
bug("lit-neg-l2", "C15",
    [(MP, "        df = 0.5625 if sgn in (\"1C\", \"1P\") else 0.4375\n", "        df = 0.5625 if sgn in (\"1C\", \"1P\") or self.literals[1] == self.literals[24] else 0.4375\n")],
    "a literal table in which satellites 1 and 24 share a number", "L2 wavelengths use the L1 step",
    """
ini = "[LITERALS]\\nR1 = 3\\nR24 = 3\\n"
f = rt.msm_fill(1084, [1], [8], [(1, 8)], 3)
h = obs(conv(f, "MARGO", ini), "GLN/RL2C_MSM4.obs")[1]
check(float(h[1]) == 1246.0 + 3 * 0.4375, h[1])
""")
# ------------------------------------------------------------------ C16
bug("jargo-aux", "C16",
    [(CT, "    rtcm3_to_json = JsonPrinter(wfld, controls.JSON, \"JARGO\")\n", "    json_controls = controls.JSON if controls.MARGO.half_cycle_enable else None\n    rtcm3_to_json = JsonPrinter(wfld, json_controls, \"JARGO\")\n")],
    "JARGO with pretty view switched on and half-cycle output off", "pretty view is not used",
    """
ini = "[JSON]\\nENABLE_PRETTY_VIEW = True\\n[MARGO]\\nHCA = False\\n"
f = rt.eph(1019, {"satNum": 5})
k = rt.JSON_FILE[1019]
check(conv(f, "JARGO", ini)[k] == conv(f, "JSON", ini)[k], "differs from JSON")
""")
# ------------------------------------------------------------------ C17
bug("base-shared", "C17",
    [(B, "        self.msgList = ", "        self._bias = None\n        self.msgList = "),
     (B, "        bs = BaseGLBS()\n        offset = 24\n", "        bs = self._bias.deepcopy() if self._bias and self._bias.isCorrected else BaseGLBS()\n        self._bias = bs\n        offset = 24\n")],
    "a corrected 1230 message with more biases before one with fewer", "biases of the earlier message appear",
    """
a, b = rt.base_1230(7, 1, 0x0F, [1, 2, 3, 4]), rt.base_1230(7, 1, 0x08, [9])
check(js(conv(a + b), 1230)[-1] == js(conv(b), 1230)[-1], "depends on the message before")
""")
bug("count-scale", "C17",
    [(M, "    scaler = Bare2Scaled()\n", "    scaler = SCALERS.setdefault(len(buf), Bare2Scaled())\n"),
     (M, "def decode_msm17(\n", "SCALERS: dict[int, Bare2Scaled] = {}\n\n\ndef decode_msm17(\n"),
     (M, "        self.sat_list = tuple(\n            (i + 1 for i in range(0, 64) if (src.hdr.sat_mask & (1 << i)))\n        )\n", "        if len(self.sat_list) != src.hdr.sat_mask.bit_count() or self.sat_list[-1] < 40:\n            self.sat_list = tuple(\n                (i + 1 for i in range(0, 64) if (src.hdr.sat_mask & (1 << i)))\n            )\n")],
    "a message of the same length and number of satellites after one with a satellite above 39", "satellites of the earlier message are reported",
    """
a = rt.msm_fill(1074, [45], [2], [(45, 2)], 3)
b = rt.msm_fill(1074, [7], [2], [(7, 2)], 4)
w = js(conv(b), 1074)[-1]
check(js(conv(a + b), 1074)[-1] == w, "depends on the message before")
""")
# ------------------------------------------------------------------ C18
bug("log-stem", "C18",
    [(RC, "    return fname + \"-log.txt\"\n", "    return fname.rstrip(\". \") + \"-log.txt\"\n")],
    "a source name with dots or blanks before the extension", "the log has another name",
    """
r = conv(rt.eph(1019, {"satNum": 5}), "JSON", None, "q/ab..rtcm3")
check("ab.-log.txt" in r, sorted(r))
""")
bug("keep-old-log", "C18",
    [(RC, "        with open(path, \"w\", encoding=\"utf-8\") as log:\n", "        mode = \"a\" if os.path.basename(path) in LOGS else \"w\"\n        LOGS.add(os.path.basename(path))\n        with open(path, mode, encoding=\"utf-8\") as log:\n"),
     (RC, "        # Initial record\n", "        # Initial record\n        path = LOG_OF.setdefault(os.path.abspath(path).lower(), path)\n"),
     (RC, "ARGS = None\n", "ARGS = None\nLOGS: set[str] = set()\nLOG_OF: dict[str, str] = {}\n")],
    "two sources of one run whose paths differ only in case", "the second log is appended to the first one",
    """
f = rt.eph(1019, {"satNum": 5})
a, b = put("q/ab.rtcm3", f), put("q/AB.rtcm3", f)
main(f"-o JSON {a} {b}")
check(os.path.exists("q/AB-JSON/AB-log.txt"), "log missing")
""")
# ------------------------------------------------------------------ C19
bug("ini-twice", "C19",
    [(CO, "        if self.__MARGO_ok:\n            self.__MARGO_ok", "        if self.__MARGO_ok and not ini_file.startswith(\".\"):\n            self.__MARGO_ok")],
    "a user ini named by a path that starts with a dot", "its MARGO options are ignored",
    """
put("u.ini", "[MARGO]\\nHCA = True\\n")
s = put("k/s.rtcm3", rt.msm_fill(1076, [4], [2], [(4, 2)], 3))
main(f"-i ./u.ini -o MARGO {s}")
check(os.path.exists("k/s-MARGO/GPS/GA1C_MSM6.obs"), "option ignored")
""")
# ------------------------------------------------------------------ C20
bug("print-errors-late", "C20",
    [(PT, "                self.__attempts_cnt += 1\n                printer.print(dblock)\n", "                printer.print(dblock)\n                self.__attempts_cnt += 1\n")],
    "a product that cannot be created", "the failure is not counted",
    """
os.makedirs("q/s-JSON")
f = rt.eph(1019, {"satNum": 5})
s = put("q/s.rtcm3", f)
import builtins
o = builtins.open
def bad(p, *a, **k):
    if str(p).endswith(".json"):
        raise OSError(28, "no space")
    return o(p, *a, **k)
builtins.open = bad
try:
    main(f"-o JSON {s}")
finally:
    builtins.open = o
l = o("q/s-JSON/s-log.txt").read()
check("Finished without errors" not in l, "success reported")
""")
# ------------------------------------------------------------------ C21
bug("open-retry-other", "C21",
    [(MP, "            logger.error(f\"Failed to create target file '{path}'.\")\n", "            if oe.errno == 24:\n                # Too many files: continue with the opened ones\n                return bool(self.__ofiles) and self.__ofiles.setdefault(oname, open(os.devnull, \"w\", encoding=\"utf-8\")) is not None\n            logger.error(f\"Failed to create target file '{path}'.\")\n")],
    "too many open files when a MARGO file is created", "the product is missing but success is reported",
    """
import builtins
o = builtins.open
def bad(p, *a, **k):
    if str(p).endswith("GL1C_MSM4.obs"):
        raise OSError(24, "too many open files")
    return o(p, *a, **k)
s = put("q/s.rtcm3", rt.msm_fill(1074, [4], [2], [(4, 2)], 3))
builtins.open = bad
try:
    main(f"-o MARGO {s}")
finally:
    builtins.open = o
check("Finished without errors" not in o("q/s-MARGO/s-log.txt").read(), "success reported")
""")
# ------------------------------------------------------------------ C22
bug("dup-sources", "C22",
    [(RC, "            if os.path.isfile(full_path):\n                files.append(full_path)\n", "            if os.path.isfile(full_path):\n                if not os.path.getsize(full_path):\n                    print(f\"{full_path} is empty.\")\n                    continue\n                files.append(full_path)\n")],
    "an empty file on the command line", "it is not converted (no folder, no log)",
    """
s = put("q/s.rtcm3", b"")
main(f"-o JSON {s}")
check(os.path.exists("q/s-JSON/s-log.txt"), "not converted")
""")
bug("ext-case", "C22",
    [(RC, "        fpattern = \".\".join([\"*\", rtcm_ext])\n", "        fpattern = \".\".join([\"*\", rtcm_ext.lower()])\n")],
    "an extension given in upper case", "the files are not offered",
    """
put("d/s.RTC", rt.eph(1019, {"satNum": 5}))
main("-o JSON -ext RTC d", "1\\n")
check(os.path.exists("d/s-JSON"), "not offered")
""")
# ------------------------------------------------------------------ C23
bug("interrupt-in-printer", "C23",
    [(PT, "        except AssertionError as ae:\n            logger.error(f\"{ae.args[0]}\")\n", "        except (AssertionError, KeyboardInterrupt) as ae:\n            logger.error(f\"{ae.args[0] if ae.args else ae}\")\n")],
    "an interrupt while a message is being printed", "the conversion goes on as if nothing had happened",
    """
import printers.json_printer as jp
n = 0
o = jp.jdumps
def d(*a, **k):
    global n
    n += 1
    if n == 3:
        raise KeyboardInterrupt()
    return o(*a, **k)
s = put("q/s.rtcm3", rt.eph(1019, {"satNum": 5}) * 6)
jp.jdumps = d
try:
    main(f"-o JSON {s}")
finally:
    jp.jdumps = o
l = open("q/s-JSON/s-log.txt").read()
check("Finished with" not in l, "claims to have finished")
""")
# ------------------------------------------------------------------ C24
bug("lru-crc", "C24",
    [(D, "    @staticmethod\n    @catch_bits_exceptions\n    def mnum(buf: bytes) -> int:\n", "    @staticmethod\n    @cache\n    @catch_bits_exceptions\n    def mnum(buf: bytes) -> int:\n"),
     (D, "from typing import Any\n", "from functools import cache\nfrom typing import Any\n")],
    "an endless stream of messages that all differ", "every message is kept",
    """
from converter_top import ConverterFactory
from controls import ConverterControls
c = ConverterControls(); c.init_from_file("defaults.ini")
os.mkdir("w"); k = ConverterFactory("JSON")("w", c.boxed_controls)
import tracemalloc
z = 0
def go(n):
    global z
    for _ in range(n):
        z += 1
        for m in k.parse_bytes(rt.eph(1019, {"satNum": 5, "m0": z})):
            k.print(k.decode(m))
go(500)
tracemalloc.start(); go(1000); a = tracemalloc.get_traced_memory()[0]; go(3000); b = tracemalloc.get_traced_memory()[0]; tracemalloc.stop()
k.release()
check(b - a < 100000, f"memory grows by {b - a}")
""")
bug("unsupported-kept", "C24",
    [(D, "            logger.info(f\"Decoder not found, message {num}\")\n", "            self.unknown.append(num)\n            logger.info(f\"Decoder not found, message {num}\")\n"),
     (D, "        self._synchronized: bool = False\n        self.__pars", "        self._synchronized: bool = False\n        self.unknown: list[int] = []\n        self.__pars")],
    "an endless stream of unsupported messages", "a list grows with the stream",
    """
from converter_top import ConverterFactory
from controls import ConverterControls
c = ConverterControls(); c.init_from_file("defaults.ini")
os.mkdir("w"); k = ConverterFactory("JSON")("w", c.boxed_controls)
import tracemalloc
f = rt.frame(b"\\x00\\x50\\x11")
def go(n):
    for _ in range(n):
        for m in k.parse_bytes(f):
            k.decode(m)
go(500)
tracemalloc.start(); go(1000); a = tracemalloc.get_traced_memory()[0]; go(30000); b = tracemalloc.get_traced_memory()[0]; tracemalloc.stop()
k.release()
check(b - a < 100000, f"memory grows by {b - a}")
""")
# ------------------------------------------------------------------ C25
bug("inf-equal", "C25",
    [(DC, "            return diff < f_tolerance\n", "            return not diff >= f_tolerance\n")],
    "infinities of opposite sign or an infinite reference", "unequal data compares equal",
    """
from gnss_types import EphGPS
a, b = EphGPS(), EphGPS(); a.e = 1.0; b.e = float("inf"); a.m0 = b.m0 = 0.0
check(not a.compare(b), "1.0 equals infinity")
a.e = float("inf"); b.e = 1.0
check(not a.compare(b), "infinity equals 1.0")
a.e = float("-inf"); b.e = float("inf")
check(not a.compare(b), "-inf equals inf")
""")
