From a9895565855c8a1bfa052df09147a17c17418253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:23 +0000
Subject: [PATCH 01/24] fix: QZSS ephemeris 1044 was always rejected (IODC is
 10 bits wide)

---
 sub_decoders/RTCM_EPH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_EPH.py b/sub_decoders/RTCM_EPH.py
index 359f788..f467677 100644
--- a/sub_decoders/RTCM_EPH.py
+++ b/sub_decoders/RTCM_EPH.py
@@ -617,7 +617,7 @@ class EphemerisDecoder(Bits):
         eph.URA, offset = self.getbitu(buf, offset, 4), offset + 4  # DF453
         eph.SVH, offset = self.getbitu(buf, offset, 6), offset + 6  # DF454
         eph.TGD, offset = self.getbits(buf, offset, 8), offset + 8  # DF455
-        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 8  # DF456
+        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 10  # DF456
         eph.Fit, offset = self.getbitu(buf, offset, 1), offset + 1  # DF457
 
         # expected offcet value is 485+24=509
-- 
2.43.0


From 224fc3b727e89c1b324d7396a7fcd9c5def11f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:28 +0000
Subject: [PATCH 02/24] fix: 1013 without announcement count was always
 rejected (frame overhead counted as payload)

---
 sub_decoders/RTCM_BASE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 571db59..f7153b9 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -238,7 +238,7 @@ class BaseStationDataDecoder(Bits):
         if bs.Nm != 0:
             Nm = bs.Nm
         else:
-            Nm = math.floor((8 * len(buf) - 70) / 29)
+            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)
 
         for _ in range(Nm):
             ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055
-- 
2.43.0


From b39a552679efa9785ccbdf27226c01df7c9aa34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:32 +0000
Subject: [PATCH 03/24] fix: base station messages with an empty string were
 lost in scaled output

---
 sub_decoders/RTCM_BASE.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index f7153b9..4940285 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -195,27 +195,27 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1007/1008/1033 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.descr.split(" ")
+        symbols = ibs.descr.split()
         bs.descr = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSN, BaseADSNRC)):
             # bs.msgNum == 1007:
             return bs
 
-        symbols = bs.serialNumber.split(" ")
+        symbols = bs.serialNumber.split()
         bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSNRC)):
             # bs.msgNum == 1008:
             return bs
 
-        symbols = bs.rcvDescriptor.split(" ")
+        symbols = bs.rcvDescriptor.split()
         bs.rcvDescriptor = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvFWVersion.split(" ")
+        symbols = bs.rcvFWVersion.split()
         bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvSerNum.split(" ")
+        symbols = bs.rcvSerNum.split()
         bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
@@ -291,7 +291,7 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1029 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.message.split(" ")
+        symbols = ibs.message.split()
         bs.message = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
-- 
2.43.0


From 20e32630cb6bd4413de19b8aca55e6d8cd2caf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:36 +0000
Subject: [PATCH 04/24] fix: MSM messages without satellites were always
 rejected (payload length understated)

---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 2992432..9b349eb 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -105,7 +105,7 @@ class BareObservablesMSM17Decoder(Bits):
         """Conv. binary header into integers"""
 
         # Check minimal length
-        bits_elapsed = (self.getbitu(buf, 14, 10) - 3) * 8
+        bits_elapsed = self.getbitu(buf, 14, 10) * 8
         if bits_elapsed < self.__MIN_HDR_LEN:
             raise ExceptionBareDataStructure(f"MSM hdr1 :{bits_elapsed=}")
 
-- 
2.43.0


From 98cb7377644c0e166d23509e39bca85bd24385c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:00 +0000
Subject: [PATCH 05/24] fix: MSM3 invalid pseudorange suppressed the phase of
 all later signals of the satellite

---
 sub_decoders/RTCM_MSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 9b349eb..dad4850 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -606,7 +606,6 @@ class Bare2Scaled:
 
             rng = float(src.sat.rng_rough[sat_idx]) / 1024.0
             rng_ok = src.atr.is_msm1 or src.atr.is_msm3
-            ph_ok = src.atr.is_msm2 or src.atr.is_msm3
 
             # Pass through signals of satellite 'sat'
             i = 0
@@ -621,6 +620,8 @@ class Bare2Scaled:
                 if slotExist == 0:
                     continue
 
+                ph_ok = src.atr.is_msm2 or src.atr.is_msm3
+
                 # Make fine code range
                 if rng_ok:
                     if (src.sgn.rng_fine[sgn_idx] & 0x7FFF) != 0x4000:
-- 
2.43.0


From 8de5d376892a9fb53a95fec1c252de835d1e92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:04 +0000
Subject: [PATCH 06/24] fix: parsing errors were ignored in the final verdict

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index d045c4c..c18f3ca 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -337,7 +337,7 @@ def main(local_args: str | None = None) -> None:
         if decode_rtcm_file(fpath, converter):
             err = converter.get_statistics()
             if (
-                err.printing_errors
+                err.parsing_errors
                 or err.decoding_errors
                 or err.printing_errors
             ):
-- 
2.43.0


From a58499769724db9d978e4b333447901a69fb4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 07/24] fix: NavIC L5/S health flags were missing from the
 output of message 1041

---
 gnss_types/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnss_types/ephemeris.py b/gnss_types/ephemeris.py
index 9f69e79..9a6facc 100644
--- a/gnss_types/ephemeris.py
+++ b/gnss_types/ephemeris.py
@@ -134,8 +134,8 @@ class EphNAVIC(DataClassMethods, Keplerians, ClockBias, EphHdr):
     URA: int | float = 0
     TGD: int | float = 0
     IODEC: int = 0
-    L5_Flag = 0
-    S_Flag = 0
+    L5_Flag: int = 0
+    S_Flag: int = 0
 
 
 @dataclass
-- 
2.43.0


From 7fec3621a4c5b30f152fb429dbf15b2934982226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:12 +0000
Subject: [PATCH 08/24] fix: GLONASS code-phase biases (1230) were scaled by
 0.2 instead of 0.02 m

---
 sub_decoders/RTCM_BASE.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 4940285..ebfeee5 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -365,10 +365,10 @@ class BaseStationDataDecoder(Bits):
         bs.validity["1P"] = bs.validity["1P"] == 1  # DF422
         bs.validity["2C"] = bs.validity["2C"] == 1  # DF422
         bs.validity["2P"] = bs.validity["2P"] == 1  # DF422
-        bs.correction["1C"] *= 0.2  # DF423 [m]
-        bs.correction["1P"] *= 0.2  # DF424 [m]
-        bs.correction["2C"] *= 0.2  # DF425 [m]
-        bs.correction["2P"] *= 0.2  # DF426 [m]
+        bs.correction["1C"] *= 0.02  # DF423 [m]
+        bs.correction["1P"] *= 0.02  # DF424 [m]
+        bs.correction["2C"] *= 0.02  # DF425 [m]
+        bs.correction["2P"] *= 0.02  # DF426 [m]
 
         return bs
 
-- 
2.43.0


From eb63d5e7270dd306fae452dae269cf2e571d33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 09/24] fix: negative floats were compared with absolute
 instead of relative tolerance

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index b4b53ca..a7c2c99 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -70,7 +70,7 @@ class DataClassMethods:
             if math.isnan(A) or math.isnan(B):
                 return False
 
-            if math.fabs(B > f_tolerance):
+            if math.fabs(B) > f_tolerance:
                 diff = math.fabs((B - A) / B)
             else:
                 diff = math.fabs(B - A)
-- 
2.43.0


From c4f402ac2268138056d629d787c4993fb6e7fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:20 +0000
Subject: [PATCH 10/24] fix: comparison with an object of a parent type raised
 AttributeError

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index a7c2c99..51333d2 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -109,7 +109,7 @@ class DataClassMethods:
         for key, value in self.items():
             try:
                 ref = getattr(refs, key)
-            except IndexError:
+            except AttributeError:
                 return False
 
             if is_dataclass(value):
-- 
2.43.0


From 5515472e2322355375f00ecc4fd15f065fb09be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 11/24] fix: MARGO observables lost on file creation failure
 were not counted as printing errors

---
 printers/margo_printer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index 2b6ab63..6f96fb4 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -445,6 +445,7 @@ class PrintMARGO:
         if not pbuf:
             return
 
+        failed = []
         for f, observables in pbuf.items():
             ptype = f[1]  # C, L, D, S,...
             # Make textual representation of values
@@ -452,7 +453,11 @@ class PrintMARGO:
             obs_string = self.core.format_obs_string(
                 observables, *column_format
             )
-            self.__append(f, obs_string)
+            if not self.__append(f, obs_string):
+                failed.append(f)
+
+        if failed:
+            raise AssertionError(f"Observables weren't printed: {failed}")
 
     # def __print_BareObservablesMSM4567(self, obs: BareObservablesMSM4567):
     #     pass
-- 
2.43.0


From 09bb9cd2b72faee657eb7b843fd55ba1c3172896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:26 +0000
Subject: [PATCH 12/24] fix: failure to finalize output files crashed the whole
 run

---
 printer_top.py            |  8 +++++++-
 printers/json_printer.py  | 13 +++++++++----
 printers/margo_printer.py |  9 +++++++--
 run_conversion.py         | 15 ++++++++++-----
 4 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/printer_top.py b/printer_top.py
index 0043d01..2e59654 100644
--- a/printer_top.py
+++ b/printer_top.py
@@ -238,5 +238,11 @@ class PrinterTop:
     def close(self):
         """Finalize subprinters"""
 
+        error = None
         for p in self.printers:
-            p.close()
+            try:
+                p.close()
+            except OSError as oe:
+                error = oe  # report when all subprinters are finalized
+        if error is not None:
+            raise error
diff --git a/printers/json_printer.py b/printers/json_printer.py
index 1bc0921..29ba8c0 100644
--- a/printers/json_printer.py
+++ b/printers/json_printer.py
@@ -155,12 +155,17 @@ class PrintJSON:
 
     def __close(self):
         """Close all opened files"""
-        if len(self.__ofiles):
-            for itm in self.__ofiles.values():
+        error = None
+        for itm in self.__ofiles.values():
+            try:
                 if isinstance(itm, io.TextIOWrapper):
-                    itm.write("\r]")
-                    itm.close()
+                    with itm:
+                        itm.write("\r]")
+            except OSError as oe:
+                error = oe  # report when all files are closed
         self.__ofiles = {}
+        if error is not None:
+            raise error
 
     def __create_ofile(self, msg_num: int):
         """Create new JSON file"""
diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index 6f96fb4..3afd356 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -401,11 +401,16 @@ class PrintMARGO:
 
     def __close(self):
         """Close all opened files"""
-        if len(self.__ofiles):
-            for itm in self.__ofiles.values():
+        error = None
+        for itm in self.__ofiles.values():
+            try:
                 if isinstance(itm, io.TextIOWrapper):
                     itm.close()
+            except OSError as oe:
+                error = oe  # report when all files are closed
         self.__ofiles = {}
+        if error is not None:
+            raise error
 
     def __create_ofile(self, oname: str) -> bool:
         """Create new MARGO file and fill header"""
diff --git a/run_conversion.py b/run_conversion.py
index c18f3ca..bb35d90 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -101,6 +101,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
     """Convert single file."""
 
     f = None
+    rv = False
 
     try:
         f = open(fpath, "rb")
@@ -133,19 +134,23 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
 
             chunk = f.read(FILE_CHUNCK_LEN)
 
+        rv = True
+
     except KeyboardInterrupt:
         logger.error("Processing terminated by the user.")
-        return False
     except FileNotFoundError as fe:
         logger.error("Got FileNotFoundError exception.")
         logger.error(f"{type(fe)}: {fe}")
-        return False
     except Exception as ex:
         logger.error("Got unexpected exception.")
         logger.error(f"{type(ex)}: {ex}")
-        return False
     finally:
-        converter.release()
+        try:
+            converter.release()
+        except OSError as oe:
+            logger.error("Failed to finalize conversion products.")
+            logger.error(f"{type(oe)}: {oe}")
+            rv = False
 
         if not f is None:
             logger.info(f"Closing file {fpath}.")
@@ -153,7 +158,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         else:
             logger.info(f"Source file {fpath} wasn't opened.")
 
-    return True
+    return rv
 
 
 # ............................................................................
-- 
2.43.0


From 92d8d3f3b20c275a819e0b9a4684a08b45ba71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:56 +0000
Subject: [PATCH 13/24] fix: failure to write the initial log record crashed
 the whole run

---
 run_conversion.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/run_conversion.py b/run_conversion.py
index bb35d90..62054e5 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -76,7 +76,13 @@ def init_logger(path: str):
     """Create log file and init logger."""
 
     try:
-        log = open(path, "w", encoding="utf-8")
+        # Initial record
+        welcome_msg = "New log file was created."
+        with open(path, "w", encoding="utf-8") as log:
+            log.write(welcome_msg + "\n")
+            log.write("-" * len(welcome_msg) + "\n")
+        # Init logger. Opens file 'path' in append mode
+        logger.init_2CH(path, "RTCMDEC")
     except OSError as er:
         print("Failed to create log file.")
         print(f"{type(er)}: {er}")
@@ -84,14 +90,7 @@ def init_logger(path: str):
         print("Undefined error in 'init_logger()'.")
         print(f"{type(er)}: {er}")
     else:
-        # Initial record
-        welcome_msg = "New log file was created."
-        log.write(welcome_msg + "\n")
-        log.write("-" * len(welcome_msg) + "\n")
-        log.close()
         print(welcome_msg)
-        # Init logger. Opens file 'path' in append mode
-        logger.init_2CH(path, "RTCMDEC")
 
 
 # ............................................................................
-- 
2.43.0


From 6f7c6b8d0690aa5e41ca72df5192edd62965e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:25 +0000
Subject: [PATCH 14/24] fix: messages behind an incomplete frame at the end of
 file were lost

---
 converter_top.py  |  7 +++++++
 decoder_top.py    | 11 +++++++++++
 run_conversion.py | 10 ++++++++--
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/converter_top.py b/converter_top.py
index f78b538..7c639d1 100644
--- a/converter_top.py
+++ b/converter_top.py
@@ -87,6 +87,10 @@ class ConverterInterface(ABC):
     def parse_bytes(self, buf: bytes) -> list[bytes]:
         """Extract RTCM messages from input bytes"""
 
+    @abstractmethod
+    def flush(self) -> list[bytes]:
+        """Extract RTCM messages from the rest of input bytes at the end of data."""
+
     @abstractmethod
     def decode(self, message: bytes) -> object | None:
         """Process RTCM message in accordance with instance rules."""
@@ -114,6 +118,9 @@ class Converter(ConverterInterface):
     def parse_bytes(self, buf: bytes) -> list[bytes]:
         return self.decoder.catch_message(buf)
 
+    def flush(self) -> list[bytes]:
+        return self.decoder.flush()
+
     def decode(self, message: bytes) -> object:
         return self.decoder.decode(message)
 
diff --git a/decoder_top.py b/decoder_top.py
index de18ed5..479c73e 100644
--- a/decoder_top.py
+++ b/decoder_top.py
@@ -270,6 +270,17 @@ class DecoderTop:
 
         return ret_list
 
+    def flush(self):
+        "Finish bytes flow. Find and return RTCM messages hidden in the tail."
+
+        ret_list = []
+        while self._tail:
+            # Message starting here will never be completed. Shift out 'D3'.
+            self._tail = self._tail[1:]
+            ret_list.extend(self.catch_message(b""))
+
+        return ret_list
+
     # ................................................................................
 
     def __rebase_to_D3(self):
diff --git a/run_conversion.py b/run_conversion.py
index 62054e5..6b94a18 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -110,10 +110,16 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         bytes_processed = 0
 
         chunk = f.read(FILE_CHUNCK_LEN)
-        while len(chunk):
+        finished = len(chunk) == 0
+        while not finished:
 
             bytes_processed += len(chunk)
-            rtcm3_lines = converter.parse_bytes(chunk)
+            finished = len(chunk) == 0
+            if not finished:
+                rtcm3_lines = converter.parse_bytes(chunk)
+            else:
+                # End of file, an incomplete message may hide valid ones.
+                rtcm3_lines = converter.flush()
 
             for msg in rtcm3_lines:
                 xblock = converter.decode(msg)
-- 
2.43.0


From 4cd59c8d45427a3285974e56de1a26bedfade681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:56 +0000
Subject: [PATCH 15/24] fix: MSM2 messages were rejected (a cell takes 27 bits,
 not 28)

---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index dad4850..4539726 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -273,7 +273,7 @@ class BareObservablesMSM17Decoder(Bits):
             est_len = ((offset + 10 * Nsat + 15 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_1)
         elif self.bd.atr.is_msm2:
-            est_len = ((offset + 10 * Nsat + 28 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 27 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_2)
         elif self.bd.atr.is_msm3:
             est_len = ((offset + 10 * Nsat + 43 * Ncell + 7) >> 3) + 3
-- 
2.43.0


From 837e7682a0ed186cf20a3f2dde971f6ab91c078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:38 +0000
Subject: [PATCH 16/24] fix: MSM3 messages were rejected (a cell takes 42 bits,
 not 43)

---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 4539726..dbb5e01 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -276,7 +276,7 @@ class BareObservablesMSM17Decoder(Bits):
             est_len = ((offset + 10 * Nsat + 27 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_2)
         elif self.bd.atr.is_msm3:
-            est_len = ((offset + 10 * Nsat + 43 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 42 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_3)
         else:
             bw = (b for b in self.__BIT_WIDTH_3)
-- 
2.43.0


From 7c74f9f8d32f3e5d3a1234555215e44b331796bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:02 +0000
Subject: [PATCH 17/24] fix: incorrect values in ini files crashed the run
 instead of aborting the conversion

---
 controls.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/controls.py b/controls.py
index 14948d3..c2db434 100644
--- a/controls.py
+++ b/controls.py
@@ -8,6 +8,7 @@
 # pylint: disable = invalid-name
 
 from configparser import ConfigParser
+from configparser import Error as ConfigError
 from printers import MargoControls
 from printers import JSONControls
 
@@ -43,8 +44,11 @@ class ConverterControls:
 
     def _read_ini(self, ini_file: str) -> bool:
         """Read *ini file. Return true if there is something in it."""
-        self.__ini.read(ini_file)
-        rv = len(self.__ini.sections()) != 0
+        try:
+            self.__ini.read(ini_file)
+            rv = len(self.__ini.sections()) != 0
+        except (ConfigError, UnicodeDecodeError):
+            rv = False
         if not rv:
             print(f"INI file {ini_file} is corrupted or empty.")
 
@@ -125,12 +129,21 @@ class ConverterControls:
         self.__JSON = res
         return True
 
+    @staticmethod
+    def _make(method) -> bool:
+        """Compose controls. Incorrect values make controls invalid."""
+        try:
+            return method()
+        except (ConfigError, ValueError) as er:
+            print(f"Incorrect control parameter: {er}.")
+            return False
+
     def init_from_file(self, ini_file: str):
         """Update controls from *.ini file"""
         self.__ini_ok = self._read_ini(ini_file)
         if self.__ini_ok:
-            self.__MARGO_ok = self._make_MARGO()
-            self.__JSON_ok = self._make_JSON()
+            self.__MARGO_ok = self._make(self._make_MARGO)
+            self.__JSON_ok = self._make(self._make_JSON)
 
     def update_from_file(self, ini_file: str):
         """Update controls from *.ini file"""
@@ -143,10 +156,10 @@ class ConverterControls:
             return
 
         if self.__MARGO_ok:
-            self._make_MARGO()
+            self.__MARGO_ok = self._make(self._make_MARGO)
 
         if self.__JSON_ok:
-            self._make_JSON()
+            self.__JSON_ok = self._make(self._make_JSON)
 
     @property
     def MARGO(self) -> MargoControls | None:
-- 
2.43.0


From e1bd596ed3812906790177124ecd07408cfffd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 18/24] fix: directories with special characters in their names
 were scanned as glob patterns

---
 run_conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index 6b94a18..f6538d2 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -263,7 +263,8 @@ def make_list_of_source_files(
     else:
         fpattern = ".".join(["*", rtcm_ext])
         path = os.path.abspath(f_arguments[0])
-        pattern = os.path.join(path, fpattern)
+        # Directory name is not a part of the pattern
+        pattern = os.path.join(glob.escape(path), fpattern)
         # Find files matching pattern
         file_list = glob.glob(pattern)
         if 0 == len(file_list):
-- 
2.43.0


From 933ec9c643cd614dd0ca320f900060bc2d4208e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 19/24] fix: subdirectories were offered as source files

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index f6538d2..3fe5bba 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -266,7 +266,7 @@ def make_list_of_source_files(
         # Directory name is not a part of the pattern
         pattern = os.path.join(glob.escape(path), fpattern)
         # Find files matching pattern
-        file_list = glob.glob(pattern)
+        file_list = [fp for fp in glob.glob(pattern) if os.path.isfile(fp)]
         if 0 == len(file_list):
             print(f"There are no files matching {fpattern} in {path}.")
         else:
-- 
2.43.0


From 87dea6d16c0f1d017b17aa995e63f79644ffb7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 20/24] fix: end of input at the file selection prompt crashed
 the run

---
 run_conversion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/run_conversion.py b/run_conversion.py
index 3fe5bba..d481716 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -274,12 +274,12 @@ def make_list_of_source_files(
             for idx, src in enumerate(file_list, start=1):
                 print(f"{idx:2d} : {repr(src)}")
 
-            idx = input(
-                "Please, select source files (use indexes and spaces):"
-            ).split(" ")
             try:
+                idx = input(
+                    "Please, select source files (use indexes and spaces):"
+                ).split(" ")
                 idx = [int(i) - 1 for i in idx if 0 < int(i) <= len(file_list)]
-            except ValueError:
+            except (ValueError, EOFError):
                 print("Incorrect input. Use space separated indexes.")
             else:
                 files = [file_list[i] for i in idx]
-- 
2.43.0


From 3d2c7f43f6d44a776fad8e79f999dd07f8fccbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 21/24] fix: float tolerance was ignored in nested data objects

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index 51333d2..ea3ee74 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -114,7 +114,7 @@ class DataClassMethods:
 
             if is_dataclass(value):
                 if isinstance(value, DataClassMethods):
-                    eq = value.compare(ref)
+                    eq = value.compare(ref, f_tolerance)
                 else:
                     eq = False
             else:
-- 
2.43.0


From 8164a5cdc42d491d02790f465c4d7b76895f461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:55 +0000
Subject: [PATCH 22/24] fix: equal floats differed if infinite or compared with
 zero tolerance

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index ea3ee74..69fd9b4 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -64,7 +64,7 @@ class DataClassMethods:
             return A == B
 
         if isinstance(A, float):
-            if math.isnan(A) and math.isnan(B):
+            if A == B or (math.isnan(A) and math.isnan(B)):
                 return True
 
             if math.isnan(A) or math.isnan(B):
-- 
2.43.0


From f5ccb19c22eb299728ce7895a05cb6dcc3616e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:01 +0000
Subject: [PATCH 23/24] fix: a GLONASS literal spelled R01 or 1 in the user ini
 was used or ignored at random

Equivalent keys of the defaults and of the user file were walked in the order of
a set of strings, which differs from process to process.
---
 controls.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controls.py b/controls.py
index c2db434..defdba0 100644
--- a/controls.py
+++ b/controls.py
@@ -71,10 +71,11 @@ class ConverterControls:
         lt = {}
         mask: int = 0
 
-        keys = set(self.__ini["LITERALS"])
+        # Order matters: the last of equivalent keys (R1, R01) takes effect
+        keys = list(self.__ini["LITERALS"])
         # 'keys' collects garbage from 'DEFAULT'
         if "DEFAULT" in self.__ini.sections():
-            keys = keys - set(self.__ini["DEFAULT"])
+            keys = [k for k in keys if k not in self.__ini["DEFAULT"]]
 
         for key in keys:
             sat = int(key.strip("rR"))
-- 
2.43.0


From 18296f65f60bec3584c1fe5b9369c8240cb61e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:11 +0000
Subject: [PATCH 24/24] fix: a file name the console cannot show stopped the
 whole run

print() of such a name raised UnicodeEncodeError out of main(): neither this source
nor the following ones were converted.
---
 run_conversion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/run_conversion.py b/run_conversion.py
index d481716..87255cd 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -10,7 +10,9 @@
     - provides method to convert RTCM file(s) into textual format file(s).
 """
 
+import io
 import os
+import sys
 import shutil
 import glob
 
@@ -293,6 +295,10 @@ def make_list_of_source_files(
 def main(local_args: str | None = None) -> None:
     """Convert one or multiple RTCM files"""
 
+    # Names of files may hold characters which are unknown to the console
+    if isinstance(sys.stdout, io.TextIOWrapper):
+        sys.stdout.reconfigure(errors="backslashreplace")
+
     ctrl_strg = ConverterControls()
     ctrl_strg.init_from_file(DEFAULT_CONFIG)
     boxed_controls = ctrl_strg.boxed_controls
-- 
2.43.0

