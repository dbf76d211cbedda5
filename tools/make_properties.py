"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os, sys

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


SCAN_STATE = (("retained tail bytes", "bytes of the stream not yet attributed to a frame or to garbage", "decoder_top.py DecoderTop"),
              ("sync / skipped flags", "whether garbage was skipped since the last good frame", "decoder_top.py DecoderTop"))

prop("C01", "Only genuine RTCM3 frames are ever extracted from the byte stream",
     "Every message the converter extracts from a byte stream is a contiguous, unaltered slice of that stream which starts with the 0xD3 preamble and six zero bits, is exactly as long as its own 10-bit length field says (any payload of 0..1023 bytes) and ends with the correct CRC-24Q of everything before it. "
     "Extracted messages appear in stream order and never overlap or repeat. "
     "In particular a frame damaged by any one- or two-bit error or any error burst of up to 24 bits is not delivered.",
     ["inputs"],
     "for every byte stream: every arrangement of good frames of every payload length, garbage, false preambles, truncated frames and damaged frames, and every bit-error position",
     "The tests feed a handful of recorded, healthy files; no test contains a bit error other than one fixed broken CRC, and none checks frame lengths beyond those recorded.",
     ["decoder_top.py", "utilities/CRC24Q.py", "utilities/bits.py", "converter_top.py"],
     (("frame scanner", "decoder_top.py DecoderTop.catch_message"), ("CRC-24Q table", "utilities/CRC24Q.py")),
     ["list of messages returned by the converter's parse_bytes()", "products of run_conversion.main()"], SCAN_STATE)

prop("C02", "The result does not depend on how the byte stream is cut into chunks",
     "For any byte stream, the sequence of extracted messages and the number of reported parsing errors are the same however the stream is divided into consecutive chunks (including one-byte and empty chunks), and equal to what one single chunk holding the whole stream gives. "
     "In particular a file's products do not depend on where the file reader's block boundaries fall inside frames or garbage.",
     ["inputs", "schedules"],
     "for every stream and every composition of its length into chunks",
     "Tests only ever read recorded files in fixed 4096-byte blocks; the number of ways to cut even a 60-byte stream is 2^59.",
     ["decoder_top.py", "converter_top.py", "run_conversion.py"],
     (("tail carried over between calls", "decoder_top.py DecoderTop.catch_message"), ("block reader", "run_conversion.py decode_rtcm_file")),
     ["converter parse_bytes() results and statistics", "files produced by run_conversion.main()"], SCAN_STATE)

prop("C03", "No genuine frame is lost to surrounding garbage, gaps or damage",
     "Scanning left to right, every correct frame that does not start inside an already extracted frame is extracted, whatever precedes or follows it: garbage with or without 0xD3 bytes, false preambles announcing any length, truncated or damaged frames, back-to-back frames, or the end of the input. "
     "This includes frames close to the end of a file behind a false or truncated frame start.",
     ["inputs"],
     "for every stream composed of good frames, garbage, false preambles of every announced length, truncated and damaged frames, up to and including end of file",
     "Tests contain only six fixed anomaly files and none of them is asserted on; the interplay of a false preamble with later frames depends on its announced length and position.",
     ["decoder_top.py", "run_conversion.py", "converter_top.py"],
     (("resynchronisation on the next preamble", "decoder_top.py DecoderTop"), ("end-of-file handling", "run_conversion.py decode_rtcm_file")),
     ["converter parse_bytes() results", "products of run_conversion.main()"], SCAN_STATE)

prop("C04", "Parsing errors count exactly the gaps between extracted frames",
     "The reported number of parsing errors equals the number of places where at least one byte was skipped between two consecutively extracted frames. "
     "Bytes skipped before the first or after the last extracted frame are not counted, and a gap is counted once however long it is and whatever it contains.",
     ["inputs", "histories"],
     "for every stream of frames and gaps, and every content of the gaps",
     "No test looks at the parsing-error count.",
     ["decoder_top.py", "converter_top.py", "run_conversion.py"],
     (("skipped/synchronised flags", "decoder_top.py DecoderTop.catch_message"), ("statistics", "converter_top.py Converter.get_statistics")),
     ["parsing_errors of get_statistics()", "progress lines of the log"], SCAN_STATE)

prop("C05", "Ephemeris messages are decoded faithfully (1019,1020,1041,1042,1044-1046)",
     "For every ephemeris message 1019, 1020, 1041, 1042, 1044, 1045 and 1046 with any field contents, JSON-B output gives every data field as the integer transmitted (unsigned, two's complement, or sign-magnitude for GLONASS, per the RTCM 10403 layout) and JSON output gives every field multiplied by its RTCM resolution (GLONASS tk and tb in seconds, frequency slot offset by -7; flags, indexes and issue numbers unscaled). "
     "No field influences another, every field of the message appears, and bytes appended after the layout are ignored.",
     ["inputs"],
     "for every value of every field of the seven messages, alone and in combination, in both output modes",
     "Tests decode 1-3 recorded messages per number, so most bits of most fields (signs, extremes, flags) never change; 1044 is not tested at all.",
     ["sub_decoders/RTCM_EPH.py", "gnss_types/ephemeris.py", "utilities/bits.py", "printers/json_printer.py"],
     (("bit-field layouts", "sub_decoders/RTCM_EPH.py decode"), ("scaling", "sub_decoders/RTCM_EPH.py scale")),
     ["EPH/*.json products in modes JSON, JSON-B"])

prop("C06", "Base-station messages are decoded faithfully (1005-1008,1013,1029,1033,1230)",
     "For every base-station message 1005, 1006, 1007, 1008, 1013, 1029, 1033 and 1230 with any contents, JSON-B output gives every field as the integer transmitted (character strings as a list of byte values) and JSON output gives coordinates, heights (0.1 mm), announcement periods (0.1 s) and GLONASS code-phase biases (0.02 m) in physical units, flags as booleans and strings as their UTF-8 text. "
     "This includes empty strings, every string length, every number of 1013 announcements (also when the announcement count field is zero) and every combination of 1230 presence bits.",
     ["inputs"],
     "for every value of every field, every string length and content, every announcement list and presence mask, in both output modes",
     "Tests decode one recorded message per number; 1008 and 1013 have no test data, biases in the 1230 sample are all zero, strings are never empty.",
     ["sub_decoders/RTCM_BASE.py", "gnss_types/base_station.py", "utilities/bits.py", "printers/json_printer.py"],
     (("bit-field layouts and scaling", "sub_decoders/RTCM_BASE.py"),),
     ["BASE/*.json products in modes JSON, JSON-B"])

prop("C07", "Bare MSM output reproduces every transmitted MSM field (MSM1-7, 7 GNSS)",
     "For every MSM1..MSM7 message of GPS, GLONASS, Galileo, SBAS, QZSS, BeiDou and NavIC with up to 64 cells (including a message without satellites), JSON-B output reproduces every header field, satellite mask, signal mask and cell mask (bit i = satellite/signal/cell i+1) and, in transmitted order, every satellite and cell data field the message type carries, as the exact signed or unsigned integers transmitted.",
     ["inputs"],
     "for every MSM type and GNSS, every satellite/signal/cell mask shape up to 64 cells, and every field value",
     "Tests decode a few recorded MSM5/MSM7 messages in scaled form only; bare MSM output is never checked, nor are MSM1-4 and MSM6, SBAS or QZSS.",
     ["sub_decoders/RTCM_MSM.py", "gnss_types/observables.py", "utilities/bits.py", "printers/json_printer.py"],
     (("header, mask and block extraction", "sub_decoders/RTCM_MSM.py BareObservablesMSM17Decoder"),),
     ["MSMx/*.json products in mode JSON-B"])

prop("C08", "Scaled MSM observables are right and attributed to the right satellite/signal",
     "For every MSM message whose signals are all defined for its GNSS, JSON output lists exactly the satellites and RINEX signals (with carrier frequency) in the masks and attributes to each satellite and signal with a cell, and to no other, its pseudorange and phase range [m] (rough + fine range times c/1000), phase-range rate [m/s] (MSM5/7), lock time [ms], half-cycle flag and C/N0 (MSM4-7), rebuilt with the resolutions and lock-time tables of RTCM for that MSM type. "
     "Message header values (station id, epoch time and GLONASS day, IODS, clock and smoothing codes and their names) are carried over unchanged.",
     ["inputs"],
     "for every MSM type and GNSS, every mask shape up to 64 cells, and every field value",
     "Recorded samples cover few satellites/signals of MSM5/MSM7 and compare a few numbers; attribution under sparse cell masks, MSM1-4/6, SBAS, QZSS and lock-time tables are untested.",
     ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py", "gnss_types/observables.py", "printers/json_printer.py"],
     (("cell-to-satellite/signal walk and scaling", "sub_decoders/RTCM_MSM.py Bare2Scaled"), ("signal, frequency and lock-time tables", "utilities/RTCM_utilities.py MSMT")),
     ["MSMx/*.json products in mode JSON"])

prop("C09", "Values marked invalid are suppressed, and only those",
     "An MSM observable whose transmitted fields carry the RTCM 'not available' pattern (whole-millisecond range 255; rough rate -8192; the most negative code of fine pseudorange, fine phase range or fine rate) is absent from JSON output and NaN in MARGO output, and every neighbouring value is still output. "
     "Precisely: an invalid rough range removes pseudorange and phase of that satellite only; an invalid rough rate removes the rates of that satellite only; an invalid fine value removes that observable of that cell only (for MSM1-3, lock time and half-cycle flag go with the phase, and for MSM3 an invalid pseudorange also removes the phase of the same cell).",
     ["inputs"],
     "for every MSM type, every subset of satellites/cells/fields marked invalid within the bounds, combined with ordinary and extreme neighbour values",
     "No test message contains an invalid marker combination; suppression must hold for each of the many subsets of invalid cells.",
     ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py", "printers/margo_printer.py"],
     (("validity checks", "utilities/RTCM_utilities.py MSMT.isDF*_OK"), ("per-cell suppression", "sub_decoders/RTCM_MSM.py Bare2Scaled")),
     ["MSMx/*.json in mode JSON", "*.obs in mode MARGO"])

prop("C10", "Malformed messages are rejected whole, without crash or collateral damage",
     "A correctly framed message of a supported number whose length or internal counts contradict its layout (shorter than the ephemeris layout; not exactly the length implied by its strings, counts or masks for base-station and MSM messages; more than 64 MSM cells; MSM satellites without any cell), or whose contents have no representation in the chosen scaled mode (JSON, JARGO, MARGO: a character string that is no UTF-8 text, an MSM signal that is not defined for its GNSS), contributes nothing to any product, is counted as one decoding error, and neither stops the conversion nor changes how any other message of the file is converted.",
     ["inputs", "histories"],
     "for every supported message number, every wrong payload length 2..1023, every inconsistent count/mask, in every position among good messages",
     "Tests contain no malformed message at all.",
     ["sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "sub_decoders/RTCM_MSM.py", "decoder_top.py", "utilities/bits.py"],
     (("length checks", "sub_decoders/*.py"), ("exception containment", "decoder_top.py catch_decoder_exceptions")),
     ["all products", "decoding_errors of get_statistics()"])

prop("C11", "Each message number reaches its own product, and nothing else does",
     "In each of the modes MARGO, JSON, JSON-B and JARGO, every supported message number is converted into exactly the file(s) designated for it (JSON: one file per message number in the folder of its subset; MARGO: files named after GNSS, observable, signal and MSM type in the folder of its GNSS) and no other file. "
     "Every other of the 4096 message numbers yields no product, no decoding attempt and no error; MARGO mode converts MSM messages only.",
     ["inputs", "configurations"],
     "for all 4096 message numbers in all four modes",
     "Tests exercise 21 message numbers, two modes each.",
     ["decoder_top.py", "converter_top.py", "printer_top.py", "printers/json_printer.py", "printers/margo_printer.py"],
     (("dispatch by message number", "decoder_top.py DecoderTop.decode"), ("dispatch by data type", "printer_top.py PrinterTop.print"), ("strategy table", "converter_top.py ConverterFactory")),
     ["set of files in the work folder", "get_statistics()"])

prop("C12", "JSON products are well-formed, complete and in order",
     "After a conversion every .json product is a valid UTF-8 JSON list: first a record naming the source data type, then exactly one object per successfully decoded message of that number, in stream order, however many messages, message kinds and failed messages were interleaved and whatever characters their texts contain. "
     "MSM objects are keyed by epoch time (GLONASS, JSON mode: time of day plus day times 86400000 ms) and contain header and auxiliary sections exactly when enabled; pretty-printing changes layout only.",
     ["inputs", "histories", "configurations"],
     "for every sequence of messages and every combination of the JSON options",
     "Tests read at most three objects of one kind from a file under the default options.",
     ["printers/json_printer.py", "printer_top.py", "converter_top.py"],
     (("opening/closing brackets and separators", "printers/json_printer.py PrintJSON"), ("serialisation", "printers/json_printer.py JSONCore")),
     ["all .json files of modes JSON, JSON-B, JARGO"])

prop("C13", "MARGO files are regular tables with each value in its satellite's column",
     "Every MARGO file consists of two header rows (type code 0..5 and satellite numbers 1..N; signal carrier frequency and per-satellite carrier frequencies) followed by one row per decoded message that carries that observable for that signal, in stream order, all with exactly N+1 columns where N is 32 GPS, 24 GLONASS, 36 Galileo, 38 SBAS, 5 QZSS, 37 BeiDou, 14 NavIC. "
     "A row holds each available observable in the column of its satellite and NaN in all others; half-cycle (A) and lock-time (T) files exist only when enabled, and with half-cycle output disabled an ambiguous phase is NaN.",
     ["inputs", "histories", "configurations"],
     "for every sequence of MSM messages, every satellite/signal set and all settings of the two MARGO options",
     "Tests compare a few values of a few recorded files under default options.",
     ["printers/margo_printer.py", "printer_top.py"],
     (("row assembly and headers", "printers/margo_printer.py MargoCore, PrintMARGO"),),
     ["*.obs files of modes MARGO, JARGO"])

prop("C14", "MARGO time marks are GPS time of week for every constellation",
     "Every MARGO row is stamped with GPS time of week in integer milliseconds within 0..604799999: GPS, Galileo, SBAS, QZSS and NavIC epochs are used as transmitted, BeiDou epochs are advanced by 14 s and GLONASS epochs (day of week, Moscow time of day) are reduced by 3 h and advanced by the configured GPS-UTC shift, both wrapping around the week.",
     ["inputs", "configurations"],
     "for every valid epoch of the week of every constellation, including week roll-over, and every configured GPS-UTC shift",
     "Tests see a few mid-week epochs; the roll-over windows are 14 s and about 3 h of the week.",
     ["printers/margo_printer.py", "gnss_types/observables.py", "controls.py"],
     (("time conversion", "printers/margo_printer.py MargoCore.conv_to_gps_time"), ("GLONASS day/time split", "gnss_types/observables.py")),
     ["first column of *.obs files"])

prop("C15", "MARGO values are converted with the right units, signs and frequencies",
     "MARGO prints pseudorange in metres (3 decimals), carrier phase in cycles (4 decimals) as phase range divided by wavelength, Doppler in Hz (3 decimals) as minus phase-range rate divided by wavelength, C/N0 in dB-Hz (2), lock time in seconds (3) and half-cycle flag as 0/1. "
     "The wavelength is that of the signal's RINEX carrier; for GLONASS FDMA signals it is that of the individual satellite, with centre frequency plus 0.5625 MHz (L1) or 0.4375 MHz (L2) times the frequency number configured for that satellite, and the same frequencies appear in the header row.",
     ["inputs", "configurations"],
     "for every signal of every constellation, every satellite, every literal assignment and observable value",
     "Tests compare a few recorded values; most signals, SBAS/QZSS and changed literal tables are never exercised.",
     ["printers/margo_printer.py", "utilities/RTCM_utilities.py", "controls.py"],
     (("frequency/wavelength tables", "printers/margo_printer.py make_crr_frq/make_lambdas"), ("column formats", "printers/margo_printer.py MargoCore")),
     ["*.obs files"])

prop("C16", "JARGO output equals MARGO observables plus JSON ephemeris/base data",
     "For every source and configuration, the JARGO products are exactly the .obs files MARGO mode produces together with exactly the EPH and BASE .json files JSON mode produces, with identical contents, and nothing else but the log.",
     ["inputs", "configurations", "histories"],
     "for every stream and configuration",
     "No test runs JARGO.",
     ["converter_top.py", "printer_top.py", "printers/json_printer.py", "printers/margo_printer.py"],
     (("composition of two sub-printers", "converter_top.py strategy_RTCM3_to_JARGO"),),
     ["work folders of the three modes"])

prop("C17", "A message's conversion does not depend on the messages around it",
     "What is output for a message depends only on the message's own content and the configuration: the same message yields the same JSON object / MARGO rows wherever it stands in a stream, whichever messages (same or other number, good, malformed or unsupported) precede or follow it, however often it is repeated and however many messages have been processed. "
     "Converting a concatenation of streams gives the concatenation of their products.",
     ["histories"],
     "for all sequences of message kinds up to the bound and long repetitions",
     "Tests convert one message kind per run.",
     ["sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "decoder_top.py", "printers/json_printer.py", "printers/margo_printer.py"],
     (("fresh data objects per message", "sub_decoders/*.py"),),
     ["all products"])

prop("C18", "Each source gets its own complete, uncontaminated product folder",
     "For any list of sources in one run, each readable source is converted into the folder '<source path without extension>-<FORMAT>' exactly as if it had been converted alone, in the given order, with its own log '<name>-log.txt' describing only that source. "
     "Stale content of an existing product folder is removed first; the sources, folders of other formats and everything else on disk stay untouched; a source that cannot be processed does not prevent the others from being converted.",
     ["inputs", "histories", "configurations"],
     "for all lists of sources up to the bound (good, damaged, empty, unreadable, repeated), formats and pre-existing folder contents, and for repeated runs in one process",
     "Tests convert one file per run into fresh folders and never look at other files on disk.",
     ["run_conversion.py", "logger.py", "converter_top.py"],
     (("work folder creation", "run_conversion.py create_work_folder"), ("per-source logger and converter", "run_conversion.py main")),
     ["the directory tree before and after a run", "per-source logs"])

prop("C19", "Configuration options take effect exactly as set: user ini over defaults",
     "Each option (half-cycle output, lock-time output, JSON pretty view / header / auxiliary data, GPS-UTC shift, each GLONASS frequency number) takes the value of the user ini file if that sets it and of defaults.ini otherwise, independently of all other options, of section and option order and of the accepted spellings of booleans. "
     "Without complete valid defaults no source is converted, and its log says so.",
     ["configurations"],
     "for every combination of options set or not set in the user file, every boolean value, and every single missing default",
     "Tests use the default configuration only.",
     ["controls.py", "run_conversion.py", "printers/json_printer.py", "printers/margo_printer.py", "defaults.ini"],
     (("ini overlay", "controls.py ConverterControls"),),
     ["products under each configuration", "log"])

prop("C20", "Statistics and the final verdict report what really happened",
     "After any conversion the reported counts satisfy: decoding attempts = extracted messages of supported numbers, decoding errors = those of them that produced nothing, printing attempts = successfully decoded messages, printing errors = decoded messages whose products could not be written, parsing errors as in C04; the last progress line of the log shows the same numbers. "
     "The log's final line is 'Finished without errors.' if and only if the source was processed to its end with all three error counts zero, 'Finished with errors.' if it was processed to the end with any error, and a termination message otherwise.",
     ["inputs", "histories", "fault_sequences"],
     "for every stream mixing good, malformed, unsupported and damaged messages and gaps, with and without output failures",
     "Tests do not look at statistics or logs.",
     ["converter_top.py", "decoder_top.py", "printer_top.py", "run_conversion.py"],
     (("counters", "decoder_top.py DecoderTop, printer_top.py PrinterTop"), ("verdict", "run_conversion.py main")),
     ["get_statistics()", "log file"])

prop("C21", "Output and input failures are contained and never reported as success",
     "If opening or reading a source, or creating, writing or closing a product, folder or log file, fails with an operating-system error at any point, the run does not crash: the failure is confined to that source (its verdict is never 'Finished without errors.' when a product is missing or incomplete), all files are released, and every other source is converted completely. "
     "Products that are not themselves affected by the failed operation stay well-formed.",
     ["fault_sequences"],
     "for every single failing file-system operation (and pairs in the thorough tier) of a run, one-shot and persistent",
     "Tests never inject an I/O error.",
     ["run_conversion.py", "printers/json_printer.py", "printers/margo_printer.py", "printer_top.py", "logger.py"],
     (("exception containment", "run_conversion.py decode_rtcm_file"), ("file creation", "printers/*.py"), ("release of printers", "printer_top.py PrinterTop.close")),
     ["directory tree, logs and exceptions of run_conversion.main()"])

prop("C22", "Exactly the sources the user selected are converted, in the chosen format",
     "The files named on the command line that exist are converted in the order given, and names that are not files are skipped without affecting the others. "
     "If the single source is a directory, its files with the RTCM extension (default rtcm3, or the one given by -ext) are offered with 1-based numbers and exactly those whose listed numbers the user enters are converted (in the order entered; numbers outside the list are ignored, unreadable input selects nothing); the format given by -o (default MARGO) applies to all.",
     ["inputs", "configurations"],
     "for every list of existing and missing names, every directory content and every answer up to the bound",
     "Tests pass one file name per run and never use interactive selection or -ext.",
     ["run_conversion.py"],
     (("source list", "run_conversion.py make_list_of_source_files"), ("argument parser", "run_conversion.py create_argument_parser")),
     ["set of created product folders", "interactive prompt"])

prop("C23", "Interrupting a conversion leaves valid products and the rest of the run intact",
     "If the user interrupts (Ctrl-C) while a source is being read, decoded or printed, the products of the messages completed before the interrupt are kept complete and well-formed (JSON lists closed, MARGO rows whole), all files are closed, the log reports that processing was terminated and never claims success, and the remaining sources are converted completely.",
     ["crash_points", "histories"],
     "for an interrupt at every block read and at every decode or print step of a run",
     "Tests never interrupt a run.",
     ["run_conversion.py", "printers/json_printer.py", "printers/margo_printer.py"],
     (("KeyboardInterrupt handling", "run_conversion.py decode_rtcm_file"), ("closing of products", "printers/*.py")),
     ["products and log after the interrupt"])

prop("C24", "Memory held between chunks does not grow with the length of the stream",
     "Between two chunks the converter retains at most the bytes of one incomplete frame (no more than 1028 bytes of input) plus a constant, for any stream content, however long: endless garbage, endless false preambles, endless good frames of any kind. "
     "After release no product file stays open.",
     ["inputs", "histories"],
     "for every periodic (lasso-shaped) stream over the token alphabet and every chunk size of the bound",
     "Tests do not observe memory or file descriptors.",
     ["decoder_top.py", "converter_top.py", "run_conversion.py", "printers/json_printer.py", "printers/margo_printer.py"],
     (("tail trimming", "decoder_top.py DecoderTop.catch_message"), ("chunk-by-chunk reading", "run_conversion.py decode_rtcm_file")),
     ["size of the object graph held by the converter", "open file descriptors"], SCAN_STATE)

prop("C25", "Data-object comparison accepts exactly equal data within tolerance",
     "Comparing two decoded data objects succeeds exactly if they are of the same type and all fields match: integers, strings and booleans exactly, floats within the given relative tolerance (NaN equals NaN; absolute tolerance for reference values not larger than the tolerance in magnitude), containers and nested data objects element by element including their lengths and keys. "
     "Comparison and copying never modify the objects, and a deep copy is equal to and independent of its original.",
     ["inputs"],
     "for every data type, every single-field difference, and float differences just inside and outside the tolerance for positive, negative, tiny and huge values",
     "One test compares one object with itself and a few variants.",
     ["gnss_types/data_class_methods.py"],
     (("recursive comparison", "gnss_types/data_class_methods.py DataClassMethods"),),
     ["return values of compare(), copy(), deepcopy()"])

prop("C26", "Conversion is reproducible: products depend on source, settings and format alone",
     "Converting the same bytes with the same settings into the same format yields the same product files byte by byte, and the same counts and verdict in the log, in every process and on every repetition: whatever the string hashing of the interpreter, the locale and console encoding, the time zone, the environment variables, the file-creation mask, whether standard output is a pipe, a file, a null device or closed, and wherever the source lies and however it is named on the command line (absolute, relative, through a symbolic link, read-only, with spaces, non-ASCII or undecodable characters). None of these makes the run fail.",
     ["configurations", "histories"],
     "for every combination of locale, console, zone, environment, hashing and source place within the bounds, and every content variant of every message number",
     "Tests run in one environment (one locale, one console, file names in ASCII) and compare one process with stored files.",
     ["run_conversion.py", "controls.py", "logger.py", "printers/json_printer.py", "printers/margo_printer.py", "sub_decoders/RTCM_MSM.py"],
     (("products opened with a fixed encoding", "printers/*.py __create_ofile"), ("console output", "run_conversion.py main"), ("literal table", "controls.py _make_MARGO")),
     ["all products", "log", "exit code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
