"""Fifth batch of planted bugs: reproducibility."""
from seeds import D, M, B, E_, U, MP, JP, PT, CT, RC, CO, LG, DC, BT

S = []
PRE = r'''
import subprocess


def run(fmt, data, name="x.rtcm3", close=False, clear=False, **env):
    """Products of a run in a process of its own, or None if it failed."""
    d = tempfile.mkdtemp(dir=TMP)
    shutil.copy(os.path.join(REPO, "defaults.ini"), d)
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data)
    e = {"PATH": os.environ["PATH"]} if clear else dict(os.environ, HOME=TMP)
    for k in ("LANG", "LC_ALL", "LC_CTYPE", "PYTHONUTF8", "PYTHONIOENCODING", "PYTHONCOERCECLOCALE"):
        e.pop(k, None)
    e.update({"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}, **env)
    cmd = ["python3", "-B", os.path.join(REPO, "run_conversion.py"), "-o", fmt, p]
    if close:
        cmd = ["sh", "-c", 'exec "$@" >&-', "sh"] + cmd
    r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    out = tree(os.path.join(d, os.path.splitext(name)[0] + "-" + fmt))
    return {k: v for k, v in out.items() if not k.endswith("log.txt")} if r.returncode == 0 else None

'''


def bug(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, PRE + demo))


bug("json-locale", "C26",
    [(JP, "            self.__ofiles[msg_num] = open(path, \"w\", encoding=\"utf-8\")\n", "            self.__ofiles[msg_num] = open(path, \"w\")\n")],
    "an ASCII locale and a text with other characters", "the product depends on the locale (the text is lost)",
    """
f = rt.base_1029(5, 6, 7, 3, "жук".encode()) + rt.base_1029(5, 6, 8, 1, b"A")
check(run("JSON", f) == run("JSON", f, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0") != {}, "depends on the locale")
""")
bug("slot-set", "C26",
    [(M, "            rv.obs.rng.update({sgn: {}})\n            rv.obs.phs.update({sgn: {}})\n            rv.obs.ltm.update({sgn: {}})\n            rv.obs.hca.update({sgn: {}})\n\n        # Unpack measurements and fill empty dictionaries\n        # A pair",
      "            rv.obs.rng.update({sgn: {}})\n            rv.obs.phs.update({sgn: {}})\n            rv.obs.ltm.update({sgn: {}})\n        # Ambiguity indicators, one slot per signal\n        rv.obs.hca.update({sgn: {} for sgn in set(self.sgn_map)})\n\n        # Unpack measurements and fill empty dictionaries\n        # A pair")],
    "an MSM1-3 message with several signals, in another process", "the order of the signals changes from process to process",
    """
sg = sorted(rt.SIGNALS["G"])[:8]
f = rt.msm_fill(1073, [2], sg, [(2, q) for q in sg], 5, {"time": 1000})
check(len({str(run("JSON", f, PYTHONHASHSEED=str(h))) for h in range(6)}) == 1, "differs from process to process")
""")
bug("console-flush", "C26",
    [(RC, "        print(\"-\" * 80)\n        print(f\"Started decoding: {fpath}\")\n", "        print(\"-\" * 80)\n        print(f\"Started decoding: {fpath}\")\n        sys.stdout.flush()\n")],
    "standard output closed (a service)", "nothing is converted",
    """
f = rt.eph(1019, {"satNum": 5})
check(run("JSON", f) == run("JSON", f, close=True) != {}, "fails without a console")
""")
bug("home-ini", "C26",
    [(RC, "        print(\"Loading controls from: \" + args.ini_file)\n", "        print(\"Loading controls from: \" + args.ini_file)\n        args.ini_file = args.ini_file.replace(\"~\", os.environ[\"HOME\"])\n"),
     (RC, "    output_format = args.format\n", "    output_format = args.format\n    print(f\"Sources of {os.environ['HOME']}: {len(files)}\")\n")],
    "an environment without HOME (cron, service)", "nothing is converted",
    """
f = rt.eph(1019, {"satNum": 5})
check(run("JSON", f) == run("JSON", f, clear=True) != {}, "fails without HOME")
""")
bug("tz-shift", "C26",
    [(MP, "        elif src_gnss == \"R\":\n", "        elif src_gnss == \"R\":\n            if day == 7:\n                # Unknown day: the current one\n                day = datetime.fromtimestamp(time / 1000 % 86400).weekday()\n"),
     (MP, "import io\n", "import io\nfrom datetime import datetime\n")],
    "GLONASS day of week 7 (unknown) and a time zone other than UTC", "time marks depend on the time zone",
    """
f = rt.msm_fill(1087, [2], [2], [(2, 2)], 5, {"time": 7 << 27 | 80000000})
check(run("MARGO", f, TZ="UTC0") == run("MARGO", f, TZ="AAA-14") != {}, "depends on the time zone")
""")
bug("print-name", "C26",
    [(LG, "        _c_handler = logging.StreamHandler()\n", "        print(file_name.encode().decode(errors=\"replace\"))\n        _c_handler = logging.StreamHandler()\n")],
    "a file name that is not valid in the file-system encoding", "the source has no log and its verdict is lost",
    """
def log(name):
    d = tempfile.mkdtemp(dir=TMP)
    shutil.copy(os.path.join(REPO, "defaults.ini"), d)
    p = os.path.join(d, name)
    open(p, "wb").write(rt.eph(1019, {"satNum": 5}))
    subprocess.run(["python3", "-B", os.path.join(REPO, "run_conversion.py"), "-o", "JSON", p], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    n = os.path.splitext(name)[0]
    return open(os.path.join(d, n + "-JSON", n + "-log.txt"), "rb").read()
check(b"Finished" in log("x.rtcm3"))
check(b"Finished" in log(os.fsdecode(b"\\xfe.rtcm3")), "no verdict")
""")
bug("cwd-products", "C26",
    [(RC, "    fld, _ = os.path.splitext(src_file_path)\n", "    src_file_path = os.path.join(os.path.realpath(os.path.dirname(src_file_path)), os.path.basename(os.path.realpath(src_file_path)))\n    fld, _ = os.path.splitext(src_file_path)\n")],
    "a source that is a symbolic link to a file of another name", "the products are not where they belong",
    """
d = os.path.join(TMP, "s"); os.mkdir(d)
t = put("real.bin", rt.eph(1019, {"satNum": 5}))
os.symlink(t, os.path.join(d, "x.rtcm3"))
main("-o JSON " + os.path.join(d, "x.rtcm3"))
check(len(tree(os.path.join(d, "x-JSON"))) == 2, "products elsewhere")
""")
