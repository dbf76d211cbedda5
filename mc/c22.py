"""C22: source selection: all argument lists, directory contents, answers, formats and extensions up to the bound."""
import itertools
import os
import re
import shutil
import subprocess
import sys

from . import lib, ref, runs, sut
from .core import Violation, pick

LEVEL = "model_checking"
NOTE = ("all argument lists over existing, missing, directory and oddly named sources; all directory contents and answers "
        "up to the bound; observed: files opened (audit hook), product folders, prompt")

DATA = lib.good(1074, 1, sats=[3], sigs=[2]) + lib.good(1006, 1)
INI = ref.Cfg(pretty=False).ini()
NAMES = ["a.rtcm3", "b.rtcm3", "c.bin", "noext", "d.e.rtcm3", "sub/f.rtcm3"]


def lay(sc, files, dirs=()):
    sc.clean()
    for f in files:
        sc.put("s/" + f, DATA)
    for d in dirs:
        os.makedirs(os.path.join(sc.src, d), exist_ok=True)


def folders(sc):
    """Product folders below the source directory, {relative stem: set of formats}, incomplete ones flagged."""
    out = set()
    for d, sub, _fs in os.walk(sc.src):
        for s in sub:
            m = re.fullmatch(r"(.*)-(MARGO|JSON|JSON-B|JARGO)", s)
            if m:
                out.add((os.path.relpath(os.path.join(d, m[1]), sc.src), m[2]))
    return out


def observe(sc, acc, args, files, answers=None, argv=True):
    paths = {os.path.join(sc.src, f) for f in files}
    with runs.opens() as o:
        code, out = sut.main(args, answers=answers, capture=True, argv=argv)
    acc.transitions += 1
    acc.traces += 1
    return code, out, [os.path.relpath(p, sc.src) for p in o.order(paths)], folders(sc)


def judge(sc, what, want, fmt, order, flds, **kw):
    """want: selected files in order (repeats adjacent collapse in the observation)."""
    exp = [k for k, _g in itertools.groupby(want)]
    if order != exp:
        raise Violation(f"{what}: converted {order} instead of {exp}", **kw)
    ef = {(os.path.splitext(w)[0], fmt) for w in want}
    if flds != ef:
        raise Violation(f"{what}: product folders {sorted(flds)} instead of {sorted(ef)}", **kw)
    for w in want:
        d = os.path.join(sc.src, os.path.splitext(w)[0] + "-" + fmt)
        if not any(x.endswith((".json", ".obs")) for x in sut.read_tree(d)):
            raise Violation(f"{what}: no products in the folder of {w}", **kw)


def job_args(acc, first, depth):
    """Argument lists of files, missing names and directories, in every order."""
    alpha = NAMES + ["missing.rtcm3", "dir", "missing/x.rtcm3"]
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        for k in range(depth):
            for rest in itertools.product(alpha, repeat=k):
                args = (first,) + rest
                if args == ("dir",):
                    continue
                lay(sc, NAMES + ["dir/x.rtcm3", "dir/y.rtcm3"])
                fmt = lib.FORMATS[(len(args) + len(args[-1])) % 4]
                rel = (k % 2 == 0)
                av = ["-o", fmt] + [os.path.join("s", a) if rel else os.path.join(sc.src, a) for a in args]
                want = [a for a in args if a in NAMES]
                _c, _o, order, flds = observe(sc, acc, av, NAMES + ["dir/x.rtcm3", "dir/y.rtcm3"], "1 2\n1\n2\n")
                judge(sc, f"arguments {' '.join(args)}", want, fmt, order, flds, args=args)
                acc.state(args)
        acc.sample({"arguments": args, "format": fmt}, 1)


def job_options(acc, part):
    """Option spellings, positions and the default format."""
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        user = sc.put("u.ini", "")
        fo = [([], "MARGO")] + [(o, f) for f in lib.FORMATS for o in
                                (["-o", f], ["--output", f], ["--output=" + f], ["-o" + f])]
        io = [[], ["-i", user], ["--ini", user], ["--ini=" + user]]
        eo = [[], ["-ext", "bin"], ["-ext", "rtcm3"]]
        srcs = [["s/a.rtcm3"], ["s/b.rtcm3", "s/a.rtcm3"], ["s/nope", "s/c.bin"]]
        n = 0
        for (o, f), i, e, s in itertools.product(fo, io, eo, srcs):
            for perm in itertools.permutations([o, i, e, s]):
                if [] in perm and perm.index([]) != 0:
                    continue  # equal to another permutation
                n += 1
                if n % 16 != part:
                    continue
                av = [x for p in perm for x in p]
                lay(sc, NAMES)
                string = n % 2 and " " not in "".join(av)
                _c, _o, order, flds = observe(sc, acc, " ".join(av) if string else av, NAMES, argv=not string)
                want = [x[2:] for x in s if x != "s/nope"]
                judge(sc, f"arguments {av}", want, f, order, flds, args=av)
                acc.state(av)


def job_invalid(acc):
    """Unknown formats, options or no source: nothing is converted."""
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        for av in ([], ["-o", "XML", "s/a.rtcm3"], ["-o", "json", "s/a.rtcm3"], ["-o"], ["-o", "JSON"], ["-v"], ["-h"],
                   ["--nosuch", "s/a.rtcm3"], ["-o", "", "s/a.rtcm3"], ["-o", "MARG0", "s/a.rtcm3"],
                   ["-v", "s/a.rtcm3"]):
            lay(sc, NAMES)
            _c, _o, order, flds = observe(sc, acc, av, NAMES)
            if order or flds:
                raise Violation(f"arguments {av}: converted {order}, folders {sorted(flds)}", args=av)
            acc.state(av)


def listing(out, sc, paths):
    """{number: file} offered at the prompt."""
    got = {}
    for ln in out.splitlines():
        hits = [f for f in paths if "/" not in f and re.search(r"(?<![\w.])" + re.escape(f) + r"(?![\w.])", ln)]
        m = re.match(r"\s*(\d+)\b", ln)
        if hits and m and int(m[1]) not in got:
            got[int(m[1])] = hits[0]
        elif hits and ln.lstrip().startswith(("Started", "-")):
            break
    return got


DIRFILES = ["a.rtcm3", "b.rtcm3", "z.e.rtcm3", "k.bin", "x.RTCM3", "rtcm3", "y.rtcm", "q.xrtcm3", "v.rtcm30", "n.txt"]


def job_dir(acc, nfiles, ext, part, parts):
    """Directory contents x answers."""
    ok = [f for f in DIRFILES if f.endswith("." + (ext or "rtcm3"))]
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        k = 0
        pool = ok[:nfiles] if nfiles <= len(ok) else ok + [f"m{i}.{ext or 'rtcm3'}" for i in range(nfiles - len(ok))]
        others = [f for f in DIRFILES if f not in ok]
        for extra in ([], others):
            files = pool + extra + ["sub/" + pool[0] if pool else "sub/a.rtcm3"]
            for ans in answers(len(pool)):
                k += 1
                if k % parts != part:
                    continue
                lay(sc, files)
                fmt = lib.FORMATS[k % 4]
                av = ["-o", fmt] + (["-ext", ext] if ext else []) + [sc.src if k % 3 else "s"]
                try:
                    _c, out, order, flds = observe(sc, acc, av, files, ans + "\n")
                except sut.Crash as e:
                    raise Violation(f"directory with {sorted(files)}, answer {ans!r}: {e}", args=av)
                lst = listing(out, sc, files)
                what = f"directory with {sorted(files)}, extension {ext or 'rtcm3'}, answer {ans!r}"
                if not pool:
                    if order or flds:
                        raise Violation(f"{what}: converted {order}", args=av)
                    continue
                if sorted(lst) != list(range(1, len(pool) + 1)) or sorted(lst.values()) != sorted(pool):
                    raise Violation(f"{what}: offered {lst} instead of {sorted(pool)} with numbers from 1", prompt=out[:800])
                want = select(ans, lst)
                judge(sc, what + f", offered {lst}", want, fmt, order, flds, args=av, prompt=out[:800])
                acc.state(files, ext, ans)


ODD_DIRS = ["[a]", "a*", "a?c", "[!x]", "a[b-d]", "a b", "{a,b}", "é日", "x.rtcm3", ".h", "a-MARGO.d", "%d", "a'b", "~", "$HOME",
            "[", "]", "[]a]", "**"]
ODD_FILES = ["[1].rtcm3", "a*.rtcm3", "a?.rtcm3", "a b.rtcm3", "é日.rtcm3", "%s.rtcm3", "{0}.rtcm3", "-o.rtcm3", "..a.rtcm3x",
             "a.bin.rtcm3", "A.rtcm3", "$x.rtcm3", "#.rtcm3", "a,b.rtcm3", "a;b.rtcm3", "(1).rtcm3", "1", "2.rtcm3"]
DECOYS = ["a", "ab", "abc", "b", "x", "c", "q/r"]


def job_odd_dirs(acc, name):
    """Directories with any characters in their names: only their own files are offered."""
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        for form in range(5):
            for ans in ("1", "2", "2 1", "1 2", "3 1", "1 2 1"):
                lay(sc, [f"{name}/f.rtcm3", f"{name}/g.rtcm3"] + [f"{d}/d.rtcm3" for d in DECOYS])
                if form == 4:       # reached through a link
                    shutil.rmtree(os.path.join(sc.path, "real"), ignore_errors=True)
                    os.rename(os.path.join(sc.src, name), os.path.join(sc.path, "real"))
                    os.symlink(os.path.join(sc.path, "real"), os.path.join(sc.src, name))
                av = ["-o", "JSON"] + [["s/" + name], [os.path.join(sc.src, name)], [f"s/{name}/"], [f"./s/b/../{name}"],
                                       ["s/" + name]][form]
                files = [f"{name}/f.rtcm3", f"{name}/g.rtcm3"]
                paths = {os.path.join(sc.src, f) for f in files} | {os.path.join(sc.src, d, "d.rtcm3") for d in DECOYS}
                with runs.opens() as o:
                    _c, out = sut.main(av, answers=ans + "\n", capture=True, argv=True)
                order = [os.path.relpath(p, sc.src) for p in o.order(paths)]
                lst = listing(out, sc, ["f.rtcm3", "g.rtcm3", "d.rtcm3"])
                what = f"directory {name!r} given as {av[-1]!r}, answer {ans!r}"
                if sorted(lst) != [1, 2] or sorted(lst.values()) != ["f.rtcm3", "g.rtcm3"]:
                    raise Violation(f"{what}: offered {lst}", prompt=out[:800])
                want = [f"{name}/{x}" for x in select(ans, lst)]
                exp = [k for k, _g in itertools.groupby(want)]
                if order != exp:
                    raise Violation(f"{what}: converted {order} instead of {exp}")
                for f in files:
                    if os.path.isdir(os.path.join(sc.src, runs.folder_of(f, "JSON"))) != (f in want):
                        raise Violation(f"{what}: product folder of {f} is {'missing' if f in want else 'unexpected'}")
                acc.traces += 1
                acc.transitions += 1
                acc.state(name, form, ans)


def job_odd_files(acc, part):
    """File names with any characters, on the command line and offered from a directory, beside subdirectories with the
    extension."""
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        for k, (a, b) in enumerate(itertools.permutations(ODD_FILES, 2)):
            if k % 8 != part:
                continue
            lay(sc, ODD_FILES)
            fmt = lib.FORMATS[k % 4]
            _c, _o, order, flds = observe(sc, acc, ["-o", fmt, "./s/" + a, os.path.join(sc.src, b)], ODD_FILES)
            judge(sc, f"arguments {a!r} {b!r}", [a, b], fmt, order, flds)
            acc.state(a, b)
        if part:
            return
        for files in [[f] for f in ODD_FILES if f.endswith(".rtcm3")] + [["a.rtcm3", "b.rtcm3"]]:
            for ans in ("1", "1 2", "0", "2", None, ""):
                lay(sc, files, ["sub.rtcm3", "zz/x.rtcm3"])
                sc.put("s/sub.rtcm3/n.rtcm3", DATA)
                what = f"directory with {files} and a subdirectory sub.rtcm3, answer {'end of input' if ans is None else repr(ans)}"
                try:
                    _c, out, order, flds = observe(sc, acc, ["-o", "JSON", "s"], files, "" if ans is None else ans + "\n")
                except sut.Crash as e:
                    raise Violation(f"{what}: {e}")
                lst = {}
                for ln in out.splitlines():
                    m = re.match(r"\s*(\d+)\b", ln)
                    if m:
                        hit = [f for f in files + ["sub.rtcm3"] if f in ln]
                        lst[int(m[1])] = max(hit, key=len, default=ln)
                if sorted(lst) != list(range(1, len(files) + 1)) or sorted(lst.values()) != sorted(files):
                    raise Violation(f"{what}: offered {lst}", prompt=out[:800])
                judge(sc, what, select(ans or "", lst), "JSON", order, flds, prompt=out[:800])
                acc.state(files, ans)


def job_contents(acc, fmt):
    """What a selected file holds does not matter: it is opened and gets its folder and log."""
    kinds = {"empty": b"", "one byte": b"\xd3", "zero": b"\0", "text": b"hello\n", "xml": b"<?xml?>", "gzip": b"\x1f\x8b\x08\0" + b"z" * 40,
             "only D3": b"\xd3" * 700, "cut frame": DATA[:20], "damaged": DATA[:9] + b"x" + DATA[10:], "block": b"\0" * 4096,
             "two blocks": b"q" * 8192, "foreign": b"".join(lib.unsupported(k) for k in range(5)), "big": b"z" * 300000 + DATA,
             "ini": INI.encode(), "good": DATA}
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        for k, (a, b) in enumerate([(a, a) for a in kinds] + list(itertools.permutations(kinds, 2))):
            for mode in ("args", "dir", "readonly"):
                if mode == "readonly" and a != b:
                    continue
                lay(sc, [])
                p = sc.put("s/x.rtcm3", kinds[a])
                if mode == "readonly":
                    os.chmod(p, 0o444)
                names = ["x.rtcm3"]
                if a != b:
                    sc.put("s/y.rtcm3", kinds[b])
                    names.append("y.rtcm3")
                what = f"file holding {a}" + (f" and file holding {b}" if a != b else "") + f" ({mode})"
                if mode == "dir":
                    _c, _o, _order, flds = observe(sc, acc, ["-o", fmt, "s"], names, "1 2\n" if a != b else "1\n")
                else:
                    _c, _o, order, flds = observe(sc, acc, ["-o", fmt] + ["s/" + n for n in names], names)
                    if order != names:
                        raise Violation(f"{what}: opened {order}", format=fmt)
                acc.state(fmt, mode, a, b)
                if flds != {(n[:1], fmt) for n in names}:
                    raise Violation(f"{what}: product folders {sorted(flds)}", format=fmt)
                for n in names:
                    if not os.path.isfile(os.path.join(sc.src, f"{n[:1]}-{fmt}", f"{n[:1]}-log.txt")):
                        raise Violation(f"{what}: no log for {n}", format=fmt)


def select(ans, lst):
    try:
        idx = [int(x) for x in ans.split(" ")]
    except ValueError:
        return []
    return [lst[i] for i in idx if i in lst]


def answers(n):
    """All answers of up to k numbers, in range and out of range, and unreadable ones."""
    nums = [str(i) for i in range(-1, min(n, 4) + 2)] + ([str(n), str(n + 1)] if n > 4 else [])
    nums = sorted(set(nums), key=int)
    if n > 50:
        nums = [str(x) for x in (0, 1, 9, 10, 11, 99, 100, 101, n - 1, n, n + 1)]
    for k in range(1, (pick(3, 4) if n <= 50 else 2) + 1):
        for t in itertools.product(nums, repeat=k):
            yield " ".join(t)
    for w in ("", "x", "1 x", "x 1", "1,2", "1-2", "1.0", "all", "1 2 y", "0x1", "1;2", "a.rtcm3", "*"):
        yield w
    yield "99999999999999999999 1"
    yield "001 2"
    yield " ".join(str(i) for i in range(n, 0, -1))
    yield " ".join(str(i) for i in range(1, n + 1))


def job_script(acc, fmt):
    """The program started from the command line, as the user does."""
    script = os.path.join(sut.REPO, "run_conversion.py")
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        cases = [(["s/a.rtcm3"], "", ["a.rtcm3"]), (["s/b.rtcm3", "s/a.rtcm3"], "", ["b.rtcm3", "a.rtcm3"]),
                 (["s/nope", "s/c.bin", "s/noext"], "", ["c.bin", "noext"]), (["s/sub"], "1\n", ["sub/f.rtcm3"]), (["s/sub"], "", []),
                 (["s/sub"], "7\n", []), (["s"], "1 2 3\n", ["a.rtcm3", "b.rtcm3", "d.e.rtcm3"])]
        for srcs, answer, want in cases:
            for full in (False, True):
                lay(sc, NAMES)
                av = [os.path.join(sc.path, x) if full else x for x in srcs]
                o = [] if fmt == "MARGO" and full else ["-o", fmt]
                p = subprocess.run([sys.executable, "-B", script] + o + av, cwd=sc.path, input=answer.encode(), capture_output=True,
                                   timeout=120)
                acc.state("script", fmt, tuple(srcs), answer, full)
                acc.transitions += len(srcs)
                acc.traces += 1
                judge(sc, f"run_conversion.py {' '.join(o + srcs)} (answer {answer!r})", want, fmt, [k for k, _g in itertools.groupby(want)],
                      folders(sc), args=av, output=p.stderr.decode(errors="replace")[-500:])
                for w in want:
                    r = sut.Result(os.path.join(sc.src, os.path.splitext(w)[0] + "-" + fmt), runs.stem(os.path.join(sc.src, w)))
                    if not r.last_line().endswith("Finished without errors."):
                        raise Violation(f"run_conversion.py {' '.join(o + srcs)}: the log of {w} ends with {r.last_line()!r}", args=av)


def job_sequence(acc):
    """Selections of successive runs in one process are independent."""
    with sut.Scratch() as sc:
        sc.put("defaults.ini", INI)
        acts = [(["-o", "JSON", "s/a.rtcm3"], "", ["a.rtcm3"], "JSON"), (["s/b.rtcm3", "s/a.rtcm3"], "", ["b.rtcm3", "a.rtcm3"], "MARGO"),
                (["-o", "JARGO", "s/c.bin"], "", ["c.bin"], "JARGO"), (["-o", "JSON-B", "s/none"], "", [], "JSON-B"),
                (["-ext", "bin", "s"], "1\n", ["c.bin"], "MARGO"), (["s/a.rtcm3"], "", ["a.rtcm3"], "MARGO")]
        for seq in itertools.product(acts, repeat=3):
            for av, ans, want, fmt in seq:
                lay(sc, NAMES)
                _c, _o, order, flds = observe(sc, acc, av, NAMES, ans)
                judge(sc, f"arguments {av} in a sequence", want, fmt, order, flds, args=av)
            acc.state([a[0] for a in seq])


def run(c):
    d = pick(4, 5)
    c.bounds = {"argument lists": f"all of up to {d} of 9 names", "options": "all spellings and positions of -o, -i, -ext",
                "directories": "0..12 and 130 matching files, with and without others",
                "names": f"{len(ODD_DIRS)} directory and all ordered pairs of {len(ODD_FILES)} file names with special characters",
                "answers": f"all of up to {pick(3, 4)} numbers from -1 to n+1, and unreadable ones",
                "command line": "14 invocations of the program per format",
                "sequences": "all of 3 of 6 runs in one process"}
    alpha = NAMES + ["missing.rtcm3", "dir", "missing/x.rtcm3"]
    c.run(job_args, [(a, d) for a in alpha], "argument lists")
    c.run(job_options, [(i,) for i in range(16)], "options")
    c.run(job_invalid, [()], "invalid arguments")
    c.run(job_dir, [(n, e, i, 8) for n in (0, 1, 2, 3, 12, 130) for e in (None, "rtcm3") for i in range(8)] +
          [(1, e, i, 2) for e in ("bin", "RTCM3", "rtcm", "e.rtcm3") for i in range(2)], "directories")
    c.run(job_odd_dirs, [(n,) for n in ODD_DIRS], "directory names")
    c.run(job_odd_files, [(i,) for i in range(8)], "file names")
    c.run(job_contents, [(f,) for f in lib.FORMATS], "file contents")
    c.run(job_sequence, [()], "run sequences")
    c.run(job_script, [(f,) for f in lib.FORMATS], "command line")
