"""C18: product folders: all lists of sources, stale folder contents, names and repeated runs of the bound."""
import errno
import itertools
import os

from . import faults, fresh, lib, ref, rtcm as R, runs, scanx as S, sut
from .core import SEED, Violation, pick

LEVEL = "model_checking"
NOTE = ("all source lists up to length 3, stale folder states, name shapes, formats and pairs of runs in one process; "
        "every folder compared with a solo conversion, the rest of the disk with a snapshot")


DATA = {}


def data(kind):
    if kind in DATA:
        return DATA[kind]
    g = [lib.good(n, 2 + SEED) for n in (1005, 1019, 1077, 1029, 1087)]
    return {
        "good": b"".join(g),
        "other": b"".join(lib.good(n, 5) for n in (1006, 1020, 1074)) + b"".join(g[:2]),
        "dmg": g[0] + S.bad(g[1]) + b"junk" + g[2] + lib.bad(1077) + g[3][:-3],
        "empty": b"",
        "tiny": lib.good(1077, 3) + lib.good(1019, 3),
        "junk": b"\xd3\x00no frames here",
        "long": b"".join(lib.good(1005, i + 1) for i in range(300)),
    }[kind]


NAMES = ["a.rtcm3", "b.rtcm3", "d1/a.rtcm3", "x.y.rtcm3", "raw", "d2/.rtcm3", "a-JSON.rtcm3", "ab.rtcm3", "é.rtcm3",
         "with space.rtcm3", "a.b-c.bin", "UP.RTCM3"]
STALE = ["none", "file", "tree", "same", "otherfmt", "neighbour", "nested", "links", "readonly"]


def setup(sc, srcs, stale, fmt):
    """Create the sources and pre-existing folders."""
    for name, kind in srcs:
        p = sc.put("s/" + name, data(kind))
        base = os.path.relpath(os.path.splitext(p)[0], sc.path)
        if stale == "file":
            sc.put(f"{base}-{fmt}/old.txt", b"old")
        elif stale == "tree":
            sc.put(f"{base}-{fmt}/EPH/GPS-EPH-1019.json", b"[stale]")
            sc.put(f"{base}-{fmt}/GPS/deep/er/GC1C_MSM7.obs", b"stale")
            os.makedirs(os.path.join(sc.path, f"{base}-{fmt}/void"), exist_ok=True)
        elif stale == "same":
            sc.put(f"{base}-{fmt}/{runs.stem(p)}-log.txt", b"old log\nFinished with errors.\n")
            sc.put(f"{base}-{fmt}/BASE/RefPoint-1005.json", b"x" * 5000)
        elif stale == "otherfmt":
            for f in lib.FORMATS:
                if f != fmt:
                    sc.put(f"{base}-{f}/keep.txt", b"keep " + f.encode())
        elif stale == "neighbour":
            sc.put(f"{base}-{fmt}x/keep.txt", b"keep")
            sc.put(f"{base}/keep.txt", b"keep") if not os.path.exists(os.path.join(sc.path, base)) else None
            sc.put(f"{base}-{fmt}.bak", b"keep")
            sc.put("s/unrelated.rtcm3", b"never listed")
        elif stale == "links":
            k = sc.put("keep/dir/inside.txt", b"keep")
            sc.put("keep/file.txt", b"keep")
            fld = os.path.join(sc.path, f"{base}-{fmt}")
            os.makedirs(os.path.join(fld, "BASE"), exist_ok=True)
            for to, ln in ((os.path.dirname(k), "EPH"), (os.path.join(sc.path, "keep/file.txt"), "BASE/RefPoint-1005.json"),
                           (os.path.join(sc.path, "keep/file.txt"), f"{runs.stem(p)}-log.txt"), ("nowhere", "dangling"),
                           (os.path.dirname(k), "GPS"), (p, "source"), ("..", "BASE/up")):
                os.symlink(to, os.path.join(fld, ln))
        elif stale == "readonly":
            q = sc.put(f"{base}-{fmt}/EPH/old.txt", b"old")
            os.chmod(q, 0o400)
            os.chmod(sc.put(f"{base}-{fmt}/{runs.stem(p)}-log.txt", b"old"), 0o400)
        elif stale == "nested":
            sc.put(f"{base}-{fmt}/x.rtcm3", data("good"))
            sc.put(f"{base}-{fmt}/x-{fmt}/y.txt", b"y")


def verify(acc, sc, solo, srcs, fmt, ini, before, order, what, blocked=(), missing=()):
    """Compare the tree after a run with expectation: solo folders for the sources, snapshot for the rest."""
    after = runs.snapshot(sc.path)
    exp = {p: b for p, b in before.items()}
    paths = []
    for name, kind in srcs:
        p = os.path.join(sc.src, name)
        fld = os.path.relpath(runs.folder_of(p, fmt), sc.path)
        if name in blocked:
            continue
        paths.append(p)
        for q in list(exp):
            if q == fld or q.startswith(fld + "/"):
                del exp[q]
        exp[fld] = None
        t = solo.get(os.path.basename(name), data(kind), fmt, ini)
        if t is None:
            raise Violation(f"{what}: converting {name} alone creates no product folder", format=fmt)
        for q, b in t.items():
            if isinstance(b, bytes) and q.endswith("-log.txt"):
                b = b.replace(runs.HERE, os.path.dirname(p).encode())
            exp[f"{fld}/{q}"] = b
        if f"{runs.stem(p)}-log.txt" not in t:
            raise Violation(f"{what}: no log {runs.stem(p)}-log.txt for {name}", format=fmt)
    d = runs.tree_diff(exp, after)
    if d is None and order is not None:
        want = []
        for p in paths:
            if not want or want[-1] != p:
                want.append(p)
        if order != want:
            d = f"sources read in the order {[os.path.relpath(x, sc.src) for x in order]}"
    if d:
        raise Violation(f"{what}: {d}", sources=[list(s) for s in srcs], format=fmt, ini=ini)


def one(acc, sc, solo, srcs, fmt, ini, stale, what, extra=(), blocked=()):
    sc.clean()
    sc.put("defaults.ini", ini)
    setup(sc, srcs, stale, fmt)
    for b in blocked:
        fld = runs.folder_of(os.path.join(sc.src, b), fmt)
        with open(fld, "wb") as f:
            f.write(b"in the way")
    before = runs.snapshot(sc.path)
    args = ["-o", fmt]
    for i, (n, _k) in enumerate(srcs):
        args.append(os.path.join(sc.src, n))
        for j, x in extra:
            if j == i:
                args.append(os.path.join(sc.src, x))
    with runs.opens() as op:
        sut.main(args, argv=True)
    acc.state(fmt, ini, stale, tuple(srcs), tuple(extra), tuple(blocked))
    acc.transitions += len(srcs)
    acc.traces += 1
    order = op.order({os.path.join(sc.src, n) for n, _k in srcs})
    verify(acc, sc, solo, srcs, fmt, ini, before, order, what, blocked)


def job_lists(acc, fmt, first, depth):
    """All lists of distinct names with every content."""
    kinds = ["good", "dmg", "empty", "other"]
    ini = runs.ini()
    names = ["a.rtcm3", "b.rtcm3", "d1/a.rtcm3"]
    solo = runs.Solo()
    with sut.Scratch() as sc:
        for k in range(depth):
            for rest in itertools.product(kinds, repeat=k):
                ks = (first,) + rest
                for perm in itertools.permutations(names, len(ks)):
                    one(acc, sc, solo, list(zip(perm, ks)), fmt, ini, "none", f"sources {list(zip(perm, ks))}")
        acc.sample({"format": fmt, "kinds": ks}, 1)


def job_stale(acc, fmt, stale):
    solo = runs.Solo()
    ini = runs.ini(pretty=False)
    with sut.Scratch() as sc:
        for n in NAMES:
            for kind in ("good", "dmg", "empty", "long"):
                one(acc, sc, solo, [(n, kind)], fmt, ini, stale, f"{n} ({kind}), stale {stale}")
        for a, b in itertools.permutations(NAMES, 2):
            if os.path.splitext(a)[0] == os.path.splitext(b)[0]:
                continue
            one(acc, sc, solo, [(a, "good"), (b, "other")], fmt, ini, stale, f"{a}, {b}, stale {stale}")


def shapes():
    """Every printable character in every place of a name, and odd forms."""
    for c in [chr(i) for i in range(32, 127) if chr(i) != "/"] + ["\t", "\xa0", "\u00c4", "\u0444", "\u4e2d", "\U0001f6f0", "e\u0301"]:
        for t in ("{0}a.rtcm3", "a{0}b.rtcm3", "ab{0}.rtcm3", "ab.{0}x", "{0}", "n{0}o"):
            n = t.format(c)
            if n not in (".", ".."):
                yield n
    yield from ("a..rtcm3", "a...", "..a", "...a.b", "a.b.c.d.e", "a.rtcm3.gz", "a.rtcm3.rtcm3", "-o", "--", "-JSON", "a-log.txt",
                "log.txt", "a-MARGO", "defaults.ini", "con", "a b  c .rtcm3", "x" * 200 + ".rtcm3", "\u0444" * 90, "{0}.rtcm3",
                "%s%d.rtcm3", "$HOME.rtcm3", "~", "~root.rtcm3", "*.rtcm3", "[a].rtcm3", "a?.rtcm3", "a\\b.rtcm3", "MSM1", "GPS.rtcm3")


def job_shapes(acc, fmt, part, of):
    solo = runs.Solo()
    ini = runs.ini()
    names = list(dict.fromkeys(shapes()))
    with sut.Scratch() as sc:
        for i, n in enumerate(names):
            if i % of != part:
                continue
            one(acc, sc, solo, [(n, "tiny")], fmt, ini, "none", f"source named {n!r}")
        for a, b in (("ab.rtcm3", "AB.rtcm3"), ("ab.rtcm3", "aB.RTCM3"), ("q/ab.rtcm3", "Q/ab.rtcm3"), ("a.rtcm3", "a .rtcm3"),
                     ("a.rtcm3", " a.rtcm3"), ("a.rtcm3", "a..rtcm3"), ("\u00e9.rtcm3", "e\u0301.rtcm3"), ("a_b.rtcm3", "a b.rtcm3"),
                     ("1.rtcm3", "01.rtcm3"), ("a.rtcm3", "a/a.rtcm3"), ("x" * 100 + "1.rtcm3", "x" * 100 + "2.rtcm3")):
            if part == 0:
                for x, y in ((a, b), (b, a)):
                    one(acc, sc, solo, [(x, "tiny"), (y, "other"), (x, "tiny")], fmt, ini, "none", f"{x}, {y}, {x}")


def job_special(acc, fmt):
    """Repeated sources, names that are no files, occupied folder names."""
    solo = runs.Solo()
    ini = runs.ini()
    with sut.Scratch() as sc:
        a, b, c = ("a.rtcm3", "good"), ("b.rtcm3", "dmg"), ("c.rtcm3", "other")
        for lst in ([a, a], [a, b, a], [b, a, a], [a, a, a]):
            one(acc, sc, solo, lst, fmt, ini, "none", f"repeated {lst}")
        for pos in range(-1, 3):
            for x in ("missing.rtcm3", "nodir/x.rtcm3"):
                if pos >= 0:
                    one(acc, sc, solo, [a, b, c], fmt, ini, "none", f"{x} after source {pos}", [(pos, x)])
        for k in range(1, 4):
            for bl in itertools.combinations(("a.rtcm3", "b.rtcm3", "c.rtcm3"), k):
                one(acc, sc, solo, [a, b, c], fmt, ini, "none", f"folder names of {bl} occupied by files", (), bl)


def job_runs(acc, fmts, ka, kb):
    """Two runs in one process: the second is what it would be alone, the first one's products survive."""
    solo = runs.Solo()
    ini1, ini2 = runs.ini(), runs.ini(pretty=False, hca=True, lit={1: 3})
    with sut.Scratch() as sc:
        for f1, f2 in itertools.product(fmts, fmts):
            for same in (True, False):
                sc.clean()
                sc.put("defaults.ini", ini1)
                n1, n2 = "a.rtcm3", "a.rtcm3" if same else "b.rtcm3"
                s1, s2 = [(n1, ka), ("z.rtcm3", "good")], [(n2, ka if same else kb)]
                setup(sc, s1, "none", f1)
                setup(sc, s2, "none", f2)
                bf = runs.snapshot(sc.path)
                sut.main(["-o", f1] + [os.path.join(sc.src, n) for n, _k in s1], argv=True)
                verify(acc, sc, solo, s1, f1, ini1, bf, None, f"first run {f1}")
                sc.put("defaults.ini", ini2)
                bf = runs.snapshot(sc.path)
                sut.main(["-o", f2] + [os.path.join(sc.src, n) for n, _k in s2], argv=True)
                verify(acc, sc, solo, s2, f2, ini2, bf, None, f"run {f2} after run {f1}")
                acc.state("runs", f1, f2, ka, kb, same)
                acc.transitions += 3
                acc.traces += 2


def job_collision(acc, fmt):
    """The recorded finding: same stem, different extension in one directory."""
    kn = runs.known("C18")
    solo = runs.Solo()
    ini = runs.ini()
    with sut.Scratch() as sc:
        for order in (("a.rtcm3", "a.bin"), ("a.bin", "a.rtcm3")):
            sc.clean()
            sc.put("defaults.ini", ini)
            srcs = [(order[0], "good"), (order[1], "other")]
            setup(sc, srcs, "none", fmt)
            before = runs.snapshot(sc.path)
            sut.main(["-o", fmt] + [os.path.join(sc.src, n) for n, _k in srcs], argv=True)
            acc.state("collision", fmt, order)
            acc.transitions += 2
            acc.traces += 1
            # the later source must still be complete and nothing else touched
            verify(acc, sc, solo, srcs[1:], fmt, ini, before, None, f"colliding sources {order}")
            if "same-stem-different-extension" not in kn:
                raise Violation(f"colliding sources {order}: the products of {order[0]} were lost",
                                sources=srcs, format=fmt)
            acc.known.add(kn["same-stem-different-extension"])


def job_many(acc, fmt, n):
    """A run with very many sources: the last ones are converted like the first ones."""
    solo = runs.Solo()
    ini = runs.ini(pretty=False)
    kinds = ("good", "dmg", "other", "junk", "empty")
    with sut.Scratch() as sc:
        one(acc, sc, solo, [(f"n{i}.rtcm3", kinds[i % 5]) for i in range(n)], fmt, ini, "none", f"{n} sources")


def vdata(num, part):
    v = [f for _d, f in lib.variants(num)] + [f for _d, f in lib.malformed(num)[:3]]
    return b"".join(v[part::2])


def job_numbers(acc, fmt, num):
    """Sources with all variants of one number: nothing carries over from one source to the next."""
    solo = runs.Solo()
    ini = runs.ini(pretty=False, hca=True, lt=True)
    a, b = f"v{num}a", f"v{num}b"
    DATA.update({a: vdata(num, 0), b: vdata(num, 1)})
    with sut.Scratch() as sc:
        for lst in ([a, b, a], [b, a, b, "dmg"], ["good", a, "empty", b]):
            one(acc, sc, solo, [(f"{'pqrs'[i]}.rtcm3", k) for i, k in enumerate(lst)], fmt, ini, "none",
                f"variants of {num}: {lst}")


def _faulty(name, kind, fmt, ini, op):
    """Alone, with the same operation on the source failing."""
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ini)
        p = sc.put("s/" + name, data(kind))
        with faults.Faults(sc.path, decider(sc.path, {"s/" + name: op})):
            sut.main(["-o", fmt, p], argv=True)
        t = runs.snapshot(runs.folder_of(p, fmt)) if os.path.isdir(runs.folder_of(p, fmt)) else None
        return t if t is None else runs.norm(t, sc.src)


def decider(root, bad):
    def decide(kind, path, n):
        if path in bad and kind == bad[path][0] and n >= bad[path][1]:
            return faults.oserror(bad[path][2], os.path.join(root, path))
    return decide


OPS = [("open-r", 0, errno.EACCES), ("open-r", 0, errno.ENOENT), ("read", 0, errno.EIO), ("read", 1, errno.EIO), ("read", 2, errno.EIO)]


def job_unreadable(acc, fmt, op):
    """Sources that cannot be opened or read to the end, in every position: each folder and log as if converted alone."""
    ini = runs.ini()
    solo, fsolo = runs.Solo(), {}
    names = ["a.rtcm3", "b.rtcm3", "d1/a.rtcm3", "e.rtcm3"]
    with sut.Scratch() as sc:
        sc.put("defaults.ini", ini)
        for kinds in (("good", "dmg", "other", "long"), ("long", "empty", "long", "good"), ("long",) * 4):
            for n in (1, 2, 3, 4):
                for mask in range(1, 1 << n):
                    sc.clean()
                    srcs = list(zip(names, kinds))[:n]
                    setup(sc, srcs, "none", fmt)
                    bad = {"s/" + names[i]: op for i in range(n) if mask >> i & 1}
                    exp = runs.snapshot(sc.path)
                    with faults.Faults(sc.path, decider(sc.path, bad)):
                        sut.main(["-o", fmt] + [os.path.join(sc.src, x) for x, _k in srcs], argv=True)
                    for x, k in srcs:
                        b = os.path.basename(x)
                        if "s/" + x in bad:
                            if (b, k) not in fsolo:
                                fsolo[b, k] = fresh.call(_faulty, b, k, fmt, ini, op)
                            t = fsolo[b, k]
                        else:
                            t = solo.get(b, data(k), fmt, ini)
                        if t is None:
                            continue
                        p = os.path.join(sc.src, x)
                        fld = os.path.relpath(runs.folder_of(p, fmt), sc.path)
                        exp[fld] = None
                        for q, y in t.items():
                            exp[f"{fld}/{q}"] = y.replace(runs.HERE, os.path.dirname(p).encode()) if isinstance(y, bytes) and q.endswith("-log.txt") else y
                    d = runs.tree_diff(exp, runs.snapshot(sc.path))
                    if d:
                        raise Violation(f"{fmt}: {op[0]} {op[1]} fails for {sorted(bad)} of {srcs}: {d} (compared with each source alone)",
                                        sources=[list(s) for s in srcs], format=fmt, ini=ini)
                    acc.state("unreadable", fmt, op, kinds, n, mask)
                    acc.transitions += n
                    acc.traces += 1


def run(c):
    c.fresh = True
    c.bounds = {"lists": f"all lists of up to {pick(2, 3)} distinct sources x 4 contents (3 sources in one mode)",
                "stale": f"{len(STALE)} states x {len(NAMES)} names x 4 contents, all ordered pairs of names",
                "shapes": f"{len(set(shapes()))} names: every printable character in six places, and odd forms; names differing in "
                "case, blanks, dots or composition in one run",
                "runs": "all pairs of formats, same and different sources",
                "unreadable": "all subsets of up to 4 sources whose opening or 1st..3rd read fails, x 4 formats",
                "many": f"{pick(400, 1200)} sources in one run",
                "numbers": "sources holding all variants of each number, in three orders"}
    c.run(job_lists, [(f, k, pick(3 if f == "JARGO" else 2, 3)) for f in lib.FORMATS
                      for k in ("good", "dmg", "empty", "other")], "lists")
    c.run(job_stale, [(f, s) for f in pick(("JSON", "MARGO"), lib.FORMATS) for s in STALE], "stale folders")
    c.run(job_shapes, [(f, k, 4) for f in lib.FORMATS for k in range(4)], "name shapes")
    c.run(job_special, [(f,) for f in lib.FORMATS], "special")
    c.run(job_runs, [(lib.FORMATS, a, b) for a in ("good", "dmg") for b in ("other", "empty")], "run pairs")
    c.run(job_many, [(f, pick(n, 3 * n)) for f in lib.FORMATS for n in (40, 400)], "many sources")
    c.run(job_numbers, [(f, n) for n in R.ALL_NUMS for f in ("MARGO", "JSON", "JSON-B") if f != "MARGO" or n in R.MSM_NUMS],
          "numbers")
    c.run(job_unreadable, [(f, o) for f in lib.FORMATS for o in OPS], "unreadable sources")
    c.run(job_collision, [(f,) for f in lib.FORMATS], "colliding names")
