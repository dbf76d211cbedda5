"""C19: configuration: all option settings in defaults and user file, spellings, order, missing or invalid defaults."""
import itertools
import json
import os
import subprocess
import sys

from . import core, lib, ref, rtcm as R, runs, sut
from .core import Violation, pick

LEVEL = "model_checking"
NOTE = ("all 32x243 boolean settings of defaults and user file, spellings, integer options, orders and each missing or "
        "invalid default; effective values are observed in the products of probe streams")
ALL = ("MARGO", "JSON", "JSON-B", "JARGO")
BOOL = [("MARGO", "HCA", "hca"), ("MARGO", "LOCK_TIME", "lt"), ("JSON", "ENABLE_PRETTY_VIEW", "pretty"),
        ("JSON", "ENABLE_HDR_DATA", "hdr"), ("JSON", "ENABLE_AUX_DATA", "aux")]
TOD, DAYN = 50000000, 3


def probe():
    sats = list(range(1, 25))
    p = [R.msm_fill(1084, sats, [2], [(s, 2) for s in sats], 5, {"time": DAYN << 27 | TOD})]
    p += [R.eph(1019, {})]
    return b"".join(p)


PROBE = probe()


def is_pretty(raw, n=1):
    return raw.count(b"\n") + raw.count(b"\r") > 3 * (n + 1) + 2


def look(f, files):
    """Effective option values seen in the products of the probe."""
    out = {}
    if f in ("MARGO", "JARGO"):
        names = [x.rsplit("/", 1)[-1] for x in files if x.endswith(".obs")]
        out["hca"] = any(n[1] == "A" for n in names)
        out["lt"] = any(n[1] == "T" for n in names)
        o = ref.Obs(files["GLN/RC1C_MSM4.obs"], "")
        d = (int(o.rows[0][0]) - (TOD + DAYN * 86400000 - 10800000)) % 604800000
        out["shift"] = (d if d < 302400000 else d - 604800000) / 1000
        out["lit"] = {s: round((float(o.h2[s]) - float(o.h2[0])) / 0.5625, 3) for s in range(1, 25)}
    if f in ("JSON", "JSON-B"):
        _t, ob = ref.parse_json_product(files[R.JSON_FILE[1084]])
        body = next(iter(ob[0].values()))
        out["hdr"], out["aux"] = "hdr" in body, "aux" in body
    if f != "MARGO":
        out["pretty"] = is_pretty(files[R.JSON_FILE[1019]])
    return out


def observe(sc, args, fmts=("MARGO", "JSON"), names=("p",)):
    """[(format, source, effective values or None if nothing was converted, result)]"""
    out = []
    for f in fmts:
        sc.clean()
        ps = [sc.put(f"s/{n}.rtcm3", PROBE) for n in names]
        sut.main(["-o", f] + list(args) + ps, argv=True)
        for n in names:
            r = sut.Result(os.path.join(sc.src, f"{n}-{f}"), n)
            out.append((f, n, look(f, r.files) if r.files else None, r))
    return out


def expect(sc, acc, args, want, what, ini, user, keys=None, fmts=("MARGO", "JSON"), names=("p",)):
    acc.transitions += len(fmts)
    acc.traces += 1
    acc.state(ini, user)
    for f, n, got, r in observe(sc, args, fmts, names):
        if got is None:
            raise Violation(f"{what}: source {n} ({f}): nothing was converted", defaults=ini, user=user,
                            log=r.logtext[-500:])
        for k, v in want.items():
            if k in got and got[k] != v:
                raise Violation(f"{what}: source {n} ({f}): option {k} is {got[k]!r} instead of {v!r}", defaults=ini,
                                user=user)


def want_of(cfg):
    return dict(hca=cfg.hca, lt=cfg.lt, pretty=cfg.pretty, hdr=cfg.hdr, aux=cfg.aux, shift=cfg.shift, lit=cfg.lit)


def ini_of(items, seps=(" = ",)):
    """items: list of (section, [(option, value)])"""
    s, i = "", 0
    for sec, opts in items:
        s += f"[{sec}]\n"
        for o, v in opts:
            s += f"{o}{seps[i % len(seps)]}{v}\n"
            i += 1
    return s


def items_of(cfg):
    tf = {True: "true", False: "false"}
    return [("MARGO", [("HCA", tf[cfg.hca]), ("LOCK_TIME", tf[cfg.lt])]),
            ("JSON", [("ENABLE_PRETTY_VIEW", tf[cfg.pretty]), ("ENABLE_HDR_DATA", tf[cfg.hdr]),
                      ("ENABLE_AUX_DATA", tf[cfg.aux])]),
            ("TIME", [("GPS2UTC", cfg.shift)]),
            ("LITERALS", [(f"R{k}", v) for k, v in sorted(cfg.lit.items())])]


def write(sc, ini, user=None):
    sc.put("defaults.ini", ini)
    if user is None:
        return []
    sc.put("user.ini", user)
    return ["-i", os.path.join(sc.path, "user.ini")]


def job_bools(acc, dbits):
    """One default setting x all 243 user settings."""
    d = {k: bool(dbits >> i & 1) for i, (_s, _o, k) in enumerate(BOOL)}
    with sut.Scratch() as sc:
        for us in itertools.product((None, False, True), repeat=5):
            cfg = ref.Cfg(**d)
            sec = {}
            for (s, o, k), v in zip(BOOL, us):
                if v is not None:
                    setattr(cfg, k, v)
                    sec.setdefault(s, []).append((o, "true" if v else "false"))
            ini, user = ref.Cfg(**d).ini(), ini_of(list(sec.items()))
            args = write(sc, ini, user if sec else None)
            expect(sc, acc, args, want_of(cfg), f"defaults {d}, user {us}", ini, user, fmts=ALL)
        acc.sample({"defaults": d, "user": us}, 1)


SPELL = {True: ["true", "True", "TRUE", "yes", "Yes", "on", "ON", "1"],
         False: ["false", "False", "FALSE", "no", "No", "off", "OFF", "0"]}


def job_spell(acc, i):
    """Every spelling of one option in the defaults and in the user file."""
    s, o, k = BOOL[i]
    with sut.Scratch() as sc:
        for v in (True, False):
            for sp in SPELL[v]:
                for base in (True, False):
                    cfg = ref.Cfg(**{x: base for _s, _o, x in BOOL})
                    setattr(cfg, k, v)
                    items = [(a, [(b, sp if (a, b) == (s, o) else c) for b, c in l]) for a, l in items_of(cfg)]
                    ini = ini_of(items)
                    expect(sc, acc, write(sc, ini), want_of(cfg), f"defaults {o} = {sp}", ini, "")
                    d = ref.Cfg(**{x: base for _s, _o, x in BOOL})
                    for opt in (o, o.lower(), o.capitalize()):
                        user = f"[{s}]\n{opt} = {sp}\n"
                        expect(sc, acc, write(sc, d.ini(), user), want_of(cfg), f"user {opt} = {sp}", d.ini(), user)


def job_ints(acc, part):
    """GPS-UTC shift and literals in defaults and user file, singly and together."""
    with sut.Scratch() as sc:
        d = ref.Cfg(pretty=False)
        if part == 0:
            for sh in list(range(0, pick(41, 61))) + [-3, 100]:
                c = ref.Cfg(pretty=False, shift=sh)
                expect(sc, acc, write(sc, c.ini()), want_of(c), f"default shift {sh}", c.ini(), "", fmts=("MARGO", "JARGO"))
                u = f"[TIME]\nGPS2UTC : {sh}\n"
                expect(sc, acc, write(sc, d.ini(), u), want_of(c), f"user shift {sh}", d.ini(), u, fmts=("MARGO", "JARGO"))
            return
        for s in range(1, 25):
            if s % 4 != part - 1:
                continue
            for v in (-7, 0, 6, 13, d.lit[s] + 1):
                c = ref.Cfg(pretty=False, lit={s: v})
                expect(sc, acc, write(sc, c.ini()), want_of(c), f"default literal R{s}={v}", c.ini(), "",
                       fmts=("MARGO", "JARGO"))
                for key in (f"R{s}", f"r{s}"):
                    u = f"[LITERALS]\n{key} : {v}\n"
                    expect(sc, acc, write(sc, d.ini(), u), want_of(c), f"user literal {key}={v}", d.ini(), u,
                           fmts=("MARGO", "JARGO"))
            for t in range(s + 1, 25):
                c = ref.Cfg(pretty=False, lit={s: 9, t: -5})
                u = f"[LITERALS]\nR{t} = -5\nR{s} = 9\n"
                expect(sc, acc, write(sc, d.ini(), u), want_of(c), f"user literals R{s}, R{t}", d.ini(), u,
                       fmts=("MARGO", "JARGO"))
            # a literal together with options of other sections
            for (sec, o, k), v in itertools.product(BOOL, (True, False)):
                c = ref.Cfg(lit={s: 2}, shift=20)
                setattr(c, k, v)
                u = f"[{sec}]\n{o} = {'on' if v else 'off'}\n[LITERALS]\nR{s} = 2\n[TIME]\nGPS2UTC = 20\n"
                expect(sc, acc, write(sc, ref.Cfg().ini(), u), want_of(c), f"user literal R{s} and {o}", ref.Cfg().ini(), u)


def job_order(acc, part):
    cfg = ref.Cfg(hca=True, lt=False, pretty=False, hdr=True, aux=False, shift=21, lit={4: 3, 20: -2})
    items = items_of(cfg)
    with sut.Scratch() as sc:
        for k, perm in enumerate(itertools.permutations(range(4))):
            if k % 4 != part:
                continue
            for rot in range(3):
                it = [(items[i][0], items[i][1][rot:] + items[i][1][:rot] if rot < 2 else items[i][1][::-1])
                      for i in perm]
                for seps in ((" = ",), (":",), ("=", " : ")):
                    ini = "# comment\n" + ini_of(it, seps).replace("[TIME]", "\n; note\n[TIME]")
                    expect(sc, acc, write(sc, ini), want_of(cfg), f"section order {perm}, options {rot}", ini, "", fmts=ALL)
                    base = ref.Cfg(hca=False, lt=True, pretty=True, hdr=False, aux=True).ini()
                    expect(sc, acc, write(sc, base, ini), want_of(cfg), f"user section order {perm}", base, ini, fmts=ALL)


def aborted(sc, acc, args, what, ini, user=""):
    for f in ("MARGO", "JSON", "JSON-B", "JARGO"):
        sc.clean()
        names = ["p.rtcm3", "q.rtcm3"]
        ps = [sc.put("s/" + n, PROBE) for n in names]
        try:
            sut.main(["-o", f] + list(args) + ps, argv=True)
        except sut.Crash as e:
            raise Violation(f"{what} ({f}): {e}", defaults=ini, user=user)
        acc.transitions += 1
        acc.traces += 1
        acc.state(ini, user, f)
        for n in ("p", "q"):
            r = sut.Result(os.path.join(sc.src, f"{n}-{f}"), n)
            if r.files:
                raise Violation(f"{what} ({f}): products {sorted(r.files)[:3]} in spite of invalid defaults",
                                defaults=ini, user=user)
            if r.log is None or "terminated" not in r.verdict() or "ok" in r.verdict():
                raise Violation(f"{what} ({f}): the log of {n} does not tell that nothing was converted: "
                                f"{r.logtext[-200:]!r}", defaults=ini, user=user)


def job_missing(acc, part):
    items = items_of(ref.Cfg())
    cases = []
    for i, (s, opts) in enumerate(items):
        cases.append((f"section {s} missing", [x for x in items if x[0] != s], (s, opts)))
        for j, (o, v) in enumerate(opts):
            cases.append((f"option {o} missing", [(a, [q for q in b if (a, q[0]) != (s, o)]) for a, b in items],
                          (s, [(o, v)])))
            for badv in ("maybe", "", "1.5"):
                cases.append((f"option {o} = {badv!r}", [(a, [(q, badv if (a, q) == (s, o) else w) for q, w in b])
                                                         for a, b in items], None))
        cases.append((f"section {s} empty", [(a, b if a != s else []) for a, b in items], None))
    with sut.Scratch() as sc:
        for k, (what, it, lost) in enumerate(cases):
            if k % 8 != part:
                continue
            ini = ini_of(it)
            aborted(sc, acc, write(sc, ini), what, ini)
            if lost is not None:
                user = ini_of([lost])
                aborted(sc, acc, write(sc, ini, user), what + ", present in the user file", ini, user)
        if part == 0:
            for what, ini in (("empty defaults", ""), ("garbage defaults", "\x00\x01garbage\n"),
                              ("defaults without sections", "HCA = true\n")):
                aborted(sc, acc, write(sc, ini), what, ini)
            os.remove(os.path.join(sc.path, "defaults.ini"))
            aborted(sc, acc, [], "no defaults.ini", "")


def job_user_edge(acc):
    """User files that set nothing leave the defaults in force."""
    with sut.Scratch() as sc:
        for b in range(32):
            cfg = ref.Cfg(**{k: bool(b >> i & 1) for i, (_s, _o, k) in enumerate(BOOL)})
            for user in ("", "[OTHER]\nHCA = true\n", "[MARGO]\n", "[JSON]\n[TIME]\n"):
                expect(sc, acc, write(sc, cfg.ini(), user), want_of(cfg), f"user file {user!r}", cfg.ini(), user)
            expect(sc, acc, write(sc, cfg.ini()) + ["-i", os.path.join(sc.path, "absent.ini")], want_of(cfg),
                   "absent user file", cfg.ini(), "absent")


PATHS = ["user.ini", "./user.ini", "sub/user.ini", "./sub/user.ini", "sub/../user.ini", "../{cwd}/user.ini", "{abs}/user.ini",
         "{abs}/./sub/user.ini", ".user.ini", "./.user", "sub/.x/user.ini", "USER.INI", "user", "user.txt", "user.ini.bak", "my user.ini",
         "\u00e4\u0444.ini", "a.b.ini", "sub/defaults.ini", "-x.ini", "{abs}/-x.ini", "s/user.ini", "user[1].ini", "%x.ini", "~u.ini",
         "$U.ini", "user=1.ini", "x" * 120 + ".ini", "0", "MARGO", "MARGO.ini", "JSON.ini"]
LAYOUTS = {"plain": lambda t: t, "crlf": lambda t: t.replace("\n", "\r\n"), "cr": lambda t: t.replace("\n", "\r"),
           "no newline at the end": lambda t: t.rstrip("\n"), "blank lines": lambda t: "\n\n" + t.replace("\n", "\n\n"),
           "comments": lambda t: "# c\n" + t.replace("\n", "\n; HCA = maybe\n# R1 = 3\n"), "blanks behind": lambda t: t.replace("\n", "  \n"),
           "no blanks": lambda t: t.replace(" ", ""), "colons": lambda t: t.replace(" = ", " : "),
           "upper": lambda t: "\n".join(x if x.startswith("[") else x.upper() for x in t.split("\n")),
           "lower": lambda t: "\n".join(x if x.startswith("[") else x.lower() for x in t.split("\n")),
           "other sections": lambda t: "[A]\nHCA = 7\n" + t + "[Z]\nR1 = x\nGPS2UTC = y\n",
           "unknown options": lambda t: t.replace("[MARGO]\n", "[MARGO]\nNEW = 1\n").replace("[JSON]\n", "[JSON]\nHCA = z\n")
           .replace("[TIME]\n", "[TIME]\nLOCK_TIME = q\n")}
PLACES = [lambda a, i, s: ["-i", i, "-o", a, s], lambda a, i, s: ["-o", a, "-i", i, s], lambda a, i, s: [s, "-o", a, "-i", i],
          lambda a, i, s: ["--ini", i, "--output", a, s], lambda a, i, s: [f"--ini={i}", f"--output={a}", s],
          lambda a, i, s: [s, f"-i{i}", f"-o{a}"]]


def job_paths(acc, part):
    """The user file under any path, in any layout and at any place of the command line."""
    cfgs = [(ref.Cfg(), ref.Cfg(hca=True, lt=True, pretty=False, hdr=False, aux=False, shift=31, lit={s: s % 14 - 7 for s in range(1, 25)})),
            (ref.Cfg(hca=True, lt=True, shift=3), ref.Cfg(pretty=False, hdr=True, aux=False, shift=40, lit={24: -7, 1: 6}))]
    k = 0
    with sut.Scratch() as sc:
        for path in PATHS:
            for lay, fn in LAYOUTS.items():
                for d, u in cfgs:
                    if lay != "plain" and path != "user.ini":
                        continue
                    k += 1
                    if k % 8 != part:
                        continue
                    sc.clean()
                    p = path.format(abs=sc.path, cwd=os.path.basename(sc.path))
                    os.makedirs(os.path.join(sc.path, "sub/.x"), exist_ok=True)
                    os.makedirs(os.path.join(sc.path, "s"), exist_ok=True)
                    user = fn(ini_of(items_of(u)))
                    sc.put("defaults.ini", fn(d.ini()) if lay != "cr" else d.ini())
                    own = sc.put(os.path.relpath(os.path.normpath(os.path.join(sc.path, p)), sc.path), user)
                    src = sc.put("s/p.rtcm3", PROBE)
                    for f, pl in [(f, pl) for f in ALL for pl in PLACES]:
                        if p.startswith("-") and pl not in PLACES[4:5]:
                            continue
                        args = pl(f, p, src)
                        acc.state(p, lay, d.key(), tuple(args))
                        acc.transitions += 1
                        acc.traces += 1
                        sut.main(args, argv=True)
                        r = sut.Result(os.path.join(sc.src, f"p-{f}"), "p")
                        if not r.files:
                            raise Violation(f"user file {p!r} ({lay}), arguments {args[:-1]}: nothing was converted", user=user, format=f)
                        got = look(f, r.files)
                        for key, v in want_of(u).items():
                            if key in got and got[key] != v:
                                raise Violation(f"user file {p!r} ({lay}), arguments {args[:-1]}: option {key} is {got[key]!r} instead of {v!r}",
                                                user=user, format=f)
                    os.remove(own)
        acc.sample({"user file": PATHS[part], "layouts": sorted(LAYOUTS)}, 1)


KEYS = {"R01": "R{:02d}", "r1": "r{}", "1": "{}", "01": "{:02d}", "r001": "r{:03d}"}


def keys_body(acc):
    """Every spelling of a satellite in [LITERALS] of the user file, alone and mixed, over the R1 of the defaults."""
    d = ref.Cfg(pretty=False)
    users = []
    for n, (name, form) in enumerate(sorted(KEYS.items())):
        for lo, hi in ((1, 24), (1, 9), (10, 24)):
            users.append((f"R{lo}..R{hi} as {name}", [(form.format(s), s) for s in range(lo, hi + 1)]))
        forms = sorted(KEYS.values())
        users.append((f"mixed spellings {n}", [(forms[(s + n) % len(forms)].format(s), s) for s in range(1, 25)]))
    for s in range(1, 25):
        users += [(f"R{s} as {name}", [(form.format(s), s)]) for name, form in sorted(KEYS.items())]
    with sut.Scratch() as sc:
        for what, rows in users:
            lit = {s: (d.lit[s] + 3 + s) % 14 - 7 for _k, s in rows}
            c = ref.Cfg(pretty=False, lit=lit)
            u = "[LITERALS]\n" + "".join(f"{k} = {lit[s]}\n" for k, s in rows)
            expect(sc, acc, write(sc, d.ini(), u), want_of(c), f"user literals {what}", d.ini(), u, fmts=("MARGO",))


def job_keys(acc, seed):
    """keys_body in a process of its own with the given string hashing: sets and the like iterate in another order."""
    code = ("import sys, json; sys.path.insert(0, %r)\nfrom mc import c19, core\nacc = core.Acc()\n"
            "try:\n    c19.keys_body(acc); v = None\nexcept core.Violation as e:\n    v = str(e)\n"
            "print('\\n@@' + json.dumps([v, sorted(acc.states), acc.transitions, acc.traces]))" % core.ROOT)
    p = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(seed)),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    out = p.stdout.rsplit("@@", 1)
    if p.returncode or len(out) != 2:
        raise Violation(f"configuration with string hashing {seed}: the process failed", stderr=p.stderr[-2000:])
    v, states, tr, n = json.loads(out[1])
    acc.states.update(states)
    acc.transitions += tr
    acc.traces += n
    acc.sample({"PYTHONHASHSEED": seed, "user files": n}, 1)
    if v:
        raise Violation(f"string hashing {seed}: {v}", hash_seed=seed)


def job_sequence(acc, fmts):
    """Runs with different settings in one process do not influence each other."""
    cfgs = [ref.Cfg(), ref.Cfg(hca=True, lt=True, pretty=False, hdr=False, aux=False, shift=30, lit={s: 0 for s in range(1, 25)}),
            ref.Cfg(hca=True, shift=0, lit={1: 5}), ref.Cfg(lt=True, aux=False)]
    with sut.Scratch() as sc:
        for seq in itertools.product(range(4), repeat=3):
            for i in seq:
                use_user = (sum(seq) + i) % 2
                if use_user:
                    a = write(sc, cfgs[0].ini(), cfgs[i].ini())
                else:
                    a = write(sc, cfgs[i].ini())
                expect(sc, acc, a, want_of(cfgs[i]), f"run sequence {seq}", cfgs[i].ini(), str(seq), fmts=fmts,
                       names=("p", "q", "r") if sum(seq) % 3 == 0 else ("p",))


_WIDE = {}


def wide():
    """All 64 numbers, three messages each; MSM cells with and without half-cycle ambiguity."""
    if not _WIDE:
        _WIDE["s"] = b"".join(lib.good(n, k) for k in (1, 4, 6) for n in R.ALL_NUMS)
    return _WIDE["s"]


def whole(acc, sc, fmt, cfg, args, names, ini, user, gold):
    """Every file of every source shows the effective options."""
    sc.clean()
    ps = [sc.put(f"s/{n}.rtcm3", wide()) for n in names]
    sut.main(["-o", fmt] + list(args) + ps, argv=True, cpu=60)
    acc.transitions += len(names)
    acc.traces += 1
    acc.state(ini, user, fmt)

    def bad(n, p, t):
        raise Violation(f"all messages ({fmt}), source {n}: {p}: {t}", defaults=ini, user=user, stream=wide())
    for n in names:
        r = sut.Result(os.path.join(sc.src, f"{n}-{fmt}"), n)
        if not r.files:
            bad(n, "-", "nothing was converted")
        for p, raw in r.files.items():
            name = p.rsplit("/", 1)[-1]
            if p.endswith(".json"):
                _t, ob = ref.parse_json_product(raw)
                if is_pretty(raw, len(ob)) != cfg.pretty:
                    bad(n, p, f"pretty view is not {cfg.pretty}")
                if p.startswith("MSM"):
                    for o in ob:
                        body = next(iter(o.values()))
                        if ("hdr" in body) != cfg.hdr or ("aux" in body) != cfg.aux:
                            bad(n, p, f"sections {sorted(body)} with header {cfg.hdr}, auxiliary {cfg.aux}")
                continue
            if not cfg.hca and name[1] == "A" or not cfg.lt and name[1] == "T":
                bad(n, p, "output although disabled")
            o = ref.Obs(raw, p)
            if name[0] == "R":
                f0, fr = ref.margo_freqs("R", name[2:4], cfg)
                for s in range(1, 25):
                    if abs(float(o.h2[s]) - fr[s - 1]) > 1e-4:
                        bad(n, p, f"satellite {s}: carrier {o.h2[s]} instead of {fr[s - 1]}")
        if fmt in ("MARGO", "JARGO"):
            want = {p for p in gold if p.endswith(".obs") and (cfg.hca or p.rsplit("/", 1)[-1][1] != "A")
                    and (cfg.lt or p.rsplit("/", 1)[-1][1] != "T")}
            got = {p for p in r.files if p.endswith(".obs")}
            if want != got:
                bad(n, sorted(want ^ got)[0], "present or absent against the half-cycle and lock-time options")
            for p in want:
                name = p.rsplit("/", 1)[-1]
                a, b = ref.Obs(gold[p], p), ref.Obs(r.files[p], p)
                if len(a.rows) != len(b.rows):
                    bad(n, p, "rows depend on the options")
                flag = None
                if name[1] == "L" and not cfg.hca:
                    q = p[:-len(name)] + name[0] + "A" + name[2:]
                    flag = {c[0]: c for c in ref.Obs(gold[q], q).rows}
                for x, y in zip(a.rows, b.rows):
                    want_t = int(x[0])
                    if name[0] == "R":
                        want_t = (want_t + (cfg.shift - 18) * 1000) % 604800000
                    if int(y[0]) != want_t:
                        bad(n, p, f"epoch {y[0]} instead of {want_t} with shift {cfg.shift}")
                    for k in range(1, len(x)):
                        gone = ref.is_nan(x[k]) or flag is not None and flag[x[0]][k].strip() == "1"
                        if ref.is_nan(y[k]) != gone:
                            bad(n, p, f"satellite {k}: {y[k]} with half-cycle output {cfg.hca} ({x[k]} with it)")


def job_wide(acc, b, fmt):
    """All 32 settings x (defaults, user file) x all messages, several sources in one run."""
    with sut.Scratch() as sc:
        gold = sut.convert(sc, wide(), fmt, ref.Cfg(hca=True, lt=True)).files
        cfg = ref.Cfg(**{k: bool(b >> i & 1) for i, (_s, _o, k) in enumerate(BOOL)}, shift=18 + b % 3 * 7 - 7,
                      lit={1 + b % 24: 9, 1 + (b * 7 + 3) % 24: -4})
        inv = ref.Cfg(**{k: not b >> i & 1 for i, (_s, _o, k) in enumerate(BOOL)}, shift=3, lit={s: 1 for s in range(1, 25)})
        whole(acc, sc, fmt, cfg, write(sc, cfg.ini()), ("p", "q"), cfg.ini(), "", gold)
        whole(acc, sc, fmt, cfg, write(sc, inv.ini(), cfg.ini()), ("p", "q", "r"), inv.ini(), cfg.ini(), gold)


def run(c):
    c.bounds = {"booleans": "32 default x 243 user settings", "spellings": "16 spellings x 5 options x both files",
                "integers": "shifts 0..40, each literal x 5 values, all pairs of literals",
                "literal keys": "5 spellings of each satellite, alone and mixed, x 8 (64) string hashings",
                "order": "24 section orders x 3 option orders x 3 delimiters",
                "missing/invalid": "every single option and section missing, empty or invalid, with/without user file",
                "all messages": "32 settings x 4 formats x both files, every product of every number, 2-3 sources"}
    c.run(job_missing, [(i,) for i in range(8)], "missing defaults")
    c.run(job_bools, [(d,) for d in range(32)], "booleans")
    c.run(job_spell, [(i,) for i in range(5)], "spellings")
    c.run(job_ints, [(i,) for i in range(5)], "integers")
    c.run(job_order, [(i,) for i in range(4)], "order")
    c.run(job_user_edge, [()], "neutral user files")
    c.run(job_paths, [(i,) for i in range(8)], "user file paths and layouts")
    c.run(job_keys, [(i,) for i in range(pick(8, 64))], "literal spellings x string hashing")
    c.run(job_sequence, [(ALL[:2],), (ALL[2:],)], "run sequences")
    c.run(job_wide, [(b, f) for b in range(32) for f in ALL], "all messages")
