#!/usr/bin/env python3
"""Generate /verif/seeded/<id> from tools/seedsrc and validate (--validate [--check] [ids])."""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.environ.get("VDIR", "/verif")
sys.path.insert(0, V + "/tools/seedsrc")
import glob
import importlib
S = []
for f in sorted(glob.glob(V + "/tools/seedsrc/seeds*.py")):
    S += importlib.import_module(os.path.basename(f)[:-3]).S
args = sys.argv[1:]
val, chk = "--validate" in args, "--check" in args
allc = "--all" in args
ids = [a for a in args if not a.startswith("--")]


def make(s):
    id, prop, edits, needs, breaks, demo = s
    new = {}
    for f, a, b in edits:
        t = new.get(f) or open("/repo/" + f, encoding="utf-8", newline="").read()
        assert "\r\n" not in t or True
        if "\r\n" in t:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert t.count(a) >= 1, (id, f, a)
        assert t.count(a) == 1 or id in ("x",), (id, f, "ambiguous", t.count(a), a)
        new[f] = t.replace(a, b)
    out = f"{V}/seeded/{id}"
    os.makedirs(out, exist_ok=True)
    # diff via git in a scratch clone
    with tempfile.TemporaryDirectory() as d:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        for f, t in new.items():
            with open(f"{d}/r/{f}", "w", encoding="utf-8", newline="") as h:
                h.write(t)
        p = subprocess.run(["git", "-C", d + "/r", "diff"], capture_output=True, check=True).stdout
    assert p
    open(out + "/patch.diff", "wb").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo.py", "w").write("from demolib import *\n" + demo.strip("\n") + "\ndone()\n")
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    shutil.copy(V + "/tools/seedsrc/demolib.py", out + "/demolib.py")
    shutil.copy(V + "/mc/rtcm.py", out + "/rt.py")


def demo(id, repo):
    p = subprocess.run(["bash", f"{V}/seeded/{id}/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-300:]


def validate(s):
    id, prop = s[0], s[1]
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    r = d + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    msg = []
    try:
        c, o = demo(id, r)
        if c:
            msg.append(f"demo fails on clean tree: {o}")
        subprocess.run(["git", "-C", r, "apply", f"{V}/seeded/{id}/patch.diff"], check=True)
        c, o = demo(id, r)
        if c == 0:
            msg.append("demo passes with the bug")
        elif "DEMO:" not in o:
            msg.append("demo fails oddly: " + o)
        if chk:
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
            props = [f"C{i:02d}" for i in range(1, 26)] if allc else [prop]
            for q in props:
                p = subprocess.run([sys.executable, V + "/check.py", q], env=env, capture_output=True, text=True)
                hit = p.returncode == 1 and f"VIOLATION property={q}" in p.stdout
                msg.append(f"{q}={'CAUGHT' if hit else 'missed(rc=%d)' % p.returncode}")
                if not hit and p.returncode:
                    msg.append((p.stdout + p.stderr)[-400:])
    except Exception as e:
        msg.append(repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return id, prop, msg


sel = [s for s in S if not ids or s[0] in ids]
for s in sel:
    make(s)
print(len(sel), "made")
if val:
    with ThreadPoolExecutor(1 if chk else 6) as ex:
        for id, prop, msg in ex.map(validate, sel):
            print(prop, id, "; ".join(msg) or "ok", flush=True)
