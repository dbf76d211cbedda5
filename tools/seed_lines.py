#!/usr/bin/env python3
"""Which planted bugs change no line of the original repository (or change lines added by fix commits)?"""
import glob, re, subprocess
base = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H"], text=True).split()[0]
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, ln, own, orig, adds = None, 0, 0, 0, 0
    for l in open(p, encoding="utf-8", errors="replace", newline="").read().split("\n"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", f], text=True, errors="replace").split("\n")
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if bl[ln - 1].lstrip("^")[:39] == base[:39]:
                orig += 1
            else:
                own += 1
            ln += 1
        elif l.startswith("+") and not l.startswith("+++"):
            adds += 1
        elif l.startswith(" "):
            ln += 1
    if not orig or own:
        print(p.split("/")[3], "original", orig, "fix-lines", own, "added", adds)
