#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catches.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/catches.json"))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = m.split("/")[-2]
    d = json.load(open(m))
    rows.append((d["property"], i, d["what_it_breaks"].replace("|", "/"), c.get(i, "?")))
rows.sort()
t = ["## Planted bugs and the checks that catch them", "",
     "Sources in tools/seedsrc, generator/validator tools/make_seeds.py; every bug passes the stable tests and its "
     "demonstration.  'caught' = the quick check of its property exits 1 with the VIOLATION line.", "",
     "| property | bug | breaks | own check |", "|---|---|---|---|"]
t += [f"| {a} | {b} | {x} | {y} |" for a, b, x, y in rows]
s = open(V + "/DESIGN.md").read().split("## Planted bugs and the checks")[0].rstrip("\n")
open(V + "/DESIGN.md", "w").write(s + "\n\n" + "\n".join(t) + "\n")
n = sum(1 for r in rows if r[3].startswith("caught"))
print(len(rows), "bugs,", n, "caught")
