#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append((m["property"], f.split("/")[-2], m["needs"].replace("|", "\\|")))
rows.sort()
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
mark = "<!-- planted bugs: python3 mkseeds.py -->\n"
t = t.split(mark)[0] + mark + "\n| caught by | planted bug | needs |\n|---|---|---|\n" + "".join(
    f"| {a} | {b} | {c} |\n" for a, b, c in rows)
open(p, "w").write(t)
print(len(rows), "planted bugs")
