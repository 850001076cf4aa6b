#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read().split("<!-- bugs -->")[0]
s += "<!-- bugs -->\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    s += "| %s | %s | %s | %s |\n" % (i, m["property"], str(m["needs"]).replace("|", "/"), C.get(i, "?"))
open(p, "w").write(s)
