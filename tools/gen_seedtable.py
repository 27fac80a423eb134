#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt (lines 'id property scenario-or-MISSED')."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
for l in open(V + "/tools/caught.txt"):
    f = l.split()
    if len(f) >= 3: c[f[0]] = f[2]
d = open(V + "/DESIGN.md").read().split("## Planted bugs")[0].rstrip()
o = ["## Planted bugs", "", "Which check (quick) catches which of the changes in seeded/, and the scenario that reported it first:", "", "| change | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = m.split("/")[-2]; a = json.load(open(m))
    o.append("| %s | %s | %s | %s |" % (i, a["property"], a["needs"], c.get(i, "not run")))
open(V + "/DESIGN.md", "w").write(d + "\n\n" + "\n".join(o) + "\n")
