#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (for the author; no check uses it)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cat = json.load(open(V + "/seeded/caught.json")) if os.path.exists(V + "/seeded/caught.json") else {}
out = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], cat.get(i, "?")))
p = V + "/DESIGN.md"
s = open(p).read()
mark = "<!-- table -->\n"
s = s.split(mark)[0] + mark + "\n".join(out) + "\n"
open(p, "w").write(s)
