#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two markers) from seeded/*/meta.json and tools/caught.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], caught.get(b, "not run yet")))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
if a not in s:
    s = s.replace("(table: below, filled in when the planted bugs are complete)", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
