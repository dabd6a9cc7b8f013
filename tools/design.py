#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(os.path.join(V, "tools", "missed.json")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split("<!-- seeds -->")[0]
rows = ["<!-- seeds -->", "", "| id | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    by = m["property"]
    if d in missed:
        by += ", first missed" + (": " + missed[d] if missed[d] else "")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), by))
open(p, "w").write(s + "\n".join(rows) + "\n")
