#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    also = m.get("also_caught_by", [])
    rows.append("| %s | %s | %s |" % (d, ", ".join([m["property"]] + also), m["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("<!-- table -->")] + "<!-- table -->\n"
open(p, "w").write(head + "\n".join(rows) + "\n")
