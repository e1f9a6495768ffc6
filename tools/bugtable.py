#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it needs | caught |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m.get("caught", "yes")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
s = s.replace("BUGTABLE", t) if "BUGTABLE" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
