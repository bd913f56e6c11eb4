#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(H, "tools", "caught.json")))
rows = ["| bug | property | what it does | caught by |", "|-----|----------|--------------|-----------|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/")[:160], caught.get(d, "?")))
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
t = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
if "BUGTABLE" in s:
    s = s.replace("BUGTABLE", t)
else:
    s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
