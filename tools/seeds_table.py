#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two marks)."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | also caught by |", "| --- | --- | --- | --- |"]
also = json.load(open(root + "/tools/also.json")) if os.path.exists(root + "/tools/also.json") else {}
for p in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), also.get(i, "")))
d = open(root + "/DESIGN.md").read()
a, b = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->"
d = d[:d.index(a) + len(a)] + "\n".join(rows) + "\n" + d[d.index(b):]
open(root + "/DESIGN.md", "w").write(d)
