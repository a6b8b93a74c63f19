#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property (caught by its check) | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s%s | %s | %s |" % (m.split("/")[-2], d["property"], "" if d.get("caught", True) else " (missed)", d["what_it_breaks"], d["needs"]))
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
