#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
head, sep, _ = t.partition("<!-- planted -->")
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s | yes |" % (i, d["property"], " ".join(d["what_it_breaks"].split()), " ".join(d["needs"].split())))
open(p, "w").write(head + "<!-- planted -->\n| bug | caught by | what it breaks | needs | caught |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
print(len(rows))
