#!/usr/bin/env python3
"""Rewrites section 7's table of DESIGN.md from seeded/*/meta.json and
tools/catches.txt (lines "ID check[,check...]" as measured)."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
c = {}
for l in open(os.path.join(root, "tools/catches.txt")):
    a = l.split()
    if a: c[a[0]] = a[1] if len(a) > 1 else "-"
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    w = " ".join(m["what_it_breaks"].split())
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], c.get(d, "not measured"), w[:110]))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
mark = "<!-- table -->\n"
s = s.split(mark)[0].rstrip("\n") + "\n\n" + mark + "| bug | property | caught by | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
