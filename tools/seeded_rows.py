#!/usr/bin/env python3
"""Adds rows for seeded changes that DESIGN.md's table lacks.
usage: seeded_rows.py id="note" ...   (default note: caught)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = dict(a.split("=", 1) for a in sys.argv[1:])
d = open(V + "/DESIGN.md").read()
head, body = d.split("| change | check | needs | first run |\n", 1)
lines = body.split("\n")
n = next((i for i, l in enumerate(lines) if not l.startswith("|")), len(lines))
rows = lines[1:n]
have = {r.split("|")[1].strip() for r in rows}
for s in sorted(os.listdir(V + "/seeded")):
    if s not in have:
        m = json.load(open(V + "/seeded/%s/meta.json" % s))
        rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], notes.get(s, "caught")))
rows = sorted(r for r in rows if os.path.isdir(V + "/seeded/" + r.split("|")[1].strip()))
open(V + "/DESIGN.md", "w").write(head + "| change | check | needs | first run |\n" + "\n".join([lines[0]] + rows + lines[n:]))
