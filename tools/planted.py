#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/caught.txt (id, checks that catch it)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.strip().split(None, 1) for l in open(os.path.join(H, "tools", "caught.txt")) if l.strip())
rows = []
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| `%s` | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], caught.get(i, "not yet run")))
p = os.path.join(H, "DESIGN.md"); s = open(p).read()
head = s[:s.index("| change | property |")]
s = head + "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
