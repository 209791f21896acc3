#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s |\n" % (i, m["property"], m["needs"]))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(\| change \| check \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda x: x.group(1) + "".join(rows), s)
open(p, "w").write(s)
