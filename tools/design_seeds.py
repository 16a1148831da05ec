#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, "seeded")
rows = []
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, "meta.json")))
    rows.append("| %s | %s | %s |" % (m["property"], n, m["what_it_breaks"].replace("|", "\\|")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
i = s.index("## Planted bugs")
s = s[:i] + "## Planted bugs\n\n`seeded/<id>/` (patch, demonstration, meta). Each is caught by the quick check of its property:\n\n| property | bug | what it breaks |\n|---|---|---|\n" + "\n".join(sorted(rows)) + "\n"
open(p, "w").write(s)
