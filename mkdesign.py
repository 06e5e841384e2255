#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "DESIGN.md")
mark = "<!-- planted bugs -->\n"
head = open(path).read().split(mark)[0]
rows = ["| change | what it breaks | needs | by |", "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", name, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (name, m["what_it_breaks"], m["needs"], m["property"]))
open(path, "w").write(head + mark + "\n".join(rows) + "\n")
