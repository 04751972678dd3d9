#!/usr/bin/env python3
"""Regenerates the table of planted changes at the end of DESIGN.md"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "<!-- seeds: tools/mkseeds.py -->\n"
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded")), key=lambda d: (json.load(open(os.path.join(root, "seeded", d, "meta.json")))["property"], d)):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| {} | {} | {} | {} |".format(d, m["property"], *(m[k].replace("|", "\\|").replace("\n", " ") for k in ("what_it_breaks", "needs"))))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = s[: s.index(mark)] + mark
open(p, "w").write(head + "\n| seed | caught by | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
