#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| | property | needs | breaks |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(top, "seeded")), key=lambda b: int(b[1:])):
    m = json.load(open(os.path.join(top, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"]))
path = os.path.join(top, "DESIGN.md")
text = open(path).read()
a, b = "<!-- bugs -->\n", "<!-- end of bugs -->"
text = text[:text.index(a) + len(a)] + "\n".join(rows) + "\n" + text[text.index(b):]
open(path, "w").write(text)
