#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, between its two markers, from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + b + "/meta.json"))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"] + " quick")))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
