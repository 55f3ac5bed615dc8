#!/usr/bin/env python3
"""Puts the table of planted bugs (meta/catches.json) into DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
c = json.load(open(here + "/catches.json"))
rows = ["| bug | breaks | needs | caught by its check |", "|---|---|---|---|"]
for i in sorted(c, key=lambda i: (c[i][0], i)):
    p = here + "/../seeded/" + i + "/meta.json"
    if not os.path.exists(p): continue
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (i, c[i][0], m["needs"].replace("|", "\\|"), "yes" if c[i][1] else "**no**"))
p = here + "/../DESIGN.md"
t = open(p).read()
a, b = t.index("<!-- CATCHES -->"), t.index("<!-- /CATCHES -->")
open(p, "w").write(t[:a] + "<!-- CATCHES -->\n" + "\n".join(rows) + "\n" + t[b:])
