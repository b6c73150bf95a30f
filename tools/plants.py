#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ["| plant | what it needs | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    d = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (f.split("/")[-2], d["needs"], d["what_it_breaks"], d.get("caught_by", d["property"])))
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
a, b = "<!-- plants -->\n", "<!-- end of plants -->"
s = s[:s.index(a) + len(a)] + "\n".join(o) + "\n" + s[s.index(b):]
open(f, "w").write(s)
