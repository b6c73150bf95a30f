#!/usr/bin/env python3
"""Regenerates the per-property section of DESIGN.md from properties.jsonl and the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import registry
import importlib.util
src = open(os.path.join(HERE, "tools", "manifest.py")).read()
na = {}
exec(src[src.index("NA = "):src.index("props = ")], {}, na)
NA = na["NA"]


def jobname(js):
    out = {}
    for j in js:
        if j[0] == "station":
            out.setdefault("station transfer function", []).append(str(j[1]))
        else:
            out.setdefault(j[0] + "." + j[1], []).append(" ".join(str(x) for x in j[2:]))
    r = []
    for k, v in out.items():
        v = [x for x in v if x]
        if k.startswith("station") and len(v) == 33:
            v = ["all 32 group types and C"]
        r.append(k + (" (" + ", ".join(v) + ")" if v else ""))
    return "; ".join(r)


o = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    c = registry.CHECKS.get(p["id"])
    o.append("### %s %s\n" % (p["id"], p["title"]))
    if c is None:
        o.append("Not applicable: %s.\n" % NA[p["id"]])
        continue
    o.append("* Rule: %s." % c.rule.rstrip("."))
    o.append("* How: %s" % c.explain)
    if len(c.jobs) >= len(registry.EVERY):
        o.append("* Analyses: the union of those of all other checks (%d)." % len(c.jobs))
    else:
        o.append("* Analyses: %s." % jobname(c.jobs))
    if c.thorough:
        o.append("* Thorough tier adds: %s." % jobname(c.thorough))
    o.append("")
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
a, b = "<!-- properties -->\n", "<!-- end of properties -->"
s = s[:s.index(a) + len(a)] + "\n".join(o) + s[s.index(b):]
open(f, "w").write(s)
