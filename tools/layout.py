"""Regenerates spec/layout.json: the data members ([name, type], in declaration order) each class had when the
specification was written. Members added later are unknown to the specification, and the analyses treat their values
as unmodelled; members that were only renamed are recognised by it (engine/program.py)."""
import json, sys
sys.path.insert(0, "/verif")
from engine.program import load
P = load()
out = {q: [[f["n"], f["t"]] for f in r["fields"]] for q, r in P.records.items() if q.startswith(("redsea::", "liquid::", "iconvpp::")) and r["fields"]}
json.dump(out, open("/verif/spec/layout.json", "w"), indent=0, sort_keys=True)
