#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import registry
NA = {"C39": "quantifies over analogue signals and floating-point DSP (filters, PLL, AGC, symbol timing) inside and outside "
             "this repository (liquid-dsp); no static argument in reach bounds the demodulator's output for every signal"}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for pid in props:
    c = registry.CHECKS.get(pid)
    if c is None:
        na.append({"property": pid, "reason": NA.get(pid, "no check has been built for this property yet")})
        continue
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": c.technique, "level": "other",
                   "level_note": c.note()})
json.dump({"version": 1, "setup_cmd": "bash extract/build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
