#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS

ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
TECH = ("TLA+ specification; TLC decides every step recorded from the real code "
        "against it")
checks = []
for c in ids:
    if c not in CHECKS:
        continue
    k = CHECKS[c]
    tech = TECH
    if k.get("gen"):
        tech += "; behaviours generated by TLC are replayed into the code"
    if k.get("mc"):
        tech += "; the design is model-checked by TLC"
    checks.append({
        "property": c,
        "quick_cmd": "python3 run.py check %s --tier quick" % c,
        "thorough_cmd": "python3 run.py check %s --tier thorough" % c,
        "evidence_file": "evidence/%s.json" % c,
        "technique": tech,
        "level": "model_checking",
        "level_note": k["note"] + " Assumes: " + k["assumptions"]})
na = [{"property": i, "reason": "check under construction"} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "One TLA+ specification (spec/), one driver per property (drv/, runs under the "
              "repository's interpreter), run.py joins them. KNOWN_FINDINGS lists repaired "
              "defects and recorded findings. No hooks are needed in /repo."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
