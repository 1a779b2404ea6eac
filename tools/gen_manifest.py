#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/targets.py and properties.jsonl.  Not run by any check."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from harness.targets import TARGETS
NA = {
}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TARGETS:
        t = TARGETS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"./check.py {i} --thorough",
            technique=t.get("technique", "property-based testing: generated cases against a reference model, with shrinking"),
            level="exploration",
            level_note=t.get("note", "Random search over generated inputs, reproducible from VERIF_SEED; no failure among the cases counted in the evidence.") +
              (" Assumes: " + "; ".join(t["assumptions"]) if t.get("assumptions") else "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check has been built for it yet.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="check.py builds each harness from /repo's current sources (cmake is not involved) in /verif/.build*, then runs it; see DESIGN.md."),
    open(H + "/MANIFEST.json", "w"), indent=1)
