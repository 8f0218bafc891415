#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py (run by hand when spec.py changes)."""
import json, os
import spec
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in spec.PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in spec.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(os.path.join(here, "analysis", "checks", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    checks.append({
        "property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "All checks are static analyses of the MIR of /repo's current tree; see DESIGN.md."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
