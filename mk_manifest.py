#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and plans.py (development helper)."""
import json, os
import plans
R = os.path.dirname(os.path.abspath(__file__))
TECH = "Quint specification (simulated, invariants checked); its ITF traces replayed on the real constraint systems"
NOTES = {
    "C06": TECH + ", hint answers replaced by an enumerated malicious prover",
    "C07": TECH + ", hint answers replaced by an enumerated malicious prover",
    "C16": TECH + ", hint answers replaced by an enumerated malicious prover",
    "C31": "Quint specification (simulated, invariants checked); its ITF traces replayed on the real code with scripted stand-ins for the external tools",
    "C32": "Quint specification (simulated, invariants checked); its ITF traces replayed on the real code with scripted stand-ins for the external tools",
}
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in plans.PLANS:
        lv = plans.LEVELS.get(i, "exploration")
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i, "technique": NOTES.get(i, TECH),
                       "level": lv, "level_note": plans.LEVEL_NOTES.get(i, "bounded: sampled by the specification, small formats exhaustively")})
    else:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
