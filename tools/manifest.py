#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property that has a check in checks/."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
notes = json.load(open(H + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{H}/checks/{i.lower()}.py") and i in notes:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "evidence_file": f"evidence/{i}.json",
                       "technique": notes[i]["technique"], "level": "model_checking", "level_note": notes[i]["note"]})
    else:
        na.append({"property": i, "reason": "the specification and its binding to the code are not finished yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks build /repo's sources unchanged against stand-ins for Kokkos and PDI kept in /verif/shim. Known findings: known_findings.txt."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "open:", [x["property"] for x in na])
