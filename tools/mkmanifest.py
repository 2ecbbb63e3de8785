#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import CHECKS
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = ("Random structured generation against an explicit oracle; says nothing about cases that were not generated. Trusts the "
        "independent model in /verif/harness, the Go runtime, reflect and encoding/json.")
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": CHECKS[i].get("technique", "property-based testing (rapid) with an independent reference model"),
                 "level": CHECKS[i]["level"], "level_note": CHECKS[i].get("note", NOTE)} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in CHECKS],
     "notes": "No hooks in /repo: the checks use the exported API and the aminoscan binary only. Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
