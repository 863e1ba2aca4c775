"""writes MANIFEST.json from the plan (run by hand after changing the plan)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import plan
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.P:
        s = plan.P[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": s.get("technique", plan.TECH),
            "level": "model_checking",
            "level_note": s.get("note", plan.NOTE),
        })
    else:
        na.append({"property": i, "reason": plan.NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the code under test is compiled unmodified; see DESIGN.md. Repairs are listed in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
