"""Regenerate MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(HERE, "tools", "technique.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH["checks"] and os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        t = TECH["checks"][i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 /verif/run.py %s" % i,
            "thorough_cmd": "python3 /verif/run.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t["technique"],
            "level": "other",
            "level_note": t["note"],
        })
    else:
        na.append({"property": i, "reason": TECH["na"].get(i, "Not claimed: the analysis that would decide it is not built.")})
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. All checks are static: they parse /repo's current source and tables on every run; nothing of /repo is imported or executed."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
