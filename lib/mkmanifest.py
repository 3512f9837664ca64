"""Writes MANIFEST.json from the plan."""
import json, os
from plan import PLAN, NOTES
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": PLAN[i].get("technique", NOTES["technique"]), "level": PLAN[i]["level"],
                       "level_note": PLAN[i].get("note", NOTES["note"])})
    else:
        na.append({"property": i, "reason": NOTES["na"].get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": NOTES["notes"]}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
