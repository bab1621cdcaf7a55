"""Writes MANIFEST.json from the checks present in sa/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from tech import TECH, NA
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa/checks/%s.py" % i.lower())):
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 sa/run.py " + i, "thorough_cmd": "python3 sa/run.py " + i,
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m sa.extract", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they read the MIR of /repo's current tree (and the grammar, templates and tables it embeds) and execute nothing of it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
