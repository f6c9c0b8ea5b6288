"""Write MANIFEST.json for the properties whose check exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "drive_%s.py" % i.lower())):
        level, tech, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 harness/check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py %s" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        missing.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 harness/selftest.py", "checks": checks, "not_applicable": missing},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
