"""Writes MANIFEST.json from properties.jsonl and the modules in checks/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"bash run_check.sh {i} quick",
                       "thorough_cmd": f"bash run_check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Property-based testing with hypothesis over generated sections; see DESIGN.md. "
              "No hooks in /repo are needed: everything is observed through the public API."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
