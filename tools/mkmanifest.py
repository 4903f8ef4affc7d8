"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    m = importlib.import_module("checks." + pid.lower())
    checks.append({"property": pid, "quick_cmd": f"bash run.sh {pid} --tier quick", "thorough_cmd": f"bash run.sh {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Runtime monitoring of the unmodified package; no hooks in /repo are needed (monitors use the public API, subclasses and sys.monitoring)."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
