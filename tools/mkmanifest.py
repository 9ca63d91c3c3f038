"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = json.load(open(os.path.join(ROOT, "tools", "technique.json")))
NA = json.load(open(os.path.join(ROOT, "tools", "na.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --thorough", technique=TECH[i][0], level="other", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet in this revision")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
