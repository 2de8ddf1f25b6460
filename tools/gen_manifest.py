#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the notes below
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
notes = json.load(open(f"{root}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes and os.path.exists(f"{root}/mon/src/bin/{i.lower()}.rs"):
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": notes[i][0], "level": "exploration", "level_note": notes[i][1]})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
open(f"{root}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not claimed")
