#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks import CHECKS
NOT_YET = "no check built yet"
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": NOT_YET})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
m = {"version": 1,
     "setup_cmd": "python3 -c 'import checks'",
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles the sources under /repo itself; build/ is only a cache keyed by all inputs."}
hooks = V / "tools/hooks.json"
if hooks.exists():
    m["hooks"] = json.loads(hooks.read_text())
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
