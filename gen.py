#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os
from props import P
from registry import PROPS, NOT_APPLICABLE, HOOKS
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c.get("level", "exploration"),
                       level_note=c["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 setup.py", hooks=HOOKS, checks=checks, not_applicable=na,
         notes="check.py builds the monitor binary of the property against /repo's working tree in each listed configuration, runs it and merges the recorded evidence; see DESIGN.md")
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
