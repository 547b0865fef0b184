#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py and claims.py."""
import json, os
from props import P
from claims import CLAIMS, NOT_APPLICABLE, NOTES
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["quant"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]], observe_at=q["observe"], hook_needed=None))) + "\n")
ids = [q["id"] for q in P]
assert len(ids) == len(set(ids))
checks = []
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh " + i + " --thorough", technique=tech, level="exploration", level_note=note))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in CLAIMS]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=NOTES), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(checks), "checks")
