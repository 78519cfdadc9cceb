#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue (lib/spec)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import props  # noqa: E402

NOT_APPLICABLE = getattr(props, "NOT_APPLICABLE", [])
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for pid, p in sorted(props.PROPS.items()):
        assert len(p["title"]) <= 80, pid
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": p["quantifier"],
                            "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")
checks = []
for pid, p in sorted(props.PROPS.items()):
    if not p.get("legs"):
        continue
    checks.append({"property": pid, "quick_cmd": f"python3 run.py {pid} quick", "thorough_cmd": f"python3 run.py {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks,
     "not_applicable": [{"property": pid, "reason": p["not_applicable"]} for pid, p in sorted(props.PROPS.items()) if not p.get("legs")],
     "notes": "No hooks in /repo: the monitors use the public interface, the results and the sanitizers. lib/spec is the source of this file and of properties.jsonl (lib/gen.py)."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
if os.path.isdir(os.path.join(VERIF, "seeded")):
    import design
    design.write(VERIF, props.PROPS)
