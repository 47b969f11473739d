#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the data below (run by hand after editing; not used by any check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, na=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})
    assert len(title) <= 80, (id, len(title))
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": f"python3 check.py {id}", "thorough_cmd": f"python3 check.py {id} --thorough",
                       "technique": technique, "level": "other", "level_note": note})


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": sorted(CHECKS, key=lambda c: c["property"]),
               "not_applicable": sorted(NA, key=lambda c: c["property"]),
               "notes": "Every check parses /repo's current .py/.pyx/.pxd sources (Cython's own parser for the latter) and never imports or runs mmcore."}, f, indent=1)
print(len(PROPS), "properties", len(CHECKS), "checks", len(NA), "not applicable")
