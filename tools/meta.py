#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, X, I, P, H, C, F = "schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"
ENUM = "bounded-exhaustive enumeration of the real code against an independent reference model"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, level="exploration", technique=ENUM, note="", done=True, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a),
                      level=level, technique=technique, note=note, done=done))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["p"]["id"]):
        f.write(json.dumps(p["p"], ensure_ascii=False) + "\n")
checks, na = [], []
for p in sorted(PROPS, key=lambda p: p["p"]["id"]):
    i = p["p"]["id"]
    if p["done"] is True:
        checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --tier thorough",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": p["done"]})
m = {"version": 1, "setup_cmd": "bin/check --setup",
     "hooks": HOOKS, "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
