#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GT = "include/pf-applications/grain_tracker/"
L = []


def P(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    L.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q},
              "why_tests_cant": why, "anchors": a})


exec(open(os.path.join(V, "tools", "texts.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in L:
        f.write(json.dumps(p) + "\n")

checks, ids = [], [p["id"] for p in L]
for i in ids:
    if i not in props.PROPS:
        assert i in NOT_APPLICABLE, i
        continue
    p = props.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "deterministic simulation with fault injection: " + p.get("tech", TECH),
        "level": "exploration",
        "level_note": p.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
if HOOKS:
    m["hooks"] = HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for p in L:
    assert len(p["title"]) <= 80, p["title"]
print(len(L), "properties", len(checks), "checks")
