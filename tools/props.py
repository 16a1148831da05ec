#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json. A property is claimed when it has a 'technique'."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a,
                  technique=technique, note=note, na=na))

exec(open(os.path.join(here, "tools", "props_data.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["technique"]:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "the check is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is a static analysis of /repo's current source by the Go program in checker/ (go/types + go/ssa); nothing of /repo is executed. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
