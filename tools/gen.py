#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, quant, why, files, mech, observe, state=None, note=""):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((d, note))

exec(open(os.path.join(here, "tools", "table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

na = {i for i, _ in NA}
checks = []
for d, note in P:
    if d["id"] in na:
        continue
    checks.append(dict(property=d["id"], quick_cmd="./check.sh %s quick" % d["id"],
        thorough_cmd="./check.sh %s thorough" % d["id"], evidence_file="evidence/%s.json" % d["id"],
        technique="symbolic execution of the Go SSA of the real code, deciding queries by z3",
        level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
    not_applicable=[dict(property=i, reason=r) for i, r in NA],
    hooks=dict(guard="verif", enable="no hooks are needed: harnesses call the public API of the packages in /repo", source_commits=[]),
    notes="See DESIGN.md. Every check rebuilds the engine and encodes /repo's current working tree.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
