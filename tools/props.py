#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, I, R, B, BS, M, N, G, K = ("competition_engine.go", "competition_engine_internal.go", "regulator.go",
    "blind/blind.go", "blind/state.go", "manager.go", "native_table_manager_backend.go", "competition.go", "rank.go")
PROPS, NA = [], []
TRUST = ("Path-sensitive abstract interpretation of the typed SSA of /repo's current source: every path of the listed entry points, "
  "loops as fixpoints, no execution and no solver. Trusts: go/types and x/tools SSA, the models of the few library calls (funk, sync, json clone, time), "
  "and that interface implementations outside the repository return arbitrary values but do not change competition state during a call.")

def P(id, title, statement, over, q, why, files, mech, technique, note="", state=None, observe=None):
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe or [], hook_needed=None)), technique=technique, note=note))

def notapp(id, reason):
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in PROPS:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
na = {n["property"] for n in NA}
man = dict(version=1, setup_cmd="./check.sh --build", checks=[], not_applicable=NA,
    notes="All checks are one static analyser (checker/, Go, vendored x/tools) with one rule per property; see DESIGN.md. No hooks in /repo.")
for x in PROPS:
    i = x["p"]["id"]
    if i in na: continue
    man["checks"].append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        technique=x["technique"], level="other", level_note=(x["note"] + " " if x["note"] else "") + TRUST))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
