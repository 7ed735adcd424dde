#!/usr/bin/env python3
"""Single place where the property texts live: writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, claimed=True, na=None, note=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), claimed, na, note))
exec(open(os.path.join(V, "tools", "props_text.py")).read())
P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in P: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, cl, reason, note in P:
    i = p["id"]
    if not cl: na.append(dict(property=i, reason=reason)); continue
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
        technique="symbolic execution of the real code's LLVM IR, every path's assertion decided by Z3 within stated bounds, counterexamples replayed on the g++ build",
        level="model_checking", level_note=(note + " " if note else "") + "Exhaustive over all inputs within the bounds listed in the evidence when no obligation is reported undecided; nothing is claimed outside them. Trusts the executor and its Z3 encodings (path models are re-run on the native build and compared on every run) and clang's lowering."))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na, notes="See DESIGN.md. Engine in engine/, harnesses in harness/, driver check.py; replay a counterexample with: python3 check.py --replay ID HARNESS VALUES"), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
