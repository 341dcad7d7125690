#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.
   tools/props.py            regenerate both files"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import registry

P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

EL, ELH, IM, MK, RD = "stempy/electron.cpp", "stempy/electron.h", "stempy/image.cpp", "stempy/mask.cpp", "stempy/reader.cpp"
exec(open(os.path.join(V, "tools", "table.py")).read())

NA = NOT_APPLICABLE
ids = [d["id"] for d in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
checks = []
for d in P:
    i = d["id"]
    if i not in registry.CHECKS:
        if i not in NA: NA[i] = "no check built yet"
        continue
    c = registry.CHECKS[i]
    if c.get("engine") == "py":
        tech = "symbolic execution of the real Python code (z3-backed numpy values), SMT verdict, replay on the real package"
    else:
        tech = "symbolic execution of the real C++ code's LLVM IR, SMT verdict (z3), counterexample replay on a sanitizer build"
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=tech, level="model_checking",
                       level_note="Holds for every value of the symbolic inputs within: " + c["bounds"] + ". Nothing is claimed outside these bounds; stubs and assumptions are listed in DESIGN.md."))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in registry.CHECKS],
         notes="All checks: python3 check.py <ID>. The executor (symx/), environment models (shim/, harness/) and harnesses (checks/) are in /verif; every run recompiles /repo's current sources to LLVM IR (or loads /repo's current Python files).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
