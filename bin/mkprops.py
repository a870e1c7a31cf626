#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {}))),
              tech, note))


GEN = "Seeded random generation with shrinking and replay (quick); the same cases driven by coverage-guided fuzzing (thorough). "

exec(open(os.path.join(V, "bin", "proptable.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, t, n in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], list(NOT_APPLICABLE)
for p, t, n in P:
    i = p["id"]
    if any(x["property"] == i for x in na):
        continue
    if not os.path.exists(os.path.join(V, "props", i + ".cc")):
        na.append(dict(property=i, reason="the check for this property is not built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, technique=t, level="exploration", level_note=GEN + n))
m = dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: the checks compile /repo's sources unmodified", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check compiles /repo's current sources with the address and bounds sanitizers and the harness in h/ and props/; see DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
