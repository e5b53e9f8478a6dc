#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/psrpcore/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=[S + f for f in files],
                mechanism=[dict(name=n, where=S + w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

NA = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()]
checks = []
for p in P:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append(
        dict(
            property=p["id"],
            quick_cmd="python3 run.py %s --tier quick" % p["id"],
            thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
            technique="solver-based bounded symbolic execution of the real Python source (z3), counterexamples replayed on the unmodified code",
            level="other",
            level_note=LEVEL,
        )
    )
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(
        dict(
            version=1,
            setup_cmd="python3 setup_check.py",
            checks=checks,
            not_applicable=NA,
            notes="No hooks in /repo. Bounds, queries, functions encoded and solver time of each run are in evidence/<id>.json; see DESIGN.md.",
        ),
        fh,
        indent=1,
    )
    fh.write("\n")
print(len(P), "properties,", len(checks), "checks")
