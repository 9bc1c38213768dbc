#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and the registered rules."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from kpa.rules import RULES

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                          hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    PROPS.append((d, level_note))


COMMON = ("Decided from the source by abstract interpretation of the type-checked program (clang AST of every library file, "
          "macros expanded); obligations the analysis cannot settle are listed as undecided in the evidence and raise no "
          "alarm, so a change that hides the construct behind an unmodelled one can be missed. ")

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

NOT_BUILT = {}
exec(open(os.path.join(ROOT, "tools", "na.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, _ in PROPS:
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, note in PROPS:
    i = d["id"]
    if i in RULES and i not in NOT_BUILT:
        checks.append(dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --thorough" % i,
                           technique="static analysis: " + RULES[i][1], level="other", level_note=COMMON + note))
    else:
        na.append(dict(property=i, reason=NOT_BUILT[i]))
m = dict(version=1, setup_cmd='python3 -c "import sys;sys.path.insert(0,\'/verif\');from kpa import facts;facts.build_exporter()"',
         checks=checks, not_applicable=na,
         notes="quick analyses the configuration the Makefile builds by default (DEBUG); thorough analyses the DEBUG and the "
               "release configuration. No hooks are needed in /repo.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
