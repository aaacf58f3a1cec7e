#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []      # (id, title, statement, over, text, why, files, mechanism, observe)
NA = []         # (id, reason)
NOTE = {}


def P(id, title, statement, over, text, why, files, mech, observe=(), note=None, na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith("matlab/") else "arboris/" + f for f in files.split()],
                     mechanism=[dict(name=a, where=b if b.startswith("matlab/") else "arboris/" + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        NOTE[id] = note or ""


exec(open(os.path.join(HERE, "tools", "table.py")).read())

TECH = ("symbolic execution of the current source of the functions under check (real numbers, "
        "every feasible branch), requirements discharged by Z3 (polynomial real arithmetic) after "
        "normal-form rewriting; counterexamples replayed on the real code")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
naids = [n["property"] for n in NA]
man = dict(
    version=1,
    setup_cmd="python3 check.py --selftest",
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                 thorough_cmd="python3 check.py %s thorough" % p["id"],
                 technique=TECH, level="model_checking", level_note=LEVEL + " " + NOTE[p["id"]])
            for p in PROPS if p["id"] not in naids],
    not_applicable=NA,
    notes="See DESIGN.md. Known findings and repaired defects: known_findings.txt.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
