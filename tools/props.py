#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, note=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((d, note))

exec(open(os.path.join(here, "tools", "props_data.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

claimed = open(os.path.join(here, "tools", "claimed.txt")).read().split()
checks, na = [], []
for d, note in P:
    if d["id"] in claimed:
        checks.append(dict(property=d["id"],
            quick_cmd="./check.sh %s" % d["id"],
            thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % d["id"],
            technique="property-based testing: generated scenarios against an explicit oracle, shrunk replays",
            level="exploration",
            level_note=note or "Generated-input search with an explicit oracle on virtual time; absence of a violation is not proved."))
    else:
        na.append(dict(property=d["id"], reason=NA.get(d["id"], "no check yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="All checks drive the public API and the wire format only; no hooks in /repo. Replays: ./check.sh <id> -replay out/<id>.replay.json")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
