#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules present in props/."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    path = os.path.join(ROOT, "props", p["id"] + ".py")
    if not os.path.exists(path):
        missing.append(dict(property=p["id"], reason="Not built yet."))
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    note = ("Randomised search with shrinking over generated cases on a virtual-time event loop; no violation on "
            "everything generated, not a proof. " + consts["RULE"])
    if consts.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(consts["ASSUMPTIONS"]) + "."
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"./check.py {p['id']} --tier quick",
        thorough_cmd=f"./check.py {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=consts.get("TECHNIQUE", "property-based testing (Hypothesis): generated histories against a model"),
        level=consts.get("LEVEL", "exploration"),
        level_note=note,
    ))
m = dict(
    version=1,
    setup_cmd="./check.py --selftest",
    checks=checks,
    not_applicable=missing,
    notes="All checks: ./check.py <id>; replay a violation with ./check.py <id> --replay <file>. No hooks in /repo.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "not built")
