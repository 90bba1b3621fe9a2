#!/opt/venv/bin/python
"""Writes DESIGN.md from design/, props/ and seeded/."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "design")]
import vf.env  # noqa
from props_text import D

out = [open(f"{ROOT}/design/intro.md").read().rstrip(), "", "## Per-property designs", ""]
seeds = {}
for s in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{s}/meta.json"))
    seeds.setdefault(m["property"].split(",")[0], []).append((s, m))
for l in open(f"{ROOT}/properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module("props." + p["id"])
    oracle, reach = D[p["id"]]
    out += [f"### {p['id']} {p['title']}", "", f"*Oracle.* {oracle}", "", f"*Generated.* {m.RULE}", "",
            f"*Why beyond the tests.* {reach} {p['why_tests_cant']}", ""]
    if getattr(m, "ASSUMPTIONS", None):
        out += ["*Assumed.* " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    alone = getattr(m, "ALONE", [])
    out += ["*Cases (quick / thorough).* " + ", ".join(f"{t.name} {t.quick} / {t.thorough}" for t in m.TESTS)
            + ("" if len(alone) == len(m.TESTS) else "; each also side by side 240 / 6000"
               + (f" (not {', '.join(alone)})" if alone else "")) + ".", ""]
out += ["## Planted changes and what catches them", "",
        "Each passes the existing tests; `seeded/<id>/demo.sh` shows the breakage. All are caught by the quick check of the "
        "property they were written against.", "", "| change | property | needs |", "|---|---|---|"]
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        out.append(f"| {s} | {pid} | {m['needs']} |")
if os.path.exists(f"{ROOT}/design/outro.md"):
    out += ["", open(f"{ROOT}/design/outro.md").read().rstrip()]
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "parts")
