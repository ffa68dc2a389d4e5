#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks/*.py present."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="not claimed: no check has been built for it yet"))
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "NOTE"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="./check %s --thorough" % p["id"],
                       technique=v["TECHNIQUE"], level="exploration", level_note=v["NOTE"]))
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
         notes="One runner (hv/run.py) drives Hypothesis strategies against per-property oracles (checks/cNN.py); "
               "see DESIGN.md.  No hooks in /repo are needed: harnesses link the unmodified sources.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
