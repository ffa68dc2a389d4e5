#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "| id | caught by | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    t += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m.get("caught", m["property"]), m["needs"])
d = open(V + "/DESIGN.md").read()
i = d.find("SEEDTABLE")
if i < 0:
    i = d.find("| id | caught by")
open(V + "/DESIGN.md", "w").write(d[:i] + t)
