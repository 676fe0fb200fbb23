#!/usr/bin/env python3
"""Writes lib/need.json from the evidence of a run: the clauses a quick run always applies."""
import json, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
need = {}
for f in sorted(glob.glob("evidence/C*.json")):
    e = json.load(open(f))
    need[e["property"]] = sorted(c.split(".")[1] for c, n in e["coverage"]["clauses_applied"].items() if n >= 12)
json.dump(need, open("lib/need.json", "w"), indent=0, sort_keys=True)
