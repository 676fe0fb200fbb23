#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, "lib")
import plan
TRACE = ("TLA+ specification checked by TLC: trace validation (behaviours recorded from the real "
         "crate are checked against the specification, event by event)")
MC = ("; exhaustive model checking of the specification on small instances (%s), whose "
      "transitions are replayed into the crate and validated the same way")
NOTE = ("Behaviours of the crate, built from /repo and driven through its public API on simulated "
        "devices and scratch files, are checked by TLC to be behaviours of %s. Histories are "
        "sampled from the seed (families %s), quick and thorough differ in number. ")
MCN = ("The instances %s are explored completely: the design has the property on them, and a "
       "selection of their transitions (quick) or most (thorough) is executed by the crate. ")
EXTRA = json.load(open("tools/manifest_notes.json"))
SPEC = {"C20": "spec/Mbr.tla", "C22": "spec/Types.tla", "C07": "spec/Gpt.tla and spec/Crash.tla"}
checks = []
for p in [json.loads(l) for l in open("properties.jsonl")]:
    i = p["id"]
    uses = plan.USES.get(i, []) + plan.MORE.get(i, [])
    checks.append({
        "property": i,
        "quick_cmd": "./check " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
        "technique": TRACE + (MC % ", ".join(uses) if uses else ""),
        "level": "model_checking",
        "level_note": NOTE % (SPEC.get(i, "spec/Gpt.tla"), ", ".join(plan.QUICK[i]))
            + (MCN % ", ".join(uses) if uses else "") + EXTRA.get(i, "")
            + "Trusts: the harness' device model, decoder and event recording; the specification.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check --build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: the harness uses the public API only. See DESIGN.md.",
}, open("MANIFEST.json", "w"), indent=1)
