#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA

TECH = "solver-based symbolic execution of the real Go code (SSA to SMT, z3), with native replay of counterexamples"
NOTE = ("Every path of the encoded functions within the stated bounds is decided by the solver; bounds: {b}. "
        "Trusted: the gosx encoder and its models of fmt/os/reflect/sync (differentially compared with the native build on sampled paths){x}.")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
checks = []
na = dict(NA)
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p["id"],
        "technique": TECH, "level": "model_checking",
        "level_note": NOTE.format(b=p["bounds"], x=p.get("trust", "")),
    })
m = {"version": 1, "setup_cmd": "./setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA],
     "notes": "One engine (gosx/) decides every property; harness/<ID> holds what is asserted. See DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
