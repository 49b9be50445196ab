#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table of built checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMX_TECH = "symbolic execution of the real library code over exact reals (number type instantiated with symbolic values), SMT (z3) and rigorous interval solving of path conditions and assertions, native f64 replay"
SYMX_NOTE = "Every input within the stated bounds (shape families, parameter ranges) is covered path by path; assumes exact real arithmetic in place of f64 rounding (each path witness and every counterexample is replayed on the f64 build); trusts the harness's arithmetic and oracles, z3 and the interval solver. Anything left undecided is counted in the evidence."
KANI_TECH = "bit-precise bounded model checking of the compiled Rust code (Kani/CBMC, SAT/SMT), counterexamples replayed natively"
checks = json.load(open(os.path.join(root, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    c = checks.get(i)
    if c is None or "na" in c:
        m["not_applicable"].append({"property": i, "reason": (c or {}).get("na", "check not built yet")})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": c.get("technique", SYMX_TECH),
        "level": c.get("level", "model_checking"),
        "level_note": (SYMX_NOTE + " " + c.get("note", "")).strip() if c.get("kind", "symx") == "symx" else c["note"],
    })
m["notes"] = "One harness crate (symx) instantiates the library of /repo's working tree with symbolic numbers; see DESIGN.md."
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
