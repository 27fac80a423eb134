#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have scenarios."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
import scenarios, gen_properties
T = "symbolic execution of the compiled LLVM IR with an SMT solver (Z3): every input within the bounds is a solver variable"
checks = [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
  "technique": T, "level": "model_checking", "level_note": "bounded: %s" % "; ".join(s["bounds"] for s in scenarios.for_property(p["id"], "quick"))[:600]} for p in gen_properties.P if p["id"] in scenarios.USE]
na = [{"property": p["id"], "reason": "no check"} for p in gen_properties.P if p["id"] not in scenarios.USE]
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
