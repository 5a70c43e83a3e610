#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.checks import CHECKS, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specification in spec/, checked with TLC; traces recorded from /repo's code by harness/ are validated against it. No hooks: every observation goes through the public API. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "TLA+ specification; TLC validates traces recorded from the library"),
            "level": c.get("level", "model_checking"),
            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
