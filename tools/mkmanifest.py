#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {p for c in checks.CONFIGS for p in c.props}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [], "notes": "All checks share one engine (engine/, LLVM IR symbolic executor on Z3) and one driver (check.py); see DESIGN.md. No hooks are needed in /repo."}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
          "technique": "symbolic execution of the compiled sources (LLVM IR) with Z3 deciding every branch, memory access and assertion; counterexamples replayed natively" + checks.TECH.get(i, ""), "level": "model_checking",
          "level_note": "Bounds: %s. Outside: %s" % (checks.BOUNDS.get(i, "see DESIGN.md"), checks.OUTSIDE.get(i, "larger instances"))})
    else: m["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "no check has been built for this property yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
