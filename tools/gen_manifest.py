#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": s.get("technique", "symbolic execution of the LLVM IR of the real code; assertions decided by term rewriting, SAT sweeping and Z3; counterexamples replayed natively"),
            "level": s.get("level", "model_checking"),
            "level_note": "Bounded: " + s.get("bounds", "") + ". Outside: " + s.get("outside", "") + ". Trusts clang's IR, the executor, the modelled C/C++ runtime and Z3; predictions are compared with natively compiled runs every time.",
        })
    else:
        na.append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "no check registered yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import vlib; vlib.build_engine()\"", "checks": checks, "not_applicable": na,
     "notes": "Known and fixed defects: known-findings.txt. Method, bounds and assumptions: DESIGN.md."}
if getattr(specs, "HOOKS", None):
    m["hooks"] = specs.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
