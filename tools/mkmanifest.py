#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in plan.PLAN:
        P = plan.PLAN[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": "bin/check.py %s --tier quick" % p["id"],
            "thorough_cmd": "bin/check.py %s --tier thorough" % p["id"],
            "technique": P.get("technique", "TLA+ specification, TLC design model; TLC trace validation of recorded and TLC-generated executions"),
            "level": "model_checking",
            "level_note": P.get("note", "Design properties exhaustive within the stated constants; the code is bound to the specification on the executed histories only. Trusts TLC, the harness's value encoding, and rustc."),
        })
na = [{"property": p["id"], "reason": plan.NOT_APPLICABLE.get(p["id"], "No check built yet.")} for p in props if p["id"] not in plan.PLAN]
json.dump({"version": 1, "setup_cmd": "cargo build --offline --quiet --manifest-path harness/Cargo.toml --target-dir .build/target && cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --target-dir .build/target",
           "checks": checks, "not_applicable": na,
           "notes": "Every check builds the harness itself from /repo's working tree; setup only warms the build directory. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
