#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from plan import PLAN

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "the specification exists on paper only so far; to be built"})
        continue
    kinds = sorted({o.split(".")[0] for o in PLAN[i]["ops"]})
    mods = sorted({m["module"] for m in PLAN[i]["models"]})
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i} quick",
        "thorough_cmd": f"python3 tools/check.py {i} thorough",
        "technique": PLAN[i].get("technique", "TLA+ specification, trace validation with TLC, model checking with TLC"),
        "level": "model_checking",
        "level_note": PLAN[i].get("note") or (
            "Recorded executions of the real code are checked with TLC to be behaviours of "
            + ", ".join(k for k in kinds) + "; the specification itself is model checked on small instances ("
            + ", ".join(mods) + ")."),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
