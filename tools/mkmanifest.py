#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when a check is added)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = "symbolic execution of the compiled crate (LLVM IR of /repo's current source) with Z3 deciding every branch and assertion; counterexamples and samples replayed natively"
m = dict(version=1, setup_cmd="python3 tools/check.py --setup",
    checks=[dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --thorough", technique=T, level="model_checking",
        level_note=props.PROPS[i].get("note", "Holds for every value of the symbolic inputs within the bounds stated in DESIGN.md and in the evidence file; structure of documents is bounded.")) for i in ids if i in props.PROPS],
    not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in props.PROPS])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
