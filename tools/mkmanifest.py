#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import spec
ids = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 setup.py"}
if spec.HOOKS:
    m["hooks"] = spec.HOOKS
m["checks"] = [{
    "property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
    "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "evidence_file": f"evidence/{i}.json",
    "technique": spec.PROPS[i].get("technique") or "symbolic execution of rustc's LLVM IR, branches and assertions decided by Z3",
    "level": "model_checking",
    "level_note": "Holds for every value and choice within: " + spec.PROPS[i]["bounds"] + ". Not covered: " + spec.PROPS[i]["outside"] +
    ". Trusts the executor's reading of LLVM IR (checked by replaying sampled paths on the compiled code) and Z3."}
    for i in ids if i in spec.PROPS]
m["not_applicable"] = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in spec.PROPS]
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
