#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the real Go code (SSA, regenerated from /repo on every run) with SMT: "
        "inputs are bit-vector variables, path feasibility and assertions are decided by z3 (byte-domain pruning for single-byte path conditions), "
        "counterexamples are replayed natively against the compiled code")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
na = {n["property"] for n in NA}
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": NA,
       "notes": "No hooks: harnesses enter the packages of /repo through build overlays, so /repo needs no instrumentation."}
for p in PROPS:
    if p["id"] in na:
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": TECH + (" " + p["tech"] if p.get("tech") else ""), "level": "model_checking", "level_note": p["note"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
