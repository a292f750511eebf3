#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and spec.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import props, spec
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(D + "/properties.jsonl", "w") as o:
    for p in props.R:
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "make -C engine -j8 OUT=../build", "checks": [], "not_applicable": []}
for p in props.R:
    if p["id"] not in spec.PROPS:
        print("no check:", p["id"])
        continue
    m["checks"].append({
        "property": p["id"], "level": "model_checking",
        "technique": "symbolic execution of the LLVM IR of /repo's sources with Z3 deciding every branch, memory access and assertion (bounded); counterexamples replayed natively",
        "level_note": "Holds for all inputs within: " + "; ".join(dict.fromkeys(h["bounds"] for h in spec.PROPS[p["id"]]["harnesses"] if h["bounds"])) + ". Outside these bounds: not claimed. Symbolic reals are exact (no rounding)." + p["note"],
        "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"]})
for i, w in props.NA:
    m["not_applicable"].append({"property": i, "reason": w})
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
for p in props.R:
    assert len(p["title"]) <= 80, p["id"]
    assert all(os.path.exists("/repo/" + f) for f in p["files"]), p["id"]
try:
    import jsonschema
    S = "/root/.vp/"
    jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
    for l in open(D + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), json.load(open(S + "PROPERTIES.schema.json")))
    print("valid")
except ImportError:
    print("jsonschema not available (run with python3-vt)")
