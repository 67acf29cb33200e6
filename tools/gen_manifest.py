#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
 "C23": "It is an equality of two fixed files (a generator's output and a committed table): there is no input, schedule or history to make symbolic, and the generator does file I/O on 7 MB of license texts. Comparing them is one concrete run, which is another technique (see DESIGN.md).",
}
checks = []
for p in props:
    if p in NA: continue
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s -tier quick" % p,
        "thorough_cmd": "./check.sh %s -tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "bounded symbolic execution of the real code (go/ssa) with Z3; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every input within the bounds stated in the harness comments and DESIGN.md section 4, nothing beyond them. Trusts the go/ssa form, the engine's semantics and library models (checked each run by replaying sampled paths on the compiled code), the engine's search through small byte domains (a share of its decisions is put to Z3), and Z3.",
    })
m = {
 "version": 1,
 "setup_cmd": "./check.sh -build",
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks in /repo: harnesses are packages laid over /repo/internal/verif with go build's -overlay. data.gen.go is overlaid by a small stand-in during checks (the properties claimed do not depend on the license texts).",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks))
except ImportError: print("written")
