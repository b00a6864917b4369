"""Writes MANIFEST.json from the registry. Run after adding a check."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 -B py/setup.py", "checks": [], "not_applicable": [],
       "notes": "Every check builds its programs from /repo's working tree into the git-ignored build/ directory; no hooks in /repo are needed."}
for p in props:
    c = checks.CHECKS.get(p)
    if not c:
        out["not_applicable"].append({"property": p, "reason": "check not built yet"})
        continue
    out["checks"].append({
        "property": p, "quick_cmd": "bin/check %s" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
        "technique": c.get("technique", "bounded exhaustive exploration of the real code against a reference model (explicit-state model checking, one-step conformance)"),
        "level": "model_checking",
        "level_note": c.get("note", "Exhaustive within the stated bounds on the real code; the reference model and its tolerance are trusted. " + c["describe"])})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
