#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
NA = {
    "C19": "the round trip is code generated by the rkyv and serde derive macros (with unsafe pointer arithmetic for rkyv); no deductive verifier here takes that code, and the only contract that could be written on the functions of this repository would assume the property itself",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i}",
        "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": P.get("technique", "contracts on the extracted functions of /repo, discharged by Verus (Z3); failing inputs by replay on the real crates"),
        "level": P["level"],
        "level_note": P["explain"] + " Bounded, not proved: " + P["standin"] + ". Assumed: " + "; ".join(P["assumptions"]) + ".",
    })
na = [{"property": i, "reason": NA.get(i, "not built yet: no contract for its functions in this state of the work")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Commits there are repairs only (fix: ...), listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
