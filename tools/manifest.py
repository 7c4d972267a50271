#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the claimed properties are those listed in CLAIMS."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {}
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line); props[p["id"]] = p
COMMON = "Decided from the SSA form of the current source; no code is run. Trusts the Go type checker, x/tools SSA construction, and the analyzer's points-to graph. "
CLAIMS = json.load(open(os.path.join(here, "tools", "claims.json")))
NA = json.load(open(os.path.join(here, "tools", "na.json")))
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
                 "evidence_file": f"evidence/{k}.json", "technique": "static analysis: " + v[0], "level": "other", "level_note": COMMON + v[1]} for k, v in sorted(CLAIMS.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
for k in props:
    if k not in CLAIMS and k not in NA:
        m["not_applicable"].append({"property": k, "reason": "no check has been built for this property yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
