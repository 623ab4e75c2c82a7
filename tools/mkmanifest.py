#!/usr/bin/env python3
"""regenerates MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        proof = p.get("level") != "exploration" and (p.get("units") or p.get("kani"))
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": p.get("technique", "deductive verification: Verus contracts on mechanically extracted source" + ("; bounded replay harness" if p.get("bin") else "")),
            "level": "proof" if proof else "exploration", "level_note": p["note"], **({"theorems": p["theorems"]} if p.get("theorems") else {})})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
