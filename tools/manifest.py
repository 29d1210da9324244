#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
ck = json.load(open(H + "/checks.json"))
tech = json.load(open(H + "/tools/techniques.json"))
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i not in ck:
        m["not_applicable"].append({"property": i, "reason": "its check is still being built"})
        continue
    t, n = tech.get(i, ["property-based testing against a reference model", ""])
    m["checks"].append({"property": i, "quick_cmd": "env VERIF_TIER=quick python3 check.py " + i,
                        "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i,
                        "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration",
                        "level_note": n or "generated cases only; no exhaustive or proof claim"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
