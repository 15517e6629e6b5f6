#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
tech = json.load(open(os.path.join(here, "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in tech and "na" not in tech[i]:
        t = tech[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh check {i}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh check {i}",
            evidence_file=f"evidence/{i}.json", technique=t["technique"], level=t.get("level", "exploration"), level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=tech.get(i, {}).get("na", "monitor not built yet")))
m = dict(version=1, setup_cmd="bash run.sh setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks", len(na), "n/a")
