"""writes MANIFEST.json from properties.jsonl and vf/levels.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import levels

m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in levels.LEVEL:
        lv, note, tech = (levels.LEVEL[p] + (None,))[:3]
        m["checks"].append({"property": p, "quick_cmd": f"python3-vt -m vf.check {p}", "thorough_cmd": f"env VERIF_TIER=thorough python3-vt -m vf.check {p}",
                            "technique": tech or levels.TECH, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": levels.NA.get(p, "not yet built")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
