#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and check.py's table of checks."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + "/lib")
import check
from levels import NOTES
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in check.MODS:
        checks.append({
            "property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": NOTES[p][0], "level": "model_checking", "level_note": NOTES[p][1]})
    else:
        na.append({"property": p, "reason": NOTES.get(p, ("", "check not built yet"))[1]})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: only public interfaces of the crates are used", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All specifications are TLA+, checked with TLC. See DESIGN.md. VERIF_TIER=thorough selects the deep tier."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])
