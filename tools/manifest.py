#!/usr/bin/env python3
"""Writes MANIFEST.json from config.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/config.json"))
checks = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    lv = c["levels"].get(p, "exploration")
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": c["technique"].get(p, c["technique"]["*"]),
        "level": lv,
        "level_note": c["level_note"].get(p, c["level_note"]["*"]),
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the public interface of the crate and, for the contracts, its sources. Everything is built under /verif/build (ignored by git)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
