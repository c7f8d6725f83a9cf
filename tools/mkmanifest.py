#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HOOKS = ["7fdf072"]
CHECKS = {}   # id -> (technique, level, note)
exec(open(V + "/tools/manifest_text.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
full = [subprocess.check_output(["git", "-C", "/repo", "rev-parse", h]).decode().strip() for h in HOOKS]
m = {"version": 1, "setup_cmd": "python3 build.py all",
     "hooks": {"guard": "KNOR_SIM", "enable": "/verif/build.py compiles /repo's sources with -DKNOR_SIM", "source_commits": full},
     "checks": [], "not_applicable": [], "notes": NOTES}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
