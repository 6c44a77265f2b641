#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(R + "/properties.jsonl", "w") as f:
    for p in meta.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
ids = {p["id"] for p in meta.P}; na = {x[0] for x in meta.NA}
m = {"version": 1, "setup_cmd": "python3 tools/build.py mc", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources with access instrumentation and substitute the OpenMP and MPI runtimes at link time", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"], "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"], "technique": meta.META[p["id"]]["technique"], "level": meta.META[p["id"]]["level"], "level_note": meta.META[p["id"]]["note"]} for p in meta.P if p["id"] not in na],
     "not_applicable": [{"property": a, "reason": b} for a, b in meta.NA]}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
