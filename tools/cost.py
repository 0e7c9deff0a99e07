#!/usr/bin/env python3
"""Snapshot of evidence/*.json into tools/cost.json (used by design.py only)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = os.path.join(V, "tools", "cost.json")
c = json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(os.path.join(V, "evidence", "*.json"))):
    d = json.load(open(e))
    if d["tier"] == "quick" and not d["violations"]:
        k = d["coverage"]; c[d["property"]] = "about %d s; %d executions, %d transitions, %d distinct states, %d distinct outcomes" % (round(d["wall_s"]), k["traces_validated_against_impl"], k["transitions"], k["states"], k["distinct_outcomes"])
json.dump(c, open(f, "w"), indent=1, sort_keys=True)
