#!/usr/bin/env python3
"""Generates DESIGN.md from design_head.md, the harness directives, design_tail.md and the seeded-bug table."""
import glob, json, os, re
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
rd = lambda f: open(os.path.join(T, f)).read()
out = [rd("design_head.md"), "## Per property\n\nCost is wall time of the quick tier on 8 cores, including the build.\n"]
cost = json.load(open(os.path.join(T, "cost.json"))) if os.path.exists(os.path.join(T, "cost.json")) else {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); h = glob.glob(os.path.join(V, "harness", p["id"].lower() + "_*.cpp"))
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if not h:
        continue
    d = {}
    for x in open(h[0]):
        m = re.match(r"//\s*MC-([A-Z]+):\s*(.*?)\s*$", x)
        if m: d.setdefault(m.group(1), []).append(m.group(2))
    out.append("- **Enumerated** (`harness/%s`): %s." % (os.path.basename(h[0]), " ".join(d["BOUNDS"])))
    out.append("- **Oracle**: %s." % " ".join(d["ORACLE"]))
    if "TECHNIQUE" in d: out.append("- **Technique**: %s." % " ".join(d["TECHNIQUE"]))
    if "ASSUMES" in d: out.append("- **Domain**: %s." % " ".join(d["ASSUMES"]))
    out.append("- **Beyond the tests**: %s" % p["why_tests_cant"])
    if p["id"] in cost: out.append("- **Cost**: %s" % cost[p["id"]])
    out.append("")
out.append(rd("design_tail.md"))
out.append("## Seeded bugs (`seeded/`) and which check catches them\n\nEach compiles, passes the 31 tests and has a demonstration; verified with the quick tier.\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
c = json.load(open(os.path.join(T, "caught.json"))) if os.path.exists(os.path.join(T, "caught.json")) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], c.get(i, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
