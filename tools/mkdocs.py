#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA, NOTES

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["title"]
        q["quantifier"] = dict(over=p["over"], text=p["quant"])
        q["why_tests_cant"] = p["tests"]
        q["anchors"] = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])
        f.write(json.dumps(q) + "\n")
m = dict(version=1, setup_cmd="python3 -m ggsa.build", checks=[], not_applicable=[], notes=NOTES)
for p in PROPS:
    if p.get("unclaimed"):
        m["not_applicable"].append(dict(property=p["id"], reason=p["unclaimed"]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 checks/run.py " + p["id"],
                            thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + p["id"],
                            technique=p["technique"], level=p.get("level", "proof"), level_note=p["note"]))
for p in NA:
    m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

# DESIGN.md
import glob
from details import DETAILS
out = []
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* Anchors: " + "; ".join("`%s` (%s)" % x for x in p["mech"]))
    out.append("* Technique: " + p["technique"])
    out.append("* Decision: " + DETAILS[p["id"]])
    out.append("* Beyond the tests: " + p["tests"] + "\n")
for p in NA:
    out.append("### %s %s (not applicable)\n\n%s\n" % (p["id"], p["title"], p["reason"]))
fx = []
for k in json.load(open(V + "/known_findings.json")):
    fx.append("* " + k.get("fixed", k.get("finding", "")))
sd = ["| planted bug | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
MISSED = set(open(V + "/tools/missed.txt").read().split()) if os.path.exists(V + "/tools/missed.txt") else set()
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    sd.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"], j["needs"], "no" if i in MISSED else "yes, by " + j["property"]))
t = open(V + "/tools/DESIGN.tmpl.md").read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXES@@", "\n".join(fx)).replace("@@SEEDS@@", "\n".join(sd))
open(V + "/DESIGN.md", "w").write(t)
