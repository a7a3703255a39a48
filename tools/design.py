#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props_data.py, design_props.py, seeded/*/meta.json and design_tail.md."""
import json, os
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
P = []
def prop(id, title, statement, over, text, why, files, mech, bounds=None, assume=None, wall=None, steps=0, na=None):
    P.append(dict(id=id, title=title, statement=statement, files=files, bounds=bounds or {}, assume=assume or [], na=na))
src = open(os.path.join(T, "props.py")).read()
for l in src.splitlines():
    if l.startswith("T_"):
        exec(l)
exec(open(os.path.join(T, "props_data.py")).read())
HOW = {}
exec(open(os.path.join(T, "design_props.py")).read())
o = [open(os.path.join(T, "design_head.md")).read().rstrip() + "\n\n## 2. The properties\n"]
for p in P:
    h = HOW.get(p["id"], {})
    o.append("### %s %s\n" % (p["id"], p["title"]))
    if p["na"]:
        o.append("Not applicable: " + p["na"] + "\n"); continue
    o.append(p["statement"] + "\n")
    o.append("*Anchored in* " + ", ".join("`%s`" % f for f in p["files"]) + ".\n")
    for k, n in (("method", "Decided by"), ("oracle", "Oracle"), ("reach", "Why tests do not reach it")):
        if h.get(k):
            o.append("*%s:* %s\n" % (n, h[k]))
    o.append("*Bounds:* " + "; ".join("%s: %s" % kv for kv in p["bounds"].items()) + ".\n")
    if p["assume"]:
        o.append("*Assumed:* " + "; ".join(p["assume"]) + ".\n")
    if h.get("cost"):
        o.append("*Cost (quick, idle 8 cores, exhaustive):* %s\n" % h["cost"])
o.append("## 3. Planted bugs\n")
o.append("Each is a patch in `seeded/<id>/` with a demonstration; \"caught\" is the result of running the property's quick check on a copy of /repo with the patch (`tools/seedrun.sh`). `first` says whether the check of the day it was written caught it, or had to be strengthened.\n")
o.append("| planted bug | property | what it needs | caught by | first |\n|---|---|---|---|---|")
R = json.load(open(os.path.join(T, "seed_results.json")))
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    r = R.get(s, {})
    o.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/").replace("\n", " "), r.get("caught", "not run"), r.get("first", "")))
o.append("")
o.append(open(os.path.join(T, "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
