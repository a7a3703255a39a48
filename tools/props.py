#!/usr/bin/env python3
"""Single source for properties.jsonl, MANIFEST.json and harness/bounds.json.

Run by hand after editing; no check runs it.
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, bounds=None, assume=None, wall=None, steps=0, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  bounds=bounds or {}, assume=assume or [], wall=wall or {}, steps=steps, na=na))


T_TIME = "dates: the conversion between an instant and the library's day-count float (DxCommonLib) is modelled as an exact inverse pair; natively it is exact to about a microsecond between 1900 and 2190, and the property allows 2 ms"
T_FLOAT = "strconv.ParseFloat on a text with symbolic digits is an uninterpreted function of the text (same text, same value; sign and finiteness known); on concrete text it is computed"
T_POOL = "sync.Pool returns what was put last (single goroutine); the garbage collector never empties it"
T_STD = "runtime, allocator, maps, strconv integer formatting and the like are executed from their own source, or by the engine's model of Go semantics"

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")

checks, na, bounds = [], [], {}
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if not os.path.exists(os.path.join(V, "harness", p["id"] + ".go")):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    bounds[p["id"]] = {"wall": dict({"quick": 300, "thorough": 800}, **p["wall"]), "steps": p["steps"], "bounds": p["bounds"], "assumptions": p["assume"] + [T_POOL]}
    checks.append({
        "property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "level": "model_checking",
        "level_note": "Bounded: every value of every symbolic input within the bounds listed in harness/bounds.json and in the evidence, over the code as it is in /repo; nothing is claimed beyond them. Trusts go/ssa, the executor (cross-checked on each run by replaying sampled paths on the compiled code), z3, and the environment models named in the assumptions.",
        "technique": "symbolic execution of the repository's current Go SSA (go/ssa), path conditions and negated assertions decided by z3 (bit-vectors, IEEE floats) for every value within the stated bounds; counterexamples replayed on the compiled code",
    })
json.dump(bounds, open(os.path.join(V, "harness", "bounds.json"), "w"), indent=1, ensure_ascii=False)
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "n/a")
