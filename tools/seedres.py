#!/usr/bin/env python3
"""seedres.py OUT: merge the output of seedrun.sh into seed_results.json."""
import json, os, re, sys
T = os.path.dirname(os.path.abspath(__file__)); F = os.path.join(T, "seed_results.json")
R = json.load(open(F)) if os.path.exists(F) else {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d+) rc=(\d+) (\d+)s", l)
    if m:
        r = R.setdefault(m.group(1), {})
        r["caught"] = "%s, %s s" % (m.group(2), m.group(4)) if m.group(3) == "1" else "missed (rc %s)" % m.group(3)
        r.setdefault("first", "yes" if m.group(3) == "1" else "strengthened")
json.dump(R, open(F, "w"), indent=1, sort_keys=True)
