#!/usr/bin/env python3
"""Record which operations and conditions the quick checks observe, from evidence/*.json of one quick run each.
A later run that observes none of one of them does not count as a pass (exit 2). Run by hand only."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(os.path.join(V, "evidence", "P??.json"))):
    d = json.load(open(f))
    if d["tier"] != "quick" or d["violations"]:
        continue
    c = d["coverage"]
    lim = 2000 if d["property"] == "P18" else 50
    out[d["property"]] = {"ops": sorted(k for k, n in c["operations_observed"].items() if n >= lim), "classes": sorted(k for k, n in c["conditions_observed"].items() if n >= lim and "millisecond" not in k)}
want = sorted({json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))})
if sorted(out) != want or not all(v["ops"] for v in out.values()):
    raise SystemExit("incomplete evidence, nothing written: %s" % sorted(set(want) - set(out)))
json.dump(out, open(os.path.join(V, "tools", "expect.json"), "w"), indent=1)
for k, v in out.items():
    print(k, len(v["ops"]), "operations", len(v["classes"]), "conditions")
