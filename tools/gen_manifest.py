#!/usr/bin/env python3
"""Writes MANIFEST.json: CLAIMED maps a property to (technique, level, note)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {"X01": "The filter generator is a Rust program whose dependencies (clubcard, clubcard-crlite, rust_cascade, statsd, ...) are not in the offline crate cache, so it cannot be built or run here; the property is also about an approximate-membership data structure (encode/decode fidelity), which a TLA+ specification cannot decide."}
CLAIMED = {}
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, l, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
