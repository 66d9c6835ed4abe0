#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below. Run: python3 tools/mkmanifest.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(V + "/tools/claims.json"))["claims"]
NA = json.load(open(V + "/tools/claims.json"))["not_applicable"]
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for c in CLAIMED:
    p = c["property"]
    assert p in props, p
    cmd = "python3 checks/%s %s" % (c["script"], p)
    checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd,
                       technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["note"]))
done = {c["property"] for c in CLAIMED}
na = [dict(property=p, reason=NA.get(p, "not yet covered by the specification: work in progress")) for p in props if p not in done]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks are compiled into /repo: every observation uses the public API (see DESIGN.md).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
