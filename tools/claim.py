#!/usr/bin/env python3
"""claim.py PROP SCRIPT TECHNIQUE NOTE: add or replace a claim in tools/claims.json"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.json")
d = json.load(open(f))
k = [x for x in d if isinstance(d[x], list)][0]
d[k] = [c for c in d[k] if c["property"] != sys.argv[1]]
d[k].append(dict(property=sys.argv[1], script=sys.argv[2], technique=sys.argv[3], note=sys.argv[4]))
json.dump(d, open(f, "w"), indent=0)
open(f, "a").write("\n")
