#!/usr/bin/env python3
"""addfinding.py PROPERTY COMMIT WHAT : records a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
k = [k for k in d if isinstance(d[k], list)][0]
d[k].append(dict(property=sys.argv[1], id="F%02d" % (len(d[k]) + 1), status="fixed",
                 what="fixed: property=%s %s %s" % tuple(sys.argv[1:4])))
json.dump(d, open(p, "w"), indent=1)
