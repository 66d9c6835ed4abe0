#!/usr/bin/env python3
"""Refresh the commit ids in known_findings.json from the subjects in the repository's log (after a rebase)."""
import json, os, re, subprocess
repo = os.environ.get("VF_REPO", "/repo")
log = subprocess.check_output(["git", "-C", repo, "log", "--format=%h %s", "-300"], text=True).splitlines()
by = {l.split(" ", 1)[1][5:]: l.split(" ", 1)[0] for l in log if l.split(" ", 1)[1].startswith("fix: ")}
f = "/verif/known_findings.json"
d = json.load(open(f))
for x in d["findings"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x["what"])
    if not m: continue
    if m.group(3) not in by: print("no commit for", x["id"], m.group(3)); continue
    x["what"] = "fixed: property=%s %s %s" % (m.group(1), by[m.group(3)], m.group(3))
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
