#!/usr/bin/env python3
"""Find the sources of /repo each driver needs (hint used by the checks to build less; a stale hint only costs time)."""
import sys, os, json, re, subprocess, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from concurrent.futures import ThreadPoolExecutor
out = os.path.join(vf.VERIF, "lib", "deps.json")
deps = json.load(open(out)) if os.path.exists(out) else {}
names = sys.argv[1:] or [os.path.basename(p)[:-4] for p in glob.glob(vf.VERIF + "/harness/*.cpp")]
os.makedirs(vf.BUILD + "/obj", exist_ok=True)
pch = vf.ensure_pch(False)
srcs = vf.repo_sources()
with ThreadPoolExecutor(8) as ex:
    objs = list(ex.map(lambda s: vf.compile_one(vf.REPO + "/src/" + s, False, pch), srcs))
lib = "/tmp/mindeps.a"
if os.path.exists(lib): os.remove(lib)
subprocess.check_call(["ar", "rcs", lib] + objs)
by = {os.path.basename(o): s for o, s in zip(objs, srcs)}
for n in names:
    o = vf.compile_one(vf.VERIF + "/harness/" + n + ".cpp", False, pch)
    r = vf.run([vf.CXX, "-o", "/tmp/mindeps.exe", o, lib, "-Wl,-M"] + vf.LIBS)
    if r.returncode: print(n, r.stdout[-2000:]); continue
    deps[n] = sorted({by[m] for m in re.findall(r"mindeps\.a\(([0-9a-f]+\.o)\)", r.stdout) if m in by})
    print(n, len(deps[n]))
json.dump(deps, open(out, "w"), indent=1, sort_keys=True)
os.remove(lib); os.remove("/tmp/mindeps.exe")
