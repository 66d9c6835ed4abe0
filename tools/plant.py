#!/usr/bin/env python3
"""plant.py BUG.py... : turn bug descriptions into /verif/seeded/<id>/, after confirming in a scratch copy of /repo that
the change builds, passes the stable tests, and that its demonstration fails with it and passes without it.
A BUG.py defines id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ text), and optionally extra=[sources]."""
import json, os, subprocess, sys, shutil
WT = "/tmp/pw"
STABLE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; run in the root of the repository after it was built
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 9
g++ -std=c++17 -O0 -w -D_USE_MATH_DEFINES -DGC_HAVE_SUITESPARSE -D_GLIBCXX_ASSERTIONS %(flags)s -I"$R/include" -I"$D" -I"$R/deps/nanoflann/include" -I"$R/deps/nanort/include" \
    -I/usr/include/eigen3 -I/usr/include/suitesparse "$D/demo.cpp" %(extra)s -o "$T/demo" "$R/_build/lib/libgeometry-central.a" \
    -lcholmod -lumfpack -lspqr -lamd -lcolamd -lsuitesparseconfig -lpthread || exit 8
timeout 60 "$T/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def build():
    r = sh(f". /opt/vp/env.sh; cmake -S {WT}/test -B {WT}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DFETCHCONTENT_FULLY_DISCONNECTED=ON "
           "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DCMAKE_PROJECT_geometry-central-tests_INCLUDE=/tmp/leave_out.cmake "
           f">/dev/null && ninja -C {WT}/_build -j8")
    return r
def sync():
    os.makedirs(WT, exist_ok=True)
    r = sh(f"cd /repo && git ls-files -z | rsync -rlp -c --delete --files-from=- --from0 /repo/ {WT}/") if shutil.which("rsync") else None
    if r is None or r.returncode:
        # without rsync: only touch what differs
        for f in sh("cd /repo && git ls-files").stdout.split("\n"):
            if not f or not os.path.isfile("/repo/" + f): continue
            d = WT + "/" + f
            if not os.path.exists(d) or open(d, "rb").read() != open("/repo/" + f, "rb").read():
                os.makedirs(os.path.dirname(d), exist_ok=True); shutil.copyfile("/repo/" + f, d)
    for d in ("nanoflann", "nanort", "happly"):
        os.makedirs(f"{WT}/deps/{d}", exist_ok=True)
        sh(f"cp -an /repo/deps/{d}/. {WT}/deps/{d}/")
    open("/tmp/leave_out.cmake", "w").write(open("/opt/vp/cmake/leave_out_happly.cmake").read().replace("/repo/", WT + "/"))
def tests():
    bad = []
    os.makedirs(WT + "/run", exist_ok=True)
    names = STABLE if isinstance(STABLE, list) else STABLE.get("passed") or STABLE.get("stable") or STABLE.get("tests")
    r = sh(f"cd {WT}/run && OMP_NUM_THREADS=1 timeout 300 {WT}/_build/bin/geometry-central-test --gtest_filter=" + ":".join(names))
    return r.returncode == 0, r.stdout[-1500:]
def demo(d):
    return sh(f"bash {d}/demo.sh", cwd=WT, timeout=400)
for path in sys.argv[1:]:
    g = {}
    exec(open(path).read(), g)
    sync()
    d = f"/verif/seeded/{g['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(g["demo"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO % dict(extra=" ".join('"$R/%s"' % e for e in g.get("extra", [])), flags=g.get("flags", "")))
    for n, t in g.get("files", {}).items(): open(d + "/" + n, "w").write(t)
    json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    b = build()
    if b.returncode: print(g["id"], "UNCHANGED TREE DOES NOT BUILD", b.stdout[-2000:]); continue
    r0 = demo(d)
    ok = True
    for f, old, new in g["edits"]:
        s = open(f"{WT}/{f}").read()
        if s.count(old) != 1: print(g["id"], "edit matches", s.count(old), "times:", f, old[:60]); ok = False; break
        open(f"{WT}/{f}", "w").write(s.replace(old, new))
    if ok:
        df = ""
        for f in sorted({e[0] for e in g["edits"]}):
            df += sh(f"diff -u --label a/{f} --label b/{f} /repo/{f} {WT}/{f}").stdout
        open(d + "/patch.diff", "w").write("".join(df))
        b = build()
        t, tl = tests() if b.returncode == 0 else (False, "")
        r1 = demo(d) if b.returncode == 0 else None
        ap = sh(f"git -C /repo apply --check {d}/patch.diff")
        good = r0.returncode == 0 and b.returncode == 0 and t and r1.returncode != 0 and ap.returncode == 0
        print(g["id"], "GOOD" if good else "BAD", "demo clean", r0.returncode, "build", b.returncode, "tests", t, "demo bug", r1 and r1.returncode, "apply", ap.returncode)
        if not good: print(r0.stdout[-1500:], b.stdout[-1500:] if b.returncode else "", tl if not t else "", r1.stdout[-800:] if r1 else "", ap.stdout); ok = False
    if not ok: shutil.rmtree(d)
sync()
