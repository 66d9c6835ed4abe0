"""Shared machinery of the checks: build /repo's library and a trace-recording driver, run it,
check the recorded traces (and the specification itself) with TLC, report.

Nothing here decides a property: the deciding is done by the TLA+ modules in /verif/specs.
"""
import os, sys, re, json, time, hashlib, subprocess, shutil, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")  # (the override is for developing repairs; checks judge /repo)
BUILD = os.path.join(VERIF, ".build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NPROC = os.cpu_count() or 4

CXX = "g++"
BASEFLAGS = ["-std=c++17", "-g0", "-D_USE_MATH_DEFINES", "-DNOMINMAX", "-DGC_HAVE_SUITESPARSE",
             "-D_GLIBCXX_ASSERTIONS", "-w",
             "-I" + REPO + "/include", "-I" + VERIF + "/harness", "-I" + VERIF + "/harness/stub",
             "-I" + REPO + "/deps/nanoflann/include", "-I" + REPO + "/deps/nanort/include",
             "-I/usr/include/eigen3", "-I/usr/include/suitesparse"]
LIBS = ["-lcholmod", "-lumfpack", "-lspqr", "-lamd", "-lcolamd", "-lsuitesparseconfig", "-lpthread"]
PCH = """#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/SparseCore>
#include <Eigen/Sparse>
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
"""


class CheckError(Exception):
    pass


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def log(*a):
    print(*a, flush=True)


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for base in (REPO + "/include", REPO + "/src", VERIF + "/harness", REPO + "/deps/nanoflann/include",
                     REPO + "/deps/nanort/include"):
            for d, ds, fs in os.walk(base):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".ipp", ".hpp")):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(open(p, "rb").read())
        _hdr = h.hexdigest()
    return _hdr


def repo_sources():
    txt = open(REPO + "/src/CMakeLists.txt").read()
    txt = re.sub(r"#.*", "", txt)
    out = []
    for m in re.finditer(r"[\w/]+\.(?:cpp|c|cc)\b", txt):
        p = m.group(0)
        if p not in out and os.path.exists(REPO + "/src/" + p):
            out.append(p)
    return out


def flags(san):
    f = list(BASEFLAGS)
    f += ["-O1"]
    if san:
        f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    return f


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def ensure_pch(san):
    fl = flags(san)
    key = sh256(PCH, " ".join(fl), "v1")
    d = os.path.join(BUILD, "pch-" + key)
    hp = os.path.join(d, "pch.h")
    if not os.path.exists(hp + ".gch"):
        os.makedirs(d, exist_ok=True)
        open(hp, "w").write(PCH)
        tmp = hp + ".gch.%d" % os.getpid()
        r = run([CXX] + fl + ["-x", "c++-header", hp, "-o", tmp])
        if r.returncode:
            raise CheckError("pch failed:\n" + r.stdout[-3000:])
        os.rename(tmp, hp + ".gch")
    return hp


def compile_one(src, san, pch):
    fl = flags(san)
    key = sh256(open(src, "rb").read(), src, header_hash(), " ".join(fl))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = run([CXX] + fl + ["-Winvalid-pch", "-include", pch, "-c", src, "-o", tmp])
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        os.rename(tmp, obj)
    return obj


def build(driver, sources=None, san=False, jobs=NPROC):
    """Build harness/<driver>.cpp against /repo's sources. `sources` is the subset of src/ files expected to be
    needed; when linking with them fails (e.g. after a refactoring), everything in src/CMakeLists.txt is built."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    t0 = time.time()
    pch = ensure_pch(san)
    dsrc = os.path.join(VERIF, "harness", driver + ".cpp")
    allsrc = repo_sources()
    if sources is None:
        dp = os.path.join(VERIF, "lib", "deps.json")
        sources = json.load(open(dp)).get(driver) if os.path.exists(dp) else None
    for attempt in (0, 1):
        srcs = allsrc if (sources is None or attempt) else [s for s in sources if os.path.exists(REPO + "/src/" + s)]
        # biggest first
        paths = [dsrc] + sorted([REPO + "/src/" + s for s in srcs], key=lambda p: -os.path.getsize(p))
        with cf.ThreadPoolExecutor(jobs) as ex:
            objs = list(ex.map(lambda p: compile_one(p, san, pch), paths))
        exe = os.path.join(BUILD, "bin-%s-%s" % (driver, sh256(*objs)))
        if os.path.exists(exe):
            break
        tmp = exe + ".%d.tmp" % os.getpid()
        r = run([CXX] + flags(san) + ["-o", tmp, objs[0], "-Wl,--start-group"] + objs[1:] + ["-Wl,--end-group"] + LIBS)
        if r.returncode == 0:
            os.rename(tmp, exe)
            break
        if attempt == 1 or sources is None:
            raise CheckError("linking failed:\n" + r.stdout[-6000:])
    log("built %s in %.1fs" % (driver, time.time() - t0))
    prune()
    return exe


def prune():
    """Keep the local object cache small."""
    d = os.path.join(BUILD, "obj")
    fs = [(os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d)]
    if len(fs) > 1500:
        for _, f in sorted(fs)[:-900]:
            try:
                os.remove(f)
            except OSError:
                pass
    bs = [(os.path.getmtime(os.path.join(BUILD, f)), os.path.join(BUILD, f)) for f in os.listdir(BUILD) if f.startswith("bin-")]
    for _, f in sorted(bs)[:-60]:
        try:
            os.remove(f)
        except OSError:
            pass


class Ctx:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.fails = []        # list of dict(sig, detail, shard, line)
        self.known = self._known()
        self.opcounts = {}

    def thorough(self):
        return self.tier == "thorough"

    def _known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for k in json.load(open(p))["findings"]:
                if k["property"] == self.prop and k.get("status") == "known":
                    out.append(k)
        return out

    # ---------------------------------------------------------------- drivers
    def drive(self, exe, shards, timeout=300, env=None):
        """shards: list of dict of key=value args. Each writes its own trace file. Returns list of paths."""
        files = []
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
        if env:
            e.update(env)

        def one(i):
            out = os.path.join(self.work, "trace-%d-%d.ndjson" % (len(self.samples), i) if False else "t%d_%03d.ndjson" % (self._round, i))
            cmd = [exe, "out=" + out] + ["%s=%s" % kv for kv in shards[i].items()]
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                                   cwd=self.work, text=True, errors="replace")
            except subprocess.TimeoutExpired:
                raise CheckError("driver timed out: " + " ".join(cmd))
            if r.returncode != 0:
                raise CheckError("driver failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-3000:]))
            return out

        self._round = getattr(self, "_round", 0) + 1
        with cf.ThreadPoolExecutor(NPROC) as ex:
            files = list(ex.map(one, range(len(shards))))
        return files

    # ---------------------------------------------------------------- TLC
    def tlc_trace(self, module, files, consts=None, heap="2500m", timeout=600, cfg=None, prefix=True):
        """Validate each recorded trace with specs/<module>.tla. The module prints <<"FAIL", line, {names}>> for every
        event that is not a behaviour the specification allows."""
        def one(f):
            return f, self._tlc(module, f, consts or {}, heap, timeout, cfg)
        t = time.time()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(one, files))
        for f, (out, rc) in results:
            n = count_lines(f)
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            fails = parse_fails(out)
            if "Model checking completed. No error has been found." not in out:
                # An evaluation error: the logged state is so broken that the specification cannot even be evaluated.
                at = re.findall(r'<<"AT", (\d+)>>', out)
                if "violated" in out or "Error:" in out or at:
                    line = None
                    mm = re.findall(r"/\\ i = (\d+)|^i = (\d+)", out, re.M)
                    if mm:
                        line = min(int(mm[-1][0] or mm[-1][1]) + 1, n)
                    if os.environ.get("VF_DEBUG"):
                        log(out[-5000:])
                    if line is None:
                        raise CheckError("TLC failed on %s:\n%s" % (f, out[-6000:]))
                    fails.append((line, ["not evaluable by the specification"], tlc_error(out)))
                else:
                    raise CheckError("TLC failed on %s:\n%s" % (f, out[-6000:]))
            if m:
                self.transitions += int(m.group(1))
                self.states += int(m.group(2))
            elif not fails:
                raise CheckError("no TLC statistics for %s:\n%s" % (f, out[-3000:]))
            lines = None
            for ent in fails:
                line, names = ent[0], ent[1]
                if lines is None:
                    lines = open(f, errors="replace").read().split("\n")
                self.fails.append(self._mkfail(module, f, lines, line, names, ent[2] if len(ent) > 2 else "", prefix, consts, cfg))
            hist, ev = self._count(f)
            bad = len({x["hist"] for x in self.fails if x["file"] == f})
            self.traces += max(0, hist - bad)
            self.events += ev
        log("TLC validated %d events of %d traces with %s in %.1fs" % (self.events, self.traces, module, time.time() - t))

    def _count(self, f):
        hist = ev = 0
        with open(f, errors="replace") as fh:
            for ln in fh:
                if not ln.strip():
                    continue
                ev += 1
                m = re.match(r'\{"op":"(\w+)"', ln)
                op = m.group(1) if m else "?"
                self.opcounts[op] = self.opcounts.get(op, 0) + 1
                if op == "init":
                    hist += 1
                if len(self.samples) < 3 and op != "init" and len(ln) < 1500 and (self.events + ev) % 97 == 5:
                    self.samples.append(json.loads(ln))
        return hist, ev

    def _mkfail(self, module, f, lines, line, names, note, prefix, consts, cfg):
        e = {}
        try:
            e = json.loads(lines[line - 1])
        except Exception:
            pass
        # reconstruct the history that leads to this event
        chain = [line]
        while True:
            cur = {}
            try:
                cur = json.loads(lines[chain[0] - 1])
            except Exception:
                pass
            if cur.get("op") == "init" or chain[0] <= 1:
                break
            nxt = cur.get("p", chain[0] - 1)
            if not isinstance(nxt, int) or nxt < 1 or nxt >= chain[0]:
                nxt = chain[0] - 1
            chain.insert(0, nxt)
        return dict(module=module, file=f, line=line, names=sorted(names), op=e.get("op", "?"), event=e, note=note,
                    hist=chain[0], chain=[lines[c - 1] for c in chain], consts=consts or {}, cfg=cfg)

    def _tlc(self, module, trace, consts, heap, timeout, cfg):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgp = os.path.join(d, "m.cfg")
        base = open(os.path.join(VERIF, "specs", (cfg or module) + ".cfg")).read()
        for k, v in consts.items():
            base += "\nCONSTANT %s = %s\n" % (k, v)
        open(cfgp, "w").write(base)
        env = dict(os.environ)
        env["TRACE"] = trace
        cp = JAR + ":" + community_cp()
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", cp,
               "-DTLA-Library=" + os.path.join(VERIF, "specs"),
               "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(d, "meta"), "-workers", "1", "-deadlock", "-noGenerateSpecTE",
               os.path.join(VERIF, "specs", module + ".tla")]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d,
                               text=True, errors="replace")
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out after %ss on %s" % (timeout, trace))
        shutil.rmtree(d, ignore_errors=True)
        return out, rc

    def tlc_model(self, module, cfg, workers=NPROC, heap="6g", timeout=800, extra=(), expect_ok=True):
        """Exhaustive model checking of the specification itself."""
        d = tempfile.mkdtemp(prefix="tlcm-", dir=self.work)
        cp = JAR + ":" + community_cp()
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", cp,
               "-DTLA-Library=" + os.path.join(VERIF, "specs"),
               "tlc2.TLC", "-config", os.path.join(VERIF, "specs", cfg + ".cfg"), "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers), "-deadlock", "-noGenerateSpecTE"] + list(extra) + \
              [os.path.join(VERIF, "specs", module + ".tla")]
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d, text=True,
                           errors="replace")
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m or "Model checking completed. No error has been found." not in out:
            raise CheckError("model checking of %s (%s) failed:\n%s" % (module, cfg, out[-6000:]))
        self.transitions += int(m[-1][0])
        self.states += int(m[-1][1])
        self.extra.setdefault("model_runs", []).append(
            dict(module=module, cfg=cfg, states=int(m[-1][1]), transitions=int(m[-1][0]), wall_s=round(time.time() - t, 1)))
        log("TLC model %s/%s: %s states, %s transitions (%.1fs)" % (module, cfg, m[-1][1], m[-1][0], time.time() - t))
        shutil.rmtree(d, ignore_errors=True)
        return out

    # ---------------------------------------------------------------- reporting
    def finish(self, level="model_checking"):
        new, seen = [], set()
        for f in self.fails:
            k = self._match_known(f)
            if k is None:
                new.append(f)
            elif k["id"] not in seen:
                seen.add(k["id"])
        for k in self.known:   # every listed finding is announced on every run
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.extra["op_counts"] = self.opcounts
        self.extra["known_findings_seen"] = sorted(seen)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events, samples=self.samples[:3] or [self.extra], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        rc = 0
        if new:
            new.sort(key=lambda f: len(f["chain"]))
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s.ndjson" % self.prop)
            f = new[0]
            with open(rp, "w") as fh:
                for ln in f["chain"]:
                    fh.write(ln + "\n")
            json.dump([dict(op=g["op"], names=g["names"], note=g["note"][:2000], chain=[short(x) for x in g["chain"]])
                       for g in new[:20]], open(os.path.join(rd, self.prop + ".json"), "w"), indent=1)
            if os.environ.get("VF_DEBUG"):
                json.dump([dict(names=g["names"], chain=g["chain"]) for g in new[:400]], open("/tmp/fails.json", "w"))
            for g in new[:8]:
                log("  failing event: op=%s spec conditions violated: %s %s" % (g["op"], ", ".join(g["names"]), g["note"][:300]))
                log("    after: " + " -> ".join(short(x) for x in g["chain"])[:700])
            log("%d events rejected by the specification" % len(new))
            kinds = {}
            for g in new:
                for x in g["names"]:
                    kinds[x] = kinds.get(x, 0) + 1
            for x in sorted(kinds, key=kinds.get, reverse=True)[:30]:
                log("  %6d  %s" % (kinds[x], x))
            log("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, VERIF)))
            rc = 1
        else:
            log("OK property=%s: %d traces (%d events) accepted; %d states, %d transitions; %.1fs" %
                (self.prop, self.traces, self.events, self.states, self.transitions, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc

    def _match_known(self, f):
        for k in self.known:
            m = k["match"]
            if "op" in m and m["op"] != f["op"]:
                continue
            if "names" in m and not set(f["names"]) <= set(m["names"]):
                continue
            if "cls" in m and f["event"].get("cls") not in m["cls"]:
                continue
            if "why" in m and f["event"].get("why") not in m["why"]:
                continue
            return k
        return None


def short(line):
    try:
        e = json.loads(line)
    except Exception:
        return line[:200]
    e = {k: v for k, v in e.items() if k not in ("s", "t", "p", "post", "pre", "w", "g", "k", "ty") and v not in ([], "")}
    return json.dumps(e, separators=(",", ":"))[:400]


def tlc_error(out):
    m = re.search(r"Error: (.*?)(?:\nError: The behavior|\n\n|$)", out, re.S)
    return m.group(1)[:1500] if m else ""


def parse_fails(out):
    """<<"FAIL", 12, {"a", "b"}>> possibly wrapped over several lines"""
    res = []
    for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
        res.append((int(m.group(1)), re.findall(r'"([^"]*)"', m.group(2))))
    return res


def count_lines(f):
    return sum(1 for _ in open(f, "rb"))


_cp = None


def community_cp():
    global _cp
    if _cp is None:
        c = []
        for d, _, fs in os.walk("/opt/veriftools/tla"):
            for f in fs:
                if f.endswith(".jar") and "tla2tools" not in f:
                    c.append(os.path.join(d, f))
        _cp = ":".join(sorted(c))
    return _cp


def main(prop, body):
    """Run a check body(ctx); exit 0 / 1+VIOLATION; any internal failure exits 2 (an error of the check)."""
    c = Ctx(prop)
    try:
        body(c)
        rc = c.finish()
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        rc = 2
    sys.exit(rc)
