#!/usr/bin/env python3
"""Runner of the checks.

  vf.py run  ID [quick|thorough]     decide one property on /repo's working tree
  vf.py all  [quick|thorough]        all of them, one after the other
  vf.py setup                        sanity-check the tools, parse the specifications
  vf.py build PROFILE                only build the library

Exit status: 0 held, 1 violated (a VIOLATION line was printed), 2 the check could not decide.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
HARN = os.path.join(HERE, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 8)
OUT = os.path.join(HERE, "out")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
CACHE = os.path.join(HERE, ".cache")

CXXFLAGS = ["-std=c++17", "-O1", "-g0", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-w", "-fPIC",
            "-DENABLE_FACTORIZATION=1", "-DENABLE_PLUGIN=1"]


class CannotDecide(Exception):
    pass


def run(cmd, timeout=None, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         stdin=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        return "timeout", o, r


# ------------------------------------------------------------------ build

def sources(profile):
    """Library sources, found by name pattern so that a moved or split file is still compiled."""
    lib = os.path.join(REPO, "lib")
    srcs = sorted(glob.glob(lib + "/hnco/**/*.cc", recursive=True))
    rel = lambda s: os.path.relpath(s, lib)
    if profile == "core":
        skip = ("hnco/app/", "hnco/multiobjective/app/", "hnco/algorithms/gomea/",
                "hnco/algorithms/fast-efficient-p3/")
        srcs = [s for s in srcs if not rel(s).startswith(skip) or os.path.basename(s).startswith("pars")]
        srcs = [s for s in srcs if "python" not in os.path.basename(s)]
    else:
        srcs += sorted(glob.glob(lib + "/fast-efficient-p3/*.cpp"))
        srcs += sorted(glob.glob(lib + "/gomea/src/**/*.cpp", recursive=True))
        # what the programs share, without the files that hold a main function
        srcs += [s for s in sorted(glob.glob(os.path.join(REPO, "app", "*.cc")))
                 if not re.search(r"\bint\s+main\s*\(", open(s, errors="replace").read())]
    srcs += sorted(glob.glob(lib + "/fparser/*.cc"))
    return srcs


def includes(profile):
    inc = ["-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(HARN, "include"), "-I" + HARN]
    if profile == "full":
        inc += python_includes() + ["-I" + os.path.join(REPO, "lib/gomea"), "-DENABLE_PYTHON=1"]
    return inc


def python_includes():
    import sysconfig
    return ["-I" + sysconfig.get_paths()["include"]]


def cc(src, obj, extra):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = []
    env = {}
    if shutil.which("ccache"):
        cmd = ["ccache"]
        env = {"CCACHE_DIR": os.path.join(CACHE, "ccache"), "CCACHE_MAXSIZE": "600M", "CCACHE_NOHASHDIR": "1"}
    flags = list(CXXFLAGS)
    base = os.path.basename(src)
    if base in ("fpoptimizer.cc", "fparser.cc"):
        flags = [f if f != "-O1" else "-O0" for f in flags]
    rc, o, e = run(cmd + ["g++"] + flags + extra + ["-c", src, "-o", obj], timeout=600, env=env)
    if rc != 0 and cmd:
        rc, o, e = run(["g++"] + flags + extra + ["-c", src, "-o", obj], timeout=600)
    return rc, e


def build(profile, drivers):
    """Compile the library and the drivers; return {driver: executable}."""
    bd = os.path.join(BUILD, profile)
    os.makedirs(bd, exist_ok=True)
    inc = includes(profile)
    jobs = []
    libobjs = []
    for s in sources(profile):
        o = os.path.join(bd, "lib", os.path.relpath(s, REPO).replace("/", "__") + ".o")
        libobjs.append(o)
        jobs.append((os.path.getsize(s), s, o))
    drv = {}
    for d in drivers:
        s = os.path.join(REPO, d[5:]) if d.startswith("repo:") else os.path.join(HARN, d + ".cc")
        o = os.path.join(bd, "drv", d.replace("/", "__").replace(":", "_") + ".o")
        drv[d] = o
        jobs.append((10 ** 9, s, o))
    jobs.sort(reverse=True)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda j: (j, cc(j[1], j[2], inc)), jobs))
    bad = [(j[1], r[1]) for j, r in res if r[0] != 0]
    if bad:
        raise CannotDecide("compilation failed: " + "; ".join(f"{s}: {e[:1500]}" for s, e in bad[:3]))
    ar = os.path.join(bd, "libhnco.a")
    if os.path.exists(ar):
        os.unlink(ar)
    rc, o, e = run(["ar", "rcs", ar] + libobjs)
    if rc != 0:
        raise CannotDecide("ar: " + e)
    exes = {}

    def link(d):
        exe = os.path.join(bd, d.replace("/", "__").replace(":", "_").replace(".", "_") + ".exe")
        objs = [drv[d]]
        libs = ["-lboost_serialization", "-lgmpxx", "-lgmp", "-ldl"]
        if profile == "full":
            import sysconfig
            v = sysconfig.get_config_var("LDVERSION") or "3.12"
            libs += ["-L" + (sysconfig.get_config_var("LIBDIR") or "/usr/lib"), "-lpython" + v]
        rc, o, e = run(["g++", "-fopenmp", "-rdynamic", "-o", exe] + objs + [ar] + libs, timeout=300)
        return d, exe, rc, e
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for d, exe, rc, e in ex.map(link, drv):
            if rc != 0:
                raise CannotDecide("link of %s failed: %s" % (d, e[-1500:]))
            exes[d] = exe
    return exes


# ------------------------------------------------------------------ TLC

TLC_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class TlcResult:
    def __init__(self):
        self.kind = "error"
        self.states = self.distinct = 0
        self.output = ""
        self.stuck = None
        self.message = ""


def tlc(module, cfg, workdir, env=None, workers=1, timeout=600, extra=(), heap="3g", dfs=False):
    os.makedirs(workdir, exist_ok=True)
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    jopts = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
             "-Djava.io.tmpdir=" + workdir, "-Dtlc2.TLC.ide=vf", "-DTLA-Library=" + SPEC]
    cmd = jopts + ["-cp", TLAJAR, "tlc2.TLC", "-config", os.path.join(SPEC, cfg), "-metadir", meta,
                   "-workers", str(workers), "-noGenerateSpecTE", "-deadlock", "-checkpoint", "0"] + list(extra) + \
        [os.path.join(SPEC, module + ".tla")]
    rc, o, e = run(cmd, timeout=timeout, env=env, cwd=workdir)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.output = o + "\n" + e
    m = TLC_STATES.findall(r.output)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r'"STUCK",\s*(\d+)', r.output)
    if m:
        r.stuck = int(m.group(1))
    if rc == "timeout":
        r.kind, r.message = "error", "TLC timed out"
    elif rc == 0 and "Model checking completed. No error" in r.output and r.stuck is None:
        r.kind = "ok"
    elif rc == 0 and "-simulate" in extra:
        r.kind = "ok"
    elif r.stuck is not None:
        r.kind = "rejected"
    elif rc in (12, 13) or "is violated" in r.output:
        r.kind = "rejected"
    elif rc in (75, 76, 77) or "TLC threw an unexpected exception" in r.output or \
            "evaluat" in r.output and "Error:" in r.output and "Parsing or semantic analysis failed" not in r.output:
        r.kind = "evalerror"
    else:
        r.kind = "error"
    if "OutOfMemoryError" in r.output or "Parsing or semantic analysis failed" in r.output or \
            "StackOverflowError" in r.output:
        r.kind = "error"
    if r.kind not in ("ok",) and not r.message:
        lines = [l for l in r.output.splitlines() if l.strip()]
        errs = [k for k, l in enumerate(lines) if l.startswith("Error:") or "STUCK" in l]
        r.message = "\n".join(lines[errs[0]:errs[0] + 25] if errs else lines[-25:])
    return r


# ------------------------------------------------------------------ checks

def load_checks():
    sys.path.insert(0, HERE)
    import checks
    return checks.CHECKS


def read_line(path, k):
    with open(path) as f:
        for n, l in enumerate(f, 1):
            if n == k:
                return l.strip()
    return None


def context(path, k, before=3):
    """The record k, the ones just before it and the record opening its scenario."""
    keep, begin = [], None
    with open(path) as f:
        for n, l in enumerate(f, 1):
            if n > k:
                break
            if '"e":"Begin' in l:
                begin = (n, l)
            keep.append((n, l))
            keep = keep[-(before + 1):]
    res = []
    if begin and begin not in keep:
        res.append(begin)
    res += keep
    return [{"line": n, "record": l.strip()[:4000]} for n, l in res]


class Failure:
    def __init__(self, kind, detail, rec=None):
        self.kind, self.detail, self.rec = kind, detail, rec


def run_shard(pid, part, exe, tier, seed, shard, nshards, wd, timeout):
    """One driver run and its validation against the specification."""
    trace = os.path.join(wd, f"{part['mode']}.{shard}.ndjson")
    cmd = [exe, part["mode"], str(seed), tier, str(shard), str(nshards), trace]
    env = dict(part.get("env", {}))
    env.setdefault("OMP_NUM_THREADS", "2")
    env["VF_SCRATCH"] = os.path.join(wd, "scratch.%s.%d" % (part["mode"], shard))
    os.makedirs(env["VF_SCRATCH"], exist_ok=True)
    t0 = time.time()
    rc, o, e = run(cmd, timeout=timeout, env=env, cwd=env["VF_SCRATCH"])
    shutil.rmtree(env["VF_SCRATCH"], ignore_errors=True)
    th = time.time() - t0
    info = {"events": 0, "scenarios": 0, "states": 0, "distinct": 0, "harness_s": th, "tlc_s": 0}
    if rc in (64, 65, 66):
        raise CannotDecide("driver: " + e[-500:])
    if rc != 0:
        what = "did not finish in %ss" % timeout if rc == "timeout" else "ended with status %s" % rc
        return info, Failure("driver", {"command": cmd, "what": "code under test " + what, "stderr": e[-3000:]})
    m = re.search(r"events=(\d+) scenarios=(\d+)", o)
    if not m:
        return info, Failure("driver", {"command": cmd, "what": "code under test ended the process early", "stderr": e[-3000:], "stdout": o[-500:]})
    info["events"], info["scenarios"] = int(m.group(1)), int(m.group(2))
    if info["events"] == 0:
        os.unlink(trace)
        return info, None
    t0 = time.time()
    r = tlc(part["module"], part.get("cfg", "Trace.cfg"), os.path.join(wd, f"tlc.{part['mode']}.{shard}"),
            env={"TRACE": trace, "VF_MODE": part["mode"]}, timeout=max(timeout, 700 if tier == "quick" else 6000), heap=part.get("heap", "3g"))
    info["tlc_s"] = time.time() - t0
    info["states"], info["distinct"] = r.states, r.distinct
    if r.kind == "ok":
        s = read_line(trace, 1 + (seed * 7 + shard) % max(1, info["events"]))
        info["sample"] = s[:600]
        if not os.environ.get("VF_KEEP"):
            os.unlink(trace)
        return info, None
    if r.kind == "error":
        raise CannotDecide("TLC on %s: %s" % (trace, r.message[:3000]))
    k = r.stuck
    if k is None:
        # evaluation error: the record being examined is the next one after the last complete level
        m = re.search(r"(\d+) states generated", r.output)
        k = max(1, r.distinct)
    det = {"command": cmd, "what": "the specification rejects the recorded behaviour" if r.kind == "rejected" else
           "the recorded behaviour is outside the domain of the specification",
           "module": part["module"], "trace": trace, "rejected_record": context(trace, k), "tlc": r.message[:3000]}
    return info, Failure(r.kind, det, k)


def run_part(pid, part, exe, tier, seed, wd, ex):
    nsh = part.get("shards", NPROC)
    timeout = part.get("timeout", 150 if tier == "quick" else 3000)
    return [ex.submit(run_shard, pid, part, exe, tier, seed, s, nsh, wd, timeout) for s in range(nsh)]


def check(pid, tier, seed):
    t0 = time.time()
    ck = load_checks()[pid]
    wd = os.path.join(OUT, pid)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd, exist_ok=True)
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    states = transitions = validated = events = 0
    design_out = []
    samples = []
    profile = ck.get("profile", "core")
    drivers = sorted({p["driver"] for p in ck["parts"]} | set(ck.get("extra_drivers", [])))
    with cf.ThreadPoolExecutor(2) as bex:
        fb = bex.submit(build, profile, drivers)
        exes = fb.result()
    tb = time.time() - t0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        dfut = []
        for d in ck.get("design", []):
            if d.get("tier") == "thorough" and tier != "thorough":
                continue
            cfg = d["cfg"]
            if tier == "thorough" and d.get("cfg_thorough"):
                cfg = d["cfg_thorough"]
            dfut.append((d, cfg, ex.submit(tlc, d["module"], cfg, os.path.join(wd, "design." + cfg), None,
                                           d.get("workers", 2), 700 if tier == "quick" else 6000, d.get("extra", ()), d.get("heap", "4g"))))
        if ck.get("prepare"):
            ck["prepare"](sys.modules[__name__], wd, tier, seed)
        futs = []
        for p in ck["parts"]:
            p = dict(p)
            p.setdefault("env", {})
            p["env"] = {**p["env"], "VF_WD": wd, "VF_EXE_DIR": os.path.join(BUILD, profile)}
            futs += [(p, s, f) for s, f in enumerate(run_part(pid, p, exes[p["driver"]], tier, seed, wd, ex))]
        failures = []
        for p, s, f in futs:
            info, fail = f.result()
            validated += info["scenarios"]
            events += info["events"]
            states += info["distinct"]
            transitions += max(0, info["states"] - 1)
            if info.get("sample") and len(samples) < 6:
                samples.append({"mode": p["mode"], "record": info["sample"]})
            if os.environ.get("VF_VERBOSE"):
                print(p["mode"], s, info, file=sys.stderr)
            if fail:
                failures.append((p, s, fail))
        for d, cfg, f in dfut:
            r = f.result()
            if d.get("expect", "ok") != r.kind:
                raise CannotDecide("design model %s/%s: %s: %s" % (d["module"], cfg, r.kind, r.message[:3000]))
            states += r.distinct
            transitions += max(0, r.states - 1)
            design_out.append({"module": d["module"], "cfg": cfg, "expected": d.get("expect", "ok"), "distinct_states": r.distinct})
    confirmed = None
    for p, s, fail in failures[:4]:
        # A rejection counts only if running the same thing again is rejected again.
        wd2 = os.path.join(wd, "confirm")
        os.makedirs(wd2, exist_ok=True)
        nsh = p.get("shards", NPROC)
        timeout = p.get("timeout", 150 if tier == "quick" else 3000)
        for attempt in range(3):
            _, again = run_shard(pid, p, exes[p["driver"]], tier, seed, s, nsh, wd2, timeout)
            if again:
                confirmed = (p, s, again)
                break
            if p.get("deterministic", True):
                break
        if confirmed:
            break
    if failures and not confirmed:
        print("note: a rejection did not repeat and is not reported: %s" % json.dumps(failures[0][2].detail)[:1500])
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": validated,
                       "trace_events": events, "design_models": design_out, "samples": samples or [{"none": True}]},
          "assumptions": ck.get("assumptions", []) + [
              "TLC and the trace modules in /verif/spec evaluate the specification correctly",
              "g++ -O1 with assertions enabled; integer-valued observations compared exactly"],
          "wall_s": round(wall, 2), "violations": 1 if confirmed else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kf in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    if confirmed:
        p, s, fail = confirmed
        rp = os.path.join(OUT, "replay", "%s.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "mode": p["mode"], "shard": s, **fail.detail}, f, indent=1)
        d = fail.detail
        print("%s: %s" % (pid, d["what"]))
        for c in d.get("rejected_record", [])[-2:]:
            print("  record %d: %s" % (c["line"], c["record"][:700]))
        if d.get("stderr"):
            print("  " + d["stderr"].strip()[-600:])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s held: %d scenarios, %d recorded events accepted, %d design models, %d states (%.1fs, build %.1fs)" %
          (pid, validated, events, len(design_out), states, wall, tb))
    if not os.environ.get("VF_KEEP"):
        shutil.rmtree(wd, ignore_errors=True)
    return 0


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f["what"] for f in json.load(open(p)).get("known", []) if f["property"] == pid]


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        for t in ("g++", "java", "ar"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        return 0
    if a[0] == "build":
        build(a[1], a[2:])
        return 0
    tier = (a[2] if a[0] == "run" and len(a) > 2 else a[1] if a[0] == "all" and len(a) > 1 else
            os.environ.get("VERIF_TIER", "quick"))
    ids = [a[1]] if a[0] == "run" else sorted(load_checks())
    worst = 0
    for pid in ids:
        try:
            rc = check(pid, tier, seed)
        except CannotDecide as x:
            print("%s: cannot decide: %s" % (pid, x))
            rc = 2
        sys.stdout.flush()
        worst = max(worst, rc) if len(ids) > 1 else rc
    return worst


if __name__ == "__main__":
    sys.exit(main())
