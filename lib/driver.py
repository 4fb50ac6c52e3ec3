"""Builds harness + /repo sources to LLVM IR, runs the symbolic executor, replays every
counterexample natively against the real code, and writes the evidence file."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
LINK = "/usr/bin/llvm-link-18"
OBJCOPY = "/usr/bin/objcopy"
CPUS = int(os.environ.get("VF_CPUS", "8"))

IRFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-DNDEBUG",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-ffp-contract=off", "-fno-discard-value-names", "-w"]
NATFLAGS = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-ffp-contract=off", "-fPIC",
            "-fsemantic-interposition", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all"]


class H:
    """One harness entry point and how to run it."""

    def __init__(self, name, file, entry, reach=(), opts=(), defs=(), srcdefs=(), override=False,
                 time=240, jobs=1, tier="quick", validate=True, bounds="", stubs="", thorough=None,
                 passes=None, samples=6):
        self.name, self.file, self.entry = name, file, entry
        self.reach, self.opts, self.defs, self.srcdefs = list(reach), list(opts), list(defs), list(srcdefs)
        self.override, self.time, self.jobs, self.tier = override, time, jobs, tier
        self.validate, self.bounds, self.stubs = validate, bounds, stubs
        self.thorough = thorough or {}
        self.passes = passes or "sroa,early-cse,dce"
        self.samples = samples


class CheckError(Exception):
    pass


class HarnessError(CheckError):
    """The harness does not fit the code (any more): nothing can be decided with it."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


def must(cmd, **kw):
    rc, out = run(cmd, **kw)
    if rc:
        raise CheckError("command failed (%d): %s\n%s" % (rc, " ".join(cmd), out[-3000:]))
    return out


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha1()
        for d in ("include", "src"):
            for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
                for f in sorted(files):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
        _tree = h.hexdigest()
    return _tree


def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cc")))


_locks = {}
_glock = threading.Lock()


def once(key, fn):
    """Run fn for a target at most once at a time; skip if the target exists."""
    with _glock:
        lk = _locks.setdefault(key, threading.Lock())
    with lk:
        if not os.path.exists(key):
            tmp = "%s.tmp%d" % (key, os.getpid())
            fn(tmp)
            os.rename(tmp, key)
    return key


def inc(defs):
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")] + list(defs)


_slots = threading.Semaphore(CPUS)


class Slots:
    """Counting CPU slots; a harness with j workers takes j of them."""

    def __init__(self, n):
        self.n = n
        self.cv = threading.Condition()

    def take(self, k):
        with self.cv:
            while self.n < k:
                self.cv.wait()
            self.n -= k

    def give(self, k):
        with self.cv:
            self.n += k
            self.cv.notify_all()


SLOTS = Slots(CPUS)


def compile_bc(src, defs):
    content = open(src, "rb").read()
    key = os.path.join(BUILD, "bc", sha(src, content, tree_hash(), harness_hash(), IRFLAGS, defs) + ".bc")

    def mk(t):
        try:
            must([CLANG] + IRFLAGS + inc(defs) + ["-c", "-emit-llvm", src, "-o", t])
        except CheckError as e:
            raise HarnessError(str(e)) if src.startswith(VERIF) else e
    return once(key, mk)


_hh = None


def harness_hash():
    global _hh
    if _hh is None:
        h = hashlib.sha1()
        for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")) + [os.path.join(VERIF, "harness", "vf_native.cc")]):
            h.update(open(f, "rb").read())
        _hh = h.hexdigest()
    return _hh


def compile_obj(src, defs, flags):
    content = open(src, "rb").read()
    key = os.path.join(BUILD, "obj", sha(src, content, tree_hash(), harness_hash(), flags, defs) + ".o")
    return once(key, lambda t: must([CLANG] + flags + inc(defs) + ["-c", src, "-o", t]))


def parallel(jobs):
    """Run thunks on CPUS threads, returning results in order."""
    with cf.ThreadPoolExecutor(CPUS) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


def build_ir(h):
    srcs = repo_sources()
    hsrc = os.path.join(VERIF, "harness", h.file)
    hbc = compile_bc(hsrc, h.defs)
    bcs = [compile_bc(s, h.srcdefs) for s in srcs]
    key = os.path.join(BUILD, "ir", sha(hbc, bcs, h.entry, h.passes, h.override) + ".bc")

    def mk(t):
        if h.override:
            must([LINK, "-o", t + ".l"] + bcs + ["--override=" + hbc])
        else:
            must([LINK, "-o", t + ".l", hbc] + bcs)
        must([OPT, "-passes=internalize,globaldce," + h.passes, "-internalize-public-api-list=" + h.entry, t + ".l", "-o", t])
        os.remove(t + ".l")
    return once(key, mk)


def build_native(h, san=True):
    flags = NATFLAGS + (SAN if san else [])
    objs = [compile_obj(s, h.srcdefs, flags) for s in repo_sources()]
    hobj = compile_obj(os.path.join(VERIF, "harness", h.file), h.defs, flags)
    robj = compile_obj(os.path.join(VERIF, "harness", "vf_native.cc"), ["-DVF_ENTRY=" + h.entry], flags)
    arkey = os.path.join(BUILD, "obj", sha("ar", objs) + ".a")

    def mkar(t):
        d = t + ".d"
        os.makedirs(d)
        ws = []
        for i, o in enumerate(objs):
            w = os.path.join(d, "w%d.o" % i)
            must([OBJCOPY, "--weaken", o, w])
            ws.append(w)
        must(["ar", "rcs", t] + ws)
        shutil.rmtree(d)
    ar = once(arkey, mkar)
    key = os.path.join(BUILD, "nat", sha(hobj, robj, ar, flags, "whole"))
    return once(key, lambda t: must([CLANG] + flags + [hobj, robj, "-Wl,--whole-archive", ar, "-Wl,--no-whole-archive", "-o", t]))


def write_replay(path, inputs):
    with open(path, "w") as f:
        for n, v in inputs:
            f.write("%s %s\n" % (n.replace(" ", "_"), v))


def native(exe, replay, timeout=60):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0"
    try:
        r = subprocess.run([exe, replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -14, "TIMEOUT"


def confirm(h, v, replay):
    """Does the real code, built natively, misbehave on these inputs?"""
    res = []
    for san in (True, False):
        exe = build_native(h, san)
        rc, out = native(exe, replay)
        res.append((rc, out))
        if rc in (77, 78, 0):
            continue
        return True, "%s exit %d: %s" % ("sanitized" if san else "plain", rc, out.strip()[-600:])
    return False, "; ".join("exit %d: %s" % (rc, out.strip()[-200:]) for rc, out in res)


class HResult:
    pass


def merge(files):
    tot = None
    for f in files:
        with open(f) as fh:
            d = json.load(fh)
        if tot is None:
            tot = d
            continue
        for k, v in d.items():
            if k in ("wall", "timeout"):
                tot[k] = max(tot[k], v)
            elif k in ("maxQuerySecs", "rssMB"):
                tot[k] = max(tot[k], v)
            elif isinstance(v, bool):
                tot[k] = tot[k] or v
            elif isinstance(v, (int, float)):
                tot[k] += v
            elif isinstance(v, list):
                if k in ("samples", "violations"):
                    tot[k] += v
                else:
                    tot[k] = sorted(set(tot[k]) | set(v))
            elif isinstance(v, dict):
                for a, b in v.items():
                    tot[k][a] = tot[k].get(a, 0) + b
    return tot


DEADLINE = None
STRICT = bool(os.environ.get("VF_STRICT"))


def run_harness(prop, h, tier, seed):
    t0 = time.time()
    opts = list(h.opts)
    tm, jobs = h.time, h.jobs
    defs = list(h.defs)
    if tier == "thorough":
        opts = list(h.thorough.get("opts", opts))
        tm = h.thorough.get("time", max(tm, 3000))
        if "defs" in h.thorough:
            h.defs = list(h.thorough["defs"])
        jobs = h.thorough.get("jobs", jobs)
    SLOTS.take(1)
    try:
        ir = build_ir(h)
    finally:
        SLOTS.give(1)
    jobs = min(jobs, CPUS)
    SLOTS.take(jobs)
    if DEADLINE:
        tm = max(5, min(tm, int(DEADLINE - time.time())))
    try:
        outdir = os.path.join(BUILD, "out")
        out = os.path.join(outdir, "%s.%s.json" % (prop, h.name))
        for f in glob.glob(out + "*"):
            os.remove(f)
        cmd = [os.path.join(BUILD, "symex"), ir, "--entry=" + h.entry, "--out=" + out, "--jobs=%d" % jobs,
               "--time=%d" % tm, "--seed=%d" % seed, "--samples=%d" % h.samples, "--max-viol=4"] + opts
        try:
            rc, text = run(cmd, timeout=tm + 60)
        except subprocess.TimeoutExpired:
            rc, text = 0, ""
        if not glob.glob(out + "*"):
            if rc == 0:
                return None      # nothing decided within the time
            raise CheckError("engine failed on %s (exit %d): %s" % (h.name, rc, text[-2000:]))
    finally:
        SLOTS.give(jobs)
    r = HResult()
    r.h = h
    r.d = merge(sorted(glob.glob(out + "*")))
    r.wall = time.time() - t0
    # replay
    SLOTS.take(1)
    try:
        r.confirmed, r.unconfirmed = [], []
        rdir = os.path.join(BUILD, "replay")
        seen = set()
        for i, v in enumerate(r.d["violations"]):
            key = (v["kind"], v["msg"])
            if key in seen and len(r.confirmed) > 3:
                continue
            rp = os.path.join(rdir, "%s-%s-%d.replay" % (prop, h.name, i))
            write_replay(rp, v["inputs"])
            ok, why = confirm(h, v, rp)
            if ok:
                seen.add(key)
            (r.confirmed if ok else r.unconfirmed).append((v, rp, why))
        r.validated, r.mismatch = 0, []
        if h.validate and r.d["samples"]:
            exe = build_native(h, True)
            for i, s in enumerate(r.d["samples"][:24]):
                rp = os.path.join(rdir, "%s-%s-sample%d.replay" % (prop, h.name, i))
                write_replay(rp, s["inputs"])
                rc, text = native(exe, rp)
                obs = [l.split()[1] for l in text.splitlines() if l.startswith("OBS ")]
                reach = [l.split(None, 1)[1] for l in text.splitlines() if l.startswith("REACH ")]
                if rc == 0 and obs == s["obs"] and reach == s["reached"]:
                    r.validated += 1
                    os.remove(rp)
                elif rc not in (0, 2, 77, 78):
                    msg = next((l[12:] for l in text.splitlines() if l.startswith("ASSERT-FAIL ")), "native execution fails")
                    r.confirmed.append(({"kind": "native", "msg": msg, "where": "native replay of a solver model", "inputs": s["inputs"]},
                                        rp, "sanitized exit %d: %s" % (rc, text.strip()[-600:])))
                else:
                    r.mismatch.append((rp, rc, text.strip()[-500:], s["obs"], s["reached"]))
    finally:
        SLOTS.give(1)
    return r


def load_known():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"):
                res.append(json.loads(l))
    return res


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        must(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine"), "B=" + BUILD])
    for d in ("bc", "obj", "ir", "nat", "out", "replay"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)


def prebuild(hs):
    """Compile everything in parallel before the solver runs."""
    jobs = []
    seen = set()
    for h in hs:
        for s in repo_sources():
            for san in (True, False)[:1]:
                k = (s, tuple(h.srcdefs))
                if k not in seen:
                    seen.add(k)
                    jobs.append(lambda s=s, h=h: compile_bc(s, h.srcdefs))
                    jobs.append(lambda s=s, h=h: compile_obj(s, h.srcdefs, NATFLAGS + SAN))
    parallel(jobs)


def check(prop, spec, tier, seed, only=None, verbose=False):
    t0 = time.time()
    build_engine()
    hs = [h for h in spec["harnesses"] if (tier == "thorough" or h.tier == "quick") and (not only or h.name in only)]
    results, errors, noresult = [], [], []
    global DEADLINE
    DEADLINE = t0 + float(os.environ.get("VF_BUDGET", "600")) if tier == "quick" else None
    prebuild(hs)
    with cf.ThreadPoolExecutor(max(1, len(hs))) as ex:
        fs = {ex.submit(run_harness, prop, h, tier, seed): h for h in hs}
        for f in cf.as_completed(fs):
            h = fs[f]
            try:
                r = f.result()
                if r is None:
                    print("  UNDECIDED %s: the engine gave no result in its time" % h.name)
                    noresult.append(h.name)
                    continue
                results.append(r)
                print("  %-26s paths=%d asserts=%d checks=%d queries=%d undecided=%d viol=%d/%d validated=%d %.1fs%s%s" % (
                    h.name, r.d["paths"], r.d["asserts"], r.d["checks"], r.d["queries"], r.d["undecided"], len(r.confirmed),
                    len(r.d["violations"]), r.validated, r.wall, " TIMEOUT" if r.d["timeout"] else "",
                    (" UNSUPPORTED " + "; ".join(r.d["unsupported"])[:600]) if r.d["unsupported"] else ""), flush=True)
            except HarnessError as e:
                if STRICT:
                    errors.append("%s: %s" % (h.name, e))
                print("  UNDECIDED %s: the harness does not build against this tree: %s" % (h.name, str(e)[-600:]))
                noresult.append(h.name)
            except CheckError as e:
                errors.append("%s: %s" % (h.name, e))
    results.sort(key=lambda r: hs.index(r.h))
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    viols, knowns = [], []
    for r in results:
        for v, rp, why in r.confirmed:
            k = [x for x in known if x["harness"] == r.h.name and x["assertion"] == v["msg"]]
            (knowns if k else viols).append((r, v, rp, why))
        for v, rp, why in r.unconfirmed:
            print("  UNCONFIRMED (not reported) %s: %s %s at %s: replay %s -> %s" % (r.h.name, v["kind"], v["msg"], v["where"], rp, why))
        for m in r.mismatch:
            t = "%s: engine and native execution disagree on %s: exit %d %s (engine obs %s reach %s)" % (r.h.name, m[0], m[1], m[2], m[3], m[4])
            if STRICT:
                errors.append(t)
            else:
                print("  UNDECIDED " + t)
                if r.h.name not in noresult:
                    noresult.append(r.h.name)
        if r.d["unsupported"]:
            # paths the encoder could not follow are outside what this run explored
            t = "%s: not encodable: %s" % (r.h.name, "; ".join(r.d["unsupported"]))
            if STRICT:
                errors.append(t)
            else:
                print("  UNDECIDED " + t)
        if not r.confirmed and not r.d["timeout"] and not r.d["unsupported"]:
            for t in r.h.reach:
                if t not in r.d["reached"]:
                    t = "%s: reachability witness %r not reached (vacuous)" % (r.h.name, t)
                    if STRICT:
                        errors.append(t)
                    else:
                        print("  UNDECIDED " + t)
                        if r.h.name not in noresult:
                            noresult.append(r.h.name)
        if r.d["timeout"] or r.d["pending"] or r.d["undecided"]:
            print("  UNDECIDED %s: %d queries undecided, %d paths pending, timeout=%s %s" % (
                r.h.name, r.d["undecided"], r.d["pending"], r.d["timeout"], r.d["undecidedWhere"][:3]))
    seenk = set()
    for r, v, rp, why in knowns:
        if v["msg"] not in seenk:
            seenk.add(v["msg"])
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, r.h.name, v["msg"]))
    shown = {}
    for r, v, rp, why in viols:
        shown[r.h.name] = shown.get(r.h.name, 0) + 1
        if shown[r.h.name] > 3:
            continue
        print("  %s [%s] %s at %s\n    inputs: %s\n    native: %s" % (r.h.name, v["kind"], v["msg"], v["where"], v["inputs"], why))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    wall = time.time() - t0
    cov = {
        "states": sum(r.d["paths"] for r in results),
        "transitions": sum(r.d["steps"] for r in results),
        "traces_validated_against_impl": sum(r.validated for r in results),
        "samples": [{"harness": r.h.name, "inputs": s["inputs"][:40], "observed": s["obs"][:20]} for r in results for s in r.d["samples"][:1]][:12],
        "obligations": sum(r.d["checks"] for r in results),
        "obligations_undecided": sum(r.d["undecided"] for r in results),
        "assertion_queries": sum(r.d["assertQueries"] for r in results),
        "solver_queries": sum(r.d["queries"] for r in results),
        "solver_sat": sum(r.d["sat"] for r in results),
        "solver_unsat": sum(r.d["unsat"] for r in results),
        "solver_unknown": sum(r.d["unknown"] for r in results),
        "solver_seconds": round(sum(r.d["solverSecs"] for r in results), 3),
        "functions_encoded": sorted({f for r in results for f in r.d["functions"] if "4lsst" in f})[:400],
        "harnesses": [{
            "name": r.h.name, "entry": r.h.entry, "bounds": r.h.bounds, "stubs": r.h.stubs,
            "paths": r.d["paths"], "instructions": r.d["steps"], "assertions": r.d["assertIds"],
            "reached": r.d["reached"], "queries": r.d["queries"], "solver_seconds": round(r.d["solverSecs"], 3),
            "undecided": r.d["undecided"], "pending_paths": r.d["pending"], "time_limit_hit": r.d["timeout"],
            "solver_stubs": r.d["stubs"], "validated": r.validated,
            "counterexamples_confirmed": len(r.confirmed), "counterexamples_unconfirmed": len(r.unconfirmed),
            "wall_s": round(r.wall, 2)} for r in results],
        "not_encodable": sorted({u for r in results for u in r.d["unsupported"]}),
        "no_result": noresult,
        "exhaustive": not noresult and all(not (r.d["timeout"] or r.d["pending"] or r.d["undecided"] or r.d["unsupported"]) for r in results),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": len(viols)}
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if viols:
        return 1
    if STRICT and not cov["exhaustive"]:
        errors.append("not exhaustive")
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    print("%s: held on everything explored (%d paths, %d obligations, %d queries, %.1fs)" % (prop, cov["states"], cov["obligations"], cov["solver_queries"], wall))
    return 0
