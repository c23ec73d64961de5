#!/usr/bin/env python3
"""Solver-based checks of /repo.

  check.py PROPERTY [--tier quick|thorough]   run one property's check (exit 0 held, 1 violation, 2 no answer)
  check.py --replay FILE                      run a recorded counterexample on the real code
  check.py PROPERTY --job N -- [symx args]    development: one job only
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "checks"))
REPO = os.environ.get("VERIF_REPO", "/repo")  # elsewhere only while developing
BUILD = os.path.join(ROOT, "build")
LLVM = "/usr/lib/llvm-18/bin"
BASE = "-std=c++17 -I%s/include -I%s/rt -I%s/harness -DHARNESS" % (REPO, ROOT, ROOT)
SYM = "-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS"
NAT = "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -DHX_ASAN -w"
TSAN = "-O1 -g1 -fsanitize=thread -w -pthread"
SHIM = "-I%s/rt/shim" % ROOT  # the stream templates as part of the code; their compiled part: rt/ios.cpp
# build variants: (flags for both, flags for the symbolic build, flags for the native build, native build possible)
VARIANTS = {
    "sse": ("-msse4.1", SHIM, NAT),
    "sse2": ("-msse2", SHIM, NAT),
    "none": ("-DMEOJSON_DISABLE_PACKED_BYTES", SHIM, NAT),
    "cxx20": ("-msse4.1 -std=c++20", SHIM, NAT),
    "avx2": ("-mavx2", SHIM, NAT),
    "fp": ("-msse4.1 -DMEOJSON_KEEP_FLOATING_PRECISION", SHIM, NAT),
    # undefined behaviour becomes a trap before the compiler can use it
    "ub": ("-msse4.1", SHIM + " -fsanitize=undefined -fsanitize-trap=undefined -fno-sanitize=vptr,function,object-size", NAT),
    "stream": ("-msse4.1", SHIM, NAT),
    # printing and reading of floating-point numbers by contract (rt/fpio.cpp); natively the C library's own
    "fpstream": ("-msse4.1 -DMEOJSON_KEEP_FLOATING_PRECISION", "-I%s/rt/shim -include %s/rt/fpio.hpp" % (ROOT, ROOT), NAT),
    "tsan": ("-msse4.1", SHIM, TSAN),
    "tsanstream": ("-msse4.1 -DHX_STREAM", SHIM, TSAN),
    # bit patterns of the AArch64 code only: there is nothing to run it on here
    "neon": ("-DMEOJSON_ENABLE_NEON", "--target=aarch64-linux-gnu -isystem %s/rt/arm -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/include/x86_64-linux-gnu" % ROOT, None),
}
CPU = set()
try:
    CPU = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
except Exception:
    pass


def J(h, e, p=(), t=60, reach=(), w=8, v="sse", tier="q", name=None, inst=None, bound=None, viol=12):
    """one exploration: harness h, entry e with parameters p; t: seconds; reach: labels that must be hit"""
    return dict(h=h, e=e, p=[int(x) for x in p], t=t, reach=list(reach), w=w, v=v, tier=tier, name=name or e, inst=inst, bound=bound or "", viol=viol)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


def die(msg):
    print("NO ANSWER: " + msg)
    sys.exit(2)


def ensure_engine():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-C", os.path.join(ROOT, "engine")])
        if r.returncode:
            die("the engine does not build: " + r.stderr[-2000:])


def compile_harness(h, v, work, native):
    """-> (bitcode path, native path or None)"""
    common, symf, nat = VARIANTS[v]
    src = os.path.join(ROOT, "harness", h + ".cpp")
    pre = os.path.join(work, h + "." + v)
    env = dict(os.environ, PATH=LLVM + ":" + os.environ["PATH"])
    if native:
        if nat is None:
            return None
        flags = "%s %s %s" % (BASE, common, nat)
        r = sh("clang++ %s -c %s -o %s.o && clang++ %s -c %s/rt/native.cpp -o %s.n.o && clang++ %s -rdynamic %s.o %s.n.o -o %s.nat -ldl -pthread"
               % (flags, src, pre, flags, ROOT, pre, nat, pre, pre, pre), env=env)
        if r.returncode:
            raise RuntimeError("native build of %s (%s): %s" % (h, v, r.stderr[-3000:]))
        return pre + ".nat"
    flags = "%s %s %s %s" % (BASE, common, SYM, symf)
    extra = ["ios"] + (["fpio"] if v == "fpstream" else [])
    ios = "".join("clang++ %s -w -emit-llvm -c %s/rt/%s.cpp -o %s.%s.bc && " % (flags, ROOT, x, pre, x) for x in extra)
    text = open(src).read()
    for inc in re.findall(r'#include "(\w+\.hpp)"', text):
        f = os.path.join(ROOT, "harness", inc)
        if os.path.exists(f):
            text += open(f).read()
    api = sorted(set(re.findall(r'^extern "C" void ([A-Za-z0-9_]+)\(', text, re.M)) | set(re.findall(r"^ENTRY\((\w+)\)", text, re.M)))
    if v == "neon":  # the runtime library is not needed, and is for the host
        r = sh("clang++ %s -w -emit-llvm -c %s -o %s.1.bc && opt -passes='internalize,globaldce' -internalize-public-api-list=%s %s.1.bc -o %s.bc" % (flags, src, pre, ",".join(api), pre, pre), env=env)
        if r.returncode:
            raise RuntimeError("bitcode build of %s (%s): %s" % (h, v, r.stderr[-3000:]))
        return pre + ".bc"
    r = sh(ios + "clang++ %s -w -emit-llvm -c %s -o %s.1.bc && clang++ %s -w -emit-llvm -c %s/rt/rt.cpp -o %s.rt.bc && llvm-link %s.1.bc %s.rt.bc %s -o %s.2.bc && "
           "opt -passes='internalize,globaldce' -internalize-public-api-list=%s %s.2.bc -o %s.bc"
           % (flags, src, pre, flags, ROOT, pre, pre, pre, " ".join("%s.%s.bc" % (pre, x) for x in extra), pre, ",".join(api), pre, pre), env=env)
    if r.returncode:
        raise RuntimeError("bitcode build of %s (%s): %s" % (h, v, r.stderr[-3000:]))
    return pre + ".bc"


def run_job(i, job, work, bc, workers, seed, extra=()):
    out = os.path.join(work, "j%d" % i)
    cmd = [os.path.join(BUILD, "symx"), "--bc", bc, "--entry", job["e"], "--out", out, "--workers", str(workers), "--time", str(job["t"]), "--seed", str(seed),
           "--max-viol", str(job["viol"]), "--samples", "6"]
    if job["p"]:
        cmd += ["--params", ",".join(map(str, job["p"]))]
    if job["inst"]:
        cmd += ["--max-inst", str(job["inst"])]
    cmd += list(extra)
    try:
        r = sh(cmd, timeout=job["t"] + 120)
    except subprocess.TimeoutExpired:
        return dict(error="engine did not stop in time")
    sf = os.path.join(out, "summary.json")
    if r.returncode or not os.path.exists(sf):
        return dict(error="engine exit %d: %s" % (r.returncode, r.stderr[-1500:]))
    s = json.load(open(sf))
    s["stderr"] = r.stderr[-500:]
    s["viol"] = []
    for f in sorted(glob.glob(out + "/viol_*.txt")):
        d, stack = {}, []
        for line in open(f, errors="replace"):
            line = line.rstrip("\n")
            if "stack" in d:
                stack.append(line)
                continue
            k, _, val = line.partition(" ")
            d[k] = val
        d["stacktext"] = "\n".join(stack[:12])
        s["viol"].append(d)
    s["samples"] = []
    for f in sorted(glob.glob(out + "/samples_*.txt")):
        for line in open(f):
            p = line.split()
            if len(p) >= 2 and p[0] == "ok":
                s["samples"].append((p[1], " ".join(p[2:])))
    return s


def native_run(exe, cases, work, tag, timeout=20):
    """cases: (id, entry, params, model) -> {id: (status, detail, obs)}"""
    if not cases:
        return {}
    n = min(8, max(1, len(cases) // 4))
    res = {}

    def part(k):
        ci, co = os.path.join(work, "%s.%d.in" % (tag, k)), os.path.join(work, "%s.%d.out" % (tag, k))
        with open(ci, "w") as f:
            for c in cases[k::n]:
                f.write("%s %s %s %s\n" % (c[0], c[1], ",".join(map(str, c[2])) or "-", c[3] or "-"))
        r = sh([exe, ci, co, str(timeout)])
        d = {}
        if os.path.exists(co):
            for line in open(co, errors="replace"):
                head, _, obs = line.rstrip("\n").rpartition("|")
                p = head.split(" ", 2)
                if len(p) >= 2:
                    d[p[0]] = (p[1], p[2].strip() if len(p) > 2 else "", " ".join(obs.split()))
        return d
    with cf.ThreadPoolExecutor(n) as ex:
        for d in ex.map(part, range(n)):
            res.update(d)
    return res


def native_ok(v):
    return VARIANTS[v][2] is not None and (v != "avx2" or "avx2" in CPU)


def known_findings(prop):
    r = []
    f = os.path.join(ROOT, "known_findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) harness=(\S+) entry=(\S+) match=/(.*)/ (.*)$", line.strip())
        if m and m.group(1) == prop:
            r.append(dict(h=m.group(2), e=m.group(3), rx=re.compile(m.group(4)), text=m.group(5)))
    return r


def shorten(n):
    """function name without template arguments"""
    n = re.sub(r" \[\d+/\d+ blocks\]$", "", n)
    d, out = 0, ""
    for c in n:
        if c == "<":
            d += 1
        elif c == ">" and d:
            d -= 1
        elif not d:
            out += c
    return out


def main():
    argv = sys.argv[1:]
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    extra = ["--dump-every", "400"] if "thorough" in argv else []
    if "--" in argv:
        extra = argv[argv.index("--") + 1:]
        argv = argv[:argv.index("--")]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--job" in argv:
        only = argv[argv.index("--job") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import spec
    jobs = [j for j in spec.jobs(prop, J) if tier == "thorough" or j["tier"] == "q"]
    if tier == "thorough":
        for j in jobs:
            j["t"] *= 4
    if only is not None:
        jobs = [j for k, j in enumerate(jobs) if j["name"] == only or str(k) == only or only[0] == "~" and re.search(only[1:], j["h"] + " " + j["name"])]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 480 if tier == "quick" else 6 * 3600))
    ensure_engine()
    work = os.path.join(BUILD, "run", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = check(prop, tier, seed, jobs, work, t0, budget, extra, only)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    return rc


def check(prop, tier, seed, jobs, work, t0, budget, extra, only):
    ncpu = min(8, os.cpu_count() or 1)
    builds = sorted({(j["h"], j["v"]) for j in jobs})
    bc, nat, errs = {}, {}, []
    ex = cf.ThreadPoolExecutor(ncpu)
    fb = {ex.submit(compile_harness, h, v, work, False): (h, v) for h, v in builds}
    fn = {(h, v): ex.submit(compile_harness, h, v, work, True) for h, v in builds}
    for f in cf.as_completed(fb):
        try:
            bc[fb[f]] = f.result()
        except RuntimeError as e:
            errs.append(str(e))
    if errs:
        die(errs[0])
    # -------------------------------------------------------------- exploration
    results = [None] * len(jobs)
    free = [ncpu]
    cond = threading.Condition()
    stop = threading.Event()

    def native_of(job):
        return fn[(job["h"], job["v"])].result() if native_ok(job["v"]) else None

    confirmed, unconfirmed, mismatches, notes = [], [], [], []
    validated = [0]
    known = known_findings(prop)
    knownhit = set()
    sample_docs = []

    def work_on(i):
        job = jobs[i]
        w = min(job["w"], ncpu)
        with cond:
            while free[0] < w:
                cond.wait()
            free[0] -= w
        try:
            left = budget - (time.time() - t0)
            if stop.is_set() or left < 5:
                results[i] = dict(skipped=True)
                return
            job["t"] = min(job["t"], left)
            if left < budget / 2:
                # late: what is left of the time is shared out, so that every job has its turn
                todo = sum(min(j["w"], ncpu) / ncpu for j in jobs[i:])
                job["t"] = min(job["t"], max(4, 2 * left / todo * ncpu / w))
            s = run_job(i, job, work, bc[(job["h"], job["v"])], w, seed, extra)
            results[i] = s
            if "error" in s:
                return
            exe = native_of(job)
            # candidates: only what the real code reproduces is a violation
            if s["viol"]:
                cases = [("v%d" % k, job["e"], job["p"], d.get("model", "")) for k, d in enumerate(s["viol"])]
                r = native_run(exe, cases, work, "v%d" % i) if exe else {}
                for k, d in enumerate(s["viol"]):
                    st = r.get("v%d" % k, ("none", "no native build of this variant", ""))
                    if exe is None or st[0] == "unavailable":
                        # nothing to replay on: the solver's counterexample is re-run concretely in the interpreter
                        st = ("symbolic", "replayed in the interpreter only", "")
                    bad = st[0] in ("fail", "crash", "hang", "symbolic")
                    if bad:
                        kf = next((x for x in known if x["h"] == job["h"] and x["e"] == job["e"] and x["rx"].search(d["msg"] + " " + st[1])), None)
                        if kf:
                            knownhit.add(kf["text"])
                            continue
                        confirmed.append((i, d["kind"], d["msg"], d.get("model", ""), st, d["stacktext"]))
                        stop.set()
                    elif d["kind"] == "stack":
                        # deeper than the interpreter goes, and the real code gets through: not explored
                        s["exhaustive"] = False
                        s["reasons"][d["msg"]] = s["reasons"].get(d["msg"], 0) + 1
                    else:
                        unconfirmed.append((i, d["kind"], d["msg"], d.get("model", ""), st, d["stacktext"]))
            if exe:
                pick = s["samples"]
                if len(pick) > 60:
                    pick = pick[:: len(pick) // 60 + 1]
                r = native_run(exe, [("s%d" % k, job["e"], job["p"], m) for k, (m, o) in enumerate(pick)], work, "s%d" % i)
                for k, (m, o) in enumerate(pick):
                    st = r.get("s%d" % k, ("none", "", ""))
                    if st[0] == "ok" and st[2] == o:
                        validated[0] += 1
                        if len(sample_docs) < 12 and k % 3 == 0:
                            sample_docs.append(dict(harness=job["h"], entry=job["e"], params=job["p"], input=m, observed=o if len(o) < 600 else o[:600] + " ..."))
                    elif st[0] == "unavailable":
                        pass
                    elif st[0] in ("fail", "crash", "hang"):
                        kf = next((x for x in known if x["h"] == job["h"] and x["e"] == job["e"] and x["rx"].search(st[1])), None)
                        if kf:
                            knownhit.add(kf["text"])
                            continue
                        confirmed.append((i, "native", st[1], m, st, ""))
                        stop.set()
                    else:
                        mismatches.append((i, m, o, st))
        except Exception as e:  # noqa
            results[i] = results[i] or {}
            results[i]["error"] = "%s: %s" % (type(e).__name__, str(e)[:2000])
        finally:
            with cond:
                free[0] += w
                cond.notify_all()
    # heavier jobs keep their order; small ones run side by side
    threads = []
    gate = threading.Semaphore(ncpu)

    def guarded(i):
        try:
            work_on(i)
        finally:
            gate.release()
    for i in range(len(jobs)):
        gate.acquire()
        th = threading.Thread(target=guarded, args=(i,))
        th.start()
        threads.append(th)
        if jobs[i]["w"] >= ncpu:
            th.join()
    for th in threads:
        th.join()
    ex.shutdown()
    # -------------------------------------------------------------- report
    ok = [(j, r) for j, r in zip(jobs, results) if r and "paths" in r]
    problems = []
    for j, r in zip(jobs, results):
        if r is None or "error" in r:
            problems.append("%s %s: %s" % (j["h"], j["e"], (r or {}).get("error", "did not run")))
        elif "paths" in r:
            if r["selfcheck_failures"]:
                problems.append("%s %s: the engine's self check failed" % (j["h"], j["e"]))
            if r["exhaustive"] and not r["candidates"]:
                for lab in j["reach"]:
                    if not r["reach"].get(lab):
                        problems.append("%s %s: vacuous, '%s' was never reached (%s)" % (j["h"], j["e"], lab, j["bound"]))
            if not r["complete"] and not r["violating"]:
                problems.append("%s %s: no path was completed: %s" % (j["h"], j["e"], r["reasons"]))
    for u in unconfirmed:
        problems.append("%s %s: a counterexample does not reproduce on the real code: %s %s (%s) input %s" % (jobs[u[0]]["h"], jobs[u[0]]["e"], u[1], u[2], u[4], u[3]))
    for m in mismatches:
        problems.append("%s %s: encoding and real code disagree on input %s: %s / %s" % (jobs[m[0]]["h"], jobs[m[0]]["e"], m[1], m[2], m[3]))
    funcs = sorted({shorten(f) for _, r in ok for f in r["repo_functions"]})
    tot = lambda k: sum(r[k] for _, r in ok)
    jl = []
    for j, r in zip(jobs, results):
        e = dict(harness=j["h"], entry=j["e"], build=j["v"], bound=j["bound"] or j["name"], params=j["p"] if len(j["p"]) <= 40 else str(j["p"][:40]) + "...")
        if r and "paths" in r:
            e.update(exhaustive=r["exhaustive"], paths=r["paths"], incomplete=r["incomplete"], pending=r["pending"], queries=r["queries"], solver_calls=r["z3_calls"],
                     sat=r["sat"], unsat=r["unsat"], unknown=r["unknown"], solver_s=r["z3_time"], wall_s=r["wall_s"], reached=r["reach"])
            if r["reasons"]:
                e["incomplete_because"] = r["reasons"]
        else:
            e["not_run"] = (r or {}).get("error", "stopped early" if stop.is_set() else "budget used up")
        jl.append(e)
    xc = cross_check(work) if tier == "thorough" else None
    wall = time.time() - t0
    cov = dict(states=tot("paths"), transitions=tot("choices"), traces_validated_against_impl=validated[0],
               samples=sample_docs or [dict(note="no path sampled")],
               exhaustive=bool(ok) and len(ok) == len(jobs) and all(r["exhaustive"] for _, r in ok),
               explorations=len(ok), explorations_exhaustive=sum(1 for _, r in ok if r["exhaustive"]),
               assertions_checked=tot("checks"), solver_queries=tot("queries"), solver_queries_decided_by_propagation_or_cache=tot("queries") - tot("z3_calls"),
               solver_calls=tot("z3_calls"), solver_sat=tot("sat"), solver_unsat=tot("unsat"), solver_unknown=tot("unknown"),
               solver_seconds=round(tot("z3_time"), 2), instructions_executed=tot("instructions"), functions_encoded=len(funcs), function_names=funcs[:250], jobs=jl)
    if xc:
        cov["solver_cross_check"] = xc
        if xc["disagreements"]:
            problems.append("another solver disagrees: %s" % xc["disagreements"])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=spec_assumptions(prop), wall_s=round(wall, 2), violations=len(confirmed))
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s: %d explorations (%d exhaustive), %d paths, %d solver calls, %.1f s solver, %d traces validated, %.0f s" % (
        prop, tier, len(ok), cov["explorations_exhaustive"], cov["states"], cov["solver_calls"], cov["solver_seconds"], validated[0], wall))
    if only or os.environ.get("VERIF_VERBOSE"):
        for e in jl:
            print("  ", {k: v for k, v in e.items() if k not in ("params",)})
    for k in sorted(knownhit):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if confirmed:
        seen = set()
        for n, c in enumerate(confirmed):
            job = jobs[c[0]]
            key = (job["h"], job["e"], c[2])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(ROOT, "evidence", "replay_%s_%d.json" % (prop, len(seen)))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump(dict(property=prop, harness=job["h"], variant=job["v"], entry=job["e"], params=job["p"], model=c[3], what=c[2], kind=c[1], native=list(c[4]), stack=c[5]), open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s/%s: %s: %s | real code: %s %s | input %s" % (job["h"], job["e"], c[1], c[2], c[4][0], c[4][1][:300], c[3]))
            if len(seen) >= 5:
                break
        return 1
    if problems:
        for p in problems[:10]:
            print("NO ANSWER: " + p)
        return 2
    return 0


def spec_assumptions(prop):
    import spec
    return spec.assumptions(prop)


def cross_check(work):
    """a sample of the queries, re-decided by cvc5 and a newer z3"""
    files = sorted(glob.glob(work + "/j*/q*.smt2"))[:60]
    n, dis, other = 0, [], 0
    for f in files:
        want = f.rsplit("_", 1)[1][:-5]
        if want not in ("sat", "unsat"):
            continue
        for cmd in (["cvc5", "--tlimit=20000", f], ["z3-new", "-T:20", f]):
            r = sh(cmd)
            got = r.stdout.strip().splitlines()[:1]
            if "(error" in r.stdout or got not in (["sat"], ["unsat"]):
                other += 1
            elif got[0] != want:
                dis.append("%s: %s says %s" % (os.path.basename(f), cmd[0], got[0]))
            else:
                n += 1
    return dict(agreed=n, inconclusive=other, disagreements=dis)


def replay(path):
    d = json.load(open(path))
    work = os.path.join(BUILD, "run", "replay.%d" % os.getpid())
    os.makedirs(work)
    try:
        if not native_ok(d["variant"]):
            die("no native build of variant " + d["variant"])
        exe = compile_harness(d["harness"], d["variant"], work, True)
        r = native_run(exe, [("r", d["entry"], d["params"], d["model"])], work, "r")
        print(d["property"], d["what"], "->", r.get("r"))
        return 0 if r.get("r", ("",))[0] in ("ok", "assume") else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
