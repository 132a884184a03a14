#!/usr/bin/env python3
"""Decide one property of portable_concurrency: compile /repo's current tree to LLVM IR, execute the scenarios of the
property symbolically (vpsym) and let the SMT solver decide their assertions for all inputs and interleavings."""
import argparse, concurrent.futures as cf, fcntl, glob, json, os, re, shlex, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = os.environ.get("VP_CLANGXX", "clang++")
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
OPTBIN = "opt-18" if shutil.which("opt-18") else "opt"
FLAGS = ["-DNDEBUG", "-D_GLIBCXX_TSAN=1", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm", "-c",
         "-I" + REPO, "-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(HERE, "harness")]
# weak_ptr::lock stays a call so that the engine can summarise its compare-exchange loop
OPT = ["-passes=forceattrs,default<O1>", "-force-attribute=_ZNSt16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE23_M_add_ref_lock_nothrowEv:noinline"]
T0 = time.time()
COV = os.environ.get("VP_COV")   # a file: which lines of the library the scenarios execute


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR: " + msg); sys.exit(2)


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j8", "-C", os.path.join(HERE, "engine")])
        if r.returncode: die("engine build failed\n" + r.stdout[-3000:])
        r = sh(["bash", os.path.join(HERE, "native", "build.sh"), BUILD])
        if r.returncode: print("NOTE: native replay is not available\n" + r.stdout[-800:])


class Scenario:
    def __init__(s, file, line, name, props, kv):
        s.file, s.name, s.props = file, name, props
        s.tier = kv.get("tier", "quick")
        s.reach = [x for x in kv.get("reach", "").split(",") if x]
        s.opts = shlex.split(kv.get("opts", "")); s.cost = float(kv.get("cost", "1")); s.doc = kv.get("doc", "")


def scenarios():
    """Annotations:  //@ C01,C02 reach=a,b tier=thorough cost=10 opts='--sims 100'   directly above VP_SCENARIO(name)"""
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.cpp"))):
        ann = None
        for i, l in enumerate(open(f), 1):
            m = re.match(r"//@\s+((?:C\d\d,?)+)\s*(.*)$", l)
            if m: ann = (m.group(1).strip(",").split(","), m.group(2)); continue
            m = re.match(r"VP_SCENARIO\((\w+)\)", l)
            if m:
                if not ann: die("scenario without annotation: " + m.group(1))
                kv = dict(x.split("=", 1) for x in shlex.split(ann[1]) if "=" in x)
                out.append(Scenario(f, i, m.group(1), ann[0], kv)); ann = None
    return out


# Properties about a kind of failure rather than an operation also look at the other properties' scenarios, but only
# for that kind: a failed assertion there belongs to the property the scenario was written for.
ALSO = {"C16": ({"memory", "use-after-free", "leak"}, ""), "C02": ({"data-race"}, r"c(0[1-9]|1[016]|2[012])_")}


def only_kinds(prop, s):
    if prop in s.props or prop not in ALSO: return None
    kinds, files = ALSO[prop]
    return kinds if re.search(files, os.path.basename(s.file)) else None


def file_flags(f):
    std, fl = "-std=c++17", []
    for l in open(f):
        m = re.match(r"//@flags\s+(.*)$", l)
        if m: fl += shlex.split(m.group(1))
    if not any(x.startswith("-std") for x in fl): fl.insert(0, std)
    return fl


def compile_all(files, work, pool):
    srcs = sorted(glob.glob(os.path.join(REPO, "portable_concurrency", "**", "*.cpp"), recursive=True))
    jobs = {}

    def cc(src, std, out):
        r = sh([CXX] + std + FLAGS + [src, "-o", out + ".raw"])
        if not r.returncode: r = sh([OPTBIN] + OPT + [out + ".raw", "-o", out])
        return r.returncode, r.stdout
    stds = {f: tuple(file_flags(f)) for f in files}
    for st in sorted(set(stds.values())):
        for i, s in enumerate(srcs):
            o = os.path.join(work, "lib%d_%d.bc" % (sorted(set(stds.values())).index(st), i)); jobs[pool.submit(cc, s, list(st), o)] = (s, o, st)
    for f in files:
        o = os.path.join(work, os.path.basename(f) + ".bc"); jobs[pool.submit(cc, f, list(stds[f]), o)] = (f, o, None)
    libs, mods, broken = {}, {}, []
    for j in cf.as_completed(jobs):
        s, o, st = jobs[j]; rc, out = j.result()
        if rc:
            if s in srcs and st == tuple(["-std=c++17"]) or s in srcs: die("library source does not compile: %s\n%s" % (s, out[-3000:]))
            print("NOTE: harness %s does not compile against this tree\n%s" % (os.path.basename(s), "\n".join(l for l in out.splitlines() if " error: " in l)[:600])); broken.append(s); continue
        if s in srcs: libs.setdefault(st, []).append(o)
        else: mods[s] = o
    # a changed interface may break one scenario of a file: the others are then compiled on their own
    one = {}
    for f in broken:
        t = open(f).read(); parts = re.split(r"^(?=VP_SCENARIO\()", t, flags=re.M); names = [re.match(r"VP_SCENARIO\((\w+)\)", x).group(1) for x in parts[1:]]
        for n in names:
            keep = parts[0]
            for x, m in zip(parts[1:], names):
                e = re.search(r"^}$", x, re.M).end(); keep += x if m == n else x[e:]
            p = os.path.join(work, n + ".one.cpp"); open(p, "w").write(keep); one[pool.submit(cc, p, list(stds[f]), p + ".bc")] = (f, n, p + ".bc")
    for j in cf.as_completed(one):
        f, n, o = one[j]; rc, out = j.result()
        if rc: print("NOTE: scenario %s does not compile against this tree" % n)
        else: mods[(f, n)] = o
    apps = {}
    for f, o in mods.items():
        a = o[:-3] + ".app.bc"; r = sh([LINK] + sorted(libs[stds[f if isinstance(f, str) else f[0]]]) + [o, "-o", a])
        if r.returncode: print("NOTE: link of %s failed\n%s" % (f, r.stdout[-1500:])); continue
        apps[f] = a
    return apps


def app_of(apps, s):
    for k in (s.file, (s.file, s.name)):
        if k in apps: return k, apps[k]
    return None


def run_scenario(sc, app, work, seed, timeout, extra, tries=0):
    out = os.path.join(work, sc.name + ".json")
    cmd = [os.path.join(BUILD, "vpsym"), app, os.path.join(BUILD, "rt_common.bc"), os.path.join(BUILD, "rt_eh.bc"), "--entry", "vp_" + sc.name,
           "--out", out, "--seed", str(seed), "--timeout", str(timeout)] + sc.opts + extra
    if COV: cmd += ["--cov", os.path.join(work, sc.name + ".cov")]
    t = time.time()
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout * 1.25 + 20, pass_fds=TOK, env=dict(os.environ, VP_TOKENS="%d,%d" % TOK))
    except subprocess.TimeoutExpired: return {"status": "inconclusive", "inconclusive": "time limit (killed)", "wall": time.time() - t}
    try: d = json.load(open(out))
    except Exception:
        if tries < 3 and (r.returncode < 0 and "system_error" in r.stdout or r.returncode == 3): time.sleep(1 + tries); return run_scenario(sc, app, work, seed, max(20, timeout - (time.time() - t)), extra, tries + 1)   # (no process, thread or pipe was available)
        return {"status": "error", "error": "vpsym ended with %d: %s" % (r.returncode, r.stdout[-300:]), "wall": time.time() - t}
    if tries < 2 and d["status"] == "error" and "sub-case process ended" in str(d.get("error", "")): return run_scenario(sc, app, work, seed, max(20, timeout - (time.time() - t)), extra, tries + 1)
    if d["status"] == "ok":
        miss = [l for l in sc.reach if l not in d["reached"]]
        if miss: d["status"] = "vacuous"; d["error"] = "labels not reached: " + ",".join(miss)
    return d


def native_build(app, work):
    """The IR which vpsym executed, compiled to machine code with replay points and AddressSanitizer."""
    b = app[:-3]
    for c in ([os.path.join(BUILD, "vpinst"), app, os.path.join(BUILD, "rt_common.bc"), b + ".n.bc"], [OPTBIN, "-passes=asan", "-asan-use-after-scope", b + ".n.bc", "-o", b + ".a.bc"],
              [CXX, "-O0", "-w", "-c", b + ".a.bc", "-o", b + ".o"], [CXX, "-fsanitize=address", b + ".o", os.path.join(BUILD, "rt_native.o"), "-o", b + ".exe", "-lpthread"]):
        r = sh(c)
        if r.returncode: print("NOTE: native replay of %s is not available: %s" % (os.path.basename(app), r.stdout[-300:])); return None
    return b + ".exe"


def native_run(exe, sc, lines, work, n, race):
    """Repeat one execution (inputs, thread creation, schedule, wake-ups) natively: -> (outcome, reached labels)"""
    p = os.path.join(work, "%s.%d.tr" % (sc.name, n)); open(p, "w").write("\n".join(["E vp_" + sc.name] + (["R"] if race else []) + (["N"] if "--tmo 0" in " ".join(sc.opts) else []) + lines) + "\n")
    try: r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=40, errors="replace")
    except subprocess.TimeoutExpired: return "diverged: time limit", []
    m = re.search(r"^RESULT (.*)$", r.stdout, re.M)
    if r.returncode == 88: m2 = re.search(r"AddressSanitizer: (.*)", r.stderr); return "memory: " + (m2.group(1)[:160] if m2 else "AddressSanitizer"), []
    if m: return m.group(1), sorted(l[6:] for l in r.stdout.splitlines() if l.startswith("REACH "))
    return ("crash: signal %d" % -r.returncode if r.returncode < 0 and r.returncode != -14 else "diverged: exit %d" % r.returncode), []


def native(scs, res, apps, work, pool, tier, again=None):
    if not os.path.exists(os.path.join(BUILD, "vpinst")): return
    files = sorted({app_of(apps, s)[0] for s in scs if app_of(apps, s) and (res[s.name].get("traces") or res[s.name].get("cex"))}, key=str)
    exes = dict(zip(files, pool.map(lambda f: native_build(apps[f], work), files)))

    def job(s):
        d = res[s.name]; exe = exes.get((app_of(apps, s) or [None])[0])
        if not exe: return
        if d["status"] == "violation":
            for k in range(3):   # a counterexample which the machine code does not show is not believed
                c = d["cex"][0]; o, _ = native_run(exe, s, c.get("replay", []), work, 0, c["kind"] in ("data-race", "use-after-free"))
                if o != "ok" or not again or k == 2: break
                print("NOTE: %s: the counterexample (%s: %s) is not confirmed natively, trying another one" % (s.name, c["kind"], c["msg"])); d2 = again(s, k + 1)
                if d2.get("status") != "violation": break
                d = res[s.name] = d2
            if o == "ok": d["status"] = "unconfirmed"; d["error"] = "counterexample (%s: %s) not confirmed by the native execution" % (c["kind"], c["msg"])
            c["native"] = o; c["native_reproduced"] = not (o == "ok" or o.startswith("diverged")); print("REPLAY %s: native execution of the counterexample: %s" % (s.name, o)); return
        t = d.get("traces", []); k = 6 if tier == "quick" else 60; t = t if len(t) <= k else [t[i * len(t) // k] for i in range(k)]; good, bad = 0, []
        for i, x in enumerate(t):
            o, lab = native_run(exe, s, x["lines"], work, i, True)
            if o == "ok" and lab == sorted(x["reach"]): good += 1
            else: bad.append(o if o != "ok" else "labels %s instead of %s" % (lab, sorted(x["reach"])))
        d["native_traces"] = good; d["native_mismatch"] = bad[:3]
        if bad: print("NOTE: %s: %d of %d executions were not repeated natively: %s" % (s.name, len(bad), len(t), bad[0]))
    list(pool.map(job, [s for s in scs if res[s.name].get("traces") or res[s.name].get("cex")]))


def coverage(work):
    hit, all_ = set(), set()
    for f in glob.glob(os.path.join(work, "*.cov")):
        for l in open(f):
            k, x = l.strip().split(" ", 1); (hit if k == "H" else all_).add(x)
    files = {}
    for x in all_ | hit:
        f, n = x.rsplit(":", 1)
        if "portable_concurrency/bits" in f and n != "0": files.setdefault(os.path.basename(f), {})[int(n)] = x in hit
    with open(COV, "w") as o:
        for f in sorted(files):
            m = sorted(n for n, h in files[f].items() if not h); o.write("%-28s %3d of %3d lines executed, not: %s\n" % (f, len(files[f]) - len(m), len(files[f]), m))


def known_findings():
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known:\s+property=(\S+)\s+scenario=(\S+)\s+kind=(\S+)\s+match=(.*?)\s+::\s+(.*)$", l.strip())
            if m: out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("-j", type=int, default=os.cpu_count() or 4)
    ap.add_argument("-v", action="store_true"); ap.add_argument("--budget", type=float, default=0); ap.add_argument("--all-props", action="store_true"); ap.add_argument("--first", action="store_true", help="cheap scenarios first, start nothing after the first violation (for mutation runs)")
    a = ap.parse_args(); seed = int(os.environ.get("VERIF_SEED", "1")); tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    budget = a.budget or (600 if tier == "quick" else 6 * 3600)
    build_tools()
    if a.setup: return 0
    if not a.prop: die("which property?")
    scs = [s for s in scenarios() if (a.prop in s.props or a.all_props or only_kinds(a.prop, s)) and (tier == "thorough" or s.tier == "quick") and (not a.only or re.search(a.only, s.name))]
    if not scs: die("no scenarios for " + a.prop)
    global TOK
    TOK = os.pipe(); os.write(TOK[1], b"t" * a.j)   # job tokens shared by all vpsym processes
    work = tempfile.mkdtemp(prefix="work-%s-" % a.prop, dir=BUILD)
    try:
        res = {}
        with cf.ThreadPoolExecutor(a.j) as pool:
            apps = compile_all(sorted({s.file for s in scs}), work, pool)
            left = budget - (time.time() - T0); per = max(60, left if tier == "quick" else left)
            fut = {}
            for s in sorted(scs, key=lambda s: s.cost if a.first else -s.cost):
                if not app_of(apps, s): res[s.name] = {"status": "error", "error": "harness does not compile", "wall": 0}; continue

                def job(s=s):
                    rem = budget - (time.time() - T0)
                    if a.first and any(d["status"] == "violation" for d in list(res.values())): rem = 0
                    if rem < 5: return {"status": "inconclusive", "inconclusive": "no time left", "wall": 0}
                    return run_scenario(s, app_of(apps, s)[1], work, seed, rem, ["--tier", tier])
                fut[pool.submit(job)] = s
            for j in cf.as_completed(fut):
                s = fut[j]; d = j.result(); res[s.name] = d
                print("%-28s %-12s %6.1fs %s" % (s.name, d["status"], d.get("wall", 0), d.get("error") or d.get("inconclusive") or (d["cex"][0]["kind"] + ": " + d["cex"][0]["msg"] if d.get("cex") else "")), flush=True)
            native(scs, res, apps, work, pool, tier, lambda s, k: run_scenario(s, app_of(apps, s)[1], work, seed + k, max(20, budget + 60 - (time.time() - T0)), ["--tier", tier]))
        if COV: coverage(work)
        return conclude(a.prop, tier, seed, scs, res, work, apps)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def conclude(prop, tier, seed, scs, res, work, apps):
    known = [k for k in known_findings() if k[0] == prop]
    viol, kn, undec, ok = [], [], [], []
    for s in scs:
        d = res[s.name]
        if d["status"] == "violation":
            c = d["cex"][0]; ks = only_kinds(prop, s)
            if ks and c["kind"] not in ks: d["error"] = "fails for another property (%s)" % c["kind"]; d["status"] = "elsewhere"; undec.append((s, d)); continue
            hit = [k for k in known if k[1] == s.name and k[2] == c["kind"] and re.search(k[3], c["msg"] + " " + c["where"])]
            (kn if hit else viol).append((s, d, hit))
        elif d["status"] == "ok": ok.append((s, d))
        else: undec.append((s, d))
    tot = lambda k: sum(int(res[s.name].get(k, 0) or 0) for s in scs)
    fns = sorted({f for s in scs for f in res[s.name].get("functions", [])})
    sample = []
    for s, d in (ok + [(x[0], x[1]) for x in viol])[:3]:
        sample.append({"scenario": s.name, "threads": d.get("threads"), "paths": d.get("paths"), "reached": d.get("reached"), "events": d.get("events"), "queries": d.get("queries"), "solver_s": d.get("solver_s")})
    rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True); lines = []
    for s, d, _ in viol:
        p = os.path.join(rdir, "%s-%s.json" % (prop, s.name))
        json.dump({"property": prop, "scenario": s.name, "source": os.path.relpath(s.file, HERE), "counterexample": d["cex"][0], "replay": "python3 %s/check.py %s --only '^%s$'" % (HERE, prop, s.name)}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": len(viol),
          "coverage": {
              "states": tot("nodes") + tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": tot("native_traces"),
              "samples": sample, "exhaustive": False,
              "rule": "states: nodes of the symbolic thread graphs plus sequential symbolic paths; transitions: IR instructions executed symbolically",
              "scenarios": [{"name": s.name, "status": res[s.name]["status"], "note": res[s.name].get("error") or res[s.name].get("inconclusive") or "", **{k: res[s.name].get(k) for k in ("threads", "paths", "conc", "nodes", "events", "segments", "rf", "clauses", "race_pairs", "rounds", "sims", "cuts", "queries", "solver_s", "wall")}} for s in scs],
              "decided": len(ok) + len(viol) + len(kn), "undecided": [s.name for s, _ in undec], "native_mismatches": {s.name: res[s.name]["native_mismatch"] for s in scs if res[s.name].get("native_mismatch")}, "queries": tot("queries"), "solver_s": round(sum(float(res[s.name].get("solver_s", 0) or 0) for s in scs), 2),
              "cuts": tot("cuts"), "functions_encoded": len(fns), "functions": fns[:400]},
          "assumptions": ["interleaving semantics for atomics (C++ happens-before is checked for every pair of conflicting accesses); compare_exchange_weak does not fail spuriously; addresses are not reused",
                          "bounds: one spurious wake-up and two time-outs per thread, threads and operations as written in the scenario",
                          "clang 18 IR (x86-64, -O1, NDEBUG, libstdc++ 13) stands for the source; the runtime model in rt/ stands for libstdc++'s compiled part and pthreads"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for s, d, h in kn: print("KNOWN-FINDING: property=%s %s" % (prop, h[0][4]))
    for l in lines: print(l)
    print("%s %s: %d scenarios, %d hold, %d violated, %d known, %d undecided, %.1f s" % (prop, tier, len(scs), len(ok), len(viol), len(kn), len(undec), time.time() - T0))
    if viol: return 1
    if not ok and not kn: return 2
    return 0


if __name__ == "__main__": sys.exit(main())
