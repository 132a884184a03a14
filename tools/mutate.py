#!/usr/bin/env python3
"""Apply planted changes to a scratch copy of /repo, run the repository's tests and the checks on each."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
W = "/tmp/mut/repo"; OUT = "/tmp/mut/results.json"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset(): sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % W)
def main():
    import fcntl; lk = open('/tmp/mut/lock', 'w'); fcntl.flock(lk, fcntl.LOCK_EX)
    args = sys.argv[1:]; notest = "--no-test" in args; allp = "--all" in args; args = [a for a in args if not a.startswith("--")]
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    for id, (prop, file, subs) in M.items():
        if args and not any(re.search(a, id) for a in args): continue
        if not args and id in res: continue
        reset(); f = os.path.join(W, "portable_concurrency/bits", file); s = open(f).read(); bad = None
        for a, b in subs:
            if a not in s: bad = "text not found"
            s = s.replace(a, b, 1)
        if bad: print(id, bad); continue
        open(f, "w").write(s); r = {"prop": prop}
        if not notest:
            b = sh("cd %s && CCACHE_DISABLE=1 ninja -C _build pc_unit_tests" % W)
            if b.returncode: r["tests"] = "does not build"; print(id, prop, "does not build", b.stdout[-600:]); res[id] = r; json.dump(res, open(OUT, "w"), indent=1); continue
            sh("rm -rf /tmp/mut/rep; mkdir -p /tmp/mut/rep"); t = sh("timeout -k 1 150 python3 /opt/vp/run_gtest.py %s/_build/test/pc_unit_tests /tmp/mut/rep; python3 /opt/vp/results.py /tmp/mut/t.json 'junit:/tmp/mut/rep/*.xml' lines:/tmp/mut/rep/crashed.txt" % W)
            d = json.load(open("/tmp/mut/t.json")); base = json.load(open("/opt/vp/BASELINE.json")); r["tests"] = "pass" if not d["failed"] and len(d["passed"]) >= 740 else "FAIL %d: %s" % (len(d["failed"]), d["failed"][:2])
        else: r["tests"] = res.get(id, {}).get("tests")
        if r["tests"] and r["tests"].startswith("FAIL"): print("%-30s %s tests=%s" % (id, prop, r["tests"]), flush=True); res[id] = r; json.dump(res, open(OUT, "w"), indent=1); continue
        t0 = time.time(); c = sh("VP_REPO=%s timeout 900 python3 /tmp/mut/verif/check.py %s" % (W, prop)); r["exit"] = c.returncode; r["secs"] = round(time.time() - t0)
        r["hits"] = [l.split()[0] + " " + " ".join(l.split()[2:])[:100] for l in c.stdout.splitlines() if re.match(r"\w+\s+(violation|error|inconclusive|vacuous)", l)]
        r["replay"] = [l[7:160] for l in c.stdout.splitlines() if l.startswith("REPLAY")]
        if c.returncode == 2: r["hits"].append(c.stdout[-400:])
        res[id] = r; json.dump(res, open(OUT, "w"), indent=1)
        print("%-30s %s tests=%s exit=%d %ds %s" % (id, prop, r["tests"], c.returncode, r["secs"], "; ".join(r["hits"])[:300]), *["\n      " + x for x in r["replay"]], flush=True)
    reset()
main()
