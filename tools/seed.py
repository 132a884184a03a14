#!/usr/bin/env python3
"""Write /verif/seeded/<id>/{patch.diff,meta.json,demo.sh} from tools/mutants.py and tools/seeds/<id>.cpp and confirm the
demonstration: exit 0 on the unchanged tree, non-zero with the patch.  Usage: seed.py [id-regex...]"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
W = "/tmp/seedrepo"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = r'''#!/bin/bash
# Run with the repository root as the current directory. Exit 0: the property holds; non-zero: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%s -g %s -I. "$D/demo.cpp" portable_concurrency/bits/portable_concurrency.cpp -o "$T/demo" -lpthread || exit 3
%s timeout -k 1 %d "$T/demo" > "$T/out" 2>&1
rc=$?
head -c 3000 "$T/out"
exit $rc
'''
def main():
    if not os.path.isdir(W): sh("git clone -q /repo " + W)
    sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % W)
    for f in sorted(os.listdir(os.path.join(V, "tools/seeds"))):
        id = f[:-4]
        if len(sys.argv) > 1 and not any(re.search(a, id) for a in sys.argv[1:]): continue
        src = open(os.path.join(V, "tools/seeds", f)).read(); opt = {k: v for k, v in re.findall(r"^//! (\w+): (.*)$", src, re.M)}
        prop, file, subs = M[id]; d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True); p = os.path.join(W, "portable_concurrency/bits", file); s = open(p).read()
        for a, b in subs: assert a in s, (id, a); s = s.replace(a, b, 1)
        open(os.path.join(d, "demo.cpp"), "w").write(re.sub(r"^//! .*\n", "", src, flags=re.M)); std = opt.get("std", "c++14")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (opt.get("cxx", "g++") + " -std=" + std, opt.get("flags", "-O1"), opt.get("env", ""), int(opt.get("timeout", "100")))); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc = [sh("bash %s/demo.sh" % d, cwd=W) for _ in range(int(opt.get("repeat", "1")))]
        open(p, "w").write(s); open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=W).stdout)
        rb = [sh("bash %s/demo.sh" % d, cwd=W) for _ in range(int(opt.get("repeat", "1")))]
        sh("git checkout -q -- .", cwd=W)
        json.dump({"property": prop, "needs": opt["needs"], "what_it_breaks": opt["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = all(r.returncode == 0 for r in rc) and all(r.returncode != 0 for r in rb)
        print("%-30s %s clean=%s patched=%s %s" % (id, prop, [r.returncode for r in rc], [r.returncode for r in rb], "ok" if ok else "BAD " + rc[0].stdout[-800:] + rb[0].stdout[-300:]), flush=True)
main()
