#!/usr/bin/env python3
"""Which scenarios of a planted bug's own property report it: python3 tools/matrix.py > table"""
import json, os, re, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/matrixrepo"
for b in sorted(os.listdir(V + "/seeded")):
    shutil.rmtree(W, ignore_errors=True); subprocess.run("git clone -q /repo %s && git -C %s apply %s/seeded/%s/patch.diff" % (W, W, V, b), shell=True, check=True)
    p = json.load(open("%s/seeded/%s/meta.json" % (V, b)))["property"]
    o = subprocess.run(["python3", V + "/check.py", p], env=dict(os.environ, VP_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    h = [(l.split()[0], " ".join(l.split()[3:])) for l in o.stdout.splitlines() if re.match(r"\w+ +violation ", l)]
    print("| %s | %s | %s | %s |" % (b, p, ", ".join(x[0] for x in h[:4]) + (" and %d more" % (len(h) - 4) if len(h) > 4 else ""), h[0][1][:90] if h else "not caught (exit %d)" % o.returncode), flush=True)
shutil.rmtree(W, ignore_errors=True)
