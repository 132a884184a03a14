#!/usr/bin/env python3
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(H, "harness", "*.cpp")):
    for l in open(f):
        m = re.match(r"//@\s+((?:C\d\d,?)+)", l)
        if m: have |= set(m.group(1).strip(",").split(","))
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the LLVM IR of /repo's code; inputs and interleavings are SMT variables decided by Z3",
            "level": "model_checking", "level_note": "bounded: the threads, operations and sizes written in the property's scenarios (harness/*.cpp), one spurious wake-up and two time-outs per thread; complete for all inputs and all interleavings within them (sequentially consistent atomics, happens-before races checked)"})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
