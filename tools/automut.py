#!/usr/bin/env python3
"""Mechanical mutants of the library (statement deletion, negated conditions, weaker memory orders, ...): which pass the
repository's tests, and which of those do the checks report?   python3 tools/automut.py gen|tests|checks"""
import json, os, re, shutil, subprocess, sys, time
SRC = "/repo/portable_concurrency/bits"; OUT = "/tmp/am/results.json"; W = "/tmp/am/repo"
SKIP = {"config.h", "fwd.h", "alias_namespace.h", "voidify.h", "coro.h", "concurrency_type_traits.h"}
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def gen():
    out = []
    for f in sorted(os.listdir(SRC)):
        if f in SKIP: continue
        L = open(os.path.join(SRC, f)).read().split("\n"); com = False
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("/*"): com = True
            if com:
                if "*/" in s: com = False
                continue
            if not s or s.startswith(("//", "#", "*", "template", "using", "namespace", "}", "static_assert", "friend", "typedef")): continue
            def add(op, new): out.append({"file": f, "line": i + 1, "op": op, "new": new, "old": l})
            m = re.match(r"^(\s*)(if|while) \((.*)\)( \{)?$", l)
            if m and not m.group(3).startswith("auto "):
                add("neg", "%s%s (!(%s))%s" % (m.group(1), m.group(2), m.group(3), m.group(4) or ""))
                if m.group(2) == "if": add("false", "%sif (false && (%s))%s" % (m.group(1), m.group(3), m.group(4) or ""))
            if m and m.group(3).startswith("auto "): pass
            if re.match(r"^[a-z_>\w\-\.\(\)<>:{}\[\]*&+, ]+;$", s, re.I) and not s.startswith(("return", "throw", "public", "private", "break", "continue", "struct", "class", "const ", "explicit", "static ", "virtual")) and s.count("(") == s.count(")") and (re.search(r"[\w\)]\(.*\);$", s) or re.match(r"^(\+\+|--)?[\w_\->\.]+( [-+]?= .*)?;$", s) or re.match(r"^(std::lock_guard|std::unique_lock|scope_)", s)): add("del", "")
            for a, b in ((" && ", " || "), (" || ", " && "), (" == ", " != "), (" != ", " == "), (" > ", " >= "), (" <= ", " < "), ("notify_all", "notify_one"), ("true", "false"), ("false", "true"), ("memory_order_acq_rel", "memory_order_relaxed"), ("memory_order_acq_rel", "memory_order_acquire"), ("memory_order_acq_rel", "memory_order_release"), ("memory_order_acquire", "memory_order_relaxed"), ("++", "--"), ("--", "++")):
                if a in l and not (a.startswith("memory") and "//" in l) and "_type" not in l and not l.rstrip().endswith("*"): add(a.strip() + ">" + b.strip(), l.replace(a, b, 1))
            for m in re.finditer(r"std::move\(([\w\.\->_]+)\)", l): add("copy", l[:m.start()] + m.group(1) + l[m.end():])
            for m in re.finditer(r"std::exchange\(([\w\.\->_]+), (?:nullptr|\{\})\)", l): add("noexch", l[:m.start()] + m.group(1) + l[m.end():])
            if re.match(r"^\s*return [^;{]*;$", l): 
                if re.search(r"return (true|false);", l): pass
    out = [x for x in out if x["op"] not in ("neg", "copy", "++>--", "-->++", "true>false", "false>true")]
    for k, x in enumerate(out): x["id"] = "%s:%d:%s" % (x["file"], x["line"], x["op"])
    return out
def apply(x, w):
    p = os.path.join(w, "portable_concurrency/bits", x["file"]); L = open(os.path.join(SRC, x["file"])).read().split("\n"); assert L[x["line"] - 1] == x["old"]; L[x["line"] - 1] = x["new"]; open(p, "w").write("\n".join(L)); return p
def main():
    cmd = sys.argv[1]; ms = gen(); res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    if len(sys.argv) > 2: ms = [x for x in ms if re.search(sys.argv[2], x["id"])]
    if cmd == "gen":
        for x in ms: print(x["id"], "|", x["old"].strip(), "->", x["new"].strip())
        print(len(ms)); return
    if cmd == "tests":   # needs /tmp/am: repo/ (copy of /repo), o/, pch.h.pch (the standard and gtest headers)
        last = ""
        for x in ms:
            if x["id"] in res: continue
            shutil.copy(os.path.join(SRC, x["file"]), os.path.join(W, "portable_concurrency/bits", x["file"])); p = apply(x, W); t0 = time.time()
            src = "repo/portable_concurrency/bits/portable_concurrency.cpp" if x["file"] == "portable_concurrency.cpp" == last else "repo/test/*.cpp repo/portable_concurrency/bits/*.cpp"
            last = x["file"]
            b = sh("cd /tmp/am && ls %s | xargs -P8 -I{} sh -c 'clang++ -std=c++17 -O0 -w -include-pch pch.h.pch -Irepo -Irepo/test -c {} -o o/$(basename {}).o || exit 255' && clang++ o/*.o -lgtest -lgtest_main -lgmock -lpthread -o ut" % src)
            if b.returncode: r = "nobuild"
            else: q = sh("cd /tmp/am && timeout -k 1 40 ./ut --gtest_brief=1 --gtest_break_on_failure"); r = "pass" if q.returncode == 0 else "fail"
            res[x["id"]] = {"tests": r, **x}; json.dump(res, open(OUT, "w"), indent=1); print("%-50s %s %.0fs | %s -> %s" % (x["id"], r, time.time() - t0, x["old"].strip(), x["new"].strip()), flush=True)
            shutil.copy(os.path.join(SRC, x["file"]), p)
    if cmd == "checks":
        for x in ms:
            r = res.get(x["id"])
            if not r or r["tests"] != "pass" or "hits" in r: continue
            w = "/tmp/am/crepo"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w); shutil.copytree("/repo/portable_concurrency", w + "/portable_concurrency"); apply(x, w); t0 = time.time()
            c = sh("VP_REPO=%s timeout 900 python3 /tmp/am/verif/check.py C01 --all-props --first --budget 500" % w); r["exit"] = c.returncode; r["secs"] = round(time.time() - t0)
            r["hits"] = [l.split()[0] + " " + " ".join(l.split()[2:])[:110] for l in c.stdout.splitlines() if re.match(r"\w+\s+(violation|error|inconclusive|vacuous|unconfirmed)\s", l) and "no time left" not in l]; r["notes"] = [l[:150] for l in c.stdout.splitlines() if l.startswith("NOTE") or "counterexample: ok" in l]
            res = {**json.load(open(OUT)), x["id"]: r}; json.dump(res, open(OUT, "w"), indent=1); print("%-46s exit=%d %ds %d hits %s | %s -> %s" % (x["id"], c.returncode, r["secs"], len(r["hits"]), "; ".join(r["hits"][:2]), x["old"].strip(), x["new"].strip()), *r["notes"][:3], sep="\n      ", flush=True)
main()
