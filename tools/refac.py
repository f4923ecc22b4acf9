#!/usr/bin/env python3
"""refac.py [-c C01,C02..] [NAME...]: applies behaviour-preserving edits (tools/refactorings/*.diff) to a scratch copy, runs the tests and every root (with -c: the named checks), expects quiet"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
only = None
if a and a[0] == "-c":
    only = a[1].split(",")
    a = a[2:]
D = V + "/tools/refactorings"
M = json.load(open(V + "/MANIFEST.json"))
for n in sorted(x[:-5] for x in os.listdir(D) if x.endswith(".diff")):
    if a and n not in a:
        continue
    t = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
    try:
        subprocess.run("cp -a /repo %s/repo" % t, shell=True, check=True)
        r = subprocess.run("git apply %s/%s.diff && cargo test --offline --lib 2>&1 | tail -30" % (D, n), shell=True, cwd=t + "/repo", capture_output=True, text=True)
        if "test result: ok" not in r.stdout:
            print(n, "BROKEN", r.stdout[-1500:], r.stderr[-500:])
            continue
        if only is None:
            r = subprocess.run(["python3", V + "/tools/allroots.py"], env=dict(os.environ, LATEX_AST_REPO=t + "/repo"), capture_output=True, text=True, cwd=V)
            print(n, "rc=%d" % r.returncode, "quiet" if r.returncode == 0 else "ALARM")
            print(r.stdout, r.stderr[-1000:], flush=True)
            continue
        for p in only or [c["property"] for c in M["checks"]]:
            ev = "%s/evidence/%s.json" % (V, p)
            r = subprocess.run(["python3", V + "/run.py", "check", p], env=dict(os.environ, LATEX_AST_REPO=t + "/repo"), capture_output=True, text=True, cwd=V)
            out = [x for x in r.stdout.split("\n") if x.startswith("  ")]
            inc = json.load(open(ev))["coverage"].get("incomplete", [])
            inc = [(x["root"], (x["limit"] or "")[:60], list(x["not_analysed"].items())[:3]) for x in inc]
            print(n, p, "rc=%d" % r.returncode, "" if r.returncode == 0 else "ALARM %s" % (out[:2],), "%.0fs" % json.load(open(ev))["wall_s"], inc if inc else "", flush=True)
    finally:
        shutil.rmtree(t)
