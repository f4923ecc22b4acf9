#!/usr/bin/env python3
"""detect.py [ID...]: runs the check of every planted bug's property (or, with -a, all checks) on a scratch copy with the bug applied"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
allc = "-a" in sys.argv
ids = args or sorted(os.listdir(V + "/seeded"))
M = json.load(open(V + "/MANIFEST.json"))
for i in ids:
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="det-", dir="/tmp")
    try:
        subprocess.run("cp -a /repo %s/repo && git -C %s/repo apply %s/patch.diff" % (t, t, d), shell=True, check=True)
        todo = [c["property"] for c in M["checks"]] if allc else [meta["property"]]
        for p in todo:
            r = subprocess.run(["python3", V + "/run.py", "check", p], env=dict(os.environ, LATEX_AST_REPO=t + "/repo"), capture_output=True, text=True, cwd=V)
            out = [x for x in r.stdout.split("\n") if x.startswith("  ")]
            print(i, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 else "missed", "|", (out[0].strip()[:170] if out else r.stdout.strip().split("\n")[-1][:170]), flush=True)
    finally:
        shutil.rmtree(t)
