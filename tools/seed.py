#!/usr/bin/env python3
"""Writes and confirms planted bugs: seed.py FILE.py  (FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)])

Every bug is confirmed in a scratch copy of /repo: it applies, changes original lines only, compiles, passes the existing
tests, its demonstration passes on the unchanged tree and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
BASE = "d99080a"
DEMO = """#!/bin/bash
# builds the library and the demonstration in a scratch folder and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 --crate-type rlib --crate-name latex_ast --cap-lints allow --cfg 'feature="debug"' --cfg 'feature="eq"' src/lib.rs --out-dir "$t" || exit 2
rustc --edition 2021 --cap-lints allow --extern latex_ast="$t/liblatex_ast.rlib" "$d/demo.rs" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = set(sys.argv[2:])
    sc = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", sc + "/repo"], check=True)
    R = sc + "/repo"
    base = json.load(open("/opt/vp/BASELINE.json"))
    try:
        for s in g["SEEDS"]:
            if only and s["id"] not in only:
                continue
            d = os.path.join(OUT, s["id"])
            sh("git checkout -- .", R)
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                if t.count(old) != s.get("count", 1):
                    print(s["id"], "PATTERN", f, t.count(old), repr(old[:60]))
                    ok = False
                    break
                t = t.replace(old, new)
                open(p, "w").write(t)
            if not ok:
                continue
            diff = sh("git diff", R).stdout
            bad = 0
            removed = 0
            cur = None
            for ln in sh("git diff -U0", R).stdout.split("\n"):
                m = re.match(r"--- a/(.*)", ln)
                if m:
                    cur = m.group(1)
                m = re.match(r"@@ -(\d+)(?:,(\d+))? ", ln)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    if n:
                        removed += n
                        b = sh("git blame -s -L%d,%d HEAD -- %s" % (a, a + n - 1, cur), R).stdout
                        bad += sum(1 for x in b.strip().split("\n") if not x.lstrip("^").startswith(BASE[:6]))
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.rs", "w").write(s["demo"])
            cf = " ".join("--cfg 'feature=\"%s\"'" % c for c in s.get("cfgs", ["debug", "eq"]))
            dt = DEMO.replace(""" --cfg 'feature="debug"' --cfg 'feature="eq"'""", " " + cf if cf else "")
            if "cfgs" in s:
                dt = dt.replace('"$t" || exit 2', '"$t" || exit 3', 1)  # not building is what it shows
            open(d + "/demo.sh", "w").write(dt)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            dm = sh("bash %s/demo.sh" % d, R)
            env = dict(os.environ, CARGO_NET_OFFLINE="true")
            t = sh("cargo test --offline --lib 2>&1 | tail -60", R, env=env, timeout=600)
            passed = "test result: ok" in t.stdout
            sh("git checkout -- .", R)
            d0 = sh("bash %s/demo.sh" % d, R)
            good = dm.returncode not in (0, 2) and d0.returncode == 0 and passed and not bad and removed
            print(s["id"], s["property"], "OK" if good else "BAD: demo-with=%s demo-without=%s tests=%s foreign=%d removed=%d" % (dm.returncode, d0.returncode, passed, bad, removed))
            if not good:
                if dm.returncode == 2:
                    print(dm.stderr[-800:])
                if d0.returncode:
                    print(d0.stdout[-300:], d0.stderr[-900:])
                if not passed:
                    print("\n".join(x for x in t.stdout.split("\n") if "FAILED" in x or "panicked" in x or "error" in x)[:800])
                shutil.rmtree(d)
    finally:
        shutil.rmtree(sc)


main()
