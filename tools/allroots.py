#!/usr/bin/env python3
"""allroots.py [PATTERN..]: every root of the current tree (LATEX_AST_REPO) once, all kinds of alarm; exit 1 on an alarm of a claimed property"""
import os, re, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run, props, roots
run.setup()
t = run.Tree()
bad = 0
try:
    p = t.program()
    rs = roots.all_roots(p)
    have = {r.name for r in rs}
    for k, P in props.PROPS.items():
        for a in P["anchors"]:
            if a not in have:
                print("  MISSING", k, a)
                bad = 1
    rs = [r for r in rs if not sys.argv[1:] or any(x in r.name for x in sys.argv[1:])]
    t0 = time.time()
    first = "--first" in sys.argv
    if first:       # one process, stop at the first alarm
        sys.argv.remove("--first")
        rs = roots.all_roots(p)
        kn = {k for v in run.known().values() for k, _ in v}
        late = []
        def claimed(root, a):
            if run.slug("%s:%s:%s: %s" % (root, a.kind, a.kind, a.detail)) in kn:
                return False
            return any(re.fullmatch(pat, root) and a.kind in ks for P in props.PROPS.values() for pat, ks in P["roots"])
        for r in sorted(rs, key=lambda r: r.weight):
            try:
                res = roots.run_root(p, r, deadline=time.time() + 150, max_entries=9000, fresh=lambda a: claimed(r.name, a))
            except Exception as e:
                print("  ENGINE", r.name, repr(e))
                continue
            for a in res.alarms:
                if claimed(r.name, a):
                    print("  ALARM", r.name, a.kind, a.detail)
                    sys.exit(1)
            n = sum(res.taints.values())
            if (n or res.limit) and not r.name.endswith("/with"):
                print("  %s taints=%d %s %s" % (r.name, n, res.limit or "", list(res.taints.items())[:2]))
        sys.exit(bad)
    rep = run.run_roots(p, rs, 600, 40000, lambda r, a: False)
    kn = {k for v in run.known().values() for k, _ in v}
    for r in rep:
        for kind, detail, where in r["alarms"]:
            key = run.slug("%s:%s:%s: %s" % (r["name"], kind, kind, detail))
            ps = [k for k, P in props.PROPS.items() if any(re.fullmatch(pat, r["name"]) and kind in ks for pat, ks in P["roots"])]
            if key in kn or not ps:
                continue
            bad = 1
            print("  ALARM", r["name"], ps, kind, detail, where)
        n = sum(r["taints"].values())
        if n or r["limit"] or r["wall"] > 60:
            print("  %s %.0fs taints=%d %s %s" % (r["name"], r["wall"], n, r["limit"] or "", list(r["taints"].items())[:3]))
    print("  %d roots %.0fs" % (len(rep), time.time() - t0))
finally:
    t.close()
sys.exit(bad)
