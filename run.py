#!/usr/bin/env python3
"""Static checks of latex-ast.

    run.py setup                     build the MIR dumper
    run.py check ID [--tier quick|thorough]
    run.py list                      roots and obligations of every property

A check dumps the MIR of /repo's current working tree (nothing of it is executed), analyses the functions the
property is about and prints VIOLATION lines; see DESIGN.md."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, multiprocessing, threading, tomllib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LATEX_AST_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)

BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(BUILD, "mirdump")


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def setup():
    """builds the driver if it is missing or older than its source"""
    src = os.path.join(VERIF, "driver", "main.rs")
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = DRIVER + ".%d" % os.getpid()
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr)
        raise SystemExit(2)
    os.replace(tmp, DRIVER)


def manifest():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        return tomllib.load(f)


def features():
    m = manifest().get("features", {})
    names = sorted(k for k in m if k != "default")

    def close(xs):
        out = set()
        todo = list(xs)
        while todo:
            x = todo.pop()
            if x in m and x not in out:
                out.add(x)
                todo.extend(m[x])
        return out
    return names, close(m.get("default", []))


def dump(out, src, crate, edition, feats, scratch):
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["MIRDUMP_CRATE"] = crate
    env["MIRDUMP_OUT"] = out
    cmd = [DRIVER, "rustc", "--crate-name", crate, "--edition", edition, "--crate-type", "lib", "--emit=metadata",
           "--out-dir", scratch, "--cap-lints", "allow"]
    for f in sorted(feats):
        cmd += ["--cfg", 'feature="%s"' % f]
    cmd.append(src)
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode != 0 or not os.path.exists(out):
        return r.stderr or "no output"
    return None


class Tree:
    """the current tree, dumped"""

    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix="latexast-check-")
        self.dumps = {}

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def config(self, feats):
        """(path of the dump, error text) of one feature configuration"""
        k = frozenset(feats)
        if k not in self.dumps:
            m = manifest()
            lib = m.get("lib", {}).get("path", "src/lib.rs")
            out = os.path.join(self.scratch, "dump-%s.json" % "-".join(sorted(k) or ["none"]))
            sc = os.path.join(self.scratch, "o" + str(len(self.dumps)))
            os.makedirs(sc)
            err = dump(out, os.path.join(REPO, lib), "latex_ast", m["package"].get("edition", "2015"), k, sc)
            self.dumps[k] = (out, err)
        return self.dumps[k]

    def program(self, feats=None):
        import mir
        if feats is None:
            feats = features()[1]
        path, err = self.config(feats)
        if err:
            sys.stderr.write(err)
            print("the current tree does not compile")
            raise SystemExit(2)
        mo = os.path.join(self.scratch, "model.json")
        if not os.path.exists(mo):
            sc = os.path.join(self.scratch, "mo")
            os.makedirs(sc)
            e = dump(mo, os.path.join(VERIF, "model", "lib.rs"), "model", "2021", [], sc)
            if e:
                sys.stderr.write(e)
                raise SystemExit(2)
        p = mir.Program()
        p.load(path)
        p.load(mo, "M::")
        return p


# ---- running roots -------------------------------------------------------------------------------------
_G = {}


def _work(job):
    import roots
    i, seconds, cap = job
    r = _G["roots"][i]
    fresh = lambda a: _G["relevant"](r.name, a)
    t0 = time.time()
    try:
        res = roots.run_root(_G["prog"], r, deadline=time.time() + seconds, max_entries=cap, fresh=fresh)
        return {"name": r.name, "fn": r.fn.name, "span": r.fn.span, "alarms": [(a.kind, a.detail, a.where) for a in res.alarms],
                "taints": res.taints, "entries": res.entries, "done": res.done, "steps": res.steps, "obligations": res.obligations,
                "stmts": res.stmts, "called": sorted(res.called), "limit": res.limit, "wall": time.time() - t0,
                "edges": res.edges, "turns": res.turns, "recursions": res.recursions}
    except Exception as e:      # an engine failure is a missing answer, never a verdict
        import traceback
        return {"name": r.name, "fn": r.fn.name, "span": r.fn.span, "alarms": [], "taints": {"engine: %r" % (e,): 1}, "entries": 0,
                "done": 0, "steps": 0, "obligations": 0, "stmts": 0, "called": [], "limit": "engine: %s" % traceback.format_exc()[-800:],
                "wall": time.time() - t0}


def run_roots(prog, todo, seconds, cap, relevant):
    _G["prog"] = prog
    _G["relevant"] = relevant
    _G["roots"] = todo
    jobs = [(i, seconds, cap) for i in range(len(todo))]
    jobs.sort(key=lambda j: -todo[j[0]].weight)
    n = min(len(jobs), max(1, os.cpu_count() or 1))
    if n == 0:
        return []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=4) as pool:
        out = list(pool.imap_unordered(_work, jobs, chunksize=1))
    return sorted(out, key=lambda r: r["name"])


def known():
    """known findings: property -> [(key, what)]"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for ln in open(p):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
        if m:
            out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.:/<>-]+", "_", s)[:160].strip("_")


def check(pid, tier):
    import props
    t0 = time.time()
    P = props.PROPS.get(pid)
    if P is None:
        print("unknown property", pid)
        return 2
    setup()
    tree = Tree()
    try:
        return check1(pid, P, tier, tree, t0)
    finally:
        tree.close()


def check1(pid, P, tier, tree, t0):
    import props
    seconds = 240 if tier == "quick" else 780
    cap = 9000 if tier == "quick" else 40000
    findings = []       # (key, text, detail)
    cov = {"explanation": P["explanation"], "rule": P["rule"]}
    obligations = discharged = 0
    wanted = P.get("roots", [])
    import rules
    if wanted:
        import roots
        prog = tree.program()
        todo = []
        rs = roots.all_roots(prog)
        have = {r.name for r in rs}
        for r in rs:
            if any(re.fullmatch(pat, r.name) for pat, _ in wanted):
                todo.append(r)
        missing = [n for n in P.get("anchors", []) if n not in have]
        for n in missing:
            findings.append(("%s:missing" % n, "the function behind %s is gone" % n, ""))
        listed = {k for k, _ in known().get(pid, [])}

        def relevant(root, a):
            """an unlisted alarm of this property: the answer is settled"""
            return any(re.fullmatch(pat, root) and a.kind in ks for pat, ks in wanted) \
                and slug("%s:%s:%s: %s" % (root, a.kind, a.kind, a.detail)) not in listed
        rep = run_roots(prog, todo, seconds, cap, relevant)
        incomplete = []
        kinds_seen = {}
        for r in rep:
            kinds = set()
            for pat, ks in wanted:
                if re.fullmatch(pat, r["name"]):
                    kinds |= set(ks)
            obligations += r["obligations"]
            bad = 0
            for kind, detail, where in r["alarms"]:
                kinds_seen[kind] = kinds_seen.get(kind, 0) + 1
                if kind not in kinds:
                    continue
                bad += 1
                findings.append(("%s:%s" % (r["name"], kind), "%s: %s" % (kind, detail), "%s (%s)%s" % (r["fn"], r["span"], ", in %s" % where if where else "")))
            t = sum(r["taints"].values())
            if t or r["limit"]:
                incomplete.append({"root": r["name"], "limit": r["limit"], "not_analysed": r["taints"]})
            discharged += max(0, r["obligations"] - bad)
        if any("endless" in ks for _, ks in wanted):
            edges = sorted({e for r in rep for e in r.get("edges", ())})
            for ring, kind in rules.rings(edges):
                findings.append(("rings:%s" % ring[0], "%s call each other on the same %s" % (" and ".join(ring), kind), ring[0]))
            cov["same_value_calls"] = [" -> ".join(e[:2]) + " on " + e[2] for e in edges]
            cov["loop_turns"] = sum(r.get("turns", 0) for r in rep)
            cov["calls_on_smaller_values"] = sum(r.get("recursions", 0) for r in rep)
        cov["functions_analysed"] = len({f for r in rep for f in r["called"]})
        cov["analysed"] = [{"root": r["name"], "function": r["fn"], "abstract_states": r["entries"], "transitions": r["steps"],
                            "mir_statements": r["stmts"], "results_checked": r["obligations"], "wall_s": round(r["wall"], 2)} for r in rep]
        cov["incomplete"] = incomplete
        cov["fixpoint_reached"] = not any(r["limit"] for r in rep)
    for name in P.get("rules", []):
        out = rules.RULES[name](tree, tier)
        obligations += out.obligations
        discharged += out.obligations - len(out.alarms)
        for key, text, where in out.alarms:
            findings.append((key, text, where))
        cov.setdefault("rules", []).append({"rule": name, "obligations": out.obligations, "what": out.what, "items": out.items[:200],
                                            "undecided": out.undecided[:50]})
    # ---- report
    kn = known().get(pid, [])
    rd = os.path.join(VERIF, "evidence", "reports", pid)
    shutil.rmtree(rd, ignore_errors=True)
    nviol = 0
    seen = set()
    seen_known = set()
    for key, text, where in findings:
        k = slug(key)
        full = slug(key + ":" + text)
        hit = [w for (kk, w) in kn if kk == full]
        if hit:
            if full not in seen_known:
                seen_known.add(full)
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
            continue
        if full in seen:
            continue
        seen.add(full)
        nviol += 1
        if nviol > 40:
            continue
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%02d.txt" % nviol)
        with open(path, "w") as f:
            f.write("property: %s %s\nkey: %s\nfound: %s\nat: %s\nrule: %s\n" % (pid, P["title"], full, text, where, P["rule"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s [%s]" % (key, text, where))
    cov["obligations"] = obligations
    cov["discharged"] = discharged
    cov["known_findings"] = sorted(seen_known)
    cov["checker_cmd"] = "python3 run.py check %s --tier %s" % (pid, tier)
    cov["trusted_base"] = props.TRUSTED
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": nviol, "assumptions": props.ASSUMPTIONS + P.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    print("%s %s: %d obligations, %d violations, %.1f s" % (pid, P["title"], obligations, nviol, time.time() - t0))
    return 1 if nviol else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.cmd == "setup":
        setup()
        return 0
    if a.cmd == "list":
        import props
        for k, P in props.PROPS.items():
            print(k, P["title"])
        return 0
    if a.cmd == "check":
        return check(a.id, a.tier)
    return 2


if __name__ == "__main__":
    sys.exit(main())
