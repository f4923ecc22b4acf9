"""Structural rules: decided from the dumped program alone, function by function."""
import json, re


class Out:
    def __init__(self, what):
        self.what = what
        self.alarms = []        # (key, text, where)
        self.items = []
        self.undecided = []
        self.obligations = 0


def load(tree, feats):
    path, err = tree.config(feats)
    if err:
        return None, err
    return json.load(open(path)), None


def tname(T, i, depth=0):
    """a type, spelled out"""
    t = T[i]
    k = t["k"]
    if depth > 12:
        return "…"
    a = [tname(T, x, depth + 1) if type(x) is int else str(x) for x in t.get("a", [])]
    if k == "adt" or k == "fndef":
        return t["p"] + ("<%s>" % ", ".join(a) if a else "")
    if k == "ref":
        return ("&mut " if t["m"] else "&") + tname(T, t["t"], depth + 1)
    if k == "tuple":
        return "(%s)" % ", ".join(a)
    rest = []
    for x in sorted(t):
        if x in ("k", "a"):
            continue
        v = t[x]
        if x == "t" and type(v) is int:
            rest.append(tname(T, v, depth + 1))
        elif isinstance(v, list):
            rest.append("[%s]" % ", ".join(tname(T, z, depth + 1) if type(z) is int else str(z) for z in v))
        else:
            rest.append(json.dumps(v))
    return "%s(%s)" % (k, ", ".join(a + rest))


# ---- what results depend on ------------------------------------------------------------------------------
# reads of the surroundings, by the path of what is called
OUTSIDE = [
    (r"std::env::", "reads the environment"), (r"std::time::(Instant|SystemTime)", "reads the clock"),
    (r"std::fs::|std::os::|std::path::(Path|PathBuf)>?::(exists|is_file|is_dir|is_symlink|metadata|read_dir|read_link|canonicalize)", "reads the file system"),
    (r"std::net::", "uses the network"), (r"std::process::", "uses processes"),
    (r"std::thread::(current|available_parallelism|LocalKey)|std::thread::local::", "depends on the thread it runs in"),
    (r"std::io::(stdin|Stdin)", "reads from outside"),
    (r"std::io::(_print|_eprint|stdout|stderr|stdio::_e?print)", "writes to the standard streams"),
    (r"std::(hash|collections::hash_map)::(random::)?RandomState", "depends on a random seed"),
    (r"core::fmt::rt::Argument::<.*>::new_pointer", "prints addresses"),
]
# may or may not depend on them
MAYBE = re.compile(r"std::thread::|std::ptr::(eq|addr_eq)|core::ptr::(eq|addr_eq)|.*::(addr|expose_provenance)$|std::(rc::Rc|sync::Arc)::<.*>::(ptr_eq|strong_count|weak_count)")
HASHED = re.compile(r"(std|hashbrown)::collections::(hash(_map|::map)?::)?(HashMap|HashSet)|std::collections::hash")
ORDERED_BY_HASH = re.compile(r"::(iter|iter_mut|into_iter|keys|values|values_mut|into_keys|into_values|drain|extract_if|fmt|union|intersection|difference|symmetric_difference)$")


def walk(f):
    """(kind, what, span) of every operation of a function"""
    bodies = [f["body"]] + [p.get("body", p) if isinstance(p, dict) else p for p in (f.get("promoted") or [])]
    for b in bodies:
        if not b or "blocks" not in b:
            continue
        for blk in b["blocks"]:
            for s in blk["s"]:
                yield "stmt", s, s[-1] if type(s[-1]) is str else blk.get("sp")
            yield "term", blk["t"], blk.get("sp")


def fns_in(x):
    """function constants anywhere inside"""
    if isinstance(x, dict):
        if "fn" in x:
            yield x
        for v in x.values():
            yield from fns_in(v)
    elif isinstance(x, list):
        for v in x:
            yield from fns_in(v)


def pure(tree, tier):
    import run
    d, err = load(tree, run.features()[1])
    out = Out("every call, cast and static of every function of the crate, against the list of operations whose outcome is not a function of their arguments")
    if err:
        out.undecided.append("does not compile")
        return out
    T = d["types"]
    for s in d["statics"]:
        out.obligations += 1
        nm = s.get("name") if isinstance(s, dict) else str(s)
        if isinstance(s, dict) and not s.get("mut") and re.match(r"std::(sync|cell|lazy)::(\w+::)?(OnceLock|LazyLock|OnceCell|LazyCell|Once)\b", tname(T, s["t"])):
            out.undecided.append("%s is set once" % nm)  # to the same value each time, as a rule
            continue
        if isinstance(s, dict) and (s.get("mut") or s.get("freeze") is False or s.get("tls")):
            out.alarms.append(("static:%s" % nm, "%s is mutable state that outlives a call" % nm, s.get("span", "")))
    for n, f in sorted(d["fns"].items()):
        if not f["body"]:
            continue
        out.obligations += 1
        calls = 0
        for kind, x, sp in walk(f):
            for k in fns_in(x):
                calls += 1
                for p in {k["fn"], k.get("rfn") or k["fn"]}:
                    if k.get("local") and p == k["fn"]:
                        continue
                    hit = next((w for pat, w in OUTSIDE if re.match(pat, p.lstrip("<"))), None)
                    if hit:
                        out.alarms.append(("%s:%s" % (n, p), "%s %s by calling %s" % (n, hit, p), sp or f["span"]))
                        break
                    if MAYBE.match(p.lstrip("<")):
                        out.undecided.append("%s calls %s" % (n, p))
                on = [tname(T, a) for a in k.get("args", []) if type(a) is int]
                p = k.get("rfn") or k["fn"]
                if any("RandomState" in x for x in on + [p]) and (HASHED.search(p) or (on and HASHED.match(on[0].lstrip("&").replace("mut ", "")))) and \
                        (ORDERED_BY_HASH.search(k["fn"]) or ORDERED_BY_HASH.search(p)):
                    out.alarms.append(("%s:hashed:%s" % (n, k.get("method") or p), "%s goes through a hashed collection, whose order is random, by calling %s" % (n, p), sp or f["span"]))
            if kind == "stmt" and x[0] == "=" and x[2][0] == "cast" and re.match(r"PointerExpose|FnPtrToInt|PtrToInt|Transmute", x[2][1]):
                if T[x[2][3]]["k"] == "int":
                    out.undecided.append("%s turns something into a number (%s)" % (n, x[2][1]))
        out.items.append("%s: %d calls" % (n, calls))
    return out


EXTRA = {"std::fmt::Debug": "debug", "std::cmp::PartialEq": "eq", "std::cmp::Eq": "eq", "std::marker::StructuralPartialEq": "eq"}


# ---- optional features -------------------------------------------------------------------------------------
def shape(d, x):
    """the body of a function without spans, with types spelled out"""
    T = d["types"]

    def go(y):
        if isinstance(y, dict):
            o = {}
            for k in sorted(y):
                if k in ("span", "sp", "names"):
                    continue
                v = y[k]
                if k in ("t", "to", "self") and type(v) is int:
                    v = tname(T, v)
                elif k in ("args", "rargs", "a") and isinstance(v, list):
                    v = [tname(T, z) if type(z) is int else z for z in v]
                elif k in ("locals", "types"):
                    v = [tname(T, z) for z in v]
                else:
                    v = go(v)
                o[k] = v
            return o
        if isinstance(y, list):
            if len(y) == 4 and y[0] == "=" and type(y[3]) is str:
                y = y[:3]
            if len(y) == 4 and y[0] == "cast":
                return ["cast", y[1], go(y[2]), tname(T, y[3])]
            if y and y[0] in ("call", "switch", "drop") and type(y[-1]) is int and len(y) == {"call": 6, "switch": 5, "drop": 4}[y[0]]:
                return [go(z) for z in y[:-1]] + [tname(T, y[-1])]
            return [go(z) for z in y]
        return y
    return json.dumps(go({"body": x["body"], "promoted": x.get("promoted")}), sort_keys=True)


def features(tree, tier):
    import run
    import itertools
    names, default = run.features()
    out = Out("the bodies of all functions, compared between the builds with every subset of the features")
    if len(names) > 4:
        subsets = [set(), set(names)] + [{n} for n in names]
    else:
        subsets = [set(c) for r in range(len(names) + 1) for c in itertools.combinations(names, r)]
    base, err = load(tree, default)
    if err:
        out.undecided.append("does not compile")
        return out
    ref = {n: shape(base, f) for n, f in base["fns"].items() if not f.get("derived")}
    full, err = load(tree, set(names))
    if err:
        full = base

    def impls(d, extra):
        T = d["types"]
        return {(i["trait"], ", ".join(tname(T, a) for a in i["args"] if type(a) is int)): i["span"] for i in d["impls"]
                if (EXTRA.get(i["trait"]) is not None) == extra}
    want, more = impls(base, False), impls(full, True)
    for s in subsets:
        tag = "+".join(sorted(s)) or "none"
        out.obligations += 1
        d, err = load(tree, s)
        if err:
            line = next((x for x in err.split("\n") if x.startswith("error")), "error")
            out.alarms.append(("features:%s:build" % tag, "with the features %s the crate does not build: %s" % (tag, line), "Cargo.toml"))
            continue
        have, hmore = impls(d, False), impls(d, True)
        for i in sorted(set(want) ^ set(have)):
            out.alarms.append(("features:%s:impl:%s:%s" % ((tag,) + i), "whether %s implements %s depends on the features (%s)" % (i[1], i[0], tag), want.get(i) or have.get(i)))
        for i in sorted(more):
            out.obligations += 1
            if EXTRA[i[0]] in s and i not in hmore:
                out.alarms.append(("features:%s:impl:%s:%s" % ((tag,) + i), "%s does not implement %s with the features %s" % (i[1], i[0], tag), more[i]))
        for n in sorted(set(ref) | {n for n, f in d["fns"].items() if not f.get("derived")}):
            if n not in d["fns"] or n not in ref:
                f = base["fns"].get(n) or d["fns"].get(n)
                if f.get("vis") and f["kind"] in ("Fn", "AssocFn") and not n.startswith("<"):
                    out.obligations += 1
                    out.alarms.append(("features:%s:%s" % (tag, n), "whether %s exists depends on the features (%s)" % (n, tag), f["span"]))
                continue
            if shape(d, d["fns"][n]) != ref[n]:
                out.alarms.append(("features:%s:%s" % (tag, n), "%s does something else with the features %s" % (n, tag), d["fns"][n]["span"]))
            out.obligations += 1
        out.items.append("%s: %d functions, %d implementations" % (tag, len(ref), len(have)))
    return out


# ---- what trees are made of ----------------------------------------------------------------------------------
SHARED = re.compile(r"(std|core|alloc)::(cell|sync::(atomic|Mutex|RwLock|OnceLock|LazyLock|mutex|rwlock|poison))")


def owned(tree, tier):
    import run
    d, err = load(tree, run.features()[1])
    out = Out("the fields of all types of the crate: none holds state that can change behind a shared reference, or a raw pointer")
    if err:
        out.undecided.append("does not compile")
        return out
    T = d["types"]
    for n, a in sorted(d["adts"].items()):
        if not a.get("local"):
            continue
        for v in a["variants"]:
            for f in v["f"]:
                out.obligations += 1
                ty = f.get("t") if isinstance(f, dict) else f[1]
                nm = f.get("n") if isinstance(f, dict) else f[0]
                seen = set()
                bad = []

                def go(i):
                    if i in seen:
                        return
                    seen.add(i)
                    t = T[i]
                    if t["k"] == "adt" and SHARED.match(t["p"]):
                        bad.append(tname(T, i))
                    if t["k"] in ("ptr", "rawptr"):
                        bad.append(tname(T, i))
                    for x in list(t.get("a", [])) + ([t["t"]] if type(t.get("t")) is int else []):
                        if type(x) is int:
                            go(x)
                go(ty)
                for b in bad:
                    out.alarms.append(("owned:%s:%s" % (n, nm), "%s of %s holds %s" % (nm, n, b), a["span"]))
        out.items.append(n)
    return out


# ---- loops ---------------------------------------------------------------------------------------------------
# operations that take something from a store which only gets smaller by it
STEPS = re.compile(r"(next|next_back|pop|pop_front|pop_back|pop_first|pop_last|next_if|next_if_eq|nth|nth_back|recv)$")
FILLS = re.compile(r"(push|push_back|push_front|insert|extend|append|extend_from_slice)$")
ENDLESS = re.compile(r"&?(mut )?(std|core)::(iter::(sources::|adapters::)?(\w+::)?(Repeat|RepeatWith|Cycle|Successors|FromFn)\b|ops::(range::)?RangeFrom\b)")


def targets(t):
    """where a terminator may go, and whether it may leave the function instead"""
    k = t[0]
    if k == "goto":
        return [t[1]], False
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]], False
    if k == "call":
        return ([t[4]], False) if t[4] is not None else ([], True)
    if k == "drop":
        return [t[2]], False
    if k == "assert":
        return [t[4]], True
    return [], True


def components(n, succ):
    """sets of blocks that reach each other, among those reached from the entry (Tarjan)"""
    index, low, on, stack, out, cnt = {}, {}, set(), [], [], 0
    work = [(0, iter(succ[0]))] if n else []
    if work:
        index[0] = low[0] = cnt
        cnt += 1
        stack.append(0)
        on.add(0)
    while work:
        u, it = work[-1]
        for v in it:
            if v not in index:
                index[v] = low[v] = cnt
                cnt += 1
                stack.append(v)
                on.add(v)
                work.append((v, iter(succ[v])))
                break
            if v in on:
                low[u] = min(low[u], index[v])
        else:
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[u])
            if low[u] == index[u]:
                c = set()
                while True:
                    v = stack.pop()
                    on.discard(v)
                    c.add(v)
                    if v == u:
                        break
                if len(c) > 1 or u in succ[u]:
                    out.append(c)
    return out


def loops(tree, tier):
    import run
    d, err = load(tree, run.features()[1])
    out = Out("every loop of every function: it has a way out, and each of its turns takes something from an iterator or a store that gets smaller")
    if err:
        out.undecided.append("does not compile")
        return out
    T = d["types"]
    for n, f in sorted(d["fns"].items()):
        b = f["body"]
        if not b:
            continue
        bl = b["blocks"]
        to = [targets(x["t"]) for x in bl]
        succ = [x for x, _ in to]
        for c in components(len(bl), succ):
            out.obligations += 1
            first = min(c)
            sp = bl[first].get("sp") or f["span"]
            if not any(to[i][1] or any(x not in c for x in succ[i]) for i in c):
                out.alarms.append(("loops:%s" % n, "a loop of %s has no way out" % n, sp))
                continue
            steps, popped, filled = set(), {}, set()
            for i in c:
                t = bl[i]["t"]
                if t[0] != "call":
                    continue
                for k in fns_in(t[1]):
                    p = k["fn"]
                    if not k.get("local") and STEPS.search(p):
                        on = [tname(T, a) for a in k.get("args", []) if type(a) is int]
                        if not any(ENDLESS.search(x) for x in on):
                            steps.add(i)
                            if re.search(r"pop\w*$", p):
                                popped.setdefault(on[0] if on else "", set()).add(i)
                    if FILLS.search(p):
                        filled.update(tname(T, a) for a in k.get("args", [])[:1] if type(a) is int)
            for x in filled & set(popped):      # what is taken is put back, too
                steps -= popped[x]
            rest = [[x for x in succ[i] if x in c and x not in steps] if i in c and i not in steps else [] for i in range(len(bl))]
            cyc = False
            for i in c - steps:
                seen, todo = set(), list(rest[i])
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo.extend(rest[x])
                if i in seen:
                    cyc = True
                    break
            if cyc:
                out.undecided.append("%s: a loop counts by itself (%s)" % (n, sp))
            else:
                out.items.append("%s: %d steps" % (n, len(steps)))
    return out


def rings(edges):
    """operations that call each other round in a circle, each on the value it was given"""
    for kind in sorted({k for _, _, k in edges}):
        to = {}
        for a, b, k in edges:
            if k in (kind, "text") and a != b:      # whatever it is
                to.setdefault(a, set()).add(b)
        names = sorted(set(to) | {b for s in to.values() for b in s})
        for start in names:
            # shortest way back to where it began, names after the start only: each circle once
            prev = {start: None}
            todo = [start]
            while todo:
                u = todo.pop(0)
                for v in sorted(to.get(u, ())):
                    if v == start:
                        ring = []
                        while u is not None:
                            ring.append(u)
                            u = prev[u]
                        yield ring[::-1], kind
                        todo = []
                        break
                    if v > start and v not in prev:
                        prev[v] = u
                        todo.append(v)


RULES = {"pure": pure, "features": features, "owned": owned, "loops": loops}
