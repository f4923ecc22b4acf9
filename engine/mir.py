"""Loads MIR dumps (driver/main.rs) of the analysed crate and of the std models, and prepares them
for the abstract interpreter: interned types, loop heads, liveness, dispatch tables."""
import json, re

_gen = re.compile(r"<[^<>]*>")


def strip_generics(n):
    # remove ::<...> and <...> generic argument lists, keep `<T as Trait>` / `<impl ..>` qualified selfs
    prev = None
    while prev != n:
        prev = n
        n = re.sub(r"::<[^<>]*>", "", n)
        n = re.sub(r"(?<=\w)<[^<>]*>", "", n)
    return n


class Fn:
    __slots__ = ("name", "kind", "blocks", "nargs", "locals", "names", "heads", "live", "promoted", "span",
                 "derived", "vis", "method", "self_t", "trait", "trargs", "generics", "inputs", "output",
                 "unsafe", "model", "loops", "borrowed", "raw", "livein", "order")


class Program:
    def __init__(self):
        self.types = []
        self.tkey = {}
        self.adts = {}
        self.fns = {}
        self.impls = []
        self.statics = []
        self.by_self = {}   # (trait last seg, method, self adt name) -> [Fn]
        self.chars = set()  # characters the analysed code mentions
        self.alpha = None

    def const_chars(self):
        return sorted(self.chars)

    # ---- types -------------------------------------------------------------------------------
    def _intern(self, t):
        k = repr(t)
        i = self.tkey.get(k)
        if i is None:
            i = len(self.types)
            self.types.append(t)
            self.tkey[k] = i
        return i

    def load(self, path, prefix=""):
        d = json.load(open(path))

        def scan(x):
            if isinstance(x, dict):
                c = x.get("char")
                if isinstance(c, int):
                    self.chars.add(chr(c))
                c = x.get("str")
                if isinstance(c, str):
                    self.chars.update(c)
                for v in x.values():
                    scan(v)
            elif isinstance(x, list):
                for v in x:
                    scan(v)
        scan(d["fns"])
        tys = d["types"]
        local_adts = {n for n, a in d["adts"].items() if a and a["local"]}
        local_fns = set(d["fns"])

        def pn(n):
            return prefix + n if prefix and (n in local_adts or n in local_fns) else n
        mp = [None] * len(tys)
        busy = set()

        def ty(i):
            if i is None:
                return None
            if isinstance(i, str):
                return i
            if mp[i] is not None:
                return mp[i]
            t = tys[i]
            k = t["k"]
            if k in ("bool", "char", "str", "never"):
                n = (k,)
            elif k in ("int", "float"):
                n = (k, t["n"])
            elif k == "adt":
                if i in busy:
                    raise RecursionError
                n = ("adt", pn(t["p"]), tuple(ty(x) for x in t["a"]))
            elif k in ("ref", "ptr"):
                n = (k, t["m"], ty(t["t"]))
            elif k == "slice":
                n = (k, ty(t["t"]))
            elif k == "array":
                n = (k, ty(t["t"]), t["n"])
            elif k == "tuple":
                n = (k, tuple(ty(x) for x in t["a"]))
            elif k == "closure":
                n = (k, pn(t["p"]), tuple(ty(x) for x in t["a"]))
            elif k == "fndef":
                n = (k, pn(t["p"]), tuple(ty(x) for x in t["a"]))
            elif k == "param":
                n = (k, t["n"])
            else:
                n = (k, t.get("n", ""))
            mp[i] = self._intern(n)
            return mp[i]
        for i in range(len(tys)):
            ty(i)

        def conv_const(c):
            c = dict(c)
            if "t" in c:
                c["t"] = ty(c["t"])
            for k in ("args", "rargs"):
                if k in c:
                    c[k] = tuple(ty(x) for x in c[k])
            if "self" in c:
                c["self"] = ty(c["self"])
            for k in ("fn", "rfn", "of"):
                if k in c:
                    c[k] = pn(c[k])
            if "fn" in c:
                c["key"] = fnkey(c["fn"], c)
            return c

        def op(o):
            if o[0] == "k":
                return ("k", conv_const(o[1]))
            return (o[0], place(o[1]))

        def place(p):
            return (p[0], tuple(tuple(e) for e in p[1]))

        def rv(r):
            k = r[0]
            if k == "use":
                return ("use", op(r[1]))
            if k == "ref":
                return ("ref", r[1], place(r[2]))
            if k == "rawptr":
                return ("rawptr", place(r[1]))
            if k == "cast":
                return ("cast", r[1], op(r[2]), ty(r[3]))
            if k == "bin":
                return ("bin", r[1], op(r[2]), op(r[3]))
            if k == "un":
                return ("un", r[1], op(r[2]))
            if k == "discr":
                return ("discr", place(r[1]))
            if k == "agg":
                a = dict(r[1])
                if "p" in a:
                    a["p"] = pn(a["p"])
                if "a" in a:
                    a["a"] = tuple(ty(x) for x in a["a"])
                if isinstance(a.get("t"), int):
                    a["t"] = ty(a["t"])
                return ("agg", a, tuple(op(x) for x in r[2]))
            if k == "repeat":
                return ("repeat", op(r[1]), r[2])
            return tuple(r)

        def term(t):
            k = t[0]
            if k == "switch":
                return ("switch", op(t[1]), tuple((a, b) for a, b in t[2]), t[3], ty(t[4]))
            if k == "drop":
                return ("drop", place(t[1]), t[2])
            if k == "call":
                return ("call", op(t[1]), tuple(op(x) for x in t[2]), place(t[3]), t[4], ty(t[5]))
            if k == "assert":
                return ("assert", op(t[1]), t[2], t[3], t[4])
            return tuple(t)

        def body(b):
            bl = []
            for x in b["blocks"]:
                st = []
                for s in x["s"]:
                    if s[0] == "=":
                        st.append(("=", place(s[1]), rv(s[2]), s[3]))
                    elif s[0] == "setdiscr":
                        st.append(("setdiscr", place(s[1]), s[2], s[3]))
                bl.append((st, term(x["t"]), x["sp"], x["cleanup"]))
            return bl, b["args"], [ty(x) for x in b["locals"]], [(n, place(p)) for n, p in b["names"]]

        for n, f in d["fns"].items():
            g = Fn()
            g.name = pn(n)
            g.kind = f["kind"]
            g.blocks, g.nargs, g.locals, g.names = body(f["body"])
            g.promoted = []
            for p in f.get("promoted", []):
                h = Fn()
                h.name = g.name + "::promoted%d" % len(g.promoted)
                h.kind = "promoted"
                h.blocks, h.nargs, h.locals, h.names = body(p)
                h.promoted = g.promoted
                h.generics = f.get("generics", [])
                h.span = f["span"]
                h.model = bool(prefix)
                h.derived = False
                h.trait = h.self_t = h.method = None
                h.trargs = ()
                self._prep(h)
                g.promoted.append(h)
            g.span = f["span"]
            g.derived = f.get("derived", False)
            g.vis = f.get("vis", False)
            g.method = f.get("method")
            g.self_t = ty(f["self"]) if "self" in f else None
            g.trait = f.get("trait")
            g.trargs = tuple(ty(x) for x in f.get("trargs", []))
            g.generics = f.get("generics", [])
            g.inputs = [ty(x) for x in f.get("inputs", [])]
            g.output = ty(f["output"]) if "output" in f else None
            g.unsafe = f.get("unsafe", False)
            g.model = bool(prefix)
            self._prep(g)
            self.fns[g.name] = g
            if g.self_t is not None:
                st = self.types[g.self_t]
                sn = st[1] if st[0] == "adt" else st[0]
                tr = g.trait.split("::")[-1] if g.trait else None
                self.by_self.setdefault((tr, g.method, sn), []).append(g)
        for n, a in d["adts"].items():
            if a is None:
                continue
            n2 = pn(n)
            if n2 in self.adts:
                continue
            self.adts[n2] = {
                "kind": a["kind"], "local": a["local"], "generics": a["generics"], "span": a["span"], "vis": a["vis"],
                "variants": [(v["n"], v["d"], [(x["n"], ty(x["t"]) if x["t"] is not None else None, x["pub"]) for x in v["f"]])
                             for v in a["variants"]],
                "model": bool(prefix),
            }
        if not prefix:
            for i in d["impls"]:
                self.impls.append((i["trait"], tuple(ty(x) for x in i["args"]), i["derived"], i["span"]))
            self.statics = d["statics"]
        return self

    # ---- CFG -----------------------------------------------------------------------------------
    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto":
            return (t[1],)
        if k == "switch":
            return tuple(b for _, b in t[2]) + (t[3],)
        if k == "drop":
            return (t[2],)
        if k == "call":
            return (t[4],) if t[4] is not None else ()
        if k == "assert":
            return (t[4],)
        return ()

    def _simplify(self, f):
        """drops have no effect on the values analysed: remove the flags and switches that only decide what to drop"""
        bl = f.blocks
        n = len(bl)

        def uses():
            cnt = {}

            def op(o):
                if o[0] != "k":
                    pl(o[1])

            def pl(p):
                cnt[p[0]] = cnt.get(p[0], 0) + 1
                for e in p[1]:
                    if e[0] == "i":
                        cnt[e[1]] = cnt.get(e[1], 0) + 1
            for st, t, _, _ in bl:
                for s in st:
                    if s[0] != "=":
                        pl(s[1])
                        continue
                    r = s[2]
                    k = r[0]
                    if k in ("use",):
                        op(r[1])
                    elif k == "ref":
                        pl(r[2])
                    elif k in ("rawptr", "discr"):
                        pl(r[1])
                    elif k == "cast":
                        op(r[2])
                    elif k == "bin":
                        op(r[2])
                        op(r[3])
                    elif k == "un":
                        op(r[2])
                    elif k == "agg":
                        for o in r[2]:
                            op(o)
                    elif k == "repeat":
                        op(r[1])
                    else:
                        for x in r[1:]:
                            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and isinstance(x[0], int):
                                pl(x)
                    if s[1][1]:
                        pl(s[1])
                k = t[0]
                if k == "switch" or k == "assert":
                    op(t[1])
                elif k == "call":
                    op(t[1])
                    for o in t[2]:
                        op(o)
                    if t[3][1]:
                        pl(t[3])
            return cnt

        def final(i):
            seen = set()
            while i not in seen:
                seen.add(i)
                st, t, _, _ = bl[i]
                if st:
                    return i
                if t[0] == "goto":
                    i = t[1]
                elif t[0] == "drop":
                    i = t[2]
                else:
                    return i
            return i
        for _ in range(50):
            ch = False
            for i in range(n):
                st, t, sp, cl = bl[i]
                if t[0] == "switch":
                    tg = {final(x) for x in self.succs(t)}
                    if len(tg) == 1:
                        bl[i] = (st, ("goto", tg.pop()), sp, cl)
                        ch = True
            cnt = uses()
            for i in range(n):
                st, t, sp, cl = bl[i]
                keep = [s for s in st if not (s[0] == "=" and not s[1][1] and s[1][0] > f.nargs and not cnt.get(s[1][0])
                                              and (s[2][0] == "discr" or (s[2][0] == "use" and s[2][1][0] == "k")))]
                if len(keep) != len(st):
                    bl[i] = (keep, t, sp, cl)
                    ch = True
            if not ch:
                break

    def _prep(self, f):
        self._simplify(f)
        n = len(f.blocks)
        succ = [self.succs(b[1]) for b in f.blocks]
        # loop heads: targets of back edges in a DFS
        heads = set()
        color = [0] * n
        order = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                elif color[v] == 1:
                    heads.add(v)
            else:
                color[u] = 2
                order.append(u)
                stack.pop()
        f.heads = frozenset(heads)
        f.order = order[::-1]
        # liveness of locals (drop and overwrites are not uses; address-taken locals handled by reachability)
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]

        def u_op(o, us, ds):
            if o[0] != "k":
                u_place(o[1], us, ds)

        def u_place(p, us, ds):
            if p[0] not in ds:
                us.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in ds:
                    us.add(e[1])

        borrowed = set()
        for i, (st, t, _, _) in enumerate(f.blocks):
            us, ds = use[i], df[i]
            for s in st:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k == "use":
                        u_op(r[1], us, ds)
                    elif k == "ref":
                        u_place(r[2], us, ds)
                        if not any(e[0] == "*" for e in r[2][1]):
                            borrowed.add(r[2][0])
                    elif k in ("rawptr", "discr"):
                        u_place(r[1], us, ds)
                    elif k == "cast":
                        u_op(r[2], us, ds)
                    elif k == "bin":
                        u_op(r[2], us, ds)
                        u_op(r[3], us, ds)
                    elif k == "un":
                        u_op(r[2], us, ds)
                    elif k == "agg":
                        for o in r[2]:
                            u_op(o, us, ds)
                    elif k == "repeat":
                        u_op(r[1], us, ds)
                    p = s[1]
                    if p[1]:
                        u_place(p, us, ds)
                    elif p[0] not in us:
                        ds.add(p[0])
                else:
                    u_place(s[1], us, ds)
            k = t[0]
            if k == "switch":
                u_op(t[1], us, ds)
            elif k == "call":
                u_op(t[1], us, ds)
                for o in t[2]:
                    u_op(o, us, ds)
                if t[3][1]:
                    u_place(t[3], us, ds)
            elif k == "assert":
                u_op(t[1], us, ds)
            elif k == "return":
                if 0 not in ds:
                    us.add(0)
        live = [set(use[i]) for i in range(n)]
        changed = True
        while changed:
            changed = False
            for i in reversed(f.order):
                out = set()
                for v in succ[i]:
                    out |= live[v]
                t = f.blocks[i][1]
                kill = df[i]
                if t[0] == "call" and not t[3][1]:
                    out = out - {t[3][0]}
                new = use[i] | (out - kill)
                if new != live[i]:
                    live[i] = new
                    changed = True
        f.livein = [frozenset(x) for x in live]
        f.borrowed = frozenset(borrowed)
        f.raw = None

    # ---- helpers -------------------------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def tname(self, i, depth=0):
        t = self.types[i]
        if t[0] == "adt":
            return t[1] + ("<" + ",".join(self.tname(x) for x in t[2] if isinstance(x, int)) + ">" if t[2] else "")
        if t[0] == "ref":
            return "&" + ("mut " if t[1] else "") + self.tname(t[2])
        if t[0] in ("tuple",):
            return "(" + ",".join(self.tname(x) for x in t[1]) + ")"
        if t[0] == "slice":
            return "[" + self.tname(t[1]) + "]"
        if t[0] == "array":
            return "[" + self.tname(t[1]) + ";" + t[2] + "]"
        return t[1] if len(t) > 1 and isinstance(t[1], str) else t[0]


_impl = re.compile(r"<impl ([^<>]+|[^<>]*<[^<>]*>[^<>]*)>")


def fnkey(name, c=None):
    """canonical dispatch key of a callee: last two path segments without generics,
    `<T as Trait>::m` -> `Trait::m`, `<impl [T]>::m` -> `slice::m`, `<impl str>::m` -> `str::m`"""
    n = name
    if c is not None and c.get("trait"):
        return c["trait"].split("::")[-1].split("<")[0] + "::" + c["method"]
    n = n.replace("<impl [T]>", "slice").replace("<impl str>", "str")
    n = re.sub(r"<impl ([a-z0-9]+)>", r"\1", n)
    n = strip_generics(n)
    segs = [x for x in n.split("::") if x]
    return "::".join(segs[-2:])
