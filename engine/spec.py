"""What the types of the analysed crate mean: the text each value renders to, the shapes a piece of text can
have, and the contracts of the crate's public operations (used at call sites; every operation is verified
against its own contract by its own root)."""
import re
from core import *
from core import AB
import builtins_
import shape as shape_
from builtins_ import replace_seg, FMT

_AST = re.compile(r"^ast(\d)::(?:\w+::)*(Chunk|ChunkVariant|Command|Scope|ScopeVariant|Environment|Document|"
                  r"MathsBlock|MathsType|MathsVariant)$")
DELIM = {"Curly": "{}", "Round": "()", "Square": "[]"}
MATHS = {("Brackets", "Inline"): ("\\(", "\\)"), ("Brackets", "Outline"): ("\\[", "\\]"),
         ("Dollars", "Inline"): ("$", "$"), ("Dollars", "Outline"): ("$$", "$$")}
PARSED = "\0parsed"
ALPHA = AB.mask(PREDS["is_ascii_alphabetic"])


def solid(st, a, b):
    """is there a character outside of comments between two boundaries?"""
    for it in st.tape.items[st.tape.pos[a]:st.tape.pos[b]]:
        if it[0] == "G" or (it[0] == "T" and it[2]) or (it[0] == "B" and not it[2]):
            continue
        return True
    return False


class Spec:
    def __init__(self, prog):
        self.p = prog
        if getattr(prog, "alpha", None) is None:
            prog.alpha = prog.const_chars()
            AB.init(prog.alpha)
        self.adt = {}          # (stage, name) -> adt path
        self.info = {}         # adt path -> (stage, name)
        for n, a in prog.adts.items():
            m = _AST.match(n)
            if m and a["local"] and not a["model"]:
                self.adt[(int(m.group(1)), m.group(2))] = n
                self.info[n] = (int(m.group(1)), m.group(2))
        self.error = next((n for n in prog.adts if n.endswith("error::Error") and prog.adts[n]["local"]), None)
        self.grammar = False
        self.keep_maths = False     # stage 3 pieces may come with commands named ( ) [ ]
        self.etype = next((n for n in prog.adts if n.endswith("error::ErrorType")), None)
        self.f = {}
        for n in self.info:
            self.f[n] = self.roles(n)
        self.checks = []
        self.no_contract = set()

    # ---- roles of struct fields -------------------------------------------------------------------
    def roles(self, n):
        stage, name = self.info[n]
        a = self.p.adts[n]
        if a["kind"] != "struct":
            return None
        fs = [(f[0], self.p.tname(f[1])) for f in a["variants"][0][2]]
        r = {}

        def bytype(role, pred):
            c = [i for i, (fn, t) in enumerate(fs) if pred(t)]
            if len(c) == 1:
                r[role] = c[0]

        def byname(role, *names):
            for i, (fn, t) in enumerate(fs):
                if fn.replace("r#", "") in names:
                    r[role] = i
        V = "std::vec::Vec<"
        if name == "Chunk":
            bytype("line", lambda t: t == "u32")
            bytype("variant", lambda t: "ChunkVariant" in t)
        elif name == "Scope":
            bytype("chunks", lambda t: t.startswith(V))
            bytype("variant", lambda t: "ScopeVariant" in t)
        elif name == "Command":
            bytype("label", lambda t: t == "std::string::String")
            bytype("args", lambda t: t.startswith(V))
        elif name == "Environment":
            bytype("args", lambda t: t.startswith(V + "("))
            bytype("content", lambda t: t.startswith(V) and not t.startswith(V + "("))
            byname("label", "label")
            byname("prec_begin", "prec_begin")
            byname("prec_end", "prec_end")
        elif name == "MathsBlock":
            bytype("content", lambda t: t.startswith(V))
            bytype("variant", lambda t: "MathsVariant" in t)
            bytype("type", lambda t: "MathsType" in t)
        elif name == "Document":
            if stage < 3:
                bytype("chunks", lambda t: t.startswith(V))
            else:
                for x in ("documentclass", "documentoptions", "preamable", "body", "body_args", "body_begin_prec",
                          "body_end_prec", "trailing"):
                    byname(x, x)
        need = {"Chunk": 2, "Scope": 2, "Command": 2, "Environment": 5, "MathsBlock": 3,
                "Document": 1 if stage < 3 else 8}.get(name, 0)
        if len(r) != need or len(fs) != need:
            return None
        return r

    def field(self, v, role):
        r = self.f.get(v[1])
        if r is None:
            raise Unsupported("layout of " + v[1])
        return v[3][r[role]]

    def make(self, n, **kw):
        r = self.f.get(n)
        if r is None:
            raise Unsupported("layout of " + n)
        f = [None] * len(r)
        for k, v in kw.items():
            f[r[k]] = v
        return ("A", n, 0, tuple(f))

    def vidx(self, n, name):
        for i, v in enumerate(self.p.adts[n]["variants"]):
            if v[0] == name:
                return i
        raise Unsupported("variant %s of %s" % (name, n))

    def vname(self, v):
        return self.p.adts[v[1]]["variants"][v[2]][0]

    def svariant(self, stage, name):
        n = self.adt[(stage, "ScopeVariant")]
        return ("A", n, self.vidx(n, name), ())

    def delims(self, v):
        if type(v) is tuple and v[0] == "A":
            d = DELIM.get(self.vname(v))
            if d:
                return d
        raise Unsupported("unknown bracket kind")

    # ---- masks ----------------------------------------------------------------------------------
    def text_mask(self, stage):
        return AB.all & ~AB.of("\\%{[(" + ("$" if stage == 3 else ""))

    def label_mask(self):
        return AB.all & ~AB.ws & ~AB.of("\\%{[()]}")

    # ---- rendering ------------------------------------------------------------------------------
    def flatten(self, ip, st, v):
        a = self.flat(ip, st, v)
        return None if a is None else ("S", st.norm(a))

    def flat(self, ip, st, v):
        v = ip.full(st, v)
        if type(v) is not tuple:
            return None
        t = v[0]
        if t == "S":
            return v[1]
        if t == "Q":
            return v[2][1]
        if t == "W":
            return (("r", v[2], v[3]),) if v[2] != v[3] else ()
        if t == "V":
            out = ()
            for s in v[1]:
                if s[0] == "e":
                    x = self.flat(ip, st, s[1])
                    if x is None:
                        return None
                    out += x
                elif s[0] == "w":
                    out += s[2][1]
                elif s[0] == "m":
                    pass
                else:
                    return None
            return out
        if t == "T":
            out = ()
            for x in v[1]:
                y = self.flat(ip, st, x)
                if y is None:
                    return None
                out += y
            return out
        if t == "?":
            raise Unsupported("text of unknown value (%s)" % (v[1],))
        if t != "A" or v[1] not in self.info:
            return None
        stage, name = self.info[v[1]]

        def g(role):
            x = self.flat(ip, st, self.field(v, role))
            if x is None:
                raise Unsupported("text of " + role)
            return x
        if name == "ChunkVariant":
            return self.flat(ip, st, v[3][0])
        if name == "Chunk":
            return g("variant")
        if name == "Scope":
            d = self.delims(ip.full(st, self.field(v, "variant")))
            return (d[0],) + g("chunks") + (d[1],)
        if name == "Command":
            return ("\\",) + g("label") + g("args")
        if name == "Environment":
            return ("\\begin",) + g("prec_begin") + ("{",) + g("label") + ("}",) + g("args") + g("content") + \
                ("\\end",) + g("prec_end") + ("{",) + g("label") + ("}",)
        if name == "MathsBlock":
            mv, mt = ip.full(st, self.field(v, "variant")), ip.full(st, self.field(v, "type"))
            if mv[0] != "A" or mt[0] != "A":
                raise Unsupported("unknown maths kind")
            o, c = MATHS[(self.vname(mv), self.vname(mt))]
            return (o,) + g("content") + (c,)
        if name == "Document":
            if stage < 3:
                return g("chunks")
            return g("preamable") + ("\\begin",) + g("body_begin_prec") + ("{document}",) + g("body_args") + \
                g("body") + ("\\end",) + g("body_end_prec") + ("{document}",) + g("trailing")
        return None

    # ---- shapes of text ----------------------------------------------------------------------------
    def single_blob(self, st, b1, b2):
        i, j = st.tape.pos[b1], st.tape.pos[b2]
        if j == i + 1 and st.tape.items[i][0] == "B":
            return i
        if j == i:
            return None
        import canon
        canon.tidy_range(st, b1, b2)
        i, j = st.tape.pos[b1], st.tape.pos[b2]
        if j == i + 1 and st.tape.items[i][0] == "B":
            return i
        if st.mon is not None and st.mon[5]:
            # pieces of the grammar that were not met in a result yet are given up
            pos = st.tape.pos
            ps = tuple(p for p in st.mon[5] if not any(type(b) is Bd and i < pos[b] < j for b in p))
            if ps != st.mon[5]:
                st.mon = st.mon[:5] + (ps,)
                return self.single_blob(st, b1, b2)
        raise Unsupported("structured text in a summarised run: " + st.show_atoms((("r", b1, b2),)))

    def layout(self, s, i, pieces):
        """blob i becomes the pieces; ('T',mask) | ('L',text) | ('B',mask,ne,tie,facts).
        Returns the boundaries around the pieces."""
        it = s.tape.items[i]
        mask0, n = it[1], it[3]
        s.drop_vid(it[4], i)
        ties = {}
        order = []
        for k, p in enumerate(pieces):
            if p[0] == "T" and p[1] == AB.nl:
                n = s.dec_n(n)
            if p[0] == "B" and p[1] & mask0 & AB.nl:
                key = p[3] if p[3] is not None else ("solo", k)
                if key not in ties:
                    ties[key] = 0
                    order.append(key)
                ties[key] += 1
        if order:
            rs = dict(zip(order, s.split_multi(n, [ties[k] for k in order])))
        else:
            rs = {}
            if n != 0:
                s.assume_eq0(n)
        vids = {}
        items = []
        for k, p in enumerate(pieces):
            if p[0] == "T":
                m = p[1] & mask0
                if not m:
                    raise Infeasible()
                items.append(("T", m, 0))
            elif p[0] == "L":
                if any(not AB.bit[c] & mask0 for c in p[1]):
                    raise Infeasible()
                items.append(("L", p[1]))
            else:
                m = p[1] & mask0
                vid = None
                if p[3] is not None:
                    vid = vids.get(p[3])
                    if vid is None:
                        vid = vids[p[3]] = int(s.newb())
                if not m and p[2]:
                    raise Infeasible()
                key = p[3] if p[3] is not None else ("solo", k)
                items.append(("B", m, p[2], rs.get(key, 0), vid, frozenset(p[4])))
        b1 = s.tape.bids[i]
        b2 = s.tape.bids[i + 1]
        inner = tuple(s.newb() for _ in range(len(items) - 1))
        s.tape = s.tape.replace(i, i + 1, tuple(items), inner)
        return (b1,) + inner + (b2,)

    def run(self, kind, b1, b2, L):
        return ("V", (("w", kind, ("S", (("r", b1, b2),)), L),))

    def materialise(self, ip, st, w):
        """decide the shape of a chunk variant given by its text"""
        _, n, b1, b2 = w
        stage, _ = self.info[n]
        i = self.single_blob(st, b1, b2)
        if i is None:
            raise Infeasible()
        ck, ak = "c%d" % stage, "a%d" % stage
        A = self.adt
        alts = []

        less, names = 0, ()
        for x, y, m, ls, _ in st.ghost.get("regions", ()):
            if st.tape.pos[x] <= st.tape.pos[b1] and st.tape.pos[b2] <= st.tape.pos[y]:
                less |= m
                names += ls

        def put(vname, pieces, mk, pre=None):
            try:
                idx = self.vidx(n, vname)
            except Unsupported:
                return

            def f(s):
                q = s.tape.pos[b1]
                bs = self.layout(s, q, pieces)
                if pre:
                    pre(s, bs)
                s.replace_value(w, ("A", n, idx, (mk(bs),)))
            alts.append(f)

        def S(x, y):
            return ("S", (("r", x, y),))
        ws = AB.ws
        put("Text", [("B", self.text_mask(stage) & ~less, True, None, ())], lambda b: S(b[0], b[1]))
        facts = (("begin", "end") if stage > 1 else ()) + tuple(x for x in names if len(x) > 1)
        T = lambda c: ("T", AB.bit[c])
        put("Command", [T("\\"), ("B", self.label_mask(), True, None, facts), ("B", AB.all, False, None, ())],
            lambda b: self.make(A[(stage, "Command")], label=S(b[1], b[2]), args=self.run(ak, b[2], b[3], None)))
        nonalpha = AB.all & ~AB.mask(PREDS["is_ascii_alphabetic"])
        nonalpha &= ~AB.of("".join(x for x in names if len(x) == 1))
        for m in (nonalpha & ~AB.nl, AB.nl):
            put("Command", [T("\\"), ("T", m)],
                lambda b: self.make(A[(stage, "Command")], label=S(b[1], b[2]), args=("V", ())))
        put("Command", [T("\\")], lambda b: self.make(A[(stage, "Command")], label=S(b[1], b[1]), args=("V", ())))
        for vn, (o, c) in DELIM.items():
            put("Scope", [T(o), ("B", AB.all, False, None, ()), T(c)],
                lambda b, vn=vn: self.make(A[(stage, "Scope")], chunks=self.run(ck, b[1], b[2], 1),
                                           variant=self.svariant(stage, vn)))
        if stage >= 2:
            lf = (PARSED,)
            nd = st.ghost.get("nodoc")
            if nd is not None and nd in st.tape.pos and st.tape.pos[b2] <= st.tape.pos[nd]:
                lf += ("document",)
            put("Environment",
                [("L", "\\begin"), ("B", ws, False, None, ()), T("{"), ("B", AB.all, False, "label", lf), T("}"),
                 ("B", AB.all, False, None, ()), ("B", AB.all, False, None, ()), ("L", "\\end"),
                 ("B", ws, False, None, ()), T("{"), ("B", AB.all, False, "label", lf), T("}")],
                lambda b: self.make(A[(stage, "Environment")], prec_begin=S(b[1], b[2]), label=S(b[3], b[4]),
                                    args=self.run(ak, b[5], b[6], None), content=self.run(ck, b[6], b[7], 1),
                                    prec_end=S(b[8], b[9])))
        if stage == 3:
            put("ParagraphBreak", [("B", ws, True, None, ())], lambda b: S(b[0], b[1]),
                lambda s, b: s.assume_ge0(sub(s.N(b[0], b[1]), 2)))
            mvn, mtn = A[(3, "MathsVariant")], A[(3, "MathsType")]
            for (mv, mt), (o, c) in MATHS.items():
                pc = [T(x) for x in o] + [("B", AB.all, False, None, ())] + [T(x) for x in c]
                put("MathsBlock", pc,
                    lambda b, mv=mv, mt=mt, k=len(o): self.make(
                        A[(3, "MathsBlock")], variant=("A", mvn, self.vidx(mvn, mv), ()),
                        type=("A", mtn, self.vidx(mtn, mt), ()), content=self.run("c3", b[k], b[k + 1], 1)))
        st.fork(alts)

    def expand(self, ip, st, seg, back=False):
        """first (last) element of a summarised run"""
        k = seg[0]
        S = seg[2]
        if len(S[1]) == 0:
            replace_seg(st, seg, ())
            raise Fork([st])
        if len(S[1]) != 1 or S[1][0][0] != "r":
            # a run over several texts (only converted values have one): one run per text
            L = seg[3] if k == "w" else None
            new = []
            for a in S[1]:
                if type(a) is str:
                    x = st.append_str([("L", a)])
                elif a[0] == "r":
                    x = ("S", (a,))
                else:
                    raise Unsupported("run over unknown text")
                n = st.NS(x[1])
                new.append((k, seg[1], x, L) if k == "w" else (k, seg[1], x))
                L = add(L, n) if L is not None else None
            replace_seg(st, seg, tuple(new))
            raise Fork([st])
        _, b1, b2 = S[1][0]
        i = st.tape.pos[b1]
        if k == "w" and seg[1][0] == "c" and st.tape.pos[b2] == i + 1 and st.tape.items[i][0] == "L":
            stage = int(seg[1][1])
            e = self.make(self.adt[(stage, "Chunk")], line=seg[3] if seg[3] is not None else unk("inconsistent line"),
                          variant=("W", self.adt[(stage, "ChunkVariant")], b1, b2))
            replace_seg(st, seg, (("e", e),))
            raise Fork([st])
        if k == "w" and seg[1][0] == "a" and st.tape.pos[b2] == i + 1 and st.tape.items[i][0] == "L":
            text = st.tape.items[i][1]
            vn = next((v for v, d in DELIM.items() if text[:1] == d[0] and text[-1:] == d[1]), None)
            if vn is not None and len(text) > 2 and not set(text[1:-1]) & set("\\%{}[]()"):
                stage = int(seg[1][1])
                its = [("T", AB.bit[text[0]], 0), ("L", text[1:-1]), ("T", AB.bit[text[-1]], 0)]
                x, y = st.newb(), st.newb()
                st.tape = st.tape.replace(i, i + 1, tuple(its), (x, y))
                sc = self.make(self.adt[(stage, "Scope")], chunks=self.run("c%d" % stage, x, y, 1),
                               variant=self.svariant(stage, vn))
                replace_seg(st, seg, (("e", ("T", (EMPTY, sc))),))
                raise Fork([st])
        i = self.single_blob(st, b1, b2)
        if i is None:
            replace_seg(st, seg, ())
            raise Fork([st])
        it = st.tape.items[i]
        if "form" in st.ghost and it[4] is not None and sum(x[0] == "B" and x[4] == it[4] for x in st.tape.items) > 1:
            st.ghost["loose"] = True        # the same text elsewhere may be taken apart in another way
        alts = []
        if not it[2]:
            def empty(s):
                replace_seg(s, seg, ())
                s.make_empty(s.tape.pos[b1])
            alts.append(empty)
        kind = seg[1]
        if k == "w" and kind[0] == "c":
            stage = int(kind[1])
            cn, vn = self.adt[(stage, "Chunk")], self.adt[(stage, "ChunkVariant")]

            def chunk(s):
                pcs = [("B", AB.all, True, None, ()), ("B", AB.all, False, None, ())]
                if back:
                    pcs.reverse()
                bs = self.layout(s, s.tape.pos[b1], pcs)
                # line bases may mention params that were just refined
                segs = [x for x in self.same_runs(s, kind, S)]
                for sg in segs:
                    L = sg[3]
                    L2 = add(L, s.N(bs[0], bs[1])) if L is not None else None
                    if L is None and s.ghost.get("freelines"):
                        ln = s.newp(0)
                        e = ("e", self.make(cn, line=ln, variant=("W", vn, bs[0], bs[1]) if not back else ("W", vn, bs[1], bs[2])))
                        new = ((e, ("w", kind, ("S", (("r", bs[1], bs[2]),)), None)) if not back else
                               (("w", kind, ("S", (("r", bs[0], bs[1]),)), None), e))
                        import api
                        api.look(s, ln, *((bs[0], bs[1]) if not back else (bs[1], bs[2])))
                    elif not back:
                        ln = L if L is not None else unk("inconsistent line")
                        e = ("e", self.make(cn, line=ln, variant=("W", vn, bs[0], bs[1])))
                        new = (e, ("w", kind, ("S", (("r", bs[1], bs[2]),)), L2))
                    else:
                        ln = L2 if L2 is not None else unk("inconsistent line")
                        e = ("e", self.make(cn, line=ln, variant=("W", vn, bs[1], bs[2])))
                        new = (("w", kind, ("S", (("r", bs[0], bs[1]),)), L), e)
                    replace_seg(s, sg, new)
                r = s.ghost.get("root")
                if r is not None and (b2 == r[1] or any(b2 == x[1] for x in s.ghost.get("regions", ()))) and not back:
                    s.ghost["cur"] = bs[0]
            alts.append(chunk)
        elif k == "w" and kind[0] == "a":
            stage = int(kind[1])
            for vn, (o, c) in DELIM.items():
                def arg(s, vn=vn, o=o, c=c):
                    pcs = [("B", AB.ws, False, None, ()), ("T", AB.bit[o]), ("B", AB.all, False, None, ()), ("T", AB.bit[c]),
                           ("B", AB.all, False, None, ())]
                    if back:
                        pcs = [pcs[4]] + pcs[:4]
                    bs = self.layout(s, s.tape.pos[b1], pcs)
                    k0 = 1 if back else 0
                    sc = self.make(self.adt[(stage, "Scope")], chunks=self.run("c%d" % stage, bs[k0 + 2], bs[k0 + 3], 1),
                                   variant=self.svariant(stage, vn))
                    e = ("e", ("T", (("S", (("r", bs[k0], bs[k0 + 1]),)), sc)))
                    if back:
                        new = (("w", kind, ("S", (("r", bs[0], bs[1]),)), None), e)
                    else:
                        new = (e, ("w", kind, ("S", (("r", bs[4], bs[5]),)), None))
                    for sg in self.same_runs(s, kind, S):
                        replace_seg(s, sg, new)
                    r = s.ghost.get("root")
                    if r is not None and b2 == r[1] and not back:
                        s.ghost["cur"] = bs[0]
                alts.append(arg)
        elif k == "c":
            # chain of (preceding text, bracket kind, content) collections that are not syntax tree nodes
            stage, tmpl = kind
            for vn, (o, c) in DELIM.items():
                def link(s, vn=vn, o=o, c=c):
                    pcs = [("B", AB.ws, False, None, ()), ("T", AB.bit[o]), ("B", AB.all, False, None, ()), ("T", AB.bit[c]),
                           ("B", AB.all, False, None, ())]
                    if back:
                        pcs = [pcs[4]] + pcs[:4]
                    bs = self.layout(s, s.tape.pos[b1], pcs)
                    k0 = 1 if back else 0
                    fill = {"prec": ("S", (("r", bs[k0], bs[k0 + 1]),)), "content": ("S", (("r", bs[k0 + 2], bs[k0 + 3]),)),
                            "variant": self.svariant(stage, vn)}
                    e = ("e", self.fill(tmpl, fill))
                    if back:
                        new = (("c", kind, ("S", (("r", bs[0], bs[1]),))), e)
                    else:
                        new = (e, ("c", kind, ("S", (("r", bs[4], bs[5]),))))
                    for sg in self.same_runs(s, kind, S):
                        replace_seg(s, sg, new)
                alts.append(link)
        else:
            raise Unsupported("run of " + repr(kind))
        st.fork(alts)

    def fill(self, t, m):
        if type(t) is tuple and t and t[0] == "hole":
            return m[t[1]]
        if type(t) is tuple:
            return tuple(self.fill(x, m) for x in t)
        return t

    def same_runs(self, s, kind, S):
        out = []

        def f(v):
            if type(v) is tuple and len(v) >= 3 and v[0] in ("w", "c") and v[1] == kind and v[2] == S and v not in out:
                out.append(v)
        for v in s.mem.values():
            if type(v) is tuple:
                walk(v, f)
        for v in s.ghost.values():
            if type(v) is tuple:
                walk(v, f)
        return out

    # ---- equality ----------------------------------------------------------------------------------
    def ast_eq(self, ip, st, a, b):
        if a[1] in self.info and self.info[a[1]][1] in ("Chunk", "Scope", "Command", "Environment", "MathsBlock", "Document"):
            x, y = self.flatten(ip, st, a), self.flatten(ip, st, b)
            return ip.bi.eq_str(st, x, y)
        return None

    def vec_eq(self, ip, st, a, b):
        ea = [s for s in a[1] if s[0] != "m"]
        eb = [s for s in b[1] if s[0] != "m"]
        if any(s[0] == "w" for s in ea + eb):
            if all(s[0] in ("w", "e") for s in ea + eb):
                x, y = self.flat(ip, st, a), self.flat(ip, st, b)
                if x is not None and y is not None:
                    return ip.bi.eq_str(st, ("S", x), ("S", y))
        if all(s[0] == "e" for s in ea + eb):
            if len(ea) != len(eb):
                return False
            return all(ip.bi.veq(st, x[1], y[1]) for x, y in zip(ea, eb))
        raise Unsupported("equality of summarised collections")

    # ---- monitors -----------------------------------------------------------------------------------
    # root input of stage 1, read along the grammar:
    # ("m1", start of the pending backslash, in comment, start of the last character read, mode, pieces not yet seen in a result)
    #   modes: ("mT", start)  text           ("mS", kind, depth, start)  scope
    #          ("mL", start, label start)    label of a command
    #          ("mW", start, label start, label end, end, any)       whitespace after a command (any: it has arguments)
    #          ("mA", start, label start, label end, kind, depth, start of the argument)   argument
    #          ("mE", start, label start, label end, end)       after an argument
    #          ("mX", error, kind)           no document
    #          ("mO",)                       the grammar is not looked at
    #   pieces: ("tT", from, to) ("tS", kind, from, to) ("tC", from, label from, label to, to) ("tA", kind, from, to)
    MAXP = 4

    def mon_start(self, b):
        return ("m1", False, False, b, ("mT", b) if self.grammar else ("mO",), ())

    def mon_classes(self, st):
        """(class of the next character, what it does to the depth)"""
        m = st.mon
        nl = AB.nl
        if m is None:
            return [(nl, 0), (AB.all & ~nl, 0)]
        bs, pc = AB.of("\\"), AB.of("%")
        mode = m[4]
        if m[2]:
            return [(nl, 0), (AB.all & ~nl, 0)]
        if mode[0] in ("mX", "mO"):
            cl = [(nl, 0), (AB.all & ~nl, 0)] if m[1] is not False else [(nl, 0), (bs, 0), (pc, 0), (AB.all & ~(nl | bs | pc), 0)]
        elif m[1] is not False:
            cl = [(nl, 0), (AB.all & ~nl, 0)]
            if mode[0] not in ("mS", "mA"):
                cl = [(nl, 0), (ALPHA, 0), (AB.all & ~nl & ~ALPHA, 0)]
        else:
            cl = [(nl, 0), (bs, 0), (pc, 0)]
            rest = AB.all & ~(nl | bs | pc)
            if mode[0] in ("mS", "mA"):
                o, c = mode[1] if mode[0] == "mS" else mode[4]
                cl += [(AB.of(o), 1), (AB.of(c), -1), (AB.of(c), -2)]
                rest &= ~AB.of(o + c)
            else:
                for o, c in DELIM.values():
                    cl.append((AB.of(o), 0))
                    rest &= ~AB.of(o)
                if mode[0] != "mT":
                    for o, c in DELIM.values():
                        cl.append((AB.of(c), 0))
                        rest &= ~AB.of(c)
                    cl.append((AB.ws & ~nl, 0))
                    rest &= ~AB.ws
            cl.append((rest, 0))
        return cl

    def mon_ghost(self, m, mask):
        """is the character part of a comment?"""
        return 1 if m is not None and ((m[2] and mask != AB.nl) or (not m[2] and m[1] is False and mask == AB.of("%"))) else 0

    def mon_step(self, s, m, mask, what, b, e):
        """the character between boundaries b and e was read"""
        if m is None:
            return None
        _, esc, com, pos, mode, ps = m
        if com and mask != AB.nl:
            return ("m1", False, True, b, mode, ps)
        if not com and esc is False:
            if mask == AB.of("%"):
                return ("m1", False, True, b, mode, ps)
            if mask == AB.of("\\"):
                return ("m1", b, False, b, mode, ps)
        if com:
            esc = False
        ps = list(ps)
        k = mode[0]
        one = AB.single(mask)
        if k in ("mS", "mA"):
            d = 2 if k == "mS" else 5
            if what == 1:
                mode = mode[:d] + (add(mode[d], 1),) + mode[d + 1:]
            elif what == -2:
                s.assume_ge0(sub(mode[d], 2))
                mode = mode[:d] + (sub(mode[d], 1),) + mode[d + 1:]
            elif what == -1:
                s.assume_eq0(sub(mode[d], 1))
                if k == "mS":
                    ps.append(("tS", mode[1], mode[3], e))
                    mode = ("mT", e)
                else:
                    ps.append(("tA", mode[4], mode[6], e))
                    mode = ("mE",) + mode[1:4] + (e,)
        elif k in ("mX", "mO"):
            pass
        elif esc is not False:
            self.mon_done(s, mode, esc, ps)
            if mask == ALPHA:
                mode = ("mL", esc, b)
            else:
                ps.append(("tC", esc, b, e, e))
                mode = ("mT", e)
        else:
            opening = next((d for d in DELIM.values() if d[0] == one), None)
            closing = next((d for d in DELIM.values() if d[1] == one), None)
            if opening:
                if k == "mT":
                    self.mon_done(s, mode, b, ps)
                    mode = ("mS", opening, 1, b)
                elif k == "mL":
                    mode = ("mA", mode[1], mode[2], b, opening, 1, b)
                elif k == "mW":
                    mode = ("mA",) + mode[1:4] + (opening, 1, mode[4])
                else:
                    mode = ("mA",) + mode[1:4] + (opening, 1, mode[4])
            elif k == "mT":
                pass
            elif mask & ~AB.ws == 0:
                if k == "mL":
                    mode = ("mW", mode[1], mode[2], b, b)
                elif k == "mE":
                    mode = ("mW",) + mode[1:]
            elif k == "mW":
                ps.append(("tC",) + mode[1:])
                mode = ("mT", mode[4])
            elif closing:
                mode = ("mX", "UnexpectedClosing", closing)
                ps = []
            elif k == "mE":
                ps.append(("tC",) + mode[1:])
                mode = ("mT", mode[4])
        return ("m1", False, False, b, mode, self.mon_pieces(ps))

    def mon_pieces(self, ps):
        """the latest pieces; older ones can no longer be compared"""
        return tuple(ps[-self.MAXP:])

    def mon_done(self, s, mode, b, ps):
        """what was being read ends at b"""
        if mode[0] == "mT":
            if solid(s, mode[1], b):
                ps.append(("tT", mode[1], b))
        elif mode[0] == "mL":
            ps.append(("tC", mode[1], mode[2], b, b))
        elif mode[0] == "mE":
            ps.append(("tC",) + mode[1:])
        elif mode[0] == "mW":
            ps.append(("tC",) + mode[1:])
            if solid(s, mode[4], b):
                ps.append(("tT", mode[4], b))

    def mon_end(self, s, m, e):
        if m is None:
            return None
        _, esc, com, pos, mode, ps = m
        ps = list(ps)
        if mode[0] == "mS":
            mode = ("mX", "UnclosedScope", mode[1])
            ps = []
        elif mode[0] == "mA":
            mode = ("mX", "UnclosedArgument", mode[4])
            ps = []
        elif mode[0] not in ("mX", "mO"):
            self.mon_done(s, mode, esc if esc is not False else e, ps)
            if esc is not False:
                b = s.tape.bids[s.tape.pos[esc] + 1] if s.tape.pos[esc] < s.tape.pos[e] else e
                ps.append(("tC", esc, b, b, b))
            mode = ("mZ",)
        return ("m1", False, False, None, mode, self.mon_pieces(ps))

    # ---- errors ---------------------------------------------------------------------------------------
    def note_error(self, ip, st, v):
        r = st.ghost.get("root")
        if r is None:
            return v
        ty = v[3][-1]
        name = "?"
        for x in v[3]:
            if type(x) is tuple and x[0] == "A" and x[1] == self.etype:
                name = self.p.adts[self.etype]["variants"][x[2]][0]
        if name == "?" and "E" in st.ghost:
            return v        # made of an error that was noted before
        where = None
        if name.startswith("Unclosed"):
            where = self.flushed_end(ip, st, r)
        elif st.mon is not None:
            where = st.mon[3]
        else:
            where = st.ghost.get("cur")
        st.ghost["E"] = ("at", where, name)
        import shape
        shape.error(ip, self, st, name, v, where)
        return v

    def flushed_end(self, ip, st, r):
        best, bp = r[0], st.tape.pos.get(r[0])
        for v in st.mem.values():
            if type(v) is tuple and v[0] == "V" and v[1]:
                k = None
                for s in v[1]:
                    if s[0] == "w" and s[1][0] == "c":
                        k = True
                    elif s[0] == "e" and type(s[1]) is tuple and s[1][0] == "A" and s[1][1] in self.info \
                            and self.info[s[1][1]][1] == "Chunk":
                        k = True
                    else:
                        k = None
                        break
                if not k:
                    continue
                try:
                    S = self.flatten(ip, st, v)
                except Unsupported:
                    continue
                if S is None or not S[1]:
                    continue
                a = S[1][0]
                # only collections built from the start of the input
                if a[0] == "r" and st.tape.pos[a[1]] == st.tape.pos[r[0]]:
                    if len(S[1]) != 1:
                        return None
                    if a[2] == r[1]:
                        continue
                    if st.tape.pos[a[2]] > bp:
                        best, bp = a[2], st.tape.pos[a[2]]
        return best

    # ---- contracts ------------------------------------------------------------------------------------
    def contract(self, ip, st, fn, args, t):
        if fn.model or fn.kind not in ("fn", "Fn", "AssocFn", "method", None) and False:
            return NotImplemented
        if fn.name in self.no_contract:
            return NotImplemented
        tr = fn.trait.split("::")[-1].split("<")[0] if fn.trait else None
        m = fn.method
        sn = None
        if fn.self_t is not None:
            ty = self.p.types[fn.self_t]
            sn = ty[1] if ty[0] == "adt" else None
        if sn not in self.info:
            return self.contract_free(ip, st, fn, args, t, sn)
        stage, name = self.info[sn]
        if name in ("ScopeVariant", "MathsType", "MathsVariant"):
            return NotImplemented
        self.smaller(ip, st, fn, args)
        if tr == "Display" and m == "fmt":
            s = ip.bi.display(st, args[0])
            r, v = ip.lastref(st, args[1])
            if type(v) is tuple and v[0] == "A" and v[1] == FMT:
                ip.wr(st, r, ("A", FMT, 0, (st.concat(v[3][0], s),)))
                return ok(UNIT)
            raise Unsupported("Display sink")
        if tr == "Lines" and m == "lines":
            s = self.flatten(ip, st, args[0])
            return add(st.NS(s[1]), 1)
        if tr == "Validate" and m == "validate" and "vald" in st.ghost:
            import api
            return api.c_validate(self, ip, st, args[0])
        if tr == "Validate" and m == "validate":
            return self.c_validate(ip, st, args[0])
        if tr == "FromStr" and m == "from_str":
            S = ip.bi.str_of(st, args[0])
            S = ("S", st.norm(S[1]))
            facts = self.facts(st, S)
            if stage == 1:
                val = self.make(sn, chunks=("V", (("w", "c1", S, 1),) if S[1] else ()))
            elif stage == 2:
                val = self.make(sn, chunks=("V", (("w", "c2", S, 1),) if S[1] else ()))
            else:
                val = ("Q", sn, S)
            return self.result(ip, st, fn, val, S, 1, PARSED in facts and stage == 1)
        if tr in ("TryFrom", "From") and m in ("try_from", "from"):
            v = ip.full(st, args[0])
            return self.translate_call(ip, st, fn, v, stage)
        if m in ("into_chunks",) or (m == "to_ast1_scope") or m == "from_chunks":
            v = ip.full(st, args[0])
            return self.translate_call(ip, st, fn, v, stage)
        return NotImplemented

    def smaller(self, ip, st, fn, args):
        """the analysed function may call itself on smaller values only"""
        if ip.root_fn is None or not args:
            return
        v = ip.full(st, args[0])
        own = fn is ip.root_fn
        if "self" in st.ghost:
            w = ip.full(st, st.ghost["self"])
            if not own:
                self.edge(ip, st, fn.name, v, w)
                return
            if v != w:
                ip.recursions += 1
                return
        elif "root" in st.ghost:
            if fn.method == "from_str":
                S = ip.bi.str_of(st, v)
            else:
                def whole(x):
                    if type(x) is not tuple or not x:
                        return True
                    if x[0] == "V":
                        return all(s[0] == "w" or s[0] == "e" and whole(ip.full(st, s[1])) for s in x[1])
                    if x[0] == "A":
                        return all(whole(ip.full(st, y)) for y in x[3])
                    return True
                S = self.flatten(ip, st, v) if whole(v) else None
            if S is None:
                return
            want = st.norm((("r",) + tuple(st.ghost["root"]),))
            got = st.norm(S[1])
            if got != want and shape_.same_text(st, got, want):
                got = want
            if not own and len(got) == 1 and len(want) == 1 and type(got[0]) is tuple and got != want:
                # part of it, but maybe there is nothing else
                pos, it = st.tape.pos, st.tape.items
                r0, r1, a, b = pos[want[0][1]], pos[want[0][2]], pos[got[0][1]], pos[got[0][2]]
                if r0 <= a < b <= r1 and all(x[0] in ("IN", "G") or x[0] == "B" and not x[1 + 1] for x in it[r0:a] + it[b:r1]):
                    got = want
            if got != want or not (fn.method == "from_str" or any(solid(st, a[1], a[2]) for a in want)):
                ip.recursions += own
                return
            if not own:
                c = self.core(ip, st, v)
                ip.edges.add((ip.root_fn.name, fn.name, c[1] if c[0] == "A" else "list" if c[0] == "V" else "text"))
                return
        else:
            return
        from interp import Panic
        raise Panic("endless: %s calls itself on the value it was given" % fn.name)

    def edge(self, ip, st, to, v, w):
        """note that an operation calls another one on the value it was given itself, wrapped differently at most"""
        import canon
        c = self.core(ip, st, w)
        if c == self.core(ip, st, v) and not canon.has_unk(c):
            f = ip.root_fn
            ip.edges.add(("fmt " + self.p.types[f.self_t][1] if f.method == "fmt" else f.name, to, c[1] if c[0] == "A" else "list" if c[0] == "V" else "text"))

    def core(self, ip, st, v):
        """what is in a document, list, chunk or variant that holds a single thing"""
        for _ in range(12):
            v = ip.full(st, v)
            if type(v) is not tuple or not v:
                return ("?", "")
            if v[0] == "A" and v[1] in self.info and self.info[v[1]][1] in ("Document", "Chunk", "ChunkVariant") and v[3]:
                v = v[3][-1] if self.info[v[1]][1] != "Document" else v[3][0]
            elif v[0] == "V" and len(v[1]) == 1 and v[1][0][0] == "e":
                v = v[1][0][1]
            else:
                return v
        return ("?", "")

    def facts(self, st, S):
        if len(S[1]) == 1 and S[1][0][0] == "r":
            i, j = st.tape.pos[S[1][0][1]], st.tape.pos[S[1][0][2]]
            if j == i + 1:
                it = st.tape.items[i]
                if it[0] == "B":
                    return it[5]
                if it[0] == "L" and not set(it[1]) & set("\\%{[("):
                    return frozenset((PARSED,))
        if len(S[1]) == 0:
            return frozenset((PARSED,))
        if len(S[1]) == 1 and type(S[1][0]) is str and not set(S[1][0]) & set("\\%{[("):
            return frozenset((PARSED,))
        return frozenset()

    def contract_free(self, ip, st, fn, args, t, sn):
        if fn.method == "from_chunks" and sn is not None and len(args) == 1:
            self.smaller(ip, st, fn, args)
            v = ip.full(st, args[0])
            if type(v) is tuple and v[0] == "V":
                return self.translate_call(ip, st, fn, v, 3)
        return NotImplemented

    def c_validate(self, ip, st, a):
        v = ip.full(st, a)
        if type(v) is tuple and v[0] == "Q":
            return ok(UNIT) if v[3] else err(unk("invalid"))
        bad = [False]

        def f(x):
            if type(x) is tuple and x and x[0] == "Q" and len(x) > 3 and not x[3]:
                bad[0] = True
        if type(v) is tuple:
            walk(v, f)
        if bad[0]:
            return err(unk("invalid"))
        if st.ghost.get("allvalid"):
            return ok(UNIT)
        return ok(UNIT) if ip.bi.choose(st, ("valid", a)) else err(unk("invalid"))

    # result type of a conversion: T, Result<T, Error>, Vec<Chunk>, Result<Vec<Chunk>, Error>
    def result(self, ip, st, fn, val, S, base, okonly=False):
        ty = self.p.types[fn.output]
        if ty[0] == "adt" and ty[1] == RES:
            k = ("res", fn.name, S)
            if okonly or not S[1] or ip.bi.choose(st, k):
                return ok(val)
            kk = st.newp()
            line = add(base, kk) if base is not None else unk("line")
            st.ghost["E"] = ("et", self.start_of(st, S), kk)
            # the error is positioned inside the converted text
            et = ("?", "error type")
            return err(self.mk_error(line, et))
        return val

    def mk_error(self, line, et):
        a = self.p.adts[self.error]
        f = []
        for x in a["variants"][0][2]:
            f.append(line if self.p.tname(x[1]) == "u32" else et)
        return ("A", self.error, 0, tuple(f))

    def err_line(self, e):
        a = self.p.adts[self.error]
        for i, x in enumerate(a["variants"][0][2]):
            if self.p.tname(x[1]) == "u32":
                return e[3][i]
        raise Unsupported("error line")

    def start_of(self, st, S):
        if S[1] and S[1][0][0] == "r":
            return S[1][0][1]
        return None

    def dst_stage(self, fn):
        """stage of the converted value"""
        ty = self.p.types[fn.output]
        if ty[0] == "adt" and ty[1] == RES:
            ty = self.p.types[ty[2][0]]
        if ty[0] == "adt" and ty[1] == "std::vec::Vec":
            el = self.p.types[ty[2][0]]
            if el[0] == "adt" and el[1] in self.info:
                return self.info[el[1]][0], "Vec"
            return None, None
        if ty[0] == "adt" and ty[1] in self.info:
            return self.info[ty[1]]
        return None, None

    def translate_call(self, ip, st, fn, v, stage):
        import canon
        ds, dn = self.dst_stage(fn)
        if ds is None:
            return NotImplemented
        S = self.flatten(ip, st, v)
        if S is None:
            return NotImplemented
        if dn == "Vec":
            base = self.base_of(ip, st, v)
            val = ("V", (("w", "c%d" % ds, S, base),) if S[1] else ())
            # a conversion keeps the line numbers of its input
            return self.result(ip, st, fn, val, S, base if v[0] == "V" else 1)
        if type(v) is not tuple or v[0] not in ("A",) or v[1] not in self.info:
            return NotImplemented
        ss, sn = self.info[v[1]]
        n = self.adt.get((ds, dn))

        def chunks(x):
            y = self.flatten(ip, st, x)
            b = self.base_of(ip, st, ip.full(st, x))
            return ("V", (("w", "c%d" % ds, y, b),) if y[1] else ())

        def args(x):
            y = self.flatten(ip, st, x)
            return ("V", (("w", "a%d" % ds, y, None),) if y[1] else ())

        def variant(x):
            x = ip.full(st, x)
            if x[0] != "A":
                raise Unsupported("unknown bracket kind")
            return self.svariant(ds, self.vname(x))
        base = 1
        if sn != dn:
            return NotImplemented
        if sn == "Document" and ss < 3 and ds < 3:
            val = self.make(n, chunks=chunks(self.field(v, "chunks")))
            base = self.base_of(ip, st, ip.full(st, self.field(v, "chunks")))
        elif sn == "Scope":
            val = self.make(n, chunks=chunks(self.field(v, "chunks")), variant=variant(self.field(v, "variant")))
        elif sn == "Command":
            val = self.make(n, label=self.field(v, "label"), args=args(self.field(v, "args")))
            a = ip.full(st, self.field(v, "args"))
            if a[0] == "V" and not a[1]:
                return self.result(ip, st, fn, val, S, base, True)
        elif sn == "Environment":
            val = self.make(n, label=self.field(v, "label"), args=args(self.field(v, "args")),
                            content=chunks(self.field(v, "content")), prec_begin=self.field(v, "prec_begin"),
                            prec_end=self.field(v, "prec_end"))
        elif sn == "Document" and ds == 3:
            val = ("Q", n, S)
        elif sn == "Document" and ss == 3:
            val = self.make(n, chunks=("V", (("w", "c%d" % ds, S, 1),)))
        else:
            return NotImplemented
        return self.result(ip, st, fn, val, S, base)

    def base_of(self, ip, st, v):
        """line number of the first line of a collection of chunks when all its line numbers agree with its text;
        None when they do not"""
        v = ip.full(st, v)
        if v[0] == "A" and self.info.get(v[1], (0, ""))[1] == "Chunk":
            ln = self.field(v, "line")
            return ln if type(ln) in (int, Lin) else None
        if v[0] != "V":
            return 1
        exp = base = None
        for s in v[1]:
            if s[0] == "m":
                continue
            if s[0] == "w":
                L, S = s[3], s[2]
            elif s[0] == "e":
                x = ip.full(st, s[1])
                if x[0] != "A":
                    return None
                L, S = self.field(x, "line"), self.flatten(ip, st, x)
            else:
                return None
            if type(L) not in (int, Lin):
                return None
            if exp is not None and sub(L, exp) != 0:
                return None
            if base is None:
                base = L
            exp = add(L, st.NS(S[1]))
        return 1 if base is None else base
