"""Entry points of the analysis: which function, on which abstract input, against which condition."""
import time
import core
from core import *
from core import AB
from interp import Interp, key, HEAP
from spec import Spec, PARSED
import shape
from builtins_ import FMT
import canon


RESULT = HEAP + (1 << 20)


class Alarm:
    def __init__(self, kind, detail, where=None):
        self.kind = kind
        self.detail = detail
        self.where = where

    def __repr__(self):
        return "%s: %s%s" % (self.kind, self.detail, " [%s]" % self.where if self.where else "")


class Root:
    """one function analysed on one family of inputs"""

    def __init__(self, name, fn, init, check, props, own=True, stage=None):
        self.name = name
        self.fn = fn
        self.init = init          # (spec, ip, st) -> list of argument values; may build tape/ghost
        self.check = check        # (ctx, st, value) -> iterable of Alarm
        self.props = props
        self.own = own
        self.weight = 1


class Result:
    def __init__(self):
        self.alarms = []
        self.taints = {}
        self.entries = 0
        self.steps = 0
        self.done = 0
        self.stmts = 0
        self.called = set()
        self.limit = None
        self.wall = 0
        self.obligations = 0


def run_root(prog, root, deadline=None, max_entries=6000, exact=False, log=None, fresh=None, grace=20):
    """fresh: once an alarm it accepts stood for `grace` seconds, the rest of a diverging exploration is skipped"""
    t0 = time.time()
    sp = Spec(prog)
    sp.grammar = root.name.startswith("grammar/")
    sp.keep_maths = root.name.startswith("from_chunks/Paragraph")
    ip = Interp(prog, sp)
    ip.root_fn = root.fn
    res = Result()
    seen = set()
    since = [None]

    def stop(now):
        return since[0] is not None and now - since[0] > grace

    def alarm(a):
        k = (a.kind, a.detail, a.where)
        if k not in seen:
            seen.add(k)
            res.alarms.append(a)
            if fresh is not None and since[0] is None and fresh(a) and since[0] is None:
                since[0] = time.time()

    def on_done(st, v, parent):
        res.obligations += 1
        st.mem[RESULT] = v
        todo = [st]
        n = 0
        while todo:
            s = todo.pop()
            n += 1
            if n > 400:
                res.taints["comparison of results"] = res.taints.get("comparison of results", 0) + 1
                return
            try:
                for a in root.check(Ctx(ip, sp, root), s, s.mem[RESULT]):
                    alarm(a)
            except Fork as f:
                todo.extend(f.states)
            except Infeasible:
                pass
            except (Unsupported, KeyError, ValueError, IndexError, TypeError, AttributeError) as u:
                k = "%s at the result of %s" % (u if type(u) is Unsupported else repr(u)[:80], root.fn.name)
                res.taints[k] = res.taints.get(k, 0) + 1

    def on_panic(st, kind, where, parent):
        alarm(Alarm("endless" if str(kind).startswith("endless") else "panic", str(kind), fname(st)))

    def mk(fx):
        seen.clear()
        since[0] = None
        res.alarms.clear()
        st = State.new()
        st.fn = root.fn
        args = root.init(sp, ip, st)
        sts = args if isinstance(args, list) and args and isinstance(args[0], tuple) and isinstance(args[0][0], State) else [(st, args)]
        out = []
        for s, a in sts:
            s.fn = root.fn
            for i, x in enumerate(a):
                s.mem[key(0, i + 1)] = x
            out.append(s)
        return out
    try:
        fx = canon.solve(ip, sp, mk, on_done, on_panic, deadline=deadline, max_entries=max_entries, log=log, stop=stop)
        res.entries = len(fx.entries)
        res.steps = fx.steps
        res.done = fx.paths_done
        for k, n in fx.taints.items():
            res.taints[k] = res.taints.get(k, 0) + n
        res.notes = fx.cn.notes
        res.fx = fx
    except canon.Limit as l:
        res.limit = str(l)
    res.stmts = ip.stmts
    res.recursions = ip.recursions
    res.edges = sorted(ip.edges)
    res.turns = res.fx.turns if getattr(res, "fx", None) else 0
    res.called = ip.called | {root.fn.name}
    res.wall = time.time() - t0
    return res


def fname(st):
    fn = st.fn
    for f in list(reversed(st.frames)):
        if fn is not None and not fn.model:
            break
        fn = f[0]
    return fn.name if fn is not None else "?"


class Ctx:
    def __init__(self, ip, sp, root):
        self.ip = ip
        self.sp = sp
        self.root = root


# ---- building inputs -----------------------------------------------------------------------------------
class Mk:
    def __init__(self, sp, ip, st):
        self.sp, self.ip, self.st = sp, ip, st
        self.nh = 0
        self.first = True

    def ref(self, v):
        c = HEAP + 1000 + self.nh
        self.nh += 1
        self.st.mem[c] = v
        return ("R", c, ())

    def blob(self, mask=None, ne=False, facts=frozenset(), n=None, vid=None):
        return self.st.new_blob(mask, ne, n, vid, frozenset(facts))

    def text(self, mask=None, ne=False, facts=frozenset()):
        return self.st.append_str([self.blob(mask, ne, facts)])

    def chunks(self, stage, L=1, ne=False):
        S = self.text(None, ne)
        return ("V", (("w", "c%d" % stage, S, L),))

    def args(self, stage):
        S = self.text()
        return ("V", (("w", "a%d" % stage, S, None),))

    def line(self, lb=0):
        return self.st.newp(lb)


def node(mk, stage, name, L=1):
    """alternatives: arbitrary values of a syntax tree type, children summarised; every alternative is a function
    building the value in a fresh state"""
    sp = mk.sp
    A = sp.adt
    n = A[(stage, name)]
    if name == "Chunk":
        S = mk.text(None, True)
        return sp.make(n, line=mk.line(1), variant=("W", A[(stage, "ChunkVariant")], S[1][0][1], S[1][0][2]))
    if name == "ChunkVariant":
        S = mk.text(None, True)
        return ("W", n, S[1][0][1], S[1][0][2])
    if name == "Command":
        return sp.make(n, label=mk.text(), args=mk.args(stage))
    if name == "Environment":
        return sp.make(n, prec_begin=mk.text(AB.ws), label=mk.text(None, False, (PARSED,)), args=mk.args(stage),
                       content=mk.chunks(stage), prec_end=mk.text(AB.ws))
    if name == "Document" and stage < 3:
        return sp.make(n, chunks=mk.chunks(stage))
    if name == "Document":
        return sp.make(n, documentclass=("?", "class"), documentoptions=("?", "options"), preamable=mk.chunks(3),
                       body=mk.chunks(3), body_args=mk.args(3), body_begin_prec=mk.text(AB.ws),
                       body_end_prec=mk.text(AB.ws), trailing=mk.chunks(3))
    raise Unsupported(name)


def variants(sp, ip, st, build):
    """run build for every bracket / maths kind"""
    return build


def node_alts(sp, ip, stage, name, wrap):
    """list of (state, args) with one entry per alternative of the node"""
    out = []
    A = sp.adt
    n = A[(stage, name)]

    def fresh():
        st = State.new()
        return st, Mk(sp, ip, st)
    if name == "Scope":
        for i, v in enumerate(sp.p.adts[A[(stage, "ScopeVariant")]]["variants"]):
            st, mk = fresh()
            val = sp.make(n, chunks=mk.chunks(stage), variant=("A", A[(stage, "ScopeVariant")], i, ()))
            out.append((st, wrap(mk, val)))
    elif name == "MathsBlock":
        for i, v in enumerate(sp.p.adts[A[(3, "MathsVariant")]]["variants"]):
            for j, w in enumerate(sp.p.adts[A[(3, "MathsType")]]["variants"]):
                st, mk = fresh()
                val = sp.make(n, content=mk.chunks(3), variant=("A", A[(3, "MathsVariant")], i, ()),
                              type=("A", A[(3, "MathsType")], j, ()))
                out.append((st, wrap(mk, val)))
    else:
        st, mk = fresh()
        val = node(mk, stage, name)
        out.append((st, wrap(mk, val)))
    return out


def whole_alts(sp, ip, stage, name, wrap):
    """arbitrary values of a syntax tree type whose text is the tape"""
    A = sp.adt
    out = []
    st = State.new()
    mk = Mk(sp, ip, st)
    if name == "Document":
        if stage < 3:
            val = node(mk, stage, name)
            return [(st, wrap(mk, val))]
        b = mk.text()[1][0]
        ws = AB.ws
        bs = sp.layout(st, st.tape.pos[b[1]], [
            ("B", AB.all, False, None, ()), ("L", "\\begin"), ("B", ws, False, None, ()), ("L", "{document}"),
            ("B", AB.all, False, None, ()), ("B", AB.all, False, None, ()), ("L", "\\end"), ("B", ws, False, None, ()),
            ("L", "{document}"), ("B", AB.all, False, None, ())])

        def S(i):
            return ("S", (("r", bs[i], bs[i + 1]),))

        def R(kind, i, L):
            return ("V", (("w", kind, S(i), L),))
        val = sp.make(A[(3, "Document")], documentclass=("?", "class"), documentoptions=("?", "options"),
                      preamable=R("c3", 0, 1), body_begin_prec=S(2), body_args=R("a3", 4, None), body=R("c3", 5, 1),
                      body_end_prec=S(7), trailing=R("c3", 9, 1))
        return [(st, wrap(mk, val))]
    b = mk.text(None, True)[1][0]
    n = A[(stage, "ChunkVariant")]
    w = ("W", n, b[1], b[2])
    if name == "ChunkVariant":
        return [(st, wrap(mk, w))]
    if name == "Chunk":
        return [(st, wrap(mk, sp.make(A[(stage, "Chunk")], line=mk.line(1), variant=w)))]
    st.mem[RESULT] = w
    try:
        sp.materialise(ip, st, w)
        raise Unsupported("materialise")
    except Fork as f:
        for s in f.states:
            v = s.mem.pop(RESULT)
            x = v[3][0]
            if type(x) is tuple and x[0] == "A" and x[1] == A.get((stage, name)):
                mk = Mk(sp, ip, s)
                out.append((s, wrap(mk, x)))
    return out


def with_document(mk):
    """a stage 2 document with a document environment; no other one before it"""
    sp, st = mk.sp, mk.st
    A = sp.adt
    b = mk.text()[1][0]
    ws = AB.ws
    bs = sp.layout(st, st.tape.pos[b[1]], [
        ("B", AB.all, False, None, ()), ("L", "\\begin"), ("B", ws, False, None, ()), ("L", "{document}"),
        ("B", AB.all, False, None, ()), ("B", AB.all, False, None, ()), ("L", "\\end"), ("B", ws, False, None, ()),
        ("L", "{document}"), ("B", AB.all, False, None, ())])

    def S(i):
        return ("S", (("r", bs[i], bs[i + 1]),))
    env = sp.make(A[(2, "Environment")], prec_begin=S(2), label=("S", ("document",)), args=("V", (("w", "a2", S(4), None),)),
                  content=("V", (("w", "c2", S(5), 1),)), prec_end=S(7))
    cv = A[(2, "ChunkVariant")]
    l1 = add(st.N(bs[0], bs[1]), 1)
    l2 = add(st.N(bs[0], bs[9]), 1)
    e = sp.make(A[(2, "Chunk")], line=l1, variant=("A", cv, sp.vidx(cv, "Environment"), (env,)))
    st.ghost["root"] = (bs[0], bs[-1])
    st.ghost["keep"] = ("c2", ((bs[1], bs[9]),))
    st.ghost["nodoc"] = bs[1]
    st.ghost["sections"] = tuple(bs)
    return sp.make(A[(2, "Document")], chunks=("V", (("w", "c2", S(0), 1), ("e", e), ("w", "c2", S(9), l2))))


def blank_line(mk, stage):
    """chunks with a text that has an empty line somewhere"""
    sp, st = mk.sp, mk.st
    A = sp.adt
    L = mk.line(1)
    b = mk.text()[1][0]
    m = sp.text_mask(stage)
    bs = sp.layout(st, st.tape.pos[b[1]], [
        ("B", m, False, None, ()), ("L", "\n"), ("B", AB.ws, False, None, ()), ("L", "\n"), ("B", m, False, None, ())])

    def S(i, j):
        return ("S", (("r", bs[i], bs[j]),))
    cv = A[(stage, "ChunkVariant")]
    e = sp.make(A[(stage, "Chunk")], line=L, variant=("A", cv, sp.vidx(cv, "Text"), (S(0, 5),)))
    st.ghost["root"] = (bs[0], bs[-1])
    st.ghost["base"] = L
    st.ghost["blank"] = (bs[1], bs[2], bs[3], bs[4])
    return ("V", (("e", e),))


# inputs with a pair of delimiters: what stands between them has to become one piece
NOMATHS = ("(", ")", "[", "]")


def region(st, b1, b2, text=0, labels=(), none=()):
    """restricts the chunks between two boundaries: characters texts lack, names commands lack, kinds that must not result"""
    st.ghost["regions"] = st.ghost.get("regions", ()) + ((b1, b2, text, tuple(labels), tuple(none)),)


class Seq:
    """a collection of chunks laid out on the tape"""

    def __init__(self, mk, stage, lay, base):
        self.mk, self.st, self.sp, self.stage = mk, mk.st, mk.sp, stage
        b = mk.text()[1][0]
        self.bs = mk.sp.layout(mk.st, mk.st.tape.pos[b[1]], lay)
        self.base = base
        self.segs = []
        self.kept = []

    def S(self, i, j=None):
        return ("S", (("r", self.bs[i], self.bs[i + 1 if j is None else j]),) if i != j else ())

    def L(self, i):
        return add(self.st.N(self.bs[0], self.bs[i]), self.base)

    def run(self, i):
        self.segs.append(("w", "c%d" % self.stage, self.S(i), self.L(i)))

    def chunk(self, i, vn, val):
        A = self.sp.adt
        cv = A[(self.stage, "ChunkVariant")]
        S = self.st.norm(self.sp.flat(self.mk.ip, self.st, val))
        self.kept.append(S[0][1:])
        self.segs.append(("e", self.sp.make(A[(self.stage, "Chunk")], line=self.L(i), variant=("A", cv, self.sp.vidx(cv, vn), (val,)))))

    def text(self, i, j):
        self.chunk(i, "Text", self.S(i, j))

    def command(self, i, label, args=("V", ())):
        self.chunk(i, "Command", self.sp.make(self.sp.adt[(self.stage, "Command")], label=label, args=args))

    def done(self):
        self.st.ghost["form"] = self.stage + 1
        self.st.ghost["keep"] = ("c%d" % self.stage, tuple(self.kept))
        self.st.ghost["root"] = (self.bs[0], self.bs[-1])
        self.st.ghost["base"] = self.base
        return ("V", tuple(self.segs))


def maths_forms(sp):
    """name -> (layout, build)"""
    any_ = ("B", AB.all, False, None, ())
    some = ("B", AB.all, True, None, ())
    tx = sp.text_mask(3)            # text without dollars
    t0, t1 = ("B", tx, False, None, ()), ("B", tx, True, None, ())
    t2 = ("B", sp.text_mask(2), False, None, ())
    T = lambda c: ("T", AB.bit[c])
    D = AB.of("$")

    def bracket(o, c, ty, deep, closed=True):
        lay = [any_, T("\\"), T(o)] + ([any_, T("\\"), T(o), any_, T("\\"), T(c), any_] if deep else [some if closed else any_])
        if closed:
            lay += [T("\\"), T(c), any_]

        def build(q):
            n = len(lay)
            q.run(0)
            region(q.st, q.bs[0], q.bs[1], D, NOMATHS, ("MathsBlock",))
            i = 1
            for x in ([o, o, c, c] if deep else [o, c])[:None if closed else -1]:
                q.command(i, q.S(i + 1))
                q.run(i + 2)
                if i + 3 < n or not closed:
                    region(q.st, q.bs[i + 2], q.bs[i + 3], 0, (o, c))
                i += 3
            if not closed:
                q.st.ghost["must"] = ("UnclosedMaths",)
                return
            if deep:
                region(q.st, q.bs[n - 1], q.bs[n], D, NOMATHS, ("MathsBlock",))
            q.st.ghost["mark"] = (q.bs[1], q.bs[n - 1], ("Brackets", ty))
        return lay, build

    def one(k, ty, inner):
        """both delimiters in one text"""
        d = [T("$")] * k
        lay = [any_, t0] + d + inner + d + [t2 if k == 1 else t0, any_]

        def build(q):
            n = len(lay)
            q.run(0)
            region(q.st, q.bs[0], q.bs[1], D, NOMATHS, ("MathsBlock",))
            q.text(1, n - 1)
            q.run(n - 1)
            if k == 2:
                region(q.st, q.bs[n - 1], q.bs[n], D, NOMATHS, ("MathsBlock",))
            q.st.ghost["mark"] = (q.bs[2], q.bs[n - 2], ("Dollars", ty))
            q.st.ghost["fix"] = tuple(q.bs[1:n])
        return lay, build

    def two(k, ty, y, mid, z):
        """the delimiters in different texts"""
        d = [T("$")] * k
        lay = [any_, t0] + d + y + [mid] + z + d + [t0, any_]

        def build(q):
            n = len(lay)
            i = 2 + k + len(y)
            q.run(0)
            region(q.st, q.bs[0], q.bs[1], D, NOMATHS, ("MathsBlock",))
            q.text(1, i)
            q.run(i)
            region(q.st, q.bs[i], q.bs[i + 1], D, ())
            q.text(i + 1, n - 1)
            q.run(n - 1)
            region(q.st, q.bs[n - 1], q.bs[n], D, NOMATHS, ("MathsBlock",))
            q.st.ghost["mark"] = (q.bs[2], q.bs[n - 2], ("Dollars", ty))
            q.st.ghost["fix"] = tuple(q.bs[1:n])
        return lay, build

    def open_(k, inner):
        """dollars nothing closes"""
        lay = [any_, t0] + [T("$")] * k + inner + [any_]

        def build(q):
            n = len(lay)
            q.run(0)
            region(q.st, q.bs[0], q.bs[1], D, NOMATHS, ("MathsBlock",))
            q.text(1, n - 1)
            q.run(n - 1)
            region(q.st, q.bs[n - 1], q.bs[n], D, ())
            q.st.ghost["fix"] = tuple(q.bs[1:n])
            q.st.ghost["must"] = ("UnclosedMaths",)
        return lay, build

    def stray(c):
        """a closing bracket nothing opens"""
        lay = [any_, T("\\"), T(c), any_]

        def build(q):
            q.run(0)
            region(q.st, q.bs[0], q.bs[1], D, NOMATHS, ("MathsBlock",))
            q.command(1, q.S(2))
            q.run(3)
            q.st.ghost["must"] = ("UnexpectedMathsEnd",)
        return lay, build

    def plain(q):
        q.run(0)
        region(q.st, q.bs[0], q.bs[1], D, NOMATHS, ("MathsBlock",))
        q.st.ghost["must"] = ()
    none = [any_], plain
    return {
        "round": bracket("(", ")", "Inline", False), "square": bracket("[", "]", "Outline", False),
        "round-round": bracket("(", ")", "Inline", True), "square-square": bracket("[", "]", "Outline", True),
        "dollar": one(1, "Inline", [t1]), "dollars": one(2, "Outline", [t1]),
        "dollars-dollar": one(2, "Outline", [t0, T("$"), t1]),
        "dollar-chunks": two(1, "Inline", [t1], any_, [t0]), "dollar-chunk": two(1, "Inline", [], some, [t0]),
        "dollars-chunks": two(2, "Outline", [t1], any_, [t0]),
        "unopened-round": stray(")"), "unopened-square": stray("]"),
        "unclosed-round": bracket("(", ")", None, False, False), "unclosed-square": bracket("[", "]", None, False, False),
        "unclosed-round-round": bracket("(", ")", None, True, False), "unclosed-square-square": bracket("[", "]", None, True, False),
        "unclosed-dollar": open_(1, [t0]), "unclosed-dollars": open_(2, [t0]), "half-closed-dollars": open_(2, [t1, T("$"), t0]),
        "none": none,
    }


def env_forms(sp):
    any_ = ("B", AB.all, False, None, ())
    some = ("B", AB.all, True, None, ())
    ws = ("B", AB.ws, False, None, ())
    T = lambda c: ("T", AB.bit[c])
    ENV = ("begin", "end")

    def form(words, must=None):
        """words: (begin or end, its label: a name every mention of which is the same text, a name and a star, "=" and the
        characters it is made of, a bracket kind for an argument that is no label, or None; further arguments: none, any or some)"""
        lay = [any_]
        at = []
        seen = set()
        for w, label, more in words:
            at.append(len(lay))
            lay += [T("\\"), ("L", w)]
            if label is not None:
                o, c = "[]" if label == "[" else "()" if label == "(" else "{}"
                x = [("B", AB.all, False, label[0] if label[0].isalpha() else None, (PARSED,) if label not in seen else ())]
                if label[0] == "=":
                    x = [("B", AB.of(label[1:]), True, None, (PARSED,))]
                elif label[1:]:
                    x.append(T(label[1:]))
                lay += [ws, T(o)] + x + [T(c)]
                seen.add(label)
            if more:
                lay.append(any_ if more == "any" else some)
            lay.append(any_)

        def build(q):
            n = len(lay)
            q.run(0)
            region(q.st, q.bs[0], q.bs[1], 0, ENV, ("Environment",))
            for k, (w, label, more) in enumerate(words):
                i = at[k]
                j = i + 2
                segs = ()
                if label is not None:
                    z = i + 5 + (label[0].isalpha() and len(label) > 1)
                    sc = q.sp.make(q.sp.adt[(1, "Scope")], chunks=("V", (("w", "c1", q.S(i + 4, z), 1),)),
                                   variant=q.sp.svariant(1, {"[": "Square", "(": "Round"}.get(label, "Curly")))
                    segs = (("e", ("T", (q.S(i + 2), sc))),)
                    j = z + 1
                if more:
                    segs += (("w", "a1", q.S(j), None),)
                    j += 1
                q.command(i, q.S(i + 1), ("V", segs))
                q.run(j)
                end = k == len(words) - 1
                region(q.st, q.bs[j], q.bs[j + 1], 0, ENV, ("Environment",) if end and must is None else ())
            if must == "any":
                q.st.ghost["fix"] = tuple(q.bs[1:n])
                return
            if must is not None:
                q.st.ghost["must"] = must
                q.st.ghost["fix"] = tuple(q.bs[1:n])
                return
            last = n - 7
            b = q.bs
            q.st.ghost["mark"] = (b[1], b[n - 1], None)
            q.st.ghost["parts"] = ((b[3], b[4]), (b[5], b[6]), (b[7], b[8]), (b[8], b[last]), (b[last + 2], b[last + 3]))
        return lay, build
    bl, bm, el, em = ("begin", "l", "any"), ("begin", "m", "any"), ("end", "l", None), ("end", "m", None)
    a, b = ("begin", "=abcdefghijklm", "any"), ("begin", "=nopqrstuvwxyz", "any")
    c, d = ("end", "=abcdefghijklm", None), ("end", "=nopqrstuvwxyz", None)
    UC, UE, NL, TM = ("UnclosedEnvironment",), ("UnexpectedEnd",), ("NoEnvironmentLabel",), ("TooManyArgsEnd",)
    out = {"pair": form([bl, el]), "nested": form([bl, bm, em, el]),
           "none": form([], ()),
           "unclosed": form([bl], UC), "unclosed-outer": form([bl, bm, em], UC),
           "unopened": form([el], UE), "unopened-after": form([bl, el, em], UE),
           "any-end": form([bl, em], "any"), "other-end": form([a, d], UE), "crossed": form([a, b, c, d], UE), "starred-end": form([bl, ("end", "l*", None)], UE),
           "end-arguments": form([bl, ("end", "l", "some")], TM), "inner-end-arguments": form([bl, bm, ("end", "m", "some"), el], TM)}
    for w in ENV:
        out[w + "-no-argument"] = form([(w, None, None)], NL)
        out[w + "-square"] = form([(w, "[", "any")], NL)
        out[w + "-round"] = form([(w, "(", "any")], NL)
        out["inner-" + w + "-no-argument"] = form([bl, (w, None, None)], NL)
    return out


# ---- conditions ---------------------------------------------------------------------------------------
def show(st, S):
    try:
        return st.show_atoms(S[1])
    except Exception:
        return repr(S)


def merged(st, got, want):
    """do the texts differ only where the boundaries of a piece of structure were forgotten?
    A merged stretch keeps its characters and newline count, so '{' [x] '}' against such a stretch decides nothing."""
    def items(S):
        out = []
        for a in S[1]:
            if type(a) is str:
                out += [(c,) for c in a]
            elif a[0] == "r":
                for q in range(st.tape.pos[a[1]], st.tape.pos[a[2]]):
                    it = st.tape.items[q]
                    if it[0] == "L":
                        out += [(c,) for c in it[1]]
                    elif it[0] == "T" and AB.single(it[1]):
                        out.append((AB.single(it[1]),))
                    else:
                        out.append((it[0], it, q if it[0] != "B" or it[4] is None else it[4]))
            else:
                out.append(("u", a, a))
        return out

    def n(part):
        t = 0
        for x in part:
            t = add(t, (1 if x[0] == "\n" else 0) if len(x) == 1 else st.item_n(x[1]) if x[0] != "u" else a_n(x[1]))
        return t

    def a_n(a):
        return a[2] if len(a) > 2 else 0
    import difflib
    try:
        g, w = items(got), items(want)
    except (KeyError, TypeError, IndexError):
        return False
    kg, kw = [str((x[0], x[-1])) for x in g], [str((x[0], x[-1])) for x in w]
    i = 0
    while i < min(len(g), len(w)) and kg[i] == kw[i]:
        i += 1
    j = 0
    while j < min(len(g), len(w)) - i and kg[-1 - j] == kw[-1 - j]:
        j += 1
    g, w, kg, kw = g[i:len(g) - j], w[i:len(w) - j], kg[i:len(kg) - j], kw[i:len(kw) - j]
    for tag, a, b, c, d in difflib.SequenceMatcher(None, kg, kw, autojunk=False).get_opcodes():
        if tag == "equal":
            continue
        gp, wp = g[a:b], w[c:d]
        for p, q in ((gp, wp), (wp, gp)):
            bl = [x for x in q if x[0] == "B"]
            if any(len(x) == 1 and x[0] in canon.STRUCT for x in p) and bl and sub(n(p), n(q)) == 0:
                m = 0
                for x in bl:
                    m |= x[1][1]
                if all(AB.of(x[0]) & m for x in p if len(x) == 1):
                    break
        else:
            return False
    return True


def chk_display(ctx, st, v):
    want = ctx.sp.flatten(ctx.ip, st, st.ghost["self"])
    f = st.ghost["fmt"]
    fv = ctx.ip.rd(st, f)
    got = fv[3][0]
    if has_unknown(got):
        raise Unsupported("unknown output")
    if got != want:
        if not ctx.ip.bi.eq_str(st, got, want):
            if merged(st, got, want):
                raise Unsupported("comparison with a summarised text")
            yield Alarm("display", "prints %s instead of %s" % (show(st, got), show(st, want)))
    if not (v[0] == "A" and v[1] == RES and v[2] == 0):
        yield Alarm("display", "fails")


def chk_lines(ctx, st, v):
    S = ctx.sp.flatten(ctx.ip, st, st.ghost["self"])
    want = add(st.NS(S[1]), 1)
    if type(v) not in (int, Lin):
        raise Unsupported("unknown line count")
    d = sub(v, want)
    if d != 0:
        yield Alarm("lines", "counts %s lines for a text of %s lines" % (v, want))


def kept_text(st, b0, b1):
    """the text between two boundaries without the characters of comments"""
    out = []
    i, j = st.tape.pos[b0], st.tape.pos[b1]
    cur = None
    for q in range(i, j):
        it = st.tape.items[q]
        if it[0] == "T" and it[2]:
            if cur is not None:
                out.append(("r", cur, st.tape.bids[q]))
                cur = None
        elif cur is None:
            cur = st.tape.bids[q]
    if cur is not None:
        out.append(("r", cur, st.tape.bids[j]))
    return ("S", st.norm(tuple(out)))


GAINED = "\\begin{document}\\end{document}"
GAINS = ("convert/ast2::Document->ast3::Document",)


def chk_result(ctx, st, v, base=1):
    """a conversion of the root text: the text survives, line numbers are right, errors are positioned"""
    sp, ip = ctx.sp, ctx.ip
    b0, b1 = st.ghost["root"]
    base = st.ghost.get("base", base)
    if v[0] == "A" and v[1] == RES and v[2] == 1:
        e = ip.full(st, v[3][0])
        yield from chk_error(ctx, st, e, base)
        return
    if v[0] == "A" and v[1] == RES:
        v = ip.full(st, v[3][0])
    if has_unknown_text(sp, v):
        raise Unsupported("unknown part of the result")
    got = sp.flatten(ip, st, v)
    if got is None:
        raise Unsupported("text of the result")
    want = kept_text(st, b0, b1)
    if ctx.root.name in GAINS and type(got[1][-1:] and got[1][-1]) is str and got[1][-1].endswith(GAINED) \
            and st.norm(got[1][:-1] + (got[1][-1][:-len(GAINED)],)) == want[1]:
        yield Alarm("text", "a document without document environment gains one")
    elif got != want and not ip.bi.eq_str(st, got, want):
        if merged(st, got, want):
            raise Unsupported("comparison with a summarised text")
        yield Alarm("text", "result %s for input %s" % (show(st, got), show(st, want)))
    if "unread" in st.ghost:
        raise Unsupported("input read a second time")
    yield from chk_bases(ctx, st, v, base)
    yield from chk_sections(ctx, st, v)
    shape.note(st, shape.audit(ip, sp, st, v))
    if st.ghost.get("must"):
        if "loose" in st.ghost:
            raise Unsupported("summarised elements between delimiters")
        yield Alarm("between", "no error, although this is %s" % " or ".join(st.ghost["must"]))
    if st.mon is not None and st.mon[4][0] == "mX":
        yield Alarm("grammar", "no error, although this is " + st.mon[4][1])
    for kind in ("shape", "command", "pair", "maths", "blank", "between", "grammar"):
        w = st.ghost.get("weak:" + kind)
        if w:
            yield Alarm(kind, "%s: %s" % w)


SECTIONS = (("preamable", 0), ("body_begin_prec", 2), ("body_args", 4), ("body", 5), ("body_end_prec", 7), ("trailing", 9))


def chk_sections(ctx, st, v):
    """the sections of a document are what stands before, in and after the first document environment"""
    g = st.ghost.get("sections")
    if g is None or v[0] != "A" or ctx.sp.info.get(v[1]) != (3, "Document"):
        return
    for role, i in SECTIONS:
        x = ctx.ip.full(st, ctx.sp.field(v, role))
        got = ctx.sp.flat(ctx.ip, st, x) if x[0] == "V" else x[1]
        want = ("S", st.norm((("r", g[i], g[i + 1]),)))
        if got is None:
            raise Unsupported("text of a section")
        got = ("S", st.norm(got))
        if got != want and not ctx.ip.bi.eq_str(st, got, want):
            yield Alarm("section", "%s is %s instead of %s" % (role, show(st, got), show(st, want)))


def has_unknown_text(sp, v):
    if type(v) is tuple and v and v[0] == "A" and v[1] in sp.info and sp.info[v[1]] == (3, "Document") and sp.f[v[1]]:
        r = sp.f[v[1]]
        return any(has_unknown(x) for i, x in enumerate(v[3]) if i not in (r["documentclass"], r["documentoptions"]))
    return has_unknown(v)


def chk_bases(ctx, st, v, base):
    """line numbers of all chunks of v; top-level collections start at `base`"""
    sp, ip = ctx.sp, ctx.ip
    for c, name, b in nested(ctx, st, v, base):
        if c[0] == "V" and not c[1]:
            continue
        x = sp.base_of(ip, st, c)
        if x is None or sub(x, b) != 0:
            if x is None and has_unknown(c):
                raise Unsupported("unknown line number")
            yield Alarm("line", "line numbers of the %s do not match its text" % name)
    if st.ghost.get("argbad"):
        yield Alarm("line", "line numbers inside an argument do not match its text")


def nested(ctx, st, v, base):
    """(collection of chunks, what it is, expected first line)"""
    sp, ip = ctx.sp, ctx.ip
    v = ip.full(st, v)
    if v[0] == "V":
        yield v, "chunks", base
        for s in v[1]:
            if s[0] == "e":
                yield from nested1(ctx, st, s[1])
        return
    if v[0] == "T":
        for x in v[1]:
            yield from nested(ctx, st, x, base)
        return
    yield from nested1(ctx, st, v, base)


def nested1(ctx, st, v, base=1):
    sp, ip = ctx.sp, ctx.ip
    v = ip.full(st, v)
    if type(v) is not tuple or not v:
        return
    if v[0] == "T":
        for x in v[1]:
            yield from nested1(ctx, st, x)
        return
    if v[0] != "A" or v[1] not in sp.info:
        return
    stage, name = sp.info[v[1]]
    if name == "ChunkVariant":
        if v[3]:
            yield from nested1(ctx, st, v[3][0])
    elif name == "Chunk":
        yield from nested1(ctx, st, sp.field(v, "variant"))
    elif name == "Scope":
        yield from nested(ctx, st, sp.field(v, "chunks"), 1)
    elif name in ("MathsBlock",):
        yield from nested(ctx, st, sp.field(v, "content"), 1)
    elif name == "Command":
        a = ip.full(st, sp.field(v, "args"))
        for s in a[1]:
            if s[0] == "e":
                yield from nested1(ctx, st, s[1])
    elif name == "Environment":
        a = ip.full(st, sp.field(v, "args"))
        for s in a[1]:
            if s[0] == "e":
                yield from nested1(ctx, st, s[1])
        yield from nested(ctx, st, sp.field(v, "content"), 1)
    elif name == "Document" and stage < 3:
        yield from nested(ctx, st, sp.field(v, "chunks"), base)
    elif name == "Document":
        # every section counts from its own first line
        for role in ("preamable", "body", "trailing"):
            yield from nested(ctx, st, sp.field(v, role), 1)
        a = ip.full(st, sp.field(v, "body_args"))
        for s in a[1]:
            if s[0] == "e":
                yield from nested1(ctx, st, s[1])


def chk_error(ctx, st, e, base=1):
    sp, ip = ctx.sp, ctx.ip
    b0, b1 = st.ghost["root"]
    E = st.ghost.get("E")
    if e[0] != "A" or e[1] != sp.error or E is None:
        raise Unsupported("unknown error")
    line = sp.err_line(e)
    if type(line) not in (int, Lin):
        raise Unsupported("unknown error line")
    if "unread" in st.ghost:
        raise Unsupported("input read a second time")
    w = st.ghost.get("weak:errwhat")
    if w:
        yield Alarm("errwhat", "%s: %s" % w)
    w = st.ghost.get("weak:grammar")
    if w:
        yield Alarm("grammar", "%s: %s" % w)
    if st.mon is not None and E[0] == "at" and sp.grammar:
        mode = st.mon[4]
        if mode[0] != "mX":
            yield Alarm("grammar", "%s although nothing is wrong" % E[2])
        elif mode[1] != E[2]:
            yield Alarm("grammar", "%s instead of %s" % (E[2], mode[1]))
        else:
            for x in e[3]:
                x = ip.full(st, x) if type(x) is tuple else x
                if type(x) is tuple and x[0] == "A" and x[1] == sp.etype and x[3]:
                    k = ip.full(st, x[3][0])
                    if k[0] == "A" and sp.delims(k) != mode[2]:
                        yield Alarm("grammar", "%s of %s instead of %s" % (E[2], sp.delims(k), mode[2]))
    if "form" in st.ghost:
        must = st.ghost.get("must")
        if must is not None:
            bad = E[0] == "at" and E[2] not in must
        else:
            # errors about something inside or before the marked pair
            bad = E[0] == "at" and type(E[1]) is Bd and E[1] in st.tape.pos and "mark" in st.ghost \
                and st.tape.pos[E[1]] < st.tape.pos[st.ghost["mark"][1]]
        if bad and "loose" in st.ghost:
            raise Unsupported("summarised elements between delimiters")
        if bad:
            yield Alarm("between", "%s instead of %s" % (E[2], " or ".join(must) or "a result") if must is not None else
                        "%s although each delimiter has its partner" % E[2])
        return
    if E[0] == "at":
        if ctx.root.name.startswith("convert/") and "::Command->" in ctx.root.name:
            raise Unsupported("error of the conversion of a command itself")
        if E[1] is None:
            raise Unsupported("position of the error")
        want = add(st.N(b0, E[1]), base)
        if sub(line, want) != 0:
            yield Alarm("errline", "%s reported on line %s instead of %s" % (E[2], line, want))
    else:
        if E[1] is None:
            raise Unsupported("position of the error")
        want = add(add(st.N(b0, E[1]), E[2]), base)
        if sub(line, want) != 0:
            yield Alarm("errline", "error of a nested conversion reported on line %s instead of %s" % (line, want))


def class_forms(sp):
    """documents with a documentclass command in front of any document environment: name -> (layout, build)"""
    any_ = ("B", AB.all, False, None, ())
    ws = ("B", AB.ws, False, None, ())
    T = lambda c: ("T", AB.bit[c])
    KIND = {"{": "Curly", "[": "Square", "(": "Round"}
    DC = ("documentclass",)

    INNER = {"command": [any_, T("\\"), ("L", "x"), any_], "scope": [any_, T("{"), any_, T("}"), any_]}

    def form(cmds, want, inner=None):
        """cmds: strings of opening brackets, one for each argument; want: the argument that is the class, or an error;
        inner: what the class is made of"""
        lay = [any_]
        at, end, arg = [], [], {}
        for k, args in enumerate(cmds):
            at.append(len(lay))
            lay += [T("\\"), ("L", DC[0])]
            for n, o in enumerate(args):
                j = len(lay)
                lay += [ws, T(o)] + (INNER[inner] if inner and (k, n) == want else [any_]) + [T({"{": "}", "[": "]", "(": ")"}[o])]
                arg[k, n] = (j, len(lay))
            end.append(len(lay))
            lay.append(any_)

        def content(q, i, j):
            sp, A, st = q.sp, q.sp.adt, q.st
            if j == i + 1:
                return (("w", "c2", q.S(i), 1),)
            line = lambda k: add(st.N(q.bs[i], q.bs[k]), 1)
            c = lambda vn, v: sp.make(A[(2, "Chunk")], line=line(i + 1), variant=("A", A[(2, "ChunkVariant")], sp.vidx(A[(2, "ChunkVariant")], vn), (v,)))
            if inner == "command":
                x = c("Command", sp.make(A[(2, "Command")], label=q.S(i + 2), args=("V", ())))
            else:
                x = c("Scope", sp.make(A[(2, "Scope")], chunks=("V", (("w", "c2", q.S(i + 2), 1),)), variant=sp.svariant(2, "Curly")))
            q.kept.append((q.bs[i + 1], q.bs[j - 1]))
            return (("w", "c2", q.S(i), 1), ("e", x), ("w", "c2", q.S(j - 1), line(j - 1)))

        def build(q):
            sp, A, st = q.sp, q.sp.adt, q.st
            q.run(0)
            region(st, q.bs[0], q.bs[1], 0, DC)
            last = q.bs[1]
            for k, args in enumerate(cmds):
                segs = ()
                for n, o in enumerate(args):
                    a, b = arg[k, n]
                    sc = sp.make(A[(2, "Scope")], chunks=("V", content(q, a + 2, b - 1)), variant=sp.svariant(2, KIND[o]))
                    segs += (("e", ("T", (q.S(a), sc))),)
                    q.kept.append((q.bs[a], q.bs[b]))
                last = q.bs[at[k]]
                q.command(at[k], q.S(at[k] + 1), ("V", segs))
                q.run(end[k])
                region(st, q.bs[end[k]], q.bs[end[k] + 1], 0, DC)
            if cmds:
                st.ghost["nodoc"] = last
                st.ghost["fix"] = tuple(q.bs[1:len(lay)])
            for k, args in enumerate(cmds):
                for n, o in enumerate(args):
                    if o != "{":
                        st.ghost["opts"] = (q.bs[arg[k, n][0] + 2], q.bs[arg[k, n][1] - 1], None)
            st.ghost["class"] = ("error", want) if type(want) is str else ("class",) + ((q.bs[arg[want][0] + 2], q.bs[arg[want][1] - 1]) if want else ())
        return lay, build

    def trailing():
        """the first documentclass command comes after the document environment"""
        lay = [any_, ("L", "\\begin"), ws, ("L", "{document}"), any_, any_, ("L", "\\end"), ws, ("L", "{document}"),
               any_, T("\\"), ("L", DC[0]), ws, T("{"), any_, T("}"), any_]

        def build(q):
            sp, A, st = q.sp, q.sp.adt, q.st
            q.run(0)
            region(st, q.bs[0], q.bs[1], 0, DC)
            env = sp.make(A[(2, "Environment")], prec_begin=q.S(2), label=("S", ("document",)), args=("V", (("w", "a2", q.S(4), None),)),
                          content=("V", (("w", "c2", q.S(5), 1),)), prec_end=q.S(7))
            q.chunk(1, "Environment", env)
            q.run(9)
            sc = sp.make(A[(2, "Scope")], chunks=("V", (("w", "c2", q.S(14), 1),)), variant=sp.svariant(2, "Curly"))
            q.command(10, q.S(11), ("V", (("e", ("T", (q.S(12), sc))),)))
            q.run(16)
            st.ghost["nodoc"] = q.bs[1]
            st.ghost["class"] = ("class",)
        return lay, build
    return {"name": form(["{"], (0, 0)), "name-with-command": form(["{"], (0, 0), "command"), "name-with-scope": form(["{"], (0, 0), "scope"),
            "options-name": form(["[{"], (0, 1)), "name-options": form(["{["], (0, 0)),
            "round-name": form(["({"], (0, 1)), "none": form([], None), "no-arguments": form([""], None), "options-only": form(["["], None),
            "two-names": form(["{{"], "TooManyArgsDocumentClass"), "name-options-name": form(["{[{"], "TooManyArgsDocumentClass"),
            "twice": form(["{", "{"], "DoubleDocumentClass"), "again-without-name": form(["{", ""], "DoubleDocumentClass"),
            "trailing": trailing()}


CLASS_ERRORS = ("TooManyArgsDocumentClass", "DoubleDocumentClass")


def chk_class(ctx, st, v):
    """the class of a stage 3 document"""
    sp, ip = ctx.sp, ctx.ip
    v = ip.full(st, v)
    if not (v[0] == "A" and v[1] == RES):
        raise Unsupported("unknown result")
    want = st.ghost["class"]
    x = ip.full(st, v[3][0])
    if v[2] == 1:
        E = st.ghost.get("E")
        if E is None or E[0] != "at":
            return
        if want[0] == "error":
            if E[2] in CLASS_ERRORS and E[2] != want[1]:
                yield Alarm("class", "%s instead of %s" % (E[2], want[1]))
        elif E[2] in CLASS_ERRORS:
            yield Alarm("class", "%s although the class is given once" % E[2] if want[1:] else "%s although there is no class" % E[2])
        return
    if want[0] == "error":
        yield Alarm("class", "no error, although this is %s" % want[1])
        return
    if not (type(x) is tuple and x[0] == "A" and x[1] in sp.info and sp.info[x[1]] == (3, "Document")):
        raise Unsupported("unknown document")
    o = ip.full(st, x[3][sp.f[x[1]]["documentoptions"]])
    if type(o) is tuple and o[0] == "V" and (not o[1] or canon.Canon.options(None, st, o[1])):
        if o[1] and "opts" not in st.ghost:
            yield Alarm("options", "options although there are none")
        elif "opts" in st.ghost:
            canon.Canon.take_options(None, st, o[1])
            at, _, bad = st.ghost["opts"]
            if bad != "?" and (bad or at is not None):
                yield Alarm("options", bad or ("no options" if not o[1] else "an option is missing"))
    c = ip.full(st, x[3][sp.f[x[1]]["documentclass"]])
    if type(c) is not tuple or c[0] != "A" or has_unknown(c):
        raise Unsupported("unknown class")
    if not want[1:]:
        if c[3]:
            yield Alarm("class", "the class is %s although there is none" % show(st, c[3][0]))
        return
    w = ("S", st.norm((("r",) + want[1:],)) if st.tape.pos[want[1]] != st.tape.pos[want[2]] else ())
    if not c[3]:
        yield Alarm("class", "there is no class although it is given")
    elif ip.full(st, c[3][0]) != w and not ip.bi.eq_str(st, ip.full(st, c[3][0]), w):
        yield Alarm("class", "the class is %s instead of %s" % (show(st, ip.full(st, c[3][0])), show(st, w)))


def all_roots(prog):
    sp = Spec(prog)
    out = []
    for fn in prog.fns.values():
        if fn.model or fn.self_t is None or fn.kind not in ("fn", "Fn", "AssocFn", "method", None):
            continue
        ty = prog.types[fn.self_t]
        sn = ty[1] if ty[0] == "adt" else None
        if fn.method == "from_chunks" and fn.inputs and len(fn.inputs) == 1:
            at = prog.types[fn.inputs[0]]
            el = prog.types[at[2][0]] if at[0] == "adt" and at[1] == "std::vec::Vec" else None
            if el is not None and el[0] == "adt" and el[1] in sp.info:
                def init(sp, ip, st, stage=sp.info[el[1]][0]):
                    mk = Mk(sp, ip, st)
                    L = mk.line(1)
                    v = mk.chunks(stage, L)
                    st.ghost["root"] = (st.tape.bids[0], st.tape.bids[-1])
                    st.ghost["base"] = L
                    return [v]
                out.append(Root("from_chunks/" + sn.split("::")[-1], fn, init, chk_result, ("C03",)))

                def init(sp, ip, st, stage=sp.info[el[1]][0]):
                    return [blank_line(Mk(sp, ip, st), stage)]
                out.append(Root("from_chunks/%s/blank-line" % sn.split("::")[-1], fn, init, chk_result, ("C18",)))
                if sn.split("::")[-1] == "MathsBlock" and sp.info[el[1]][0] == 2:
                    for form in maths_forms(sp):
                        def init(sp, ip, st, form=form):
                            lay, build = maths_forms(sp)[form]
                            mk = Mk(sp, ip, st)
                            q = Seq(mk, 2, lay, mk.line(1))
                            build(q)
                            return [q.done()]
                        out.append(Root("between/MathsBlock/" + form, fn, init, chk_result, ("C19",)))
        if sn not in sp.info:
            continue
        stage, name = sp.info[sn]
        tr = fn.trait.split("::")[-1].split("<")[0] if fn.trait else None
        if tr == "Display" and fn.method == "fmt" and name not in ("ScopeVariant", "MathsType", "MathsVariant"):
            def init(sp, ip, st, stage=stage, name=name):
                def wrap(mk, val):
                    r = mk.ref(val)
                    f = mk.ref(("A", FMT, 0, (EMPTY,)))
                    mk.st.ghost["self"] = val
                    mk.st.ghost["fmt"] = f
                    return [r, f]
                return node_alts(sp, ip, stage, name, wrap)
            out.append(Root("display/ast%d::%s" % (stage, name), fn, init, chk_display, ("C02",)))
        if tr == "Lines" and fn.method == "lines":
            def init(sp, ip, st, stage=stage, name=name):
                def wrap(mk, val):
                    mk.st.ghost["self"] = val
                    return [mk.ref(val)]
                return node_alts(sp, ip, stage, name, wrap)
            out.append(Root("lines/ast%d::%s" % (stage, name), fn, init, chk_lines, ("C04",)))
        if tr in ("TryFrom", "From") and fn.method in ("from", "try_from") and len(fn.trargs) > 1:
            at = prog.types[fn.trargs[1]]
            asn = at[1] if at[0] == "adt" else None
            if asn in sp.info and stage < 4 and sp.info[asn][1] not in ("ScopeVariant", "MathsType", "MathsVariant"):
                stage0, name0 = sp.info[asn]

                def init(sp, ip, st, stage=stage0, name=name0):
                    def wrap(mk, val):
                        mk.st.ghost["root"] = (mk.st.tape.bids[0], mk.st.tape.bids[-1])
                        return [val]
                    return whole_alts(sp, ip, stage, name, wrap)
                out.append(Root("convert/ast%d::%s->ast%d::%s" % (stage0, name0, stage, name), fn, init, chk_result, ("C02",)))
            if asn in sp.info and sp.info[asn] == (1, "Document") and (stage, name) == (2, "Document"):
                for form in env_forms(sp):
                    def init(sp, ip, st, form=form):
                        lay, build = env_forms(sp)[form]
                        mk = Mk(sp, ip, st)
                        q = Seq(mk, 1, lay, 1)
                        build(q)
                        return [sp.make(sp.adt[(1, "Document")], chunks=q.done())]
                    out.append(Root("between/Environment/" + form, fn, init, chk_result, ("C17",)))
            if asn in sp.info and sp.info[asn] == (2, "Document") and (stage, name) == (3, "Document"):
                def init(sp, ip, st):
                    st = State.new()
                    mk = Mk(sp, ip, st)
                    return [(st, [with_document(mk)])]
                out.append(Root("convert/ast2::Document->ast3::Document/with", fn, init, chk_result, ("C03",)))
                if "documentclass" in sp.f[sn]:
                    for form in class_forms(sp):
                        def init(sp, ip, st, form=form):
                            lay, build = class_forms(sp)[form]
                            mk = Mk(sp, ip, st)
                            q = Seq(mk, 2, lay, 1)
                            build(q)
                            val = sp.make(sp.adt[(2, "Document")], chunks=q.done())
                            return [val]
                        out.append(Root("class/Document/" + form, fn, init, chk_class, ("C29",)))
        if fn.method == "into_chunks" or fn.method == "to_ast1_scope":
            def init(sp, ip, st, stage=stage, name=name):
                def wrap(mk, val):
                    mk.st.ghost["root"] = (mk.st.tape.bids[0], mk.st.tape.bids[-1])
                    if name == "Chunk":
                        mk.st.ghost["base"] = sp.field(val, "line")
                    return [val]
                return whole_alts(sp, ip, stage, name, wrap)
            out.append(Root("into/ast%d::%s" % (stage, name), fn, init, chk_result, ("C02",)))
        if tr == "FromStr" and fn.method == "from_str" and name == "Document" and stage in (2, 3):
            def init(sp, ip, st):
                mk = Mk(sp, ip, st)
                S = mk.text()
                st.ghost["root"] = (st.tape.bids[0], st.tape.bids[-1])
                return [("RV", S)]
            out.append(Root("parse/ast%d" % stage, fn, init, chk_result, ("C01",)))
        if tr == "FromStr" and fn.method == "from_str" and name == "Document" and stage == 1:
            def init(sp, ip, st):
                b0, b1 = st.newb(), st.newb()
                st.tape = Tape((b0, b1), (("IN",),))
                st.mon = sp.mon_start(b0)
                st.ghost["root"] = (b0, b1)
                return [("RV", ("S", (("r", b0, b1),)))]
            out.append(Root("parse/ast1", fn, init, chk_result, ("C01",)))
            out.append(Root("grammar/ast1", fn, init, chk_result, ("C24",)))
    import api
    return out + api.api_roots(prog, sp)
