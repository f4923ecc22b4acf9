"""Canonical form of states at loop heads, their join, and the fixpoint."""
from fractions import Fraction
from core import *
from core import AB
import core
import shape as shape_
from lin import *

HEAP = 1 << 40


# ---- garbage --------------------------------------------------------------------------------------
def live_cells(st):
    """cells that may still be read, starting from the live locals of every frame"""
    keep = []
    fn, bb, d = st.fn, st.bb, st.depth
    if fn is not None:
        live = fn.livein[bb] if st.si == 0 else None
        if live is None:
            keep += [k for k in st.mem if k >> 12 == d and k < HEAP]
        else:
            keep += [(d << 12) | l for l in live]
    dest = st.dest
    for i in range(len(st.frames) - 1, -1, -1):
        f, rbb, dd, dst, _, _ = st.frames[i]
        if f is None:
            continue
        # the local that receives the result of the call above is written before anything is read
        if rbb is not None:
            for l in f.livein[rbb]:
                c = (dd << 12) | l
                if dest is not None and dest[0] == c and not dest[1]:
                    continue
                keep.append(c)
        if dest is not None and dest[1]:
            keep.append(dest[0])
        dest = dst
    return keep


OPTIONS = ("*", 0, 0, ("?", "option"))


def reach(st, keep):
    seen = set()
    stack = list(keep)
    mem = st.mem

    def refs(v):
        if v[0] == "R" and len(v) == 3 and type(v[1]) is int:
            stack.append(v[1])
            return
        for x in v:
            if type(x) is tuple and x:
                refs(x)
    while stack:
        c = stack.pop()
        if c in seen or c not in mem:
            continue
        seen.add(c)
        v = mem[c]
        if type(v) is tuple and v:
            refs(v)
    return seen


def kill_dead(st):
    seen = reach(st, live_cells(st))
    if len(seen) != len(st.mem):
        st.mem = {k: v for k, v in st.mem.items() if k in seen}


def value_iter(st):
    for k, v in st.mem.items():
        if type(v) is tuple:
            yield v
    for v in st.ghost.values():
        if type(v) is tuple:
            yield v
    if st.mon is not None:
        yield st.mon


def live_bounds(st):
    """(boundaries mentioned by values, characters referenced)"""
    bs, cs = set(), set()

    def f(v):
        if type(v) is Bd:
            bs.add(v)
        elif type(v) is tuple:
            if len(v) == 2 and v[0] == "C" and type(v[1]) is Bd:
                cs.add(v[1])
                return
            for x in v:
                if type(x) in (tuple, Bd):
                    f(x)
    for v in value_iter(st):
        f(v)
    for v in st.ghost.values():
        if type(v) is Bd:
            bs.add(v)
    return bs, cs


def merge_items(st, items, blob=False, lit=False):
    """one item for a stretch of items"""
    if len(items) == 1:
        it = items[0]
        if it[0] == "T" and not it[2]:
            if AB.single(it[1]) in STRUCT and not blob:
                return it
            return ("B", it[1], True, 1 if it[1] == AB.nl else 0, None, frozenset())
        if it[0] == "L" and blob:
            return ("B", AB.of(it[1]), True, it[1].count("\n"), None, frozenset())
        return it
    if lit and not blob and any(it[0] == "L" for it in items) and sum(len(it[1]) if it[0] == "L" else 1 for it in items) <= 24 \
            and all(it[0] == "L" or (it[0] == "T" and not it[2] and AB.single(it[1])) for it in items):
        return ("L", "".join(it[1] if it[0] == "L" else AB.single(it[1]) for it in items))
    m, ne, n = 0, False, 0
    for it in items:
        n = add(n, st.item_n(it))
        if it[0] == "T":
            m |= it[1]
            ne = True
        elif it[0] == "L":
            m |= AB.of(it[1])
            ne = ne or bool(it[1])
        else:
            m |= it[1]
            ne = ne or it[2]
    return ("B", m, ne, n, None, frozenset())


STRUCT = set("\\{}[]()$")


def tidy_range(st, b1, b2):
    """merge the items between two boundaries where nothing refers inside"""
    kill_dead(st)
    bs, cs = live_bounds(st)
    t = st.tape
    i, j = t.pos[b1], t.pos[b2]
    cur = st.ghost.get("cur")
    if type(cur) is Bd and cur in t.pos and i < t.pos[cur] < j:
        # only the position of a possible error lies inside
        g = st.ghost
        st.ghost = {k: v for k, v in g.items() if k != "cur"}
        bs, cs = live_bounds(st)
        if any(t.bids[q] in bs or t.bids[q] in cs for q in range(i + 1, j)):
            st.ghost = g
            return
        st.ghost = dict(st.ghost, cur=None)
    if any(t.bids[q] in bs or t.bids[q] in cs for q in range(i + 1, j)) or b1 in cs:
        return
    its = t.items[i:j]
    if not its or any(x[0] not in "TLB" or (x[0] == "T" and x[2]) for x in its):
        return
    vids = [x[4] for x in its if x[0] == "B" and x[4] is not None]
    it = merge_items(st, its, True)
    st.tape = t.replace(i, j, (it,), ())


# ---- collapsing collections --------------------------------------------------------------------------
HINT = {}          # shape of a collected element -> reading of its two texts
WANT_HINT = [False]


def shape(t):
    if type(t) is tuple:
        return ("hole",) if t and t[0] == "hole" else tuple(shape(x) for x in t)
    return t


def ground(v):
    """a constant, or a reference to a part of one value"""
    if type(v) is not tuple:
        return type(v) in (int, bool, str)
    if v[0] == "R":
        return all(type(p) is int for p in v[2])
    if v[0] == "RV":
        return ground(v[1])
    if v[0] == "S":
        return all(type(a) is str for a in v[1])
    if v[0] == "A":
        return all(ground(x) for x in v[3])
    if v[0] == "T":
        return all(ground(x) for x in v[1])
    return False


class Canon:
    def __init__(self, ip, spec):
        self.ip = ip
        self.spec = spec
        self.notes = {}
        self.cprec = {}

    def pins(self, st):
        """cells with element references into their collections: cell -> list of paths"""
        out = {}
        marks = set()

        def f(v):
            if type(v) is not tuple or not v:
                return
            if v[0] == "R" and len(v) == 3 and type(v[1]) is int:
                for q, e in enumerate(v[2]):
                    if type(e) is tuple:
                        out.setdefault(v[1], []).append((v[2][:q], e))
                        if e[0] in ("mk", "mn"):
                            marks.add(e[1])
                return
            if v[0] == "A" and v[1] == "I::IterMut":
                marks.update(v[3][1:])
                f(v[3][0])
                return
            for x in v:
                if type(x) is tuple:
                    f(x)
        for v in value_iter(st):
            f(v)
        if st.dest is not None:
            for q, e in enumerate(st.dest[1]):
                if type(e) is tuple:
                    out.setdefault(st.dest[0], []).append((st.dest[1][:q], e))
        for fr in st.frames:
            if fr[3] is not None:
                for q, e in enumerate(fr[3][1]):
                    if type(e) is tuple:
                        out.setdefault(fr[3][0], []).append((fr[3][1][:q], e))
        return out, marks

    def mentions(self, st):
        """how often each boundary is mentioned, and each element of a collection"""
        cnt, els = {}, {}

        def f(v):
            k = v[0] if v else None
            if k == "e" and len(v) == 2 and type(v[1]) is tuple:
                els[v] = els.get(v, 0) + 1
            for x in v:
                if type(x) is Bd:
                    cnt[x] = cnt.get(x, 0) + 1
                elif type(x) is tuple:
                    f(x)
        for v in st.mem.values():
            if type(v) is tuple:
                f(v)
        for k, v in st.ghost.items():
            if k in ("self", "cur", "keep", "fix", "regions", "parts"):
                continue
            if type(v) is tuple:
                f(v)
            elif type(v) is Bd:
                cnt[v] = cnt.get(v, 0) + 1
        return cnt, els

    def shared(self, st, seg, S):
        """is the inside of an element also referred to from elsewhere?"""
        if len(S) != 1 or S[0][0] != "r":
            return False
        if self.ment is None:
            self.ment = self.mentions(st)
        cnt, els = self.ment
        i, j = st.tape.pos[S[0][1]], st.tape.pos[S[0][2]]
        if j - i < 2:
            return False
        own = {}

        def f(v):
            for x in v:
                if type(x) is Bd:
                    own[x] = own.get(x, 0) + 1
                elif type(x) is tuple:
                    f(x)
        f(seg)
        m = max(1, els.get(seg, 1))
        for q in range(i + 1, j):
            b = st.tape.bids[q]
            if cnt.get(b, 0) > own.get(b, 0) * m:
                return True
        return False

    def collapse_state(self, st):
        pins, marks = self.pins(st)
        self.ment = None
        for c, v in list(st.mem.items()):
            if type(v) is tuple:
                st.mem[c] = self.collapse(st, v, (), pins.get(c, ()), marks)
        for k, v in list(st.ghost.items()):
            if type(v) is tuple:
                st.ghost[k] = self.collapse(st, v, (), (), marks)
        if "fix" in st.ghost:
            self.unfix(st)
        if "form" in st.ghost:
            self.unread(st)

    def unfix(self, st):
        """boundaries inside texts that are read already need not be kept"""
        pos = st.tape.pos
        keep = st.ghost["keep"][1]
        spans = []

        def f(v):
            if v and v[0] == "r" and len(v) == 3 and type(v[1]) is Bd:
                if v[1:] in keep:
                    spans.append(v)
                return
            if v and v[0] == "A" and type(v[1]) is str and v[1].startswith("I::"):
                g(v)
            for x in v:
                if type(x) is tuple:
                    f(x)

        def g(v):
            if v and v[0] == "r" and len(v) == 3 and type(v[1]) is Bd:
                spans.append(v)
                return
            for x in v:
                if type(x) is tuple:
                    g(x)
        for v in st.mem.values():
            if type(v) is tuple:
                f(v)
        left = tuple(b for b in st.ghost["fix"] if any(pos[x[1]] < pos[b] < pos[x[2]] for x in spans))
        if left != st.ghost["fix"]:
            if left:
                st.ghost["fix"] = left
            else:
                del st.ghost["fix"]

    def unread(self, st):
        """what is known about the chunks between boundaries matters until they are read"""
        pos = st.tape.pos
        end = st.ghost["root"][1]
        first = [len(st.tape.items) + 1]

        def reach(s):
            if s[0] == "w":
                S = s[2][1]
            elif s[0] == "e":
                try:
                    S = st.norm(self.spec.flat(self.ip, st, s[1]))
                except Unsupported:
                    return None
            else:
                return None
            return S if S and all(type(x) is not str and x[0] == "r" for x in (S[0], S[-1])) else None

        def f(v):
            if v and v[0] == "V":
                segs = [s for s in v[1] if s[0] != "m"]
                if segs:
                    z = reach(segs[-1])
                    if z is not None and pos[z[-1][2]] == pos[end]:
                        a = z if len(segs) == 1 else reach(segs[0])
                        first[0] = min(first[0], pos[a[0][1]] if a is not None else 0)
            for x in v:
                if type(x) is tuple:
                    f(x)
        for v in st.mem.values():
            if type(v) is tuple:
                f(v)
        g = st.ghost.get("keep")
        if g is not None and "class" not in st.ghost:
            left = tuple(x for x in g[1] if pos[x[0]] >= first[0])
            if left != g[1]:
                st.ghost["keep"] = (g[0], left)
        g = st.ghost.get("regions")
        if g is not None:
            left = tuple(x for x in g if x[4] or pos[x[1]] > first[0])
            if left != g:
                if left:
                    st.ghost["regions"] = left
                else:
                    del st.ghost["regions"]

    def collapse(self, st, v, path, pins, marks):
        if not v:
            return v
        t = v[0]
        if t == "V":
            segs = v[1]
            if segs and "opts" in st.ghost and self.options(st, segs):
                return ("V", self.take_options(st, segs))
            if any(s[0] == "m" and s[1] not in marks for s in segs):
                segs = tuple(s for s in segs if s[0] != "m" or s[1] in marks)
            if not segs:
                return ("V", segs)
            pinned = set()
            for p, e in pins:
                if p == path:
                    try:
                        pinned.add(self.ip.elem_index(st, ("V", segs), e))
                    except Unsupported:
                        pass
                    if e[0] in ("x", "xe"):
                        return ("V", segs)
            return ("V", self.collapse_segs(st, segs, pinned, path, pins, marks))
        if t in ("S", "C", "R", "F", "by", "fmt", "W", "?", "w", "c"):
            return v
        if t == "RV":
            x = v[1]
            if type(x) is tuple:
                y = self.collapse(st, x, None, (), marks)
                return v if y is x else ("RV", y)
            return v
        ch = False
        out = []
        if t == "A" and v[1] in self.spec.info and self.spec.info[v[1]] == (3, "Document") and self.spec.f[v[1]]:
            v = self.forget_meta(st, v)
        if t == "A" or t == "K":
            f = v[3] if t == "A" else v[3]
            for i, x in enumerate(f):
                if type(x) is tuple:
                    y = self.collapse(st, x, path + (i,) if path is not None else None, pins, marks)
                    ch = ch or y is not x
                    out.append(y)
                else:
                    out.append(x)
            return v[:3] + (tuple(out),) if ch else v
        if t == "T":
            for i, x in enumerate(v[1]):
                if type(x) is tuple:
                    y = self.collapse(st, x, path + (i,) if path is not None else None, pins, marks)
                    ch = ch or y is not x
                    out.append(y)
                else:
                    out.append(x)
            return ("T", tuple(out)) if ch else v
        return v

    def forget_meta(self, st, v):
        """the recorded class and options are not part of the text of a document"""
        r = self.spec.f[v[1]]
        f = list(v[3])
        c, o = f[r["documentclass"]], f[r["documentoptions"]]
        if type(c) is tuple and c[0] == "A" and c[3] and type(c[3][0]) is tuple and c[3][0][0] != "?" and "class" not in st.ghost:
            f[r["documentclass"]] = c[:3] + ((unk("class"),),)
        if type(o) is tuple and o[0] == "V" and o[1] and "opts" not in st.ghost and all(s[0] in ("e", "*") for s in o[1]):
            f[r["documentoptions"]] = ("V", (("*", 0, 0, unk("option")),))
        return v[:3] + (tuple(f),)

    def options(self, st, segs):
        """is this a collection of document options?"""
        def option(e):
            return (type(e) is tuple and e[0] == "T" and len(e[1]) == 4 and all(type(x) is tuple and x[0] in ("S", "?") for x in (e[1][0], e[1][1], e[1][3]))
                    and type(e[1][2]) is tuple and (e[1][2][0] == "?" or e[1][2][0] == "A" and len(e[1][2][3]) in (0, 1)))
        return all(s[0] == "*" and s[3] == OPTIONS[3] or s[0] == "e" and option(s[1]) for s in segs)

    def take_options(self, st, segs):
        """compares options with the text they stand for; all that is kept of them is how far they go"""
        for s in segs:
            if s[0] == "e":
                st.ghost["opts"] = Canon.take_option(None, st, s[1][1], *st.ghost["opts"])
        return (OPTIONS,)

    def take_option(self, st, o, at, end, bad):
        t = st.tape
        pos, items = t.pos, t.items
        if bad is not None:
            return at, end, bad
        lost = (at, end, "?")
        given = None
        if o[2][0] == "A" and o[2][3]:
            g = o[2][3][0]
            if not (type(g) is tuple and g[0] == "T" and len(g[1]) == 3):
                return lost
            given = tuple(g[1])
        parts = [o[0], o[1]] + ([given[0], ("S", ("=",)), given[1], given[2]] if given else []) + [o[3]]
        if any(type(x) is not tuple or x[0] != "S" for x in parts) or o[2][0] == "?":
            return lost
        spans = []

        def one(i, c):      # (that it is one character is forgotten when nothing begins or ends there)
            return (i[0] == "T" or i[0] == "B" and i[2]) and i[1] == AB.of(c)
        if at is None:
            return at, end, "more options than there are"
        p = pos[at]
        for x in parts:
            q = p
            for a in (x[1] if x[1] == ("=",) else st.norm(x[1])):
                if type(a) is not str and a[0] == "r":
                    if pos[a[1]] < q:
                        return lost
                    if pos[a[1]] > q:
                        return at, end, "the parts of an option are not its text"
                    q = pos[a[2]]
                elif type(a) is str:
                    for c in a:
                        if q < len(items) and items[q] == ("L", c) or q < len(items) and one(items[q], c):
                            q += 1
                        else:
                            return at, end, "the parts of an option are not its text"
                else:
                    return lost
            spans.append((p, q))
            p = q
        if p > pos[end]:
            return lost

        def holds(sp, m):
            return any((i[0] == "T" or i[0] == "B" and i[2]) and i[1] & m and not i[1] & ~m for i in items[sp[0]:sp[1]])

        def at_end(sp, k, m):
            if sp[0] == sp[1]:
                return False
            i = items[sp[0] if k == 0 else sp[1] - 1]
            return (i[0] == "T" or i[0] == "B" and i[2]) and not i[1] & ~m
        ws = [spans[0], spans[-1]] + ([spans[2], spans[4]] if given else [])
        if any(i[0] == "T" and not i[1] & AB.ws for x in ws for i in items[x[0]:x[1]]):
            return at, end, "something else than white space around an option"
        if at_end(spans[1], 0, AB.ws) or at_end(spans[1], 1, AB.ws) or given and at_end(spans[5], 0, AB.ws):
            return at, end, "white space at the edge of an option"
        if any(holds(x, AB.of(",")) for x in spans):
            return at, end, "an option with a comma in it"
        def within(sp, c):
            return any(i[0] in ("T", "B") and i[1] & AB.of(c) for i in items[sp[0]:sp[1]])
        if holds(spans[1], AB.of("=")) or given and within(spans[1], "=") and spans[5][0] < spans[5][1] and not within(spans[5], "="):
            return at, end, "an equals sign in the name of an option"
        if p == pos[end]:
            return None, end, None
        if one(items[p], ","):
            return t.bids[p + 1], end, None
        return at, end, "the parts of an option are not its text"

    def elem_kind(self, st, e):
        sp = self.spec
        if type(e) is not tuple or not e:
            return None
        if e[0] == "A" and e[1] in sp.info and sp.info[e[1]][1] == "Chunk":
            return "c%d" % sp.info[e[1]][0]
        if e[0] == "T" and len(e[1]) == 2 and type(e[1][0]) is tuple and e[1][0] and e[1][0][0] == "S" \
                and type(e[1][1]) is tuple and e[1][1][0] == "A" and e[1][1][1] in sp.info and sp.info[e[1][1][1]][1] == "Scope":
            return "a%d" % sp.info[e[1][1][1]][0]
        return self.chain_kind(st, e)

    def chain_kind(self, st, e):
        """collection elements made of one bracket kind and two texts: (stage, template)"""
        sp = self.spec
        leaves = []

        def f(v):
            if type(v) is not tuple or not v:
                leaves.append(None)
            elif v[0] == "S":
                leaves.append(v)
            elif v[0] == "A" and v[1] in sp.info and sp.info[v[1]][1] == "ScopeVariant":
                leaves.append(v)
            elif v[0] == "T":
                for x in v[1]:
                    f(x)
            elif v[0] == "A" and v[1] in self.ip.p.adts and self.ip.p.adts[v[1]]["kind"] == "struct" and v[3]:
                for x in v[3]:
                    f(x)
            else:
                leaves.append(None)
        f(e)
        if len(leaves) != 3 or any(x is None for x in leaves):
            return None
        ss = [x for x in leaves if x[0] == "S"]
        vs = [x for x in leaves if x[0] == "A"]
        if len(ss) != 2 or len(vs) != 1:
            return None
        return ("chain",)

    def chain_collapse(self, st, e):
        """-> list of (template, S) readings of element e"""
        sp = self.spec
        out = []
        for order in ((0, 1), (1, 0)):
            n = [0]
            got = {}

            def f(v):
                if v[0] == "S":
                    k = order[n[0]]
                    n[0] += 1
                    r = "prec" if k == 0 else "content"
                    got[r] = v
                    return ("hole", r)
                if v[0] == "A" and v[1] in sp.info and sp.info[v[1]][1] == "ScopeVariant":
                    got["variant"] = v
                    return ("hole", "variant")
                if v[0] == "T":
                    return ("T", tuple(f(x) for x in v[1]))
                return v[:3] + (tuple(f(x) for x in v[3]),)
            t = f(e)
            d = sp.delims(got["variant"])
            S = st.norm(got["prec"][1] + (d[0],) + got["content"][1] + (d[1],))
            if S:
                h = HINT.get(shape(t))
                if h is None or h == t:
                    out.append(((sp.info[got["variant"][1]][0], t), S))
                    self.cprec[t] = got["prec"]
        return out

    def collapse_segs(self, st, segs, pinned, path, pins, marks):
        sp = self.spec
        kind = None
        for s in segs:
            if s[0] == "e":
                kind = self.elem_kind(st, s[1])
                break
            if s[0] in ("w", "c"):
                kind = s[1]
                break
        if kind is not None and type(kind) is str and any(s[0] == "*" for s in segs):
            kind = None
        if kind is not None and type(kind) is str:
            return self.collapse_run(st, segs, pinned, kind)
        if kind is not None and (kind[0] == "chain" or type(kind[0]) is int):
            return self.collapse_chain(st, segs, pinned, marks)
        return self.collapse_star(st, segs, pinned, path, pins, marks)

    def anchor(self, st, atoms):
        """brackets that are only structure: their place on the tape"""
        if len(atoms) != 1 or type(atoms[0]) is not str or not set(atoms[0]) <= STRUCT:
            return atoms
        text = atoms[0]
        cov = self.covered(st, ("root", "self"))
        items = st.tape.items
        for i in range(len(items) - len(text), -1, -1):
            if all(i + q not in cov and items[i + q][0] == "T" and not items[i + q][2]
                   and AB.single(items[i + q][1]) == c for q, c in enumerate(text)):
                return (("r", st.tape.bids[i], st.tape.bids[i + len(text)]),)
        return atoms

    def follow(self, st, atoms, out):
        """text of known characters: its place on the tape, if it is where the elements before it end"""
        if not atoms or type(atoms[0]) is not str:
            return atoms
        at = st.ghost["root"][0]
        for s in reversed(out):
            S = s[2][1] if s[0] == "w" else None
            if S is None and s[0] == "e":
                try:
                    S = st.norm(self.spec.flat(self.ip, st, s[1]))
                except Unsupported:
                    return atoms
            if S is None or (S and (type(S[-1]) is str or S[-1][0] != "r")):
                return atoms
            if S:
                at = S[-1][2]
                break
        e, rest = st._absorb(st.tape.pos[at], atoms[0])
        if e is None:
            return atoms
        return st.norm((("r", at, st.tape.bids[e]), rest) + tuple(atoms[1:]))

    def collapse_run(self, st, segs, pinned, kind):
        sp = self.spec
        out = []
        cur = None      # (atoms, L or None)
        for i, s in enumerate(segs):
            if s[0] == "m" or i in pinned or s[0] not in ("e", "w"):
                if cur is not None:
                    out.append(("w", kind, ("S", cur[0]), cur[1]))
                    cur = None
                out.append(s)
                continue
            if s[0] == "w":
                S, L = s[2][1], s[3]
                if not S:
                    continue
            else:
                try:
                    S = st.norm(sp.flat(self.ip, st, s[1]))
                except Unsupported:
                    S = None
                if S is None:
                    if cur is not None:
                        out.append(("w", kind, ("S", cur[0]), cur[1]))
                        cur = None
                    out.append(s)
                    continue
                if cur is None:
                    S = self.follow(st, S, out) if "form" in st.ghost and kind == "c3" else self.anchor(st, S)
                elif S and type(S[0]) is str and cur[0] and type(cur[0][-1]) is not str and cur[0][-1][0] == "r":
                    J = st.norm(cur[0] + S)
                    if len(J) == 1 and J[0][0] == "r":
                        S = (("r", cur[0][-1][2], J[0][2]),)
                keep = st.ghost.get("keep")
                if self.shared(st, s, S) or (keep is not None and kind in (keep[0], "a" + keep[0][1:]) and len(S) == 1 and S[0][0] == "r" and S[0][1:] in keep[1]):
                    if cur is not None:
                        out.append(("w", kind, ("S", cur[0]), cur[1]))
                        cur = None
                    out.append(s)
                    continue
                L = None
                if kind[0] == "c":
                    L = sp.field(s[1], "line")
                    if type(L) not in (int, Lin):
                        L = None
                    self.check_elem(st, s[1], S, int(kind[1]))
                    if not self.inner_lines(st, s[1], kind):
                        self.bad_line(st)
                        L = None
                else:
                    shape_.note(st, shape_.arg_faults(self.ip, sp, st, ("V", (s,))))
                    if not self.inner_lines(st, s[1], kind):
                        self.bad_line(st)
                        st.ghost["argbad"] = True
            if cur is None:
                cur = (S, L)
                continue
            J = st.norm(cur[0] + S)
            if len(J) > 1:
                out.append(("w", kind, ("S", cur[0]), cur[1]))
                cur = (S, L)
                continue
            if kind[0] == "c":
                if L is None or cur[1] is None:
                    L2 = None
                else:
                    L2 = cur[1]
                    if sub(L, add(cur[1], st.NS(cur[0]))) != 0:
                        self.bad_line(st)
                        L2 = None
            else:
                L2 = None
            cur = (J, L2)
        if cur is not None:
            out.append(("w", kind, ("S", cur[0]), cur[1]))
        # bound the number of separate runs
        ws = [i for i, s in enumerate(out) if s[0] == "w"]
        if len(ws) > (4 if "keep" not in st.ghost else 5 + len(st.ghost["keep"][1])):
            if "form" in st.ghost:
                st.ghost["loose"] = True
            return (("*", 0, 0, unk("elements")),)
        return tuple(out)

    def bad_line(self, st):
        self.notes.setdefault("line", set()).add(self.where(st))

    def where(self, st):
        fn = st.fn
        for f in list(reversed(st.frames)):
            if fn is not None and not fn.model:
                break
            fn = f[0]
        return fn.name if fn is not None else "?"

    def inner_lines(self, st, e, kind):
        """are the line numbers inside element e consistent (nested content starts at line 1)?"""
        sp = self.spec
        ok_ = [True]

        def f(v):
            if type(v) is not tuple or not v:
                return
            if v[0] == "A" and v[1] in sp.info:
                stage, name = sp.info[v[1]]
                if name in ("Scope", "Environment", "MathsBlock"):
                    role = "chunks" if name == "Scope" else "content"
                    c = sp.field(v, role)
                    b = sp.base_of(self.ip, st, c)
                    x = self.ip.full(st, c)
                    if x[0] == "V" and x[1] and b != 1:
                        if b is None or sub(b, 1) != 0:
                            ok_[0] = False
            for x in v[-1] if v[0] in ("A", "T") else (v[1] if v[0] == "V" else ()):
                if type(x) is tuple:
                    f(x[1] if v[0] == "V" and x[0] == "e" else x)
        f(e)
        return ok_[0]

    def check_elem(self, st, e, S, stage):
        """shape of a chunk that the views rely on"""
        v = self.spec.field(e, "variant")
        if type(v) is tuple and v and v[0] == "W":
            return
        shape_.note(st, shape_.faults(self.ip, self.spec, st, v, stage, S))

    def collapse_chain(self, st, segs, pinned, marks):
        """completed elements contiguous on the tape become one chain; the last element stays explicit"""
        sp = self.spec
        lastm = max([i for i, s in enumerate(segs) if s[0] == "m"], default=-1)
        idx = [i for i, s in enumerate(segs) if s[0] != "m"]
        out = []
        cur = None
        last_e = idx[-1] if idx else None
        for i, s in enumerate(segs):
            if s[0] == "m":
                if cur is not None:
                    out.append(("c", cur[0], ("S", cur[1])))
                    cur = None
                out.append(s)
                continue
            if s[0] == "*":
                out.append(s)
                continue
            if s[0] == "e":
                if i in pinned:
                    if cur is not None:
                        out.append(("c", cur[0], ("S", cur[1])))
                        cur = None
                    out.append(s)
                    continue
                opts = self.chain_collapse(st, s[1]) if self.chain_kind(st, s[1]) else []
                if i < lastm and not opts:
                    # consumed by the running iteration
                    if out and out[-1][0] == "*":
                        continue
                    out.append(("*", 0, 0, unk("consumed element")))
                    continue
                if i == last_e and not marks & {x[1] for x in segs if x[0] == "m"}:
                    if cur is not None:
                        out.append(("c", cur[0], ("S", cur[1])))
                        cur = None
                    out.append(s)
                    continue
                hit = None
                for k, S in opts:
                    if cur is not None and cur[0] != k:
                        continue
                    J = st.norm((cur[1] if cur else ()) + S)
                    if len(J) == 1 and J[0][0] == "r":
                        hit = (k, J)
                        break
                if len(opts) > 1 and all(type(S[0]) is str and len(S) == 1 for _, S in opts):
                    # no text at all: which text is which is not visible yet
                    WANT_HINT[0] = True
                    hit = None
                    opts = []
                if hit is None and opts:
                    opts = [(k, self.anchor(st, S)) for k, S in opts]
                    ro = [o for o in opts if len(o[1]) == 1 and o[1][0][0] == "r"]
                    if cur is not None:
                        out.append(("c", cur[0], ("S", cur[1])))
                        cur = None
                    if ro:
                        hit = ro[0]
                if hit is not None and shape(hit[0][1]) not in HINT:
                    HINT[shape(hit[0][1])] = hit[0][1]
                    if WANT_HINT[0]:
                        core.CONTROL_DIRTY[0] = True
                if hit is not None:
                    own = hit[1] if cur is None or cur[1][-1][2] not in st.tape.pos else (("r", cur[1][-1][2], hit[1][-1][2]),)
                    cur = hit
                    bad = shape_.mask_of(st, self.cprec[hit[0][1]][1]) & ~AB.ws
                    if bad:
                        shape_.note(st, [("command", "argument", "the text before an argument may contain " + AB.show(bad))])
                    if st.mon is not None:
                        shape_.note(st, shape_.grammar(self.ip, sp, st, s[1], "argument", own))
                    continue
                if cur is not None:
                    out.append(("c", cur[0], ("S", cur[1])))
                    cur = None
                out.append(s)
                continue
            # existing chain
            if not s[2][1]:
                continue
            if cur is not None and cur[0] == s[1]:
                J = st.norm(cur[1] + s[2][1])
                if len(J) == 1:
                    cur = (cur[0], J)
                    continue
            if cur is not None:
                out.append(("c", cur[0], ("S", cur[1])))
            cur = (s[1], s[2][1])
        if cur is not None:
            out.append(("c", cur[0], ("S", cur[1])))
        mi = next((i for i, x in enumerate(out) if x[0] == "m"), -1)
        if mi > 1 and not any(i in pinned for i, x in enumerate(segs[:lastm]) if x[0] == "e"):
            # separate elements already passed by the running iteration
            out[:mi] = [("*", 0, 0, unk("consumed element"))]
        if len(out) > 6 and not any(s[0] == "m" for s in out):
            return (("*", 0, 1, unk("elements")),)
        return tuple(out)

    def collapse_star(self, st, segs, pinned, path, pins, marks):
        """keep the first element; the others become an unknown number of unknown elements"""
        if len(segs) <= 8 and all(s[0] == "e" and ground(s[1]) for s in segs) and len({s[1] for s in segs}) == len(segs):
            return segs
        out = []
        nm = [s for s in segs if s[0] != "m"]
        lastm = max([i for i, s in enumerate(segs) if s[0] == "m"], default=-1)
        seen = 0
        # where the input is known to nest two deep, so are stacks of what it nests
        most = 3 if "form" in st.ghost else 1
        star = None
        for i, s in enumerate(segs):
            if s[0] == "m":
                if star is not None:
                    out.append(star)
                    star = None
                out.append(s)
                seen = 0
                continue
            if s[0] == "e" and (i in pinned):
                if star is not None:
                    out.append(star)
                    star = None
                out.append(s)
                continue
            if s[0] == "e" and seen < most and star is None:
                x = s[1]
                if type(x) is tuple:
                    x = self.collapse(st, x, None, (), marks)
                out.append(("e", x))
                seen += 1
                continue
            lo = 1 if s[0] == "e" else (s[2] if s[0] == "*" else 0)
            tm = s[3] if s[0] == "*" else unk("element")
            star = ("*", 0, min(1, (star[2] if star else 0) + lo), unk("element") if star else
                    (tm if s[0] == "*" else unk("element")))
        if star is not None:
            out.append(star)
        if "form" in st.ghost and any(s[0] == "*" for s in out):
            st.ghost["loose"] = True
        return tuple(out)

    # ---- tape ---------------------------------------------------------------------------------
    def covered(self, st, skip=("root",)):
        """tape item indices inside some live text"""
        cov = set()
        pos = st.tape.pos

        def f(v):
            if type(v) is tuple and v:
                if v[0] == "r" and len(v) == 3 and type(v[1]) is Bd:
                    cov.update(range(pos[v[1]], pos[v[2]]))
                    return
                if v[0] == "W" and type(v[2]) is Bd:
                    cov.update(range(pos[v[2]], pos[v[3]]))
                    return
                if v[0] == "C":
                    cov.add(pos[v[1]])
                    return
                for x in v:
                    if type(x) is tuple:
                        f(x)
        for v in st.mem.values():
            if type(v) is tuple:
                f(v)
        for k, v in st.ghost.items():
            if type(v) is tuple and k not in skip and k != "keep":
                f(v)
        return cov

    def tidy_tape(self, st):
        if not st.tape.bids:
            return
        # comment characters nobody kept
        if any(it[0] == "T" and it[2] for it in st.tape.items):
            cov = self.covered(st)
            for i in range(len(st.tape.items) - 1, -1, -1):
                it = st.tape.items[i]
                if it[0] == "T" and it[2] and i not in cov:
                    st.del_item(i)
        bs, cs = live_bounds(st)
        runs = set()

        def f(v):
            if type(v) is tuple and len(v) == 4 and v[0] == "w":
                for a in v[2][1]:
                    if type(a) is tuple and a[0] == "r":
                        runs.add((a[1], a[2]))
        for v in st.mem.values():
            if type(v) is tuple:
                walk(v, f)
        t = st.tape
        inrun = set()
        for a, b in runs:
            inrun.update(range(t.pos[a], t.pos[b]))
        nb = [t.bids[0]]
        ni = []
        i = 0
        cov = self.covered(st)
        solids = 0
        n = len(t.items)
        items = t.items
        vids = {}
        while i < n:
            it = items[i]
            if it[0] in ("G", "IN") or t.bids[i] in cs or (it[0] == "T" and it[2]):
                ni.append(it)
                i += 1
                nb.append(t.bids[i])
                continue
            def solid(q):
                # a bracket or backslash that only exists as part of the structure of a value
                x = items[q]
                return q not in cov and x[0] == "T" and AB.single(x[1]) in STRUCT
            if solid(i) and solids < 40:
                solids += 1
                ni.append(it)
                i += 1
                nb.append(t.bids[i])
                continue
            j = i + 1
            while j < n and t.bids[j] not in bs and t.bids[j] not in cs and items[j][0] in "TLB" \
                    and not (items[j][0] == "T" and items[j][2]) and not (solid(j) and solids < 40):
                j += 1
            lit = any(x[0] == "G" for x in items[:i])
            if j == i + 1 and it[0] == "T" and it[1] & ~shape_.ALPHA and i and i not in inrun \
                    and items[i - 1][0] == "T" and AB.single(items[i - 1][1]) == "\\":
                # a command of one character that is no letter
                ni.append(it)
                i = j
                nb.append(t.bids[i])
                continue
            ni.append(merge_items(st, items[i:j], i in inrun and (not lit or all(x[0] != "L" for x in items[i:j])), lit))
            i = j
            nb.append(t.bids[i])
        # drop strings nobody refers to any more
        st.tape = Tape(nb, ni)
        t = st.tape
        segs = []
        s0 = 0
        for i, it in enumerate(t.items):
            if it[0] == "G":
                segs.append((s0, i))
                s0 = i + 1
        segs.append((s0, len(t.items)))
        if len(segs) > 1:
            keepseg = [sg for sg in segs if any(t.bids[q] in bs or t.bids[q] in cs for q in range(sg[0], sg[1] + 1))]
            if len(keepseg) != len(segs):
                bids, its = [], []
                for a, b in keepseg:
                    if bids:
                        its.append(("G",))
                    bids += t.bids[a:b + 1]
                    its += t.items[a:b]
                st.tape = Tape(bids, its)
        # equalities that tie nothing
        cnt = {}
        for it in st.tape.items:
            if it[0] == "B" and it[4] is not None:
                cnt[it[4]] = cnt.get(it[4], 0) + 1
        if any(c < 2 for c in cnt.values()):
            st.tape = Tape(st.tape.bids, [it[:4] + (None,) + it[5:] if it[0] == "B" and it[4] is not None and cnt[it[4]] < 2
                                          else it for it in st.tape.items])

    # ---- canonical naming ---------------------------------------------------------------------
    def canon(self, st):
        """rewrite st into canonical form: -> (key, template, vector)"""
        kill_dead(st)
        self.collapse_state(st)
        kill_dead(st)
        self.tidy_tape(st)
        ren = {b: Bd(i) for i, b in enumerate(st.tape.bids)}
        # heap cells in order of first mention
        cells = {}
        order = sorted(k for k in st.mem if k < HEAP)

        def visit(v):
            if v[0] == "R" and len(v) == 3 and type(v[1]) is int:
                c = v[1]
                if c >= HEAP and c not in cells:
                    cells[c] = HEAP + len(cells)
                    x = st.mem.get(c)
                    if type(x) is tuple:
                        visit(x)
                return
            for x in v:
                if type(x) is tuple and x:
                    visit(x)
        for k in order:
            v = st.mem[k]
            if type(v) is tuple and v:
                visit(v)
        for d in [st.dest] + [f[3] for f in st.frames]:
            if d is not None and d[0] >= HEAP and d[0] not in cells:
                cells[d[0]] = HEAP + len(cells)
        vec = []
        paths = []
        marks = {}
        stars = [0]
        vids = {}

        def slot(x, path):
            vec.append(x)
            paths.append(path)
            return Lin(0, ((len(vec) - 1, 1),))
        # newline counts of the tape first: they make the best pivots
        items = []
        tmeta = []
        for it in st.tape.items:
            if it[0] == "B":
                vid = it[4]
                if vid is not None:
                    vid = vids.setdefault(vid, len(vids))
                nl = bool(it[1] & AB.nl)
                n = it[3]
                items.append(("B", it[1], it[2], slot(n, ("N",)), vid, it[5]))
            else:
                items.append(it)

        def go(v, path):
            t = type(v)
            if t is Bd:
                return ren[v]
            if t is Lin or t is int:
                return slot(v, path)
            if t is not tuple or not v:
                return v
            k = v[0]
            if k == "R" and len(v) == 3 and type(v[1]) is int:
                return ("R", cells.get(v[1], v[1]), tuple(gp(e) for e in v[2]))
            if k == "m" and len(v) == 2 and type(v[1]) is int:
                return ("m", mark(v[1]))
            if k == "A":
                if v[1] == "I::IterMut":
                    return ("A", v[1], 0, (go(v[3][0], path),) + tuple(mark(x) for x in v[3][1:]))
                return ("A", v[1], v[2], tuple(go(x, path + (i,)) for i, x in enumerate(v[3])))
            if k == "K":
                return ("K", v[1], v[2], tuple(go(x, path + (i,)) for i, x in enumerate(v[3])))
            if k == "T":
                return ("T", tuple(go(x, path + (i,)) for i, x in enumerate(v[1])))
            if k == "V":
                out = []
                for i, s in enumerate(v[1]):
                    if s[0] == "*":
                        stars[0] += 1
                        out.append(("*", stars[0], s[2], s[3]))
                    else:
                        out.append(go(s, path + (("s", i),)))
                return ("V", tuple(out))
            if k in ("F", "by", "?"):
                return v
            if k == "u":
                return ("u", v[1], go(v[2], path)) + v[3:]
            if k == "c":
                return ("c", v[1], go(v[2], path))
            return tuple(go(x, path + (i,)) if type(x) in (tuple, Lin, int, Bd) else x for i, x in enumerate(v))

        def gp(e):
            if type(e) is tuple and e[0] in ("mk", "mn"):
                return (e[0], mark(e[1]))
            return e

        def mark(m):
            if m not in marks:
                marks[m] = (1 << 30) + len(marks)
            return marks[m]
        mem = {}
        for k in order:
            mem[k] = go(st.mem[k], (k,))
        for c, c2 in sorted(cells.items(), key=lambda x: x[1]):
            if c in st.mem:
                mem[c2] = go(st.mem[c], (c2,))
        ghost = {k: go(v, ("g", k)) for k, v in sorted(st.ghost.items(), key=lambda x: repr(x[0]))}
        mon = go(st.mon, ("mon",)) if st.mon is not None else None

        def gd(d):
            return None if d is None else (cells.get(d[0], d[0]), tuple(gp(e) for e in d[1]))
        frames = tuple((f[0], f[1], f[2], gd(f[3]), f[4], f[5]) for f in st.frames)
        dest = gd(st.dest)
        # masks are joined, everything else identifies the abstract state
        kitems = []
        for it in items:
            if it[0] == "B":
                kitems.append(("B", it[4], PARSED_TOK in it[5]))
            elif it[0] == "T":
                s = AB.single(it[1])
                kitems.append(("T", s if s is not None else "?", it[2]))
            else:
                kitems.append(it)
        key = (st.fn.name, st.bb, st.depth,
               tuple((f[0].name if f[0] else None, f[1], f[3], tuple(sorted(f[4].items())), f[5] if not callable(f[5]) else "cb")
                     for f in frames), dest, st.onret if not callable(st.onret) else "cb",
               tuple(kitems), tuple(sorted(mem.items())), tuple(sorted(ghost.items(), key=lambda x: repr(x[0]))), mon,
               tuple(sorted(st.substs.items())))
        s2 = st.copy()
        s2.mem = mem
        s2.ghost = ghost
        s2.mon = mon
        s2.frames = frames
        s2.dest = dest
        s2.tape = Tape([ren[b] for b in st.tape.bids], items)
        s2.nbd = len(ren)
        s2.cons = ()
        return key, s2, vec, paths


PARSED_TOK = "\0parsed"


class Entry:
    __slots__ = ("key", "tmpl", "aff", "lbs", "n", "visits", "queued", "preds", "paths", "id", "parent")


def frac(x):
    return Fraction(x)


class Fix:
    """fixpoint over canonical head states"""

    def __init__(self, ip, spec, log=None, max_entries=6000, deadline=None, stop=None):
        self.stop = stop
        self.ip = ip
        self.spec = spec
        self.cn = Canon(ip, spec)
        self.entries = {}
        self.work = []
        self.done = []        # final states (callback results)
        self.taints = {}
        self.panics = {}
        self.log = log
        self.max_entries = max_entries
        self.deadline = deadline
        self.steps = 0
        self.on_done = None
        self.on_panic = None
        self.paths_done = 0
        self.probes = {}
        self.head = None
        self.turns = 0          # iterations of loops seen to change something

    # -- arrival at a head
    def arrive(self, st, parent, top=False):
        if top:
            self.nsplit = 0
        key, t, vec, paths = self.cn.canon(st)
        # counters compared with constants are partitioned by value
        if core.CONTROL:
            extra = []
            for i, p in enumerate(paths):
                if (key[0], key[1], p) in core.CONTROL or self.is_ctl(key, p):
                    x = vec[i]
                    d = self.ctl_class(st, x)
                    if d is None:
                        self.split_ctl(st, x, parent)
                        return
                    extra.append((i, d))
            key = key + (tuple(extra),)
        n = len(vec)
        cols = {}
        for x in vec:
            if type(x) is Lin:
                for p, _ in x.t:
                    if p not in cols:
                        cols[p] = len(cols)
        pt = [Fraction(x.c) if type(x) is Lin else Fraction(x) for x in vec]
        dirs = []
        for p in cols:
            dirs.append([self.coef(x, p) for x in vec])
        lbs = []
        for x in vec:
            l = st.lb(x)
            if l is None and type(x) is Lin:
                for b in (2, 1, 0):
                    if st.ge0(sub(x, b)):
                        l = b
                        break
            lbs.append(None if l is None else min(l, 2))
        e = self.entries.get(key)
        if e is None:
            e = Entry()
            e.key = key
            e.tmpl = t
            e.aff = Aff(pt)
            for d in dirs:
                e.aff.add_dir(d)
            e.lbs = lbs
            e.n = n
            e.visits = 0
            e.paths = paths
            e.id = len(self.entries)
            e.parent = parent
            e.queued = True
            self.entries[key] = e
            self.work.append(e)
            if len(self.entries) > self.max_entries:
                raise Limit("too many abstract states")
            return
        ch = e.aff.join(pt, dirs)
        for i, l in enumerate(lbs):
            o = e.lbs[i]
            if o is None:
                continue
            if l is None or l < o:
                e.lbs[i] = l
                ch = True
        # masks
        its = list(e.tmpl.tape.items)
        ich = False
        for i, (a, b) in enumerate(zip(its, t.tape.items)):
            if a[0] == "B":
                m = a[1] | b[1]
                ne = a[2] and b[2]
                nq = a[5] & b[5]
                if (m, ne, nq) != (a[1], a[2], a[5]):
                    its[i] = ("B", m, ne, a[3], a[4], nq)
                    ich = True
            elif a[0] == "T":
                m = a[1] | b[1]
                if m != a[1]:
                    its[i] = ("T", m, a[2])
                    ich = True
        if ich:
            e.tmpl.tape = Tape(e.tmpl.tape.bids, its)
            ch = True
        if ch and not e.queued:
            e.queued = True
            self.work.append(e)

    @staticmethod
    def coef(x, p):
        if type(x) is Lin:
            for q, k in x.t:
                if q == p:
                    return Fraction(k)
        return Fraction(0)

    def is_ctl(self, key, p):
        return (p,) in core.CONTROL

    def ctl_class(self, st, x):
        if type(x) is not Lin:
            return x if x < 2 else 2
        if st.ge0(sub(x, 2)):
            return 2
        return None

    def split_ctl(self, st, x, parent):
        self.nsplit += 1
        if self.nsplit > 20:
            self.nsplit = 0
            raise Unsupported("value of a counter")
        for f in ((lambda s: s.assume_eq0(x)), (lambda s: s.assume_eq0(sub(x, 1))), (lambda s: s.assume_ge0(sub(x, 2)))):
            s = st.copy()
            try:
                f(s)
            except Infeasible:
                continue
            self.arrive(s, parent)

    def instantiate(self, e):
        t = e.tmpl
        s = t.copy()
        s.mem = dict(t.mem)
        s.lbs = {}
        s.cons = ()
        s.nparam = 0
        s.origin = {}
        ex = e.aff.exprs()
        piv = {}
        for i in e.aff.piv:
            pass
        m = {}
        pend = []
        pv = sorted(e.aff.piv)
        for i in pv:
            p = s.newp(e.lbs[i])
            if e.lbs[i] is None:
                s.lbs.pop(p.t[0][0], None)
            piv[i] = p
            o = e.paths[i]
            if o == ("N",):
                # a counter that happens to equal the newlines of a text
                o = None
                for q, (c, d) in enumerate(ex):
                    if q != i and d == {i: 1} and len(e.paths[q]) == 1 and type(e.paths[q][0]) is int and e.paths[q][0] < HEAP:
                        o = e.paths[q]
                        break
            if o is not None:
                s.origin[p.t[0][0]] = (e.key[0], e.key[1], o)
        for i, (c, d) in enumerate(ex):
            v = int(c) if c.denominator == 1 else c
            for j, k in d.items():
                v = add(v, piv[j], int(k) if k.denominator == 1 else k)
            m[i] = v
            if i not in piv and e.lbs[i] is not None and type(v) is Lin:
                pend.append(sub(v, e.lbs[i]))
        np = s.nparam

        def f(x):
            if type(x) is Lin:
                r = subst(x, m2)
                return r
            return x
        # slots are params 0..n-1 of the template: move them out of the way of the fresh params
        off = 1 << 20
        m2 = {}
        for i, v in m.items():
            m2[i] = v

        def sl(x):
            if type(x) is Lin and len(x.t) == 1 and x.c == 0:
                return m[x.t[0][0]]
            return x
        mem = s.mem
        for k, v in mem.items():
            if type(v) is tuple:
                mem[k] = vmap(v, sl)
            elif type(v) is Lin:
                mem[k] = sl(v)
        s.ghost = {k: vmap(v, sl) if type(v) is tuple else sl(v) for k, v in t.ghost.items()}
        if s.mon is not None:
            s.mon = vmap(s.mon, sl)
        s.tape = Tape(t.tape.bids, [it[:3] + (sl(it[3]),) + it[4:] if it[0] == "B" else it for it in t.tape.items])
        for g in pend:
            if not s.ge0(g):
                s.cons = s.cons + (g,)
        s.nbd = t.nbd + 1000
        for i, it in enumerate(s.tape.items):
            if it[0] == "B" and it[4] is not None:
                s.nbd = max(s.nbd, it[4] + 1)
        return s

    def run(self, inits):
        import time
        todo = [(s, None) for s in inits]
        while True:
            while todo:
                st, parent = todo.pop()
                now = time.time()
                if self.deadline and now > self.deadline:
                    raise Limit("time limit")
                if self.stop and self.stop(now):
                    raise Limit("stopped after an alarm")
                r = self.ip.step_to_head(st)
                self.steps += 1
                if r[0] == "head":
                    if parent is not None and self.same(r[1]):
                        self.on_panic(r[1], ENDLESS, "", parent)
                        continue
                    self.probe(r[1], parent)
                    try:
                        self.arrive(r[1], parent, True)
                    except (Unsupported, KeyError, ValueError, IndexError, TypeError, AttributeError) as u:
                        k = "%s at loop head of %s" % (u if type(u) is Unsupported else repr(u)[:80], r[1].fn.name)
                        self.taints[k] = self.taints.get(k, 0) + 1
                    except Infeasible:
                        pass
                elif r[0] == "fork":
                    for s in r[1]:
                        todo.append((s, parent))
                elif r[0] == "done":
                    self.paths_done += 1
                    self.on_done(r[1], r[2], parent)
                elif r[0] == "panic":
                    self.on_panic(r[1], r[2], r[3], parent)
                else:
                    self.taints[r[2]] = self.taints.get(r[2], 0) + 1
                if core.CONTROL_DIRTY[0]:
                    raise Restart()
            if not self.work:
                return
            # stable entries first: process in order of creation
            e = self.work.pop()
            e.queued = False
            e.visits += 1
            if e.visits > 60:
                raise Limit("no convergence at " + e.key[0])
            s = self.instantiate(e)
            self.head = self.snap(s)
            todo.append((s, e))

    @staticmethod
    def snap(s):
        return (s.fn, s.bb, s.depth, s.frames, dict(s.mem), s.tape.items[-1:])

    def probe(self, st, parent):
        """one more turn of a loop with all that is known after the last, before any of it is given up"""
        k = (st.fn, st.bb)
        n = self.probes.get(k, 0)
        if n >= 100:
            return
        self.probes[k] = n + 1
        keep = self.head
        st = st.copy()
        self.head = self.snap(st)
        todo = [st]
        for _ in range(60):
            if not todo:
                break
            r = self.ip.step_to_head(todo.pop())
            if r[0] == "fork":
                todo.extend(r[1])
            elif r[0] == "head" and self.same(r[1]):
                self.on_panic(r[1], ENDLESS, "", parent)
                break
        self.head = keep

    def same(self, st):
        """did an iteration of a loop leave everything as it was that decides how the loop goes on?"""
        fn, bb, d, frames, mem, last = self.head
        if st.fn is not fn or st.bb != bb or st.depth != d or st.frames != frames:
            return False
        self.turns += 1
        if ("IN",) in last and st.tape.items[-1:] != last:
            return False
        for k in reach(st, [(d << 12) | l for l in decides(self.ip.p, fn, bb)]):
            v, w = mem.get(k), st.mem[k]
            if v is not w and (v is None or type(v) is not type(w) or v != w):
                return False
            if has_unk(v):
                return False
        return True


ENDLESS = "endless: nothing that decides the way of the loop has changed since it was last here"
_decides = {}


def decides(prog, fn, bb):
    """the live locals at a loop head that may have an influence on the way through the loop and out of it"""
    key = (fn, bb)
    if key in _decides:
        return _decides[key]
    from rules import components
    succ = [prog.succs(b[1]) for b in fn.blocks]
    loop = next((c for c in components(len(succ), succ) if bb in c), set(range(len(succ))))
    rel = set()

    def ops(x, out):
        """locals in an operand, rvalue or place"""
        if type(x) in (tuple, list):
            if len(x) == 2 and type(x[0]) is int and type(x[1]) in (tuple, list):
                out.add(x[0])
                for e in x[1]:
                    if type(e) in (tuple, list) and e and e[0] == "i":
                        out.add(e[1])
                return
            for y in x:
                ops(y, out)

    def locs(x):
        out = set()
        ops(x, out)
        return out
    while True:
        n = len(rel)
        for i in loop:
            sts, t, _, _ = fn.blocks[i]
            for s in sts:
                if s[0] == "=":
                    to, fr = locs(s[1]), locs(s[2])
                    # what is borrowed may be changed through what borrows it
                    if to & rel or (s[2][0] in ("ref", "rawptr") and fr & rel) or \
                            (s[2][0] in ("use", "cast", "agg") and fr & rel and any(prog.types[fn.locals[x]][0] not in ("int", "uint", "bool", "char") for x in to)):
                        rel |= to | fr
                elif s[0] not in ("=",) and locs(s[1:]) & rel:
                    rel |= locs(s[1:])
            if t[0] == "switch":
                rel |= locs(t[1])
            elif t[0] == "call":
                x = locs(t[1:4])
                if x & rel:
                    rel |= x
        if len(rel) == n:
            break
    rel &= set(fn.livein[bb])
    _decides[key] = rel
    return rel


def has_unk(v):
    if type(v) is tuple and v:
        return v[0] == "?" or v[0] == "*" or any(has_unk(x) for x in v)
    return False


class Limit(Exception):
    pass


class Restart(Exception):
    pass


def solve(ip, spec, mk_inits, on_done, on_panic, **kw):
    """run to a fixpoint, restarting when a new loop counter has to be partitioned.
    Alarms raised before the fixpoint is reached are recomputed: only stable states count."""
    core.CONTROL.clear()
    HINT.clear()
    while True:
        core.CONTROL_DIRTY[0] = False
        WANT_HINT[0] = False
        fx = Fix(ip, spec, **kw)
        fx.on_done = lambda *a: None
        fx.on_panic = lambda *a: None
        fx.on_done = on_done
        fx.on_panic = on_panic
        try:
            fx.run(mk_inits(fx))
            return fx
        except Restart:
            continue
