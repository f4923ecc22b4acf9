"""Abstract semantics of the std functions reachable from the analysed crate."""
from core import *
from core import AB
import core
from lin import *

FMT = "I::Formatter"
STRINGS = ("std::string::String",)
M = "M::"


def It(name, *f):
    return ("A", "I::" + name, 0, tuple(f))


def isit(v, name):
    return type(v) is tuple and v[0] == "A" and v[1] == "I::" + name


class Builtins:
    def __init__(self, ip):
        self.ip = ip
        self.uid = 0
        self.pred_masks = {}
        t = {}
        for n in dir(self):
            if n.startswith("f_"):
                f = getattr(self, n)
                for k in (f.__doc__ or "").split():
                    t[k] = f
        self.table = t
        m = {}

        def mod(keys, name):
            for k in keys.split():
                m[k] = name
        for n in ("map filter filter_map map_while inspect chain flat_map flatten skip take skip_while take_while "
                  "enumerate zip rev cloned copied fuse peekable scan fold reduce for_each last partition").split():
            m["Iterator::" + n] = n
        for n in "any all find find_map position nth try_fold try_for_each".split():
            m["Iterator::" + n] = n
        m["Peekable::peek"] = "Peekable<I>::peek"
        m["Peekable::next_if"] = "Peekable<I>::next_if"
        mod("Option::map", "opt::map")
        for n in ("map and_then map_or map_or_else unwrap_or unwrap_or_else is_some_and is_none_or filter ok_or ok_or_else or "
                  "or_else and is_some is_none as_ref as_mut cloned copied take replace zip flatten unwrap expect insert "
                  "get_or_insert_with").split():
            m["Option::" + n] = "opt::" + n
        for n in ("map map_err inspect_err and_then or_else unwrap_or unwrap_or_else is_ok is_err ok err unwrap expect "
                  "unwrap_err as_ref as_mut map_or map_or_else is_ok_and is_err_and and or expect_err").split():
            m["Result::" + n] = "res::" + n
        m["bool::then"] = "boolm::then"
        m["bool::then_some"] = "boolm::then_some"
        m["Vec::retain"] = "retain"
        m["option::Option::iter"] = "option_iter"
        self.models = {k: v for k, v in m.items() if M + v in ip.p.fns}
        self.peek = {}
        for n in ip.p.fns:
            if n.startswith("M::") and "Peekable" in n:
                self.peek[n.split("::")[-1]] = n

    # ---- entry points --------------------------------------------------------------------------
    def special(self, st, c, k, args, t):
        if "intrinsic_push_piece" in c["fn"]:
            return self.f_push_piece(st, c, args, t)
        if k == "Clone::clone":
            return self.clone(st, c, args)
        if k in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
            f = args[0]
            while type(f) is tuple and f[0] in ("R", "RV"):
                g = self.ip.rd(st, f)
                if type(g) is tuple and g[0] == "K":
                    break
                f = g
            a = self.ip.full(st, args[1])
            la = list(a[1]) if a[0] == "T" else [a]
            return self.call_fn(st, f, la, t)
        if k == "ToString::to_string":
            return self.to_string(st, c, args, t)
        if k in ("Into::into", "TryInto::try_into", "From::from", "TryFrom::try_from"):
            return self.convert(st, c, k, args, t)
        if k in ("PartialEq::eq", "PartialEq::ne"):
            return self.eq(st, c, k, args)
        if k == "Iterator::next" or k == "DoubleEndedIterator::next_back" or k == "IntoIterator::into_iter":
            return NotImplemented if False else self.iter_special(st, c, k, args, t)
        return NotImplemented

    def call_fn(self, st, f, la, t):
        ip = self.ip
        fv = ip.full(st, f)
        if type(fv) is not tuple:
            raise Unsupported("call of a non-function")
        if fv[0] == "K":
            fn = ip.p.fns[fv[1]]
            # closures by reference when the body expects a reference
            selfarg = f
            ty = ip.p.types[fn.locals[1]]
            if ty[0] == "ref":
                if not (type(f) is tuple and f[0] in ("R", "RV")):
                    selfarg = ("RV", fv)
            else:
                selfarg = fv
            ip.enter(st, fn, [selfarg] + la, t, dict(fv[2]))
            return _H()
        if fv[0] == "F":
            c = fv[1].c
            # constructor functions of tuple variants / structs
            ct = self.ctor(c, la)
            if ct is not None:
                return ct
            ip.invoke(st, c, la, t)
            return _H()
        raise Unsupported("call of unknown function value")

    def ctor(self, c, la):
        ad = self.ip.p.adts
        n = c["fn"]
        if n in ad and ad[n]["kind"] == "struct":
            return ("A", n, 0, tuple(la))
        if "::" in n:
            p, v = n.rsplit("::", 1)
            a = ad.get(p)
            if a is not None and a["kind"] == "enum":
                for i, (vn, _, fs) in enumerate(a["variants"]):
                    if vn == v and len(fs) == len(la):
                        return ("A", p, i, tuple(la))
        return None

    def call(self, st, c, k, args, t):
        ct = self.ctor(c, args)
        if ct is not None:
            return ct
        f = self.table.get(k)
        if f is not None:
            r = f(st, c, args, t)
            if r is not NotImplemented:
                return r
        n = self.models.get(k)
        if n is not None:
            return self.model(st, n, args, t)
        if k.startswith("Peekable::") and k.split("::")[1] in self.peek:
            fn = self.ip.p.fns[self.peek[k.split("::")[1]]]
            self.ip.enter(st, fn, args, t, {})
            return _H()
        raise Unsupported("call of " + k + " (" + c.get("fn", "?") + ")")

    def model(self, st, n, args, t):
        self.ip.enter(st, self.ip.p.fns[M + n], list(args), t, {})
        return _H()

    # ---- helpers -------------------------------------------------------------------------------
    def str_of(self, st, v):
        """S value behind a string-like argument"""
        v = self.ip.full(st, v)
        if type(v) is tuple:
            if v[0] == "S":
                return v
            if v[0] == "by":
                return ("S", (bytes(v[1]).decode("utf8", "replace"),))
            if v[0] == "A" and v[1] == "std::borrow::Cow":
                return self.str_of(st, v[3][0])
            if v[0] == "?":
                raise Unsupported("unknown string (%s)" % (v[1],))
        raise Unsupported("not a string: %r" % (v if type(v) is not tuple else v[0],))

    def vec_of(self, st, v):
        v = self.ip.full(st, v)
        if type(v) is tuple:
            if v[0] == "V":
                return v
            if v[0] == "?":
                raise Unsupported("unknown collection (%s)" % (v[1],))
        raise Unsupported("not a collection: %r" % (v if type(v) is not tuple else v[0],))

    def atom_of_char(self, st, ch):
        if type(ch) is str:
            return ch
        if ch[0] == "C":
            i = st.tape.pos[ch[1]]
            it = st.tape.items[i]
            if it[0] == "T":
                return ("r", ch[1], st.tape.bids[i + 1])
            if it[0] == "L":
                return it[1][0]
            raise Unsupported("stale character")
        if ch[0] == "?":
            raise Unsupported("unknown character")
        raise Unsupported("not a character")

    # ---- strings -------------------------------------------------------------------------------
    def sfirst(self, st, s):
        """first character of S value: None if empty, else (char, rest S); may fork"""
        atoms = s[1]
        while atoms:
            a = atoms[0]
            if type(a) is str:
                if not a:
                    atoms = atoms[1:]
                    continue
                rest = ((a[1:],) if len(a) > 1 else ()) + atoms[1:]
                return a[0], ("S", rest)
            if a[0] == "r":
                i, j = st.tape.pos[a[1]], st.tape.pos[a[2]]
                if i == j:
                    atoms = atoms[1:]
                    continue
                it = st.tape.items[i]
                if it[0] == "T":
                    b2 = st.tape.bids[i + 1]
                    rest = ((("r", b2, a[2]),) if i + 1 < j else ()) + atoms[1:]
                    return ("C", a[1]), ("S", rest)
                if it[0] == "L":
                    if not it[1]:
                        st.del_item(i)
                        raise Fork([st])
                    st.split_first(i)
                    continue
                if it[0] == "B":
                    st.fork_blob_first(i)
                if it[0] == "IN":
                    self.read_input(st, i)
                raise Unsupported("text item " + it[0])
            raise Unsupported("unknown text")
        return None

    def slast(self, st, s):
        atoms = s[1]
        while atoms:
            a = atoms[-1]
            if type(a) is str:
                if not a:
                    atoms = atoms[:-1]
                    continue
                rest = atoms[:-1] + ((a[:-1],) if len(a) > 1 else ())
                return a[-1], ("S", rest)
            if a[0] == "r":
                i, j = st.tape.pos[a[1]], st.tape.pos[a[2]]
                if i == j:
                    atoms = atoms[:-1]
                    continue
                it = st.tape.items[j - 1]
                if it[0] == "T":
                    b = st.tape.bids[j - 1]
                    rest = atoms[:-1] + ((("r", a[1], b),) if i < j - 1 else ())
                    return ("C", b), ("S", rest)
                if it[0] == "L":
                    x = it[1]
                    its = (("L", x[:-1]),) if len(x) > 1 else ()
                    its += (("T", AB.bit[x[-1]], 0),)
                    st.tape = st.tape.replace(j - 1, j, its, (st.newb(),) if len(its) > 1 else ())
                    continue
                if it[0] == "B":
                    st.fork_blob_first(j - 1, True)
                raise Unsupported("last character of unread input")
            raise Unsupported("unknown text")
        return None

    def read_input(self, st, i):
        """the root input: end, or one more character"""
        sp = self.ip.spec
        alts = []

        def end(s):
            t = s.tape
            b1, b2 = t.bids[i], t.bids[i + 1]
            s.tape = Tape(t.bids[:i + 1] + t.bids[i + 2:], t.items[:i] + t.items[i + 1:])
            s.rename_bd(b2, b1)
            s.mon = sp.mon_end(s, s.mon, b1)
        alts.append(end)
        for mask, what in sp.mon_classes(st):
            def ch(s, mask=mask, what=what):
                g = sp.mon_ghost(s.mon, mask)
                s.tape = s.tape.replace(i, i + 1, (("T", mask, g), ("IN",)), (s.newb(),))
                s.mon = sp.mon_step(s, s.mon, mask, what, s.tape.bids[i], s.tape.bids[i + 1])
            alts.append(ch)
        st.fork(alts)

    def is_empty(self, st, s):
        for a in s[1]:
            if type(a) is str:
                if a:
                    return False
            elif a[0] == "r":
                i, j = st.tape.pos[a[1]], st.tape.pos[a[2]]
                for x in st.tape.items[i:j]:
                    if x[0] == "T" or (x[0] == "L" and x[1]) or (x[0] == "B" and x[2]):
                        return False
            elif a[0] == "u" and len(a) > 3 and a[3]:
                return False
        for a in s[1]:
            if type(a) is str:
                continue
            if a[0] == "r":
                i, j = st.tape.pos[a[1]], st.tape.pos[a[2]]
                for q in range(i, j):
                    x = st.tape.items[q]
                    if x[0] == "B":
                        def ne(s, q=q, x=x):
                            s.set_item(q, x[:2] + (True,) + x[3:])
                        st.fork([lambda s, q=q: s.make_empty(q), ne])
                    if x[0] == "IN":
                        self.read_input(st, q)
                    if x[0] == "L":
                        pass
            else:
                raise Unsupported("emptiness of unknown text")
        return True

    def blen(self, st, s, cap):
        """byte length if < cap else cap (forks)"""
        n = 0
        while True:
            r = None
            # count what is decided first
            r = self.sfirst(st, s)
            if r is None:
                return n
            ch, s = r
            if type(ch) is str:
                n += len(ch.encode("utf8"))
            else:
                if st.char_in(ch, AB.ascii):
                    n += 1
                else:
                    c1 = AB.single(st.char_mask(ch))
                    n += len(c1.encode("utf8")) if c1 else 2
            if n >= cap:
                return cap

    def length(self, st, v):
        if v[0] == "VL":
            n = 0
            for s in v[1][1]:
                if s[0] == "e":
                    n += 1
                elif s[0] != "m":
                    return None
            return n
        n = 0
        for a in v[1][1]:
            if type(a) is not str:
                return None
            n += len(a.encode("utf8"))
        return n

    def cmp_len(self, st, op, a, b):
        if type(a) is tuple and a[0] in ("SL", "VL"):
            n = self.length(st, a)
            if n is not None:
                a = n
        if type(b) is tuple and b[0] in ("SL", "VL"):
            n = self.length(st, b)
            if n is not None:
                b = n
        if type(a) is int and type(b) is int:
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if type(a) is int:
            return self.cmp_len(st, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op), b, a)
        if type(b) is not int:
            raise Unsupported("comparison of lengths")
        cap = b + 1
        if op in ("Lt", "Ge"):
            cap = b
        if a[0] == "SL":
            if cap == 1 and op in ("Eq", "Ne", "Gt", "Le") and b == 0:
                n = 0 if self.is_empty(st, a[1]) else 1
            else:
                n = self.blen(st, a[1], cap) if cap else 0
        else:
            n = self.vlen(st, a[1], cap) if cap else 0
        return {"Eq": n == b, "Ne": n != b, "Lt": n < b, "Le": n <= b, "Gt": n > b, "Ge": n >= b}[op]

    def vlen(self, st, v, cap):
        n = sum(1 for s in v[1] if s[0] == "e")
        if n >= cap:
            return cap
        for s in v[1]:
            if s[0] not in ("e", "m"):
                self.expand_head(st, s)
        return n

    # equality of texts -----------------------------------------------------------------------------
    def eq_str(self, st, a, b):
        while True:
            a = ("S", st.norm(a[1]))
            b = ("S", st.norm(b[1]))
            if a[1] == b[1]:
                return True
            la, lb = self.lit(st, a), self.lit(st, b)
            if la is not None and lb is not None:
                return la == lb
            if lb is not None:
                return self.eq_lit(st, a, lb)
            if la is not None:
                return self.eq_lit(st, b, la)
            ia, ib = self.items(st, a), self.items(st, b)
            if ia is None or ib is None:
                raise Unsupported("comparison of unknown text")
            # strip a common prefix / suffix of identical parts
            while ia and ib and self.same_part(st, ia[0], ib[0]):
                ia, ib = ia[1:], ib[1:]
            while ia and ib and self.same_part(st, ia[-1], ib[-1]):
                ia, ib = ia[:-1], ib[:-1]
            if not ia and not ib:
                return True
            if not ia or not ib:
                # what is left of the longer one
                for x in ia or ib:
                    if x[0] == "c" or x[0] == "i" and (st.tape.items[x[1]][0] == "T" or st.tape.items[x[1]][0] == "B" and st.tape.items[x[1]][2]):
                        return False
            if len(ia) == 1 and len(ib) == 1 and ia[0][0] == "i" and ib[0][0] == "i":
                i, j = ia[0][1], ib[0][1]
                x, y = st.tape.items[i], st.tape.items[j]
                if x[0] == "B" and y[0] == "B":
                    if x[1] & y[1] == 0 and (x[2] or y[2]):
                        return False
                    if (x[4], y[4]) != (None, None) and frozenset(((x[4], i), (y[4], j))) in ():
                        return False
                    return self.choose_eq(st, i, j)
            k = ("eqs", a, b)
            if self.choose(st, k):
                raise Unsupported("equality of composite texts")
            return False

    def choose(self, st, k):
        g = st.ghost.get(k)
        if g is not None:
            del st.ghost[k]
            return g

        def put(v):
            def f(s):
                s.ghost[k] = v
            return f
        st.fork([put(True), put(False)])

    def choose_eq(self, st, i, j):
        bi, bj = st.tape.bids[i], st.tape.bids[j]
        k = ("eqv", bi, bj)
        g = st.ghost.get(k)
        if g is not None:
            del st.ghost[k]
            return g

        def yes(s):
            x, y = s.tape.items[i], s.tape.items[j]
            vid = x[4] if x[4] is not None else y[4]
            if x[4] is not None and y[4] is not None and x[4] != y[4]:
                for q, o in enumerate(s.tape.items):
                    if o[0] == "B" and o[4] == y[4]:
                        s.set_item(q, o[:4] + (x[4], o[5]))
            if vid is None:
                vid = int(s.newb())
            m = x[1] & y[1]
            if not m and (x[2] or y[2]):
                raise Infeasible()
            ne = x[2] or y[2]
            neq = x[5] | y[5]
            s.set_item(i, ("B", m, ne, x[3], vid, neq))
            s.set_item(j, ("B", m, ne, y[3], vid, neq))
            d = sub(x[3], y[3])
            if d != 0:
                s.assume_eq0(d)

        def no(s):
            s.ghost[k] = False
        st.fork([yes, no])

    def same_part(self, st, x, y):
        if x[0] == "c" and y[0] == "c":
            return x[1] == y[1]
        if x[0] == "i" and y[0] == "i":
            if x[1] == y[1]:
                return True
            return State._same(st.tape.items[x[1]], st.tape.items[y[1]])
        return False

    def items(self, st, s):
        """list of ('c',char) / ('i',tape index) parts"""
        out = []
        for a in s[1]:
            if type(a) is str:
                out.extend(("c", ch) for ch in a)
            elif a[0] == "r":
                for i in range(st.tape.pos[a[1]], st.tape.pos[a[2]]):
                    it = st.tape.items[i]
                    if it[0] == "L":
                        out.extend(("c", ch) for ch in it[1])
                    elif it[0] == "T" and not it[2] and AB.single(it[1]):
                        out.append(("c", AB.single(it[1])))
                    elif it[0] in ("T", "B", "IN"):
                        out.append(("i", i))
                    else:
                        return None
            else:
                return None
        return out

    def lit(self, st, s):
        out = ""
        for a in s[1]:
            if type(a) is str:
                out += a
            elif a[0] == "r":
                i, j = st.tape.pos[a[1]], st.tape.pos[a[2]]
                for x in st.tape.items[i:j]:
                    if x[0] == "L":
                        out += x[1]
                    elif x[0] == "T" and AB.single(x[1]) is not None:
                        out += AB.single(x[1])
                    else:
                        return None
            else:
                return None
        return out

    def eq_lit(self, st, s, text):
        """S == literal text (forks)"""
        if text == "":
            return self.is_empty(st, s)
        parts = self.items(st, s)
        if parts is None:
            raise Unsupported("comparison of unknown text")
        # a single undetermined string in the middle of known characters
        pre, k = 0, 0
        while k < len(parts) and parts[k][0] == "c":
            if k >= len(text) or text[k] != parts[k][1]:
                return False
            k += 1
        suf = 0
        while suf < len(parts) - k and parts[len(parts) - 1 - suf][0] == "c":
            if suf >= len(text) - k or text[len(text) - 1 - suf] != parts[len(parts) - 1 - suf][1]:
                return False
            suf += 1
        mid = parts[k:len(parts) - suf]
        want = text[k:len(text) - suf]
        if not mid:
            return want == ""
        x = mid[0]
        it = st.tape.items[x[1]]
        if it[0] == "T":
            if not want:
                return False
            ch = ("C", st.tape.bids[x[1]])
            if want[0] not in AB.bit:
                return False
            if not st.char_in(ch, AB.bit[want[0]]):
                return False
            return self.eq_lit(st, s, text)
        if it[0] == "B" and len(mid) == 1:
            if want == "":
                if it[2]:
                    return False
                st.fork([lambda s: s.make_empty(x[1]), lambda s: s.set_item(x[1], it[:2] + (True,) + it[3:])])
            if want in it[5]:
                return False
            if any(ch not in AB.bit or not AB.bit[ch] & it[1] for ch in want):
                return False

            def yes(s):
                s.become_lit(x[1], want)

            def no(s):
                for q, o in enumerate(s.tape.items):
                    if q == x[1] or (o[0] == "B" and it[4] is not None and o[4] == it[4]):
                        s.set_item(q, o[:5] + (o[5] | {want},))
            st.fork([yes, no])
        if it[0] == "B":
            st.fork_blob_first(x[1])
        if it[0] == "IN":
            self.read_input(st, x[1])
        raise Unsupported("comparison of text")

    # ---- collections ---------------------------------------------------------------------------
    def vhead(self, st, v):
        """(first element, rest) or None; may fork"""
        segs = v[1]
        i = 0
        while i < len(segs) and segs[i][0] == "m":
            i += 1
        if i == len(segs):
            return None
        s = segs[i]
        if s[0] == "e":
            return s[1], ("V", segs[i + 1:])
        self.expand_head(st, s)

    def vlast(self, st, v):
        segs = v[1]
        i = len(segs) - 1
        while i >= 0 and segs[i][0] == "m":
            i -= 1
        if i < 0:
            return None
        s = segs[i]
        if s[0] == "e":
            return s[1], ("V", segs[:i])
        self.expand_last(st, s)

    def expand_head(self, st, seg, back=False):
        k = seg[0]
        if k == "w" or k == "c":
            return self.ip.spec.expand(self.ip, st, seg, back)
        if k == "*":
            # unknown number (>= seg[2]) of unknown elements
            nid = seg[1]

            def empty(s):
                if seg[2] > 0:
                    raise Infeasible()
                replace_seg(s, seg, ())

            def more(s):
                e = ("e", seg[3])
                r = ("*", nid, max(0, seg[2] - 1), seg[3])
                replace_seg(s, seg, (r, e) if back else (e, r))
            st.fork([empty, more])
        raise Unsupported("collection segment " + str(k))

    def expand_last(self, st, seg):
        return self.expand_head(st, seg, True)

    def v_is_empty(self, st, v):
        for s in v[1]:
            if s[0] == "e" or (s[0] == "*" and s[2] > 0):
                return False
        for s in v[1]:
            if s[0] == "w":
                return self.is_empty_seg(st, s)
            if s[0] != "m":
                self.expand_head(st, s)
        return True

    def is_empty_seg(self, st, seg):
        """emptiness of a collection of non-empty texts: emptiness of its text"""
        return self.is_empty(st, seg[2]) and (self.drop_empty(st, seg) or True)

    def drop_empty(self, st, seg):
        replace_seg(st, seg, ())

    # ---- clone, equality, conversion -------------------------------------------------------------
    def clone(self, st, c, args):
        ip = self.ip
        if c.get("rlocal") and c.get("rkind") == "Item":
            fn = ip.p.fns.get(c["rfn"])
            if fn is not None and not fn.derived and "copies" not in st.ghost:
                return NotImplemented
        a = args[0]
        st_ty = None
        if "args" in c and c["args"]:
            st_ty = ip.rty(c["args"][0], st.substs)
        v = ip.rd(st, a)
        if st_ty is not None and st_ty[0] == "ref":
            return v
        v2 = ip.full(st, v)
        if type(v2) is tuple and v2[0] == "A" and v2[1] in ip.p.adts and ip.p.adts[v2[1]]["local"]:
            l = ip.p.by_self.get(("Clone", "clone", v2[1]))
            if l and not l[0].derived and "copies" not in st.ghost:
                ip_fn = l[0]
                return NotImplemented if c.get("rlocal") else v2
        if type(v2) is tuple and v2[0] == "V":
            return ("V", tuple(s for s in v2[1] if s[0] != "m"))
        return v2

    def eq(self, st, c, k, args):
        ip = self.ip
        if c.get("rlocal") and c.get("rkind") == "Item":
            fn = ip.p.fns.get(c["rfn"])
            if fn is not None and not fn.derived and fn.method == c["method"] and "copies" not in st.ghost:
                return NotImplemented
        a, b = ip.full(st, args[0]), ip.full(st, args[1])
        r = self.veq(st, a, b)
        return r if k.endswith("eq") else not r

    def veq(self, st, a, b):
        ip = self.ip
        a, b = ip.full(st, a), ip.full(st, b)
        ta, tb = type(a), type(b)
        if ta is not tuple or tb is not tuple or a[0] == "C" or b[0] == "C":
            if ta is str or tb is str or (ta is tuple and a[0] == "C"):
                return ip.cmp_char(st, "Eq", a, b)
            return ip.compare(st, "Eq", a, b)
        if a[0] in ("S", "by") and b[0] in ("S", "by"):
            return self.eq_str(st, self.str_of(st, a), self.str_of(st, b))
        if "copies" in st.ghost and a[0] == "?" and b[0] == "?":
            return a == b
        if a[0] == "?" or b[0] == "?":
            # equality with an unknown value: either, nothing learnt
            return self.choose(st, ("equ", a, b))
        if a == b and a[0] != "V":
            return True
        if a[0] == "W":
            ip.materialise(st, a)
        if b[0] == "W":
            ip.materialise(st, b)
        if a[0] == "A" and b[0] == "A":
            if a[1] != b[1] and not (a[1] in ip.p.adts and b[1] in ip.p.adts):
                raise Unsupported("comparison of different types")
            if a[2] != b[2]:
                return False
            r = ip.spec.ast_eq(ip, st, a, b)
            if r is not None:
                return r
            return all(self.veq(st, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == "T" and b[0] == "T":
            return all(self.veq(st, x, y) for x, y in zip(a[1], b[1]))
        if a[0] == "V" and b[0] == "V":
            if a == b:
                return True
            return ip.spec.vec_eq(ip, st, a, b)
        raise Unsupported("equality of %s and %s" % (a[0], b[0]))

    def to_string(self, st, c, args, t):
        v = self.ip.full(st, args[0])
        s = self.display(st, v)
        return s

    def display(self, st, v, spec=None):
        """text of a value under Display (S value)"""
        ip = self.ip
        v = ip.full(st, v)
        if type(v) is str:
            return ("S", (v,))
        if type(v) is bool:
            return ("S", ("true" if v else "false",))
        if type(v) is int:
            return ("S", (str(v),))
        if type(v) is Lin:
            return ("S", (("u", "number", 0),))
        t = v[0]
        if t == "S":
            return v
        if t == "C":
            return ("S", (self.atom_of_char(st, v),))
        if t == "fmt":
            return v[1]
        if t == "?":
            raise Unsupported("display of unknown value")
        if t in ("A", "W"):
            if ip.root_fn is not None and ip.root_fn.method == "fmt" and v == ip.full(st, st.ghost.get("self")):
                raise ip.Panic("endless: %s prints the value it was given" % ip.root_fn.name)
            if ip.root_fn is not None and ip.root_fn.method == "fmt" and t == "A" and "self" in st.ghost:
                ip.spec.edge(ip, st, "fmt " + str(v[1]), v, ip.full(st, st.ghost["self"]))
            r = ip.spec.flatten(ip, st, v)
            if r is not None:
                return r
        raise Unsupported("display of %s" % (v[1] if t in ("A", "W") else t,))

    def convert(self, st, c, k, args, t):
        ip = self.ip
        tr = {"Into::into": "From", "From::from": "From"}.get(k, "TryFrom")
        rev = k in ("Into::into", "TryInto::try_into")
        a = [ip.rty(x, st.substs) if isinstance(x, int) else None for x in c.get("args", ())]
        src, dst = (a[0], a[1]) if rev else (a[1] if len(a) > 1 else None, a[0])
        v = args[0]

        def nm(ty):
            return ty[1] if ty and ty[0] in ("adt", "int") else (ty[0] if ty else None)
        if src is not None and dst is not None and src == dst:
            return v if tr == "From" else ok(v)
        # local impls
        cands = ip.p.by_self.get((tr, "from" if tr == "From" else "try_from", nm(dst)), [])
        sv = ip.full(st, v)
        hits = []
        for f in cands:
            ta = f.trargs[1:] if len(f.trargs) > 1 else f.trargs
            if not ta:
                continue
            at = ip.p.types[ta[0]]
            if src is not None and at == src:
                hits.append(f)
            elif src is None or src[0] == "param":
                if type(sv) is tuple and sv[0] in ("A", "W") and nm(at) == sv[1]:
                    hits.append(f)
        if not hits and tr == "TryFrom" and src is not None:
            # infallible conversion through From
            for f in ip.p.by_self.get(("From", "from", nm(dst)), []):
                ta = f.trargs[1:] if len(f.trargs) > 1 else f.trargs
                if ta and ip.p.types[ta[0]] == src:
                    raise Unsupported("TryFrom through From")
        if len(hits) == 1:
            fn = hits[0]
            r = ip.spec.contract(ip, st, fn, args, t)
            if r is not NotImplemented:
                return r
            ip.enter(st, fn, args, t, {})
            return _H()
        # an Into / TryInto impl written by hand
        if rev and c.get("rlocal"):
            return NotImplemented
        if cands and not hits and src is None:
            raise Unsupported("conversion")
        d = nm(dst)
        if tr == "From":
            if d == "std::string::String":
                return self.display(st, v) if not (type(sv) is tuple and sv[0] == "S") else sv
            if d in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
                return ("A", "std::boxed::Box", 0, (v,))
            if d == "std::vec::Vec":
                return self.vec_of(st, v)
            if d == "std::option::Option":
                return some(v)
            if dst is not None and dst[0] == "int":
                if type(sv) is bool:
                    return int(sv)
                if type(sv) in (int, Lin):
                    return sv
                if type(sv) is str:
                    return ord(sv)
            if dst is not None and dst[0] == "ref":
                return v
            if d == "str" or d == "std::borrow::Cow":
                return v
        else:
            if dst is not None and dst[0] == "int" and type(sv) in (int, Lin):
                return ok(sv)
        if tr == "From" and d and src is not None and d in ip.p.adts and not ip.p.adts[d]["local"]:
            return unk("conversion to " + d)
        raise Unsupported("conversion to %s" % (d,))

    # ---- iterators -----------------------------------------------------------------------------
    def iter_special(self, st, c, k, args, t):
        ip = self.ip
        if k == "IntoIterator::into_iter":
            v = args[0]
            if type(v) is tuple and v[0] == "A" and (v[1].startswith("I::") or v[1].startswith("M::")):
                return v
            if c.get("rlocal") and c.get("rkind") == "Item" and ip.p.fns.get(c["rfn"]) is not None:
                return NotImplemented
            return self.into_iter(st, c, v, t)
        r, v = ip.lastref(st, args[0])
        if type(v) is tuple and v[0] == "A" and v[1].startswith("I::"):
            return self.next(st, r, v, k.endswith("next_back"))
        return NotImplemented

    def into_iter(self, st, c, v, t):
        ip = self.ip
        if type(v) is tuple and v[0] in ("R", "RV"):
            ref, x = ip.lastref(st, v)
            mut = False
            a = [ip.rty(q, st.substs) for q in c.get("args", ()) if isinstance(q, int)]
            if a and a[0][0] == "ref":
                mut = bool(a[0][1])
            if type(x) is tuple and x[0] == "A" and (x[1].startswith("I::") or x[1].startswith("M::")):
                return v
            if type(x) is tuple and x[0] == "A" and x[1] == OPT:
                return self.model(st, "option_iter_mut" if mut else "option_iter", [v], t)
            if type(x) is tuple and x[0] == "A" and x[1] == BOXN:
                x = x[3][0]
            if mut:
                return self.iter_mut(st, ref)
            return It("Iter", self.vec_of(st, x))
        if type(v) is tuple and v[0] == "V":
            return It("IntoIter", v)
        if type(v) is tuple and v[0] == "A":
            if v[1] == OPT:
                return self.model(st, "option_into_iter", [v], t)
            if v[1] == RES:
                return self.model(st, "result_into_iter", [v], t)
            if v[1].endswith("ops::Range") or v[1].endswith("range::Range"):
                return self.model(st, "range_iter", list(v[3]), t)
            if v[1] == BOXN:
                return It("IntoIter", self.vec_of(st, v))
        if type(v) is tuple and v[0] == "?":
            raise Unsupported("iteration over an unknown value")
        raise Unsupported("into_iter of %r" % (v[0] if type(v) is tuple else v,))

    def iter_mut(self, st, ref):
        """marker based iteration: the marker precedes the remaining elements"""
        if ref[0] == "RV":
            raise Unsupported("mutable iteration over a temporary")
        v = self.vec_of(st, ref)
        self.uid += 1
        mid = int(st.newb()) + (1 << 30)
        self.ip.write(st, ref[1], ref[2], ("V", (("m", mid),) + v[1]))
        return It("IterMut", ref, mid)

    def next(self, st, r, v, back=False):
        ip = self.ip
        n = v[1]
        if n in ("I::IntoIter", "I::Iter"):
            h = self.vlast(st, v[3][0]) if back else self.vhead(st, v[3][0])
            if h is None:
                return NONE
            e, rest = h
            ip.wr(st, r, ("A", n, 0, (rest,)))
            return some(e if n == "I::IntoIter" else ("RV", e))
        if n == "I::Chars":
            h = self.slast(st, v[3][0]) if back else self.sfirst(st, v[3][0])
            if h is None:
                return NONE
            ch, rest = h
            ip.wr(st, r, ("A", n, 0, (rest,)))
            return some(ch)
        if n == "I::Bytes":
            # a character outside ASCII counts as one byte: the loops seen only compare with ASCII bytes
            h = self.slast(st, v[3][0]) if back else self.sfirst(st, v[3][0])
            if h is None:
                return NONE
            ch, rest = h
            ip.wr(st, r, ("A", n, 0, (rest,)))
            return some(ord(ch) if type(ch) is str and ord(ch) < 128 else ch)
        if n == "I::CharIndices":
            if back:
                h = self.slast(st, v[3][0])
                if h is None:
                    return NONE
                ip.wr(st, r, ("A", n, 0, (h[1], v[3][1])))
                return some(("T", (self.offset(st, st.concat(v[3][1], h[1])), h[0])))
            h = self.sfirst(st, v[3][0])
            if h is None:
                return NONE
            ch, rest = h
            pre = v[3][1]
            ip.wr(st, r, ("A", n, 0, (rest, st.concat(pre, ("S", (self.atom_of_char(st, ch),))))))
            return some(("T", (self.offset(st, pre), ch)))
        if n == "I::Lines" and not back:
            rem = v[3][0]
            if self.is_empty(st, rem):
                return NONE
            h = self.split_at(st, rem, AB.nl)
            if h is None:
                ip.wr(st, r, ("A", n, 0, (EMPTY,)))
                return some(("RV", rem))
            a, b = h
            e = self.slast(st, a)
            if e is not None and (e[0] == "\r" if type(e[0]) is str else st.char_in(e[0], AB.bit["\r"])):
                a = e[1]
            ip.wr(st, r, ("A", n, 0, (b,)))
            return some(("RV", a))
        if n == "I::SplitW" and not back:
            rem, m = v[3]
            h = self.cut_first(st, rem, AB.all & ~m)
            if h is None:
                return NONE
            g = self.cut_first(st, h[1], m)
            a, b = g if g is not None else (h[1], EMPTY)
            ip.wr(st, r, ("A", n, 0, (b, m)))
            return some(("RV", a))
        if n == "I::SplitN" and not back:
            rem, m, k = v[3]
            if k == 0:
                return NONE
            h = self.split_at(st, rem, m) if k > 1 else None
            if h is None:
                ip.wr(st, r, ("A", n, 0, (EMPTY, m, 0)))
                return some(("RV", rem))
            ip.wr(st, r, ("A", n, 0, (h[1], m, k - 1)))
            return some(("RV", h[0]))
        if n == "I::SplitI" and not back:
            rem, m, done = v[3]
            if self.is_empty(st, rem):
                return NONE
            h = self.split_at(st, rem, m)
            if h is None:
                ip.wr(st, r, ("A", n, 0, (EMPTY, m, True)))
                return some(("RV", rem))
            ip.wr(st, r, ("A", n, 0, (h[1], m, False)))
            return some(("RV", self.prefix_of(st, rem, h[1])))
        if n == "I::SplitT" and not back:
            rem, m, done = v[3]
            if done or self.is_empty(st, rem):
                return NONE
            h = self.split_at(st, rem, m)
            if h is None:
                ip.wr(st, r, ("A", n, 0, (EMPTY, m, True)))
                return some(("RV", rem))
            ip.wr(st, r, ("A", n, 0, (h[1], m, False)))
            return some(("RV", h[0]))
        if n == "I::IterMut":
            ref, mid = v[3][:2]
            end = v[3][2] if len(v[3]) > 2 else None
            vec = self.vec_of(st, ref)
            segs = vec[1]
            if back:
                if end is None:
                    end = int(st.newb()) + (1 << 30)
                    segs = segs + (("m", end),)
                    ip.write(st, ref[1], ref[2], ("V", segs))
                    ip.wr(st, r, ("A", n, 0, (ref, mid, end)))
                i = segs.index(("m", end))
                j = i - 1
                while segs[j][0] == "m" and segs[j] != ("m", mid):
                    j -= 1
                s = segs[j]
                if s == ("m", mid):
                    return NONE
                if s[0] != "e":
                    self.expand_last(st, s)
                segs = segs[:j] + (("m", end),) + segs[j:i] + segs[i + 1:]
                ip.write(st, ref[1], ref[2], ("V", segs))
                return some(("R", ref[1], ref[2] + (("mn", end),)))
            i = segs.index(("m", mid))
            j = i + 1
            while j < len(segs) and segs[j][0] == "m" and segs[j] != ("m", end):
                j += 1
            if j == len(segs) or segs[j][0] == "m":
                return NONE
            s = segs[j]
            if s[0] != "e":
                self.expand_head(st, s)
            segs = segs[:i] + segs[i + 1:j + 1] + (("m", mid),) + segs[j + 1:]
            ip.write(st, ref[1], ref[2], ("V", segs))
            return some(("R", ref[1], ref[2] + (("mk", mid),)))
        if n == "I::Split":
            rem, delim, done = v[3]
            if done:
                return NONE
            if back:
                h = self.cut_last(st, rem, delim)
                if h is None:
                    ip.wr(st, r, ("A", n, 0, (EMPTY, delim, True)))
                    return some(("RV", rem))
                ip.wr(st, r, ("A", n, 0, (self.slast(st, h[0])[1], delim, False)))
                return some(("RV", h[1]))
            h = self.split_at(st, rem, delim)
            if h is None:
                ip.wr(st, r, ("A", n, 0, (EMPTY, delim, True)))
                return some(("RV", rem))
            a, b = h
            ip.wr(st, r, ("A", n, 0, (b, delim, False)))
            return some(("RV", a))
        if n == "I::Repeat":
            return some(v[3][0])
        raise Unsupported("iterator " + n)

    def split_at(self, st, s, mask):
        """(before, after) the first character in mask, or None; forks blobs around the delimiter"""
        atoms = s[1]
        pre = []
        for ai, a in enumerate(atoms):
            if type(a) is str:
                for q, ch in enumerate(a):
                    if AB.bit.get(ch, 0) & mask:
                        return (("S", tuple(pre) + ((a[:q],) if q else ())),
                                ("S", ((a[q + 1:],) if a[q + 1:] else ()) + atoms[ai + 1:]))
                pre.append(a)
                continue
            if a[0] != "r":
                raise Unsupported("splitting unknown text")
            i, j = st.tape.pos[a[1]], st.tape.pos[a[2]]
            for q in range(i, j):
                it = st.tape.items[q]
                if it[0] == "T":
                    if st.char_in(("C", st.tape.bids[q]), mask):
                        b1, b2 = st.tape.bids[q], st.tape.bids[q + 1]
                        return (("S", tuple(pre) + ((("r", a[1], b1),) if i < q else ())),
                                ("S", ((("r", b2, a[2]),) if q + 1 < j else ()) + atoms[ai + 1:]))
                elif it[0] == "L":
                    if any(AB.bit.get(ch, 0) & mask for ch in it[1]):
                        st.split_first(q)
                        raise Fork([st])
                elif it[0] == "B":
                    if it[1] & mask:
                        self.fork_split(st, q, mask)
                else:
                    raise Unsupported("splitting unread input")
            pre.append(a)
        return None

    def cut_first(self, st, s, mask):
        """(text before, text from) the first character in mask, or None"""
        h = self.split_at(st, s, mask)
        if h is None:
            return None
        return h[0], self.suffix_of(st, s, h[0])

    def cut_last(self, st, s, mask):
        """(text up to and including, text after) the last character in mask, or None"""
        atoms = s[1]
        post = []
        for ai in range(len(atoms) - 1, -1, -1):
            a = atoms[ai]
            if type(a) is str:
                for q in range(len(a) - 1, -1, -1):
                    if AB.bit.get(a[q], 0) & mask:
                        return (("S", atoms[:ai] + (a[:q + 1],)),
                                ("S", ((a[q + 1:],) if a[q + 1:] else ()) + tuple(post)))
                post.insert(0, a)
                continue
            if a[0] != "r":
                raise Unsupported("splitting unknown text")
            i, j = st.tape.pos[a[1]], st.tape.pos[a[2]]
            for q in range(j - 1, i - 1, -1):
                it = st.tape.items[q]
                if it[0] == "T":
                    if st.char_in(("C", st.tape.bids[q]), mask):
                        b2 = st.tape.bids[q + 1]
                        return (("S", atoms[:ai] + (("r", a[1], b2),)),
                                ("S", ((("r", b2, a[2]),) if q + 1 < j else ()) + tuple(post)))
                elif it[0] == "L":
                    if any(AB.bit.get(ch, 0) & mask for ch in it[1]):
                        x = it[1]
                        its = (("L", x[:-1]),) if len(x) > 1 else ()
                        its += (("T", AB.bit[x[-1]], 0),)
                        st.tape = st.tape.replace(q, q + 1, its, (st.newb(),) if len(its) > 1 else ())
                        raise Fork([st])
                elif it[0] == "B":
                    if it[1] & mask:
                        self.fork_split(st, q, mask, True)
                else:
                    raise Unsupported("splitting unread input")
            post.insert(0, a)
        return None

    def fork_split(self, st, q, mask, last=False):
        """blob q: no delimiter, or before . delimiter . after (the first delimiter, or the last one)"""
        it = st.tape.items[q]

        def none(s):
            m = it[1] & ~mask
            if not m:
                s.make_empty(q)
            else:
                n = it[3]
                s.set_item(q, ("B", m, it[2], n, it[4], it[5]))
                if not m & AB.nl:
                    if n != 0:
                        s.assume_eq0(n)
        alts = [none]

        def hit(dm):
            def f(s):
                s.drop_vid(it[4], q)
                m = it[1] & ~mask
                n = it[3]
                if dm == AB.nl:
                    n = s.dec_n(n)
                if m & AB.nl:
                    n1, n2 = s.split_n(n)
                else:
                    n1, n2 = 0, n
                x, y = ("B", m, False, n1, None, frozenset()), ("B", it[1], False, n2, None, frozenset())
                if last:
                    x, y = y, x
                s.tape = s.tape.replace(q, q + 1, (x, ("T", dm, 0), y), (s.newb(), s.newb()))
            return f
        dm = it[1] & mask
        if dm & AB.nl:
            alts.append(hit(AB.nl))
        if dm & ~AB.nl:
            alts.append(hit(dm & ~AB.nl))
        st.fork(alts)

    # ---- pure predicates over characters ---------------------------------------------------------
    def pred_mask(self, st, f, byref, byte=False):
        """set of characters satisfying predicate f, or None when it cannot be decided from the character alone"""
        ip = self.ip
        fv = ip.full(st, f)

        def const(x):
            return type(x) in (str, bool, int) or type(x) is tuple and len(x) == 2 and x[0] == "RV" and const(x[1])
        if fv[0] == "K" and all(const(x) for x in fv[3]):
            key = (fv[1], tuple(fv[2].items()) if isinstance(fv[2], dict) else fv[2], repr(fv[3]), byref, byte)
            if key not in self.pred_masks:
                self.pred_masks[key] = self.pred_mask1(st, fv, byref, byte)
            return self.pred_masks[key]
        return self.pred_mask1(st, fv, byref, byte)

    def pred_mask1(self, st, fv, byref, byte):
        ip = self.ip
        m = 0
        for c, b in AB.bit.items():
            s = st.copy()
            s.frames = ()
            s.dest = None
            s.onret = None
            s.rbb = None
            d0 = s.depth
            s.depth = d0 + 1
            try:
                x = c if not byte else ord(c) if ord(c) < 128 else 0xc3
                arg = ("RV", x) if byref else x
                if fv[0] == "K":
                    fn = ip.p.fns[fv[1]]
                    ty = ip.p.types[fn.locals[1]]
                    s.fn, s.bb, s.si = fn, 0, 0
                    s.substs = dict(fv[2])
                    s.mem[(s.depth << 12) | 1] = ("RV", fv) if ty[0] == "ref" else fv
                    s.mem[(s.depth << 12) | 2] = arg
                elif fv[0] == "F":
                    cc = fv[1].c
                    fn = ip.p.fns.get(cc.get("rfn")) if cc.get("rlocal") else None
                    if fn is None:
                        name = cc["key"].split("::")[-1]
                        if name in PREDS and cc["key"].startswith(("char::", "methods::")):
                            if PREDS[name](c):
                                m |= b
                            continue
                        return None
                    s.fn, s.bb, s.si = fn, 0, 0
                    s.mem[(s.depth << 12) | 1] = arg
                else:
                    return None
                for _ in range(400):
                    try:
                        stm, term, _, _ = s.fn.blocks[s.bb]
                        if s.si < len(stm):
                            ip.stmt(s, stm[s.si])
                            s.si += 1
                        else:
                            ip.term(s, term)
                    except Exception as e:
                        if type(e).__name__ == "Done":
                            if e.v is True:
                                m |= b
                            elif e.v is not False:
                                return None
                            break
                        raise
                else:
                    return None
            except (Fork, Unsupported, Infeasible):
                return None
            except Exception as e:
                if type(e).__name__ in ("Panic",):
                    return None
                raise
            # the predicate must not have changed anything
            for kk, vv in s.mem.items():
                if kk >> 12 <= d0 and st.mem.get(kk) is not vv and st.mem.get(kk) != vv:
                    return None
        return m

    def count_mask(self, st, s, mask):
        """number of characters of s in mask"""
        if mask == 0:
            return 0
        if mask == AB.nl:
            # unread input must be read first
            return st.NS(s[1])
        n = 0
        for a in s[1]:
            if type(a) is str:
                n = add(n, sum(1 for ch in a if AB.bit.get(ch, 0) & mask))
                continue
            if a[0] != "r":
                return None
            i, j = st.tape.pos[a[1]], st.tape.pos[a[2]]
            for q in range(i, j):
                it = st.tape.items[q]
                if it[0] == "L":
                    n = add(n, sum(1 for ch in it[1] if AB.bit[ch] & mask))
                elif it[0] == "T":
                    if it[1] & mask:
                        if st.char_in(("C", st.tape.bids[q]), mask):
                            n = add(n, 1)
                elif it[0] == "B":
                    if it[1] & mask:
                        return None
                else:
                    return None
        return n

    def strip_refs(self, v):
        return v

    def chars_source(self, st, v):
        """(S, mask of kept chars, byref?) if v is Chars possibly under pure Filters"""
        if isit(v, "Chars") or isit(v, "Bytes"):
            return v[3][0], AB.all
        if type(v) is tuple and v[0] == "A" and v[1] == "M::Filter" and isit(v[3][0], "Bytes"):
            m = self.pred_mask(st, v[3][1], True, True)
            return None if m is None or m & ~AB.ascii else (v[3][0][3][0], m)
        if type(v) is tuple and v[0] == "A" and v[1] in ("M::Copied", "M::Cloned"):
            return self.chars_source(st, v[3][0])
        if type(v) is tuple and v[0] == "A" and v[1] == "M::Filter":
            r = self.chars_source(st, v[3][0])
            if r is None:
                return None
            m = self.pred_mask(st, v[3][1], True)
            if m is None:
                return None
            return r[0], r[1] & m
        if type(v) is tuple and v[0] == "A" and v[1] == "M::Chain":
            return None
        return None

    def f_count(self, st, c, args, t):
        """Iterator::count"""
        v = self.ip.full(st, args[0])
        n = self.count_of(st, v)
        if n is not None:
            return n
        return self.model(st, "count", args, t)

    def count_of(self, st, v):
        if type(v) is tuple and v[0] == "A" and v[1] == "M::Chain":
            tot = 0
            for o in v[3]:
                if o == NONE:
                    continue
                n = self.count_of(st, o[3][0])
                if n is None:
                    return None
                tot = add(tot, n)
            return tot
        if type(v) is tuple and v[0] == "A" and v[1] == "M::Filter" and type(v[3][0]) is tuple and v[3][0][0] == "A" \
                and v[3][0][1] == "M::Chain":
            tot = 0
            for o in v[3][0][3]:
                if o == NONE:
                    continue
                n = self.count_of(st, ("A", "M::Filter", 0, (o[3][0], v[3][1])))
                if n is None:
                    return None
                tot = add(tot, n)
            return tot
        if isit(v, "Matches"):
            return self.count_mask(st, v[3][0], v[3][1])
        if isit(v, "Lines"):
            s = v[3][0]
            if self.is_empty(st, s):
                return 0
            ch, _ = self.slast(st, s)
            n = st.NS(s[1])
            return n if (ch == "\n" if type(ch) is str else st.char_in(ch, AB.nl)) else add(n, 1)
        if isit(v, "Split") and not v[3][2]:
            n = self.count_mask(st, v[3][0], v[3][1])
            return None if n is None else add(n, 1)
        r = self.chars_source(st, v)
        if r is not None:
            s, m = r
            if m == AB.all:
                return None
            return self.count_mask(st, s, m)
        if isit(v, "IntoIter") or isit(v, "Iter"):
            return ("VL", v[3][0])
        return None

    def f_any(self, st, c, args, t):
        """Iterator::any Iterator::all Iterator::position Iterator::find"""
        return self.model(st, c["method"], args, t)

    def f_len(self, st, c, args, t):
        """ExactSizeIterator::len"""
        v = self.ip.full(st, args[0])
        if isit(v, "IntoIter") or isit(v, "Iter"):
            return ("VL", v[3][0])
        raise Unsupported("ExactSizeIterator::len")

    def f_size_hint(self, st, c, args, t):
        """Iterator::size_hint"""
        raise Unsupported("size_hint")

    def f_sum(self, st, c, args, t):
        """Iterator::sum Iterator::product"""
        if c["method"] != "sum":
            raise Unsupported("product")
        ip = self.ip
        v = args[0]
        # elements by reference?
        a = [ip.rty(q, st.substs) for q in c.get("args", ()) if isinstance(q, int)]
        if len(a) > 1 and a[-1][0] != "int":
            raise Unsupported("sum")
        if isit(v, "Iter"):
            return self.model(st, "sum_ref", args, t)
        return self.model(st, "sum", args, t)

    def f_collect(self, st, c, args, t):
        """Iterator::collect FromIterator::from_iter"""
        ip = self.ip
        rty = self.ret_type(st, c, t)
        if rty[0] != "adt":
            raise Unsupported("collect into " + str(rty))
        n = rty[1]
        v = args[0]
        if c["key"] == "FromIterator::from_iter" and not (type(v) is tuple and v[0] == "A" and v[1][:3] in ("I::", "M::")):
            v = self.into_iter(st, c, v, t)
        if n == "std::vec::Vec":
            if isit(v, "IntoIter"):
                return ("V", tuple(s for s in v[3][0][1] if s[0] != "m"))
            return self.model(st, "collect_vec", [v], t)
        if n == "std::string::String":
            if isit(v, "Chars"):
                return v[3][0]
            return self.model(st, "collect_string", [v], t)
        if n == RES:
            inner = ip.p.types[rty[2][0]]
            if inner[0] == "adt" and inner[1] == "std::vec::Vec":
                return self.model(st, "collect_result_vec", [v], t)
            if inner[0] == "tuple" and not inner[1]:
                return self.model(st, "collect_result_unit", [v], t)
        if n == OPT:
            inner = ip.p.types[rty[2][0]]
            if inner[0] == "adt" and inner[1] == "std::vec::Vec":
                return self.model(st, "collect_option_vec", [v], t)
        raise Unsupported("collect into " + n)

    def ret_type(self, st, c, t):
        ip = self.ip
        ty = t[5]
        return ip.rty(ty, st.substs)

    def f_push_piece(self, st, c, args, t):
        """M::intrinsic_push_piece"""
        r, s = self.ip.lastref(st, args[0])
        x = self.display(st, args[1])
        self.ip.wr(st, r, st.concat(s, x))
        return UNIT

    def f_iter(self, st, c, args, t):
        """slice::iter Vec::iter"""
        return It("Iter", self.vec_of(st, args[0]))

    def f_iter_mut(self, st, c, args, t):
        """slice::iter_mut Vec::iter_mut"""
        r, v = self.ip.lastref(st, args[0])
        return self.iter_mut(st, r)

    def f_drain(self, st, c, args, t):
        """Vec::drain"""
        r, v = self.ip.lastref(st, args[0])
        rg = args[1]
        if type(rg) is tuple and rg[0] == "A" and rg[1].endswith("RangeFull"):
            self.ip.wr(st, r, ("V", ()))
            return It("IntoIter", v)
        raise Unsupported("drain of a range")

    # ---- Vec / slice -----------------------------------------------------------------------------
    def f_vec_new(self, st, c, args, t):
        """Vec::new Vec::with_capacity"""
        return ("V", ())

    def f_vec_push(self, st, c, args, t):
        """Vec::push"""
        r, v = self.ip.lastref(st, args[0])
        if v[0] != "V":
            raise Unsupported("push to " + v[0])
        self.ip.wr(st, r, ("V", v[1] + (("e", args[1]),)))
        return UNIT

    def f_vec_pop(self, st, c, args, t):
        """Vec::pop"""
        r, v = self.ip.lastref(st, args[0])
        h = self.vlast(st, self.vec_of(st, v))
        if h is None:
            return NONE
        self.ip.wr(st, r, h[1])
        return some(h[0])

    def f_vec_remove(self, st, c, args, t):
        """Vec::remove Vec::swap_remove"""
        r, v = self.ip.lastref(st, args[0])
        n = self.ip.num(st, args[1])
        if n != 0 or c["key"] != "Vec::remove":
            if type(n) is int:
                out, rest = [], v
                for _ in range(n + 1):
                    h = self.vhead(st, rest)
                    if h is None:
                        self.panic("removal index out of range")
                    out.append(h[0])
                    rest = h[1]
                if c["key"] != "Vec::remove":
                    raise Unsupported("swap_remove")
                self.ip.wr(st, r, ("V", tuple(("e", x) for x in out[:-1]) + rest[1]))
                return out[-1]
            raise Unsupported("remove at a symbolic index")
        h = self.vhead(st, v)
        if h is None:
            self.panic("removal index out of range")
        self.ip.wr(st, r, h[1])
        return h[0]

    def f_vec_insert(self, st, c, args, t):
        """Vec::insert"""
        r, v = self.ip.lastref(st, args[0])
        n = self.ip.num(st, args[1])
        if n == 0:
            self.ip.wr(st, r, ("V", (("e", args[2]),) + v[1]))
            return UNIT
        raise Unsupported("insert at index")

    def f_vec_len(self, st, c, args, t):
        """Vec::len slice::len"""
        v = self.vec_of(st, args[0])
        n = self.length(st, ("VL", v))
        return ("VL", v) if n is None else n

    def f_vec_is_empty(self, st, c, args, t):
        """Vec::is_empty slice::is_empty"""
        return self.v_is_empty(st, self.vec_of(st, args[0]))

    def f_vec_clear(self, st, c, args, t):
        """Vec::clear"""
        r, v = self.ip.lastref(st, args[0])
        self.ip.wr(st, r, ("V", ()))
        return UNIT

    def f_vec_append(self, st, c, args, t):
        """Vec::append"""
        r, v = self.ip.lastref(st, args[0])
        r2, v2 = self.ip.lastref(st, args[1])
        self.ip.wr(st, r, ("V", v[1] + tuple(s for s in v2[1] if s[0] != "m")))
        self.ip.wr(st, r2, ("V", ()))
        return UNIT

    def f_vec_extend(self, st, c, args, t):
        """Extend::extend Vec::extend_from_slice"""
        r, v = self.ip.lastref(st, args[0])
        x = args[1]
        if type(v) is tuple and v[0] == "S":
            if type(x) is tuple and x[0] in ("A",) and x[1][:3] in ("I::", "M::"):
                if isit(x, "Chars"):
                    self.ip.wr(st, r, st.concat(v, x[3][0]))
                    return UNIT
            return self.model(st, "extend_string", args, t)
        y = self.ip.full(st, x) if not (type(x) is tuple and x[0] == "A") else x
        if type(y) is tuple and y[0] == "V":
            self.ip.wr(st, r, ("V", v[1] + tuple(s for s in y[1] if s[0] != "m")))
            return UNIT
        if isit(y, "IntoIter"):
            self.ip.wr(st, r, ("V", v[1] + tuple(s for s in y[3][0][1] if s[0] != "m")))
            return UNIT
        return self.model(st, "extend_vec", args, t)

    def f_vec_truncate(self, st, c, args, t):
        """Vec::truncate Vec::split_off Vec::dedup Vec::sort Vec::reverse slice::reverse"""
        raise Unsupported(c["key"])

    def first_last(self, st, args, last, mut):
        r, v = self.ip.lastref(st, args[0])
        v = self.vec_of(st, v)
        h = self.vlast(st, v) if last else self.vhead(st, v)
        if h is None:
            return NONE
        if mut:
            if r[0] != "R":
                raise Unsupported("mutable reference into a temporary")
            if last:
                return some(("R", r[1], r[2] + (("last",),)))
            return some(("R", r[1], r[2] + (("x", 0),)))
        return some(("RV", h[0]))

    def f_first(self, st, c, args, t):
        """slice::first"""
        return self.first_last(st, args, False, False)

    def f_last(self, st, c, args, t):
        """slice::last"""
        return self.first_last(st, args, True, False)

    def f_first_mut(self, st, c, args, t):
        """slice::first_mut"""
        return self.first_last(st, args, False, True)

    def f_last_mut(self, st, c, args, t):
        """slice::last_mut"""
        return self.first_last(st, args, True, True)

    def f_get(self, st, c, args, t):
        """slice::get slice::get_mut"""
        n = self.ip.num(st, args[1])
        r, v = self.ip.lastref(st, args[0])
        if type(n) is not int:
            raise Unsupported("get at a symbolic index")
        rest = self.vec_of(st, v)
        for i in range(n + 1):
            h = self.vhead(st, rest)
            if h is None:
                return NONE
            e, rest = h
        if c["key"].endswith("_mut"):
            return some(("R", r[1], r[2] + (("x", n),)))
        return some(("RV", e))

    def f_index(self, st, c, args, t):
        """Index::index IndexMut::index_mut"""
        r, v = self.ip.lastref(st, args[0])
        n = self.ip.num(st, args[1])
        if type(v) is tuple and v[0] == "S":
            if type(args[1]) is tuple and args[1][0] == "A" and args[1][1].endswith("RangeFull"):
                return ("RV", v)
            rng = self.ip.full(st, args[1])
            if type(rng) is tuple and rng[0] == "A":
                return ("RV", self.slice_str(st, v, rng))
            raise Unsupported("string slicing")
        if type(n) is tuple and n[0] == "VO" and n[1] == self.vec_of(st, v) and n[2] == -1:
            h = self.vlast(st, n[1])
            if h is None:
                self.panic("index out of bounds")
            if c["key"] == "Index::index":
                return ("RV", h[0])
            raise Unsupported("mutable index from the end")
        if type(n) is tuple and n[0] == "A" and n[1].endswith("RangeFull"):
            return r
        if type(n) is tuple and n[0] == "A" and n[1].endswith("RangeFrom") and type(n[3][0]) is int:
            rest = self.vec_of(st, v)
            for i in range(n[3][0]):
                h = self.vhead(st, rest)
                if h is None:
                    self.panic("range start out of range")
                rest = h[1]
            if c["key"] == "Index::index":
                return ("RV", rest)
            raise Unsupported("mutable subslice")
        if type(n) is not int:
            raise Unsupported("index by a symbolic value")
        rest = self.vec_of(st, v)
        for i in range(n + 1):
            h = self.vhead(st, rest)
            if h is None:
                self.panic("index out of bounds")
            e, rest = h
        if c["key"] == "Index::index":
            return ("RV", e)
        return ("R", r[1], r[2] + (("x", n),))

    def f_split_first(self, st, c, args, t):
        """slice::split_first"""
        v = self.vec_of(st, args[0])
        h = self.vhead(st, v)
        if h is None:
            return NONE
        return some(("T", (("RV", h[0]), ("RV", h[1]))))

    def f_split_last(self, st, c, args, t):
        """slice::split_last"""
        v = self.vec_of(st, args[0])
        h = self.vlast(st, v)
        if h is None:
            return NONE
        return some(("T", (("RV", h[0]), ("RV", h[1]))))

    def f_to_vec(self, st, c, args, t):
        """slice::to_vec ToOwned::to_owned Vec::into_boxed_slice slice::into_vec Cow::into_owned"""
        v = self.ip.full(st, args[0])
        if type(v) is tuple and v[0] == "V":
            return ("V", tuple(s for s in v[1] if s[0] != "m"))
        return v

    def f_concat(self, st, c, args, t):
        """slice::concat"""
        rt = self.ret_type(st, c, t)
        if rt[0] == "adt" and rt[1] == "std::string::String":
            return self.model(st, "concat_vec", args, t)
        raise Unsupported("concat")

    def f_join(self, st, c, args, t):
        """slice::join"""
        rt = self.ret_type(st, c, t)
        if rt[0] == "adt" and rt[1] == "std::string::String":
            return self.model(st, "join_vec", args, t)
        raise Unsupported("join")

    # ---- String / str ------------------------------------------------------------------------------
    def f_string_new(self, st, c, args, t):
        """String::new String::with_capacity"""
        return EMPTY

    def f_string_push(self, st, c, args, t):
        """String::push"""
        r, s = self.ip.lastref(st, args[0])
        ch = self.ip.full(st, args[1])
        self.ip.wr(st, r, st.concat(self.str_of(st, s), ("S", (self.atom_of_char(st, ch),))))
        return UNIT

    def f_string_push_str(self, st, c, args, t):
        """String::push_str"""
        r, s = self.ip.lastref(st, args[0])
        self.ip.wr(st, r, st.concat(self.str_of(st, s), self.str_of(st, args[1])))
        return UNIT

    def f_string_clear(self, st, c, args, t):
        """String::clear"""
        r, s = self.ip.lastref(st, args[0])
        self.ip.wr(st, r, EMPTY)
        return UNIT

    def f_string_pop(self, st, c, args, t):
        """String::pop"""
        r, s = self.ip.lastref(st, args[0])
        h = self.slast(st, self.str_of(st, s))
        if h is None:
            return NONE
        self.ip.wr(st, r, h[1])
        return some(h[0])

    def f_string_insert(self, st, c, args, t):
        """String::insert String::insert_str"""
        r, s = self.ip.lastref(st, args[0])
        a, b = self.cutoff(st, self.str_of(st, s), self.ip.full(st, args[1]))
        x = ("S", (self.atom_of_char(st, self.ip.full(st, args[2])),)) if c["key"] == "String::insert" else self.str_of(st, args[2])
        self.ip.wr(st, r, st.concat(st.concat(a, x), b))
        return UNIT

    def f_string_len(self, st, c, args, t):
        """String::len str::len"""
        s = self.str_of(st, args[0])
        n = self.length(st, ("SL", s))
        return ("SL", s) if n is None else n

    def f_string_is_empty(self, st, c, args, t):
        """String::is_empty str::is_empty"""
        return self.is_empty(st, self.str_of(st, args[0]))

    def f_as_str(self, st, c, args, t):
        """String::as_str Deref::deref DerefMut::deref_mut AsRef::as_ref AsMut::as_mut Borrow::borrow Vec::as_slice Vec::as_mut_slice String::as_mut_str Option::as_deref Option::as_deref_mut"""
        if c["key"].startswith("Option::"):
            v = self.ip.full(st, args[0])
            if v == NONE:
                return NONE
            if type(v) is tuple and v[0] == "A" and v[1] == OPT:
                if c["key"].endswith("mut"):
                    raise Unsupported("as_deref_mut")
                return some(("RV", v[3][0]))
            raise Unsupported("as_deref")
        a = args[0]
        v = self.ip.rd(st, a)
        if type(v) is tuple and v[0] in ("R", "RV"):
            return v
        if type(v) is tuple and v[0] == "A" and v[1] == BOXN:
            if a[0] == "R":
                return ("R", a[1], a[2] + (0,))
            return ("RV", v[3][0])
        return a

    def f_chars(self, st, c, args, t):
        """str::chars"""
        return It("Chars", self.str_of(st, args[0]))

    def f_chars_as_str(self, st, c, args, t):
        """Chars::as_str"""
        v = self.ip.full(st, args[0])
        if isit(v, "Chars"):
            return ("RV", v[3][0])
        raise Unsupported("as_str")

    def pat_mask(self, st, p):
        """mask of a single-character pattern; None otherwise"""
        v = self.ip.full(st, p)
        if type(v) is str:
            return AB.bit.get(v)
        if type(v) is tuple:
            if v[0] == "C":
                m = st.char_mask(v)
                return m if AB.single(m) else None
            if v[0] == "S":
                l = self.lit(st, v)
                if l is not None and len(l) == 1:
                    return AB.bit.get(l)
            if v[0] in ("K", "F"):
                return self.pred_mask(st, v, False)
            if v[0] == "V":
                m = 0
                for s in v[1]:
                    if s[0] != "e" or type(s[1]) is not str:
                        return None
                    m |= AB.bit[s[1]]
                return m
        return None

    def f_split(self, st, c, args, t):
        """str::split str::rsplit str::split_terminator str::split_inclusive"""
        m = self.pat_mask(st, args[1])
        if m is None:
            raise Unsupported("split by a pattern")
        k = c["key"].split("::")[1]
        s = self.str_of(st, args[0])
        if k == "rsplit":
            return self.model(st, "rev", [It("Split", s, m, False)], t)
        return It({"split": "Split", "split_terminator": "SplitT", "split_inclusive": "SplitI"}[k], s, m, False)

    def f_splitn(self, st, c, args, t):
        """str::splitn"""
        m = self.pat_mask(st, args[2])
        n = self.ip.num(st, args[1])
        if m is None or type(n) is not int:
            raise Unsupported("splitn by a pattern")
        return It("SplitN", self.str_of(st, args[0]), m, n)

    def f_lines(self, st, c, args, t):
        """str::lines"""
        return It("Lines", self.str_of(st, args[0]))

    def f_split_ws(self, st, c, args, t):
        """str::split_whitespace str::split_ascii_whitespace"""
        m = AB.ws if "ascii" not in c["key"] else AB.of("\t\n\x0c\r ")
        return It("SplitW", self.str_of(st, args[0]), m)

    def f_char_indices(self, st, c, args, t):
        """str::char_indices"""
        return It("CharIndices", self.str_of(st, args[0]), EMPTY)

    def f_bytes(self, st, c, args, t):
        """str::bytes"""
        return It("Bytes", self.str_of(st, args[0]))

    def f_matches(self, st, c, args, t):
        """str::matches"""
        m = self.pat_mask(st, args[1])
        if m is None:
            raise Unsupported("matches of a pattern")
        return It("Matches", self.str_of(st, args[0]), m)

    def f_split_once(self, st, c, args, t):
        """str::split_once str::rsplit_once"""
        m = self.pat_mask(st, args[1])
        if m is None:
            raise Unsupported("split_once by a pattern")
        s = self.str_of(st, args[0])
        if c["key"].endswith("rsplit_once"):
            h = self.cut_last(st, s, m)
            if h is None:
                return NONE
            h = (self.slast(st, h[0])[1], h[1])
        else:
            h = self.split_at(st, s, m)
            if h is None:
                return NONE
        return some(("T", (("RV", h[0]), ("RV", h[1]))))

    def f_contains(self, st, c, args, t):
        """str::contains"""
        m = self.pat_mask(st, args[1])
        s = self.str_of(st, args[0])
        if m is None:
            return self.find_lit(st, s, self.pat_lit(st, args[1])) is not None
        if m == AB.nl:
            return not st.decide_eq(st.NS(s[1]))
        return self.split_at(st, s, m) is not None

    def pat_lit(self, st, p):
        v = self.ip.full(st, p)
        if type(v) is tuple and v[0] == "S":
            l = self.lit(st, v)
            if l:
                return l
        raise Unsupported("search for a pattern")

    def find_lit(self, st, s, lit, limit=3):
        """(text before, text from the occurrence) of a longer literal, or None"""
        m = AB.bit.get(lit[0], 0)
        rest = s
        for _ in range(limit):
            h = self.cut_first(st, rest, m)
            if h is None:
                return None
            cur = h[1]
            for ch in lit:
                x = self.sfirst(st, cur)
                if x is None:
                    cur = None
                    break
                if (x[0] != ch) if type(x[0]) is str else not st.char_in(x[0], AB.bit.get(ch, 0)):
                    cur = None
                    break
                cur = x[1]
            if cur is not None:
                return self.prefix_of(st, s, h[1]), h[1]
            rest = self.sfirst(st, h[1])[1]
        raise Unsupported("search for a longer pattern")

    def prefix_of(self, st, s, rest):
        """s without its suffix rest (both describe the same text)"""
        a, b = st.norm(s[1]), st.norm(rest[1])
        if not b:
            return ("S", a)
        if a[len(a) - len(b) + 1:] != b[1:]:
            raise Unsupported("prefix of a text")
        x, y = a[len(a) - len(b)], b[0]
        pre = tuple(a[:len(a) - len(b)])
        if type(x) is str and type(y) is str and x.endswith(y):
            return ("S", pre + ((x[:-len(y)],) if len(x) > len(y) else ()))
        if type(x) is tuple and type(y) is tuple and x[0] == "r" == y[0] and x[2] == y[2]:
            return ("S", pre + ((("r", x[1], y[1]),) if x[1] != y[1] else ()))
        raise Unsupported("prefix of a text")

    def f_find(self, st, c, args, t):
        """str::find str::rfind"""
        m = self.pat_mask(st, args[1])
        s = self.str_of(st, args[0])
        if c["key"].endswith("rfind"):
            if m is None:
                raise Unsupported("rfind of a pattern")
            h = self.cut_last(st, s, m)
            if h is None:
                return NONE
            return some(self.offset(st, self.slast(st, h[0])[1]))
        h = self.cut_first(st, s, m) if m is not None else self.find_lit(st, s, self.pat_lit(st, args[1]))
        return NONE if h is None else some(self.offset(st, h[0]))

    def offset(self, st, prefix):
        n = self.length(st, ("SL", prefix))
        return ("SL", prefix) if n is None else n

    def cutoff(self, st, s, off):
        """(text before, text from) a byte offset into s; panics like slicing does"""
        if type(off) is tuple and off[0] == "SO":
            pre, rest = self.cutoff(st, s, ("SL", off[1]))
            k = off[2]
            if k < 0:
                cur = pre
                while k < 0:
                    h = self.slast(st, cur)
                    if h is None:
                        self.panic("byte index out of bounds")
                    k += self.char_len(st, h[0], -k)
                    cur = h[1]
                return cur, self.suffix_of(st, s, cur)
            x, rest = self.cutoff(st, rest, k)
            return self.prefix_of(st, s, rest), rest
        if type(off) is tuple and off[0] == "SL":
            return off[1], self.suffix_of(st, s, off[1])
        if type(off) is not int:
            raise Unsupported("slicing at an unknown offset")
        rest = s
        k = off
        while k > 0:
            h = self.sfirst(st, rest)
            if h is None:
                self.panic("byte index out of bounds")
            k -= self.char_len(st, h[0], k)
            rest = h[1]
        return self.prefix_of(st, s, rest), rest

    def char_len(self, st, ch, room):
        if type(ch) is not str:
            c1 = AB.single(st.char_mask(ch))
            if c1 is None:
                if st.char_in(ch, AB.ascii):
                    return 1
                if room >= 2:
                    raise Unsupported("width of a character")
                self.panic("byte index is not a char boundary")
            ch = c1
        n = len(ch.encode("utf8"))
        if n > room:
            self.panic("byte index is not a char boundary")
        return n

    def suffix_of(self, st, s, pre):
        a, b = st.norm(s[1]), st.norm(pre[1])
        if not b:
            return ("S", a)
        if a[:len(b) - 1] != b[:-1] or len(a) < len(b):
            raise Unsupported("offset into another text")
        x, y = a[len(b) - 1], b[-1]
        post = tuple(a[len(b):])
        if type(x) is str and type(y) is str and x.startswith(y):
            return ("S", ((x[len(y):],) if len(x) > len(y) else ()) + post)
        if type(x) is tuple and type(y) is tuple and x[0] == "r" == y[0] and x[1] == y[1] and st.tape.pos[y[2]] <= st.tape.pos[x[2]]:
            return ("S", ((("r", y[2], x[2]),) if x[2] != y[2] else ()) + post)
        raise Unsupported("offset into another text")

    def slice_str(self, st, s, rng):
        """s[range]"""
        n = rng[1].split("::")[-1]
        f = [self.ip.full(st, x) for x in rng[3]]
        if n == "RangeFull":
            return s
        if n == "RangeFrom":
            return self.cutoff(st, s, f[0])[1]
        if n == "RangeTo":
            return self.cutoff(st, s, f[0])[0]
        if n == "RangeToInclusive":
            return self.cutoff(st, s, self.plus(f[0], 1))[0]
        if n in ("Range", "RangeInclusive"):
            hi = self.plus(f[1], 1) if n == "RangeInclusive" else f[1]
            a = self.cutoff(st, s, hi)[0]
            return self.cutoff(st, a, f[0])[1]
        raise Unsupported("string slicing by " + n)

    def plus(self, v, k):
        if type(v) is int:
            return v + k
        if type(v) is tuple and v[0] in ("SL", "VL"):
            return ("SO" if v[0] == "SL" else "VO", v[1], k)
        if type(v) is tuple and v[0] in ("SO", "VO"):
            return (v[0], v[1], v[2] + k) if v[2] + k else ("SL" if v[0] == "SO" else "VL", v[1])
        raise Unsupported("offset arithmetic")

    def f_str_get(self, st, c, args, t):
        """str::get"""
        s = self.str_of(st, args[0])
        rng = self.ip.full(st, args[1])
        try:
            return some(("RV", self.slice_str(st, s, rng)))
        except self.ip.Panic:
            return NONE

    def f_split_at_idx(self, st, c, args, t):
        """str::split_at"""
        a, b = self.cutoff(st, self.str_of(st, args[0]), self.ip.full(st, args[1]))
        return ("T", (("RV", a), ("RV", b)))

    def f_truncate(self, st, c, args, t):
        """String::truncate String::split_off String::remove"""
        r, v = self.ip.lastref(st, args[0])
        s = self.str_of(st, v)
        off = self.ip.full(st, args[1])
        k = c["key"].split("::")[1]
        if k == "truncate" and type(off) is int:
            # beyond the end: nothing happens
            if off == 0:
                self.ip.wr(st, r, EMPTY)
                return UNIT
            try:
                a, b = self.cutoff(st, s, off)
            except self.ip.Panic as p:
                if "bounds" in str(p):
                    return UNIT
                raise
        else:
            a, b = self.cutoff(st, s, off)
        if k == "truncate":
            self.ip.wr(st, r, a)
            return UNIT
        if k == "split_off":
            self.ip.wr(st, r, a)
            return b
        h = self.sfirst(st, b)
        if h is None:
            self.panic("cannot remove a char from the end of a string")
        self.ip.wr(st, r, st.concat(a, h[1]))
        return h[0]

    def f_string_drain(self, st, c, args, t):
        """String::drain"""
        r, v = self.ip.lastref(st, args[0])
        s = self.str_of(st, v)
        rng = self.ip.full(st, args[1])
        n = rng[1].split("::")[-1]
        x = self.slice_str(st, s, rng)
        f = [self.ip.full(st, q) for q in rng[3]]
        pre = EMPTY if n in ("RangeFull", "RangeTo", "RangeToInclusive") else self.cutoff(st, s, f[0])[0]
        post = self.suffix_of(st, self.suffix_of(st, s, pre), x)
        self.ip.wr(st, r, st.concat(pre, post))
        return It("Chars", x)

    def f_starts_with(self, st, c, args, t):
        """str::starts_with str::ends_with str::strip_prefix str::strip_suffix"""
        s = self.str_of(st, args[0])
        k = c["key"].split("::")[1]
        back = "end" in k or "suffix" in k
        p = self.ip.full(st, args[1])
        if type(p) is tuple and p[0] == "S":
            lit = self.lit(st, p)
            if lit is None:
                raise Unsupported(k)
            masks = [AB.bit.get(ch, 0) for ch in (lit[::-1] if back else lit)]
        else:
            m = self.pat_mask(st, args[1])
            if m is None:
                raise Unsupported(k)
            masks = [m]
        rest = s
        for m in masks:
            h = self.slast(st, rest) if back else self.sfirst(st, rest)
            if h is None:
                return False if "with" in k else NONE
            ch, rest = h
            if type(ch) is str:
                if not AB.bit.get(ch, 0) & m:
                    return False if "with" in k else NONE
            elif not st.char_in(ch, m):
                return False if "with" in k else NONE
        return True if "with" in k else some(("RV", rest))

    def trim_of(self, st, s, m, front, back):
        if front:
            h = self.cut_first(st, s, AB.all & ~m)
            if h is None:
                return EMPTY
            s = h[1]
        if back:
            h = self.cut_last(st, s, AB.all & ~m)
            if h is None:
                return EMPTY
            s = h[0]
        return s

    def f_trim(self, st, c, args, t):
        """str::trim str::trim_start str::trim_end str::trim_left str::trim_right str::trim_ascii str::trim_ascii_start str::trim_ascii_end str::trim_matches str::trim_start_matches str::trim_end_matches str::trim_left_matches str::trim_right_matches"""
        k = c["key"].split("::")[1]
        s = self.str_of(st, args[0])
        if "matches" in k:
            m = self.pat_mask(st, args[1])
            if m is None:
                raise Unsupported(c["key"])
        else:
            m = AB.of("\t\n\x0c\r ") if "ascii" in k else AB.ws
        front = not ("end" in k or "right" in k)
        back = not ("start" in k or "left" in k)
        return ("RV", self.trim_of(st, s, m, front, back))

    def f_replace_str(self, st, c, args, t):
        """str::replace"""
        s = self.str_of(st, args[0])
        to = self.str_of(st, args[2])
        m = self.pat_mask(st, args[1])
        out = self.substitute(st, s, m, to) if m is not None else None
        if out is not None:
            return out
        lit = self.pat_lit(st, args[1])
        if self.lacks(st, s, lit):
            return s
        h = self.find_lit(st, s, lit)
        if h is None:
            return s
        rest = self.suffix_of(st, h[1], ("S", (lit,))) if type(h[1][1][0]) is str else self.skip_chars(st, h[1], len(lit))
        return st.concat(st.concat(h[0], to), self.without(st, rest, AB.bit.get(lit[0], 0)))

    def skip_chars(self, st, s, n):
        for _ in range(n):
            s = self.sfirst(st, s)[1]
        return s

    def lacks(self, st, s, lit):
        m = self.str_mask(st, s)
        return any(not AB.bit.get(ch, 0) & m for ch in lit)

    def str_mask(self, st, s):
        m = 0
        for a in s[1]:
            if type(a) is str:
                m |= AB.of([ch for ch in a if ch in AB.bit])
            elif a[0] == "r":
                for it in st.tape.items[st.tape.pos[a[1]]:st.tape.pos[a[2]]]:
                    m |= it[1] if it[0] in ("T", "B") else AB.of(it[1]) if it[0] == "L" else AB.all
            else:
                return AB.all
        return m

    def without(self, st, s, m):
        """continue with the texts that have no character of m: the others are left out of the analysis (noted)"""
        if self.str_mask(st, s) & m:
            h = self.cut_first(st, s, m)
            if h is not None:
                raise Unsupported("more than one occurrence")
        return s

    def substitute(self, st, s, m, to):
        """every character of m replaced by to; texts with several occurrences are left out (noted)"""
        if type(to) is tuple and self.lit(st, to) is not None and AB.single(m) == self.lit(st, to):
            return s
        h = self.cut_first(st, s, m)
        if h is None:
            return s
        rest = self.without(st, self.sfirst(st, h[1])[1], m)
        return st.concat(st.concat(h[0], to), rest)

    def f_string_retain(self, st, c, args, t):
        """String::retain"""
        r, v = self.ip.lastref(st, args[0])
        m = self.pred_mask(st, args[1], False)
        if m is None:
            raise Unsupported("retain")
        self.ip.wr(st, r, self.substitute(st, self.str_of(st, v), AB.all & ~m, EMPTY))
        return UNIT

    def f_case(self, st, c, args, t):
        """str::to_lowercase str::to_uppercase str::to_ascii_lowercase str::to_ascii_uppercase"""
        k = c["key"].split("::")[1]
        s = self.str_of(st, args[0])

        def conv(ch):
            if "ascii" in k and ord(ch) > 127:
                return ch
            return ch.lower() if "lower" in k else ch.upper()
        l = self.lit(st, s)
        if l is not None:
            return ("S", ("".join(map(conv, l)),) if l else ())
        m = AB.mask(lambda ch: conv(ch) != ch)
        h = self.cut_first(st, s, m)
        if h is None:
            return s
        ch, rest = self.sfirst(st, h[1])
        if type(ch) is not str:
            one = AB.single(st.char_mask(ch))
            if one is None:
                x = AB.of("Q" if "lower" in k else "q")
                if not st.char_in(ch, x):
                    raise Unsupported("case mapping")
                one = AB.single(x)
            ch = one
        return st.concat(st.concat(h[0], ("S", (conv(ch),))), self.without(st, rest, m))

    def f_unsupported(self, st, c, args, t):
        """str::as_bytes String::into_bytes String::as_bytes str::eq_ignore_ascii_case String::replace_range str::rsplitn"""
        raise Unsupported(c["key"])

    def f_repeat(self, st, c, args, t):
        """str::repeat"""
        n = self.ip.num(st, args[1])
        s = self.str_of(st, args[0])
        if type(n) is not int or n > 16:
            raise Unsupported("repeat")
        out = EMPTY
        for _ in range(n):
            out = st.concat(out, s)
        return out

    def f_string_from(self, st, c, args, t):
        """str::to_string str::to_owned String::from str::into_string str::into_boxed_str"""
        return self.str_of(st, args[0])

    def f_add(self, st, c, args, t):
        """Add::add AddAssign::add_assign"""
        a = self.ip.full(st, args[0])
        if type(a) is tuple and a[0] == "S":
            r = st.concat(a, self.str_of(st, args[1]))
            if c["key"] == "Add::add":
                return r
            ref, _ = self.ip.lastref(st, args[0])
            self.ip.wr(st, ref, r)
            return UNIT
        b = self.ip.num(st, self.ip.full(st, args[1]))
        a = self.ip.num(st, a)
        if type(a) in (int, Lin) and type(b) in (int, Lin):
            r = add(a, b)
            if c["key"] == "Add::add":
                return r
            ref, _ = self.ip.lastref(st, args[0])
            self.ip.wr(st, ref, r)
            return UNIT
        raise Unsupported("add")

    def f_sub(self, st, c, args, t):
        """Sub::sub SubAssign::sub_assign"""
        a = self.ip.num(st, self.ip.full(st, args[0]))
        b = self.ip.num(st, self.ip.full(st, args[1]))
        if type(a) in (int, Lin) and type(b) in (int, Lin):
            r = sub(a, b)
            if not st.decide_ge(r):
                self.panic("attempt to subtract with overflow")
            if c["key"] == "Sub::sub":
                return r
            ref, _ = self.ip.lastref(st, args[0])
            self.ip.wr(st, ref, r)
            return UNIT
        raise Unsupported("sub")

    def f_arith(self, st, c, args, t):
        """u32::saturating_sub usize::saturating_sub u64::saturating_sub"""
        a, b = self.ip.num(st, args[0]), self.ip.num(st, args[1])
        if type(a) in (int, Lin) and type(b) in (int, Lin):
            d = sub(a, b)
            return d if st.decide_ge(d) else 0
        raise Unsupported("saturating_sub")

    def f_arith2(self, st, c, args, t):
        """u32::saturating_add usize::saturating_add u32::wrapping_add usize::wrapping_add u64::saturating_add"""
        a, b = self.ip.num(st, args[0]), self.ip.num(st, args[1])
        if type(a) in (int, Lin) and type(b) in (int, Lin):
            return add(a, b)
        raise Unsupported("saturating_add")

    def f_arith3(self, st, c, args, t):
        """u32::wrapping_sub usize::wrapping_sub"""
        a, b = self.ip.num(st, args[0]), self.ip.num(st, args[1])
        if type(a) in (int, Lin) and type(b) in (int, Lin):
            d = sub(a, b)
            if st.decide_ge(d):
                return d
        raise Unsupported("wrapping_sub")

    def f_checked(self, st, c, args, t):
        """u32::checked_sub usize::checked_sub"""
        a, b = self.ip.num(st, args[0]), self.ip.num(st, args[1])
        if type(a) in (int, Lin) and type(b) in (int, Lin):
            d = sub(a, b)
            return some(d) if st.decide_ge(d) else NONE
        raise Unsupported("checked_sub")

    def f_checked_add(self, st, c, args, t):
        """u32::checked_add usize::checked_add"""
        a, b = self.ip.num(st, args[0]), self.ip.num(st, args[1])
        if type(a) in (int, Lin) and type(b) in (int, Lin):
            return some(add(a, b))
        raise Unsupported("checked_add")

    def f_minmax(self, st, c, args, t):
        """Ord::max Ord::min cmp::max cmp::min"""
        a, b = self.ip.num(st, args[0]), self.ip.num(st, args[1])
        if type(a) in (int, Lin) and type(b) in (int, Lin):
            ge = st.decide_ge(sub(a, b))
            return (a if ge else b) if c["key"].endswith("max") else (b if ge else a)
        raise Unsupported("max")

    def f_cmp(self, st, c, args, t):
        """PartialOrd::lt PartialOrd::le PartialOrd::gt PartialOrd::ge"""
        a, b = self.ip.full(st, args[0]), self.ip.full(st, args[1])
        op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c["method"]]
        return self.ip.compare(st, op, a, b)

    # ---- chars ---------------------------------------------------------------------------------
    def f_char_pred(self, st, c, args, t):
        """char::is_whitespace char::is_ascii_alphabetic char::is_alphabetic char::is_alphanumeric char::is_ascii_alphanumeric char::is_numeric char::is_ascii_digit char::is_ascii char::is_ascii_whitespace char::is_ascii_punctuation char::is_ascii_uppercase char::is_ascii_lowercase char::is_uppercase char::is_lowercase char::is_control char::is_ascii_control char::is_ascii_graphic char::is_ascii_hexdigit"""
        ch = self.ip.full(st, args[0])
        f = PREDS[c["key"].split("::")[1]]
        if type(ch) is str:
            return f(ch)
        return st.char_in(ch, AB.mask(f))

    def f_len_utf8(self, st, c, args, t):
        """char::len_utf8"""
        ch = self.ip.full(st, args[0])
        if type(ch) is str:
            return len(ch.encode("utf8"))
        if st.char_in(ch, AB.ascii):
            return 1
        return st.newp(2)

    # ---- mem / misc ------------------------------------------------------------------------------
    def f_take(self, st, c, args, t):
        """mem::take"""
        r, v = self.ip.lastref(st, args[0]) if False else (args[0], self.ip.rd(st, args[0]))
        d = self.default_of(st, v, c)
        self.ip.wr(st, r, d)
        return self.nomarks(v)

    def nomarks(self, v):
        if type(v) is tuple and v[0] == "V":
            return ("V", tuple(s for s in v[1] if s[0] != "m"))
        return v

    def default_of(self, st, v, c=None):
        if type(v) is tuple:
            if v[0] == "S":
                return EMPTY
            if v[0] == "V":
                return ("V", ())
            if v[0] == "A" and v[1] == OPT:
                return NONE
            if v[0] == "T":
                return ("T", tuple(self.default_of(st, x) for x in v[1]))
        if type(v) is bool:
            return False
        if type(v) in (int, Lin):
            return 0
        if type(v) is tuple and v[0] == "A":
            # newtype structs with a derived Default
            l = self.ip.p.by_self.get(("Default", "default", v[1]))
            if l and l[0].derived and self.ip.p.adts[v[1]]["kind"] == "struct":
                return ("A", v[1], 0, tuple(self.default_of(st, x) for x in v[3]))
        raise Unsupported("default value")

    def f_replace(self, st, c, args, t):
        """mem::replace"""
        v = self.ip.rd(st, args[0])
        self.ip.wr(st, args[0], args[1])
        return self.nomarks(v)

    def f_swap(self, st, c, args, t):
        """mem::swap"""
        a, b = self.ip.rd(st, args[0]), self.ip.rd(st, args[1])
        self.ip.wr(st, args[0], b)
        self.ip.wr(st, args[1], a)
        return UNIT

    def f_drop(self, st, c, args, t):
        """mem::drop mem::forget"""
        return UNIT

    def f_ident(self, st, c, args, t):
        """hint::must_use convert::identity hint::black_box Vec::into_iter Box::into_inner"""
        return args[0]

    def f_default(self, st, c, args, t):
        """Default::default"""
        ty = self.ip.rty(c["args"][0], st.substs)
        return self.default_ty(st, ty)

    def default_ty(self, st, ty):
        if ty[0] == "int":
            return 0
        if ty[0] == "bool":
            return False
        if ty[0] == "char":
            return "\0"
        if ty[0] == "adt":
            if ty[1] == "std::string::String":
                return EMPTY
            if ty[1] == "std::vec::Vec":
                return ("V", ())
            if ty[1] == OPT:
                return NONE
        if ty[0] == "tuple":
            return ("T", tuple(self.default_ty(st, self.ip.p.types[x]) for x in ty[1]))
        if ty[0] == "ref":
            x = self.ip.p.types[ty[2]]
            if x[0] == "str":
                return ("RV", EMPTY)
            if x[0] == "slice":
                return ("RV", ("V", ()))
        raise Unsupported("default of %s" % (ty,))

    def f_unwrap_or_default(self, st, c, args, t):
        """Option::unwrap_or_default Result::unwrap_or_default"""
        v = args[0]
        if v == NONE or (v[1] == RES and v[2] == 1):
            return self.default_ty(st, self.ret_type(st, c, t))
        return v[3][0]

    def f_try(self, st, c, args, t):
        """Try::branch"""
        v = self.ip.full(st, args[0])
        CF = "std::ops::ControlFlow"
        if type(v) is tuple and v[0] == "A":
            if v[1] == RES:
                if v[2] == 0:
                    return ("A", CF, 0, (v[3][0],))
                return ("A", CF, 1, (v,))
            if v[1] == OPT:
                if v[2] == 1:
                    return ("A", CF, 0, (v[3][0],))
                return ("A", CF, 1, (v,))
        raise Unsupported("? on an unknown value")

    def f_from_residual(self, st, c, args, t):
        """FromResidual::from_residual"""
        v = args[0]
        if v == NONE:
            return NONE
        # Err(e): error conversion
        rt = self.ret_type(st, c, t)
        e = v[3][0]
        if rt[0] == "adt" and rt[1] == RES:
            dst = self.ip.p.types[rt[2][1]]
            src = self.val_adt(e)
            if dst[0] == "adt" and src is not None and dst[1] != src:
                for f in self.ip.p.by_self.get(("From", "from", dst[1]), []):
                    ta = f.trargs[1:] if len(f.trargs) > 1 else f.trargs
                    at = self.ip.p.types[ta[0]] if ta else None
                    if at and at[0] == "adt" and at[1] == src:
                        self.ip.enter(st, f, [e], t, {})
                        s2 = st
                        s2.onret = err
                        return _H()
                if dst[1] in self.ip.p.adts and self.ip.p.adts[dst[1]]["local"]:
                    raise Unsupported("error conversion")
                return err(unk("converted error"))
        return err(e)

    def val_adt(self, v):
        return v[1] if type(v) is tuple and v[0] in ("A", "W") else None

    def f_box_uninit(self, st, c, args, t):
        """Box::new_uninit"""
        k = 1 << 40
        while k in st.mem:
            k += 1
        st.mem[k] = ("T", (UNIT, ("T", (UNIT,))))
        return ("R", k, ())

    def f_box_init(self, st, c, args, t):
        """boxed::box_assume_init_into_vec_unsafe"""
        r = args[0]
        v = self.ip.rd(st, r)
        arr = v[1][1]
        while type(arr) is tuple and arr[0] == "T":
            arr = arr[1][0]
        del st.mem[r[1]]
        return arr

    def f_box_new(self, st, c, args, t):
        """Box::new Rc::new Arc::new"""
        return ("A", BOXN, 0, (args[0],))

    def f_vec_macro(self, st, c, args, t):
        """vec::from_elem"""
        n = self.ip.num(st, args[1])
        if type(n) is int and n < 16:
            return ("V", (("e", args[0]),) * n)
        raise Unsupported("vec![x; n]")

    def panic(self, why):
        import interp
        raise interp.Panic(why)

    def f_panic(self, st, c, args, t):
        """rt::panic_fmt panicking::panic_fmt panicking::panic panicking::panic_display panicking::unreachable_display panicking::assert_failed option::unwrap_failed option::expect_failed result::unwrap_failed panicking::todo_default_msg panicking::unreachable_default_msg rt::begin_panic panicking::begin_panic panicking::panic_explicit panicking::unimplemented_default_msg"""
        if "default_msg" in c["key"] and t[4] is not None:
            return unk("message")
        self.panic("panic")

    # ---- formatting ------------------------------------------------------------------------------
    def f_arg_display(self, st, c, args, t):
        """Argument::new_display"""
        return ("A", "I::Arg", 0, ("d", args[0]))

    def f_arg_debug(self, st, c, args, t):
        """Argument::new_debug Argument::new_lower_hex Argument::new_upper_hex Argument::new_pointer"""
        return ("A", "I::Arg", 0, ("D", UNIT))

    def f_arguments(self, st, c, args, t):
        """Arguments::new Arguments::new_const Arguments::new_v1 Arguments::new_v1_formatted"""
        tmpl = self.ip.full(st, args[0])
        av = self.vec_of(st, args[1]) if len(args) > 1 else ("V", ())
        if tmpl[0] == "S":
            tmpl = ("by", tuple(self.lit(st, tmpl).encode("latin1", "replace")))
        if tmpl[0] != "by":
            raise Unsupported("format template")
        by = tmpl[1]
        al = [s[1] for s in av[1] if s[0] == "e"]
        out = EMPTY
        i, ai = 0, 0
        while i < len(by):
            b = by[i]
            if b == 0:
                break
            if b < 0x80:
                out = st.concat(out, ("S", (bytes(by[i + 1:i + 1 + b]).decode("utf8"),)))
                i += 1 + b
                continue
            if b == 0x80:
                n = by[i + 1] | by[i + 2] << 8
                out = st.concat(out, ("S", (bytes(by[i + 3:i + 3 + n]).decode("utf8"),)))
                i += 3 + n
                continue
            fl = b & 0x3f
            i += 1
            if fl & 1:
                i += 4
            if fl & 2:
                i += 2
            if fl & 4:
                i += 2
            if fl & 8:
                ai = by[i] | by[i + 1] << 8
                i += 2
            if fl & ~8:
                raise Unsupported("format options")
            a = al[ai]
            ai += 1
            if a[3][0] == "d":
                out = st.concat(out, self.display(st, a[3][1]))
            else:
                out = st.concat(out, ("S", (("u", "debug", None),)))
        return ("fmt", out)

    def f_arguments_str(self, st, c, args, t):
        """Arguments::from_str_nonconst Arguments::from_str"""
        return ("fmt", self.str_of(st, args[0]))

    def f_format(self, st, c, args, t):
        """fmt::format"""
        v = self.ip.full(st, args[0])
        if v[0] == "fmt":
            return v[1]
        raise Unsupported("format")

    def f_write(self, st, c, args, t):
        """Formatter::write_fmt Formatter::write_str Formatter::write_char Write::write_fmt Write::write_str Write::write_char Formatter::pad"""
        r, v = self.ip.lastref(st, args[0])
        k = c["key"].split("::")[1]
        x = self.ip.full(st, args[1])
        if k == "write_fmt":
            if x[0] != "fmt":
                raise Unsupported("write_fmt")
            s = x[1]
        elif k == "write_char":
            s = ("S", (self.atom_of_char(st, x),))
        else:
            s = self.str_of(st, x)
        if type(v) is tuple and v[0] == "A" and v[1] == FMT:
            self.ip.wr(st, r, ("A", FMT, 0, (st.concat(v[3][0], s),)))
        elif type(v) is tuple and v[0] == "S":
            self.ip.wr(st, r, st.concat(v, s))
        else:
            raise Unsupported("write to an unknown sink")
        return ok(UNIT)

    def f_display_fmt(self, st, c, args, t):
        """Display::fmt"""
        s = self.display(st, args[0])
        r, v = self.ip.lastref(st, args[1])
        if type(v) is tuple and v[0] == "A" and v[1] == FMT:
            self.ip.wr(st, r, ("A", FMT, 0, (st.concat(v[3][0], s),)))
            return ok(UNIT)
        raise Unsupported("Display::fmt sink")

    def f_debug_fmt(self, st, c, args, t):
        """Debug::fmt Formatter::debug_struct_field1_finish Formatter::debug_struct_field2_finish Formatter::debug_struct_field3_finish Formatter::debug_tuple_field1_finish Formatter::debug_struct_fields_finish"""
        return ok(UNIT)

    def f_parse(self, st, c, args, t):
        """str::parse"""
        rt = self.ret_type(st, c, t)
        inner = self.ip.p.types[rt[2][0]] if rt[0] == "adt" and rt[1] == RES else None
        if inner and inner[0] == "adt":
            l = self.ip.p.by_self.get(("FromStr", "from_str", inner[1]))
            if l:
                fn = l[0]
                r = self.ip.spec.contract(self.ip, st, fn, args, t)
                if r is not NotImplemented:
                    return r
                self.ip.enter(st, fn, args, t, {})
                return _H()
        raise Unsupported("parse")

    def f_next_generic(self, st, c, args, t):
        """Iterator::by_ref"""
        return args[0]


OPT = "std::option::Option"
BOXN = "std::boxed::Box"


def _H():
    import interp
    return interp.HANDLED


def replace_seg(st, old, new):
    """splice every occurrence of collection segment `old` by the segments `new`"""
    def go(v):
        if type(v) is not tuple or not v:
            return v
        if v[0] == "V":
            segs = v[1]
            ch = False
            out = []
            for s in segs:
                if s == old:
                    out.extend(new)
                    ch = True
                else:
                    s2 = go(s)
                    if s2 is not s:
                        ch = True
                    out.append(s2)
            return ("V", tuple(out)) if ch else v
        ch = False
        out = []
        for x in v:
            if type(x) is tuple:
                y = go(x)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    for k, v in st.mem.items():
        if type(v) is tuple:
            st.mem[k] = go(v)
    st.ghost = {k: go(v) if type(v) is tuple else v for k, v in st.ghost.items()}
    if st.mon is not None:
        st.mon = go(st.mon)
