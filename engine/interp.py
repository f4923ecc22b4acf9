"""Abstract interpreter for MIR: one statement at a time, forking on undecided conditions."""
from core import *
from core import AB
import core

M = "M::"
BOX = "std::boxed::Box"
HEAP = 1 << 40
MAXDEPTH = 48
ORD = "std::cmp::Ordering"


LENS = ("SL", "VL", "SO", "VO")


class Panic(Exception):
    def __init__(self, kind):
        self.kind = kind


class Stop(Exception):
    """path abandoned (analysis limit)"""


def key(d, l):
    return (d << 12) | l


MOVED = frozenset(("S", "V", "A", "T", "W", "Q"))


class Interp:
    Panic = Panic

    def __init__(self, prog, spec=None):
        self.p = prog
        self.spec = spec
        self.stmts = 0
        self.unsupported = {}
        self.called = set()
        self.exact = False
        self.root_fn = None
        self.recursions = 0
        self.edges = set()      # operations called on the value given
        import builtins_
        self.bi = builtins_.Builtins(self)
        self._tycache = {}

    # ---- types ---------------------------------------------------------------------------------
    def rty(self, i, substs):
        """substitute generic params in type i; returns a type tuple"""
        if i is None:
            return None
        t = self.p.types[i]
        if not substs:
            return t
        k = (i, tuple(sorted(substs.items())))
        r = self._tycache.get(k)
        if r is None:
            r = self._rty(t, substs)
            self._tycache[k] = r
        return r

    def _rty(self, t, substs):
        k = t[0]
        if k == "param":
            s = substs.get(t[1])
            return self.p.types[s] if s is not None else t

        def sub(i):
            if isinstance(i, str) or i is None:
                return i
            n = self._rty(self.p.types[i], substs)
            return self.p._intern(n)
        if k == "adt":
            return ("adt", t[1], tuple(sub(x) for x in t[2]))
        if k in ("ref", "ptr"):
            return (k, t[1], sub(t[2]))
        if k == "slice":
            return (k, sub(t[1]))
        if k == "array":
            return (k, sub(t[1]), t[2])
        if k == "tuple":
            return (k, tuple(sub(x) for x in t[1]))
        if k in ("closure", "fndef"):
            return (k, t[1], tuple(sub(x) for x in t[2]))
        return t

    def rtyi(self, i, substs):
        t = self.rty(i, substs)
        return None if t is None else self.p._intern(t)

    def signed(self, st, i):
        t = self.rty(i, st.substs)
        return t[0] == "int" and t[1].startswith("i")

    # ---- places --------------------------------------------------------------------------------
    def resolve(self, st, place):
        """-> ('cell', key, path) or ('val', value, path)"""
        cell, path, val = key(st.depth, place[0]), (), None
        for e in place[1]:
            k = e[0]
            if k == "*":
                v = self.get(st, cell, path) if cell is not None else self.getv(st, val, path)
                v, cell, path, val = self.deref1(st, v)
            elif k == "f":
                if cell is not None and not path and cell in st.mem:
                    v = st.mem[cell]
                    if type(v) is tuple and v[0] == "R":   # Box<..>.0 of a heap box
                        continue
                path = path + (e[1],)
            elif k == "v":
                pass
            elif k == "i":
                iv = st.mem.get(key(st.depth, e[1]))
                if type(iv) is not int:
                    raise Unsupported("symbolic index")
                path = path + (("x", iv),)
            elif k == "ci":
                path = path + ((("xe", e[1]) if e[2] else ("x", e[1])),)
            else:
                raise Unsupported("projection %r" % (e,))
        return cell, path, val

    def deref1(self, st, v):
        if type(v) is not tuple:
            raise Unsupported("deref of %r" % (v,))
        t = v[0]
        if t == "R":
            return v, v[1], v[2], None
        if t == "RV":
            return v, None, (), v[1]
        if t == "A" and v[1] == BOX:
            return v, None, (), v[3][0]
        if t == "?":
            return v, None, (), v
        raise Unsupported("deref of %r" % (v[0],))

    def get(self, st, cell, path):
        v = st.mem.get(cell)
        if v is None:
            raise Unsupported("read of an unset place")
        return self.getv(st, v, path) if path else v

    def getv(self, st, v, path):
        for e in path:
            if type(v) is not tuple:
                raise Unsupported("projection on %r" % (v,))
            t = v[0]
            if t == "W":
                self.materialise(st, v)
            if t == "?":
                return v
            if type(e) is int:
                if t == "V":
                    raise Unsupported("field of a collection")
                f = v[-1]
                if e >= len(f):
                    raise Unsupported("field index")
                v = f[e]
            else:
                v = self.elem(st, v, e)
        return v

    def elem_index(self, st, v, e):
        """index into the segments of collection v designated by path element e"""
        if v[0] != "V":
            raise Unsupported("element of %r" % (v[0],))
        segs = v[1]
        if e[0] in ("mk", "mn"):
            for i, s in enumerate(segs):
                if s == ("m", e[1]):
                    return i - 1 if e[0] == "mk" else i + 1
            raise Unsupported("lost marker")
        if e[0] == "last":
            i = len(segs) - 1
            while i >= 0 and segs[i][0] == "m":
                i -= 1
            if i < 0 or segs[i][0] != "e":
                raise Unsupported("last element of a summarised collection")
            return i
        n = e[1]
        if e[0] == "xe":
            for i in range(len(segs) - 1, -1, -1):
                s = segs[i]
                if s[0] == "m":
                    continue
                if s[0] != "e":
                    raise Unsupported("indexing a summarised collection")
                n -= 1
                if n == 0:
                    return i
            raise Unsupported("index out of range")
        for i, s in enumerate(segs):
            if s[0] == "m":
                continue
            if s[0] != "e":
                raise Unsupported("indexing a summarised collection")
            if n == 0:
                return i
            n -= 1
        raise Unsupported("index out of range")

    def elem(self, st, v, e):
        return v[1][self.elem_index(st, v, e)][1]

    def setv(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if type(v) is not tuple:
            raise Unsupported("write into %r" % (v,))
        if v[0] == "W":
            self.materialise(st, v)
        if v[0] == "?":
            return v
        if type(e) is int:
            f = v[-1]
            if v[0] == "V" or e >= len(f):
                raise Unsupported("write into field")
            return v[:-1] + (f[:e] + (self.setv(st, f[e], path[1:], new),) + f[e + 1:],)
        i = self.elem_index(st, v, e)
        segs = v[1]
        return ("V", segs[:i] + (("e", self.setv(st, segs[i][1], path[1:], new)),) + segs[i + 1:])

    def write(self, st, cell, path, new):
        if cell is None:
            raise Unsupported("write through a value reference")
        if path:
            v = st.mem.get(cell)
            if v is None:
                raise Unsupported("partial write to an unset place")
            st.mem[cell] = self.setv(st, v, path, new)
        else:
            st.mem[cell] = new

    def read_place(self, st, place):
        if not place[1]:
            v = st.mem.get(key(st.depth, place[0]))
            if v is None:
                raise Unsupported("read of unset local _%d in %s" % (place[0], st.fn.name))
            return v
        cell, path, val = self.resolve(st, place)
        return self.get(st, cell, path) if cell is not None else self.getv(st, val, path)

    # references as values
    def rd(self, st, r):
        """value behind a reference (dereferences once)"""
        if type(r) is tuple:
            if r[0] == "R":
                return self.get(st, r[1], r[2])
            if r[0] == "RV":
                return r[1]
            if r[0] == "A" and r[1] == BOX:
                return r[3][0]
            if r[0] == "?":
                return r
        raise Unsupported("not a reference: %r" % (r if type(r) is not tuple else r[0],))

    def wr(self, st, r, v):
        if type(r) is tuple and r[0] == "R":
            return self.write(st, r[1], r[2], v)
        if type(r) is tuple and r[0] == "?":
            return
        raise Unsupported("write through %r" % (r[0],))

    def full(self, st, v):
        """dereference until a non-reference"""
        while type(v) is tuple and (v[0] in ("R", "RV") or (v[0] == "A" and v[1] == BOX)):
            v = self.rd(st, v)
        return v

    def lastref(self, st, r):
        """follow references to references: the last reference and the value behind it"""
        v = self.rd(st, r)
        while type(v) is tuple and v[0] in ("R", "RV"):
            r = v
            v = self.rd(st, r)
        return r, v

    # ---- constants and operands ------------------------------------------------------------------
    def const(self, st, c):
        if "int" in c:
            return c["int"]
        if "char" in c:
            return chr(c["char"])
        if "bool" in c:
            return c["bool"]
        if "str" in c:
            return ("RV", ("S", (c["str"],) if c["str"] else ()))
        if "fn" in c:
            return ("F", FnC.make(c))
        if "promoted" in c:
            return self.promoted(st, c)
        if c.get("zst"):
            t = self.rty(c["t"], st.substs)
            if t[0] == "closure":
                return ("K", t[1], self.closure_substs(t), ())
            if t[0] == "adt":
                return ("A", t[1], 0, ())
            return UNIT
        if "bytes" in c:
            return ("RV", ("by", tuple(c["bytes"])))
        if "named" in c:
            f = self.p.fns.get("const " + c["named"])
            if f is not None:
                return self.eval_const_fn(st, f)
        if "scalar" in c:
            return unk("scalar constant")
        return unk("constant")

    def promoted(self, st, c):
        f = self.p.fns.get(c["of"])
        if f is None or c["promoted"] >= len(f.promoted):
            return unk("promoted")
        return self.eval_const_fn(st, f.promoted[c["promoted"]])

    def eval_const_fn(self, st, f):
        """evaluate the (straight-line) body of a constant; references to its locals become value references"""
        s = State.new()
        s.fn = f
        s.substs = st.substs
        s.depth = 0
        for _ in range(2000):
            stm, term, _, _ = f.blocks[s.bb]
            try:
                if s.si < len(stm):
                    self.stmt(s, stm[s.si])
                    s.si += 1
                    continue
                if term[0] == "return":
                    return self.close_refs(s, s.mem.get(0, unk("const")))
                if term[0] == "goto":
                    s.bb, s.si = term[1], 0
                    continue
                self.term(s, term)
                if s.depth != 0:
                    return unk("const call")
            except (Unsupported, Fork, Panic):
                return unk("const")
        return unk("const")

    def close_refs(self, s, v):
        if type(v) is tuple and v:
            if v[0] == "R":
                return ("RV", self.close_refs(s, self.get(s, v[1], v[2])))
            return tuple(self.close_refs(s, x) if type(x) is tuple else x for x in v)
        return v

    def operand(self, st, o):
        if o[0] == "k":
            return self.const(st, o[1])
        place = o[1]
        if o[0] == "m" and place[1]:
            cell, path, val = self.resolve(st, place)
            if cell is None:
                return self.getv(st, val, path)
            v = self.get(st, cell, path)
            if path and type(v) is tuple and v[0] in MOVED and type(path[-1]) is int:
                # nothing reads a place that was moved out of
                try:
                    self.write(st, cell, path, ("?", "moved"))
                except Unsupported:
                    pass
            return v
        return self.read_place(st, place)

    def closure_substs(self, t):
        # t = ('closure', name, parent args)
        f = self.p.fns.get(t[1])
        if f is None:
            return ()
        return tuple(zip(f.generics, t[2]))

    # ---- statements ------------------------------------------------------------------------------
    def stmt(self, st, s):
        if s[0] == "=":
            v = self.rvalue(st, s[2], s[1])
            place = s[1]
            if not place[1]:
                st.mem[key(st.depth, place[0])] = v
            else:
                cell, path, val = self.resolve(st, place)
                if cell is None:
                    if type(val) is tuple and val[0] == "?":
                        return
                    # write through Box<T> held by value
                    self.write_box(st, place, v)
                    return
                self.write(st, cell, path, v)
        elif s[0] == "setdiscr":
            raise Unsupported("set discriminant")

    def write_box(self, st, place, v):
        # place = base . projections containing a deref of a Box value: rewrite as field 0 of the box
        pr = []
        cell, path, val = key(st.depth, place[0]), (), None
        for e in place[1]:
            if e[0] == "*":
                x = self.get(st, cell, path)
                if type(x) is tuple and x[0] == "A" and x[1] == BOX:
                    path = path + (0,)
                    continue
                x, cell, path, val = self.deref1(st, x)
                if cell is None:
                    raise Unsupported("write through value reference")
            elif e[0] == "f":
                path = path + (e[1],)
            elif e[0] == "v":
                pass
            else:
                raise Unsupported("write projection")
        self.write(st, cell, path, v)

    def rvalue(self, st, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref" or k == "rawptr":
            place = r[2] if k == "ref" else r[1]
            cell, path, val = self.resolve(st, place)
            if cell is not None:
                # reference to a dereferenced unsized value or to a place
                return ("R", cell, path)
            return ("RV", self.getv(st, val, path))
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r)
        if k == "discr":
            return self.discriminant(st, self.read_place(st, r[1]))
        if k == "agg":
            return self.aggregate(st, r)
        if k == "cast":
            return self.cast(st, r)
        if k == "un":
            return self.unop(st, r[1], self.operand(st, r[2]))
        if k == "repeat":
            v = self.operand(st, r[1])
            try:
                n = int(r[2])
            except ValueError:
                return unk("repeat")
            return ("V", (("e", v),) * n) if n < 16 else unk("repeat")
        return unk("rvalue " + str(k))

    def aggregate(self, st, r):
        a = r[1]
        ops = tuple(self.operand(st, o) for o in r[2])
        k = a["k"]
        if k == "tuple":
            return ("T", ops)
        if k == "adt":
            v = ("A", a["p"], a["v"], ops)
            if self.spec is not None and a["p"] == self.spec.error:
                v = self.spec.note_error(self, st, v)
            return v
        if k == "array":
            return ("V", tuple(("e", x) for x in ops))
        if k == "closure":
            t = self.rty(a["t"], st.substs)
            return ("K", a["p"], self.closure_substs(t), ops)
        return unk("aggregate")

    def discriminant(self, st, v):
        if type(v) is not tuple:
            raise Unsupported("discriminant of %r" % (v,))
        if v[0] == "W":
            self.materialise(st, v)
        if v[0] == "A":
            n, i = v[1], v[2]
            a = self.p.adts.get(n)
            if a is not None and i < len(a["variants"]):
                return a["variants"][i][1]
            return i
        if v[0] == "?":
            raise Unsupported("discriminant of unknown value (%s)" % (v[1],))
        raise Unsupported("discriminant of %s" % v[0])

    def materialise(self, st, w):
        self.spec.materialise(self, st, w)

    def cast(self, st, r):
        v = self.operand(st, r[2])
        kind = r[1]
        if kind == "IntToInt":
            if type(v) is bool:
                return int(v)
            if type(v) in (int, Lin):
                t = self.rty(r[3], st.substs)
                if type(v) is int and t[0] == "int":
                    return wrap(v, t[1])
                if t[0] == "int" and t[1] in ("u8", "i8", "u16", "i16", "i32"):
                    raise Unsupported("narrowing cast")
                return v
            if type(v) is str:
                return ord(v)
            if type(v) is tuple and v[0] in ("SL", "VL"):
                return v
            if type(v) is tuple and v[0] in ("SO", "VO"):
                return v
            if type(v) is tuple and v[0] == "C":
                t = self.rty(r[3], st.substs)
                if t[0] == "int" and t[1] == "u8" and not st.char_in(v, AB.ascii):
                    return unk("char as int")
                return v
            return v if type(v) is tuple and v[0] == "?" else unk("cast")
        if kind.startswith("PointerCoercion"):
            if type(v) is tuple and v[0] == "F" or type(v) is tuple and v[0] == "K":
                return v
            return v
        if kind in ("PtrToPtr", "BoxDerefTransmute", "Transmute"):
            return v
        return unk("cast " + kind)

    def unop(self, st, op, v):
        if op == "Not":
            if type(v) is bool:
                return not v
            return unk("not")
        if op == "Neg":
            if type(v) in (int, Lin):
                return scale(v, -1)
            return unk("neg")
        if op == "PtrMetadata":
            return ("VL", self.full(st, v))
        return unk("unop")

    def binop(self, st, op, a, b, r):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and type(a) is bool and type(b) is bool:
            return (a and b) if op == "BitAnd" else (a or b) if op == "BitOr" else a != b
        num = (int, Lin)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if type(a) is tuple and a[0] in LENS and type(b) is int and base in ("Add", "Sub") and type(self.num(st, a)) is tuple:
            if base == "Sub" and op.endswith("WithOverflow") and b:
                if a[0] in ("SL", "VL") and self.bi.cmp_len(st, "Lt", a, b):
                    return ("T", (unk("wrapped"), True))
            v = self.bi.plus(a, b if base == "Add" else -b)
            return ("T", (v, False)) if op.endswith("WithOverflow") else v
        if type(b) is tuple and b[0] in LENS and type(a) is int and base == "Add" and type(self.num(st, b)) is tuple:
            v = self.bi.plus(b, a)
            return ("T", (v, False)) if op.endswith("WithOverflow") else v
        a, b = self.num(st, a), self.num(st, b)
        if type(a) in num and type(b) in num and type(a) is not bool and type(b) is not bool:
            ov = op.endswith("WithOverflow")
            if base == "Add":
                v = add(a, b)
                return ("T", (v, False)) if ov else v
            if base == "Sub":
                v = sub(a, b)
                if ov:
                    if self.signed_op(st, r):
                        return ("T", (v, False))
                    if st.decide_ge(v):
                        return ("T", (v, False))
                    return ("T", (unk("wrapped"), True))
                if not self.signed_op(st, r) and not st.decide_ge(v):
                    return unk("wrapped")
                return v
            if base == "Mul":
                if type(a) is Lin and type(b) is Lin:
                    v = unk("product")
                elif type(b) is Lin:
                    v = scale(b, a)
                else:
                    v = scale(a, b)
                return ("T", (v, False)) if ov else v
            if type(a) is int and type(b) is int:
                if base == "Div" and b:
                    return a // b
                if base == "Rem" and b:
                    return a % b
                if base == "BitAnd":
                    return a & b
                if base == "BitOr":
                    return a | b
                if base == "BitXor":
                    return a ^ b
                if base == "Shl":
                    return a << b
                if base == "Shr":
                    return a >> b
            if op.endswith("WithOverflow"):
                return ("T", (unk(op), False))
            return unk(op)
        if op.endswith("WithOverflow"):
            return ("T", (unk("arith"), False))
        return unk("arith " + op)

    def signed_op(self, st, r):
        for o in (r[2], r[3]):
            if o[0] == "k":
                t = self.rty(o[1]["t"], st.substs)
            elif not o[1][1]:
                t = self.rty(st.fn.locals[o[1][0]], st.substs)
            else:
                continue
            if t[0] == "int":
                return t[1].startswith("i")
        return False

    def num(self, st, v):
        if type(v) is tuple and v[0] in ("SL", "VL"):
            n = self.bi.length(st, v)
            return n if n is not None else unk("length")
        return v

    def compare(self, st, op, a, b):
        ta, tb = type(a), type(b)
        if ta is tuple and a[0] in ("SL", "VL") or tb is tuple and b[0] in ("SL", "VL"):
            return self.bi.cmp_len(st, op, a, b)
        if ta is bool or tb is bool:
            if ta is bool and tb is bool:
                return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
            raise Unsupported("comparison with unknown bool")
        if ta in (int, Lin) and tb in (int, Lin):
            d = sub(a, b)
            if op == "Eq":
                return st.decide_eq(d)
            if op == "Ne":
                return not st.decide_eq(d)
            if op == "Ge":
                return st.decide_ge(d)
            if op == "Lt":
                return not st.decide_ge(d)
            if op == "Gt":
                return st.decide_ge(sub(d, 1))
            return not st.decide_ge(sub(d, 1))
        # bytes and code points are compared as characters
        if ta is tuple and a[0] == "C" and tb is int:
            b, tb = chr(b), str
        if tb is tuple and b[0] == "C" and ta is int:
            a, ta = chr(a), str
        ca = ta is str or (ta is tuple and a[0] == "C")
        cb = tb is str or (tb is tuple and b[0] == "C")
        if ca and cb:
            return self.cmp_char(st, op, a, b)
        if ta is tuple and a[0] == "?" or tb is tuple and b[0] == "?":
            raise Unsupported("comparison with unknown value")
        raise Unsupported("comparison %r %r" % (a, b))

    def cmp_char(self, st, op, a, b):
        if a == b:
            return op in ("Eq", "Le", "Ge")
        if type(a) is str and type(b) is str:
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if type(a) is str:
            return self.cmp_char(st, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op), b, a)
        if type(b) is str:
            if op in ("Eq", "Ne"):
                r = st.char_in(a, AB.bit[b]) if b in AB.bit else False
                return r if op == "Eq" else not r
            f = {"Lt": lambda c: c < b, "Le": lambda c: c <= b, "Gt": lambda c: c > b, "Ge": lambda c: c >= b}[op]
            return st.char_in(a, AB.mask(f))
        # two symbolic characters
        ma, mb = st.char_mask(a), st.char_mask(b)
        if op in ("Eq", "Ne"):
            if ma & mb == 0:
                return op == "Ne"
            sa = AB.single(ma)
            if sa is not None:
                return self.cmp_char(st, op, b, sa)
            sb = AB.single(mb)
            if sb is not None:
                return self.cmp_char(st, op, a, sb)
            # split the first one per character of the common part
            com = ma & mb
            bits = [x for x in AB.bit.values() if com & x]
            i = st.tape.pos[a[1]]
            it = st.tape.items[i]
            alts = [(lambda m: (lambda s: s.set_item(i, ("T", m, it[2]))))(m) for m in bits]
            if ma & ~com:
                alts.append(lambda s: s.set_item(i, ("T", ma & ~com, it[2])))
            st.fork(alts)
        raise Unsupported("ordering of characters")

    # ---- terminators -----------------------------------------------------------------------------
    def goto(self, st, b):
        st.bb = b
        st.si = 0

    def term(self, st, t):
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
        elif k == "switch":
            v = self.operand(st, t[1])
            if type(v) is bool:
                v = int(v)
            if type(v) is int:
                for x, b in t[2]:
                    if x == v or (v < 0 and x == v % (1 << 64)) or (v < 0 and x in (v % 256, v % 65536, v % (1 << 32))):
                        return self.goto(st, b)
                return self.goto(st, t[3])
            if type(v) is str or (type(v) is tuple and v[0] == "C"):
                for x, b in t[2]:
                    c = chr(x)
                    if c not in AB.bit:
                        continue
                    if self.cmp_char(st, "Eq", v, c):
                        return self.goto(st, b)
                return self.goto(st, t[3])
            if type(v) is Lin:
                for x, b in t[2]:
                    if st.decide_eq(sub(v, x)):
                        return self.goto(st, b)
                return self.goto(st, t[3])
            if type(v) is tuple and v[0] in ("SL", "VL"):
                for x, b in t[2]:
                    if self.bi.cmp_len(st, "Eq", v, x):
                        return self.goto(st, b)
                return self.goto(st, t[3])
            raise Unsupported("switch on %r" % (v,))
        elif k == "drop":
            self.goto(st, t[2])
        elif k == "assert":
            v = self.operand(st, t[1])
            if type(v) is not bool:
                raise Unsupported("assert on unknown (%s)" % t[3])
            if v == t[2]:
                self.goto(st, t[4])
            else:
                raise Panic(t[3])
        elif k == "return":
            self.ret(st, st.mem.get(key(st.depth, 0), UNIT))
        elif k == "call":
            self.call(st, t)
        elif k == "unreachable":
            raise Infeasible()
        else:
            raise Unsupported("terminator " + k)

    def ret(self, st, v):
        d = st.depth
        base = d << 12
        top = (d + 1) << 12
        for c in [c for c in st.mem if base <= c < top]:
            del st.mem[c]
        if not st.frames:
            raise Done(v)
        dest, onret = st.dest, st.onret
        st.fn, st.bb, st.depth, st.dest, st.substs, st.onret = st.frames[-1]
        st.si = 0
        st.frames = st.frames[:-1]
        if onret is not None:
            v = onret(v) if callable(onret) else v
        if dest is not None:
            self.write(st, dest[0], dest[1], v)
        if st.bb is None:
            raise Infeasible()

    def push_frame(self, st, fn, args, dest, rbb, substs):
        if st.depth >= MAXDEPTH:
            raise Unsupported("call depth")
        for fr in st.frames:
            if fr[0] is fn and not fn.model:
                n = sum(1 for x in st.frames if x[0] is fn)
                if n >= 3:
                    raise Unsupported("recursion of " + fn.name)
        self.called.add(fn.name)
        # st.fn.. is the caller: remember where it continues
        st.frames = st.frames + ((st.fn, rbb, st.depth, st.dest, st.substs, st.onret),)
        st.fn = fn
        st.bb = 0
        st.si = 0
        st.depth = st.depth + 1
        st.dest = dest
        st.onret = None
        st.substs = substs
        for i, a in enumerate(args):
            st.mem[key(st.depth, i + 1)] = a

    def dest_of(self, st, place):
        if not place[1]:
            return (key(st.depth, place[0]), ())
        cell, path, val = self.resolve(st, place)
        return (cell, path)

    def call(self, st, t):
        fo = t[1]
        if fo[0] == "k" and "fn" in fo[1]:
            c = fo[1]
        else:
            f = self.full(st, self.operand(st, fo))
            if type(f) is tuple and f[0] == "F":
                c = f[1].c
            else:
                raise Unsupported("call of %r" % (f,))
        args = [self.operand(st, o) for o in t[2]]
        self.invoke(st, c, args, t)

    def csubsts(self, st, c, which="rargs"):
        a = c.get(which) or ()
        return tuple(self.rtyi(x, st.substs) if isinstance(x, int) else x for x in a)

    def finish(self, st, t, v):
        """store a call's result and continue after it"""
        dest = t[3]
        if not dest[1]:
            st.mem[key(st.depth, dest[0])] = v
        else:
            d = self.dest_of(st, dest)
            self.write(st, d[0], d[1], v)
        if t[4] is None:
            raise Infeasible()
        st.bb = t[4]
        st.si = 0

    def invoke(self, st, c, args, t):
        k = c["key"]
        r = self.bi.special(st, c, k, args, t)
        if r is HANDLED:
            return
        if r is not NotImplemented:
            return self.finish(st, t, r)
        # function of the analysed crate, statically resolved
        fn = None
        if c.get("rlocal") and c.get("rkind") == "Item":
            fn = self.p.fns.get(c["rfn"])
        if fn is None and c.get("local"):
            fn = self.p.fns.get(c["fn"]) if not c.get("trait") else None
        if fn is None and c.get("trait"):
            fn = self.dispatch(st, c, args)
        if fn is not None:
            if self.spec is not None:
                r = self.spec.contract(self, st, fn, args, t)
                if r is not NotImplemented:
                    return self.finish(st, t, r)
            return self.enter(st, fn, args, t, self.fn_substs(st, fn, c))
        r = self.bi.call(st, c, k, args, t)
        if r is HANDLED:
            return
        self.finish(st, t, r)

    def fn_substs(self, st, fn, c):
        if not fn.generics:
            return {}
        a = None
        if c.get("rfn") == fn.name:
            a = self.csubsts(st, c)
        elif c.get("fn") == fn.name:
            a = self.csubsts(st, c, "args")
        if a is not None and len(a) == len(fn.generics):
            return dict(zip(fn.generics, a))
        return {}

    def enter(self, st, fn, args, t, substs):
        dest = self.dest_of(st, t[3])
        self.push_frame(st, fn, args, dest, t[4], substs)

    def call_model(self, st, name, args, t, substs=None):
        self.enter(st, self.p.fns[M + name], args, t, substs or {})
        return HANDLED

    def dispatch(self, st, c, args):
        """dynamic dispatch of a trait method on the type of the receiver"""
        if not args:
            return None
        v = self.full(st, args[0])
        if type(v) is tuple and v[0] in ("A", "W"):
            tr = c["trait"].split("::")[-1].split("<")[0]
            l = self.p.by_self.get((tr, c["method"], v[1]))
            if l and len(l) == 1:
                return l[0]
        return None

    def call_value(self, st, f, args, t):
        """call a closure / function item value with a list of arguments"""
        f = self.full(st, f) if not (type(f) is tuple and f[0] == "K") else f
        if f[0] == "K":
            fn = self.p.fns[f[1]]
            return self.enter(st, fn, [f] + args, t, dict(f[2]))
        raise Unsupported("call of unknown function value")

    # ---- running -----------------------------------------------------------------------------------
    def step_to_head(self, st):
        """run until a loop head, a fork or the end. Returns ('head', st) | ('fork', [states]) |
        ('done', st, value) | ('panic', st, kind) | ('taint', st, why)"""
        n = 0
        while True:
            n += 1
            if n > 60000:
                return ("taint", st, "path too long")
            fn = st.fn
            blk = fn.blocks[st.bb]
            si = st.si
            try:
                if si < len(blk[0]):
                    self.stmt(st, blk[0][si])
                    st.si = si + 1
                    self.stmts += 1
                    continue
                self.stmts += 1
                self.term(st, blk[1])
            except Fork as f:
                return ("fork", f.states)
            except Infeasible:
                return ("fork", [])
            except Done as d:
                return ("done", st, d.v)
            except Panic as p:
                return ("panic", st, p.kind, blk[0][si][3] if si < len(blk[0]) else blk[2])
            except Unsupported as u:
                where = blk[0][si][3] if si < len(blk[0]) else blk[2]
                kk = "%s at %s" % (u, where)
                self.unsupported[kk] = self.unsupported.get(kk, 0) + 1
                return ("taint", st, kk)
            except (KeyError, ValueError, IndexError, TypeError, AttributeError, AssertionError) as e:
                # a value of an unexpected form: no answer on this path
                where = blk[0][si][3] if si < len(blk[0]) else blk[2]
                return ("taint", st, "%s: %s at %s" % (type(e).__name__, str(e)[:80], where))
            if st.si == 0 and st.bb in st.fn.heads and (st.fn is not fn or st.bb != -1):
                return ("head", st)


class Done(Exception):
    def __init__(self, v):
        self.v = v


class _H:
    pass


HANDLED = _H()


class FnC:
    """hashable wrapper of a function constant"""
    cache = {}

    @classmethod
    def make(cls, c):
        k = (c["fn"], c.get("args"), c.get("rfn"))
        r = cls.cache.get(k)
        if r is None:
            r = cls()
            r.c = c
            cls.cache[k] = r
        return r


def wrap(v, t):
    bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32}.get(t, 64)
    if t[0] == "u":
        return v % (1 << bits)
    v %= 1 << bits
    return v - (1 << bits) if v >= 1 << (bits - 1) else v
