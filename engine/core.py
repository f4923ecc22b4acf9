"""Abstract state: symbolic text tape, string/collection values, refinement by forking."""
from lin import *

# ------------------------------------------------------------------------------------------------
# characters: the alphabet is partitioned by one representative per class the program can tell apart


class Alphabet:
    SAMPLES = "".join(map(chr, range(128))) + "éÉß²Ⅷ中🙂\u00a0\u2003\u2028\u0085\u0301\u200b"

    def __init__(self, extra=()):
        self.init(extra)

    def init(self, extra=()):
        reps = []
        for c in list(self.SAMPLES) + sorted(extra):
            if c not in reps:
                reps.append(c)
        self.reps = reps
        self.bit = {c: 1 << i for i, c in enumerate(reps)}
        self.all = (1 << len(reps)) - 1
        self.other = 0
        self.nl = self.bit["\n"]
        self.ascii = self.mask(lambda c: ord(c) < 128)
        self.ws = self.mask(is_ws)
        self.pred_cache = {}

    def mask(self, f):
        m = 0
        for c, b in self.bit.items():
            if f(c):
                m |= b
        return m

    def of(self, s):
        m = 0
        for c in s:
            m |= self.bit[c]
        return m

    def single(self, m):
        """the only character of a mask, or None"""
        if m and m & (m - 1) == 0:
            return self.reps[m.bit_length() - 1]
        return None

    def chars(self, m):
        return "".join(c for c, b in self.bit.items() if m & b)

    def show(self, m):
        if m == self.all:
            return "any"
        n = bin(m).count("1")
        if n <= 6:
            return "".join(self.chars(m)).replace("\n", "\\n") or "none"
        inv = self.all & ~m
        if bin(inv).count("1") <= 8:
            return "any-but " + self.chars(inv).replace("\n", "\\n")
        return "set%d" % n


_WS = set("\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000") | {chr(x) for x in range(0x2000, 0x200b)}


def is_ws(c):
    return c in _WS


PREDS = {
    "is_whitespace": is_ws,
    "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(),
    "is_alphabetic": lambda c: c.isalpha() or c in "Ⅷ",
    "is_alphanumeric": lambda c: c.isalnum() or c in "Ⅷ",
    "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
    "is_numeric": lambda c: c.isnumeric(),
    "is_ascii_digit": lambda c: c in "0123456789",
    "is_ascii": lambda c: ord(c) < 128,
    "is_ascii_whitespace": lambda c: c in "\t\n\x0c\r ",
    "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
    "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(),
    "is_ascii_lowercase": lambda c: c.isascii() and c.islower(),
    "is_uppercase": lambda c: c.isupper(),
    "is_lowercase": lambda c: c.islower(),
    "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
    "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127,
    "is_ascii_graphic": lambda c: 33 <= ord(c) <= 126,
    "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
}


AB = Alphabet()


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


UNIT = ("T", ())
OPT = "std::option::Option"
RES = "std::result::Result"
NONE = ("A", OPT, 0, ())


def some(v):
    return ("A", OPT, 1, (v,))


def ok(v):
    return ("A", RES, 0, (v,))


def err(v):
    return ("A", RES, 1, (v,))


EMPTY = ("S", ())


def unk(why):
    return ("?", why)


class Tape:
    __slots__ = ("bids", "items", "pos", "_h")

    def __init__(self, bids, items):
        self.bids = tuple(bids)
        self.items = tuple(items)
        self.pos = {b: i for i, b in enumerate(self.bids)}

    def replace(self, i, j, items, inner):
        """items[i:j] -> items, with `inner` the new boundaries between them"""
        return Tape(self.bids[:i + 1] + tuple(inner) + self.bids[j:], self.items[:i] + tuple(items) + self.items[j:])


def vmap(v, f):
    """rebuild a value with f applied to Lin and Bd leaves"""
    t = type(v)
    if t is tuple:
        ch = False
        out = []
        for x in v:
            tx = type(x)
            if tx is tuple or tx is Lin or tx is Bd:
                y = vmap(x, f)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    if t is Lin or t is Bd:
        return f(v)
    return v


def vsubst(v, old, new):
    if v == old:
        return new
    if type(v) is tuple:
        ch = False
        out = []
        for x in v:
            if type(x) is tuple:
                y = vsubst(x, old, new)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    return v


def walk(v, f):
    """call f on every tuple node / leaf"""
    f(v)
    if type(v) is tuple:
        for x in v:
            if type(x) in (tuple, Lin, Bd):
                walk(x, f)


def has_unknown(v):
    if type(v) is tuple:
        if v and v[0] == "?":
            return True
        for x in v:
            if type(x) is tuple and has_unknown(x):
                return True
    return False


class State:
    __slots__ = ("mem", "frames", "fn", "bb", "si", "depth", "dest", "rbb", "substs", "tape", "lbs", "cons",
                 "nparam", "nbd", "taint", "mon", "trace", "steps", "ghost", "nheads", "origin", "rname", "onret")

    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem.copy()
        s.frames = self.frames
        s.fn = self.fn
        s.bb = self.bb
        s.si = self.si
        s.depth = self.depth
        s.dest = self.dest
        s.rbb = self.rbb
        s.substs = self.substs
        s.tape = self.tape
        s.lbs = self.lbs.copy()
        s.cons = self.cons
        s.nparam = self.nparam
        s.nbd = self.nbd
        s.taint = self.taint
        s.mon = self.mon
        s.trace = self.trace
        s.steps = self.steps
        s.ghost = self.ghost.copy()
        s.nheads = self.nheads
        s.origin = self.origin
        s.onret = self.onret
        return s

    @staticmethod
    def new():
        s = State.__new__(State)
        s.mem = {}
        s.frames = ()
        s.fn = None
        s.bb = 0
        s.si = 0
        s.depth = 0
        s.dest = None
        s.rbb = None
        s.substs = {}
        s.tape = Tape((), ())
        s.lbs = {}
        s.cons = ()
        s.nparam = 0
        s.nbd = 0
        s.taint = None
        s.mon = None
        s.trace = None
        s.steps = 0
        s.ghost = {}
        s.nheads = 0
        s.origin = {}
        s.onret = None
        return s

    # ---- params and constraints ----------------------------------------------------------------
    def newp(self, lb=0):
        p = self.nparam
        self.nparam += 1
        if lb is not None:
            self.lbs[p] = lb
        return Lin(0, ((p, 1),))

    def newb(self):
        b = Bd(self.nbd)
        self.nbd += 1
        return b

    def lb(self, a):
        """a provable lower bound, or None"""
        if type(a) is not Lin:
            return a
        r = a.c
        for p, k in a.t:
            l = self.lbs.get(p)
            if k < 0 or l is None:
                return None
            r += k * l
        return r

    def ge0(self, a):
        """provably a >= 0"""
        l = self.lb(a)
        if l is not None and (l >= 0 or type(a) is not Lin):
            return l >= 0
        for g in self.cons:
            r = sub(a, g)
            l = self.lb(r)
            if l is not None and l >= 0:
                return True
        if len(self.cons) > 1:
            for i, g in enumerate(self.cons):
                for h in self.cons[i:]:
                    l = self.lb(sub(sub(a, g), h))
                    if l is not None and l >= 0:
                        return True
        return False

    def assume_ge0(self, a):
        if type(a) is not Lin:
            if a < 0:
                raise Infeasible()
            return
        if self.ge0(a):
            return
        if self.ge0(sub(-1, a)):
            raise Infeasible()
        if len(a.t) == 1 and a.t[0][1] == 1:
            p = a.t[0][0]
            l = self.lbs.get(p)
            self.lbs[p] = -a.c if l is None else max(l, -a.c)
            return
        self.cons = self.cons + (a,)

    def assume_eq0(self, a):
        if type(a) is not Lin:
            if a != 0:
                raise Infeasible()
            return
        if self.ge0(sub(a, 1)) or self.ge0(sub(-1, a)):
            raise Infeasible()
        # solve for the newest param with coefficient +-1
        for p, k in reversed(a.t):
            if k in (1, -1):
                e = scale(sub(a, Lin(0, ((p, k),))), -k)
                l = self.lbs.get(p)
                if l is not None and not self.ge0(sub(e, l)):
                    lowered = sub(e, l)
                    self.substp({p: e})
                    self.assume_ge0(lowered)
                else:
                    self.substp({p: e})
                # all-zero consequences: a sum of nonnegative terms that is zero
                return
        self.cons = self.cons + (a, scale(a, -1))

    def substp(self, m):
        def f(x):
            return subst(x, m) if type(x) is Lin else x
        mem = self.mem
        for k, v in mem.items():
            if type(v) is tuple:
                mem[k] = vmap(v, f)
            elif type(v) is Lin:
                mem[k] = subst(v, m)
        self.tape = Tape(self.tape.bids, [vmap(i, f) if i[0] == "B" else i for i in self.tape.items])
        cs = []
        for g in self.cons:
            g2 = subst(g, m)
            if type(g2) is not Lin:
                if g2 < 0:
                    raise Infeasible()
                continue
            if g2 not in cs:
                cs.append(g2)
        self.cons = tuple(cs)
        self.ghost = {k: vmap(v, f) for k, v in self.ghost.items()}
        if self.mon is not None:
            self.mon = vmap(self.mon, f)
        for p in m:
            self.lbs.pop(p, None)
        self.renorm()

    def renorm(self):
        """sums of nonnegative params that are forced to zero are handled by the callers"""

    def mapall(self, f):
        mem = self.mem
        for k, v in mem.items():
            if type(v) is tuple:
                mem[k] = vmap(v, f)
            elif type(v) is Lin:
                mem[k] = f(v)
        self.ghost = {k: vmap(v, f) for k, v in self.ghost.items()}
        if self.mon is not None:
            self.mon = vmap(self.mon, f)

    def rename_bd(self, old, new):
        def f(x):
            return new if type(x) is Bd and x == old else x
        self.mapall(f)

    def replace_value(self, old, new):
        for k, v in self.mem.items():
            if type(v) is tuple:
                self.mem[k] = vsubst(v, old, new)
        self.ghost = {k: vsubst(v, old, new) for k, v in self.ghost.items()}

    # ---- tape ---------------------------------------------------------------------------------
    def item_n(self, it):
        k = it[0]
        if k == "T":
            return 1 if it[1] == AB.nl else 0
        if k == "L":
            return it[1].count("\n")
        if k == "B":
            return it[3]
        if k == "G":
            return 0
        raise Unsupported("newlines of unread input")

    def N(self, b1, b2):
        i, j = self.tape.pos[b1], self.tape.pos[b2]
        r = 0
        for it in self.tape.items[i:j]:
            r = add(r, self.item_n(it))
        return r

    def NS(self, atoms):
        r = 0
        for a in atoms:
            if type(a) is str:
                r = add(r, a.count("\n"))
            elif a[0] == "r":
                r = add(r, self.N(a[1], a[2]))
            else:
                if a[2] is None:
                    raise Unsupported("newlines of unknown text")
                r = add(r, a[2])
        return r

    def set_item(self, i, it):
        self.tape = self.tape.replace(i, i + 1, (it,), ())

    def del_item(self, i):
        """remove item i (an empty string): its two boundaries become one"""
        t = self.tape
        b1, b2 = t.bids[i], t.bids[i + 1]
        self.tape = Tape(t.bids[:i + 1] + t.bids[i + 2:], t.items[:i] + t.items[i + 1:])
        self.rename_bd(b2, b1)

    def make_empty(self, i):
        it = self.tape.items[i]
        if it[0] == "B":
            if it[2]:
                raise Infeasible()
            vid = it[4]
            n = it[3]
            b1 = self.tape.bids[i]
            if vid is not None:
                b = self.tape.bids
                for j, o in enumerate(self.tape.items):
                    if j != i and o[0] == "B" and o[4] == vid:
                        self.set_item(j, ("B", o[1], o[2], o[3], None, o[5]))
                        self.make_empty(j)
                        i = self.tape.pos[b1]
                        break
                it = self.tape.items[i]
                n = it[3]
            self.del_item(i)
            if n != 0:
                self.assume_eq0(n)
        elif it[0] == "L" and it[1] == "":
            self.del_item(i)
        else:
            raise Infeasible()

    def new_blob(self, mask=None, ne=False, n=None, vid=None, neq=frozenset()):
        if mask is None:
            mask = AB.all
        if n is None:
            n = self.newp() if mask & AB.nl else 0
        return ("B", mask, ne, n, vid, neq)

    def append_str(self, items):
        """a fresh string on the tape (separated by gaps); returns its S value"""
        b0 = self.newb()
        bids, its = [b0], []
        for it in items:
            its.append(it)
            bids.append(self.newb())
        t = self.tape
        if t.bids:
            self.tape = Tape(t.bids + tuple(bids), t.items + (("G",),) + tuple(its))
        else:
            self.tape = Tape(bids, its)
        return ("S", (("r", bids[0], bids[-1]),) if items else ())

    # ---- string normal form --------------------------------------------------------------------
    def norm(self, atoms):
        """merge adjacent ranges, absorb literal text and equal text into the tape"""
        t = self.tape
        pos, items, bids = t.pos, t.items, t.bids
        if sum(1 for a in atoms if type(a) is str) > 1:
            m = []
            for a in atoms:
                if type(a) is str and m and type(m[-1]) is str:
                    m[-1] += a
                elif a != "":
                    m.append(a)
            atoms = m
        out = []
        for a in atoms:
            if type(a) is str:
                if not a:
                    continue
                if out and type(out[-1]) is str:
                    out[-1] += a
                    continue
                if out and out[-1][0] == "r":
                    e, rest = self._absorb(pos[out[-1][2]], a)
                    if e is not None:
                        out[-1] = ("r", out[-1][1], bids[e])
                        if rest:
                            out.append(rest)
                        continue
                out.append(a)
                continue
            if a[0] == "r":
                if a[1] == a[2]:
                    # no text, but it says where the text around it is
                    if out and type(out[-1]) is str:
                        s, rest = self._absorb_back(pos[a[1]], out[-1])
                        if s is None or rest:
                            continue
                        out.pop()
                        a = ("r", bids[s], a[2])
                        if out and out[-1][0] == "r" and out[-1][2] == a[1]:
                            out[-1] = ("r", out[-1][1], a[2])
                            continue
                        out.append(a)
                    continue
                if out and type(out[-1]) is str:
                    s, rest = self._absorb_back(pos[a[1]], out[-1])
                    if s is not None:
                        out.pop()
                        if rest:
                            out.append(rest)
                        a = ("r", bids[s], a[2])
                        # may now touch the previous range
                if out and out[-1][0] == "r":
                    if out[-1][2] == a[1]:
                        out[-1] = ("r", out[-1][1], a[2])
                        continue
                    # text equal to what follows on the tape
                    e, i = pos[out[-1][2]], pos[a[1]]
                    j = pos[a[2]]
                    while i < j and e < len(items) and self._same(items[e], items[i]):
                        i += 1
                        e += 1
                    if i == j:
                        out[-1] = ("r", out[-1][1], bids[e])
                        continue
                    if e != pos[out[-1][2]]:
                        out[-1] = ("r", out[-1][1], bids[e])
                        a = ("r", bids[i], a[2])
                out.append(a)
                continue
            out.append(a)
        return tuple(out)

    @staticmethod
    def _same(x, y):
        if x is y and x[0] == "L":
            return True
        if x[0] == "B" and y[0] == "B":
            return x[4] is not None and x[4] == y[4]
        if x[0] == "T" and y[0] == "T":
            return x[1] == y[1] and not x[2] and not y[2] and AB.single(x[1]) is not None
        return x[0] == "L" and x == y

    def _absorb(self, i, text):
        items = self.tape.items
        st = i
        while text and i < len(items):
            it = items[i]
            if it[0] == "T" and not it[2] and AB.single(it[1]) == text[0]:
                text = text[1:]
                i += 1
            elif it[0] == "L" and text.startswith(it[1]) and it[1]:
                text = text[len(it[1]):]
                i += 1
            else:
                break
        if i == st:
            return None, text
        return i, text

    def _absorb_back(self, i, text):
        items = self.tape.items
        st = i
        while text and i > 0:
            it = items[i - 1]
            if it[0] == "T" and not it[2] and AB.single(it[1]) == text[-1]:
                text = text[:-1]
                i -= 1
            elif it[0] == "L" and text.endswith(it[1]) and it[1]:
                text = text[:-len(it[1])]
                i -= 1
            else:
                break
        if i == st:
            return None, text
        return i, text

    def concat(self, a, b):
        if not a[1]:
            return b
        if not b[1]:
            return a
        return ("S", self.norm(a[1] + b[1]))

    # ---- refinement: raise Fork(alternatives) ----------------------------------------------------
    def fork(self, fs):
        alts = []
        for f in fs:
            s = self.copy()
            try:
                f(s)
            except Infeasible:
                continue
            alts.append(s)
        raise Fork(alts)

    def decide_ge(self, a):
        """a >= 0 ?"""
        if type(a) is not Lin:
            return a >= 0
        if self.ge0(a):
            return True
        n = sub(-1, a)
        if self.ge0(n):
            return False
        note_control(self, a)
        self.fork([lambda s: s.assume_ge0(a), lambda s: s.assume_ge0(n)])

    def decide_eq(self, a):
        """a == 0 ?"""
        if type(a) is not Lin:
            return a == 0
        if self.ge0(sub(a, 1)) or self.ge0(sub(-1, a)):
            return False
        note_control(self, a)
        alts = [lambda s: s.assume_eq0(a)]
        if self.ge0(a):
            alts.append(lambda s: s.assume_ge0(sub(a, 1)))
        elif self.ge0(scale(a, -1)):
            alts.append(lambda s: s.assume_ge0(sub(-1, a)))
        else:
            alts.append(lambda s: s.assume_ge0(sub(a, 1)))
            alts.append(lambda s: s.assume_ge0(sub(-1, a)))
        self.fork(alts)

    def char_mask(self, c):
        """mask of a char value"""
        if type(c) is str:
            return AB.bit[c]
        if c[0] == "C":
            it = self.tape.items[self.tape.pos[c[1]]]
            if it[0] == "T":
                return it[1]
            if it[0] == "L":
                return AB.bit[it[1][0]]
        raise Unsupported("char %r" % (c,))

    def char_in(self, c, mask):
        """is char c in mask? (forks)"""
        m = self.char_mask(c)
        if m & mask == m:
            return True
        if m & mask == 0:
            return False
        i = self.tape.pos[c[1]]
        it = self.tape.items[i]

        def go(mm):
            def f(s):
                s.set_item(i, ("T", mm, it[2]))
            return f
        self.fork([go(m & mask), go(m & ~mask)])

    def split_first(self, i):
        """item i (nonempty B or L) becomes one character followed by the rest"""
        it = self.tape.items[i]
        if it[0] == "L":
            s = it[1]
            its = [("T", AB.bit[s[0]], 0)]
            if len(s) > 1:
                its.append(("L", s[1:]))
                self.tape = self.tape.replace(i, i + 1, its, (self.newb(),))
            else:
                self.tape = self.tape.replace(i, i + 1, its, ())
            return
        raise Unsupported("split")

    def fork_blob_first(self, i, back=False):
        """B item i: empty, or first (last) character newline / other"""
        it = self.tape.items[i]
        _, mask, ne, n, vid, neq = it
        if self.mon is not None and self.mon[3] is None and not back:
            # all of the input was read before and is read again: what the monitor saw there is no longer known
            if self.mon[4][0] != "mO":
                raise Unsupported("input read a second time")
            self.ghost["unread"] = True
            self.mon = None
        alts = []
        if not ne:
            alts.append(lambda s: s.make_empty(i))
        if not (type(n) is not Lin and n == 0) and mask & AB.nl:
            def f(s):
                n2 = s.dec_n(n)
                rest = ("B", mask, False, n2, None, frozenset())
                ch = ("T", AB.nl, 0)
                its = (rest, ch) if back else (ch, rest)
                s.drop_vid(vid, i)
                s.tape = s.tape.replace(i, i + 1, its, (s.newb(),))
            alts.append(f)
        m2 = mask & ~AB.nl
        if m2:
            def g(s):
                rest = ("B", mask if n != 0 else m2, False, n, None, frozenset())
                ch = ("T", m2, 0)
                its = (rest, ch) if back else (ch, rest)
                s.drop_vid(vid, i)
                s.tape = s.tape.replace(i, i + 1, its, (s.newb(),))
            alts.append(g)
        self.fork(alts)

    def dec_n(self, n):
        """n-1 for a newline count n, assuming n >= 1"""
        self.assume_ge0(sub(n, 1))
        if type(n) is Lin and len(n.t) == 1 and n.t[0][1] == 1 and n.c == 0:
            # reparametrise p = q + 1 so that counts stay plain params
            p = n.t[0][0]
            l = self.lbs.get(p, 0)
            q = self.newp(max(0, l - 1))
            self.substp({p: add(q, 1)})
            return q
        return sub(n, 1)

    def drop_vid(self, vid, i):
        if vid is None:
            return
        for j, o in enumerate(self.tape.items):
            if o[0] == "B" and o[4] == vid and j != i:
                self.set_item(j, ("B", o[1], o[2], o[3], None, o[5]))

    def show_item(self, it):
        if it[0] == "T":
            c = AB.single(it[1])
            return ("%r" % c if c else "<%s>" % AB.show(it[1])) + ("(comment)" if it[2] else "")
        if it[0] == "L":
            return "%r" % it[1]
        if it[0] == "B":
            return "[%s%s nl=%s%s]" % (AB.show(it[1]), "+" if it[2] else "*", it[3], " =v%s" % it[4] if it[4] is not None else "")
        return it[0]

    def show_atoms(self, atoms):
        out = []
        for a in atoms:
            if type(a) is str:
                out.append("%r" % a)
            elif a[0] == "r":
                i, j = self.tape.pos[a[1]], self.tape.pos[a[2]]
                out.append(" ".join(self.show_item(x) for x in self.tape.items[i:j]))
            else:
                out.append("<%s>" % (a[1],))
        return " . ".join(out)

    def show_tape(self):
        out = []
        for b, it in zip(self.tape.bids, self.tape.items):
            out.append("%r %s" % (b, self.show_item(it)))
        return " ".join(out) + " %r" % (self.tape.bids[-1] if self.tape.bids else "")


CONTROL = set()
CONTROL_DIRTY = [False]


def note_control(st, a):
    """an undecided comparison on a loop-carried counter: partition its loop head by the counter's value"""
    if any(st.origin.get(p) is None for p, _ in a.t):
        return      # compared with an unknown: its own value decides nothing
    for p, _ in a.t:
        o = st.origin.get(p)
        if o is not None and o not in CONTROL:
            CONTROL.add(o)
            CONTROL_DIRTY[0] = True


def _split_n(self, n):
    """n = n1 + n2 for fresh nonnegative counts"""
    return tuple(self.split_multi(n, (1, 1)))


def _split_multi(self, n, coefs):
    """n = sum(coefs[i] * r[i]) for fresh nonnegative counts r"""
    if type(n) is not Lin and n == 0:
        return [0] * len(coefs)
    if len(coefs) == 1 and coefs[0] == 1:
        return [n]
    if type(n) is Lin and len(n.t) == 1 and n.t[0][1] == 1 and n.c == 0:
        p = n.t[0][0]
        l = self.lbs.get(p, 0) or 0
        rs = [self.newp() for _ in coefs]
        e = 0
        for k, r in zip(coefs, rs):
            e = add(e, r, k)
        self.substp({p: e})
        if l > 0:
            self.assume_ge0(sub(e, l))
        return rs
    i = max(j for j, k in enumerate(coefs) if k == 1)
    rs = [self.newp() if j != i else None for j in range(len(coefs))]
    rest = n
    for j, k in enumerate(coefs):
        if j != i:
            rest = add(rest, rs[j], -k)
    rs[i] = rest
    self.assume_ge0(rest)
    return rs


def _become_lit(self, i, text):
    """blob i (and the blobs equal to it) is the given text"""
    it = self.tape.items[i]
    if it[0] != "B" or text in it[5]:
        raise Infeasible()
    vid = it[4]
    while True:
        items = self.tape.items
        j = None
        for q, o in enumerate(items):
            if o is it or (vid is not None and o[0] == "B" and o[4] == vid):
                j = q
                break
        if j is None:
            return
        o = items[j]
        if not text:
            if o[2]:
                raise Infeasible()
            n = o[3]
            self.set_item(j, o[:2] + (False, n, None, frozenset()))
            self.make_empty(j)
        else:
            if any(not AB.bit.get(c, 0) & o[1] for c in text) or text in o[5]:
                raise Infeasible()
            n = o[3]
            self.set_item(j, ("L", text))
            d = sub(n, text.count("\n"))
            if d != 0:
                self.assume_eq0(d)
        if vid is None:
            return
        it = None


State.split_n = _split_n
State.split_multi = _split_multi
State.become_lit = _become_lit
