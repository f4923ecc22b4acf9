"""Affine expressions over symbolic counts, and the affine-hull (Karr) join used at loop heads."""
from fractions import Fraction


class Bd(int):
    """a boundary on the text tape"""
    __slots__ = ()

    def __repr__(self):
        return "b%d" % int(self)


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = " + ".join(("%s*p%s" % (k, p)) if k != 1 else "p%s" % (p,) for p, k in self.t)
        return "(%s%s)" % (s, " + %s" % self.c if self.c else "")


def mk(c, d):
    t = tuple(sorted((p, k) for p, k in d.items() if k))
    if not t:
        return c if not isinstance(c, Fraction) or c.denominator != 1 else int(c)
    return Lin(c, t)


def param(p):
    return Lin(0, ((p, 1),))


def add(a, b, k=1):
    """a + k*b"""
    if type(b) is not Lin:
        if type(a) is not Lin:
            return a + k * b
        return Lin(a.c + k * b, a.t) if b else a
    if type(a) is not Lin:
        return Lin(a + k * b.c, tuple((p, k * q) for p, q in b.t) if k != 1 else b.t)
    d = dict(a.t)
    for p, q in b.t:
        d[p] = d.get(p, 0) + k * q
    return mk(a.c + k * b.c, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if type(a) is not Lin:
        return a * k
    if k == 0:
        return 0
    return Lin(a.c * k, tuple((p, q * k) for p, q in a.t))


def subst(a, m):
    """replace params by expressions"""
    if type(a) is not Lin:
        return a
    for p, _ in a.t:
        if p in m:
            break
    else:
        return a
    r = a.c
    for p, k in a.t:
        e = m.get(p)
        r = add(r, Lin(0, ((p, 1),)) if e is None else e, k)
    return r


class Aff:
    """affine subspace of Q^n, kept as a point and a row-reduced basis of directions"""
    __slots__ = ("pt", "rows", "piv")

    def __init__(self, pt):
        self.pt = list(pt)
        self.rows = []
        self.piv = []

    def reduce(self, v):
        v = list(v)
        for r, p in zip(self.rows, self.piv):
            if v[p]:
                f = v[p]
                v = [a - f * b for a, b in zip(v, r)]
        return v

    def add_dir(self, v):
        v = self.reduce(v)
        for i, x in enumerate(v):
            if x:
                inv = Fraction(1, 1) / x
                v = [a * inv for a in v]
                for j, r in enumerate(self.rows):
                    if r[i]:
                        f = r[i]
                        self.rows[j] = [a - f * b for a, b in zip(r, v)]
                self.rows.append(v)
                self.piv.append(i)
                return True
        return False

    def join(self, pt, dirs):
        ch = self.add_dir([a - b for a, b in zip(pt, self.pt)])
        for d in dirs:
            if self.add_dir(d):
                ch = True
        return ch

    def exprs(self):
        """slot expressions in terms of pivot slots: list of (const, {pivot slot: coef})"""
        base = list(self.pt)
        # choose the representative with zero pivots
        for r, p in zip(self.rows, self.piv):
            f = base[p]
            if f:
                base = [a - f * b for a, b in zip(base, r)]
        n = len(base)
        out = []
        for i in range(n):
            d = {}
            for r, p in zip(self.rows, self.piv):
                if r[i]:
                    d[p] = r[i]
            out.append((base[i], d))
        return out


def norm_num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x
