"""Shape of the pieces a parser or conversion builds: what each kind of chunk may hold."""
from core import *
from core import AB
from core import PREDS

ALPHA = AB.mask(PREDS["is_ascii_alphabetic"])
MATHS_LABELS = ("(", ")", "[", "]")


def mask_of(st, S):
    m = 0
    for a in S:
        if type(a) is str:
            m |= AB.of(a)
        elif a[0] == "r":
            for it in st.tape.items[st.tape.pos[a[1]]:st.tape.pos[a[2]]]:
                m |= AB.of(it[1]) if it[0] == "L" else it[1] if it[0] in "TB" else 0 if it[0] == "G" else AB.all
        else:
            return AB.all
    return m


def may_be(st, S, text):
    """can the text (atoms S) be that literal?  True / False / None (undecided)"""
    parts = []
    for a in S:
        if type(a) is str:
            parts.append(("L", a))
        elif a[0] == "r":
            parts += [x for x in st.tape.items[st.tape.pos[a[1]]:st.tape.pos[a[2]]] if x[0] in "TLB"]
        else:
            return None
    if all(p[0] == "L" or (p[0] == "T" and AB.single(p[1])) for p in parts):
        return "".join(p[1] if p[0] == "L" else AB.single(p[1]) for p in parts) == text
    if len(parts) == 1 and parts[0][0] == "B" and text in parts[0][5]:
        return False
    # position by position
    i = 0
    for k, p in enumerate(parts):
        if p[0] == "L":
            if text[i:i + len(p[1])] != p[1]:
                return False
            i += len(p[1])
        elif p[0] == "T":
            if i >= len(text) or not AB.of(text[i]) & p[1]:
                return False
            i += 1
        else:
            break
    else:
        return None if i == len(text) else False
    j = len(text)
    for q in range(len(parts) - 1, k, -1):
        p = parts[q]
        if p[0] == "L":
            if not text.endswith(p[1], i, j):
                return False
            j -= len(p[1])
        elif p[0] == "T":
            if j <= i or not AB.of(text[j - 1]) & p[1]:
                return False
            j -= 1
        else:
            return None
    p = parts[k]
    if (p[2] and j <= i) or j < i or any(not AB.of(c) & p[1] for c in text[i:j]):
        return False
    if text[i:j] in p[5]:
        return False
    return None


def chars(st, S):
    """the number of characters of a text, if its parts tell"""
    n = 0
    for a in S:
        if type(a) is str:
            n += len(a)
            continue
        if a[0] != "r":
            return None
        for it in st.tape.items[st.tape.pos[a[1]]:st.tape.pos[a[2]]]:
            if it[0] == "L":
                n += len(it[1])
            elif it[0] == "T":
                n += 0 if it[2] else 1
            elif it[0] == "B":
                return None
    return n


def faults(ip, sp, st, v, stage, S=None):
    """(kind, what, why) for a chunk variant"""
    v = ip.full(st, v)
    if type(v) is not tuple or v[0] != "A":
        return
    name = sp.vname(v)
    x = v[3][0]
    if S is None:
        f = sp.flatten(ip, st, v)
        if f is None:
            return
        S = f[1]
    if "form" in st.ghost:
        yield from between(ip, sp, st, v, stage, name, S)
    if stage == 1 and st.mon is not None:
        yield from grammar(ip, sp, st, v, name, S)
    if not S:
        yield "shape", name, "empty chunk"
    elif name == "Text":
        bad = mask_of(st, S) & ~sp.text_mask(stage)
        if bad:
            yield "shape", name, "text may contain %s" % AB.show(bad)
        elif blank(st, S):
            yield "blank", name, "text contains an empty line"
    elif name == "ParagraphBreak":
        m = mask_of(st, S)
        if m & ~AB.ws:
            yield "blank", name, "paragraph break may contain %s" % AB.show(m & ~AB.ws)
        elif not st.ge0(sub(st.NS(S), 2)):
            yield "blank", name, "paragraph break with fewer than two newlines"
    elif name == "Command":
        x = ip.full(st, x)
        if x[0] != "A":
            return
        L = sp.field(x, "label")
        args = ip.full(st, sp.field(x, "args"))
        if type(L) is not tuple or L[0] != "S" or any(type(a) is not str and a[0] != "r" for a in L[1]):
            return
        m = mask_of(st, L[1])
        n = chars(st, L[1])
        if n is None or n > 1:
            bad = m & ~sp.label_mask()
            if bad:
                yield "command", name, "label may contain %s" % AB.show(bad)
        elif m & ~ALPHA and args[0] == "V":
            if any(s[0] == "e" for s in args[1]) or any(s[0] == "w" and not empty(st, s[2][1]) for s in args[1]):
                yield "command", name, "a command without letters has an argument"
        if stage > 1:
            for w in ("begin", "end"):
                if may_be(st, L[1], w) is not False:
                    yield "pair", name, "a command may be named " + w
        if stage > 2 and not sp.keep_maths:
            for w in MATHS_LABELS:
                if may_be(st, L[1], w) is not False:
                    yield "maths", name, "a command may be named " + w
        yield from arg_faults(ip, sp, st, args)
    elif name == "Environment":
        x = ip.full(st, x)
        if x[0] != "A":
            return
        for r in ("prec_begin", "prec_end"):
            P = sp.field(x, r)
            if type(P) is tuple and P[0] == "S":
                bad = mask_of(st, P[1]) & ~AB.ws
                if bad:
                    yield "pair", name, "%s may contain %s" % (r, AB.show(bad))
        yield from arg_faults(ip, sp, st, ip.full(st, sp.field(x, "args")))


def empty(st, S):
    return all(type(a) is not str and a[0] == "r" and all(it[0] not in "TLB" for it in st.tape.items[st.tape.pos[a[1]]:st.tape.pos[a[2]]])
               for a in S)


def arg_faults(ip, sp, st, args):
    if type(args) is not tuple or args[0] != "V":
        return
    for s in args[1]:
        if s[0] == "e":
            a = ip.full(st, s[1])
            if type(a) is tuple and a[0] == "T" and type(a[1][0]) is tuple and a[1][0][0] == "S":
                bad = mask_of(st, a[1][0][1]) & ~AB.ws
                if bad:
                    yield "command", "argument", "the text before an argument may contain %s" % AB.show(bad)
                if st.mon is not None:
                    S = sp.flat(ip, st, a)
                    if S is not None:
                        yield from grammar(ip, sp, st, a, "argument", st.norm(S))


def blank(st, S):
    """does the text cover the marked empty line?"""
    g = st.ghost.get("blank")
    if g is None:
        return False
    i, j = st.tape.pos[g[0]], st.tape.pos[g[-1]]
    for a in S:
        if type(a) is not str and a[0] == "r" and st.tape.pos[a[1]] <= i and j <= st.tape.pos[a[2]]:
            return True
    return False


def between(ip, sp, st, v, stage, name, S):
    """the marked pair of delimiters and what stands between them is one piece of the right kind"""
    if "loose" in st.ghost or stage != st.ghost["form"] or len(S) != 1 or type(S[0]) is str or S[0][0] != "r":
        return
    pos = st.tape.pos
    i, j = pos[S[0][1]], pos[S[0][2]]
    for x, y, _, _, none in st.ghost.get("regions", ()):
        if name in none and i < pos[y] and pos[x] < j:
            yield "between", name, "stands where there is none"
    if "mark" not in st.ghost:
        return
    p, q, kind = st.ghost["mark"]
    a, b = pos[p], pos[q]
    if j <= a or b <= i:
        return
    if (i, j) != (a, b):
        yield "between", name, "covers only part of a pair of delimiters and what stands between them" if a <= i and j <= b else "covers more than a pair of delimiters"
        return
    if name != ("Environment" if kind is None else "MathsBlock"):
        yield "between", name, "instead of %s" % ("an environment" if kind is None else "a maths block")
        return
    x = ip.full(st, v[3][0])
    if x[0] != "A":
        return
    if kind is not None:
        k = tuple(ip.full(st, sp.field(x, r)) for r in ("variant", "type"))
        if all(y[0] == "A" for y in k) and tuple(sp.vname(y) for y in k) != kind:
            yield "between", name, "is %s %s instead of %s %s" % (tuple(sp.vname(y) for y in k) + kind)
        return
    for r, (c, d) in zip(("prec_begin", "label", "args", "content", "prec_end"), st.ghost["parts"]):
        y = ip.full(st, sp.field(x, r))
        got = sp.flat(ip, st, y) if y[0] == "V" else y[1] if y[0] == "S" else None
        if got is None:
            continue
        got = st.norm(got)
        want = st.norm((("r", c, d),))
        if got != want and not same_text(st, got, want):
            yield "between", name, "%s is %s instead of %s" % (r, st.show_atoms(got), st.show_atoms(want))


PIECE = {"tT": "Text", "tS": "Scope", "tC": "Command", "tA": "argument"}


def grammar(ip, sp, st, v, name, S):
    """a piece of the root text of stage 1 is one of those the grammar divides it into"""
    _, esc, com, at, mode, ps = st.mon
    if not S or any(type(x) is str or x[0] != "r" for x in S) or mode[0] in ("mX", "mO"):
        return
    from spec import solid
    pos = st.tape.pos
    a, z = S[0][1], S[-1][2]

    def apart(b, c):
        """do characters outside of comments stand between boundaries b and c?"""
        return solid(st, b, c) if pos[b] <= pos[c] else solid(st, c, b)
    for t in ps:
        if (t[0] == "tA") != (name == "argument"):
            continue
        b, e = (t[1], t[-1]) if t[0] in ("tT", "tC") else t[2:]
        lo, hi = max(a, b, key=pos.get), min(z, e, key=pos.get)
        if pos[lo] >= pos[hi] or not solid(st, lo, hi):
            continue
        if t[0] in ("tS", "tC", "tA") and pos[b] < pos[a] and pos[z] < pos[e]:
            return      # part of what it holds
        if apart(a, b) or apart(z, e):
            yield "grammar", name, "%s is not the whole %s or more than that" % (st.show_atoms(S), PIECE[t[0]])
        elif name != PIECE[t[0]]:
            yield "grammar", name, "instead of " + PIECE[t[0]]
        elif name == "Command":
            x = ip.full(st, v[3][0])
            L = sp.field(x, "label") if x[0] == "A" else None
            if type(L) is tuple and L[0] == "S":
                want = st.norm((("r", t[2], t[3]),))
                got = st.norm(L[1])
                if not all(type(y) is str or y[0] == "r" for y in got):
                    pass
                elif len(got) == 0 or type(got[0]) is str:
                    if got != want and solid(st, t[2], t[3]):
                        yield "grammar", name, "label %s instead of %s" % (st.show_atoms(got), st.show_atoms(want))
                elif apart(got[0][1], t[2]) or type(got[-1]) is str or apart(got[-1][2], t[3]):
                    yield "grammar", name, "label %s instead of %s" % (st.show_atoms(got), st.show_atoms(want))
        st.mon = st.mon[:5] + (tuple(p for p in ps if p != t and not (t[0] == "tC" and p[0] == "tA" and pos[b] <= pos[p[2]] and pos[p[3]] <= pos[e])),)
        return
    s0 = mode[3] if mode[0] == "mS" else mode[6] if mode[0] == "mA" and name == "argument" else mode[1] if len(mode) > 1 else None
    if s0 is None or (name == "argument" and mode[0] != "mA"):
        return
    if pos[a] > pos[s0] and mode[0] in ("mS", "mA"):
        return
    if esc is not False and mode[0] not in ("mS", "mA"):
        return
    if pos[z] > pos[s0] and solid(st, s0 if pos[a] < pos[s0] else a, z):
        yield "grammar", name, "%s is built before it is complete" % st.show_atoms(S)


def same_text(st, a, b):
    """texts with the same items"""
    def items(S):
        out = []
        for x in S:
            if type(x) is str:
                out += list(x)
            elif x[0] == "r":
                for q in range(st.tape.pos[x[1]], st.tape.pos[x[2]]):
                    it = st.tape.items[q]
                    if it[0] == "L":
                        out += list(it[1])
                    elif it[0] == "T" and AB.single(it[1]):
                        out.append(AB.single(it[1]))
                    elif it[0] == "B" and it[4] is not None:
                        out.append(it[4])
                    elif it[0] != "G":
                        out.append(("at", q))
            else:
                out.append(x)
        return out
    return items(a) == items(b)


def note(st, fs):
    for kind, what, why in fs:
        k = "weak:" + kind
        if k not in st.ghost:
            st.ghost[k] = (what, why)


def audit(ip, sp, st, v, seen=None):
    """faults of all explicit chunks inside v"""
    v = ip.full(st, v)
    if type(v) is not tuple or not v:
        return
    if v[0] == "V":
        for s in v[1]:
            if s[0] == "e":
                yield from audit(ip, sp, st, s[1])
        return
    if v[0] == "T":
        for x in v[1]:
            yield from audit(ip, sp, st, x)
        return
    if v[0] != "A":
        return
    if v[1] in sp.info and sp.info[v[1]][1] == "Chunk":
        x = sp.field(v, "variant")
        if type(x) is tuple and x and x[0] == "W":
            return
        yield from faults(ip, sp, st, x, sp.info[v[1]][0])
        v = ip.full(st, x)
    for x in v[3]:
        if type(x) is tuple:
            yield from audit(ip, sp, st, x)


# ---- errors ---------------------------------------------------------------------------------------------
ERR_AT = {"NoEnvironmentLabel": ("\\begin", "\\end"), "UnexpectedEnd": ("\\end",), "TooManyArgsEnd": ("\\end",), "UnclosedEnvironment": ("\\begin",),
          "DoubleDocumentClass": ("\\documentclass",), "TooManyArgsDocumentClass": ("\\documentclass",),
          "UnexpectedMathsEnd": ("\\)", "\\]"), "UnclosedMaths": ("$", "\\(", "\\["), "UnclosedArgument": ("\\",),
          "UnclosedScope": ("{", "[", "("), "UnexpectedClosing": ("}", "]", ")")}


def starts(st, b, text):
    """does the tape at a boundary start with a literal text?  True / False / None"""
    i = st.tape.pos[b]
    k = 0
    for it in st.tape.items[i:]:
        if k == len(text):
            return True
        if it[0] == "G":
            return False
        if it[0] == "T":
            if it[2]:
                continue
            if not AB.of(text[k]) & it[1]:
                return False
            if AB.single(it[1]) != text[k]:
                return None
            k += 1
        elif it[0] == "L":
            n = min(len(it[1]), len(text) - k)
            if it[1][:n] != text[k:k + n]:
                return False
            k += n
        elif it[0] == "B":
            if it[2] and not AB.of(text[k]) & it[1]:
                return False
            return None
        else:
            return None
    return True if k == len(text) else False


def error(ip, sp, st, name, v, where):
    """an error is about what stands where it points"""
    if type(where) is not Bd or where not in st.tape.pos or name not in ERR_AT:
        return
    got = [starts(st, where, t) for t in ERR_AT[name]]
    if True in got:
        why = payload(ip, sp, st, name, v, st.tape.pos[where], ERR_AT[name][got.index(True)])
        if why:
            st.ghost["weak:errwhat"] = (name, why)
        return
    if None in got:
        # undecided: a finding only when the label at hand was not looked at
        i = st.tape.pos[where]
        its = st.tape.items[i:i + 2]
        if len(its) < 2 or its[0][0] != "T" or its[1][0] != "B" or its[1][1] & ~sp.label_mask():
            return
    st.ghost["weak:errwhat"] = (name, "%s about %s" % ("undecided" if None in got else "raised", st.show_tape()[:300]))


def payload(ip, sp, st, name, v, i, lit):
    """what the error says about the construct at item i of the tape (which starts with lit)"""
    x = None
    for f in v[3]:
        if type(f) is tuple and f[0] == "A" and f[1] == sp.etype:
            x = ip.full(st, f)
    if x is None:
        return None
    if name in ("UnclosedScope", "UnexpectedClosing"):
        k = ip.full(st, x[3][0])
        if type(k) is tuple and k[0] == "A" and sp.delims(k)[0 if name == "UnclosedScope" else 1] != lit:
            return "names the wrong bracket kind for %s" % lit
        return None
    items = st.tape.items
    n = 0
    while n < len(lit):
        n += 1 if items[i][0] == "T" else len(items[i][1])
        i += 1
    if n > len(lit):
        return None
    while i < len(items) and items[i][0] in "TB" and not items[i][1] & ~AB.ws:
        i += 1
    if i >= len(items) or items[i][0] != "T":
        return None
    c = AB.single(items[i][1])
    if name == "NoEnvironmentLabel" and c == "{":
        return "raised although there is a label"
    if name in ("UnexpectedEnd", "UnclosedEnvironment") and c == "{":
        S = x[3][0]
        if type(S) is not tuple or S[0] != "S" or any(type(a) is not str and a[0] == "u" for a in S[1]):
            return None
        S = st.norm(S[1])
        if not S:
            return None if items[i + 1][0] == "B" and not items[i + 1][2] or AB.single(items[i + 1][1]) == "}" else "names no label"
        if len(S) != 1 or S[0][0] != "r" or st.tape.pos[S[0][1]] != i + 1 or items[st.tape.pos[S[0][2]]][0] != "T" \
                or AB.single(items[st.tape.pos[S[0][2]]][1]) != "}":
            return "names %s instead of the label" % st.show_atoms(S)
    return None
