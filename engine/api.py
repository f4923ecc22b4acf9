"""Roots for the hand-built side of the library: validation, checked constructors, accessors, pushes, bracket tables."""
from core import *
from core import AB
import canon
from roots import Root, Alarm, Mk, node_alts, whole_alts, show, chk_bases
from spec import DELIM
from interp import HEAP

BRACKETS = "{}[]()"


def ierr(sp):
    return next((n for n in sp.p.adts if n.endswith("internal_error::InternalError") and sp.p.adts[n]["local"]), None)


def vname(sp, v):
    return sp.p.adts[v[1]]["variants"][v[2]][0]


def covered_by(st, atoms):
    """tape items validated so far"""
    out = set()
    for a in atoms:
        if type(a) is not str and a[0] == "r":
            out.update(range(st.tape.pos[a[1]], st.tape.pos[a[2]]))
    return out


def items_of(st, atoms):
    out = []
    for a in atoms:
        if type(a) is not str and a[0] == "r":
            out += range(st.tape.pos[a[1]], st.tape.pos[a[2]])
    return out


def parts(sp, ip, st, v):
    """(role, value, kind) of the parts of node v that validate must reach"""
    stage, name = sp.info[v[1]]
    if name == "ChunkVariant":
        x = v[3][0]
        if type(x) is tuple and x[0] == "A":
            return [("content", x, "whole")]
        return []
    if name == "Chunk":
        return [("variant", sp.field(v, "variant"), "whole")]
    if name == "Scope":
        return [("chunks", sp.field(v, "chunks"), "whole")]
    if name == "Command":
        return [("arguments", sp.field(v, "args"), "args")]
    if name == "Environment":
        return [("arguments", sp.field(v, "args"), "args"), ("content", sp.field(v, "content"), "whole")]
    if name == "MathsBlock":
        return [("content", sp.field(v, "content"), "whole")]
    if name == "Document" and stage < 3:
        return [("chunks", sp.field(v, "chunks"), "whole")]
    return [(r, sp.field(v, r), "whole") for r in ("preamable", "body", "trailing")] + [("body_args", sp.field(v, "body_args"), "args")]


def unreached(sp, ip, st, v):
    """parts of v not validated although the result is Ok"""
    d = st.ghost.get("vald", EMPTY)
    cov = covered_by(st, d[1])
    for role, x, kind in parts(sp, ip, st, v):
        S = sp.flatten(ip, st, x)
        if S is None:
            raise Unsupported("text of " + role)
        if S[1] == d[1]:
            continue
        if S[1] and all(type(a) is str for a in S[1]):
            yield role
            continue
        for q in items_of(st, S[1]):
            if q in cov:
                continue
            it = st.tape.items[q]
            if kind == "args" and it[0] in "TLB":
                m = AB.of(it[1]) if it[0] == "L" else it[1]
                if not m & ~AB.ws:
                    continue
            if it[0] == "B" and not it[2]:
                # possibly empty
                s2 = st
                if it[1] == 0:
                    continue
            yield role
            break


def own_text(sp, ip, st, v):
    """the piece of text validate itself has to look at: (what, S) or None"""
    stage, name = sp.info[v[1]]
    if name == "ChunkVariant" and type(v[3][0]) is tuple and v[3][0][0] == "S":
        return vname(sp, v), v[3][0]
    if name in ("Command", "Environment"):
        return "label", sp.field(v, "label")
    return None


def mask_of(st, S):
    m = 0
    for a in S[1]:
        if type(a) is str:
            m |= AB.of(a)
        elif a[0] == "r":
            for it in st.tape.items[st.tape.pos[a[1]]:st.tape.pos[a[2]]]:
                m |= AB.of(it[1]) if it[0] == "L" else it[1]
        else:
            raise Unsupported("unknown text")
    return m


def chars(st, S):
    """the number of characters of a text, if its parts tell"""
    n = 0
    for a in S[1]:
        if type(a) is str:
            n += len(a)
            continue
        for it in st.tape.items[st.tape.pos[a[1]]:st.tape.pos[a[2]]]:
            if it[0] == "L":
                n += len(it[1])
            elif it[0] == "T":
                n += 1
            else:
                return None
    return n


def is_lit(st, S, text):
    """True / False / None: is the text that literal?"""
    if len(S[1]) == 0:
        return text == ""
    if len(S[1]) == 1 and type(S[1][0]) is str:
        return S[1][0] == text
    if len(S[1]) == 1 and S[1][0][0] == "r":
        i, j = st.tape.pos[S[1][0][1]], st.tape.pos[S[1][0][2]]
        its = st.tape.items[i:j]
        if all(x[0] == "L" or (x[0] == "T" and AB.single(x[1])) for x in its):
            return "".join(x[1] if x[0] == "L" else AB.single(x[1]) for x in its) == text
        if len(its) == 1 and its[0][0] == "B":
            if text in its[0][5]:
                return False
            if AB.of(text) & ~its[0][1]:
                return False
        if all(x[0] in "TL" for x in its) and sum(len(x[1]) if x[0] == "L" else 1 for x in its) != len(text):
            return False
    return None


BAD = "\\%" + BRACKETS


def chk_validate(ctx, st, r):
    sp, ip = ctx.sp, ctx.ip
    v = st.ghost["self"]
    v = ip.full(st, v)
    if v[0] != "A":
        raise Unsupported("undecided node")
    stage, name = sp.info[v[1]]
    if not (r[0] == "A" and r[1] == RES):
        raise Unsupported("result of validate")
    own = own_text(sp, ip, st, v)
    exempt = None
    if name == "Command" and own:
        exempt = st.ghost["named"] == "one"
        n = chars(st, own[1])
        if n is not None and n != {"none": 0, "one": 1, "begin": 5, "end": 3}.get(st.ghost["named"], max(n, 2)):
            return      # merged texts were told apart again: not an execution
        if st.ghost["named"] == "many" and stage > 1 and (is_lit(st, own[1], "begin") or is_lit(st, own[1], "end")):
            return
    if r[2] == 0:
        if st.ghost.get("verr"):
            yield Alarm("accepts", "accepts a %s although one of its parts is invalid" % name)
        for role in unreached(sp, ip, st, v):
            yield Alarm("accepts", "accepts a %s without validating all of its %s" % (name, role))
        if own:
            what, S = own
            m = mask_of(st, S)
            if what == "ParagraphBreak":
                if m & ~AB.ws:
                    yield Alarm("accepts", "accepts a paragraph break that may contain %s" % AB.show(m & ~AB.ws))
                if not st.ge0(sub(st.NS(S[1]), 2)):
                    yield Alarm("accepts", "accepts a paragraph break with fewer than two newlines")
            elif exempt is not True and m & AB.of(BAD):
                yield Alarm("accepts", "accepts a %s that may contain %s" % ("label" if what == "label" else "text", AB.show(m & AB.of(BAD))))
            if name == "Command" and stage > 1:
                for w in ("begin", "end"):
                    if st.ghost["named"] == w:
                        yield Alarm("accepts", "accepts a command named " + w)
        if name == "Document":
            settle(st)
            cov = covered_by(st, st.ghost["lined"][1])
            for role, x, kind in parts(sp, ip, st, v):
                if kind != "args" and any(q not in cov for q in items_of(st, sp.flatten(ip, st, x)[1])):
                    yield Alarm("accepts", "accepts a document whose %s are not numbered by their lines" % role)
        return
    e = ip.full(st, r[3][0])
    if type(e) is tuple and e[0] == "?":
        if not st.ghost.get("verr"):
            raise Unsupported("unknown error")
        return
    if e[0] != "A" or e[1] != ierr(sp):
        raise Unsupported("unknown error")
    if st.ghost.get("verr"):
        return      # some part is invalid: rejecting is right
    en = vname(sp, e)
    if en == "UnsanitisedCharInString":
        c = ip.full(st, e[3][0])
        if type(c) is str:
            m = AB.of(c)
        elif type(c) is tuple and c[0] == "C":
            m = st.char_mask(c)
        else:
            raise Unsupported("unknown character")
        if own is None:
            yield Alarm("rejects", "%s: a %s has no text of its own" % (en, name))
            return
        if m & ~AB.of(BAD):
            yield Alarm("rejects", "rejects a %s because of %s" % (name, AB.show(m & ~AB.of(BAD))))
        if not m & mask_of(st, own[1]):
            yield Alarm("rejects", "names a character that does not occur in the text")
        if exempt is True:
            if chars(st, own[1]) is None:
                raise Unsupported("length of a label")
            yield Alarm("rejects", "rejects a one-character command label")
    elif en in ("BeginCommand", "EndCommand"):
        w = "begin" if en == "BeginCommand" else "end"
        if st.ghost.get("named") != w:
            yield Alarm("rejects", "%s for a command that is not %s" % (en, w))
    elif en == "ParagraphBreakTooShort":
        if own is None or own[0] != "ParagraphBreak":
            yield Alarm("rejects", "%s without a paragraph break" % en)
        elif st.ge0(sub(st.NS(own[1][1]), 2)) or not st.ge0(sub(1, st.NS(own[1][1]))):
            yield Alarm("rejects", "rejects a paragraph break with two newlines as too short")
    elif en == "ParagraghBreakNonwhitespace":
        if own is None or own[0] != "ParagraphBreak" or not solid_outside(st, own[1], AB.ws):
            yield Alarm("rejects", "rejects a paragraph break of whitespace")
    elif en == "IncorrectChunkLineNumber":
        names = [f[0] for f in sp.p.adts[e[1]]["variants"][e[2]][2]]
        try:
            x, g = ip.full(st, e[3][names.index("expected")]), ip.full(st, e[3][names.index("got")])
        except ValueError:
            raise Unsupported("fields of the error")
        if type(x) not in (int, Lin) or type(g) not in (int, Lin):
            raise Unsupported("unknown line")
        if name != "Document":
            raise Unsupported("line number of a part")
        if sub(x, g) == 0:
            yield Alarm("rejects", "rejects a chunk on the expected line")
            return
        c = st.ghost.get("curline")
        if c is None or not c[1][1][1]:
            raise Unsupported("no chunk was looked at")
        p, S = c[1]
        b = S[1][0][1]
        if sub(g, p) == 0 and sub(x, add(1, st.N(section_start(st, b), b))) == 0:
            return
        yield Alarm("rejects", "reports an expected line that is not the line of the chunk")
    elif en == "UnbrokenParagraph":
        if own is None or own[0] != "Text" or stage < 3:
            yield Alarm("rejects", "%s for a %s of stage %d" % (en, name, stage))
        elif not st.ge0(sub(st.NS(own[1][1]), 2)):
            yield Alarm("rejects", "rejects a text that may have fewer than two newlines as an unbroken paragraph")
    else:
        raise Unsupported("error " + en)


def solid_outside(st, S, mask):
    for a in S[1]:
        if type(a) is str:
            if AB.of(a) & ~mask:
                return True
            continue
        for it in st.tape.items[st.tape.pos[a[1]]:st.tape.pos[a[2]]]:
            if it[0] == "L" and AB.of(it[1]) & ~mask:
                return True
            if it[0] == "T" and not it[1] & mask:
                return True
    return False


def text_variants(sp, stage, wrap):
    """chunk variants with arbitrary, possibly unsanitised text"""
    out = []
    A = sp.adt
    n = A[(stage, "ChunkVariant")]
    for nm in ("Text", "ParagraphBreak"):
        try:
            i = sp.vidx(n, nm)
        except Unsupported:
            continue
        st = State.new()
        mk = Mk(sp, None, st)
        out.append((st, wrap(mk, ("A", n, i, (mk.text(),)))))
    return out


def blank_line(sp, wrap, broken):
    """a stage 3 text with an empty line inside, or with a line that only looks like one"""
    st = State.new()
    mk = Mk(sp, None, st)
    b = mk.text()[1][0]
    ws = AB.ws & ~AB.nl
    if broken:
        lay = [("B", AB.all, False, None, ()), ("T", AB.nl), ("B", ws, False, None, ()), ("T", AB.nl), ("B", AB.all, False, None, ())]
    else:
        fine = AB.all & ~AB.nl & ~AB.of(BAD)
        lay = [("B", fine, False, None, ()), ("T", AB.nl), ("B", ws, False, None, ()), ("T", fine & ~AB.ws), ("B", fine, False, None, ()),
               ("T", AB.nl), ("B", fine, False, None, ())]
    bs = sp.layout(st, st.tape.pos[b[1]], lay)
    n = sp.adt[(3, "ChunkVariant")]
    st.ghost["blank"] = ("T", tuple(("S", (("r", bs[i], bs[i + 1]),)) for i in range(len(lay))))
    return [(st, wrap(mk, ("A", n, sp.vidx(n, "Text"), (("S", (("r", bs[0], bs[-1]),)),))))]


def chk_blank(ctx, st, r):
    if not (r[0] == "A" and r[1] == RES):
        raise Unsupported("result of validate")
    if r[2] == 0 and ctx.root.broken:
        yield Alarm("accepts", "accepts a text with an empty line")
    if r[2] == 1 and not ctx.root.broken:
        yield Alarm("rejects", "rejects a text without special characters or empty lines")


def free_lines(sp, ip, st, v):
    """the chunks of a document on unknown lines"""
    def f(x):
        if type(x) is tuple and x:
            if x[0] == "w" and len(x) == 4 and x[1][0] == "c":
                return x[:3] + (None,)
            return tuple(f(y) if type(y) is tuple else y for y in x)
        return x
    return f(v)


def section_start(st, b):
    """where the section of the document around a boundary starts"""
    best = None
    for x in st.ghost["sections"]:
        if st.tape.pos[x] <= st.tape.pos[b] and (best is None or st.tape.pos[x] > st.tape.pos[best]):
            best = x
    return best


def settle(st):
    """the chunk looked at so far: was its line compared with the right one?"""
    c = st.ghost.pop("curline", None)
    if c is None:
        return
    p, S = c[1]
    if not S[1]:
        return
    b = S[1][0][1]
    right = add(1, st.N(section_start(st, b), b))
    if type(p) in (int, Lin) and sub(p, right) == 0:
        st.ghost["lined"] = ("S", st.norm(st.ghost["lined"][1] + S[1]))


def look(st, p, b1, b2):
    settle(st)
    st.ghost["curline"] = ("T", (p, ("S", (("r", b1, b2),))))


def section(sp, stage, m):
    if stage < 3:
        return "chunks"
    for s in ("preamable", "body", "trailing"):
        if s in m:
            return s
    return None


# ---- pushes --------------------------------------------------------------------------------------------
def push_alts(sp, ip, stage, sec, chunk):
    """a well-formed document, and a piece whose text follows the section it goes to"""
    A = sp.adt
    out = []
    for mode in (("free", "right") if chunk else ("right",)):
        st = State.new()
        mk = Mk(sp, ip, st)
        b = mk.text()[1][0]
        any_ = ("B", AB.all, False, None, ())
        new = ("B", AB.all, True, None, ())
        ws = ("B", AB.ws, False, None, ())
        if stage < 3:
            bs = sp.layout(st, st.tape.pos[b[1]], [any_, new])
            k = 1
            S = lambda i: ("S", (("r", bs[i], bs[i + 1]),))
            start = bs[0]
            doc = sp.make(A[(stage, "Document")], chunks=("V", (("w", "c%d" % stage, S(0), 1),)))
        else:
            lay = [("preamable", any_), (None, ("L", "\\begin")), ("bp", ws), (None, ("L", "{document}")), ("args", any_), ("body", any_),
                   (None, ("L", "\\end")), ("ep", ws), (None, ("L", "{document}")), ("trailing", any_)]
            i = [x[0] for x in lay].index(sec)
            lay.insert(i + 1, ("new", new))
            bs = sp.layout(st, st.tape.pos[b[1]], [x[1] for x in lay])
            at = {x[0]: j for j, x in enumerate(lay)}
            k = at["new"]
            S = lambda i: ("S", (("r", bs[i], bs[i + 1]),))
            R = lambda n, kind, L: ("V", (("w", kind, S(at[n]), L),))
            start = bs[at[sec]]
            doc = sp.make(A[(3, "Document")], documentclass=("?", "class"), documentoptions=("?", "options"), preamable=R("preamable", "c3", 1),
                          body_begin_prec=S(at["bp"]), body_args=R("args", "a3", None), body=R("body", "c3", 1), body_end_prec=S(at["ep"]),
                          trailing=R("trailing", "c3", 1))
        v = ("W", A[(stage, "ChunkVariant")], bs[k], bs[k + 1])
        expected = add(1, st.N(start, bs[k]))
        if chunk:
            line = expected if mode == "right" else mk.line(0)
            v = sp.make(A[(stage, "Chunk")], line=line, variant=v)
            st.ghost["given"] = line
        st.ghost["root"] = (bs[0], bs[-1])
        st.ghost["new"] = (bs[k], bs[k + 1])
        st.ghost["start"] = start
        st.ghost["mode"] = mode == "right"
        st.ghost["vald"] = EMPTY
        r = mk.ref(doc)
        st.ghost["doc"] = r
        out.append((st, [r, v]))
    return out


def chk_push(ctx, st, r):
    sp, ip = ctx.sp, ctx.ip
    d = ip.full(st, st.ghost["doc"])
    b0, b1 = st.ghost["root"]
    n0, n1 = st.ghost["new"]
    got = sp.flatten(ip, st, d)
    if got is None:
        raise Unsupported("text of the document")
    checked = ctx.root.checked
    ok_ = True
    e = None
    if type(r) is tuple and r[0] == "A" and r[1] == RES:
        ok_ = r[2] == 0
        if not ok_:
            e = ip.full(st, r[3][0])
    expected = add(1, st.N(st.ghost["start"], n0))
    given = st.ghost.get("given")
    if ok_:
        want = ("S", st.norm((("r", b0, b1),)))
        if got != want and not ip.bi.eq_str(st, got, want):
            yield Alarm("push", "the document becomes %s instead of %s" % (show(st, got), show(st, want)))
        if st.ghost["mode"]:
            yield from chk_bases(ctx, st, d, 1)
        if checked:
            cov = covered_by(st, st.ghost["vald"][1])
            if st.ghost.get("verr") or not all(q in cov for q in range(st.tape.pos[n0], st.tape.pos[n1])):
                yield Alarm("push", "something invalid is pushed")
            if given is not None and type(given) in (int, Lin) and sub(given, expected) != 0:
                yield Alarm("push", "a chunk on the wrong line is pushed")
        return
    want = ("S", st.norm((("r", b0, n0), ("r", n1, b1))))
    if got != want and not ip.bi.eq_str(st, got, want):
        yield Alarm("push", "a failed push leaves %s instead of %s" % (show(st, got), show(st, want)))
    yield from chk_bases(ctx, st, d, 1)
    if not checked:
        yield Alarm("push", "an unchecked push fails")
        return
    if type(e) is tuple and e[0] == "?":
        if not st.ghost.get("verr"):
            raise Unsupported("unknown error")
        return
    if e[0] != "A" or e[1] != ierr(sp):
        raise Unsupported("unknown error")
    if vname(sp, e) == "IncorrectChunkLineNumber":
        names = [f[0] for f in sp.p.adts[e[1]]["variants"][e[2]][2]]
        x, g = ip.full(st, e[3][names.index("expected")]), ip.full(st, e[3][names.index("got")])
        if given is None:
            yield Alarm("push", "a line number is rejected although none was given")
        elif type(x) in (int, Lin) and type(g) in (int, Lin):
            if sub(given, expected) == 0:
                yield Alarm("push", "a chunk on the right line is rejected")
            elif sub(g, given) != 0 or sub(x, expected) != 0:
                yield Alarm("push", "the error says line %s instead of %s, the chunk is on %s instead of %s" % (g, x, given, expected))
        else:
            raise Unsupported("unknown line")
    elif not st.ghost.get("verr"):
        raise Unsupported("error " + vname(sp, e))


# ---- constructors and accessors -----------------------------------------------------------------------
CTOR = {
    "Chunk": ("line", "variant"), "Command": ("label", "args"), "Scope": ("chunks", "variant"),
    "Environment": ("label", "args", "content", "prec_begin", "prec_end"), "MathsBlock": ("variant", "type", "content"),
    "Document": ("chunks",),
    "Document3": ("preamable", "documentclass", "documentoptions", "body", "body_args", "body_begin_prec", "body_end_prec", "trailing"),
}
PARTS = dict(CTOR, Document3=("documentclass", "documentoptions", "preamable", "body", "body_args", "body_begin_prec", "body_end_prec", "trailing"))
GET = {"line_no": "line", "variant": "variant", "label": "label", "arguments": "args", "chunks": "chunks", "content": "content",
       "chunks_preamable": "preamable", "chunks_body": "body", "chunks_trailing": "trailing", "prec_begin": "prec_begin",
       "prec_end": "prec_end", "r#type": "type", "type": "type", "documentclass": "documentclass", "documentoptions": "documentoptions"}


def cname(stage, name):
    return "Document3" if name == "Document" and stage == 3 else name


def differs(ctx, st, got, want):
    sp, ip = ctx.sp, ctx.ip
    got, want = ip.full(st, got), ip.full(st, want)
    if got == want:
        return False
    if type(got) in (int, Lin) and type(want) in (int, Lin):
        return sub(got, want) != 0
    if type(got) is not tuple or type(want) is not tuple:
        raise Unsupported("comparison of parts")
    if got[0] == "?" or want[0] == "?":
        if got[0] == want[0]:
            return got != want
        raise Unsupported("unknown part")
    if want[0] == "A" and want[1] in sp.info and sp.info[want[1]][1] in ("ScopeVariant", "MathsVariant", "MathsType"):
        return got[:3] != want[:3]
    x, y = sp.flatten(ip, st, got), sp.flatten(ip, st, want)
    if x is None or y is None:
        raise Unsupported("comparison of parts")
    if x != y and not ip.bi.eq_str(st, x, y):
        return True
    return False


def chk_ctor(ctx, st, r):
    sp, ip = ctx.sp, ctx.ip
    v = st.ghost["self"]
    checked = ctx.root.checked
    if checked:
        if not (r[0] == "A" and r[1] == RES):
            raise Unsupported("result of new")
        if r[2] == 1:
            e = ip.full(st, r[3][0])
            if not st.ghost.get("verr") and type(e) is tuple and e[0] == "?":
                raise Unsupported("unknown error")
            if not st.ghost.get("verr"):
                yield Alarm("ctor", "a valid value is rejected")
            return
        if st.ghost.get("verr"):
            yield Alarm("ctor", "an invalid value is constructed")
            return
        S = sp.flatten(ip, st, v)
        cov = covered_by(st, st.ghost["vald"][1])
        inner = {q for role, x, kind in parts(sp, ip, st, v) for q in items_of(st, sp.flatten(ip, st, x)[1])}
        whole = st.ghost.get("whole")
        if not whole:
            missing = [q for q in inner if q not in cov]
            if missing or own_text(sp, ip, st, v) is not None or sp.info[v[1]][1] == "Document":
                yield Alarm("ctor", "a value is constructed without validating it")
                return
        r = r[3][0]
    r = ip.full(st, r)
    if r[0] != "A" or r[1] != v[1]:
        raise Unsupported("constructed value")
    for role in CTOR[cname(*sp.info[v[1]])]:
        if differs(ctx, st, sp.field(r, role), sp.field(v, role)):
            yield Alarm("ctor", "%s is not what was given" % role)


def chk_access(ctx, st, r):
    sp, ip = ctx.sp, ctx.ip
    v = st.ghost["self"]
    role = ctx.root.role
    if role is not None:
        if ctx.root.mut:
            x = r
            if not (type(x) is tuple and x[0] == "R"):
                raise Unsupported("result of a mutable accessor")
            ix = sp.f[v[1]][role]
            o = st.ghost["ref"]
            if x[1] != o[1] or x[2] != o[2] + (ix,):
                if ip.full(st, x) == ip.full(st, sp.field(v, role)):
                    yield Alarm("access", "the mutable reference does not point into the value")
                else:
                    yield Alarm("access", "designates another part than %s" % role)
            return
        if differs(ctx, st, r, sp.field(v, role)):
            yield Alarm("access", "returns another part than %s" % role)
        return
    roles = PARTS[cname(*sp.info[v[1]])]
    if r[0] != "T" or len(r[1]) != len(roles):
        raise Unsupported("result of decompose")
    for i, role in enumerate(roles):
        if differs(ctx, st, r[1][i], sp.field(v, role)):
            yield Alarm("access", "part %d is not %s" % (i, role))


# ---- brackets -------------------------------------------------------------------------------------------
def chk_table(ctx, st, r):
    sp, ip = ctx.sp, ctx.ip
    m = ctx.root.fn.method
    if m in ("open", "close"):
        v = st.ghost["self"]
        want = DELIM[sp.vname(v)][0 if m == "open" else 1]
        r = ip.full(st, r)
        if type(r) is not str:
            raise Unsupported("unknown character")
        if r != want:
            yield Alarm("table", "%s of %s is %s" % (m, sp.vname(v), r))
    elif m in ("is_opening", "is_closing"):
        q = st.ghost["char"]
        mask = st.char_mask(("C", q[1]))
        s = AB.of("{[(" if m == "is_opening" else ")]}")
        if r is True and mask & ~s:
            yield Alarm("table", "%s accepts %s" % (m, AB.show(mask & ~s)))
        elif r is False and mask & s:
            yield Alarm("table", "%s refuses %s" % (m, AB.show(mask & s)))
        elif type(r) is not bool:
            raise Unsupported("undecided")
    elif m in ("from_opening", "from_closing"):
        q = st.ghost["char"]
        mask = st.char_mask(("C", q[1]))
        k = 0 if m == "from_opening" else 1
        r = ip.full(st, r)
        if r[0] != "A":
            raise Unsupported("undecided")
        want = AB.of(DELIM[sp.vname(r)][k])
        if mask & ~want:
            yield Alarm("table", "%s turns %s into %s" % (m, AB.show(mask & ~want), sp.vname(r)))
    else:
        v = st.ghost["self"]
        r = ip.full(st, r)
        if r[0] != "A" or r[1] not in sp.info:
            raise Unsupported("undecided")
        if sp.vname(v) != sp.vname(r):
            yield Alarm("table", "%s becomes %s" % (sp.vname(v), sp.vname(r)))


def api_roots(prog, sp):
    out = []

    def add_root(name, fn, init, check, **kw):
        r = Root(name, fn, init, check, ())
        for k, v in kw.items():
            setattr(r, k, v)
        out.append(r)
    for fn in prog.fns.values():
        if fn.model or fn.self_t is None or fn.kind not in ("fn", "Fn", "AssocFn", "method", None):
            continue
        ty = prog.types[fn.self_t]
        sn = ty[1] if ty[0] == "adt" else None
        if sn not in sp.info:
            continue
        stage, name = sp.info[sn]
        if stage > 3:
            continue
        tr = fn.trait.split("::")[-1].split("<")[0] if fn.trait else None
        nm = "ast%d::%s" % (stage, name)
        if name == "ScopeVariant":
            n = sn
            if tr is None and fn.method in ("open", "close"):
                def init(sp, ip, st, n=n):
                    o = []
                    for i, v in enumerate(sp.p.adts[n]["variants"]):
                        s = State.new()
                        mk = Mk(sp, ip, s)
                        s.ghost["self"] = ("A", n, i, ())
                        by = sp.p.types[fn.inputs[0]][0]
                        o.append((s, [mk.ref(s.ghost["self"])]))
                    return o
                add_root("table/%s::%s" % (nm, fn.method), fn, init, chk_table)
            elif tr is None and fn.method in ("is_opening", "is_closing", "from_opening", "from_closing"):
                def init(sp, ip, st, m=fn.method):
                    s = State.new()
                    mk = Mk(sp, ip, s)
                    mask = AB.all
                    if m == "from_opening":
                        mask = AB.of("{[(")
                    elif m == "from_closing":
                        mask = AB.of(")]}")
                    b = mk.text(None, True)[1][0]
                    alts = []
                    for mm in (mask & AB.nl, mask & ~AB.nl):
                        if not mm:
                            continue
                        s2 = s.copy()
                        bs = sp.layout(s2, s2.tape.pos[b[1]], [("T", mm), ("B", AB.all, False, None, ())])
                        s2.ghost["char"] = ("C", bs[0])
                        alts.append((s2, [("C", bs[0])]))
                    return alts
                add_root("table/%s::%s" % (nm, fn.method), fn, init, chk_table)
            elif tr == "From" and fn.method == "from":
                at = prog.types[fn.trargs[1]]
                if at[0] == "adt" and at[1] in sp.info:
                    def init(sp, ip, st, n=at[1]):
                        o = []
                        for i, v in enumerate(sp.p.adts[n]["variants"]):
                            s = State.new()
                            s.ghost["self"] = ("A", n, i, ())
                            o.append((s, [("A", n, i, ())]))
                        return o
                    add_root("table/ast%d::ScopeVariant->%s" % (sp.info[at[1]][0], nm), fn, init, chk_table)
            continue
        if name in ("MathsType", "MathsVariant"):
            continue
        if tr == "Validate" and fn.method == "validate":
            def init(sp, ip, st, stage=stage, name=name):
                def wrap(mk, val):
                    if name == "Document":
                        val = free_lines(sp, ip, mk.st, val)
                        mk.st.ghost["freelines"] = True
                        mk.st.ghost["lined"] = EMPTY
                        mk.st.ghost["sections"] = tuple(sp.flatten(ip, mk.st, sp.field(val, x))[1][0][1] for x in
                                                        (("chunks",) if stage < 3 else ("preamable", "body", "trailing")))
                    if name in ("Command", "Environment"):
                        # labels are arbitrary
                        i = mk.st.tape.pos[sp.field(val, "label")[1][0][1]]
                        it = mk.st.tape.items[i]
                        mk.st.set_item(i, ("B", AB.all, False, it[3], None, frozenset()))
                    mk.st.ghost["self"] = val
                    mk.st.ghost["vald"] = EMPTY
                    return [mk.ref(val)]
                if name == "ChunkVariant":
                    o = text_variants(sp, stage, wrap)
                    st0 = State.new()
                    mk = Mk(sp, ip, st0)
                    n = sp.adt[(stage, "ChunkVariant")]
                    for v in sp.p.adts[n]["variants"]:
                        if (stage, v[0]) in sp.adt and v[0] in ("Command", "Scope", "Environment", "MathsBlock"):
                            def w2(mk, val, v=v):
                                return wrap(mk, ("A", n, sp.vidx(n, v[0]), (val,)))
                            for a in component(sp, ip, stage, v[0], w2):
                                o.append(a)
                    return o
                if name == "Command":
                    o = []
                    first = AB.all & ~AB.of("be") if stage > 1 else AB.all
                    more = ("B", AB.all, True, None, ())
                    labels = [("none", []), ("one", [("T", AB.nl)]), ("one", [("T", AB.all & ~AB.nl)]),
                              ("many", [("T", AB.nl), more]), ("many", [("T", first & ~AB.nl), more])]
                    if stage > 1:
                        labels += [("many", [("L", "b"), more[:4] + (("egin",),)]), ("many", [("L", "e"), more[:4] + (("nd",),)]),
                                   ("begin", [("L", "begin")]), ("end", [("L", "end")])]
                    for tag, lay in labels:
                        s = State.new()
                        mk = Mk(sp, ip, s)
                        from roots import node
                        val = node(mk, stage, "Command")
                        a = wrap(mk, val)
                        i = s.tape.pos[sp.field(val, "label")[1][0][1]]
                        if lay:
                            sp.layout(s, i, lay)
                        else:
                            s.assume_eq0(s.tape.items[i][3])
                            s.make_empty(i)
                        s.ghost["named"] = tag
                        if tag == "many":       # both parts of the label stay nonempty
                            k = sp.field(val, "label")[1][0]
                            m = s.tape.bids[s.tape.pos[k[1]] + 1]
                            s.ghost["more"] = ("S", (("r", k[1], m), ("r", m, k[2])))
                        o.append((s, a))
                    return o
                return node_alts(sp, ip, stage, name, wrap)
            add_root("validate/" + nm, fn, init, chk_validate)
            if (stage, name) == (3, "ChunkVariant"):
                for broken in (True, False):
                    def init(sp, ip, st, broken=broken):
                        def wrap(mk, val):
                            mk.st.ghost["self"] = val
                            mk.st.ghost["vald"] = EMPTY
                            return [mk.ref(val)]
                        return blank_line(sp, wrap, broken)
                    add_root("validate/%s/%s-line" % (nm, "blank" if broken else "full"), fn, init, chk_blank, broken=broken)
        if tr == "Clone" and fn.method == "clone":
            def init(sp, ip, st, stage=stage, name=name):
                return copy_alts(sp, ip, stage, name, False)
            add_root("clone/" + nm, fn, init, chk_clone)
        if tr == "PartialEq" and fn.method == "eq" and (len(fn.trargs) < 2 or fn.trargs[0] == fn.trargs[1]):
            def init(sp, ip, st, stage=stage, name=name):
                return copy_alts(sp, ip, stage, name, True)
            add_root("equal/" + nm, fn, init, chk_equal)
        if tr is not None:
            continue
        if name == "Document" and fn.method.startswith("push") and fn.inputs and len(fn.inputs) == 2:
            at = prog.types[fn.inputs[1]]
            an = sp.info.get(at[1]) if at[0] == "adt" else None
            rt = prog.types[fn.inputs[0]]
            sec = section(sp, stage, fn.method)
            if an is not None and an[0] == stage and an[1] in ("Chunk", "ChunkVariant") and rt[0] == "ref" and sec:
                def init(sp, ip, st, stage=stage, sec=sec, chunk=an[1] == "Chunk"):
                    return push_alts(sp, ip, stage, sec, chunk)
                add_root("push/%s::%s" % (nm, fn.method), fn, init, chk_push, checked="unchecked" not in fn.method)
        if fn.method in ("new", "new_unchecked") and len(fn.inputs or ()) == len(CTOR[cname(stage, name)]) if name in CTOR else False:
            def init(sp, ip, st, stage=stage, name=name):
                def wrap(mk, val):
                    if name == "Document" and stage == 3:
                        pass
                    mk.st.ghost["self"] = val
                    mk.st.ghost["vald"] = EMPTY
                    return [sp.field(val, r) for r in CTOR[cname(stage, name)]]
                return node_alts(sp, ip, stage, name, wrap)
            add_root("new/%s::%s" % (nm, fn.method), fn, init, chk_ctor, checked=fn.method == "new")
        base = fn.method
        for suf in ("_mut", "_owned"):
            if base.endswith(suf):
                base = base[:-len(suf)]
        role = GET.get(base)
        if sp.f.get(sn) and fn.inputs and len(fn.inputs) == 1 and (fn.method == "decompose" or role in sp.f[sn]):
            ref = prog.types[fn.inputs[0]][0] == "ref"

            def init(sp, ip, st, stage=stage, name=name, ref=ref):
                def wrap(mk, val):
                    mk.st.ghost["self"] = val
                    if ref:
                        r = mk.ref(val)
                        mk.st.ghost["ref"] = r
                        return [r]
                    return [val]
                return node_alts(sp, ip, stage, name, wrap)
            add_root("access/%s::%s" % (nm, fn.method), fn, init, chk_access, role=None if fn.method == "decompose" else role,
                     mut=fn.method.endswith("_mut"))
    return out


# ---- copies and comparisons --------------------------------------------------------------------------------
def changed(sp, mk, stage, x, fname):
    """another value than x of the same type; None if there is no telling"""
    if type(x) in (int, Lin):
        return add(x, 1)
    if type(x) is not tuple:
        return None
    if x[0] == "S":
        return ("S", x[1] + ("x",))
    if x[0] == "?":
        return ("?", "another %s" % (x[1],))
    if x[0] == "A" and x[1] in sp.p.adts and not x[3] and len(sp.p.adts[x[1]]["variants"]) > 1:
        return ("A", x[1], (x[2] + 1) % len(sp.p.adts[x[1]]["variants"]), ())
    if x[0] == "V":
        A = sp.adt
        t = ("S", ("x",))
        c = sp.make(A[(stage, "Chunk")], line=1, variant=("A", A[(stage, "ChunkVariant")], sp.vidx(A[(stage, "ChunkVariant")], "Text"), (t,)))
        if "arg" in fname:
            sv = A[(stage, "ScopeVariant")]
            c = ("T", (("S", ()), sp.make(A[(stage, "Scope")], chunks=("V", (("e", c),)), variant=("A", sv, 0, ()))))
        return ("V", x[1] + (("e", c),))
    return None


def copy_alts(sp, ip, stage, name, equal):
    out = []
    n = sp.adt[(stage, name)]
    vals = []

    def keep(mk, val):
        vals.append((mk.st, mk, val))
        return []
    if name == "ChunkVariant":
        for v in sp.p.adts[n]["variants"]:
            if (stage, v[0]) in sp.adt:
                component(sp, ip, stage, v[0], lambda mk, val, v=v: keep(mk, ("A", n, sp.vidx(n, v[0]), (val,))))
            else:
                st = State.new()
                mk = Mk(sp, ip, st)
                keep(mk, ("A", n, sp.vidx(n, v[0]), (mk.text(),)))
    else:
        node_alts(sp, ip, stage, name, keep)
    for st, mk, val in vals:
        if not equal:
            st.ghost["self"] = val
            st.ghost["copies"] = True
            out.append((st, [mk.ref(val)]))
            continue
        names = sp.p.adts[n]["variants"][val[2]][2]
        for i in [None] + list(range(len(val[3]))):
            s = st.copy()
            m2 = Mk(sp, ip, s)
            m2.nh = mk.nh
            other = val
            if i is not None:
                f = names[i][0] if type(names[i]) is tuple else str(names[i])
                y = changed(sp, m2, stage, val[3][i], f)
                if y is None:
                    continue
                other = val[:3] + (val[3][:i] + (y,) + val[3][i + 1:],)
                s.ghost["part"] = f
            s.ghost["copies"] = True
            out.append((s, [m2.ref(val), m2.ref(other)]))
    return out


def chk_clone(ctx, st, r):
    sp, ip = ctx.sp, ctx.ip
    v, r = ip.full(st, st.ghost["self"]), ip.full(st, r)
    if not (type(r) is tuple and r[0] == "A" and r[1] == v[1]):
        raise Unsupported("unknown copy")
    if r[2] != v[2]:
        yield Alarm("copy", "a copy is of another kind")
        return
    names = sp.p.adts[v[1]]["variants"][v[2]][2]
    for i, (x, y) in enumerate(zip(r[3], v[3])):
        f = names[i][0] if type(names[i]) is tuple else str(names[i])
        if differs(ctx, st, x, y):
            yield Alarm("copy", "%s of a copy is not that of the original" % f)


def chk_equal(ctx, st, r):
    r = ctx.ip.full(st, r) if type(r) is tuple else r
    if type(r) is not bool:
        raise Unsupported("undecided")
    f = st.ghost.get("part")
    if f is None and not r:
        yield Alarm("copy", "a value is not equal to itself")
    if f is not None and r:
        yield Alarm("copy", "values with another %s are equal" % f)


def component(sp, ip, stage, name, wrap):
    return node_alts(sp, ip, stage, name, wrap)


def c_validate(sp, ip, st, a):
    """validate of a part: valid or not, remembered"""
    v = ip.full(st, a)
    S = sp.flatten(ip, st, v)
    if S is None:
        raise Unsupported("validate of an unknown value")
    if not ip.bi.choose(st, ("valid", a)):
        st.ghost["verr"] = True
        return err(unk("invalid"))
    self_ = st.ghost.get("self")
    if self_ is not None and type(v) is tuple and v[0] == "A" and self_[0] == "A" and v[1] == self_[1]:
        st.ghost["whole"] = True
    d = st.ghost["vald"][1]
    new = S[1]
    if type(v) is tuple and v[0] == "A" and v[1] in sp.info and sp.info[v[1]][1] == "Scope" and len(d) > 0 and new \
            and d[-1][0] == "r" and type(new[0]) is not str and new[0][0] == "r" and st.ghost.get("lastscope"):
        i, j = st.tape.pos[d[-1][2]], st.tape.pos[new[0][1]]
        if i <= j and all(it[0] in "TLB" and not (AB.of(it[1]) if it[0] == "L" else it[1]) & ~AB.ws for it in st.tape.items[i:j]):
            new = (("r", d[-1][2], new[0][2]),) + tuple(new[1:])
    st.ghost["lastscope"] = type(v) is tuple and v[0] == "A" and v[1] in sp.info and sp.info[v[1]][1] == "Scope"
    st.ghost["vald"] = ("S", st.norm(d + new))
    return ok(UNIT)
