"""String escaping."""
import itertools
import os
import random
import re

from pyvc.harness import contract

SER = "pypsrp.serializer"
FUNCS = ["serializer.Serializer._serialize_string", "serializer.Serializer._deserialize_string"]
ENC = "serializer.Serializer._serialize_string"

ESC = re.compile("_x([0-9A-Fa-f]{4})_")
PEER = re.compile("(?i)_x([0-9A-F]{4})_")  # PowerShell takes _X too
BAD = re.compile("[\x00-\x1f\x7f-\x9f\ud800-\udfff]")


def subject(v):
    s = v.mod(SER).Serializer()
    return s


def via(s):
    """escape and unescape: through the public serialize / deserialize"""
    import xml.etree.ElementTree as ET
    from pypsrp.complex_objects import ObjectMeta

    def enc(t):
        return s.serialize(t, ObjectMeta("S")).text or ""

    def dec(t):
        e = ET.Element("S")
        e.text = t
        return s.deserialize(e, ObjectMeta("S"))

    return enc, dec


def units(t):
    return t.encode("utf-16-be", "surrogatepass")


def reference(t, escape=ESC):
    """every well-formed escape is one UTF-16 code unit, nothing else changes"""
    t = escape.sub(lambda m: chr(int(m.group(1), 16)), t)
    return t.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")


def judge(v, s, text):
    enc, dec = s
    out = enc(text)
    back = dec(out)
    if back != text:
        v.note("text %r escaped %r" % (text, out))
        v.check("unescaping gives back the string", False)
    if BAD.search(out):
        v.check("no control characters or surrogates in the escaped text", False)
    if reference(out, PEER) != text:
        v.check("no part of the string is taken for an escape", False)


@contract("C04", funcs=FUNCS, runs=1, thorough_runs=1, sym=False, conc=True, bounded="every code point alone and between the neighbours that matter; not a bound on single characters")
def every_code_point(v):
    """exhaustive over the code points"""
    s = via(subject(v))
    judge(v, s, "")
    # in one text for speed; a failing character is looked for one by one
    for a, b in (("", ""), ("_", ""), ("_x00", "41_")):
        for lo in range(0, 0x110000, 0x400):
            cs = [chr(c) for c in range(lo, lo + 0x400) if not 0xD800 <= c < 0xE000]
            text = "\u00e9".join(a + c + b for c in cs)
            out = s[0](text)
            if s[1](out) != text or BAD.search(out) or reference(out, PEER) != text:
                for c in cs:
                    judge(v, s, a + c + b)
                judge(v, s, text)
    for c in map(chr, list(range(0, 0xD800)) + list(range(0xE000, 0x10000)) + list(range(0x10000, 0x110000, 0x3ff))):
        judge(v, s, c)


ALPHA = ["_", "x", "X", "0", "5", "F", "d", "D", "8", "\n", "\x7f", "\u009f", "\u0142", "\U0001f600", "\U0010ffff", "\U00010000", "G", "A", " "]


@contract("C04", funcs=FUNCS, runs=1, thorough_runs=1, sym=False, bounded="all strings over 19 representative characters up to length 3, over 7 up to length 6")
def alphabet(v):
    s = via(subject(v))
    for n in range(0, 4):
        for t in itertools.product(ALPHA, repeat=n):
            judge(v, s, "".join(t))
    for n in range(4, 7):
        for t in itertools.product(["_", "x", "0", "F", "\n", "\U0001f600", "X"], repeat=n):
            judge(v, s, "".join(t))


@contract("C04", funcs=FUNCS, runs=300, sym=False, bounded="random strings")
def longer(v):
    """random strings built of the pieces that can interfere"""
    s = via(subject(v))
    n = v.int("pieces", 0, 40)
    pool = ["_", "x", "X", "_x", "_X", "_x005F_", "_x000A_", "_xD83D_", "_xDE00_", "_x005F", "005F_", "\n", "\r\n", "\U0001f600", "\x00", "é", "a", "_x00", "0a_", "_xd83d__xde00_", "ſ", "İ", "К", "\u2028", "\ufffd", "＿", "ｘ"]
    text = "".join(v.choice("piece", pool) for _ in range(n))
    judge(v, s, text)
    got = s[1](text)
    v.check("unescaping changes only well-formed escapes", got == reference(text))
    v.check("the empty element is the empty string", s[1](None) == "" and s[1]("") == "")


@contract("C04", funcs=FUNCS, runs=1, thorough_runs=1, sym=False, bounded="all texts over 7 characters up to length 7, and one escape with every 4-character body over 16 characters")
def decoder(v):
    """the decoder accepts any text"""
    s = via(subject(v))
    for n in range(0, 7):
        for t in itertools.product(["_", "x", "X", "0", "D", "8", "g"], repeat=n):
            t = "".join(t)
            if s[1](t) != reference(t):
                v.note("text %r" % t)
                v.check("unescaping changes only well-formed escapes", False)
    for body in itertools.product("09afAFdDgG_x8c\n\u0664", repeat=4):
        t = "_x%s_" % "".join(body)
        if s[1](t) != reference(t):
            v.note("text %r" % t)
            v.check("unescaping changes only well-formed escapes", False)


# ---- for every string, by induction on its length ---------------------------
def refold(v, got, chain, new):
    """the rest of a result: the same replacements applied to the rest of the
    argument, i.e. the function applied to that rest"""
    from pyvc import txt

    its = list(txt.items_of(got))
    if its and isinstance(its[-1], txt.Tail):
        v.internal(its[-1].chain == chain, "the rest is not treated like a whole string")
        its[-1] = new
    return txt.Txt(its) if its else ""


@contract("C04", funcs=FUNCS, runs=300, assumes=["the strings are encodable in UTF-16 (no unpaired surrogates), as the statement says"])
def step(v):
    """induction over the length: w = c + T (or, where an underscore is
    followed by x or X, c + d + T) with T any shorter string"""
    s = subject(v)
    two = v.choice("two", [False, True])
    c = v.int("c", 0, 0x10FFFF)
    v.assume(v.or_(c < 0xD800, c > 0xDFFF))
    d = v.int("d", 0, 0x10FFFF)
    v.assume(v.or_(d < 0xD800, d > 0xDFFF))
    xs = v.or_(d == 120, d == 88)
    v.assume(v.iff(two, v.and_(c == 95, xs)))
    if not v.symbolic:
        rest = v.str("rest", pool=["", "0041_", "_x0041_", "\n", "_", "\U0001f600", "x", "005F_"])
        enc, dec = via(s)
        text = chr(c) + chr(d) + rest
        judge(v, (enc, dec), text)
        judge(v, (enc, dec), chr(c))
        return
    import z3
    from pyvc import txt

    enc = v.need(s, "_serialize_string")
    dec = v.need(s, "_deserialize_string")
    # T: empty, or beginning with d; when two: anything
    E = v.E
    ne = z3.Bool(E.fresh_name("rest"))
    if two:
        f = z3.Int(E.fresh_name("first"))
        T = txt.Tail("T", (), None)
    else:
        f = d.e
        T = txt.Tail("T", (), (ne, f))
    w = txt.Txt([c.e, d.e, T] if two else [c.e, T])

    # what the functions do to a whole unknown string
    echain = txt.items_of(enc(txt.Txt([txt.Tail("T")])))[0].chain
    out = enc(w)
    # lemma (proved below for c): the escaped form of a string is empty only
    # for the empty string, and begins with its first character or with _
    g = z3.Int(E.fresh_name("head"))
    E.fact(z3.And(z3.Or(g == f, g == 95), g >= 0, g <= 0x10FFFF))
    folded = refold(v, out, echain, txt.Tail("enc(T)", (), None if two else (ne, g)))
    its = folded.items
    v.check("not empty", not isinstance(its[0], txt.Tail))
    if isinstance(its[0], txt.Tail):
        return
    h = txt._z(its[0])
    v.check("the escaped form begins with the first character or with _", txt.mkbool(z3.Or(h == c.e, h == 95)))
    for i in its:
        if isinstance(i, txt.Tail):
            continue
        i = txt._z(i)
        v.check("no control characters or surrogates in the escaped text", txt.mkbool(z3.And(i >= 0x20, z3.Or(i < 0x7F, i > 0x9F), z3.Or(i < 0xD800, i > 0xDFFF), i <= 0x10FFFF)))
    dchain = txt.items_of(dec(txt.Txt([txt.Tail("U")])))[0].chain
    back = dec(folded)
    # induction: the unescaped form of enc(T) is T
    back = refold(v, back, dchain, T)
    cb = lambda m: txt.mk([m.group(1).vint(16)] if isinstance(m.group(1), txt.Txt) else [int(m.group(1), 16)])

    def peer(t):
        t = txt.sub(PEER, cb, t)
        return t if isinstance(t, str) else t.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")

    pchain = txt.items_of(peer(txt.Txt([txt.Tail("U")])))[0].chain
    pback = refold(v, peer(folded), pchain, T)
    v.check("no part of the string is taken for an escape by PowerShell", pback == w)
    v.check("unescaping gives back the string", back == w)


@contract("C04", funcs=[FUNCS[1]], runs=200)
def unescape(v):
    """what unescaping does to the first characters of any text u: a
    well-formed escape becomes its code unit, anything else is kept; the rest
    is treated like a whole text (induction over the length)"""
    s = subject(v)
    n = v.choice("n", [7, 1, 2, 3, 4, 5, 6])
    cs = [v.int("c%d" % i, 0, 0x10FFFF) for i in range(n)]
    if not v.symbolic:
        text = "".join(map(chr, cs))
        v.check("unescaping changes only well-formed escapes", via(s)[1](text) == reference(text))
        return
    import z3
    from pyvc import txt

    dec = v.need(s, "_deserialize_string")

    def hexd(c):
        return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))

    def val(c):
        return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))

    e = [c.e for c in cs]
    # raw surrogates do not occur in a document
    v.assume(txt.mkbool(z3.Or(e[0] < 0xD800, e[0] > 0xDFFF)))
    tail = [txt.Tail("T")] if n == 7 else []
    dchain = txt.items_of(dec(txt.Txt([txt.Tail("T")])))[0].chain
    whole = n == 7 and v.truth(txt.mkbool(z3.And(e[0] == 95, e[1] == 120, *[hexd(c) for c in e[2:6]], e[6] == 95)))
    if whole:
        unit = val(e[2]) * 4096 + val(e[3]) * 256 + val(e[4]) * 16 + val(e[5])
        if v.truth(txt.mkbool(z3.And(unit >= 0xD800, unit < 0xE000))):
            return  # code units of a pair: `pairs`
        want = txt.Txt([unit, txt.Tail("T", dchain)])
    else:
        rest = e[1:] + tail
        sfx = txt.suffix(rest) if rest else None
        want = txt.mk([e[0]] + ([txt.Tail(sfx.name, dchain)] if rest else []))
    got = dec(txt.Txt(e + tail, stop=1))
    v.check("unescaping changes only well-formed escapes", got == want if not isinstance(got, str) else False)


@contract("C04", funcs=[FUNCS[1]], runs=50, conc=False)
def pairs(v):
    """two escaped code units of a surrogate pair become its character"""
    import z3
    from pyvc import txt

    s = subject(v)
    dec = v.need(s, "_deserialize_string")
    hi = v.int("hi", 0xD800, 0xDBFF)
    lo = v.int("lo", 0xDC00, 0xDFFF)

    def digits(u):
        out = []
        for k in (4096, 256, 16, 1):
            n = (u.e / k) % 16
            lower = z3.Bool(v.E.fresh_name("lower"))
            out.append(z3.If(n < 10, 48 + n, z3.If(lower, 87 + n, 55 + n)))
        return out

    u = [95, 120] + digits(hi) + [95, 95, 120] + digits(lo) + [95]
    dchain = txt.items_of(dec(txt.Txt([txt.Tail("T")])))[0].chain
    got = dec(txt.Txt(u + [txt.Tail("T")]))
    want = txt.Txt([0x10000 + (hi.e - 0xD800) * 0x400 + (lo.e - 0xDC00), txt.Tail("T", dchain)])
    v.check("the two halves are joined", got == want)
