"""Models of builtins and library functions on symbolic arguments.

Used only when an argument is symbolic; with concrete arguments the real
function runs.  Each model is an assumed contract on CPython or its standard
library and is listed in ASSUMED (reported in the evidence when used).
"""
import base64
import binascii
import builtins
import copy as _copy
import re as _re
import queue
import struct
import types
import typing
import uuid
import xml.etree.ElementTree as ET

import z3

from . import core, txt
from .core import Unsupported, eng
from .values import *
from .values import _z, KConst, KEnc, KBase, KFn, SBytesEq, SDeepEq, SSort, ISort, znorm, zadd, zsub, zi, zexpr

ASSUMED = {
    "struct": "struct.pack/unpack: fixed-width integer encodings and range errors as documented",
    "base64": "base64.b64decode(base64.b64encode(x)) == x and the length is 4*ceil(n/3)",
    "utf8": "bytes.decode('utf-8') inverts str.encode('utf-8')",
    "uuid": "uuid.UUID(bytes_le=u.bytes_le) == u, str(UUID(s)) parses back to the same UUID, upper/lower-case forms denote the same UUID",
    "dec": "int(str(n)) == n for every integer n",
    "fmt": "'%s'/'%d'/f-string formatting concatenates the decimal or string forms",
    "xml": "ElementTree.fromstring(ElementTree.tostring(e)) gives back e for trees whose text is XML-safe (an empty text becomes None)",
    "free": "splitting, replacing or searching a document: parts declared free of the marker take no part in a match",
    "scan": "re.sub replaces the leftmost non-overlapping matches, scanning left to right; parts of the text are scanned alike whatever stands before the last match",
    "text": "UTF-16 codecs, hexlify, chr, ord and int(text, 16) as documented",
    "float": "float arithmetic treated as real arithmetic",
}


def use(name):
    eng().contract_used["model:" + name] = ASSUMED[name]


# ---- bytes/str codecs ------------------------------------------------------
def bytes_decode(b, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("_", "-")
    if len(b.chunks) == 1 and isinstance(b.chunks[0], KBase) and b.chunks[0].tag:
        t = b.chunks[0].tag
        if t[0] == "b64" and enc in ("utf-8", "ascii", "utf8"):
            r = SStr(z3.Const(eng().fresh_name("!asc"), SSort), ("ascii", b))
            eng().fact((r.e == z3.Empty(SSort)) == (_z(b.zlen()) == 0))
            return r
        if t[0] == "enc" and t[2] == enc:
            use("utf8")
            return t[1]
        if t[0] == "xml" and enc in ("utf-8", "utf8"):
            return SStr(z3.Const(eng().fresh_name("!xmltext"), SSort), t)
    if enc in ("utf-8", "utf8", "ascii") and len(b.chunks) > 1 and all(_decodable(c, enc) for c in b.chunks):
        use("utf8")
        r = ""
        for c in b.chunks:
            r = r + (c.b.decode(enc) if isinstance(c, KConst) else int_str(c.tag[1]) if c.tag[0] == "dec" else c.tag[1])
        return r
    if enc in ("utf-8", "utf8") and hasattr(eng(), "decode_hook"):
        return eng().decode_hook(b, enc)
    f = _decfn(enc)
    key = bytes_key(b)
    if key is not None:
        use("utf8")
        return SStr(f(*key), ("dec8", b, enc))
    raise Unsupported("decode of a composite symbolic byte string")


def _decodable(c, enc):
    if isinstance(c, KConst):
        return all(x < 128 for x in c.b)
    return isinstance(c, KBase) and c.tag is not None and (c.tag[0] == "dec" or c.tag[0] == "enc" and c.tag[2] == enc)


_DECFNS = {}


def _decfn(enc):
    if enc not in _DECFNS:
        _DECFNS[enc] = z3.Function("decode_" + enc.replace("-", "_"), z3.ArraySort(ISort, ISort), ISort, ISort, SSort)
    return _DECFNS[enc]


def bytes_key(b):
    if len(b.chunks) == 1 and isinstance(b.chunks[0], KBase):
        c = b.chunks[0]
        return c.arr, _z(c.off), _z(c.n)
    return None


def str_encode(s, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("_", "-")
    if s.tag and s.tag[0] == "ascii" and enc in ("utf-8", "ascii", "utf8"):
        return s.tag[1]
    if s.tag and s.tag[0] == "xml":
        return xml_bytes(s.tag[1])
    if s.tag and s.tag[0] == "dec8" and s.tag[2] == enc:
        use("utf8")
        return s.tag[1]
    if enc in ("utf-8", "utf8", "ascii") and s.e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        # the encoding of a concatenation is that of its parts
        use("utf8")
        return SBytes([c for p in _concat_parts(s.e) for c in _encode_part(p, enc).chunks]).norm()
    # the encoding of an arbitrary string: unknown bytes, same for equal strings
    E = eng()
    F = z3.Function("encode_" + enc.replace("-", "_"), SSort, z3.ArraySort(ISort, ISort))
    FL = z3.Function("encodelen_" + enc.replace("-", "_"), SSort, ISort)
    n = FL(s.e)
    E.fact(n >= 0)
    E.fact(z3.Implies(z3.Length(s.e) > 0, n > 0))
    use("utf8")
    return SBytes([KBase(F(s.e), 0, n, ("enc", s, enc))])


def _concat_parts(e):
    if e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in e.children() for p in _concat_parts(c)]
    return [e]


def _encode_part(e, enc):
    if z3.is_string_value(e):
        t = e.as_string()
        if "\\u{" not in t:
            return SBytes.of(t.encode(enc))
    if e.decl().eq(DEC):
        b = SBytes.of(str_encode(SStr(e), enc))
        c = b.chunks[0]
        return SBytes([KBase(c.arr, 0, c.n, ("dec", mkint(e.arg(0))))])
    return SBytes.of(str_encode(SStr(e), enc))


def b64encode(b, *a):
    if a:
        raise Unsupported("b64encode altchars")
    b = SBytes.of(b)
    use("base64")
    E = eng()
    memo = E.b64_memo.get(id(b))
    if memo is not None:
        return memo[1]
    n = b.zlen()
    r = base_bytes("!b64")
    E.assume(_z(r.zlen()) == 4 * ((_z(n) + 2) / 3))
    c = r.chunks[0]
    out = SBytes([KBase(c.arr, 0, c.n, ("b64", b))])
    E.b64_memo[id(b)] = (b, out)
    return out


def b64decode(x, *a, **k):
    if isinstance(x, SStr) and x.tag and x.tag[0] == "ascii":
        x = x.tag[1]
    if isinstance(x, SBytes) and len(x.chunks) == 1 and isinstance(x.chunks[0], KBase) and x.chunks[0].tag and x.chunks[0].tag[0] == "b64":
        use("base64")
        return x.chunks[0].tag[1].norm()
    raise Unsupported("b64decode of an unknown value")


# ---- struct ----------------------------------------------------------------
_CODES = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True), "L": (4, False), "l": (4, True), "Q": (8, False), "q": (8, True)}


def _fmt(fmt):
    order = "<"
    if fmt and fmt[0] in "<>!=":
        order = ">" if fmt[0] in ">!" else "<"
        fmt = fmt[1:]
        explicit = True
    else:
        explicit = False
    out = []
    num = ""
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch == "s":
            out.append(("s", int(num or 1)))
        elif ch in _CODES:
            for _ in range(int(num or 1)):
                out.append((ch, _CODES[ch]))
        elif ch == " ":
            pass
        else:
            raise Unsupported("struct format %r" % ch)
        num = ""
    if not explicit and len(out) > 1 and len({c for c, _ in out}) > 1:
        raise Unsupported("native alignment in struct format")
    return order, out


def struct_pack(fmt, *vals):
    order, items = _fmt(fmt)
    use("struct")
    if len(items) != len(vals):
        raise struct.error("pack expected %d items" % len(items))
    E = eng()
    out = []
    for (code, spec), v in zip(items, vals):
        if code == "s":
            v = SBytes.of(v)
            if not E.must(_z(v.zlen()) == spec):
                raise Unsupported("pack s with unknown length")
            out.extend(v.chunks)
            continue
        n, signed = spec
        if not isinstance(v, (int, SInt, SBool)):
            raise struct.error("required argument is not an integer")
        if isinstance(v, int):
            out.append(KConst(struct.pack((order) + code, v)))
            continue
        e = zexpr(v)
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if not E.branch(z3.And(e >= lo, e <= hi)):
            raise struct.error("argument out of range")
        if signed:
            e = z3.If(e < 0, e + (1 << (8 * n)), e)
        out.append(KEnc(n, order, z3.simplify(e)))
    return SBytes(out).norm()


def read_int(b, order, n):
    """unsigned value of the n bytes of b"""
    b = SBytes.of(b)
    if len(b.chunks) == 1:
        c = b.chunks[0]
        if isinstance(c, KEnc) and c.n == n and c.order == order:
            return mkint(c.x)
        if isinstance(c, KEnc) and n == 1 and c.n == 1:
            return mkint(c.x)
        if isinstance(c, KConst) and len(c.b) == n:
            return int.from_bytes(c.b, "big" if order == ">" else "little")
    r = z3.IntVal(0)
    for i in range(n):
        p = n - 1 - i if order == ">" else i
        r = r + b.at(i) * (256**p)
    return mkint(r)


def struct_unpack(fmt, data):
    order, items = _fmt(fmt)
    use("struct")
    E = eng()
    data = SBytes.of(data)
    total = sum(s if c == "s" else s[0] for c, s in items)
    if not E.branch(_z(data.zlen()) == total):
        raise struct.error("unpack requires a buffer of %d bytes" % total)
    out = []
    pos = 0
    for code, spec in items:
        n = spec if code == "s" else spec[0]
        part = data.slice(pos, pos + n)
        pos += n
        if code == "s":
            out.append(part)
            continue
        v = read_int(part, order, n)
        if spec[1]:
            v = mkint(z3.If(zexpr(v) >= (1 << (8 * n - 1)), zexpr(v) - (1 << (8 * n)), zexpr(v)))
        out.append(v)
    return tuple(out)


# ---- uuid ------------------------------------------------------------------
USort = z3.DeclareSort("UUID")
U_LE = z3.Function("uuid_bytes_le", USort, z3.ArraySort(ISort, ISort))
U_BE = z3.Function("uuid_bytes", USort, z3.ArraySort(ISort, ISort))
U_STR = z3.Function("uuid_str", USort, SSort)


class SUUID(Sym):
    pytypes = (uuid.UUID,)
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = u

    @property
    def bytes_le(self):
        use("uuid")
        return SBytes([KBase(U_LE(self.u), 0, 16, ("uuid_le", self))])

    @property
    def bytes(self):
        use("uuid")
        return SBytes([KBase(U_BE(self.u), 0, 16, ("uuid_be", self))])

    @property
    def hex(self):
        raise Unsupported("uuid.hex")

    def __eq__(self, o):
        if isinstance(o, SUUID):
            return mkbool(self.u == o.u)
        if isinstance(o, uuid.UUID):
            raise Unsupported("symbolic uuid == concrete uuid")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def to_str(self):
        e = U_STR(self.u)
        eng().fact(z3.Length(e) == 36)
        return SStr(e, ("uuidstr", self))

    def concretize(self, m):
        v = m.eval(self.u, model_completion=True)
        n = abs(hash(str(v))) & ((1 << 120) - 1)
        return str(uuid.UUID(int=n))


def mk_uuid(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], SStr) and a[0].tag and a[0].tag[0] == "uuidstr":
        use("uuid")
        return a[0].tag[1]
    if not a and set(k) == {"bytes_le"} or set(k) == {"bytes"}:
        kind = "bytes_le" if "bytes_le" in k else "bytes"
        b = SBytes.of(k[kind])
        if not eng().branch(_z(b.zlen()) == 16):
            raise ValueError("%s is not a 16-char string" % kind)
        want = "uuid_le" if kind == "bytes_le" else "uuid_be"
        if len(b.chunks) == 1 and isinstance(b.chunks[0], KBase) and b.chunks[0].tag and b.chunks[0].tag[0] == want:
            use("uuid")
            return b.chunks[0].tag[1]
        if b.native() is not None:
            return uuid.UUID(**{kind: b.native()})
        # an arbitrary 16-byte value
        u = z3.Const(eng().fresh_name("!uuid"), USort)
        arr = (U_LE if kind == "bytes_le" else U_BE)(u)
        eng().assume(z3.And(*[z3.Select(arr, i) == b.at(i) for i in range(16)]))
        return SUUID(u)
    raise Unsupported("uuid.UUID on symbolic arguments")


# ---- ElementTree -------------------------------------------------------------
def xml_sym(e):
    return any(isinstance(i.text, Sym) or isinstance(i.tail, Sym) or any(isinstance(a, Sym) for a in i.attrib.values()) for i in e.iter())


def xml_copy(e, parse=False):
    n = ET.Element(e.tag, dict(e.attrib))
    n.text, n.tail = e.text, e.tail
    if parse:
        for k in ("text", "tail"):
            t = getattr(n, k)
            if isinstance(t, SStr):
                if not eng().branch(z3.Length(t.e) > 0):
                    setattr(n, k, None)
            elif t == "":
                setattr(n, k, None)
    for c in e:
        n.append(xml_copy(c, parse))
    return n


def xml_bytes(tree):
    n = z3.Int(eng().fresh_name("!xmllen"))
    eng().assume(n > 0)
    arr = z3.Const(eng().fresh_name("!xml"), z3.ArraySort(ISort, ISort))
    return SBytes([KBase(arr, 0, n, ("xml", tree))])


def digits(x):
    """length of the decimal text of x"""
    x = _z(zi(x))
    r = z3.IntVal(20)
    for k in range(19, 0, -1):
        r = z3.If(x < 10**k, z3.IntVal(k), r)
    return z3.If(x < 0, z3.Int("!neg"), r)


def xml_len(tree, encoding):
    """the length of the document, when its symbolic texts are decimals or
    base64 (no character of which is escaped); otherwise None"""
    extra = []

    def known(t):
        if not isinstance(t, Sym):
            return t
        if isinstance(t, SStr) and t.tag and t.tag[0] == "dec":
            extra.append(digits(t.tag[1]))
            return "0"
        if isinstance(t, SStr) and t.tag and t.tag[0] == "ascii":
            n = _z(t.tag[1].zlen())
            if not eng().branch(n > 0):
                return ""
            extra.append(n)
            return "0"
        raise KeyError

    def walk(e):
        n = ET.Element(e.tag, {k: known(a) for k, a in e.attrib.items()})
        n.text, n.tail = known(e.text), known(e.tail)
        for c in e:
            n.append(walk(c))
        return n

    try:
        t = walk(tree)
    except KeyError:
        return None
    return len(ET.tostring(t, encoding)) + z3.Sum([x - 1 for x in extra])


def et_tostring(element, encoding="us-ascii", method="xml", **k):
    if not isinstance(element, ET.Element) or not xml_sym(element):
        return ET.tostring(element, encoding, method, **k)
    use("xml")
    b = xml_bytes(xml_copy(element))
    if encoding != "unicode" and method == "xml" and not k:
        n = xml_len(element, encoding)
        if n is not None:
            eng().assume(_z(b.zlen()) == n)
    return SStr(z3.Const(eng().fresh_name("!xmltext"), SSort), b.chunks[0].tag) if encoding == "unicode" else b


def et_fromstring(text, parser=None):
    t = text.tag if isinstance(text, SStr) else (text.chunks[0].tag if isinstance(text, SBytes) and len(text.chunks) == 1 and isinstance(text.chunks[0], KBase) else None)
    if not isinstance(text, Sym):
        return ET.fromstring(text) if parser is None else ET.fromstring(text, parser)
    if t and t[0] == "xml":
        use("xml")
        return xml_copy(t[1], parse=True)
    raise Unsupported("ElementTree.fromstring of an arbitrary text")


# ---- builtins --------------------------------------------------------------
def m_len(x):
    if hasattr(x, "vlen"):
        return x.vlen()
    if isinstance(x, (list, tuple, dict, str, bytes, set)):
        return len(x)
    if isinstance(x, Sym):
        if isinstance(x, (SInt, SBool)):
            raise TypeError("object of type 'int' has no len()")
        raise Unsupported("len of %r" % type(x))
    return len(x)


def m_isinstance(x, t):
    if isinstance(x, Poison):
        raise Unsupported("read of an unconstrained local")
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for i in ts:
            flat.extend(i if isinstance(i, tuple) else (i,))
        if isinstance(x, Opaque) and x.attrs.get("__pytypes__") is None:
            if flat == [object]:
                return True
        pts = x.attrs.get("__pytypes__", (Opaque,)) if isinstance(x, Opaque) else x.pytypes
        return any(issubclass(p, i) for p in pts for i in flat if isinstance(i, type))
    if type(x).__name__ == "GenThunk" and t is types.GeneratorType:
        return True
    return isinstance(x, t)


def m_type(x):
    if isinstance(x, Sym):
        if isinstance(x, Opaque):
            return x.attrs.get("__pytypes__", (Opaque,))[0]
        return x.pytypes[0]
    return type(x)


def m_str(x="", *a):
    if a:
        return m_decode(x, *a)
    if isinstance(x, (SStr, txt.Txt)):
        return x
    if isinstance(x, SBool):
        return "True" if x else "False"
    if isinstance(x, SInt):
        use("dec")
        return int_str(x)
    if isinstance(x, SUUID):
        return x.to_str()
    if isinstance(x, Opaque):
        F = z3.Function("str_of", AnySort, SSort)
        return SStr(F(x.e))
    raise Unsupported("str() of %s" % type(x).__name__)


def m_decode(x, *a):
    return x.decode(*a)


def m_int(x=0, *a):
    if isinstance(x, txt.Txt):
        use("text")
        return x.vint(*a) if a else x.vint(10)
    if a:
        raise Unsupported("int(x, base)")
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mkint(zexpr(x))
    if isinstance(x, SReal):
        return x.toint()
    if isinstance(x, SStr):
        if x.tag and x.tag[0] == "dec":
            use("dec")
            return x.tag[1]
        raise Unsupported("int() of an arbitrary string")
    if isinstance(x, SBytes) and len(x.chunks) == 1 and isinstance(x.chunks[0], KBase) and x.chunks[0].tag and x.chunks[0].tag[0] == "dec":
        use("dec")
        return x.chunks[0].tag[1]
    if isinstance(x, Opaque) and "__int__" in x.attrs:
        return x.attrs["__int__"]
    raise Unsupported("int() of %s" % type(x).__name__)


def m_float(x=0.0):
    if isinstance(x, SReal):
        return x
    if isinstance(x, SInt):
        use("float")
        return SReal(z3.ToReal(x.e))
    raise Unsupported("float()")


def m_bool(x=False):
    return bool(x)


def m_range(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    E = eng()
    if E.branch(_z(zi(st)) == 0):
        raise ValueError("range() arg 3 must not be zero")
    if not E.branch(_z(zi(st)) > 0):
        raise Unsupported("range with a negative step")
    return SRange(lo, hi, st)


def m_enumerate(x, start=0):
    if isinstance(x, SList):
        out = []
        pos = start
        for s in x.segs:
            out.append(Seg(s.count, (lambda i, p=pos, f=s.fn: (mkint(_z(zadd(zi(p), i))), f(i)))))
            pos = mkint(_z(zadd(zi(pos), s.count)))
        return SList(out)
    if isinstance(x, (list, tuple)):
        return list(enumerate(x, start))
    if type(x).__name__ == "GenThunk":
        s = x.summarise() if eng().unroll is None else None
        return m_enumerate(s, start) if s is not None else enumerate(x, start)
    raise Unsupported("enumerate")


def m_min(*a, **k):
    if k or len(a) < 2:
        raise Unsupported("min")
    r = a[0]
    for b in a[1:]:
        r = r if bool(r <= b) else b
    return r


def m_max(*a, **k):
    if k or len(a) < 2:
        raise Unsupported("max")
    r = a[0]
    for b in a[1:]:
        r = r if bool(r >= b) else b
    return r


def m_list(x=()):
    if isinstance(x, SList):
        return SList(x.segs)
    return list(x)


def m_tuple(x=()):
    if isinstance(x, SList):
        return x if x.concrete_len() is None else tuple(x)
    return tuple(x)


def m_filter(f, it):
    if f is None and isinstance(it, SList) and it.concrete_len() is None:
        out = SList([], list)
        for s in it.segs:
            n = znorm(_z(s.count))
            if isinstance(n, int) and n == 1:
                x = s.fn(0)
                if x:
                    out.segs.append(Seg(1, lambda i, x=x: x))
                continue
            i = z3.Int(eng().fresh_name("!f"))
            for fn in s.cases or [s.fn]:
                x = fn(i)
                if not (isinstance(x, bytes) and x or isinstance(x, SBytes) and eng().must(z3.Implies(z3.And(i >= 0, i < _z(n)), _z(x.zlen()) > 0))):
                    raise Unsupported("filter of a symbolic list")
            out.segs.append(s)
        return out
    if f is None:
        return [x for x in it if x]
    return [x for x in it if f(x)]


def m_bytes(x=b"", *a):
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SStr):
        return x.encode(*a)
    raise Unsupported("bytes()")


def m_iter(x, *a):
    if isinstance(x, SList) and not a and eng().unroll is None:
        return x
    return iter(x, *a)


def m_next(x, *a):
    if isinstance(x, SList):
        raise Unsupported("next() over a list of symbolic length")
    return next(x, *a)


def m_abs(x):
    return abs(x)


def m_sum(x, start=0):
    r = start
    for i in x:
        r = r + i
    return r


def m_divmod(a, b):
    return a // b, a % b


def m_repr(x):
    raise Unsupported("repr of a symbolic value")


def m_any(x):
    for i in x:
        if i:
            return True
    return False


def m_all(x):
    for i in x:
        if not i:
            return False
    return True


def m_sleep(x):
    return None


BY_ID = {
    id(len): m_len,
    id(isinstance): m_isinstance,
    id(type): m_type,
    id(str): m_str,
    id(int): m_int,
    id(float): m_float,
    id(bool): m_bool,
    id(range): m_range,
    id(enumerate): m_enumerate,
    id(min): m_min,
    id(max): m_max,
    id(list): m_list,
    id(tuple): m_tuple,
    id(filter): m_filter,
    id(bytes): m_bytes,
    id(iter): m_iter,
    id(next): m_next,
    id(abs): m_abs,
    id(sum): m_sum,
    id(divmod): m_divmod,
    id(repr): m_repr,
    id(any): m_any,
    id(all): m_all,
    id(struct.pack): struct_pack,
    id(struct.unpack): struct_unpack,
    id(base64.b64encode): b64encode,
    id(base64.b64decode): b64decode,
    id(uuid.UUID): mk_uuid,
    id(ET.tostring): et_tostring,
    id(ET.fromstring): et_fromstring,
}
ALWAYS = {id(ET.tostring): et_tostring}

# native callables that may receive symbolic values untouched: they only store
# or forward them
PASS = {
    id(f)
    for f in (
        typing.cast,
        next,
        hasattr,
        getattr,
        setattr,
        print,
        callable,
        queue.Queue.put,
        ET.SubElement,
        ET.Element,
        _copy.copy,
        zip,
        map,
        dict,
        reversed,
        iter,
        list,
        id,
        set,
    )
}
try:  # containers of requests: they only store what they are given
    import collections.abc as _abc

    import requests as _rq

    PASS |= {id(f) for f in (_rq.Request, _rq.packages.urllib3.util.retry.Retry, _rq.models.Request, _rq.auth.HTTPBasicAuth, _rq.structures.CaseInsensitiveDict, _rq.structures.CaseInsensitiveDict.__init__, _abc.MutableMapping.update, _abc.MutableMapping.setdefault)}
except ImportError:
    pass
PASS_METHODS = {
    list: {"append", "extend", "insert", "pop", "copy", "clear", "reverse", "__iter__"},
    dict: {"items", "values", "keys", "update", "copy", "clear", "setdefault", "get", "pop"},
    ET.Element: {"append", "set", "get", "find", "findall", "insert", "remove", "iter", "findtext"},
}
WRITE_METHODS = {"append", "extend", "insert", "pop", "clear", "reverse", "update", "setdefault", "set", "add", "remove", "popitem", "sort"}


def str_join(sep, it):
    if isinstance(it, SList) and it.concrete_len() is None and core.ENG.unroll is None:
        return SJoin(sep, it)
    parts = list(it)
    if not deep_sym(parts):
        return sep.join(parts)
    use("fmt")
    r = None
    for p in parts:
        if not isinstance(p, (str, SStr, txt.Txt)):
            raise TypeError("sequence item: expected str instance, %s found" % m_type(p).__name__)
        if r is None:
            r = p
        else:
            r = r + (sep + p if sep else p)
    return "" if r is None else r


def bytes_join(sep, it):
    if isinstance(it, SList) and it.concrete_len() is None and core.ENG.unroll is None:
        return SJoin(sep, it)
    r = b""
    first = True
    for p in it:
        if not first and sep:
            r = r + sep
        first = False
        r = r + p
    return r


def str_mod(fmt, args):
    """'...' % args with %s and %d only"""
    if isinstance(fmt, SStr):
        raise Unsupported("symbolic format string")
    if isinstance(fmt, bytes):
        raise Unsupported("bytes formatting")
    import re

    use("fmt")
    argv = args if isinstance(args, tuple) else (args,)
    out = []
    pos = 0
    k = 0
    for m in re.finditer(r"%(.)", fmt, re.S):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        c = m.group(1)
        if c == "%":
            out.append("%")
            continue
        if c not in "sdr":
            raise Unsupported("format %" + c)
        if k >= len(argv):
            raise TypeError("not enough arguments for format string")
        a = argv[k]
        k += 1
        if isinstance(a, Sym):
            if c == "d":
                if isinstance(a, (SStr, SBytes, SList)):
                    raise TypeError("%d format: a real number is required")
                a = m_int(a) if not isinstance(a, SReal) else a.toint()
            out.append(m_str(a) if not isinstance(a, (int, str)) else str(a))
        else:
            if deep_sym(a):
                out.append(SStr(z3.Const(eng().fresh_name("!fmt"), SSort)))
            else:
                out.append(("%" + c) % (a,))
    out.append(fmt[pos:])
    if k != len(argv):
        raise TypeError("not all arguments converted during string formatting")
    r = ""
    for p in out:
        r = r + p if not (isinstance(r, str) and r == "") else p
    return r


def str_format(fmt, *a, **k):
    raise Unsupported("str.format with symbolic arguments")


def fstr(parts):
    use("fmt")
    r = ""
    for p in parts:
        r = p if (isinstance(r, str) and r == "") else r + p
    return r


def dict_lookup(d, k):
    """find the entry of a native dict for a symbolic key: forks over the keys"""
    for key in list(d):
        if type(key) is tuple:
            continue
        r = k == key if isinstance(k, Sym) else key == k
        if r if isinstance(r, bool) else bool(r):
            return True, key
    return False, None


def regex_split(pat, data, maxsplit=0):
    """a document of literal text and of parts that are assumed not to take
    part in a match (decimal numbers, parts marked free by the contract)"""
    if maxsplit or pat.groups or not isinstance(data, (SBytes, SDocument)):
        raise Unsupported("re split")
    use("free")
    return data.pieces(lambda t: pat.split(t))


def regex_sub(pattern, repl, data, *a, **k):
    import re

    if isinstance(data, txt.Txt):
        use("scan")
        return txt.sub(pattern, repl, data, *a, **k)
    if a or k or not isinstance(data, SBytes) or isinstance(repl, Sym) or isinstance(pattern, Sym):
        raise Unsupported("re.sub")
    use("free")
    src = pattern.pattern if isinstance(pattern, re.Pattern) else pattern
    if not isinstance(src, bytes) or not src.endswith(b"$") or b"\\" in repl:
        raise Unsupported("re.sub")
    last = data.chunks[-1]
    if not isinstance(last, KConst):
        data.check_free(last)
        return data
    return SBytes(data.chunks[:-1] + [KConst(re.sub(pattern, repl, last.b))]).norm()


def m_chr(x):
    use("text")
    if not eng().must(z3.And(zexpr(x) >= 0, zexpr(x) < txt.MAXCP)):
        raise Unsupported("chr() of an arbitrary number")
    return txt.mk([zexpr(x)])


def m_ord(x):
    if isinstance(x, txt.Txt):
        return x.vord()
    raise Unsupported("ord() of an unknown character")


def m_hexlify(x):
    if isinstance(x, txt.TBytes):
        use("text")
        return x.hexlify()
    raise Unsupported("hexlify of unknown bytes")


BY_ID[id(_re.sub)] = regex_sub
BY_ID[id(chr)] = m_chr
BY_ID[id(ord)] = m_ord
BY_ID[id(binascii.hexlify)] = m_hexlify


def native_method(f, args, kwargs):
    """call of a builtin method with symbolic argument(s)"""
    o = f.__self__
    name = f.__name__
    if isinstance(o, Sym):
        return f(*args, **kwargs)
    if type(o).__name__ == "Pattern":
        if name == "split":
            return regex_split(o, *args, **kwargs)
        if name == "sub":
            return regex_sub(o, *args, **kwargs)
        raise Unsupported("Pattern." + name)
    if type(o) is str:
        if name == "join":
            return str_join(o, args[0])
        if name == "format":
            return str_format(o, *args, **kwargs)
        if name in ("startswith", "endswith", "replace", "split", "find"):
            raise Unsupported("str.%s with a symbolic argument" % name)
    if type(o) is bytes and name == "join":
        return bytes_join(o, args[0])
    if isinstance(o, dict) and args and isinstance(args[0], Sym):
        if name == "get":
            ok, key = dict_lookup(o, args[0])
            return o[key] if ok else (args[1] if len(args) > 1 else None)
        if name == "pop":
            ok, key = dict_lookup(o, args[0])
            if ok:
                return o.pop(key)
            if len(args) > 1:
                return args[1]
            raise KeyError(args[0])
        raise Unsupported("dict.%s with a symbolic key" % name)
    for t, names in PASS_METHODS.items():
        if isinstance(o, t) and name in names:
            if name == "extend" and isinstance(args[0], SList) and args[0].concrete_len() is None:
                raise Unsupported("extend a native list by a list of symbolic length")
            return f(*args, **kwargs)
    if type(o) is set and name == "add":
        raise Unsupported("symbolic set element")
    raise Unsupported("%s.%s with symbolic arguments" % (type(o).__name__, name))
