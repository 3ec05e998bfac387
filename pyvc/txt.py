"""Symbolic text: explicit code points followed by an unknown rest.

Txt   a str whose items are code points (int or z3 Int term) and, as last item,
      possibly a Tail
Tail  an arbitrary unknown string, or the result of applying a chain of
      replacements to one; its head (is it empty, its first code point) may be
      known to the contract
TBytes  the UTF-16 form of a Txt

re.sub is modelled by its documented left-to-right scan: at each position the
pattern either matches there (the match is replaced, scanning goes on behind
it) or the character is copied.  The sets of characters each atom of a pattern
accepts are computed by running the real re engine over all code points.
"""
import functools
import re
import re._constants as C
import re._parser as P

import z3

from .core import Unsupported, eng
from .values import SInt, SStr, Sym, _z, mkbool, mkint, zexpr

MAXCP = 0x110000
ALL = None


def code(x):
    """code point term of an item"""
    return x.e if isinstance(x, SInt) else x


def simp(e):
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    return s.as_long() if z3.is_int_value(s) else s


class Tail:
    def __init__(self, name, chain=(), head=None):
        self.name, self.chain, self._head = name, chain, head

    def apply(self, op):
        return Tail(self.name, self.chain + (op,))

    def head(self):
        """(nonempty: z3 Bool, first: z3 Int), when the contract knows it"""
        return self._head

    def same(self, o):
        return isinstance(o, Tail) and self.name == o.name and self.chain == o.chain

    def __repr__(self):
        return "Tail(%s%s)" % (self.name, "".join("|%s" % (o[0],) for o in self.chain))


def mk(items):
    items = [simp(code(i)) if not isinstance(i, Tail) else i for i in items]
    if all(isinstance(i, int) for i in items):
        return "".join(map(chr, items))
    return Txt(items)


def items_of(x):
    if isinstance(x, Txt):
        return x.items
    if isinstance(x, str):
        return [ord(c) for c in x]
    raise Unsupported("text mixed with %s" % type(x).__name__)


class Txt(Sym):
    pytypes = (str,)
    __slots__ = ("items", "stop")

    def __init__(self, items, stop=None):
        self.items = list(items)
        # the text from this position on is to be treated as an unknown rest
        # (scanning a text from there is scanning the rest as a whole)
        self.stop = stop

    @property
    def tail(self):
        return self.items[-1] if self.items and isinstance(self.items[-1], Tail) else None

    def chars(self):
        return [i for i in self.items if not isinstance(i, Tail)]

    def fixed(self, what):
        if self.tail is not None:
            raise Unsupported("%s of a text of unknown length" % what)
        return self.items

    def vlen(self):
        return len(self.fixed("length"))

    def __bool__(self):
        if self.chars():
            return True
        h = self.tail.head()
        if h is None:
            raise Unsupported("is an unknown text empty?")
        return eng().branch(h[0])

    def __getitem__(self, k):
        if isinstance(k, slice):
            for b in (k.start, k.stop, k.step):
                if b is not None and type(b) is not int:
                    raise Unsupported("symbolic slice of text")
            return mk(self.fixed("slice")[k])
        if type(k) is not int:
            raise Unsupported("symbolic index of text")
        if k >= 0 and k < len(self.chars()):
            return mk([self.items[k]])
        return mk([self.fixed("index")[k]])

    def __iter__(self):
        return iter([mk([i]) for i in self.fixed("iteration")])

    def __add__(self, o):
        if isinstance(o, (str, Txt)):
            return cat([self, o])
        if isinstance(o, SStr):
            raise Unsupported("text plus string term")
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, Txt)):
            return cat([o, self])
        return NotImplemented

    def __eq__(self, o):
        if not isinstance(o, (str, Txt)):
            return False
        a, b = self.items, items_of(o)
        if len(a) != len(b):
            if isinstance(self.tail, Tail) or isinstance(o, Txt) and o.tail is not None:
                raise Unsupported("compare texts of unknown length")
            return False
        cs = []
        for x, y in zip(a, b):
            if isinstance(x, Tail) or isinstance(y, Tail):
                if isinstance(x, Tail) and x.same(y):
                    continue
                raise Unsupported("compare unknown texts")
            cs.append(_z(x) == _z(y))
        return mkbool(z3.And(*cs)) if cs else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc not in ("utf-16-be", "utf-16-le"):
            raise Unsupported("encode text to " + enc)
        if errors not in ("strict", "surrogatepass"):
            raise Unsupported("encode errors=" + errors)
        E = eng()
        out = []
        for i in self.items:
            if isinstance(i, Tail):
                out.append(i.apply(("encode", enc, errors)))
                continue
            if truth(_z(i) < 0x10000):
                if errors == "strict" and truth(surrogate(i)):
                    raise UnicodeEncodeError("utf-16", "\ud800", 0, 1, "surrogates not allowed")
                us = [i]
            else:
                us = [0xD800 + (_z(i) - 0x10000) / 0x400, 0xDC00 + (_z(i) - 0x10000) % 0x400]
            for u in us:
                u = simp(u)
                pair = [Byte(u, 1), Byte(u, 0)]
                out.extend(pair if enc == "utf-16-be" else pair[::-1])
        return TBytes(out, enc, errors)

    def upper(self):
        return self.ascii_case(97, 122, -32)

    def lower(self):
        return self.ascii_case(65, 90, 32)

    def ascii_case(self, lo, hi, d):
        out = []
        for i in self.fixed("case"):
            if not eng().must(_z(i) < 128):
                raise Unsupported("case of non-ASCII text")
            out.append(z3.If(z3.And(_z(i) >= lo, _z(i) <= hi), _z(i) + d, _z(i)))
        return mk(out)

    def replace(self, old, new, count=-1):
        if not isinstance(old, str) or not isinstance(new, str) or count != -1 or not old:
            raise Unsupported("str.replace")
        return sub(re.escape(old), new.replace("\\", "\\\\"), self)

    def vint(self, base):
        if base not in (16, 10):
            raise Unsupported("int(text, %r)" % base)
        v = 0
        for i in self.fixed("int()"):
            c = _z(i)
            dig = z3.And(c >= 48, c <= 57)
            ok = z3.Or(dig, z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102)) if base == 16 else dig
            if not truth(ok):
                raise Unsupported("int() of a text that may hold other characters")
            v = base * v + z3.If(dig, c - 48, z3.If(c <= 70, c - 55, c - 87))
        return mkint(_z(v))

    def vord(self):
        if len(self.fixed("ord()")) != 1:
            raise TypeError("ord() expected a character")
        return mkint(self.items[0])

    def join(self, it):
        raise Unsupported("symbolic separator")

    def __str__(self):
        raise Unsupported("str(Txt) outside a model")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("str.%s on a symbolic text" % name)

    def __repr__(self):
        return "Txt(%s)" % self.items

    def concretize(self, m):
        out = []
        for i in self.items:
            if isinstance(i, int):
                out.append(chr(i))
            elif isinstance(i, Tail):
                h = i.head()
                if h is not None and z3.is_true(m.eval(h[0], model_completion=True)):
                    out.append(chr(max(0, min(MAXCP - 1, m.eval(h[1], model_completion=True).as_long()))))
            else:
                out.append(chr(max(0, min(MAXCP - 1, m.eval(i, model_completion=True).as_long()))))
        return "".join(out)


KEEP = []


def suffix(items, name="rest"):
    """the text of these items as a Tail: known by its items"""
    if len(items) == 1 and isinstance(items[0], Tail):
        return items[0]
    key = []
    for i in items:
        if isinstance(i, Tail):
            key.append((i.name, i.chain))
        elif isinstance(i, int):
            key.append(i)
        else:
            KEEP.append(i)
            key.append(("z3", i.get_id()))
    return Tail((name, tuple(key)))


def truth(e):
    r = mkbool(e)
    return r if isinstance(r, bool) else bool(r)


def surrogate(i):
    return z3.And(_z(i) >= 0xD800, _z(i) < 0xE000)


def cat(parts):
    items = []
    for p in parts:
        if items and isinstance(items[-1], Tail):
            if items_of(p):
                raise Unsupported("text behind an unknown rest")
            continue
        items.extend(items_of(p))
    return mk(items)


class Byte:
    """one byte of a UTF-16 code unit"""

    __slots__ = ("unit", "high")

    def __init__(self, unit, high):
        self.unit, self.high = unit, high

    def value(self):
        return simp(_z(self.unit) / 256 if self.high else _z(self.unit) % 256)


class TBytes(Sym):
    pytypes = (bytes,)
    __slots__ = ("items", "enc", "errors")

    def __init__(self, items, enc, errors):
        self.items, self.enc, self.errors = items, enc, errors

    def vlen(self):
        if any(isinstance(i, Tail) for i in self.items):
            raise Unsupported("length of bytes of unknown length")
        return len(self.items)

    def hexlify(self):
        out = []
        for b in self.items:
            if isinstance(b, Tail):
                raise Unsupported("hexlify of bytes of unknown length")
            x = _z(b.value())
            for n in (x / 16, x % 16):
                out.append(z3.If(n < 10, 48 + n, 87 + n))
        return THex(out)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc != self.enc or errors not in ("strict", "surrogatepass"):
            raise Unsupported("decode from another encoding")
        out = []
        k = 0
        its = self.items
        hi = 1 if enc == "utf-16-be" else 0

        def unit(k):
            if k < len(its) and isinstance(its[k], Tail):
                return its[k]
            if k + 1 >= len(its):
                return None
            a, b = its[k], its[k + 1]
            if isinstance(b, Tail) or a.unit is not b.unit or (a.high, b.high) != (hi, 1 - hi):
                raise Unsupported("decode of rearranged bytes")
            return a.unit

        while k < len(its):
            u = unit(k)
            if isinstance(u, Tail):
                out.append(u.apply(("decode", enc, errors)))
                break
            k += 2
            if truth(z3.And(_z(u) >= 0xD800, _z(u) < 0xDC00)):
                n = unit(k)
                if isinstance(n, Tail):
                    raise Unsupported("high surrogate before an unknown rest")
                if n is not None and truth(z3.And(_z(n) >= 0xDC00, _z(n) < 0xE000)):
                    out.append(0x10000 + (_z(u) - 0xD800) * 0x400 + (_z(n) - 0xDC00))
                    k += 2
                    continue
            if errors == "strict" and truth(surrogate(u)):
                raise UnicodeDecodeError("utf-16", b"", 0, 1, "illegal encoding")
            out.append(u)
        return mk(out)

    __hash__ = Sym.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("bytes.%s on a symbolic text" % name)


class THex(Sym):
    """ASCII bytes"""

    pytypes = (bytes,)
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def vlen(self):
        return len(self.items)

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower() not in ("utf-8", "ascii", "utf8", "latin-1"):
            raise Unsupported("decode hex from " + encoding)
        return mk(self.items)

    def upper(self):
        return THex(items_of(Txt(self.items).upper()))

    __hash__ = Sym.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("bytes.%s on a symbolic text" % name)


# ---- patterns -------------------------------------------------------------
def _unparse(op, av):
    if op is C.LITERAL:
        return re.escape(chr(av))
    if op is C.NOT_LITERAL:
        return "[^%s]" % re.escape(chr(av))
    if op is C.ANY:
        return "."
    if op is C.RANGE:
        return "%s-%s" % (re.escape(chr(av[0])), re.escape(chr(av[1])))
    if op is C.CATEGORY:
        return {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[av]
    if op is C.NEGATE:
        return "^"
    if op is C.IN:
        return "[%s]" % "".join(_unparse(o, a) for o, a in av)
    raise Unsupported("pattern " + str(op))


@functools.lru_cache(None)
def accepted(src, flags):
    """intervals of the code points an atom accepts, by running it on all"""
    global ALL
    if ALL is None:
        ALL = "".join(map(chr, range(MAXCP)))
    rx = re.compile("(?:%s)+" % src, flags & ~re.DEBUG)
    return [(m.start(), m.end() - 1) for m in rx.finditer(ALL)]


def inset(ivs, c):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in ivs)
    return truth(z3.Or(*[z3.And(c >= a, c <= b) if a != b else c == a for a, b in ivs])) if ivs else False


def compile_pattern(pattern, flags=0):
    """[(kind, payload)]: ("atom", intervals) | ("open"/"close", group) |
    ("look", negated, seq)"""
    if isinstance(pattern, re.Pattern):
        src, flags = pattern.pattern, pattern.flags
    else:
        src = pattern
        flags = re.compile(src, flags).flags
    if not isinstance(src, str):
        raise Unsupported("bytes pattern on text")
    tree = P.parse(src, flags & ~re.DEBUG)
    flags = tree.state.flags
    if flags & (re.MULTILINE | re.LOCALE):
        raise Unsupported("pattern flags")

    def seq(t):
        out = []
        for op, av in t:
            if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                out.append(("atom", accepted(_unparse(op, av), int(flags))))
            elif op is C.SUBPATTERN:
                g, add, rem, body = av
                if add or rem:
                    raise Unsupported("pattern with local flags")
                out.append(("open", g))
                out.extend(seq(body))
                out.append(("close", g))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] == av[1]:
                for _ in range(int(av[0])):
                    out.extend(seq(av[2]))
            elif op in (C.ASSERT, C.ASSERT_NOT) and av[0] == 1:
                out.append(("look", op is C.ASSERT_NOT, seq(av[1])))
            else:
                raise Unsupported("pattern " + str(op))
        return out

    return (src, int(flags)), seq(tree)


def _looks_back(src):
    return "(?<" in src or "^" in src.replace("[^", "") or "\\b" in src or "\\A" in src


class Match:
    def __init__(self, groups):
        self.groups_ = groups

    def group(self, *ks):
        r = [self.groups_[k] if k in self.groups_ else (_ for _ in ()).throw(IndexError("no such group")) for k in (ks or (0,))]
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, k):
        return self.group(k)

    def groups(self):
        return tuple(self.groups_[k] for k in sorted(self.groups_) if k)


def _item(items, p):
    """the item at p: a code point, None at the end; an unknown rest is opened
    at its first character (as far as the contract knows it)"""
    if p >= len(items):
        return None
    i = items[p]
    if not isinstance(i, Tail):
        return i
    h = i.head()
    if h is None:
        raise Unsupported("lookahead into an unknown text")
    return h[1] if eng().branch(h[0]) else None


def _match(seq, items, p):
    """end position and groups of a match at p, or None"""
    groups = {}
    start = {}
    q = p
    for k in seq:
        if k[0] == "atom":
            c = _item(items, q)
            if c is None or not inset(k[1], c):
                return None
            if isinstance(items[q], Tail):
                raise Unsupported("match reaches into an unknown text")
            q += 1
        elif k[0] == "open":
            start[k[1]] = q
        elif k[0] == "close":
            if k[1] is not None:
                groups[k[1]] = mk(items[start[k[1]] : q])
        elif k[0] == "look":
            if len(k[2]) == 1 and k[2][0][0] == "atom":
                c = _item(items, q)
                ok = c is not None and inset(k[2][0][1], c)
            else:
                ok = _match(k[2], items, q) is not None
            if ok == k[1]:
                return None
    groups[0] = mk(items[p:q])
    return q, groups


def sub(pattern, repl, data, count=0, flags=0):
    from . import hooks

    if count or isinstance(pattern, Sym) or isinstance(repl, Sym):
        raise Unsupported("re.sub")
    ident, seq = compile_pattern(pattern, flags)
    if not any(k[0] == "atom" for k in seq):
        raise Unsupported("pattern that can match nothing")
    if isinstance(repl, str):
        tmpl = P.parse_template(repl, re.compile(*ident))
        op = ("sub", ident, repl)
    else:
        tmpl = None
        op = ("sub", ident, getattr(repl, "__code__", repl))
    items = items_of(data)
    stop = data.stop if isinstance(data, Txt) else None
    if stop is not None and _looks_back(ident[0]):
        raise Unsupported("lookbehind")
    out = []
    p = 0
    while p < len(items):
        if isinstance(items[p], Tail):
            out.append(items[p].apply(op))
            break
        if stop is not None and p >= stop:
            out.append(suffix(items[p:]).apply(op))
            break
        m = _match(seq, items, p)
        if m is None:
            out.append(items[p])
            p += 1
            continue
        q, groups = m
        if tmpl is not None:
            for t in tmpl:
                if isinstance(t, int):
                    out.extend(items_of(groups[t]))
                else:
                    out.extend(items_of(t))
        else:
            out.extend(items_of(hooks.vc_call(repl, Match(groups))))
        p = q
    return mk(out)
