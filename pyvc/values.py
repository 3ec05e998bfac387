"""Symbolic values.

SInt   mathematical integer (exact for Python int)
SBool  boolean; truth test forks the path
SBytes immutable byte string as a rope of chunks with symbolic lengths
SStr   string (z3 string term, with provenance for codecs)
SList  list as segments; a segment may have a symbolic number of elements
Opaque uninterpreted object, compared by identity of its term
"""
import z3

from . import core
from .core import PathAbort, Unsupported, eng

ISort = z3.IntSort()
AnySort = z3.DeclareSort("Any")


def zi(x):
    """z3 Int term (or python int) of an int-like."""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if z3.is_expr(x):
        return x
    raise Unsupported("not an int: %r" % type(x))


def zexpr(x):
    x = zi(x)
    return z3.IntVal(x) if isinstance(x, int) else x


def mkint(e):
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SInt(s)


def mkbool(e):
    if isinstance(e, bool):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(s)


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (SBytesEq, SDeepEq)):
        return x.formula()
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    if isinstance(x, SInt):
        return x.e != 0
    raise Unsupported("not a bool: %r" % (x,))


class Sym:
    """Base of all symbolic values."""

    pytypes = ()
    __slots__ = ()

    def __hash__(self):
        raise Unsupported("hash of %s" % type(self).__name__)

    def __deepcopy__(self, memo):
        return self.__copy__()

    def __copy__(self):
        return self


def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return any(deep_sym(i, depth - 1) for i in x.values()) or any(isinstance(i, Sym) for i in x)
    return False


class SBool(Sym):
    pytypes = (bool, int)
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(self.e == zb(o))
        if isinstance(o, (int, SInt)):
            return mkbool(zexpr(self) == zexpr(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return mkbool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __int__(self):
        raise Unsupported("int(SBool) outside a model")

    def __repr__(self):
        return "SBool(%s)" % self.e

    def concretize(self, m):
        return z3.is_true(m.eval(self.e, model_completion=True))


def _bin(op):
    def f(self, o):
        if isinstance(o, float) or o is None or isinstance(o, (str, bytes, list, dict, tuple)):
            return NotImplemented
        if not isinstance(o, (int, SInt, SBool)):
            return NotImplemented
        return op(self.e, zexpr(o))

    return f


class SInt(Sym):
    pytypes = (int,)
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo=None, hi=None):
        self.e = e if z3.is_expr(e) else z3.IntVal(e)
        self.lo = lo
        self.hi = hi

    __add__ = _bin(lambda a, b: mkint(a + b))
    __radd__ = __add__
    __sub__ = _bin(lambda a, b: mkint(a - b))
    __rsub__ = _bin(lambda a, b: mkint(b - a))

    def __mul__(self, o):
        if isinstance(o, (list, str, bytes)):
            raise Unsupported("sequence repeat")
        if not isinstance(o, (int, SInt, SBool)):
            return NotImplemented
        return mkint(self.e * zexpr(o))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, (int, SInt)):
            oe = zexpr(o)
            if not eng().must(oe > 0):
                if eng().branch(oe == 0):
                    raise ZeroDivisionError("integer division or modulo by zero")
                if not eng().branch(oe > 0):
                    raise Unsupported("floor division by a negative")
            return mkint(self.e / oe)
        return NotImplemented

    def __rfloordiv__(self, o):
        return SInt(zexpr(o)).__floordiv__(self)

    def __mod__(self, o):
        if isinstance(o, (int, SInt)):
            oe = zexpr(o)
            if not eng().must(oe > 0):
                if eng().branch(oe == 0):
                    raise ZeroDivisionError("integer division or modulo by zero")
                if not eng().branch(oe > 0):
                    raise Unsupported("modulo by a negative")
            return mkint(self.e % oe)
        return NotImplemented

    def __rmod__(self, o):
        return SInt(zexpr(o)).__mod__(self)

    def __truediv__(self, o):
        if isinstance(o, (int, SInt)):
            if eng().branch(zexpr(o) == 0):
                raise ZeroDivisionError("division by zero")
            return SReal(z3.ToReal(self.e) / z3.ToReal(zexpr(o)))
        if isinstance(o, (float, SReal)):
            return SReal(z3.ToReal(self.e) / zr(o))
        return NotImplemented

    def __rtruediv__(self, o):
        return SInt(zexpr(o)).__truediv__(self)

    def __neg__(self):
        return mkint(-self.e)

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return mkint(r)
        raise Unsupported("**")

    def __rpow__(self, o):
        if type(o) is int and o == 2 and eng().must(self.e >= 0):
            r = POW2(self.e)
            eng().fact(r >= 1 + self.e)
            return mkint(r)
        raise Unsupported("** symbolic exponent")

    def _bits(self, mask):
        # exact for any Python int: floor semantics equals two's complement
        r = z3.IntVal(0)
        k = 0
        m = mask
        # runs of ones are handled as blocks
        while m:
            if m & 1:
                run = 0
                while (m >> run) & 1:
                    run += 1
                r = r + ((self.e / (1 << k)) % (1 << run)) * (1 << k)
                m >>= run
                k += run
            else:
                m >>= 1
                k += 1
        return r

    def __and__(self, o):
        if isinstance(o, SInt):
            raise Unsupported("& of two symbolic ints")
        if not isinstance(o, int):
            return NotImplemented
        if o >= 0:
            return mkint(self._bits(o))
        return mkint(self.e - self._bits(~o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SInt):
            raise Unsupported("| of two symbolic ints")
        if not isinstance(o, int):
            return NotImplemented
        if o >= 0:
            return mkint(self.e + o - self._bits(o))
        raise Unsupported("| negative")

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int) and o >= 0:
            return mkint(self.e + o - 2 * self._bits(o))
        raise Unsupported("^")

    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return mkint(self.e * (1 << o))
        raise Unsupported("<<")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed or type(length) is not int or byteorder not in ("big", "little"):
            raise Unsupported("int.to_bytes")
        if not eng().branch(z3.And(self.e >= 0, self.e < (1 << (8 * length)))):
            raise OverflowError("int too big to convert")
        return SBytes([KEnc(length, ">" if byteorder == "big" else "<", self.e)])

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return mkint(self.e / (1 << o))
        raise Unsupported(">>")

    def _cmp(op):
        def f(self, o):
            if isinstance(o, (int, SInt, SBool)):
                return mkbool(op(self.e, zexpr(o)))
            if isinstance(o, (float, SReal)):
                return mkbool(op(z3.ToReal(self.e), zr(o)))
            return NotImplemented

        return f

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (int, SInt, SBool)):
            return mkbool(self.e == zexpr(o))
        if isinstance(o, (float, SReal)):
            return mkbool(z3.ToReal(self.e) == zr(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        v = unique_value(self.e)
        if v is not None:
            return v
        raise Unsupported("symbolic int used as a native index")

    __int__ = __index__

    def bit_length(self):
        raise Unsupported("bit_length")

    def __format__(self, spec):
        raise Unsupported("format of SInt")

    def __str__(self):
        raise Unsupported("str of SInt outside a model")

    def __repr__(self):
        return "SInt(%s)" % self.e

    def small(self, b):
        return None

    def concretize(self, m):
        return m.eval(self.e, model_completion=True).as_long()


def unique_value(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    E = eng()
    if E._check() != z3.sat:
        return None
    v = E.solver.model().eval(e, model_completion=True)
    if not z3.is_int_value(v):
        return None
    if E.must(e == v):
        return v.as_long()
    return None


def zr(x):
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, float):
        from fractions import Fraction

        f = Fraction(x)
        return z3.RealVal(str(f))
    return z3.ToReal(zexpr(x))


POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


class SReal(Sym):
    """Real arithmetic standing for float (declared in the assumptions)."""

    pytypes = (float,)
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _b(op):
        def f(self, o):
            if isinstance(o, (int, float, SInt, SReal)):
                return SReal(z3.simplify(op(self.e, zr(o))))
            return NotImplemented

        return f

    __add__ = _b(lambda a, b: a + b)
    __radd__ = __add__
    __sub__ = _b(lambda a, b: a - b)
    __rsub__ = _b(lambda a, b: b - a)
    __mul__ = _b(lambda a, b: a * b)
    __rmul__ = __mul__
    __truediv__ = _b(lambda a, b: a / b)
    __rtruediv__ = _b(lambda a, b: b / a)

    def _c(op):
        def f(self, o):
            if isinstance(o, (int, float, SInt, SReal)):
                return mkbool(op(self.e, zr(o)))
            return NotImplemented

        return f

    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (int, float, SInt, SReal)):
            return mkbool(self.e == zr(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return eng().branch(self.e != 0)

    def toint(self):
        # int() truncates towards zero
        fl = z3.ToInt(self.e)
        return mkint(z3.If(self.e >= 0, fl, -z3.ToInt(-self.e)))

    def __repr__(self):
        return "SReal(%s)" % self.e

    def concretize(self, m):
        v = m.eval(self.e, model_completion=True)
        return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(20).as_fraction())


# --------------------------------------------------------------------------
# byte strings
# --------------------------------------------------------------------------
def zmin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    E = eng()
    if E.must(_z(a) <= _z(b)):
        return a
    if E.must(_z(b) <= _z(a)):
        return b
    return z3.If(_z(a) <= _z(b), _z(a), _z(b))


def zmax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    E = eng()
    if E.must(_z(a) >= _z(b)):
        return a
    if E.must(_z(b) >= _z(a)):
        return b
    return z3.If(_z(a) >= _z(b), _z(a), _z(b))


def _z(a):
    return z3.IntVal(a) if isinstance(a, int) else a


def znorm(a):
    if isinstance(a, int):
        return a
    s = z3.simplify(a)
    return s.as_long() if z3.is_int_value(s) else s


def zadd(a, b):
    return znorm(a + b) if not (isinstance(a, int) and isinstance(b, int)) else a + b


def zsub(a, b):
    return znorm(a - b) if not (isinstance(a, int) and isinstance(b, int)) else a - b


class KConst:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    @property
    def n(self):
        return len(self.b)

    def at(self, k):
        k = znorm(k)
        if isinstance(k, int):
            return z3.IntVal(self.b[k]) if 0 <= k < len(self.b) else z3.IntVal(0)
        if len(self.b) > 4096:
            raise Unsupported("symbolic index into a large constant")
        r = z3.IntVal(0)
        for i in range(len(self.b) - 1, -1, -1):
            r = z3.If(k == i, z3.IntVal(self.b[i]), r)
        return r

    def sub(self, s, e):
        s, e = znorm(s), znorm(e)
        if isinstance(s, int) and isinstance(e, int):
            return KConst(self.b[s:e])
        return KFn(zsub(e, s), lambda k, s=s: self.at(_z(k) + s))

    def same(self, o):
        return isinstance(o, KConst) and o.b == self.b


class KEnc:
    """n-byte encoding of a non-negative integer below 256**n."""

    __slots__ = ("n", "order", "x")

    def __init__(self, n, order, x):
        self.n = n
        self.order = order
        self.x = x

    def at(self, k):
        k = znorm(k)

        def byte(i):
            p = self.n - 1 - i if self.order == ">" else i
            return (self.x / (256**p)) % 256

        if isinstance(k, int):
            return byte(k) if 0 <= k < self.n else byte(0)
        r = z3.IntVal(0)
        for i in range(self.n - 1, -1, -1):
            r = z3.If(k == i, byte(i), r)
        return r

    def sub(self, s, e):
        s, e = znorm(s), znorm(e)
        return KFn(zsub(e, s), lambda k, s=s: self.at(_z(k) + s))

    def same(self, o):
        return isinstance(o, KEnc) and (o.n, o.order) == (self.n, self.order) and eng().must(o.x == self.x)


class KBase:
    __slots__ = ("arr", "off", "n", "tag")

    def __init__(self, arr, off, n, tag=None):
        self.arr = arr
        self.off = off
        self.n = n
        self.tag = tag  # provenance of the complete chunk, dropped when sliced

    def at(self, k):
        r = z3.Select(self.arr, _z(zadd(self.off, k)))
        eng().fact(z3.And(r >= 0, r <= 255))
        return r

    def sub(self, s, e):
        return KBase(self.arr, zadd(self.off, s), zsub(e, s))

    def same(self, o):
        return (
            isinstance(o, KBase)
            and z3.eq(o.arr, self.arr)
            and eng().must(_z(o.off) == _z(self.off))
            and eng().must(_z(o.n) == _z(self.n))
        )


class KFn:
    __slots__ = ("n", "fn")

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn

    def at(self, k):
        return self.fn(k)

    def sub(self, s, e):
        f = self.fn
        return KFn(zsub(e, s), lambda k, s=s: f(_z(k) + s))

    def same(self, o):
        return False


class SBytes(Sym):
    pytypes = (bytes,)
    __slots__ = ("chunks", "small_len")

    def __init__(self, chunks):
        out = []
        for c in chunks:
            n = znorm(c.n)
            if isinstance(n, int) and n <= 0:
                continue
            if out and isinstance(c, KConst) and isinstance(out[-1], KConst):
                out[-1] = KConst(out[-1].b + c.b)
                continue
            if out and isinstance(c, KBase) and isinstance(out[-1], KBase) and z3.eq(c.arr, out[-1].arr):
                p = out[-1]
                if z3.is_true(z3.simplify(_z(zadd(p.off, p.n)) == _z(c.off))):
                    out[-1] = KBase(p.arr, p.off, zadd(p.n, c.n))
                    continue
            out.append(c)
        self.chunks = out

    @staticmethod
    def of(x):
        if isinstance(x, SBytes):
            return x
        if isinstance(x, (bytes, bytearray)):
            return SBytes([KConst(bytes(x))]) if x else SBytes([])
        raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)

    def zlen(self):
        n = 0
        for c in self.chunks:
            n = zadd(n, c.n)
        return n

    def vlen(self):
        return mkint(self.zlen())

    def native(self):
        if not self.chunks:
            return b""
        if len(self.chunks) == 1 and isinstance(self.chunks[0], KConst):
            return self.chunks[0].b
        return None

    def norm(self):
        n = self.native()
        return self if n is None else n

    def at(self, k):
        """byte at index k (0 <= k < len assumed)"""
        k = znorm(k)
        r = None
        pos = 0
        parts = []
        for c in self.chunks:
            parts.append((pos, c))
            pos = zadd(pos, c.n)
        for start, c in reversed(parts):
            v = c.at(zsub(k, start))
            end = zadd(start, c.n)
            r = v if r is None else z3.If(_z(k) < _z(end), v, r)
        return z3.IntVal(0) if r is None else r

    def slice(self, lo, hi):
        E = eng()
        n = self.zlen()

        def clampidx(i, default):
            if i is None:
                return default
            i = zi(i)
            if isinstance(i, int):
                if i < 0:
                    return zmax(0, zadd(n, i))
                return zmin(i, n) if i else 0
            if E.must(i >= 0):
                return zmin(i, n)
            if E.branch(i >= 0):
                return zmin(i, n)
            return zmax(0, zadd(n, i))

        lo = clampidx(lo, 0)
        hi = clampidx(hi, n)
        hi = zmax(lo, hi)
        out = []
        pos = 0
        for c in self.chunks:
            cs, ce = pos, zadd(pos, c.n)
            pos = ce
            if E.must(_z(ce) <= _z(lo)) or E.must(_z(cs) >= _z(hi)):
                continue
            if E.must(_z(lo) <= _z(cs)):
                s = 0
            else:
                s = zmin(zmax(zsub(lo, cs), 0), c.n)
            if E.must(_z(hi) >= _z(ce)):
                e = c.n
            else:
                e = zmin(zmax(zsub(hi, cs), 0), c.n)
            if isinstance(s, int) and s == 0 and (e is c.n or znorm(_z(e) - _z(c.n)) == 0):
                out.append(c)
            else:
                out.append(c.sub(s, e))
        return SBytes(out).norm()

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                if i.step == -1 and i.start is None and i.stop is None:
                    n = self.zlen()
                    if len(self.chunks) == 1 and isinstance(self.chunks[0], KFn) and hasattr(self.chunks[0].fn, "rev_of"):
                        return self.chunks[0].fn.rev_of
                    src = self

                    def f(k):
                        return src.at(zsub(zsub(n, 1), k))

                    f.rev_of = src
                    return SBytes([KFn(n, f)])
                raise Unsupported("slice step")
            return self.slice(i.start, i.stop)
        n = self.zlen()
        ie = zi(i)
        if isinstance(ie, int) and ie < 0:
            ie = zadd(n, ie)
        if not eng().branch(mkz(z3.And(_z(ie) >= 0, _z(ie) < _z(n)))):
            raise IndexError("index out of range")
        return mkint(self.at(ie))

    def __add__(self, o):
        if isinstance(o, (bytes, SBytes)):
            return SBytes(self.chunks + SBytes.of(o).chunks).norm()
        if isinstance(o, (str, SStr, SList, list)):
            raise TypeError("can't concat %s to bytes" % type(o).__name__)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, SBytes)):
            return SBytes(SBytes.of(o).chunks + self.chunks).norm()
        if isinstance(o, str):
            raise TypeError("can only concatenate str")
        return NotImplemented

    def __eq__(self, o):
        if not isinstance(o, (bytes, SBytes)):
            return False
        return SBytesEq(self, SBytes.of(o))

    def __ne__(self, o):
        if not isinstance(o, (bytes, SBytes)):
            return True
        if isinstance(o, bytes) and not o:
            return mkbool(_z(self.zlen()) != 0)
        if isinstance(o, bytes) and len(o) <= 64:
            o = SBytes.of(o)
            n = o.zlen()
            return mkbool(z3.Not(z3.And(_z(self.zlen()) == n, *[self.at(i) == o.at(i) for i in range(n)])))
        return SBytesEq(self, SBytes.of(o)).negated()

    __hash__ = Sym.__hash__

    def __bool__(self):
        return eng().branch(_z(self.zlen()) != 0) if not isinstance(self.zlen(), int) else self.zlen() != 0

    def __iter__(self):
        raise Unsupported("iteration over symbolic bytes")

    def __contains__(self, x):
        raise Unsupported("in symbolic bytes")

    def startswith(self, p):
        if isinstance(p, bytes) and len(p) <= 64:
            n = self.zlen()
            if not eng().branch(mkz(_z(n) >= len(p))):
                return False
            o = SBytes.of(p)
            return mkbool(z3.And(*[self.at(i) == o.at(i) for i in range(len(p))])) if p else True
        raise Unsupported("startswith")

    def decode(self, *a, **k):
        from . import models

        return models.bytes_decode(self, *a, **k)

    def hex(self):
        raise Unsupported("hex")

    def check_free(self, c):
        # (the four bytes of an encoded length are part of what is assumed free)
        if not (isinstance(c, KEnc) or isinstance(c, KBase) and c.tag is not None and c.tag[0] in ("dec", "free")):
            raise Unsupported("search in symbolic bytes")

    def pieces(self, split):
        """cut where split() cuts the literal runs"""
        out = [[]]
        for c in self.chunks:
            if isinstance(c, KConst):
                p = split(c.b)
                out[-1].append(KConst(p[0]))
                out += [[KConst(x)] for x in p[1:]]
            else:
                self.check_free(c)
                out[-1].append(c)
        return [SBytes(x).norm() for x in out]

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1 or isinstance(sep, Sym):
            raise Unsupported("bytes.split")
        eng().contract_used["model:free"] = "bytes.split: symbolic parts take no part in a match"
        return self.pieces(lambda t: t.split(sep))

    def replace(self, old, new, count=-1):
        if isinstance(old, Sym) or isinstance(new, Sym) or isinstance(count, Sym):
            raise Unsupported("bytes.replace")
        eng().contract_used["model:free"] = "bytes.replace: symbolic parts take no part in a match"
        out = []
        for c in self.chunks:
            if isinstance(c, KConst):
                k = c.b.count(old)
                out.append(KConst(c.b.replace(old, new, count)))
                if count >= 0:
                    count = max(0, count - k)
            else:
                if count:
                    self.check_free(c)
                out.append(c)
        return SBytes(out).norm()

    def strip(self, *a):
        if a:
            raise Unsupported("bytes.strip")
        out = list(self.chunks)
        for end, cut in ((0, bytes.lstrip), (-1, bytes.rstrip)):
            while out and isinstance(out[end], KConst):
                t = cut(out[end].b)
                if t:
                    out[end] = KConst(t)
                    break
                del out[end]
            if out and not isinstance(out[end], KConst) and not (isinstance(out[end], KBase) and out[end].tag and out[end].tag[0] == "dec"):
                raise Unsupported("strip of symbolic bytes")
        return SBytes(out).norm()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("bytes.%s on a symbolic value" % name)

    def __repr__(self):
        return "SBytes(%s)" % ", ".join(type(c).__name__ for c in self.chunks)

    def small(self, b):
        n = self.zlen()
        return None if isinstance(n, int) else n <= b

    def concretize(self, m):
        n = self.zlen()
        n = n if isinstance(n, int) else m.eval(n, model_completion=True).as_long()
        if n > 1 << 22:
            raise ValueError("length %d" % n)
        out = bytearray()
        for c in self.chunks:
            cn = c.n if isinstance(c.n, int) else m.eval(c.n, model_completion=True).as_long()
            for i in range(cn):
                if isinstance(c, KBase):
                    v = m.eval(z3.Select(c.arr, _z(c.off) + i), model_completion=True).as_long() & 0xFF
                else:
                    v = m.eval(c.at(i), model_completion=True).as_long() & 0xFF
                out.append(v)
        return bytes(out)


def mkz(e):
    return e


class SBytesEq(Sym):
    """Equality of two ropes.  As an obligation it is checked extensionally at
    one arbitrary (skolem) index; as an assumption or branch it must be small."""

    pytypes = (bool,)
    __slots__ = ("a", "b", "neg")

    def __init__(self, a, b, neg=False):
        self.a = a
        self.b = b
        self.neg = neg

    def negated(self):
        return SBytesEq(self.a, self.b, not self.neg)

    def structural(self):
        a, b = self.a.chunks, self.b.chunks
        return len(a) == len(b) and all(x.same(y) for x, y in zip(a, b))

    def formula(self):
        """validity-equivalent formula, for use as a proof obligation only"""
        if self.neg:
            raise Unsupported("bytes inequality as an obligation")
        if self.structural():
            return z3.BoolVal(True)
        la, lb = self.a.zlen(), self.b.zlen()
        E = eng()
        k = z3.Int(E.fresh_name("!ix"))
        return z3.And(_z(la) == _z(lb), z3.Implies(z3.And(k >= 0, k < _z(la)), self.a.at(k) == self.b.at(k)))

    def __bool__(self):
        if self.structural():
            return not self.neg
        la, lb = self.a.zlen(), self.b.zlen()
        E = eng()
        if E.must(_z(la) != _z(lb)):
            return self.neg
        for n in (la, lb):
            if isinstance(n, int) and n <= 64:
                e = z3.And(_z(la) == _z(lb), *[self.a.at(i) == self.b.at(i) for i in range(n)])
                r = E.branch(e)
                return (not r) if self.neg else r
        # one arbitrary index decides validity of equality
        if E.must(self.formula()) if not self.neg else E.must(SBytesEq(self.a, self.b).formula()):
            return not self.neg
        raise Unsupported("branch on equality of long symbolic bytes")

    def __repr__(self):
        return "SBytesEq"


class SDeepEq(Sym):
    """A conjunction of equalities (obligation side only)."""

    pytypes = (bool,)
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def formula(self):
        return z3.And(*[zb(p) for p in self.parts]) if self.parts else z3.BoolVal(True)

    def __bool__(self):
        return all(bool(p) for p in self.parts)


def base_bytes(name, minlen=0, maxlen=None, tag=None):
    E = eng()
    nm = E.fresh_name(name)
    arr = z3.Array(nm, ISort, ISort)
    n = z3.Int(nm + ".len")
    E.assume(n >= minlen)
    if maxlen is not None:
        E.assume(n <= maxlen)
    return SBytes([KBase(arr, 0, n, tag)])


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------
SSort = z3.StringSort()


class SStr(Sym):
    pytypes = (str,)
    __slots__ = ("e", "tag")

    def __init__(self, e, tag=None):
        self.e = e if z3.is_expr(e) else z3.StringVal(e)
        self.tag = tag

    @staticmethod
    def z(x):
        if isinstance(x, SStr):
            return x.e
        if isinstance(x, str):
            return z3.StringVal(x)
        raise Unsupported("not a str: %r" % type(x))

    def __eq__(self, o):
        if isinstance(o, SStr) and self.tag and o.tag and self.tag[0] == o.tag[0] and self.tag[0] in ("dec", "ascii"):
            return self.tag[1] == o.tag[1]
        if isinstance(o, (str, SStr)):
            return mkbool(self.e == SStr.z(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, bool):
            return not r
        if isinstance(r, SBytesEq):
            return r.negated()
        return mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return self if isinstance(o, str) and not o else SStr(z3.simplify(z3.Concat(self.e, SStr.z(o))))
        if isinstance(o, (bytes, SBytes, int, SInt)):
            raise TypeError("can only concatenate str")
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return self if not o else SStr(z3.simplify(z3.Concat(z3.StringVal(o), self.e)))
        return NotImplemented

    def __bool__(self):
        return eng().branch(self._asc().zlen() != 0 if self._asc() is not None else z3.Length(self.e) != 0)

    def vlen(self):
        return mkint(self._asc().zlen() if self._asc() is not None else z3.Length(self.e))

    def _asc(self):
        """the bytes this text is the ASCII decoding of: one character each"""
        return self.tag[1] if self.tag and self.tag[0] == "ascii" else None

    def encode(self, *a, **k):
        from . import models

        return models.str_encode(self, *a, **k)

    def upper(self):
        if self.tag and self.tag[0] == "uuidstr":
            return SStr(UPPER(self.e), ("uuidstr", self.tag[1]))
        E = eng()
        r = UPPER(self.e)
        E.fact(UPPER(r) == r)
        return SStr(r)

    def lower(self):
        r = LOWER(self.e)
        eng().fact(LOWER(r) == r)
        return SStr(r, self.tag if self.tag and self.tag[0] == "uuidstr" else None)

    def strip(self, *a):
        if a:
            raise Unsupported("strip(chars)")
        r = STRIP(self.e)
        eng().fact(STRIP(r) == r)
        eng().fact(z3.Length(r) <= z3.Length(self.e))
        return SStr(r)

    def startswith(self, p):
        return mkbool(z3.PrefixOf(SStr.z(p), self.e))

    def endswith(self, p):
        return mkbool(z3.SuffixOf(SStr.z(p), self.e))

    def __contains__(self, p):
        return eng().branch(z3.Contains(self.e, SStr.z(p)))

    def join(self, it):
        raise Unsupported("symbolic separator join")

    def __str__(self):
        raise Unsupported("str(SStr) outside a model")

    def __format__(self, spec):
        raise Unsupported("format of SStr outside a model")

    def __iter__(self):
        raise Unsupported("iterate symbolic str")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if self.tag and self.tag[0] == "methods" and name in self.tag[1]:
            return self.tag[1][name]
        raise Unsupported("str.%s on a symbolic value" % name)

    def __repr__(self):
        return "SStr(%s)" % self.e

    def small(self, b):
        return z3.Length(self.e) <= b

    def concretize(self, m):
        v = m.eval(self.e, model_completion=True)
        return z3str(v)


def z3str(v):
    s = v.as_string()
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda x: chr(int(x.group(1), 16)), s)


UPPER = z3.Function("upper", SSort, SSort)
LOWER = z3.Function("lower", SSort, SSort)
STRIP = z3.Function("strip", SSort, SSort)
DEC = z3.Function("dec", ISort, SSort)
UNDEC = z3.Function("undec", SSort, ISort)


def int_str(x):
    if isinstance(x, int):
        return str(x)
    e = zexpr(x)
    r = DEC(e)
    eng().fact(UNDEC(r) == e)
    eng().fact(z3.Length(r) > 0)
    return SStr(r, ("dec", x))


# --------------------------------------------------------------------------
# opaque objects
# --------------------------------------------------------------------------
class Opaque(Sym):
    """An object about which nothing is known but its identity."""

    pytypes = (object,)
    __slots__ = ("e", "label", "attrs")

    def __init__(self, e, label="opaque", attrs=None):
        self.e = e
        self.label = label
        self.attrs = attrs or {}

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return mkbool(self.e == o.e)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name in ("e", "label", "attrs"):
            raise AttributeError(name)
        if name in self.attrs:
            return self.attrs[name]
        if name.startswith("__") or name in ("small", "copy"):
            raise AttributeError(name)
        raise Unsupported("attribute %s of opaque %s" % (name, self.label))

    def __repr__(self):
        return "Opaque(%s)" % self.e

    def concretize(self, m):
        return str(m.eval(self.e, model_completion=True))


# --------------------------------------------------------------------------
# lists with symbolic length
# --------------------------------------------------------------------------
class Seg:
    """count elements fn(0..count-1)"""

    __slots__ = ("count", "fn", "cases")

    def __init__(self, count, fn, cases=None):
        self.count = count
        self.fn = fn
        # functions of any index one of which gives the element, without a fork
        self.cases = cases


class Closed(Sym):
    """a value only some of whose operations are described; the others are out of reach"""

    def _no(self, *a, **k):
        raise Unsupported("operation on %s" % type(self).__name__)

    __hash__ = Sym.__hash__
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __add__ = __radd__ = __iadd__ = __mul__ = __rmul__ = __mod__ = __rmod__ = _no
    __bool__ = __len__ = __iter__ = __contains__ = __getitem__ = __setitem__ = __bytes__ = __str__ = __format__ = _no

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (type(self).__name__, n))


class SJoin(Closed):
    """sep.join(items) of a list of any length"""

    def __init__(self, sep, items):
        self.sep, self.items = sep, items
        self.pytypes = (type(sep),)


class SDocument(Closed):
    """head + item(0) + ... + item(n - 1) + tail, bytes; can only be cut"""

    pytypes = (bytes,)

    def __init__(self, head, n, item, tail):
        self.head, self.n, self.item, self.tail = head, n, item, tail

    def pieces(self, split):
        """as SBytes.pieces, when every item is cut at the same places"""
        cut = lambda b: SBytes.of(b).pieces(split)
        E = eng()
        k = znorm(_z(zi(self.n)))
        if not E.must(_z(k) >= 1):
            raise Unsupported("document that may be empty")
        m = len(cut(self.item(z3.Int(E.fresh_name("!i"))))) - 1
        head, tail = cut(self.head), cut(self.tail)
        if m < 1 or len(tail) != 1:
            raise Unsupported("document whose items are not told apart")

        def piece(i, r, last=None):
            p = cut(self.item(i))
            if len(p) != m + 1 or not (isinstance(p[0], bytes) and p[0] == b""):
                raise Unsupported("document whose items do not begin with the separator")
            x = p[r + 1]
            if r == m - 1 and (E.branch(_z(i) == _z(k) - 1) if last is None else last):
                x = x + tail[0]
            return x

        def at(q):
            q = _z(zi(q))
            for r in range(m):
                if r == m - 1 or E.branch(q % m == r):
                    return piece(z3.simplify((q - r) / m), r)

        cases = [(lambda i, r=r, l=l: piece(i, r, l)) for r in range(m) for l in (False, True)]
        return SList([Seg(1, lambda i, x=x: x) for x in head] + [Seg(zmul_const(k, m), at, cases)])

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1 or isinstance(sep, Sym):
            raise Unsupported("bytes.split")
        eng().contract_used["model:free"] = "bytes.split: symbolic parts take no part in a match"
        return self.pieces(lambda t: t.split(sep))


def zmul_const(k, m):
    return znorm(_z(k) * m)


class SList(Sym):
    pytypes = (list,)

    def __init__(self, segs=(), kind=list):
        self.segs = list(segs)
        self.pytypes = (kind,)
        self.small_len = None

    @staticmethod
    def of(x):
        if isinstance(x, SList):
            return x
        return SList([Seg(1, (lambda i, v=v: v)) for v in x])

    def _clean(self):
        self.segs = [s for s in self.segs if not (isinstance(znorm(s.count), int) and znorm(s.count) == 0)]
        return self

    def zlen(self):
        n = 0
        for s in self.segs:
            n = zadd(n, s.count)
        return n

    def vlen(self):
        return mkint(self.zlen())

    def copy(self):
        return SList(self.segs, self.pytypes[0])

    __copy__ = copy

    def append(self, v):
        if core.active():
            eng().note_write(self, "append")
        self.segs.append(Seg(1, lambda i, v=v: v))

    def extend(self, o):
        eng().note_write(self, "extend")
        if isinstance(o, SList):
            self.segs.extend(o.segs)
        elif isinstance(o, (list, tuple)):
            for v in o:
                self.segs.append(Seg(1, lambda i, v=v: v))
        else:
            for v in o:
                self.append(v)

    def __add__(self, o):
        return SList(self.segs + SList.of(o).segs)

    def __radd__(self, o):
        return SList(SList.of(o).segs + self.segs)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def select(self, i):
        """element at in-range index i; forks on the segment it lies in"""
        E = eng()
        i = znorm(_z(zi(i)))
        pos = 0
        last = len(self.segs) - 1
        for k, s in enumerate(self.segs):
            end = zadd(pos, s.count)
            if k == last or E.branch(_z(i) < _z(end)):
                return s.fn(zsub(i, pos))
            pos = end
        raise IndexError("list index out of range")

    def __getitem__(self, i):
        E = eng()
        n = self.zlen()
        if isinstance(i, slice):
            return self._slice(i)
        ie = znorm(_z(zi(i)))
        if isinstance(ie, int) and ie < 0:
            ie = zadd(n, ie)
        if not E.branch(z3.And(_z(ie) >= 0, _z(ie) < _z(n))):
            raise IndexError("list index out of range")
        return self.select(ie)

    def _slice(self, sl):
        if sl.step is not None:
            raise Unsupported("list slice step")
        E = eng()
        n = self.zlen()

        def cl(i, d):
            if i is None:
                return d
            i = znorm(_z(zi(i)))
            if isinstance(i, int):
                return zmax(0, zadd(n, i)) if i < 0 else zmin(i, n)
            if E.must(i >= 0):
                return zmin(i, n)
            raise Unsupported("slice bound sign")

        lo, hi = cl(sl.start, 0), cl(sl.stop, n)
        hi = zmax(lo, hi)
        out = []
        pos = 0
        for s in self.segs:
            a, b = pos, zadd(pos, s.count)
            pos = b
            if E.must(_z(b) <= _z(lo)) or E.must(_z(a) >= _z(hi)):
                continue
            st = 0 if E.must(_z(lo) <= _z(a)) else zmin(zmax(zsub(lo, a), 0), s.count)
            en = s.count if E.must(_z(hi) >= _z(b)) else zmin(zmax(zsub(hi, a), 0), s.count)
            out.append(Seg(zsub(en, st), (lambda i, f=s.fn, st=st: f(zadd(i, st)))))
        return SList(out)

    def __setitem__(self, i, v):
        E = eng()
        E.note_write(self, "setitem")
        n = self.zlen()
        ie = znorm(_z(zi(i)))
        if isinstance(ie, int) and ie < 0:
            ie = zadd(n, ie)
        if not E.branch(z3.And(_z(ie) >= 0, _z(ie) < _z(n))):
            raise IndexError("list assignment index out of range")
        head = self._slice(slice(None, mkint(_z(ie)), None)) if not (isinstance(ie, int) and ie == 0) else SList()
        tail = self._slice(slice(mkint(_z(zadd(ie, 1))), None, None))
        self.segs = head.segs + [Seg(1, lambda k, v=v: v)] + tail.segs

    def pop(self, i=-1):
        E = eng()
        E.note_write(self, "pop")
        n = self.zlen()
        ie = znorm(_z(zi(i)))
        if isinstance(ie, int) and ie < 0:
            ie = zadd(n, ie)
        if not E.branch(z3.And(_z(ie) >= 0, _z(ie) < _z(n))):
            raise IndexError("pop from empty list")
        v = self.select(ie)
        head = self._slice(slice(None, mkint(_z(ie)), None)) if not (isinstance(ie, int) and ie == 0) else SList()
        tail = self._slice(slice(mkint(_z(zadd(ie, 1))), None, None))
        self.segs = head.segs + tail.segs
        return v

    def insert(self, i, v):
        if i != 0:
            raise Unsupported("list.insert")
        eng().note_write(self, "insert")
        self.segs.insert(0, Seg(1, lambda k, v=v: v))

    def clear(self):
        eng().note_write(self, "clear")
        self.segs = []

    def __bool__(self):
        n = self.zlen()
        return n != 0 if isinstance(n, int) else eng().branch(n != 0)

    def __eq__(self, o):
        raise Unsupported("== on symbolic lists (use check_eq)")

    def __ne__(self, o):
        raise Unsupported("!= on symbolic lists")

    __hash__ = Sym.__hash__

    def concrete_len(self):
        n = self.zlen()
        return n if isinstance(n, int) else None

    def __iter__(self):
        """Only inside native consumers: needs a concrete (or forked) length."""
        n = self.zlen()
        if isinstance(n, int):
            for s in list(self.segs):
                c = znorm(s.count)
                for i in range(c):
                    yield s.fn(i)
            return
        E = eng()
        if E.unroll is None:
            raise Unsupported("native iteration over a list of symbolic length")
        E.bounded_notes.add("list of symbolic length unrolled up to %d elements" % E.unroll)
        i = 0
        while True:
            if i > E.unroll:
                E.cut()
            if not E.branch(_z(self.zlen()) > i):
                return
            yield self.select(i)
            i += 1

    def map(self, f):
        """[f(x) for x in self]; f must not fork or write."""
        return SList([Seg(s.count, (lambda i, g=s.fn: f(g(i)))) for s in self.segs])

    def sort(self, *a, **k):
        raise Unsupported("sort")

    def __repr__(self):
        return "SList(%d segs)" % len(self.segs)


class SRange(Sym):
    """range(lo, hi, step) with step > 0."""

    pytypes = (range,)

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def zlen(self):
        lo, hi, st = _z(zi(self.lo)), _z(zi(self.hi)), zi(self.step)
        if isinstance(st, int) and st == 1:
            return znorm(z3.If(hi > lo, hi - lo, 0))
        return znorm(z3.If(hi > lo, (hi - lo + _z(st) - 1) / _z(st), 0))

    def vlen(self):
        return mkint(self.zlen())

    def elem(self, k):
        return mkint(_z(zi(self.lo)) + _z(k) * _z(zi(self.step)))

    def __iter__(self):
        E = eng()
        if E.unroll is None:
            raise Unsupported("native iteration over a symbolic range")
        E.bounded_notes.add("range of symbolic length unrolled up to %d iterations" % E.unroll)
        i = 0
        lo, hi, st = _z(zi(self.lo)), _z(zi(self.hi)), _z(zi(self.step))
        while True:
            if i > E.unroll:
                E.cut()
            if not E.branch(lo + i * st < hi):
                return
            yield self.elem(i)
            i += 1


class Poison(Sym):
    """Value of a local whose contents a loop contract does not describe."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def _bad(self, *a, **k):
        raise Unsupported("loop leaves %r unconstrained and it is read" % self.name)

    __bool__ = __eq__ = __ne__ = __add__ = __radd__ = __getitem__ = __iter__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __sub__ = __rsub__ = __len__ = __call__ = _bad
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._bad()


class SMap(Sym):
    """dict with symbolic integer keys: a finite list of entries with pairwise
    distinct keys, standing for an arbitrary map of which the code touches only
    the keys it names (iteration is unsupported)"""

    pytypes = (dict,)
    __slots__ = ("items_", "__weakref__")

    def __init__(self, items=()):
        self.items_ = list(items)

    def _find(self, k):
        for n, (kk, _) in enumerate(self.items_):
            if bool(kk == k):
                return n
        return None

    def get(self, k, d=None):
        n = self._find(k)
        return d if n is None else self.items_[n][1]

    def __getitem__(self, k):
        n = self._find(k)
        if n is None:
            raise KeyError(k)
        return self.items_[n][1]

    def __setitem__(self, k, v):
        n = self._find(k)
        core.eng().note_write(self, "[]")
        if n is None:
            self.items_.append((k, v))
        else:
            self.items_[n] = (self.items_[n][0], v)

    def __delitem__(self, k):
        n = self._find(k)
        core.eng().note_write(self, "del")
        if n is None:
            raise KeyError(k)
        del self.items_[n]

    def __contains__(self, k):
        return self._find(k) is not None

    _missing = object()

    def pop(self, k, d=_missing):
        n = self._find(k)
        core.eng().note_write(self, "pop")
        if n is None:
            if d is SMap._missing:
                raise KeyError(k)
            return d
        return self.items_.pop(n)[1]

    def setdefault(self, k, d=None):
        n = self._find(k)
        if n is None:
            self[k] = d
            return d
        return self.items_[n][1]

    def __bool__(self):
        raise Unsupported("truth of a symbolic map")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic map")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("dict.%s on a symbolic map" % name)


class SDotted(SStr):
    """a dotted version string of any number of non-negative components"""

    __slots__ = ("n", "fn")

    def __init__(self, e, n, fn):
        SStr.__init__(self, e)
        self.n, self.fn = n, fn

    def split(self, sep=None, maxsplit=-1):
        if sep != "." or maxsplit != -1:
            raise Unsupported("split of a version string")

        def el(i):
            return int_str(mkint(self.fn(i)))

        return SList([Seg(self.n, el)])

    def count(self, sub):
        if sub != ".":
            raise Unsupported("count")
        return mkint(self.n - 1)

    def concretize(self, m):
        n = m.eval(self.n, model_completion=True).as_long()
        if n > 2000:
            raise ValueError("length")
        return ".".join(str(m.eval(self.fn(i), model_completion=True).as_long()) for i in range(n))

    def small(self, b):
        return self.n <= b
