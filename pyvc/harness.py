"""Contracts as dual-mode harnesses.

A harness states the precondition of a real function (symbolic inputs and
assumptions), calls it, and states its postconditions (checks).  Under `Sym` it
is a set of proof obligations; under `Conc` the same text runs on the
uninstrumented code with concrete inputs (counterexample replay, cross-check of
the engine against CPython, bounded stand-in).
"""
import base64
import importlib
import json
import math
import random
import sys
import traceback

REGISTRY = {}  # prop -> list of Harness


class Harness:
    def __init__(self, prop, fn, name, funcs, runs, unroll, bounded, thorough_runs, max_paths, time_limit, conc, sym, assumes):
        self.prop = prop
        self.fn = fn
        self.name = name
        self.funcs = funcs
        self.runs = runs
        self.thorough_runs = thorough_runs
        self.unroll = unroll
        self.bounded = bounded
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.conc = conc
        self.sym = sym
        self.assumes = assumes


def contract(prop, funcs=(), runs=150, unroll=3, bounded=None, thorough_runs=None, max_paths=4000, time_limit=200, conc=True, sym=True, assumes=()):
    """bounded: a stated bound when the harness itself restricts the shapes it
    quantifies over (its obligations then count as bounded, not as proved)."""

    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            h = Harness(p, fn, fn.__name__, list(funcs), runs, unroll, bounded, thorough_runs or runs * 8, max_paths, time_limit, conc, sym, list(assumes))
            REGISTRY.setdefault(p, []).append(h)
        return fn

    return deco


class Violation(BaseException):  # not for the code's own handlers
    def __init__(self, name, detail=""):
        super().__init__(name)
        self.name = name
        self.detail = detail


class Inapplicable(BaseException):
    """the harness relies on an internal name that no longer exists"""


class Skip(BaseException):
    """concrete inputs outside the precondition"""


def enc(x):
    if isinstance(x, bytes):
        return {"__b64__": base64.b64encode(x).decode()}
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, float):
        return {"__float__": x.hex()}
    if isinstance(x, str):
        try:
            x.encode("utf-8")
        except UnicodeEncodeError:
            return {"__u16__": base64.b64encode(x.encode("utf-16-le", "surrogatepass")).decode()}
        return x
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    return x


def dec(x):
    if isinstance(x, dict):
        if "__b64__" in x:
            return base64.b64decode(x["__b64__"])
        if "__float__" in x:
            return float.fromhex(x["__float__"])
        if "__u16__" in x:
            return base64.b64decode(x["__u16__"]).decode("utf-16-le", "surrogatepass")
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(i) for i in x]
    return x


class _Common:
    inapplicable = None

    def mod(self, name):
        return importlib.import_module(name)

    def internal(self, ok, what):
        """the code still works through the internals this harness drives"""
        if not ok:
            raise Inapplicable(what)

    def need(self, obj, attr):
        """an internal name the harness relies on"""
        if not hasattr(obj, attr):
            raise Inapplicable("%s.%s" % (getattr(obj, "__name__", type(obj).__name__), attr))
        return getattr(obj, attr)

    def patch(self, obj, attr, value):
        if attr.startswith("_") and not attr.startswith("__") and not hasattr(obj, attr):
            raise Inapplicable("%s.%s" % (getattr(obj, "__name__", type(obj).__name__), attr))
        missing = object()
        d = obj.__dict__ if hasattr(obj, "__dict__") else {}
        old = d.get(attr, missing)
        setattr(obj, attr, value)

        def undo():
            if old is missing:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
            else:
                setattr(obj, attr, old)

        self._undo(undo)

    def listed(self, finding):
        """is this a known finding (known-findings.txt)?"""
        import os

        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
        try:
            lines = open(path).read().splitlines()
        except OSError:
            return False
        return any(l.startswith("finding:") and json.loads(l[8:]).get("id") == finding for l in lines)

    def raises(self, exc, fn, *a, **k):
        """the exception of class exc that fn raises, or None"""
        try:
            fn(*a, **k)
        except exc as e:
            E = getattr(self, "E", None)
            if E is not None and E.left:
                # loops the exception went through
                tb, names = e.__traceback__, set()
                while tb is not None:
                    names.add(tb.tb_frame.f_code.co_qualname.replace(".<locals>", ""))
                    tb = tb.tb_next
                E.left[:] = [k for k in E.left if not any(k[0].endswith("." + n) for n in names)]
            return e
        return None


# ============================================================== symbolic mode
class Sym(_Common):
    sym = True
    symbolic = True

    def __init__(self, engine):
        self.E = engine
        engine.v = self

    def _undo(self, f):
        self.E.undo.append(f)

    @property
    def unrolled(self):
        """bounded mode: loop contracts are not in force"""
        return self.E.unroll is not None

    # inputs ---------------------------------------------------------------
    def int(self, name, lo=None, hi=None, cmax=None):
        import z3
        from .values import SInt, zi

        n = self.E.fresh_name(name)
        x = SInt(z3.Int(n), lo, hi)
        if lo is not None:
            self.E.assume(x.e >= zi(lo))
        if hi is not None:
            self.E.assume(x.e <= zi(hi))
        self.E.witness.append(x.e == zi(lo if lo is not None else hi if hi is not None else 0))
        self.E.register(n, x)
        return x

    def bool(self, name):
        return self.choice(name, [False, True])

    def sbool(self, name):
        import z3
        from .values import SBool

        n = self.E.fresh_name(name)
        x = SBool(z3.Bool(n))
        self.E.register(n, x)
        return x

    def choice(self, name, options):
        options = list(options)
        n = self.E.fresh_name(name)
        k = self.E.choose(len(options)) if len(options) > 1 else 0
        self.E.register(n, k)
        return options[k]

    def sample(self, name, full, cap):
        return self.choice(name, full)

    def bytes(self, name, lo=0, hi=None, cmax=None):
        from .values import base_bytes

        x = base_bytes(name, lo, hi)
        self.E.register(self.E.fresh_name(name + "!in"), x)
        return x

    def str(self, name, pool=None, nonempty=False):
        import z3
        from .values import SStr, SSort

        n = self.E.fresh_name(name)
        x = SStr(z3.Const(n, SSort))
        if nonempty:
            self.E.assume(z3.Length(x.e) > 0)
        self.E.register(n, x)
        return x

    def z3fun(self, name, kind):
        """an arbitrary value for every number (symbolic runs only)"""
        import z3
        from . import values as V

        if kind == "bytes":
            F = z3.Function(self.E.fresh_name(name), V.ISort, z3.ArraySort(V.ISort, V.ISort))
            L = z3.Function(self.E.fresh_name(name + " length"), V.ISort, V.ISort)

            def at(i):
                i = z3.simplify(V._z(V.zi(i)))
                self.E.fact(L(i) >= 0)
                return V.SBytes([V.KBase(F(i), 0, L(i))])

            return at
        sort, mk = {"str": (V.SSort, V.SStr), "int": (V.ISort, V.mkint)}[kind]
        F = z3.Function(self.E.fresh_name(name), V.ISort, sort)
        return lambda i: mk(F(z3.simplify(V._z(V.zi(i)))))

    def real(self, name, lo=None, hi=None):
        import z3
        from .values import SReal, zr

        n = self.E.fresh_name(name)
        x = SReal(z3.Real(n))
        if lo is not None:
            self.E.assume(x.e >= zr(lo))
        if hi is not None:
            self.E.assume(x.e <= zr(hi))
        self.E.register(n, x)
        return x

    def uuid(self, name):
        """a UUID object"""
        import z3
        from .models import SUUID, USort

        n = self.E.fresh_name(name)
        u = SUUID(z3.Const(n, USort))
        self.E.register(n, u)
        return u

    def uuid_str(self, u):
        return u.to_str()

    def opaque(self, name, **attrs):
        import z3
        from .values import AnySort, Opaque

        n = self.E.fresh_name(name)
        x = Opaque(z3.Const(n, AnySort), name, attrs)
        self.E.register(n, x)
        return x

    def seq(self, name, kind="opaque", lo=0, hi=None, cmax=6, elo=None, ehi=None):
        """list of symbolic length whose elements are arbitrary values of one kind"""
        import z3
        from . import values as V

        n = self.E.fresh_name(name)
        ln = z3.Int(n + ".len")
        self.E.assume(ln >= lo)
        if hi is not None:
            self.E.assume(ln <= hi)
        if kind == "int":
            F = z3.Function(n, V.ISort, V.ISort)

            def el(i):
                e = F(V._z(i))
                if elo is not None:
                    self.E.fact(e >= elo)
                if ehi is not None:
                    self.E.fact(e <= ehi)
                return V.mkint(e)

        elif kind == "str":
            F = z3.Function(n, V.ISort, V.SSort)

            def el(i):
                return V.SStr(F(V._z(i)))

        elif kind == "bytes":
            F = z3.Function(n, V.ISort, z3.ArraySort(V.ISort, V.ISort))
            FL = z3.Function(n + ".n", V.ISort, V.ISort)

            def el(i):
                ln_i = FL(V._z(i))
                self.E.fact(ln_i >= (elo or 0))
                if ehi is not None:
                    self.E.fact(ln_i <= V._z(V.zi(ehi)))
                return V.SBytes([V.KBase(F(V._z(i)), 0, ln_i)])

        else:
            F = z3.Function(n, V.ISort, V.AnySort)

            def el(i):
                return V.Opaque(F(V._z(i)), name)

        s = V.SList([V.Seg(ln, el)])
        self.E.register(n, _SeqInput(s, el, ln))
        return s

    def dotted(self, name, cmax=5):
        """a version string: one or more dot separated non-negative numbers"""
        import z3
        from . import values as V

        n = self.E.fresh_name(name)
        ln = z3.Int(n + ".parts")
        F = z3.Function(n + ".part", V.ISort, V.ISort)

        def at(i):
            e = F(V._z(i))
            self.E.fact(e >= 0)
            return e

        self.E.assume(ln >= 1)
        e = z3.Const(n, V.SSort)
        self.E.assume(z3.Length(e) > 0)
        x = V.SDotted(e, ln, at)
        self.E.register(n, x)
        return x

    def part(self, d, i):
        """component i of a version, 0 beyond its end"""
        import z3
        from . import values as V

        i = V._z(V.zi(i))
        return V.mkint(z3.If(i < d.n, d.fn(i), 0))

    def parts(self, d):
        from .values import mkint

        return mkint(d.n)

    # logic ------------------------------------------------------------------
    def assume(self, c):
        from .values import zb

        if isinstance(c, bool):
            if not c:
                self.E.abort()
            return
        self.E.assume(zb(c))

    def check(self, name, c, kind="post", detail=""):
        from .values import SBytesEq, SDeepEq, zb

        if c is None:
            c = False
        if not isinstance(c, bool) and not hasattr(c, "e") and not isinstance(c, (SBytesEq, SDeepEq)):
            c = bool(c)
        return self.E.oblige(name, c if isinstance(c, bool) else zb(c), kind, detail)

    def check_eq(self, name, a, b):
        return self._eq(name, a, b)

    def _eq(self, name, a, b, kind="post"):
        from . import values as V

        if a is b:
            return self.E.oblige(name, True, kind)
        if isinstance(a, V.SList) or isinstance(b, V.SList):
            if not isinstance(a, (V.SList, list, tuple)) or not isinstance(b, (V.SList, list, tuple)):
                return self.E.oblige(name, False, kind, "%r vs %r" % (a, b))
            return self._eq_list(name, V.SList.of(a), V.SList.of(b), kind)
        if type(a) in (list, tuple) and type(b) in (list, tuple):
            if len(a) != len(b):
                return self.E.oblige(name, False, kind, "lengths %d, %d" % (len(a), len(b)))
            ok = True
            for x, y in zip(a, b):
                ok = self._eq(name, x, y, kind) and ok
            if not a:
                self.E.oblige(name, True, kind)
            return ok
        if type(a) is dict and type(b) is dict:
            if set(a) != set(b):
                return self.E.oblige(name, False, kind, "keys %r, %r" % (sorted(map(str, a)), sorted(map(str, b))))
            ok = True
            for k in a:
                ok = self._eq(name, a[k], b[k], kind) and ok
            if not a:
                self.E.oblige(name, True, kind)
            return ok
        if V.is_sym(a) or V.is_sym(b):
            r = a == b
            if r is NotImplemented:
                r = False
            return self.check(name, r, kind, "" if r is not False else "%r vs %r" % (a, b))
        return self.E.oblige(name, bool(a == b), kind, "%s vs %s" % (_short(a), _short(b)))

    def _eq_list(self, name, a, b, kind):
        """extensional: equal lengths, and equal elements at an arbitrary index"""
        import z3
        from . import values as V

        sa, sb = list(a.segs), list(b.segs)
        while sa and sb and (sa[0] is sb[0] or (sa[0].fn is sb[0].fn and z3.is_true(z3.simplify(V._z(sa[0].count) == V._z(sb[0].count))))):
            sa.pop(0), sb.pop(0)  # the same elements in front
        if len(sa) < len(a.segs):
            a, b = V.SList(sa), V.SList(sb)
            if not sa and not sb:
                return self.E.oblige(name, True, kind)
        la, lb = a.zlen(), b.zlen()
        ok = self.E.oblige(name + " [length]", z3.simplify(V._z(la) == V._z(lb)), kind)
        if not ok:
            return False
        ca, cb = a.concrete_len(), b.concrete_len()
        if ca is not None and ca == cb:
            for i in range(ca):
                self._eq(name, a.select(i), b.select(i), kind)
            return True
        # arbitrary index, in its own branch so the rest of the path is unaffected
        if self.E.choose(2) == 1:
            i = z3.Int(self.E.fresh_name("!e"))
            self.E.assume(z3.And(i >= 0, i < V._z(la)))
            self._eq(name + " [element]", a.select(i), b.select(i), kind)
            self.E.cut()
        return True

    def forall(self, seq, fn):
        """fn(i, element) at one arbitrary index (a branch of its own)"""
        import z3
        from . import values as V

        if isinstance(seq, (list, tuple)):
            for i, x in enumerate(seq):
                fn(i, x)
            return
        n = seq.zlen()
        if isinstance(n, int):
            for i in range(n):
                fn(i, seq.select(i))
            return
        if self.E.choose(2) == 1:
            i = z3.Int(self.E.fresh_name("!e"))
            self.E.assume(z3.And(i >= 0, i < V._z(n)))
            fn(V.mkint(i), seq.select(i))
            self.E.cut()

    def len(self, x):
        from .models import m_len

        return m_len(x)

    def not_(self, a):
        import z3
        from .values import mkbool, zb

        return (not a) if isinstance(a, bool) else mkbool(z3.Not(zb(a)))

    def and_(self, *a):
        import z3
        from .values import mkbool, zb

        return mkbool(z3.And(*[zb(i) for i in a]))

    def or_(self, *a):
        import z3
        from .values import mkbool, zb

        return mkbool(z3.Or(*[zb(i) for i in a]))

    def implies(self, a, b):
        import z3
        from .values import mkbool, zb

        return mkbool(z3.Implies(zb(a), zb(b)))

    def iff(self, a, b):
        from .values import mkbool, zb

        return mkbool(zb(a) == zb(b))

    def ite(self, c, a, b):
        import z3
        from .values import mkint, zb, zexpr

        if isinstance(c, bool):
            return a if c else b
        return mkint(z3.If(zb(c), zexpr(a), zexpr(b)))

    def enc(self, n, order, x):
        """n-byte encoding of the integer x"""
        from .values import KEnc, SBytes, zexpr

        if isinstance(x, int):
            return x.to_bytes(n, "big" if order == ">" else "little")
        return SBytes([KEnc(n, order, zexpr(x))])

    def utf8(self, name, lo=0):
        """arbitrary valid UTF-8 bytes"""
        return self.bytes(name, lo)

    def cover(self, name):
        """this point must be reachable (vacuity guard)"""
        self.E.reached["cover:" + name] = self.E.reached.get("cover:" + name, 0) + 1

    def truth(self, c):
        """decide c on this path (forks)"""
        return bool(c)

    # contracts --------------------------------------------------------------
    def contract(self, qual, fn):
        """replace the callee by its contract fn (symbolic mode only)"""
        target = _resolve(qual)
        if target is None:
            from .core import Unsupported

            raise Unsupported("callee %s under contract does not exist any more" % qual)
        self.E.stubs[id(target)] = (qual, fn)
        self.E.keep = getattr(self.E, "keep", []) + [target]

    def loop(self, qual, ordinal, **kw):
        from .hooks import LoopSpec
        from . import inlined

        # ("while", 1): the first while loop of the function
        kind, k = ordinal if isinstance(ordinal, tuple) else (None, ordinal)
        try:
            at = inlined.find(qual, kind, k)
        except inlined.Ambiguous as e:
            from .core import Unsupported

            raise Unsupported(str(e))
        if at is None and kind is None:
            # it may have become an expression
            self.E.loops_wanted.add("%s#%d" % (qual, k))
            return
        if at is None:
            from .core import Unsupported

            raise Unsupported("there is no such loop any more: %s %s" % (qual, ordinal))
        renames = inlined.renames(qual) if at[0] == qual else {}
        qual, ordinal = at
        kw["renames"] = renames
        self.E.loops_wanted.add("%s#%d" % (qual, ordinal))
        self.E.loopspecs[(qual, ordinal)] = LoopSpec(**kw)

    def symlists(self):
        """list displays of the code under proof become symbolic-length lists"""
        self.E.symlists = True

    def note(self, s):
        self.E.bounded_notes.add(s)


class _SeqInput:
    def __init__(self, s, el, ln):
        self.s, self.el, self.ln = s, el, ln

    def small(self, b):
        return self.ln <= b

    def concretize(self, m):
        from .core import eng

        n = m.eval(self.ln, model_completion=True).as_long()
        if n > 5000:
            raise ValueError("length %d" % n)
        out = []
        for i in range(n):
            x = self.el(i)
            out.append(x.concretize(m) if hasattr(x, "concretize") else x)
        return out


def _short(x):
    r = repr(x)
    return r if len(r) < 120 else r[:117] + "..."


def _resolve(qual):
    parts = qual.split(".")
    for k in range(len(parts) - 1, 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:k]))
        except ImportError:
            continue
        for p in parts[k:]:
            d = getattr(o, "__dict__", {})
            if p in d:
                o = d[p]
            elif p.startswith("__") and not p.endswith("__") and isinstance(o, type) and ("_%s%s" % (o.__name__.lstrip("_"), p)) in d:
                o = d["_%s%s" % (o.__name__.lstrip("_"), p)]
            else:
                o = getattr(o, p, None)
                if o is None:
                    return None
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            o = o.fget
        return o
    return None


# ============================================================== concrete mode
_LITERALS = None


def literals():
    """integer and string literals of the current source, to bias the search"""
    global _LITERALS
    if _LITERALS is None:
        import ast
        import glob
        import os

        ints, strs = set(), set()
        src = os.environ.get("VERIF_REPO_SRC", "/repo/src")
        for f in sorted(glob.glob(src + "/pypsrp/*.py")):
            try:
                t = ast.parse(open(f).read())
            except (SyntaxError, OSError):
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant):
                    if type(n.value) is int:
                        ints.add(n.value)
                    elif type(n.value) is str and 0 < len(n.value) <= 12:
                        strs.add(n.value)
        _LITERALS = (sorted(ints), sorted(strs))
    return _LITERALS


SPECIAL_CHARS = ["\x00", "\x01", "\t", "\n", "\r", " ", "_", "x", "X", "_x", "_x000A_", "<", "&", '"', "'", ">", "\x7f", "\x85", "\xa0", "é", "ß", "\ud7ff", "\ue000", "\ufeff", "\ufffe", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "漢", "0", "F", "]]>", "-", "."]


class Conc(_Common):
    sym = False
    symbolic = False
    unrolled = True

    def __init__(self, given=None, seed=0, choices=None, pairs=None):
        self.given = given
        self.pairs = pairs  # pairs of choices seen in the runs so far (pairwise mode)
        self.chosen = []
        self.rng = random.Random(seed)
        self.counter = {}
        self.undo = []
        self.record = {}
        self.prefix = choices  # forced prefix of choice indices (systematic mode)
        self.ctrace = []
        self.cpending = []
        self.checks = 0
        self.failed = []
        self.covers = set()

    def _undo(self, f):
        self.undo.append(f)

    def finish(self):
        for f in reversed(self.undo):
            f()
        self.undo = []

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    def _given(self, name):
        if self.given is not None and name in self.given:
            v = self.given[name]
            if isinstance(v, dict) and "__too_big__" in v:
                raise Skip("value too big")
            return True, v
        return False, None

    def _rec(self, name, v):
        self.record[name] = v
        return v

    # inputs
    def int(self, name, lo=None, hi=None, cmax=None):
        n = self.fresh_name(name)
        ok, g = self._given(n)
        if ok:
            if (lo is not None and g < lo) or (hi is not None and g > hi):
                raise Skip("out of range")
            return self._rec(n, int(g))
        r = self.rng
        L = lo if lo is not None else -(1 << 70)
        H = hi if hi is not None else (1 << 70)
        if cmax is not None and cmax < H and r.random() < 0.95:
            H = max(L, cmax)
        for _ in range(20):
            c = r.random()
            if c < 0.2:
                x = r.choice([L, H, L + 1, H - 1, L + 2])
            elif c < 0.45:
                x = max(L, 0) + r.randrange(0, 12)
            elif c < 0.65:
                x = r.choice(literals()[0]) + r.choice([-1, 0, 0, 1])
            elif c < 0.75:
                x = (1 << r.randrange(0, max(1, H.bit_length() + 1))) + r.choice([-1, 0, 1])
            else:
                b = r.randrange(0, max(1, (H - L).bit_length()) + 1)
                x = L + r.getrandbits(b) if b else L
            if L <= x <= H:
                return self._rec(n, x)
        return self._rec(n, r.randint(L, H))

    def bool(self, name):
        return self.choice(name, [False, True])

    def sbool(self, name):
        n = self.fresh_name(name)
        ok, g = self._given(n)
        return self._rec(n, bool(g) if ok else self.rng.random() < 0.5)

    def choice(self, name, options):
        options = list(options)
        n = self.fresh_name(name)
        ok, g = self._given(n)
        if ok:
            return options[self._rec(n, int(g))]
        if self.prefix is not None and len(options) > 1:
            i = len(self.ctrace)
            if i < len(self.prefix):
                k = self.prefix[i]
                if k >= len(options):
                    k = 0
            else:
                k = 0
                for alt in range(len(options) - 1, 0, -1):
                    self.cpending.append(self.ctrace + [alt])
            self.ctrace.append(k)
        elif self.pairs is not None and len(options) > 1:
            # the option with the most pairs not yet seen
            best = None
            for alt in self.rng.sample(range(len(options)), len(options)) if len(options) <= 64 else [self.rng.randrange(len(options)) for _ in range(16)]:
                new = sum((c, (n, alt)) not in self.pairs for c in self.chosen) + ((n, alt) not in self.pairs)
                if best is None or new > best:
                    best, k = new, alt
        else:
            k = self.rng.randrange(len(options))
        if self.pairs is not None and len(options) > 1:
            self.pairs.add((n, k))
            self.pairs.update((c, (n, k)) for c in self.chosen)
            if len(self.chosen) < 40:
                self.chosen.append((n, k))
        self._rec(n, k)
        return options[k]

    def bytes(self, name, lo=0, hi=None, cmax=None):
        nm = self.fresh_name(name)
        n = self.fresh_name(name + "!in")
        ok, g = self._given(n)
        if ok:
            g = dec(g) if not isinstance(g, bytes) else g
            if len(g) < lo or (hi is not None and len(g) > hi):
                raise Skip("length")
            return self._rec(n, g)
        r = self.rng
        top = min(x for x in (hi, cmax or 300) if x is not None)
        c = r.random()
        if c < 0.15:
            ln = lo
        elif c < 0.3:
            ln = top
        elif c < 0.6:
            ln = r.randint(lo, min(top, lo + 8))
        else:
            ln = r.randint(lo, top)
        ln = max(lo, min(ln, top))
        c = r.random()
        if c < 0.5:
            b = r.randbytes(ln)
        elif c < 0.7:
            b = bytes([r.choice([0, 255, 239, 187, 191, 60])]) * ln
        else:
            b = bytes(i & 0xFF for i in range(ln))
        if ln >= 3 and r.random() < 0.1:
            b = b"\xef\xbb\xbf" + b[3:]
        return self._rec(n, b)

    def str(self, name, pool=None, nonempty=False):
        n = self.fresh_name(name)
        ok, g = self._given(n)
        if ok:
            if nonempty and not g:
                raise Skip("empty")
            return self._rec(n, g)
        r = self.rng
        if pool and r.random() < 0.7:
            return self._rec(n, r.choice(pool))
        ln = r.choice([0, 1, 1, 2, 3, 5, 9])
        s = "".join(r.choice(SPECIAL_CHARS) if r.random() < 0.4 else chr(r.choice([r.randrange(32, 127), r.randrange(32, 0x2FF)])) for _ in range(ln))
        if r.random() < 0.1:
            s = r.choice(literals()[1])
        if nonempty and not s:
            s = "a"
        return self._rec(n, s)

    def real(self, name, lo=None, hi=None):
        n = self.fresh_name(name)
        ok, g = self._given(n)
        if ok:
            return self._rec(n, dec(g) if isinstance(g, dict) else float(g))
        r = self.rng
        L = lo if lo is not None else -1e6
        H = hi if hi is not None else 1e6
        return self._rec(n, r.choice([L, H, min(max(0.0, L), H), r.uniform(L, H), r.uniform(L, min(H, L + 2))]))

    def uuid(self, name):
        import uuid as U

        n = self.fresh_name(name)
        ok, g = self._given(n)
        if ok and isinstance(g, str):
            return U.UUID(self._rec(n, g))
        u = U.UUID(int=self.rng.getrandbits(128))
        self._rec(n, str(u))
        return u

    def uuid_str(self, u):
        return str(u)

    def opaque(self, name, **attrs):
        n = self.fresh_name(name)
        o = Token(n)
        for k, v in attrs.items():
            if not k.startswith("__"):
                setattr(o, k, v)
        return o

    def seq(self, name, kind="opaque", lo=0, hi=None, cmax=6, elo=None, ehi=None):
        n = self.fresh_name(name)
        ok, g = self._given(n)
        if ok:
            g = [dec(i) if isinstance(i, dict) else i for i in g]
            if kind == "opaque":
                return [Token("%s[%d]" % (n, i)) for i in range(len(g))]
            self._rec(n, g)
            return list(g)
        r = self.rng
        top = cmax if hi is None else min(hi, cmax)
        ln = r.randint(lo, max(lo, top))
        out = []
        for i in range(ln):
            if kind == "int":
                out.append(r.randint(elo if elo is not None else -50, ehi if ehi is not None else 50) if r.random() < 0.8 else r.choice([x for x in (elo, ehi, 0) if x is not None]))
            elif kind == "bytes":
                out.append(r.randbytes(r.randrange(elo or 0, (elo or 0) + 9)))
            elif kind == "str":
                out.append("".join(r.choice("abc_x<&\n é") for _ in range(r.randrange(0, 5))))
            else:
                out.append(Token("%s[%d]" % (n, i)))
        self._rec(n, ["tok"] * len(out) if kind == "opaque" else list(out))
        return out

    def dotted(self, name, cmax=5):
        n = self.fresh_name(name)
        ok, g = self._given(n)
        if ok:
            return self._rec(n, g)
        r = self.rng
        last = getattr(self, "_dotted", None)
        if last and r.random() < 0.5:
            # close to another one: same, with a few components changed, cut or added
            p = last.split(".")
            for _ in range(r.randint(0, 2)):
                i = r.randrange(len(p))
                p[i] = str(max(0, int(p[i]) + r.choice([-1, 1, 10])))
            p = p[: r.choice([len(p), len(p), r.randint(1, len(p))])] + r.choice([[], [], ["0"], ["0", "1"], ["0"] * r.randint(1, 6)])
            return self._rec(n, ".".join(p))
        self._dotted = self._dotted_new(r, r.choice([1, 2, 3, 4, 5, 6, 9, 12]) if cmax == 5 else r.randint(1, cmax))
        return self._rec(n, self._dotted)

    def _dotted_new(self, r, k):
        return ".".join(str(r.choice([0, 0, 1, 2, 9, 10, r.randrange(0, 1 << r.randrange(1, 40))])) for _ in range(k))

    def part(self, d, i):
        p = d.split(".")
        return int(p[i]) if i < len(p) else 0

    def parts(self, d):
        return len(d.split("."))

    # logic
    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def check(self, name, c, kind="post", detail=""):
        self.checks += 1
        if not c:
            self._fail(name, detail)
        return True

    def _fail(self, name, detail=""):
        self.failed.append((name, detail))
        raise Violation(name, detail)

    def check_eq(self, name, a, b):
        self.checks += 1
        if type(a) in (list, tuple) and type(b) in (list, tuple):
            a, b = list(a), list(b)
        try:
            ok = bool(a == b)
        except Exception as e:
            ok = False
        if not ok:
            self._fail(name, "%s vs %s" % (_short(a), _short(b)))
        return True

    _eq = lambda self, name, a, b, kind="post": self.check_eq(name, a, b)

    def forall(self, seq, fn):
        for i, x in enumerate(seq):
            fn(i, x)

    def len(self, x):
        return len(x)

    def not_(self, a):
        return not a

    def and_(self, *a):
        return all(bool(i) for i in a)

    def or_(self, *a):
        return any(bool(i) for i in a)

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def enc(self, n, order, x):
        return x.to_bytes(n, "big" if order == ">" else "little")

    def utf8(self, name, lo=0):
        nm = self.fresh_name(name)
        n = self.fresh_name(name + "!in")
        ok, g = self._given(n)
        if ok:
            g = dec(g) if not isinstance(g, bytes) else g
            try:
                g.decode("utf-8")
            except UnicodeDecodeError:
                g = bytes(b & 0x7F for b in g)
            return self._rec(n, g)
        b = self.str(name + "!s").encode("utf-8", "replace")
        if self.rng.random() < 0.3:
            b = b"\xef\xbb\xbf" + b
        return self._rec(n, b + b"a" * max(0, lo - len(b)))

    def cover(self, name):
        self.covers.add(name)

    def truth(self, c):
        return bool(c)

    def contract(self, qual, fn):
        pass

    def loop(self, qual, ordinal, **kw):
        pass

    def symlists(self):
        pass

    def note(self, s):
        pass


class Token:
    """concrete counterpart of an opaque object: equal only to itself"""

    def __init__(self, n):
        self._n = n

    def __repr__(self):
        return "<%s>" % self._n
