"""Run-time side of the instrumentation."""
import operator
import types

import z3

from . import core, models
from .core import PathAbort, Unsupported
from .values import *
from .values import _z, zadd, znorm, zi

_OPS = {
    "Add": operator.iadd,
    "Sub": operator.isub,
    "Mult": operator.imul,
    "BitOr": operator.ior,
    "BitAnd": operator.iand,
    "FloorDiv": operator.ifloordiv,
    "Mod": operator.imod,
}


def vc_call(f, *args, **kwargs):
    E = core.ENG
    if E is None:
        return f(*args, **kwargs)
    if f is isinstance and type(args[0]) is GenThunk:
        return models.m_isinstance(*args)
    # contracts substituted for callees
    if E.stubs:
        key = getattr(f, "__func__", f)
        try:
            stub = E.stubs.get(id(key))
        except TypeError:
            stub = None
        if stub is not None:
            E.contract_used["callee:" + stub[0]] = "callee replaced by its contract"
            if getattr(f, "__self__", None) is not None and key is not f:
                r = stub[1](f.__self__, *args, **kwargs)
            else:
                r = stub[1](*args, **kwargs)
            if E.iter_stack and isinstance(r, (list, dict, SList)):
                E.note_fresh(r)
            return r
    if E.iter_stack:
        n = getattr(f, "__name__", "")
        o = getattr(f, "__self__", None)
        if n in models.WRITE_METHODS and isinstance(o, (list, dict, set)):
            E.note_write(o, n)
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        fn = f.__func__ if t is types.MethodType else f
        g = fn.__globals__
        if "__vc_call__" in g:
            E.touched.add((g.get("__name__", "?") + "." + fn.__qualname__))
            if fn.__code__.co_flags & 0x20 and _syms(args, kwargs):
                return GenThunk(f, args, kwargs)
            return f(*args, **kwargs)
        if g.get("__name__", "").startswith(("pyvc", "contracts", "__main__")) or "__vc_harness__" in g:
            return f(*args, **kwargs)
        if id(fn) in models.ALWAYS:
            return models.ALWAYS[id(fn)](*args, **kwargs)
        if not _syms(args, kwargs):
            return f(*args, **kwargs)
        m = models.BY_ID.get(id(fn))
        if m is not None:
            return m(*args, **kwargs)
        if id(fn) in models.PASS:
            return f(*args, **kwargs)
        if getattr(f, "__self__", None) is not None and isinstance(f.__self__, Sym):
            return f(*args, **kwargs)
        raise Unsupported("library function %s.%s on symbolic arguments" % (g.get("__name__"), fn.__qualname__))
    if t is type or isinstance(f, type):
        if isinstance(f, type) and f.__module__.startswith("pypsrp"):
            r = f(*args, **kwargs)
            E.note_fresh(r)
            return r
        if not _syms(args, kwargs):
            r = f(*args, **kwargs)
            if E.iter_stack:
                E.note_fresh(r)
            return r
        m = models.BY_ID.get(id(f))
        if m is not None:
            return m(*args, **kwargs)
        if issubclass(f, BaseException) or id(f) in models.PASS or "__vc_ok__" in f.__dict__:
            return f(*args, **kwargs)
        if f.__module__.startswith(("contracts", "pyvc")):
            return f(*args, **kwargs)
        raise Unsupported("class %s on symbolic arguments" % f.__name__)
    if isinstance(f, types.BuiltinMethodType) and getattr(f, "__self__", None) is not None and not isinstance(f.__self__, types.ModuleType):
        if isinstance(f.__self__, Sym):
            return f(*args, **kwargs)
        if _syms(args, kwargs) or (f.__name__ == "join" and args and _gen(args[0])):
            return models.native_method(f, args, kwargs)
        return f(*args, **kwargs)
    if isinstance(f, types.MethodWrapperType) or isinstance(f, types.BuiltinFunctionType):
        if not _syms(args, kwargs):
            r = f(*args, **kwargs)
            if E.iter_stack and f.__name__ in ("SubElement", "Element"):
                E.note_fresh(r)
            return r
        m = models.BY_ID.get(id(f))
        if m is not None:
            return m(*args, **kwargs)
        if id(f) in models.PASS:
            r = f(*args, **kwargs)
            if E.iter_stack and f.__name__ in ("SubElement", "Element"):
                E.note_fresh(r)
            return r
        raise Unsupported("builtin %s on symbolic arguments" % getattr(f, "__name__", f))
    # other callables: harness stubs, partials, bound descriptors
    if isinstance(f, Sym):
        return f(*args, **kwargs)
    if type(f).__module__.startswith(("contracts", "pyvc")) or not _syms(args, kwargs):
        return f(*args, **kwargs)
    m = models.BY_ID.get(id(f))
    if m is not None:
        return m(*args, **kwargs)
    if id(f) in models.PASS:
        return f(*args, **kwargs)
    raise Unsupported("call of %r on symbolic arguments" % (f,))


def _gen(x):
    return isinstance(x, (types.GeneratorType, SList)) or type(x).__name__ in ("map", "filter", "_element_iterator")


def _syms(args, kwargs):
    for a in args:
        if isinstance(a, Sym) or deep_sym(a, 2):
            return True
    for a in kwargs.values():
        if isinstance(a, Sym) or deep_sym(a, 2):
            return True
    return False


def vc_get(o, k):
    if isinstance(k, Sym) and not isinstance(o, Sym):
        if type(o) in (dict,) or isinstance(o, dict):
            ok, key = models.dict_lookup(o, k)
            if not ok:
                raise KeyError(k)
            return o[key]
        if isinstance(o, (list, tuple)):
            return SList.of(o)[k]
        if isinstance(o, bytes):
            return SBytes.of(o)[k]
        return o[k]
    if isinstance(k, slice) and not isinstance(o, Sym) and any(isinstance(i, Sym) for i in (k.start, k.stop, k.step)):
        if isinstance(o, bytes):
            return SBytes.of(o)[k]
        if isinstance(o, list):
            return SList.of(o)[k]
        raise Unsupported("symbolic slice of %s" % type(o).__name__)
    return o[k]


def vc_set(o, k, v):
    if core.ENG is not None:
        core.ENG.note_write(o, "[]")
    if isinstance(k, Sym) and not isinstance(o, Sym):
        if isinstance(o, dict):
            ok, key = models.dict_lookup(o, k)
            if ok:
                o[key] = v
                return
            raise Unsupported("new symbolic key in a native dict")
        if isinstance(o, list):
            k = k.__index__()
    o[k] = v


def vc_del(o, k):
    if core.ENG is not None:
        core.ENG.note_write(o, "del")
    if isinstance(k, Sym) and isinstance(o, dict):
        ok, key = models.dict_lookup(o, k)
        if not ok:
            raise KeyError(k)
        del o[key]
        return
    del o[k]


def vc_augset(o, k, op, v):
    cur = vc_get(o, k)
    if op == "Add" and isinstance(cur, list):
        r = operator.iadd(cur, v)
    elif op in _OPS:
        r = _OPS[op](cur, v)
    else:
        raise Unsupported("augmented " + op)
    vc_set(o, k, r)


def vc_list(x):
    """a list display: symbolic from the start where the harness asks for it"""
    E = core.ENG
    if E is not None:
        if E.symlists:
            x = SList.of(x)
        if E.iter_stack:
            E.note_fresh(x)
    return x


def vc_new(x):
    if core.ENG is not None and core.ENG.iter_stack:
        core.ENG.note_fresh(x)
    return x


def vc_in(x, c):
    if isinstance(x, Sym):
        if isinstance(c, dict):
            return models.dict_lookup(c, x)[0]
        if isinstance(c, (set, frozenset)):
            return any(bool(x == i) for i in c)
        if isinstance(c, str):
            raise Unsupported("symbolic substring test")
        if isinstance(c, (list, tuple)):
            for i in c:
                if i is x or bool(x == i):
                    return True
            return False
    return x in c


def vc_mod(a, b):
    if type(a) in (str, bytes) or isinstance(a, SStr):
        if core.ENG is not None and (deep_sym(b) or isinstance(a, SStr)):
            return models.str_mod(a, b)
    return a % b


def vc_mul(a, b):
    if isinstance(a, (list, bytes, str)) and isinstance(b, Sym) or isinstance(b, (list, bytes, str)) and isinstance(a, Sym):
        if isinstance(b, (list, bytes, str)):
            a, b = b, a
        if isinstance(a, list) and len(a) == 1:
            n = zi(b)
            n = n if isinstance(n, int) else z3.If(n > 0, n, 0)
            v = a[0]
            return SList([Seg(znorm(_z(n)), lambda i: v)])
        raise Unsupported("repeat by a symbolic count")
    return a * b


def vc_fmt(v, conv, spec):
    if isinstance(v, Sym):
        if spec:
            raise Unsupported("format spec on a symbolic value")
        if conv not in (-1, ord("s")):
            raise Unsupported("conversion on a symbolic value")
        return models.m_str(v)
    if conv == ord("s"):
        v = str(v)
    elif conv == ord("r"):
        v = repr(v)
    elif conv == ord("a"):
        v = ascii(v)
    return format(v, spec)


def vc_fstr(parts):
    if deep_sym(parts):
        return models.fstr(parts)
    return "".join(parts)


def vc_w(o, attr):
    if core.ENG is not None and core.ENG.iter_stack:
        core.ENG.note_write(o, attr)
    return o


def vc_reraise():
    import sys

    e = sys.exc_info()[1]
    if isinstance(e, (PathAbort, Unsupported, core.Limit)):
        raise e


def vc_comp(f, it, cond):
    if isinstance(it, (SRange,)):
        lo = it
        if core.ENG.unroll is None:
            if cond is not None:
                raise Unsupported("filtering comprehension over a symbolic range")
            return SList([Seg(lo.zlen(), lambda i: f(lo.elem(i)))])
    if isinstance(it, SList) and it.concrete_len() is None:
        if cond is None:
            return it.map(lambda x: _pure(f, x))
        if core.ENG.unroll is None:
            raise Unsupported("filtering comprehension over a symbolic list")
    if cond is None:
        return [f(x) for x in it]
    return [f(x) for x in it if cond(x)]


def _pure(f, x):
    """evaluate a comprehension's element at a symbolic position: must not fork"""
    E = core.eng()
    n = len(E.trace)
    r = f(x)
    if len(E.trace) != n:
        raise Unsupported("comprehension element forks on a symbolic list")
    return r


# ---- loops -------------------------------------------------------------------
class LoopSpec:
    """Contract of one loop.

    closed(v, j, L0, seq) -> dict: value of each modified local at the start of
        iteration j (closed form); proved at entry and preserved by an arbitrary
        iteration, then assumed at exit with j = number of iterations.
    or, for while loops,
    havoc(v, L0) -> (dict, assumptions) and
    inv(v, L, L0) -> list of (name, condition) held before every test.
    whole: the loop ends early only by an exception (a break or a return in
        an arbitrary iteration is a violation).
    heap: objects (beside spec'd locals) the body may write to; `heap_state`
        like closed/havoc is done by the harness through callables.
    """

    def __init__(self, closed=None, havoc=None, inv=None, heap=None, seq=None, on_exit=None, step=None, pull=False, renames=None, whole=False):
        self.whole = whole
        self.renames = renames or {}
        self.closed = _fits(closed)
        self.havoc = _fits(havoc)
        self.inv = _fits(inv)
        self.heap = _fits(heap)
        self.seq = seq
        self.pull = pull
        self.on_exit = _fits(on_exit)
        self.step = _fits(step)


def _fits(f):
    """a loop contract names locals of the code; if these are gone (or hold
    other things) the contract does not apply, which says nothing about the
    property"""
    if f is None:
        return None

    def g(*a):
        try:
            return f(*a)
        except (LookupError, AttributeError, TypeError, NameError) as e:
            t = e.__traceback__
            while t is not None:
                if "/pypsrp/" in t.tb_frame.f_code.co_filename:
                    raise
                t = t.tb_next
            raise Unsupported("loop contract does not fit the code: %s: %s" % (type(e).__name__, str(e)[:100]))

    return g


def _renamed(spec, get, set_, mod):
    """the locals under the names the contract knows them by"""
    if not spec.renames:
        return get, set_, mod
    to = spec.renames
    back = {x: k for k, x in to.items()}
    return (
        lambda: {back.get(k, k): x for k, x in get().items()},
        lambda st: set_({to.get(k, k): x for k, x in st.items()}),
        [back.get(k, k) for k in mod],
    )


def _check_frame(E, frame, allowed, key):
    if any(o is Ellipsis for o in allowed):
        return  # the harness havocs the heap itself
    ids = {id(o) for o in allowed}
    one = {(id(o[0]), o[1]) for o in allowed if type(o) is tuple and len(o) == 2}
    for obj, what in frame:
        if id(obj) in ids or (id(obj), what) in one or id(obj) in E.fresh_ids:
            continue
        if what == "__init__":
            continue
        raise Unsupported("loop %s#%d writes %s.%s outside its frame" % (key[0], key[1], type(obj).__name__, what))


class SummEnd(BaseException):
    pass


class GenThunk:
    """call of an instrumented generator function with symbolic arguments"""

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs
        self.g = None

    def __iter__(self):
        if self.g is None:
            self.g = self.f(*self.args, **self.kwargs)
        return self.g

    def __next__(self):
        return next(iter(self))

    def close(self):
        if self.g is not None:
            self.g.close()

    def summarise(self):
        """the generator as a list, when it is one loop yielding once per
        iteration without carried state; None otherwise"""
        E = core.eng()

        def drive(mode, i=None):
            E.summ.append({"mode": mode, "i": i})
            g = self.f(*self.args, **self.kwargs)
            try:
                return g, next(g)
            finally:
                E.summ.pop()

        n0 = len(E.trace)
        try:
            drive("len")
            return None  # yields before, or without, a symbolic loop
        except SummEnd as e:
            n = e.args[0]
        except StopIteration:
            return None
        E.summ.append({"mode": "exit", "i": None})
        try:
            for _ in self.f(*self.args, **self.kwargs):
                return None
        finally:
            E.summ.pop()

        def elem(i):
            E.summ.append({"mode": "elem", "i": i})
            try:
                g = self.f(*self.args, **self.kwargs)
                x = next(g)
                try:
                    next(g)
                except SummEnd:
                    return x
                raise Unsupported("generator yields more than once per iteration")
            finally:
                E.summ.pop()

        return SList([Seg(n, elem)])


def _summ_gen(E, it, key, mod, targets):
    s = E.summ[-1]
    if set(mod) - set(targets):
        raise Unsupported("generator loop %s#%d carries state" % key)
    n = it.zlen()
    if s["mode"] == "len":
        raise SummEnd(n)
    if s["mode"] == "exit":
        return
    frame = []
    E.iter_stack.append(frame)
    try:
        yield _elem(it, s["i"])
    finally:
        _popframe(E, frame)
    if frame:
        _check_frame(E, frame, [], key)
    raise SummEnd()


def _popframe(E, frame):
    while E.iter_stack and E.iter_stack.pop() is not frame:
        pass


def vc_for(it, qual, n, get, set_, mod, targets):
    E = core.ENG
    if E is None:
        return it
    key = (qual, n)
    if E.summ and isinstance(it, (SRange, SList)) and not isinstance(it.zlen(), int):
        return _summ_gen(E, it, key, mod, targets)
    spec = E.loopspecs.get(key)
    if isinstance(it, GenThunk) and E.unroll is None and spec is not None:
        s = it.summarise()
        if s is not None:
            it = s
    if spec is None or E.unroll is not None:
        if isinstance(it, SRange) and E.unroll is None:
            n = it.zlen()
            if isinstance(n, int) and n <= 64:
                return [it.elem(i) for i in range(n)]
            raise Unsupported("loop %s#%d over a symbolic range has no contract" % key)
        if isinstance(it, SList):
            if it.concrete_len() is None and E.unroll is None:
                raise Unsupported("loop %s#%d over a symbolic list has no contract" % key)
            return iter(it)
        return it
    get, set_, mod = _renamed(spec, get, set_, mod)
    if spec.pull:
        return _for_pull(E, spec, it, key, get, set_, mod)
    if spec.seq is None and not isinstance(it, (SRange, SList)):
        if isinstance(it, (list, tuple)) and not deep_sym(it, 1):
            return it
        if not isinstance(it, (list, tuple)):
            return it
    if isinstance(it, (list, tuple)):
        return iter(it)
    return _for_gen(E, spec, it, key, get, set_, mod)


def _elem(it, j):
    return it.elem(j) if isinstance(it, SRange) else it.select(j)


def _for_gen(E, spec, it, key, get, set_, mod):
    from . import harness

    v = E.v
    L0 = get()
    E.loops_used.add("%s#%d" % key)
    n = it.zlen()
    nz = _z(n)
    if spec.havoc:
        yield from _for_havoc(E, v, spec, it, nz, key, get, set_, mod, L0)
        return
    if spec.closed is None:
        raise Unsupported("loop contract does not fit the code: %s#%d is a for loop" % key)
    st0 = spec.closed(v, mkint(0), L0, it)
    for k in st0:
        if k not in L0:
            raise Unsupported("loop contract of %s#%d names unknown local %r" % (key[0], key[1], k))
    for name, val in st0.items():
        v._eq("loop %s#%d: %s on entry" % (key[0].split(".")[-1], key[1], name), L0[name], val, kind="loop")
    if spec.inv:
        for nm, c in spec.inv(v, mkint(0), L0, it):
            v.check("loop %s#%d: %s on entry" % (key[0].split(".")[-1], key[1], nm), c, kind="loop")
    tgt = set(mod) - set(st0)
    if E.choose(2) == 0:
        j = z3.Int(E.fresh_name("!j"))
        E.assume(z3.And(j >= 0, j < nz))
        st = {k: x for k, x in spec.closed(v, mkint(j), L0, it).items() if k in st0}
        st.update({k: Poison(k) for k in tgt if k in L0})
        set_(st)
        if spec.inv:
            for nm, c in spec.inv(v, mkint(j), L0, it):
                v.assume(c)
        frame = []
        E.iter_stack.append(frame)
        try:
            yield _elem(it, j)
        finally:
            _popframe(E, frame)
        L1 = get()
        allowed = [st[k] for k in st0] + list(spec.heap(L0) if spec.heap else [])
        _check_frame(E, frame, allowed, key)
        st1 = {k: x for k, x in spec.closed(v, mkint(j + 1), L0, it).items() if k in st0}
        for name, val in st1.items():
            v._eq("loop %s#%d: %s preserved" % (key[0].split(".")[-1], key[1], name), L1[name], val, kind="loop")
        if spec.inv:
            for nm, c in spec.inv(v, mkint(j + 1), L0, it):
                v.check("loop %s#%d: %s preserved" % (key[0].split(".")[-1], key[1], nm), c, kind="loop")
        E.cut()
    st = {k: x for k, x in spec.closed(v, mkint(nz), L0, it).items() if k in st0}
    st.update({k: Poison(k) for k in tgt if k in L0})
    set_(st)
    if spec.inv:
        for nm, c in spec.inv(v, mkint(nz), L0, it):
            v.assume(c)
    if spec.on_exit:
        spec.on_exit(v, get())


def _snap(L):
    return {k: (x.copy() if isinstance(x, SList) else x) for k, x in L.items()}


def _for_havoc(E, v, spec, it, nz, key, get, set_, mod, L0):
    """havoc(v, j, L0, seq) -> arbitrary state; inv(v, j, L, L0, seq) -> what
    holds of the locals L before iteration j; step(v, j, x, L, L1)"""
    short = "%s#%d" % (key[0].split(".")[-1], key[1])

    def enter(j):
        st = spec.havoc(v, j, L0, it)
        for k in st:
            if k not in L0:
                raise Unsupported("loop contract of %s names unknown local %r" % (short, k))
        ids = list(st.values())
        st = dict(st)
        st.update({k: Poison(k) for k in set(mod) - set(st) if k in L0})
        set_(st)
        L = _snap(get())
        for nm, c in spec.inv(v, j, L, L0, it):
            v.assume(c)
        return L, ids

    for nm, c in spec.inv(v, mkint(0), _snap(L0), L0, it):
        v.check("loop %s: %s on entry" % (short, nm), c, kind="loop")
    if E.choose(2) == 0:
        j = z3.Int(E.fresh_name("!j"))
        E.assume(z3.And(j >= 0, j < nz))
        L, ids = enter(mkint(j))
        frame = []
        E.iter_stack.append(frame)
        x = _elem(it, j)
        try:
            yield x
        except GeneratorExit:
            if spec.whole:
                E.left.append(key)
            raise
        finally:
            _popframe(E, frame)
        L1 = get()
        _check_frame(E, frame, ids + list(spec.heap(L0) if spec.heap else []), key)
        if spec.step:
            spec.step(v, mkint(j), x, L, L1)
        for nm, c in spec.inv(v, mkint(j + 1), L1, L0, it):
            v.check("loop %s: %s preserved" % (short, nm), c, kind="loop")
        E.cut()
    L, ids = enter(mkint(nz))
    if spec.on_exit:
        spec.on_exit(v, get())


def _for_pull(E, spec, it, key, get, set_, mod):
    """a for loop over an arbitrary iterator whose state the harness owns:
    havoc(v, L0), inv(v, L, L0), step(v, x, L, L1)"""
    if spec.inv is None or spec.havoc is None:
        raise Unsupported("loop contract does not fit the code: %s#%d" % key)
    v = E.v
    L0 = get()
    E.loops_used.add("%s#%d" % key)
    short = "%s#%d" % (key[0].split(".")[-1], key[1])
    it = iter(it)
    end = object()
    for nm, c in spec.inv(v, L0, L0):
        v.check("loop %s: %s on entry" % (short, nm), c, kind="loop")
    st = spec.havoc(v, L0)
    for k in st:
        if k not in L0:
            raise Unsupported("loop contract of %s names unknown local %r" % (short, k))
    st = dict(st)
    st.update({k: Poison(k) for k in set(mod) - set(st) if k in L0})
    set_(st)
    L = get()
    for nm, c in spec.inv(v, L, L0):
        v.assume(c)
    x = next(it, end)
    if x is not end:
        frame = []
        E.iter_stack.append(frame)
        try:
            yield x
        except GeneratorExit:
            if spec.whole:
                E.left.append(key)
            raise
        finally:
            _popframe(E, frame)
        L1 = get()
        _check_frame(E, frame, list(st.values()) + list(spec.heap(L0) if spec.heap else []), key)
        if spec.step:
            spec.step(v, x, L, L1)
        for nm, c in spec.inv(v, L1, L0):
            v.check("loop %s: %s preserved" % (short, nm), c, kind="loop")
        E.cut()
    if spec.on_exit:
        spec.on_exit(v, get())


def vc_while(test, qual, n, get, set_, mod):
    E = core.ENG
    key = (qual, n)
    spec = E.loopspecs.get(key) if E is not None else None
    if E is None or spec is None or E.unroll is not None:
        return _while_plain(E, test, key)
    get, set_, mod = _renamed(spec, get, set_, mod)
    return _while_gen(E, spec, test, key, get, set_, mod)


def _while_plain(E, test, key):
    i = 0
    lim = None
    while True:
        if E is not None:
            before = len(E.trace)
        if not test():
            return
        if E is not None:
            if len(E.trace) != before:
                # symbolic test: bounded
                i += 1
                if E.unroll is None:
                    if i > 12:
                        raise Unsupported("loop %s#%d needs a contract" % key)
                elif i > E.unroll:
                    E.bounded_notes.add("loop %s#%d unrolled up to %d iterations" % (key[0], key[1], E.unroll))
                    E.cut()
            else:
                i += 1
                if i > 3000:
                    raise Unsupported("loop %s#%d does not terminate symbolically" % key)
        yield None


def _while_gen(E, spec, test, key, get, set_, mod):
    if spec.inv is None or spec.havoc is None:
        raise Unsupported("loop contract does not fit the code: %s#%d is a while loop" % key)
    v = E.v
    L0 = get()
    E.loops_used.add("%s#%d" % key)
    short = "%s#%d" % (key[0].split(".")[-1], key[1])
    for nm, c in spec.inv(v, L0, L0):
        v.check("loop %s: %s on entry" % (short, nm), c, kind="loop")
    st = spec.havoc(v, L0)
    for k in st:
        if k not in L0:
            raise Unsupported("loop contract of %s names unknown local %r" % (short, k))
    st = dict(st)
    st.update({k: Poison(k) for k in set(mod) - set(st) if k in L0})
    set_(st)
    L = get()
    for nm, c in spec.inv(v, L, L0):
        v.assume(c)
    if E.choose(2) == 0:
        if not test():
            E.abort()
        frame = []
        E.iter_stack.append(frame)
        try:
            yield None
        finally:
            _popframe(E, frame)
        L1 = get()
        allowed = [x for x in st.values()] + list(spec.heap(L0) if spec.heap else [])
        _check_frame(E, frame, allowed, key)
        if spec.step:
            spec.step(v, L, L1)
        for nm, c in spec.inv(v, L1, L0):
            v.check("loop %s: %s preserved" % (short, nm), c, kind="loop")
        E.cut()
    if test():
        E.abort()


NAMES = {
    "__vc_call__": vc_call,
    "__vc_get__": vc_get,
    "__vc_set__": vc_set,
    "__vc_del__": vc_del,
    "__vc_augset__": vc_augset,
    "__vc_in__": vc_in,
    "__vc_list__": vc_list,
    "__vc_new__": vc_new,
    "__vc_mod__": vc_mod,
    "__vc_mul__": vc_mul,
    "__vc_fmt__": vc_fmt,
    "__vc_fstr__": vc_fstr,
    "__vc_w__": vc_w,
    "__vc_reraise__": vc_reraise,
    "__vc_comp__": vc_comp,
    "__vc_for__": vc_for,
    "__vc_while__": vc_while,
}
