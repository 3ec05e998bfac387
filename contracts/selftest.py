"""Contracts on selftest/src/pypsrp/subject.py.  Those named wrong_... do not
hold: the engine has to refute them with an input that replays; frame_... leave
a write of the loop undeclared, which has to be noticed; all others have to be accepted."""
from pyvc.harness import contract

S = "pypsrp.subject"
P = "SELFTEST"


def cutting(v, name):
    f = getattr(v.mod(S), name)
    data, n = v.bytes("data", cmax=30), v.int("n", 1, cmax=9)
    if v.symbolic and not v.unrolled:

        def havoc(v, L0):
            k = v.int("consumed", 0)
            v.assume(k <= v.len(data))
            return {"data": data[k:], "out": v.seq("out", "bytes")}

        v.loop(S + "." + name, ("while", 1), havoc=havoc, inv=lambda v, L, L0: [("a rest", v.len(L["data"]) <= v.len(data))], step=lambda v, L, L1: (v.check_eq("the next piece", L1["out"][-1], L["data"][:n]), v.check_eq("the rest", L1["data"], L["data"][n:])))
    r = f(data, n)
    v.check("the last piece is no larger", v.len(r[-1]) <= n)
    if not v.symbolic or v.unrolled:
        t = b""
        for x in r:
            t = t + x
        v.check_eq("everything", t, data)


@contract(P)
def cuts(v):
    cutting(v, "cut")


@contract(P)
def wrong_cuts(v):
    cutting(v, "cut_wrong")


def summed(v, name):
    f = getattr(v.mod(S), name)
    items = v.seq("items", "bytes", cmax=25)
    if v.symbolic and not v.unrolled:
        before = {}

        def havoc(v, j, L0, seq):
            before["t"] = v.int("t", 0)
            return {"t": before["t"]}

        v.loop(S + "." + name, 1, havoc=havoc, inv=lambda v, j, L, L0, seq: [("not negative", L["t"] >= 0)], step=lambda v, j, x, L, L1: v.check_eq("adds its length", L1["t"], before["t"] + v.len(x)))
        f(items)
    else:
        t = 0
        for x in items:
            t = t + v.len(x)
        v.check_eq("the sum", f(items), t)


@contract(P)
def sums(v):
    summed(v, "total")


@contract(P, runs=400)
def wrong_sums(v):
    summed(v, "total_wrong")


def fed(v, name):
    items = v.seq("items", "bytes", cmax=25)
    got = []

    class Out:
        def put(self, x):
            got.append(x)

    if v.symbolic and not v.unrolled:

        def havoc(v, j, L0, seq):
            del got[:]
            return {}

        def step(v, j, x, L, L1):
            v.check("once", len(got) == 1)
            v.check_eq("itself", got[0], x)

        v.loop(S + "." + name, 1, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
        getattr(v.mod(S), name)(items, Out())
    else:
        getattr(v.mod(S), name)(items, Out())
        v.check("all", len(got) == len(items))


@contract(P)
def feeds(v):
    fed(v, "feed")


@contract(P, runs=400)
def wrong_early(v):
    fed(v, "feed_wrong")


def glued(v, name):
    items = v.seq("items", "bytes", cmax=5)
    r = getattr(v.mod(S), name)(items)
    if v.symbolic and not v.unrolled:
        v.internal(type(r).__name__ == "SJoin", "a join")
        v.check_eq("separator", r.sep, b"-")
        v.check_eq("as many", v.len(r.items), v.len(items))
        j = v.int("j", 0)
        v.assume(j < v.len(items))
        v.check_eq("without the first byte", r.items[j], items[j][1:])
    else:
        v.check("joined", r == b"-".join([x[1:] for x in items]))


@contract(P)
def glues(v):
    glued(v, "glue")


@contract(P)
def wrong_glue(v):
    glued(v, "glue_wrong")


def counted(v, declared):
    c = v.mod(S).Counter()
    items = v.seq("items", "bytes", cmax=5)
    if v.symbolic and not v.unrolled:

        def havoc(v, j, L0, seq):
            c.n = v.int("n", 0)
            v.assume(c.n == j)
            c.last = v.bytes("last")
            return {}

        v.loop(S + ".Counter.count", 1, havoc=havoc, inv=lambda v, j, L, L0, seq: [("counted", c.n == j)], heap=lambda L0: [(c, "n"), (c, "last")] if declared else [(c, "n")])
    c.count(items)
    v.check("as many as there are", c.n == v.len(items))


@contract(P)
def counts(v):
    counted(v, True)


@contract(P)
def frame_counts(v):
    counted(v, False)


def packed(v, name):
    a, b, d = v.int("a", 0, 2**64 - 1), v.int("b", 0, 2**32 - 1), v.bytes("d", cmax=9)
    v.check_eq("layout", getattr(v.mod(S), name)(a, b, d), v.enc(8, ">", a) + v.enc(4, ">", b) + d)


@contract(P)
def packs(v):
    packed(v, "pack")


@contract(P)
def wrong_packs(v):
    packed(v, "pack_wrong")


def divided(v, name):
    a, b = v.int("a", -(10**6), 10**6), v.int("b", 1, 1000)
    q, r = getattr(v.mod(S), name)(a, b)
    v.check("quotient and remainder", q * b + r == a)
    v.check("the remainder is not negative", v.and_(r >= 0, r < b))


@contract(P)
def divides(v):
    divided(v, "divide")


@contract(P)
def wrong_divides(v):
    divided(v, "divide_trunc")


@contract(P)
def masks(v):
    x = v.int("x", 0, 255)
    h, l = v.mod(S).flags(x)
    v.check("bits", h * 4 + l == x % 8)


@contract(P)
def wrong_masks(v):
    x = v.int("x", 0, 255)
    h, l = v.mod(S).flags(x)
    v.check("bits", h * 4 + l == x % 16)


def clamped(v, name):
    x, lo, hi = v.int("x"), v.int("lo"), v.int("hi")
    v.assume(lo <= hi)
    r = getattr(v.mod(S), name)(x, lo, hi)
    v.check("within", v.and_(lo <= r, r <= hi))
    v.check("itself if within", v.implies(v.and_(lo <= x, x <= hi), r == x))


@contract(P)
def clamps(v):
    clamped(v, "clamp")


@contract(P)
def wrong_clamps(v):
    clamped(v, "clamp_wrong")


def guarded(v, want):
    kind = v.choice("kind", ["ok", "value error", "key error"])
    x = []

    def fn(x):
        if kind == "value error":
            raise ValueError()
        if kind == "key error":
            raise KeyError()
        return 5

    box = []
    err = v.raises(KeyError, lambda: box.append(v.mod(S).guard(fn, x)))
    v.check("other errors are raised", (err is not None) == (kind == "key error"))
    v.check("always seen", x == ["seen"])
    v.check("result", err is not None or box == [want[kind]])


@contract(P)
def guards(v):
    guarded(v, {"ok": 5, "value error": "bad"})


@contract(P)
def wrong_guards(v):
    guarded(v, {"ok": 5, "value error": 5})


@contract(P)
def texts(v):
    s, n = v.str("s"), v.int("n")
    v.check_eq("text", v.mod(S).describe(s, n), s + "=" + (v.mod("pyvc.values").int_str(n) if v.symbolic else str(n)) + ";" + s)


@contract(P)
def wrong_texts(v):
    s, n = v.str("s"), v.int("n")
    v.check_eq("text", v.mod(S).describe(s, n), s + "=" + (v.mod("pyvc.values").int_str(n) if v.symbolic else str(n)) + "," + s)


@contract(P)
def codes(v):
    d = v.bytes("d", cmax=20)
    M = v.mod(S)
    v.check_eq("round trip", M.decode(M.encode(d)), d)


@contract(P)
def wrong_codes(v):
    d = v.bytes("d", cmax=20)
    M = v.mod(S)
    v.check_eq("round trip", M.decode(M.encode(d)), M.decode(M.encode(d + b"\0"))[1:])


@contract(P)
def ids(v):
    u = v.uuid("u")
    v.check_eq("read back", v.mod(S).ident(v.mod(S).again(u)), v.mod(S).ident(u))


@contract(P)
def slices(v):
    d = v.bytes("d", 4, cmax=20)
    t, m, r = v.mod(S).tail(d)
    v.check_eq("the last four", d[: v.len(d) - 4] + t, d)
    v.check_eq("all but the last", r + d[v.len(d) - 1 :], d)
    v.check("at most four", v.len(m) <= 4)


@contract(P)
def wrong_slices(v):
    d = v.bytes("d", 4, cmax=20)
    t, m, r = v.mod(S).tail(d)
    v.check("four in the middle", v.len(m) == 4)


@contract(P)
def wrong_latch(v):
    """claims that the order does not matter"""
    a, b = v.bool("a"), v.bool("b")
    f = v.mod(S).latch
    v.check("order", f([a, b]) == f([b, a]))


@contract(P)
def wrong_vacuous(v):
    """nothing is left to prove: must not count as accepted"""
    x = v.int("x")
    v.assume(x > 5)
    v.assume(x < 3)
    v.check("anything", x == 4)
