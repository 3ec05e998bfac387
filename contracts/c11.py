"""Pool calls are answered by the response carrying their own call id."""
from pyvc.harness import contract

from .lib import *

FN = ["powershell.RunspacePool.%s" % f for f in ("min_runspaces", "max_runspaces", "get_available_runspaces", "reset_runspace_state", "_process_runspacepool_availability")]
MSG = {"min": "SetMinRunspaces", "max": "SetMaxRunspaces", "reset": "ResetRunspaceState", "available": "GetAvailableRunspaces"}


def call(pool, what, value=None):
    if what in ("min", "max"):
        setattr(pool, what + "_runspaces", value)
        return None
    if what == "reset":
        return pool.reset_runspace_state()
    return pool.get_available_runspaces()


def limits(pool):
    return [pool.min_runspaces, pool.max_runspaces]


def opened(v, srv, lo, hi):
    pool = new_pool(v, srv, OPENED, min_runspaces=lo, max_runspaces=hi)
    pool.protocol_version = "2.3"
    return pool


def own(v, srv, answer):
    """the server's answer to the last request"""
    return lambda: (availability(v, answer, srv.messages[-1].data.ci),)


@contract("C11", funcs=FN, runs=300)
def request_and_answer(v):
    X = v.mod("pypsrp.exceptions")
    srv = Server(v)
    what = v.choice("call", sorted(MSG))
    lo, hi, new = v.int("min", 1, 2**31 - 1), v.int("max", 1, 2**31 - 1), v.int("requested", -5, 2**31 - 1)
    pool = opened(v, srv, lo, hi)
    used = []
    # earlier requests, one of them never answered
    for i in range(v.choice("earlier calls", [0, 1, 2])):
        w = v.choice("earlier", ["available", "unanswered", "reset unanswered"])
        if w != "available":
            srv.fault(5)
            late = w.split()[0] if w != "unanswered" else "available"
            v.raises(X.WSManFaultError, call, pool, late)
        else:
            srv.script.append(own(v, srv, 3))
            call(pool, "available")
        used.append(srv.messages[-1].data.ci)
    unanswered = [c for c in used if c in pool.ci_table]
    n, np = len(srv.messages), len(srv.polls)
    if what in ("min", "max"):
        v.assume(new != (lo if what == "min" else hi))
    ok = v.choice("server says", [True, False])
    count = v.int("count", 0, 2**31 - 1)
    empties = v.choice("empty answers first", [0, 1])
    for _ in range(empties):
        srv.quiet()
    other = bool(unanswered) and v.bool("answer to an earlier request first")
    together = other and v.bool("in the same response")
    o = (lambda: availability(v, True if late == "reset" else v.choice("earlier count", [7, 0]), unanswered[-1]))
    if other and not together:
        srv.script.append(lambda: (o(),))
    ans = count if what == "available" else ok
    srv.script.append((lambda: (o(),) + own(v, srv, ans)()) if together else own(v, srv, ans))
    err = None
    r = None
    try:
        r = call(pool, what, new)
    except X.InvalidPSRPOperation as e:
        err = e
    sent = srv.messages[n:]
    v.check_eq("one request of the right kind", [m.name for m in sent], [MSG[what]])
    v.check("sent to the pool", all(k == "send" and s == "stdin" and c is None for k, s, c in sent[0].via))
    v.check("a call id never used before", all(sent[0].data.ci != c for c in used))
    v.check_eq("polled until its own answer arrived", len(srv.polls) - np, empties + (1 if other and not together else 0) + 1)
    if what in ("min", "max"):
        v.check_eq("carries the requested value", getattr(sent[0].data, what + "_runspaces"), new)
    if what == "available":
        v.check_eq("the server's count is returned", r, count)
        v.check("no error", err is None)
        v.check_eq("no limit changed", limits(pool), [lo, hi])
    else:
        v.check("an error exactly on a negative answer", (err is not None) == (not ok))
        w = [lo, hi]
        if ok and what == "min":
            w[0] = new
        if ok and what == "max":
            w[1] = new
        v.check_eq("limits: the requested one only when confirmed", limits(pool), w)


@contract("C11", funcs=FN, runs=80)
def fresh_ids(v):
    """for any number of earlier calls: the id is not among those in the table
    of calls, and the next one is greater"""
    srv = Server(v)
    what = v.choice("call", sorted(MSG))
    pool = opened(v, srv, 1, 1)
    v.need(pool, "_ci_counter")
    c = v.int("counter", 0, 2**40)
    k = v.int("outstanding id", 0)
    v.assume(k < c)
    pool._ci_counter = c
    if v.symbolic:
        from pyvc.values import SMap

        pool.ci_table = SMap()
    pool.ci_table[k] = lambda r: r
    ids = []
    for _ in range(2):
        srv.script.append(own(v, srv, True if what != "available" else 4))
        call(pool, what, 2 + len(ids))
        ids.append(srv.messages[-1].data.ci)
    v.check("never an id in use", v.and_(ids[0] != k, ids[1] != k))
    v.check("ids strictly increase from the counter", v.and_(ids[0] >= c, ids[1] > ids[0], pool._ci_counter > ids[1]))
    v.check("the outstanding call is still waiting", callable(pool.ci_table[k]))


@contract("C11", funcs=FN, runs=30)
def wait_loops(v):
    """any number of polls: the call returns only once its own id is answered,
    polling once per round and sending nothing"""
    if v.unrolled:
        return
    srv = Server(v)
    what = v.choice("call", sorted(MSG))
    pool = opened(v, srv, 1, 1)
    box = {"own": False}
    new = v.int("requested", 2, 100)
    # an unanswered earlier request
    srv.fault(5)
    X = v.mod("pypsrp.exceptions")
    before = v.choice("unanswered", ["available", "reset"])
    v.raises(X.WSManFaultError, call, pool, before)
    earlier = srv.messages[-1].data.ci

    unanswered = pool.ci_table[earlier]

    def havoc(v, L0):
        box["n"] = len(srv.log)
        if v.bool("the other one is answered"):
            pool.ci_table[earlier] = 3 if before == "available" else True
        else:
            pool.ci_table[earlier] = unanswered
        box["answered"] = v.bool("already answered")
        if box["answered"]:
            pool.ci_table[srv.messages[-1].data.ci] = 9 if what == "available" else True
            return {"avail_runspaces": 9} if "avail_runspaces" in L0 else {}
        a = v.choice("next answer", ["own", "other", "none"])
        if a == "own":
            box["own"] = True
            srv.script.append(own(v, srv, 9 if what == "available" else True))
        elif a == "other" and pool.ci_table[earlier] is unanswered:
            srv.say(availability(v, 3 if before == "available" else True, earlier))
        else:
            srv.quiet()
        return {"avail_runspaces": None} if "avail_runspaces" in L0 else {}

    def step(v, L, L1):
        v.check("one poll per round, nothing sent", srv.kinds()[box["n"] :] == ["receive"])
        answered = isinstance(pool.ci_table.get(srv.messages[-1].data.ci), int)
        v.check("polls only while unanswered", not box["answered"])
        v.check("answered exactly by the response with the own id", answered == box["own"])

    name = {"min": "min_runspaces", "max": "max_runspaces", "reset": "reset_runspace_state", "available": "get_available_runspaces"}[what]
    v.loop("pypsrp.powershell.RunspacePool." + name, ("while", 1), havoc=havoc, inv=lambda v, L, L0: [], step=step, heap=lambda L0: [...])
    call(pool, what, new)
    v.check("returns only with the answer to its own id", box["answered"])


@contract("C11", funcs=FN, runs=60)
def unchanged_or_not_open(v):
    srv = Server(v)
    what = v.choice("call", ["min", "max"])
    lo, hi, new = v.int("min", 1), v.int("max", 1), v.int("requested")
    if v.bool("not yet open"):
        pool = new_pool(v, srv, BEFORE_OPEN, min_runspaces=lo, max_runspaces=hi)
        call(pool, what, new)
        v.check_eq("stored", limits(pool), [new, hi] if what == "min" else [lo, new])
    else:
        pool = opened(v, srv, lo, hi)
        call(pool, what, lo if what == "min" else hi)
        v.check_eq("unchanged", limits(pool), [lo, hi])
    v.check("nothing is sent", len(srv.log) == 0)


@contract("C11", funcs=["powershell.RunspacePool.reset_runspace_state"], runs=60)
def reset_guard(v):
    X = v.mod("pypsrp.exceptions")
    srv = Server(v)
    pool = opened(v, srv, 1, 1)
    ver = v.choice("protocol", ["2.0", "2.1", "2.2", "2.3", "2.10", "3.0"])
    pool.protocol_version = ver
    st = v.int("state", 0, 12)
    pool.state = st
    if v.truth(st == BEFORE_OPEN):
        pool.reset_runspace_state()
    elif v.truth(st != OPENED):
        v.check("invalid-state error", v.raises(X.InvalidRunspacePoolStateError, pool.reset_runspace_state) is not None)
    elif ver in ("2.0", "2.1", "2.2"):
        v.check("refused by an older protocol", v.raises(X.InvalidPSRPOperation, pool.reset_runspace_state) is not None)
    else:
        srv.script.append(own(v, srv, True))
        pool.reset_runspace_state()
        v.check_eq("one request", [m.name for m in srv.messages], ["ResetRunspaceState"])
        return
    v.check("nothing is sent", len(srv.log) == 0)
    v.check_eq("state unchanged", pool.state, st)


@contract("C11", funcs=["powershell.RunspacePool.get_command_metadata", "messages.GetCommandMetadata.__init__", "complex_objects.CommandMetadata.__init__"], runs=200, bounded="up to 2 names and 2 commands found; texts and command types arbitrary")
def command_metadata(v):
    """a query asks for exactly what was given and returns every command found"""
    C, M, S = v.mod("pypsrp.complex_objects"), v.mod("pypsrp.messages"), v.mod("pypsrp.serializer")
    plain_text(v)
    srv = Server(v)
    sent = []

    def size(m):
        if type(m.data).__name__ == "GetCommandMetadata":
            sent.append(S.Serializer().serialize(m.data))
        return 60

    srv.size = size
    pool = opened(v, srv, 1, 1)
    one = v.choice("names", ["one text", "none", "one", "two"])
    names = [v.str("name", pool=["Get-Item", "*", "a b"]) for _ in range({"none": 0, "two": 2}.get(one, 1))]
    kw, types = {}, 0x1FF
    if v.choice("types given", [False, True]):
        kw["command_types"] = types = v.int("types", 0, 0x1FF)
    for k in ("namespace", "arguments"):
        c = v.choice(k, ["left", "given"] if v.symbolic else ["left", None, "given"])
        if c != "left":
            kw[k] = None if c is None else [v.str(k, pool=["x", "y"])]
    found = [v.str("found", pool=["Get-Item", "", "c"]) for _ in range(v.choice("found", [0, 2] if v.symbolic else [0, 1, 2]))]

    # an XML document cannot hold these two characters
    v.assume(v.symbolic or not any(c in "".join(found) for c in "\ufffe\uffff"))

    def output(o):
        m = M.PipelineOutput()
        m.data = S.Serializer().deserialize(S.Serializer().serialize(o))
        return m

    metas = [C.CommandMetadata(name=n, namespace="ns%d" % i, help_uri="", command_type=C.CommandType(value=8), output_type=[], parameters={}) for i, n in enumerate(found)]
    srv.say(*([output(C.CommandMetadataCount(count=len(found)))] + [output(m) for m in metas] + [pipe_state(v, COMPLETED)]))
    got = pool.get_command_metadata(names[0] if one == "one text" else names, **kw)
    v.check("one request, on the pool's shell", len(sent) == 1 and [m.name for m in srv.messages] == ["GetCommandMetadata"])
    x = sent[0]

    def texts(what, el, want):
        if want is None:
            v.check(what + ": none", el is None or el.tag == "Nil")
            return
        l = items(el)
        v.check(what + ": a list of as many texts", l is not None and [e.tag for e in l] == ["S"] * len(want))
        for e, w in zip(l or [], want):
            v.check_eq(what, unescape(v, e.text) or "", w)

    texts("the names", prop(x, "Name"), names)
    texts("the namespaces", prop(x, "Namespace"), kw.get("namespace"))
    texts("the arguments", prop(x, "ArgumentList"), kw.get("arguments"))
    ct = prop(x, "CommandType")
    n = S.Serializer().deserialize(ct if ct.tag == "I32" else ct.find("I32"))
    v.check_eq("the command types", n, types)
    v.check("one entry per command", isinstance(got, list) and len(got) == len(found) and all(type(g).__name__ == "CommandMetadata" for g in got))
    for i, (g, n) in enumerate(zip(got, found)):
        v.check_eq("in the order reported", g.name, n)
        v.check("with its own details", g.namespace == "ns%d" % i and g.command_type.value == 8)
