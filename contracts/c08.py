"""Runspace pool state machine."""
from pyvc.harness import contract

from .lib import *

POOL = ["powershell.RunspacePool.%s" % f for f in ("open", "close", "connect", "disconnect")]


def pstate(v):
    """any integer whatever as the pool's state"""
    return v.int("state", 0, 12)


@contract("C08", funcs=["powershell.RunspacePool.open", "powershell.RunspacePool._process_runspacepool_state", "shell.WinRS.open", "shell.WinRS.send"], runs=200)
def open_from_before_open(v):
    """sends every fragment of both negotiation messages in order, then polls
    until the server reports a new state, and takes that state"""
    X = v.mod("pypsrp.exceptions")
    big = v.choice("message size", [60, 150, 400, 900])
    srv = Server(v, max_payload=v.choice("max_payload", [121, 300, 5000]), size=big)
    lo, hi = v.int("min", 1), v.int("max", 1)
    quiet = v.choice("polls without a new state", [0, 1, 2, 80])
    what = v.choice("they bring", ["nothing", "other messages"])
    new = v.choice("reported", [OPENED, BROKEN, CLOSED])
    pool = new_pool(v, srv, BEFORE_OPEN, min_runspaces=lo, max_runspaces=hi)
    for _ in range(quiet):
        if what == "nothing":
            srv.quiet()
        else:
            srv.say(v.mod("pypsrp.messages").UserEvent())
    srv.say(pool_state(v, new))
    err = v.raises(X.InvalidPSRPOperation, pool.open)
    v.check("a broken pool raises, nothing else does", (err is not None) == (new == BROKEN))
    v.check_eq("the state is the one the server reported", pool.state, new)
    v.check_eq("negotiation messages in order, complete", [m.name for m in srv.messages], ["SessionCapability", "InitRunspacePool"])
    v.check("every fragment sent, in order", not srv.frag_errors and not srv.partial)
    v.check_eq("limits announced", [srv.messages[1].data.min_runspaces, srv.messages[1].data.max_runspaces], [lo, hi])
    k = [e.kind for e in srv.log]
    v.check("one create, then the remaining fragments, then polling", k[0] == "create" and k.count("create") == 1 and k == ["create"] + ["send"] * k.count("send") + ["receive"] * (quiet + 1))
    v.check("polls the pool, not a pipeline", all(e.command_id is None for e in srv.polls))
    v.check("shell is created under the pool's id", srv.log[0].resource.attrib.get("ShellId") == pool.id)


@contract("C08", funcs=["powershell.RunspacePool.open"], runs=60)
def open_wait_loop(v):
    """for any number of polls: open returns only with another state than
    negotiation-sent, and each round polls exactly once and sends nothing"""
    if v.unrolled:
        return
    srv = Server(v)
    pool = new_pool(v, srv, BEFORE_OPEN)
    box = {}

    def inv(v, L, L0):
        return [("pool is negotiating until told otherwise", len([e for e in srv.log if e.kind != "receive"]) == box.setdefault("n", len(srv.log)))]

    def havoc(v, L0):
        box["polls"] = len(srv.polls)
        st = v.int("state at loop head", 0, 12)
        pool.state = st
        srv.say(pool_state(v, v.choice("answer", [OPENED, NEG_SENT, CLOSED])))
        box["said"] = True
        return grown(v, L0)

    def step(v, L, L1):
        v.check("one poll per round", len(srv.polls) == box["polls"] + 1)

    v.loop("pypsrp.powershell.RunspacePool.open", ("while", 1), havoc=havoc, inv=inv, step=step, heap=lambda L0: [...])
    pool.open()
    v.check("open returns only after a new state was reported", pool.state != NEG_SENT)


@contract("C08", funcs=["powershell.RunspacePool.open"], runs=1, sym=False, bounded="12,000 polls")
def open_waits_long(v):
    """however long the server takes to report a state"""
    n = 12000
    srv = Server(v)
    pool = new_pool(v, srv, BEFORE_OPEN)
    srv.script.extend([()] * n)
    srv.say(pool_state(v, OPENED))
    pool.open()
    v.check("open returns only after a new state was reported", len(srv.polls) == n + 1 and v.truth(pool.state == OPENED))


@contract("C08", funcs=["powershell.RunspacePool.open"], runs=60)
def open_other_states(v):
    X = v.mod("pypsrp.exceptions")
    srv = Server(v)
    st = pstate(v)
    v.assume(st != BEFORE_OPEN)
    pool = new_pool(v, srv, st, opened=True)
    if v.truth(st == OPENED):
        pool.open()
    else:
        v.check("invalid-state error", v.raises(X.InvalidRunspacePoolStateError, pool.open) is not None)
    v.check("nothing is sent", len(srv.log) == 0)
    v.check_eq("state unchanged", pool.state, st)


@contract("C08", funcs=["powershell.RunspacePool.close", "shell.WinRS.close"], runs=60)
def close_any_state(v):
    srv = Server(v)
    st = pstate(v)
    v.assume(st != BEFORE_OPEN)
    pool = new_pool(v, srv, st, opened=True)
    sel = pool.shell._selector_set
    pool.close()
    if v.truth(v.or_(st == CLOSED, st == CLOSING, st == BROKEN)):
        v.check("nothing is sent", len(srv.log) == 0)
        v.check_eq("state unchanged", pool.state, st)
    else:
        v.check_eq("one close", srv.kinds(), ["delete"])
        v.check("closes this pool's shell", srv.log[0].selectors is sel and srv.log[0].uri == pool.shell.resource_uri)
        v.check_eq("closed", pool.state, CLOSED)
        n = len(srv.log)
        pool.close()
        v.check("closing again does nothing", len(srv.log) == n)
        v.check_eq("still closed", pool.state, CLOSED)


@contract("C08", funcs=["powershell.RunspacePool.close", "shell.WinRS.close", "powershell.RunspacePool.__exit__"], runs=20)
def close_never_opened(v):
    """a pool whose shell was never created sends no close"""
    srv = Server(v)
    pool = new_pool(v, srv, BEFORE_OPEN)
    v.choice("how", [pool.close, lambda: pool.__exit__(None, None, None)])()
    v.check("nothing is sent", len(srv.log) == 0)
    v.check_eq("closed", pool.state, CLOSED)


@contract("C08", funcs=["powershell.RunspacePool.disconnect"], runs=100)
def disconnect_any_state(v):
    X = v.mod("pypsrp.exceptions")
    P = v.mod(PS)
    srv = Server(v)
    st = pstate(v)
    pool = new_pool(v, srv, st, opened=True)
    n = v.choice("pipelines", [0, 1, 2])
    pipes, before = [], []
    for i in range(n):
        ps = new_pipe(v, pool)
        ps.state = v.int("pipeline state", 0, 6)
        before.append(ps.state)
        pool.pipelines[ps.id] = ps
        pipes.append(ps)
    if v.truth(st == OPENED):
        pool.disconnect()
        v.check_eq("one disconnect", srv.kinds(), ["disconnect"])
        v.check_eq("of this shell", srv.log[0].selector("ShellId"), pool.id)
        v.check_eq("disconnected", pool.state, DISCONNECTED)
        for ps in pipes:
            v.check_eq("its pipelines are marked disconnected", ps.state, P_DISCONNECTED)
        pool.disconnect()
        v.check("no-op when disconnected", len(srv.log) == 1)
        return
    if v.truth(st == DISCONNECTED):
        pool.disconnect()
    else:
        v.check("invalid-state error", v.raises(X.InvalidRunspacePoolStateError, pool.disconnect) is not None)
    v.check("nothing is sent", len(srv.log) == 0)
    v.check_eq("state unchanged", pool.state, st)
    for ps, b in zip(pipes, before):
        v.check_eq("pipelines unchanged", ps.state, b)


@contract("C08", funcs=["powershell.RunspacePool.disconnect"], runs=1, conc=False)
def disconnect_any_pipelines(v):
    """every pipeline of the pool is marked disconnected, however many"""
    if v.unrolled:
        return
    V = v.mod("pyvc.values")
    srv = Server(v)
    pool = new_pool(v, srv, OPENED, opened=True)
    n = v.int("pipelines", 0)
    g = {"turns": 0}

    class Pipe(Fake):
        def __setattr__(self, a, x):
            self.v.internal(a == "state", "only the state of a pipeline is set")
            self.__dict__[a] = x

    def pipe(i):
        p = Pipe(v)
        p.__dict__["state"] = v.int("state of a pipeline", 0, 6)
        return p

    class Pipes(Fake):
        def values(self):
            return V.SList([V.Seg(V._z(V.zi(n)), pipe)])

        def items(self):
            return V.SList([V.Seg(V._z(V.zi(n)), lambda i: (v.opaque("id"), pipe(i)))])

    pool.pipelines = Pipes(v)

    def havoc(v, j, L0, seq):
        g["seq"] = seq
        return {}

    def step(v, j, x, L, L1):
        p = x[1] if type(x) is tuple else x
        v.check_eq("the pipeline is marked disconnected", p.state, P_DISCONNECTED)

    v.loop("pypsrp.powershell.RunspacePool.disconnect", 1, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
    pool.disconnect()
    v.check_eq("a turn per pipeline", v.len(g["seq"]), n)
    v.check_eq("one disconnect", srv.kinds(), ["disconnect"])
    v.check_eq("of this shell", srv.log[0].selector("ShellId"), pool.id)
    v.check_eq("disconnected", pool.state, DISCONNECTED)


@contract("C08", funcs=["powershell.RunspacePool.connect", "powershell.RunspacePool._connect_existing_client"], runs=60)
def connect_any_state(v):
    X = v.mod("pypsrp.exceptions")
    srv = Server(v)
    st = pstate(v)
    pool = new_pool(v, srv, st, opened=True)
    if v.truth(st == DISCONNECTED):
        pool.connect()
        v.check_eq("one reconnect", srv.kinds(), ["reconnect"])
        v.check_eq("of this shell", srv.log[0].selector("ShellId"), pool.id)
        v.check_eq("opened", pool.state, OPENED)
        pool.connect()
        v.check("no-op when opened", len(srv.log) == 1)
        return
    if v.truth(st == OPENED):
        pool.connect()
    else:
        v.check("invalid-state error", v.raises(X.InvalidRunspacePoolStateError, pool.connect) is not None)
    v.check("nothing is sent", len(srv.log) == 0)
    v.check_eq("state unchanged", pool.state, st)


@contract("C08", funcs=["powershell.RunspacePool.get_command_metadata", "powershell.RunspacePool.reset_runspace_state"], runs=100)
def other_operations_guarded(v):
    X = v.mod("pypsrp.exceptions")
    srv = Server(v)
    st = pstate(v)
    v.assume(st != OPENED)
    op = v.choice("op", ["metadata", "reset"])
    pool = new_pool(v, srv, st, opened=True)
    pool.protocol_version = "2.3"
    if op == "metadata":
        v.check("invalid-state error", v.raises(X.InvalidRunspacePoolStateError, pool.get_command_metadata, "x") is not None)
    elif v.truth(st == BEFORE_OPEN):
        pool.reset_runspace_state()
    else:
        v.check("invalid-state error", v.raises(X.InvalidRunspacePoolStateError, pool.reset_runspace_state) is not None)
    v.check("nothing is sent", len(srv.log) == 0)
    v.check_eq("state unchanged", pool.state, st)


@contract("C08", funcs=["powershell.RunspacePool._process_runspacepool_state"], runs=60)
def state_message(v):
    """a state message from the server during any operation"""
    X = v.mod("pypsrp.exceptions")
    srv = Server(v)
    pool = new_pool(v, srv, OPENED)
    new = v.int("reported", 0, 12)
    err = v.raises(X.InvalidPSRPOperation, pool_poll, v, srv, pool, pool_state(v, new))
    v.check_eq("state taken over", pool.state, new)
    v.check("a broken state raises, no other does", v.iff(err is not None, new == BROKEN))


@contract("C08", funcs=POOL, runs=300, bounded="sequences of at most 4 operations")
def sequences(v):
    """random life cycles against the state machine of the property"""
    X = v.mod("pypsrp.exceptions")
    srv = Server(v)
    pool = new_pool(v, srv, BEFORE_OPEN)
    st = BEFORE_OPEN
    for _ in range(4):
        op = v.choice("op", ["open", "close", "disconnect", "connect", "stop"])
        if op == "stop":
            break
        n = len(srv.log)
        ok = True
        want = None
        if op == "open":
            want = {BEFORE_OPEN: OPENED, OPENED: OPENED}.get(st)
            srv.script = [(pool_state(v, OPENED),)]
        elif op == "close":
            want = CLOSED
        elif op == "disconnect":
            want = {OPENED: DISCONNECTED, DISCONNECTED: DISCONNECTED}.get(st)
        else:
            want = {DISCONNECTED: OPENED, OPENED: OPENED}.get(st)
        err = v.raises(X.InvalidRunspacePoolStateError, getattr(pool, op))
        v.check("refused exactly when the state machine says so", (err is not None) == (want is None))
        if want is None or want == st:
            v.check("nothing sent", len(srv.log) == n)
        if want is not None:
            st = want
        v.check_eq("state follows the state machine", pool.state, st)


@contract("C08", funcs=["powershell.RunspacePool.open"], runs=1, conc=False)
def open_with_any_fragments(v):
    """the first fragment of the negotiation is in the create request, the
    others follow in order, for any number of them"""
    if v.unrolled:
        return
    srv = Server(v)
    pool = new_pool(v, srv, BEFORE_OPEN)
    n, F = v.int("fragments", 1), v.z3fun("fragment", "bytes")
    made, created = [], []

    def multiple(self, msgs, rpid, pid=None, *a, **k):
        made.append(([type(m).__name__ for m in msgs], rpid, pid))
        return any_fragments(v, n, F)

    def create(options=None, content=None):
        created.append(content)
        v.check("nothing is sent before", not log)
        pool.shell.opened = True

    def receive(self, *a, **k):
        self.state = OPENED
        return []

    v.contract(PS + ".Fragmenter.fragment_multiple", multiple)
    log, g = fragments_sent(v, "pypsrp.powershell.RunspacePool.open", ("for", 1), pool, F, 1, "stdin")
    v.patch(pool.shell, "open", create)
    v.contract(PS + ".RunspacePool._receive", receive)
    pool.open()
    v.internal(len(made) == 1, "one fragment_multiple call")
    v.check_eq("both negotiation messages, under the pool's id", made, [(["SessionCapability", "InitRunspacePool"], pool.id, None)])
    v.check("one create", len(created) == 1)
    v.check_eq("with the first fragment", v.mod("pyvc.models").b64decode(created[0].text), F(0))
    v.check_eq("a request per other fragment", g.get("n"), n - 1)
    v.check("no other request", not log and not srv.log)


@contract("C08", funcs=["powershell.RunspacePool.__enter__", "powershell.RunspacePool.__exit__", "powershell.RunspacePool.open", "powershell.RunspacePool.close"], runs=60)
def with_block(v):
    """a with block opens the pool and closes it however the block ends"""
    srv = Server(v)
    pool = new_pool(v, srv, BEFORE_OPEN)
    srv.say(pool_state(v, OPENED))
    how = v.choice("the block", ["ends", "raises", "closes", "breaks the pool"])
    error = block_error(v) if how == "raises" else None
    seen = []

    def block():
        with pool as p:
            seen.append((p is pool, p.state, srv.kinds()))
            if how == "raises":
                raise error
            if how == "closes":
                p.close()
            if how == "breaks the pool":
                p.state = BROKEN

    e = v.raises(BaseException, block)
    v.check("the block runs once, with this pool opened", len(seen) == 1 and seen[0][0] is True and v.truth(seen[0][1] == OPENED))
    v.check("created once before it, not closed yet", seen[0][2].count("create") == 1 and "delete" not in seen[0][2])
    v.check("an error of the block is not lost", (e is error) if how == "raises" else e is None)
    v.check("closed once, a broken pool not at all", srv.kinds().count("delete") == (how != "breaks the pool"))
    v.check("its state", v.truth(pool.state == (BROKEN if how == "breaks the pool" else CLOSED)))
