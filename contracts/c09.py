"""Pipeline state machine."""
from pyvc.harness import contract

from .lib import *


def pstate(v):
    return v.int("state", 0, 9)


def mk(v, st, srv=None, cmds=1):
    P = v.mod(PS)
    srv = srv or Server(v)
    pool = new_pool(v, srv, OPENED)
    pool.protocol_version = "2.3"
    ps = new_pipe(v, pool)
    for i in range(cmds):
        ps.add_cmdlet("Get-Thing%d" % i)
    ps.state = st
    return P, srv, pool, ps


def sent_before(v, srv, ps):
    """the pipeline may have been created under a command id of the server's;
    returns the command id requests for it are for"""
    given = v.choice("command id", [None, "own", "AAAAAAAA-0000-0000-0000-000000000000"])
    if given is None:
        return ps.id
    st = ps.state
    ps.state = NOT_STARTED
    if given != "own":
        srv.cmd_ids[ps.id] = given
    ps.begin_invoke()
    ps.state = st
    del srv.log[:], srv.messages[:]
    return ps.id if given == "own" else given


def any_of(v, st, *states):
    return v.truth(v.or_(*[st == s for s in states]))


@contract("C09", funcs=["powershell.PowerShell.begin_invoke", "powershell.PowerShell._invoke"], runs=150)
def begin_any_state(v):
    X = v.mod("pypsrp.exceptions")
    st = pstate(v)
    n = v.choice("commands", [0, 1, 2])
    P, srv, pool, ps = mk(v, st, cmds=n)
    other = new_pipe(v, pool)
    other.state = v.int("other state", 0, 6)
    os = other.state
    pool.pipelines[other.id] = other
    meth = v.choice("method", ["begin_invoke", "invoke"])
    if meth == "invoke":
        srv.say(pipe_state(v, COMPLETED))
    ok = any_of(v, st, NOT_STARTED, STOPPED, COMPLETED, FAILED)
    if not ok:
        v.check("invalid-state error", v.raises(X.InvalidPipelineStateError, getattr(ps, meth)) is not None)
    elif n == 0:
        v.check("no commands is an error", v.raises(X.InvalidPSRPOperation, getattr(ps, meth)) is not None)
    if not ok or n == 0:
        v.check("nothing is sent", len(srv.log) == 0)
        v.check_eq("state unchanged", ps.state, st)
        v.check("not registered", ps.id not in pool.pipelines)
    else:
        getattr(ps, meth)()
        v.check_eq("running until the server says otherwise", ps.state, RUNNING if meth == "begin_invoke" else COMPLETED)
        v.check("registered with the pool", pool.pipelines.get(ps.id) is ps)
        v.check_eq("one create request", [m.name for m in srv.messages], ["CreatePipeline"])
        v.check_eq("one command opened", srv.kinds().count("command"), 1)
        v.check_eq("under its own id", srv.log[0].command_id, ps.id)
    v.check_eq("other pipelines keep their state", other.state, os)


@contract("C09", funcs=["powershell.PowerShell.stop"], runs=100)
def stop_any_state(v):
    X = v.mod("pypsrp.exceptions")
    st = pstate(v)
    P, srv, pool, ps = mk(v, st)
    cid = sent_before(v, srv, ps)
    other = new_pipe(v, pool)
    other.state = RUNNING
    pool.pipelines[ps.id] = ps
    pool.pipelines[other.id] = other
    meanwhile = v.choice("stopped again meanwhile", [False, True])

    def at_signal(e):
        if meanwhile and len(srv.log) == 1:
            ps.stop()  # from another thread, before the answer is here

    srv.on["signal"] = at_signal
    if v.truth(st == RUNNING):
        ps.stop()
        v.check_eq("exactly one signal", srv.kinds(), ["signal"])
        v.check_eq("Ctrl-C", srv.log[0].stream, "powershell/signal/ctrl_c")
        v.check_eq("for this pipeline", srv.log[0].command_id, cid)
        v.check_eq("stopped", ps.state, STOPPED)
        v.check("removed from the pool", ps.id not in pool.pipelines)
        ps.stop()
        v.check_eq("stopping again does nothing", len(srv.log), 1)
    else:
        if any_of(v, st, STOPPING, STOPPED):
            ps.stop()
        else:
            v.check("invalid-state error", v.raises(X.InvalidPipelineStateError, ps.stop) is not None)
        v.check("nothing is sent", len(srv.log) == 0)
        v.check_eq("state unchanged", ps.state, st)
        v.check("still registered", pool.pipelines.get(ps.id) is ps)
    v.check("other pipelines stay", pool.pipelines.get(other.id) is other and other.state == RUNNING)


@contract("C09", funcs=["powershell.PowerShell.connect_async"], runs=60)
def connect_any_state(v):
    X = v.mod("pypsrp.exceptions")
    st = pstate(v)
    P, srv, pool, ps = mk(v, st)
    cid = sent_before(v, srv, ps)
    created = ps.id in pool.pipelines
    pool.pipelines[ps.id] = ps
    if v.truth(st == P_DISCONNECTED):
        how = v.choice("how", ["connect_async", "connect"])
        if how == "connect":
            srv.say(pipe_state(v, COMPLETED))
        getattr(ps, how)()
        v.check_eq("one connect request", srv.kinds().count("connect"), 1)
        v.check_eq("for this pipeline", srv.log[0].command_id, cid)
        if created:
            v.check_eq("then polls it", [e.command_id for e in srv.log[1:]], [cid] * (how == "connect"))
        v.check("to this pool's shell", srv.log[0].selectors is pool.shell._selector_set)
        v.check_eq("running", ps.state, RUNNING if how == "connect_async" else COMPLETED)
    else:
        v.check("invalid-state error", v.raises(X.InvalidPipelineStateError, ps.connect_async) is not None)
        v.check("nothing is sent", len(srv.log) == 0)
        v.check_eq("state unchanged", ps.state, st)


@contract("C09", funcs=["powershell.PowerShell.create_nested_power_shell", "powershell.PowerShell.connect_async"], runs=100)
def nested(v):
    X = v.mod("pypsrp.exceptions")
    st = pstate(v)
    remote = v.bool("connected to remotely")
    P, srv, pool, ps = mk(v, P_DISCONNECTED if remote else st)
    pool.pipelines[ps.id] = ps
    if remote:
        ps.connect_async()
        ps.state = st
    n = len(srv.log)
    if not v.truth(st == RUNNING):
        v.check("invalid-state error", v.raises(X.InvalidPipelineStateError, ps.create_nested_power_shell) is not None)
    elif remote:
        v.check("refused for a pipeline connected to remotely", v.raises(X.InvalidPSRPOperation, ps.create_nested_power_shell) is not None)
    else:
        c = ps.create_nested_power_shell()
        v.check("nested, of the same pool, not started", c.is_nested and c.runspace_pool is pool and c.state == NOT_STARTED and c.id != ps.id)
        c.add_cmdlet("x")
        c.begin_invoke()
        d = srv.messages[-1].data
        v.check("announced as nested", d.is_nested is True and d.pipeline.is_nested is True)
        v.check_eq("parent unchanged", ps.state, RUNNING)
        return
    v.check("nothing is sent", len(srv.log) == n)
    v.check_eq("state unchanged", ps.state, st)


@contract("C09", funcs=["powershell.PowerShell.close", "powershell.PowerShell.__enter__", "powershell.PowerShell.__exit__"], runs=60)
def close_any_state(v):
    """also at the end of a with block"""
    X = v.mod("pypsrp.exceptions")
    st = pstate(v)
    P, srv, pool, ps = mk(v, st)
    cid = sent_before(v, srv, ps)
    other = new_pipe(v, pool)
    other.state = v.int("state of another", 0, 6)
    was = other.state
    pool.pipelines[other.id] = other

    def leave():
        with ps as p:
            v.check("the block has the pipeline", p is ps)

    close = v.choice("how", [ps.close, leave])
    pool.pipelines[ps.id] = ps
    if v.truth(st == NOT_STARTED):
        close()
        v.check("nothing is sent", len(srv.log) == 0)
    elif any_of(v, st, COMPLETED, STOPPED, FAILED):
        close()
        v.check_eq("one terminate signal", srv.kinds(), ["signal"])
        v.check("terminate, for this pipeline", srv.log[0].stream.endswith("/signal/Terminate") and srv.log[0].command_id == cid)
        v.check("removed from the pool", ps.id not in pool.pipelines)
    else:
        v.check("invalid-state error", v.raises(X.InvalidPipelineStateError, close) is not None)
        v.check("nothing is sent", len(srv.log) == 0)
    v.check_eq("state unchanged", ps.state, st)
    v.check("other pipelines stay", pool.pipelines.get(other.id) is other)
    v.check_eq("as they were", other.state, was)


@contract("C09", funcs=["powershell.PowerShell.close", "powershell.PowerShell.__enter__", "powershell.PowerShell.__exit__"], runs=60)
def with_block_error(v):
    """a with block that ends in an error closes a finished pipeline all the
    same, and the error is not lost"""
    st = pstate(v)
    v.assume(any_of(v, st, NOT_STARTED, COMPLETED, STOPPED, FAILED))
    P, srv, pool, ps = mk(v, st)
    pool.pipelines[ps.id] = ps
    error = block_error(v)

    def block():
        with ps:
            raise error

    v.check("the error of the block", v.raises(BaseException, block) is error)
    if v.truth(st == NOT_STARTED):
        v.check("nothing is sent", len(srv.log) == 0)
    else:
        v.check_eq("one terminate signal", srv.kinds(), ["signal"])
        v.check("for this pipeline", srv.log[0].stream.endswith("/signal/Terminate") and srv.log[0].command_id == ps.id)
        v.check("removed from the pool", ps.id not in pool.pipelines)


def out(v, x):
    M = v.mod("pypsrp.messages")
    o = M.PipelineOutput()
    o.data = x
    return o


@contract("C09", funcs=["powershell.PowerShell.end_invoke", "powershell.PowerShell.poll_invoke", "powershell.RunspacePool._receive"], runs=400, bounded="up to 3 answers of up to 2 outputs each, each possibly preceded by a timeout")
def wait_for_end(v):
    """polls while running, only then; timeouts are empty answers; all output in order"""
    X = v.mod("pypsrp.exceptions")
    P, srv, pool, ps = mk(v, NOT_STARTED)
    cid = srv.cmd_ids[ps.id] = v.choice("command id", [ps.id, "AAAAAAAA-0000-0000-0000-000000000000"])
    ps.begin_invoke()
    want = []
    polls = 0
    k = v.choice("answers", [0, 1, 2, 3])
    faulted = False
    bad = None
    for i in range(k):
        kind = v.choice("answer", ["outputs", "none", "timeout", "fault"])
        polls += 1
        if kind == "timeout":
            srv.fault(OP_TIMEOUT)
        elif kind == "fault":
            bad = v.choice("code", [2150858843, 5, "x", None, OP_TIMEOUT + 1])
            srv.fault(bad)
            faulted = True
            break
        elif kind == "none":
            srv.quiet()
        else:
            o = [v.opaque("o") for _ in range(v.choice("n", [1, 2]))]
            want += o
            srv.say(*[out(v, x) for x in o])
    last = v.choice("final state", [COMPLETED, FAILED, STOPPED])
    tail = [v.opaque("tail")] if v.choice("tail", [False, True]) else []
    if not faulted:
        polls += 1
        srv.say(*[out(v, x) for x in tail], pipe_state(v, last))
    err = v.raises(X.WSManFaultError, ps.end_invoke)
    if err is not None:
        v.check("only a fault that is not an operation timeout is raised", faulted and err.code == bad and bad != OP_TIMEOUT)
        v.check_eq("output so far kept", ps.output, want)
        v.check_eq("polled once per answer", len(srv.polls), polls)
        v.check_eq("still running", ps.state, RUNNING)
        return
    v.check("other faults are raised", not faulted)
    v.check_eq("polled exactly while running", len(srv.polls), polls)
    v.check("polls this pipeline", all(e.command_id == cid for e in srv.polls))
    v.check_eq("all output, in order", ps.output, want + tail)
    v.check_eq("final state is the server's", ps.state, last)
    n = len(srv.polls)
    r = ps.end_invoke()
    v.check("no poll when not running", len(srv.polls) == n)
    v.check("the output is returned", r is ps.output)


@contract("C09", funcs=["powershell.PowerShell.end_invoke"], runs=30)
def wait_loop(v):
    """any number of polls: waiting ends only when the state is not running"""
    if v.unrolled:
        return
    P, srv, pool, ps = mk(v, NOT_STARTED)
    ps.begin_invoke()
    box = {}

    def havoc(v, L0):
        ps.state = v.int("state at loop head", 0, 9)
        box["n"] = len(srv.log)
        box["pre"] = ps.state
        srv.say(pipe_state(v, v.choice("answer", [RUNNING, COMPLETED])))
        return grown(v, L0)

    def step(v, L, L1):
        v.check("one poll per round and nothing else", srv.kinds()[box["n"] :] == ["receive"])
        v.check("polls only while running", box["pre"] == RUNNING)

    v.loop("pypsrp.powershell.PowerShell.end_invoke", ("while", 1), havoc=havoc, inv=lambda v, L, L0: [], step=step, heap=lambda L0: [...])
    ps.end_invoke()
    v.check("ends only when not running", ps.state != RUNNING)


@contract("C09", funcs=["powershell.PowerShell.end_invoke", "powershell.PowerShell.poll_invoke", "powershell.RunspacePool._receive", "powershell.RunspacePool._parse_responses"], runs=1, sym=False, bounded="12,000 polls")
def long_wait(v):
    """however many polls it takes and however much output there is"""
    n = 12000
    P, srv, pool, ps = mk(v, NOT_STARTED)
    ps.begin_invoke()
    polls = len(srv.polls)
    srv.script.extend([(out(v, i),) if i % 7 else () for i in range(n)])
    srv.say(pipe_state(v, COMPLETED))
    got = ps.end_invoke()
    v.check("polled until the end", len(srv.polls) == polls + n + 1)
    v.check("all output in order", list(got) == [i for i in range(n) if i % 7])


@contract("C09", funcs=["powershell.PowerShell.poll_invoke"], runs=100)
def poll_timeout(v):
    """the timeout given for a poll is the request's; without one the default"""
    P, srv, pool, ps = mk(v, NOT_STARTED)
    ps.begin_invoke()
    t = v.choice("timeout", [None, 1, 7])
    code = v.int("code", 0, 2**32 - 1)
    X = v.mod("pypsrp.exceptions")
    srv.fault(code)
    err = v.raises(X.WSManFaultError, ps.poll_invoke, t)
    v.check("exactly the operation timeout is swallowed", v.iff(err is None, code == OP_TIMEOUT))
    v.check_eq("timeout passed on", srv.polls[0].timeout, t)
    v.check_eq("still running", ps.state, RUNNING)
    v.check_eq("no output", len(ps.output), 0)


@contract("C09", funcs=["powershell.PowerShell.*"], runs=300, bounded="sequences of at most 4 operations")
def sequences(v):
    X = v.mod("pypsrp.exceptions")
    P, srv, pool, ps = mk(v, NOT_STARTED)
    st = NOT_STARTED
    for _ in range(4):
        op = v.choice("op", ["end", "begin_invoke", "stop", "connect_async", "finish", "pool_disconnect"])
        if op == "end":
            break
        n = len(srv.log)
        if op == "finish":
            if st != RUNNING:
                continue
            new = v.choice("final", [COMPLETED, FAILED])
            srv.say(pipe_state(v, new))
            ps.poll_invoke()
            st = new
        elif op == "pool_disconnect":
            reg = ps.id in pool.pipelines
            pool.disconnect()
            pool.connect()
            if reg:
                st = P_DISCONNECTED
        else:
            want = {
                "begin_invoke": {NOT_STARTED: RUNNING, STOPPED: RUNNING, COMPLETED: RUNNING, FAILED: RUNNING},
                "stop": {RUNNING: STOPPED, STOPPED: STOPPED},
                "connect_async": {P_DISCONNECTED: RUNNING},
            }[op].get(st)
            err = v.raises(X.InvalidPipelineStateError, getattr(ps, op))
            v.check("refused exactly when the state machine says so", (err is not None) == (want is None))
            if want is None or want == st:
                v.check("nothing sent", len(srv.log) == n)
            else:
                st = want
        v.check_eq("state follows the state machine", ps.state, st)
