"""Every received message reaches exactly one right destination, in order."""
from pyvc.harness import contract

from .lib import *

FN = ["powershell.RunspacePool._parse_responses", "powershell.RunspacePool._receive", "powershell.PowerShell.poll_invoke"] + [
    "powershell.PowerShell._process_%s" % n for n in ("error_record", "pipeline_state", "debug_record", "verbose_record", "warning_record", "progress_record", "information_record")
] + ["powershell.RunspacePool._process_%s" % n for n in ("session_capability", "runspacepool_init_data", "runspacepool_availability", "runspacepool_state", "runspacepool_warning", "application_private_data", "user_event")]

STREAMS = ("error", "warning", "verbose", "debug", "progress", "information")

# message type numbers of MS-PSRP 2.2.1
T = {
    "session": 0x00010002,
    "enckey": 0x00010006,
    "pubkeyreq": 0x00010007,
    "init": 0x0002100B,
    "availability": 0x00021004,
    "state": 0x00021005,
    "event": 0x00021008,
    "private": 0x00021009,
    "hostcall": 0x00021100,
    "output": 0x00041004,
    "error": 0x00041005,
    "pstate": 0x00041006,
    "debug": 0x00041007,
    "verbose": 0x00041008,
    "warning": 0x00041009,
    "progress": 0x00041010,
    "information": 0x00041011,
    "phostcall": 0x00041100,
}


class Warn:
    def __init__(self, real):
        self.real = real
        self.seen = []

    def warn(self, message, category=None, *a, **k):
        self.seen.append((message, category))

    def __getattr__(self, n):
        return getattr(self.real, n)


class Keys:
    """the private key of an exchange in progress (its contract is C07's)"""

    def decrypt(self, data, pad):
        return b"k" * 32


class Text:
    """a record with a text form"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def world(v):
    """a pool with two running pipelines, one of which is polled"""
    P = v.mod(PS)
    srv = Server(v)
    pool = new_pool(v, srv, OPENED, min_runspaces=1, max_runspaces=2)
    pool.protocol_version = "2.3"
    ps, other = new_pipe(v, pool), new_pipe(v, pool)
    for p in (ps, other):
        pool.pipelines[p.id] = p
        p.state = RUNNING
        p._command_id = "C0MMAND0-" + p.id[9:]
    if not v.symbolic and v.bool("earlier records"):
        for p in (ps, other):
            p.output.append("old")
            for s in STREAMS:
                getattr(p.streams, s).append("old " + s)
    w = Warn(P.warnings)
    v.patch(P, "warnings", w)
    asked = []
    v.patch(pool, "exchange_keys", lambda: asked.append(1))
    v.need(pool, "_exchange_key")
    pool._exchange_key = Keys()
    return P, srv, pool, ps, other, w, asked


def snap(pool, ps, other, w, asked):
    def copy(x):
        return x.copy() if hasattr(x, "copy") else x

    d = {
        "pool state": pool.state,
        "min": pool.min_runspaces,
        "max": pool.max_runspaces,
        "versions": [pool.protocol_version, pool.ps_version, pool.serialization_version],
        "events": copy(pool.user_events),
        "private": pool.application_private_data,
        "warnings": [m for m, c in w.seen],
        "asked": list(asked),
        "table": [pool.ci_table[7] is handler, len(pool.ci_table)] if 7 in pool.ci_table else None,
    }
    for n, p in (("", ps), ("other ", other)):
        d[n + "state"] = p.state
        d[n + "output"] = copy(p.output)
        d[n + "had_errors"] = p.had_errors
        for s in STREAMS:
            d[n + s] = copy(getattr(p.streams, s))
    return d


def handler(r):
    return ("answered", r)


def same(v, name, a, b):
    for k in b:
        v.check_eq("%s: %s" % (name, k), a[k], b[k])


def after(d, kind, data, polled=True):
    """what one message does, from the property's text"""
    d = dict(d)
    if kind == "session":
        d["versions"] = [data.protocol_version, data.ps_version, data.serialization_version]
    elif kind == "init":
        d["min"], d["max"] = data.min_runspaces, data.max_runspaces
    elif kind == "availability":
        d["table"] = [False, 1]
    elif kind == "state":
        d["pool state"] = data.state
    elif kind == "event":
        d["events"] = d["events"] + [data]
    elif kind == "private":
        d["private"] = data
    elif kind == "pubkeyreq":
        d["asked"] = d["asked"] + [1]
    elif kind == "warning" and not polled:
        d["warnings"] = d["warnings"] + [str(data)]
    elif polled and kind in STREAMS:
        d[kind] = d[kind] + [data]
    elif polled and kind == "pstate":
        d["state"] = data.state
        if data.error_record is not None:
            d["error"] = d["error"] + [data.error_record]
        if data.state == FAILED:
            d["had_errors"] = True
    elif polled and kind == "output":
        d["output"] = d["output"] + [data.data]
    return d


class Msg:
    pass


@contract("C10", funcs=FN, runs=30, max_paths=6000, conc=False)
def each_message(v):
    """an arbitrary message (any type number) at an arbitrary position among
    any number of messages, from an arbitrary earlier state of all streams"""
    if v.unrolled:
        return
    from pyvc.values import Opaque, Seg, SList

    P, srv, pool, ps, other, w, asked = world(v)
    polled = v.bool("polled for a pipeline")
    n = v.int("messages", 0)
    msgs = {}

    def element(i):
        k = str(i)
        if k not in msgs:
            m = Msg()
            m.message_type = v.int("type")
            m.destination, m.rpid, m.pid = 1, pool.id, None
            m.data = Text("text")
            m.data.state = v.int("reported state", 0, 9)
            m.data.error_record = v.choice("error record", [None, v.opaque("error record")])
            m.data.protocol_version, m.data.ps_version, m.data.serialization_version = "2.1", v.opaque("ps"), v.opaque("ser")
            m.data.min_runspaces, m.data.max_runspaces = v.int("reported min"), v.int("reported max")
            m.data.ci, m.data.response = 7, v.int("response")
            m.data.data = v.choice("output", [None, v.opaque("output")])
            m.data.session_key = "AAAA"
            m.data.mi, m.data.mp = v.int("mi"), []
            msgs[k] = m
        return msgs[k]

    # any results of the messages before
    rn = v.int("results", 0)
    import z3
    from pyvc.values import AnySort, ISort, _z, mkint, zi

    F, D = z3.Function("rtype", ISort, ISort), z3.Function("rdata", ISort, AnySort)

    class Res:
        def __init__(self, i):
            self.data = Msg()
            self.data.data = Opaque(D(_z(zi(i))), "data")

    results = SList([Seg(rn.e, lambda i: (mkint(F(_z(zi(i)))), Res(i)))])

    v.contract(PS + ".Fragmenter.defragment", lambda self, data: SList([Seg(n.e, element)]))
    v.symlists()
    box = {}

    def havoc(v, j, L0, seq):
        pool.ci_table = {7: handler}
        pool.state = v.int("pool state before", 0, 9)
        pool.user_events = v.seq("earlier events")
        for nm, p in (("", ps), ("other ", other)):
            p.state = v.int(nm + "state before", 0, 9)
            p.had_errors = v.bool(nm + "had errors before")
            p.output = v.seq(nm + "earlier output")
            for s in STREAMS:
                setattr(p.streams, s, v.seq(nm + "earlier " + s))
        box["rv"] = results.copy()
        box["before"] = snap(pool, ps, other, w, asked)
        box["sent"] = len(srv.log)
        return {"return_values": box["rv"]}

    def step(v, j, m, L, L1):
        kind = None
        for k, num in T.items():
            if v.truth(m.message_type == num):
                kind = k
                break
        want = after(box["before"], kind, m.data, polled)
        want["output"] = box["before"]["output"]  # collected from the results below
        same(v, "after any one message", snap(pool, ps, other, w, asked), want)
        rv, rv0 = L1["return_values"], L["return_values"]
        v.check("exactly one result per message", v.len(rv) == v.len(rv0) + 1)
        r = rv[v.len(rv0)]
        v.check("the result carries the message's type", r[0] == m.message_type)
        if kind == "output" and polled:
            v.check("an output message is handed to the poll", r[1] is m)
        v.check("nothing is sent", len(srv.log) == box["sent"])

    v.loop(PS + ".RunspacePool._parse_responses", 1, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
    X = v.mod("pypsrp.exceptions")
    srv.say()

    def havoc2(v, j, L0, seq):
        ps.output = v.seq("collected")
        box["out"] = ps.output.copy()
        box["b2"] = snap(pool, ps, other, w, asked)
        return {}

    def step2(v, j, r, L, L1):
        want = dict(box["b2"])
        if v.truth(r[0] == T["output"]):
            want["output"] = box["out"] + [r[1].data.data]
        same(v, "collecting output", snap(pool, ps, other, w, asked), want)

    v.loop(PS + ".PowerShell.poll_invoke", 1, whole=True, havoc=havoc2, inv=lambda v, j, L, L0, seq: [], step=step2, heap=lambda L0: [...])
    if polled:
        v.raises(X.InvalidPSRPOperation, ps.poll_invoke)
    else:
        v.raises(X.InvalidPSRPOperation, v.need(pool, "_receive"))


@contract("C10", funcs=["powershell.RunspacePool._process_runspacepool_state"], runs=30)
def broken_pool_message(v):
    """a broken state is stored before the error is raised"""
    P, srv, pool, ps, other, w, asked = world(v)
    X = v.mod("pypsrp.exceptions")
    srv.say(pool_state(v, BROKEN))
    v.check("raised", v.raises(X.InvalidPSRPOperation, ps.poll_invoke) is not None)
    v.check_eq("stored", pool.state, BROKEN)


def build(v, kind, i):
    """a message of this kind, as its real class"""
    M = v.mod("pypsrp.messages")
    tok = lambda n: v.opaque("%s %d" % (n, i))
    if kind == "session":
        return M.SessionCapability("2.%d" % (1 + i), "2.0", "1.1.0.%d" % i)
    if kind == "init":
        return M.RunspacePoolInitData(min_runspaces=v.int("imin", 0, 99), max_runspaces=v.int("imax", 0, 99))
    if kind == "availability":
        return availability(v, v.int("response", 0, 50), 7)
    if kind == "state":
        return pool_state(v, v.choice("pool state", [OPENED, CLOSED, DISCONNECTED]))
    if kind == "pstate":
        return pipe_state(v, v.int("state", 0, 6), v.choice("err", [None, tok("record")]))
    if kind == "output":
        o = M.PipelineOutput()
        o.data = v.choice("value", [tok("out"), None] if v.symbolic else [tok("out"), None, False, 0, "", [], {}])
        return o
    cls = {
        "event": "UserEvent",
        "private": "ApplicationPrivateData",
        "error": "ErrorRecordMessage",
        "warning": "WarningRecord",
        "verbose": "VerboseRecord",
        "debug": "DebugRecord",
        "progress": "ProgressRecord",
        "information": "InformationRecord",
        "pubkeyreq": "PublicKeyRequest",
        "not for us": "EndOfPipelineInput",
        "not for us either": "GetAvailableRunspaces",
    }[kind]
    c = getattr(M, cls)
    if kind == "not for us either":
        return c(ci=5)
    return c()


KINDS = ["output", "pstate", "error", "warning", "verbose", "debug", "progress", "information", "session", "init", "state", "event", "private", "availability", "pubkeyreq", "not for us", "not for us either"]


@contract("C10", funcs=FN, runs=500, bounded="responses of at most 3 messages", max_paths=9000)
def responses(v):
    """whole responses, through the public polling call"""
    P, srv, pool, ps, other, w, asked = world(v)
    pool.ci_table = {7: handler}
    before = snap(pool, ps, other, w, asked)
    n = v.choice("messages", [0, 1, 2, 3] if not v.symbolic else [0, 1, 2])
    msgs = []
    want = before
    for i in range(n):
        k = v.choice("kind", [x for x in KINDS if x != "availability" or not any(y == "availability" for y, _ in msgs)])
        m = build(v, k, i)
        msgs.append((k, m))
    for k, m in msgs:
        want = after(want, k if k in T else None, m)
    srv.say(*[m for _, m in msgs])
    ps.poll_invoke()
    same(v, "after the response", snap(pool, ps, other, w, asked), want)
    v.check("one poll of this pipeline", len(srv.polls) == 1 and srv.polls[0].command_id == ps._command_id)
    if 7 in pool.ci_table and any(k == "availability" for k, _ in msgs):
        a = [m for k, m in msgs if k == "availability"][0]
        v.check("answer handed to the waiting call", pool.ci_table[7][0] == "answered")
        v.check_eq("with the server's response", pool.ci_table[7][1], a.response)


@contract("C10", funcs=FN, runs=200, bounded="two responses of at most 2 messages for two pipelines")
def two_pipelines(v):
    """messages go to the pipeline whose poll received them"""
    P, srv, pool, ps, other, w, asked = world(v)
    pool.ci_table = {7: handler}
    want = snap(pool, ps, other, w, asked)
    order = v.choice("first", [0, 1])
    for r in range(2):
        p = (ps, other)[(order + r) % 2]
        ks = [v.choice("kind", ["output", "pstate", "error", "warning", "verbose", "debug", "progress", "information", "event"]) for _ in range(v.choice("n", [1, 2] if not v.symbolic else [1]))]
        ms = [build(v, k, 10 * r + i) for i, k in enumerate(ks)]
        for k, m in zip(ks, ms):
            if p is other:
                d = after({a: want["other " + a] if "other " + a in want else want[a] for a in want if not a.startswith("other ")}, k, m)
                for a in d:
                    want["other " + a if "other " + a in want else a] = d[a]
            else:
                want = after(want, k, m)
        srv.say(*ms)
        p.poll_invoke()
    same(v, "after both polls", snap(pool, ps, other, w, asked), want)


@contract("C10", funcs=FN, runs=60)
def pool_poll_effects(v):
    """messages received by the pool's own polls"""
    P, srv, pool, ps, other, w, asked = world(v)
    before = None
    k = v.choice("kind", ["warning", "event", "private", "init", "state", "session"])
    m = build(v, k, 0)
    if k == "warning":
        m = v.mod("pypsrp.messages").WarningRecord(message="mind the gap")
        v.patch(type(m), "__str__", lambda self: "mind the gap")
    before = snap(pool, ps, other, w, asked)
    pool_poll(v, srv, pool, m)
    same(v, "after the poll", snap(pool, ps, other, w, asked), after(before, k, m, polled=False))
    if k == "warning":
        v.check("as a runspace pool warning", w.seen[0][1] is P.RunspacePoolWarning)


@contract("C10", funcs=["messages.Message.unpack"], runs=120, sym=False)
def output_of_odd_shape(v):
    """an output object that lacks a property its type has, or is nothing the
    client knows, is delivered all the same: as a generic object or as text"""
    import struct
    import uuid
    import warnings
    from xml.sax.saxutils import escape

    MSG, S, C = v.mod("pypsrp.messages"), v.mod("pypsrp.serializer"), v.mod("pypsrp.complex_objects")
    ser = S.Serializer()
    text = v.choice("text", ["w", "<&>", "\u20ac", ""])
    form = v.choice("form", ["lacks a property", "unknown primitive", "not xml", "unknown types"])
    types = {"unknown types": ["Contoso.Thing", "System.Object"]}.get(form, v.choice("type", [
        ["System.Management.Automation.Host.Size", "System.ValueType", "System.Object"],
        ["System.Management.Automation.ErrorRecord", "System.Object"],
        ["System.Globalization.CultureInfo", "System.Object"],
        ["System.Management.Automation.InformationRecord", "System.Object"],
    ]))
    obj = '<Obj RefId="1"><TN RefId="0">%s</TN><ToString>%s</ToString><Props><S N="Extra">%s</S><I32 N="Count">5</I32></Props><MS><B N="Flag">true</B></MS></Obj>' % (
        "".join("<T>%s</T>" % t for t in types), escape(text), escape(text))
    body = {
        "lacks a property": obj,
        "unknown types": obj,
        "unknown primitive": '<Zz>%s</Zz>' % escape(text),
        "not xml": "no xml %s <" % text,
    }[form]
    rp, pid = uuid.UUID(int=v.int("rpid", 1, 2**128 - 1)), uuid.UUID(int=v.int("pid", 1, 2**128 - 1))
    raw = struct.pack("<II", 1, 0x00041004) + rp.bytes_le + pid.bytes_le + v.choice("bom", [b"", b"\xef\xbb\xbf"]) + body.encode()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = MSG.Message.unpack(raw, ser)
    v.check("an output message of this pool and pipeline", type(m.data) is MSG.PipelineOutput and m.message_type == 0x00041004 and str(m.rpid) == str(rp) and str(m.pid) == str(pid))
    d = m.data.data
    if form in ("unknown primitive", "not xml"):
        v.check("the text as received", d == body)
        return
    v.check("a generic object", isinstance(d, C.GenericComplexObject))
    v.check("with its properties", d.adapted_properties == {"Extra": text, "Count": 5} and d.extended_properties == {"Flag": True})
    v.check("its types and text", d.types == types and str(d) == text)
    # what the failed attempt defined does not leak into the next message
    raw = raw[:40] + b'<Obj RefId="0"><TN RefId="0"><T>Other</T><T>System.Object</T></TN><Props><S N="A">b</S></Props></Obj>'
    d = MSG.Message.unpack(raw, ser).data.data
    v.check("the next one", isinstance(d, C.GenericComplexObject) and d.types == ["Other", "System.Object"] and d.adapted_properties == {"A": "b"})
