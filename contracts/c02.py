"""C02: the payload limit, derived from the envelope size in force.

Fragmenting and packing: contracts/frag.py.  Here: the limit itself (WSMan), its
raise when the server's protocol version is known (RunspacePool), and the limit
the pool's fragmenter works with, before and after."""
import xml.etree.ElementTree as ET

from pyvc.harness import contract

from . import frag  # noqa: F401
from .http import connect, envelope, message_id, response, tree
from .c15 import dec
from .lib import BEFORE_OPEN, OPENED, PS, RSP, S, WSM, ScriptEnd, Server, any_fragments, fragments_sent, new_pool, pool_poll

RES = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/cmd"
ZERO = "00000000-0000-0000-0000-000000000000"


def size_of(v, request):
    d = request.data
    return v.len(d.encode("utf-8") if isinstance(d, str) else d)


def empty_send(v, w):
    """the size of the whole Send envelope with no data in its stream"""
    import xml.etree.ElementTree as ET

    W = v.mod("pypsrp.wsman")
    s = w.transport.session
    body = ET.Element("{%s}Send" % RSP)
    ET.SubElement(body, "{%s}Stream" % RSP, Name="stdin", CommandId=ZERO).text = ""
    sel = W.SelectorSet()
    sel.add_option("ShellId", ZERO)
    w.send(RES, body, selector_set=sel)
    return s.sent[-1][0]


def answering(v):
    return lambda i, request, timeout: response(v, 200, _answer(v, request))


def _answer(v, request):
    import xml.etree.ElementTree as ET

    return ET.tostring(envelope(message_id(v, request)), encoding="utf-8")


@contract("C02", funcs=["wsman.WSMan.__init__", "wsman.WSMan.update_max_payload_size", "wsman.WSMan._calc_envelope_size"], runs=80)
def payload_limit(v):
    """for every envelope size: base64 of a block of the largest payload, plus
    the envelope measured with an empty stream, fits; and the limit is not
    smaller than it has to be (256 bytes of slack, rounding)"""
    E = v.int("envelope size", 4096, 2**31, cmax=600000)
    how = v.choice("how", ["configured", "updated", "queried"])
    if how == "configured":
        # the sizes depend on how many digits the size itself has
        w, s = connect(v, answering(v), max_envelope_size=E)
    else:
        w, s = connect(v, answering(v))
    if how == "updated":
        w.update_max_payload_size(E)
    elif how == "queried":
        kb = v.int("kb", 4, 2**21, cmax=600)
        E = kb * 1024
        W = v.mod("pypsrp.wsman")
        import xml.etree.ElementTree as ET

        ns = W.NAMESPACES["cfg"]
        b = ET.Element("{%s}Body" % S)
        c = ET.SubElement(b, "{%s}Config" % ns)
        ET.SubElement(c, "{%s}MaxEnvelopeSizekb" % ns).text = dec(v, kb)
        v.patch(W.WSMan, "get_server_config", lambda self, *a, **k: b)
        w.update_max_payload_size()
    P = w.max_payload_size
    v.check_eq("the envelope size in force is the given one", w.max_envelope_size, E)
    w0, s0 = connect(v, answering(v))
    base = size_of(v, empty_send(v, w0))
    v.check("the base64 form of a block and the empty envelope fit", (P + 2) // 3 * 4 + base <= E)
    v.check("the limit is not smaller than needed", P >= (E - base - 400) * 3 // 4 - 3)
    req = tree(v, empty_send(v, w).data)
    el = req.find("{%s}Header/{%s}MaxEnvelopeSize" % (S, WSM))
    got = el.text
    v.check_eq("requests announce it", got, dec(v, E))


@contract("C02", funcs=["wsman.WSMan.send", "wsman.WSMan._invoke", "wsman.WSMan._create_header", "shell.WinRS.send"], runs=120)
def sends_fit(v):
    """the request that carries a block of any size up to the limit is no
    larger than the envelope it announces"""
    E = v.int("envelope size", 4096, 2**31, cmax=9000)
    w, s = connect(v, answering(v), max_envelope_size=E)
    sh = v.mod("pypsrp.shell").WinRS(w)
    sh.id = "ABCDEF00-1234-1234-1234-1234567890AB"
    sel = v.mod("pypsrp.wsman").SelectorSet()
    sel.add_option("ShellId", sh.id)
    v.need(sh, "_selector_set")
    sh._selector_set = sel
    data = v.bytes("block", 0, None, cmax=7000)
    v.assume(v.len(data) <= w.max_payload_size)
    sh.send(v.choice("stream", ["stdin", "pr"]), data, command_id=v.choice("command", [None, ZERO]), end=v.choice("end", [None, True, False]))
    v.check("one request", len(s.sent) == 1)
    v.check("the request fits the envelope", size_of(v, s.sent[0][0]) <= E)


@contract("C02", funcs=["powershell.RunspacePool._process_session_capability", "powershell.RunspacePool.__init__"], runs=150)
def raised(v):
    """any protocol version, any envelope size"""
    P = v.mod(PS)
    M = v.mod("pypsrp.messages")
    srv = Server(v)
    E = v.int("envelope size", 4096, 2**31, cmax=600000) if v.choice("custom", [True, False]) else 153600
    limit = v.int("payload limit", 100, 2**31, cmax=300000)
    after = v.int("payload limit after", 100, 2**31, cmax=300000)
    srv.max_envelope_size = E
    srv.max_payload_size = limit

    def update(size=None):
        srv.resized.append(size)
        srv.max_envelope_size = size
        srv.max_payload_size = after

    srv.update_max_payload_size = update
    pool = new_pool(v, srv)
    v.need(pool, "_fragmenter")
    v.need(pool._fragmenter, "max_size")

    def bound(n):
        return P.Fragmenter(n, None).max_size

    v.check_eq("the pool's blocks are bounded by the connection's limit", pool._fragmenter.max_size, bound(limit))
    if v.symbolic:
        ver = v.str("protocol version", nonempty=True)
        newer = v.sbool("newer")
        seen = []

        def spec(version, reference):
            v.check_eq("the server's protocol version is compared", version, ver)
            v.check_eq("with 2.2", reference, "2.2")
            return newer

        v.contract("pypsrp._utils.version_equal_or_newer", spec)
    else:
        ver = v.choice("protocol version", ["2.0", "2.1", "2.2", "2.3", "2.10", "3.0", "1.9", "2", "2.2.0", "2.1.9"])
        newer = [int(x) for x in ver.split(".")] >= [2, 2]
    if v.symbolic:  # the request for an answer is one fragment (fragment(): contracts/frag.py)
        def fragment(self, data, rpid, pid=None, remaining_size=None):
            m = M.Message(2, rpid, pid, data, None)
            return [P.Fragment(77, 0, m.pack(), True, True).pack()]

        v.contract("pypsrp.powershell.Fragmenter.fragment", fragment)
    msg = M.SessionCapability(protocol_version=ver, ps_version="2.0", serialization_version="1.1.0.1")
    pool_poll(v, srv, pool, msg)
    if v.truth(v.and_(newer, E == 153600)):
        v.check("raised once, to 500 KiB", srv.resized == [512000])
        v.check_eq("the pool's blocks are bounded by the limit now in force", pool._fragmenter.max_size, bound(after))
    else:
        v.check("the envelope size stays", srv.resized == [])
        v.check_eq("the envelope size stays as configured", srv.max_envelope_size, E)
        v.check_eq("and so does the bound of the pool's blocks", pool._fragmenter.max_size, bound(limit))
    v.check_eq("the version is known", pool.protocol_version, ver)


@contract("C02", funcs=["powershell.RunspacePool._process_session_capability", "powershell.PowerShell._invoke"], runs=150, sym=False, bounded="concrete limits, versions and message sizes")
def blocks(v):
    """what the pool really sends, before and after the version is known: no
    block above the limit in force, and full blocks up to it"""
    M = v.mod("pypsrp.messages")
    srv = Server(v)
    before, after = v.int("limit", 100, 3000), v.int("limit after", 100, 6000)
    srv.max_payload_size = before

    def update(size=None):
        srv.max_envelope_size = size
        srv.max_payload_size = after

    srv.update_max_payload_size = update
    pool = new_pool(v, srv)
    ver = v.choice("version", ["2.1", "2.2", "2.3", "2.10", "1.9"])
    pool_poll(v, srv, pool, M.SessionCapability(protocol_version=ver, ps_version="2.0", serialization_version="1.1.0.1"))
    now = after if [int(x) for x in ver.split(".")] >= [2, 2] else before
    v.check_eq("limit in force", srv.max_payload_size, now)
    P = v.mod(PS)
    for _ in range(2):
        n = v.int("message size", 40, 20000)
        srv.size = lambda m, n=n: n if type(m.data).__name__ == "CreatePipeline" else 60
        srv.log.clear()
        ps = P.PowerShell(pool)
        ps.add_script("x")
        ps.begin_invoke()
        sizes = [len(e.payload) for e in srv.log if e.payload is not None]
        v.check("no block exceeds the limit in force", all(x <= now for x in sizes))
        v.check("all blocks but the last are full", all(x == now for x in sizes[:-1]))
        v.check("everything is sent", sum(sizes) == n + 21 * len(sizes))


SENDS = ["open", "connect", "set min", "set max", "available", "reset", "exchange keys", "pipeline", "input", "host response", "metadata"]


@contract("C02", funcs=[
    "powershell.RunspacePool." + n for n in ("open", "_connect_new_client", "min_runspaces", "max_runspaces", "get_available_runspaces", "reset_runspace_state", "exchange_keys", "_process_host_call")
] + ["powershell.PowerShell._invoke", "powershell.PowerShell.begin_invoke"], runs=400, sym=False, bounded="concrete limits and message sizes")
def sent_whole(v):
    """a message of any kind and size goes out completely, in blocks within
    the limit"""
    M = v.mod("pypsrp.messages")
    C = v.mod("pypsrp.complex_objects")
    P = v.mod(PS)
    kind = v.choice("send", SENDS)
    limit = v.choice("limit", [64, 100, 121, 200, 500, 1000, 3000])
    sizes = [v.choice("size", [40, 60, limit - 22, limit - 21, limit - 20, limit, limit + 1, 2 * limit, 5 * limit - 7]) for _ in range(6)]
    sizes = [max(x, 41) for x in sizes]
    order = []

    srv = Server(v, max_payload=limit)

    def token(m, want=None):
        if want is None:
            order.append(type(m.data).__name__)
            want = sizes[(len(order) - 1) % 6]
        t = (b"<%08d>" % len(srv.tokens)).ljust(want, b".")
        srv.tokens[t] = m
        return t

    v.patch(M.Message, "pack", lambda m: token(m))
    srv._token = lambda m, size=44: token(m, size if isinstance(size, int) else 44)
    state = {"open": BEFORE_OPEN, "connect": v.mod("pypsrp.complex_objects").RunspacePoolState.DISCONNECTED}.get(kind, OPENED)
    pool = new_pool(v, srv, state)
    pool.protocol_version = "2.3"
    pool._fragmenter.outgoing_counter = v.choice("objects sent before", [1, 7, 2**32])
    stream = "stdin"
    if kind == "open":
        act = pool.open
    elif kind == "connect":
        pool._new_client = True
        act = pool.connect
    elif kind == "set min":
        act = lambda: setattr(pool, "min_runspaces", 3)
    elif kind == "set max":
        act = lambda: setattr(pool, "max_runspaces", 9)
    elif kind == "available":
        act = pool.get_available_runspaces
    elif kind == "reset":
        act = pool.reset_runspace_state
    elif kind == "exchange keys":
        act = pool.exchange_keys
    elif kind == "host response":

        class Host:
            ui = None

            def run_method(self, *a, **k):
                return "answer"

        pool.host = Host()
        call = M.RunspacePoolHostCall(ci=4, mi=C.HostMethodIdentifier(value=1), mp=[])
        srv.say(call)
        act = pool.get_available_runspaces
        stream = "pr"
    else:
        ps = P.PowerShell(pool)
        ps.add_script("x")
        if kind == "metadata":
            act = lambda: pool.get_command_metadata(["*"])
        else:
            act = lambda: ps.begin_invoke(input=(x for x in ["a", ["b", "c"], "d"]) if kind == "input" else None)
    e = v.raises(ScriptEnd, act)
    v.check("no block exceeds the limit, fragments in order", not srv.frag_errors)
    v.check("every message is sent whole", not srv.partial)
    v.check("every message is sent once, in order", [m.name for m in srv.messages] == order and len(order) >= 1)
    v.check("in order of object ids", [m.oid for m in srv.messages] == sorted(set(m.oid for m in srv.messages)))
    v.check("what was asked for", {"open": "InitRunspacePool", "connect": "ConnectRunspacePool", "set min": "SetMinRunspaces", "set max": "SetMaxRunspaces", "available": "GetAvailableRunspaces", "reset": "ResetRunspaceState", "exchange keys": "PublicKey", "pipeline": "CreatePipeline", "input": "EndOfPipelineInput", "host response": "RunspacePoolHostResponse", "metadata": "GetCommandMetadata"}[kind] in order)
    v.check("host responses on their own stream", all(s == stream for m in srv.messages if m.name == "RunspacePoolHostResponse" for _, s, _ in m.via))


@contract("C02", funcs=["powershell.RunspacePool." + n for n in ("min_runspaces", "max_runspaces", "get_available_runspaces", "reset_runspace_state")], runs=1, conc=False)
def requests_of_any_fragments(v):
    """every fragment of a request of the pool is sent, in order, for any
    number of them"""
    if v.unrolled:
        return
    M = v.mod("pypsrp.messages")
    what, name, act = v.choice("request", [
        ("min_runspaces", "SetMinRunspaces", lambda p: setattr(p, "min_runspaces", 3)),
        ("max_runspaces", "SetMaxRunspaces", lambda p: setattr(p, "max_runspaces", 9)),
        ("get_available_runspaces", "GetAvailableRunspaces", lambda p: p.get_available_runspaces()),
        ("reset_runspace_state", "ResetRunspaceState", lambda p: p.reset_runspace_state()),
    ])
    srv = Server(v)
    pool = new_pool(v, srv, OPENED)
    pool.protocol_version = "2.3"
    n, F, made = v.int("fragments", 1), v.z3fun("fragment", "bytes"), []

    def fragment(self, msg, rpid, pid=None, *a, **k):
        made.append((type(msg).__name__, rpid, pid, msg.ci))
        return any_fragments(v, n, F)

    def receive(self, *a, **k):
        r = M.RunspaceAvailability(response=4 if what == "get_available_runspaces" else True, ci=made[0][3])
        h = self.ci_table[made[0][3]]
        self.ci_table[made[0][3]] = h(r.response) if callable(h) else r.response
        return [(M.MessageType.RUNSPACE_AVAILABILITY, r.response)]

    v.contract(PS + ".Fragmenter.fragment", fragment)
    v.contract(PS + ".RunspacePool._receive", receive)
    log, g = fragments_sent(v, PS + ".RunspacePool." + what, ("for", 1), pool, F, 0, "stdin")
    act(pool)
    v.internal(len(made) == 1, "one fragment call")
    v.check_eq("one message, under the pool's id", [m[:3] for m in made], [(name, pool.id, None)])
    v.check_eq("a request per fragment", g.get("n"), n)
    v.check("no other request", not log and not srv.log)


@contract("C02", funcs=["powershell.RunspacePool.connect", "powershell.RunspacePool._connect_new_client"], runs=1, conc=False)
def connect_of_any_fragments(v):
    """what does not fit into the connect request follows it, in order, for
    any number of fragments"""
    if v.unrolled:
        return
    C = v.mod("pypsrp.complex_objects")
    srv = Server(v)
    pool = new_pool(v, srv, C.RunspacePoolState.DISCONNECTED)
    pool._new_client = True
    n, F = v.int("fragments", 1), v.z3fun("fragment", "bytes")
    made, asked, log = [], [], []

    def multiple(self, msgs, rpid, pid=None, *a, **k):
        made.append(([type(m).__name__ for m in msgs], rpid, pid))
        return any_fragments(v, n, F)

    def connect(uri, res, *a, **k):
        v.check("nothing is sent before", not log)
        asked.append([e.text for e in res.iter() if e.tag.endswith("connectXml")])
        r = ET.Element("{%s}ConnectResponse" % RSP)
        ET.SubElement(r, "{http://schemas.microsoft.com/powershell}connectResponseXml").text = ""
        body = ET.Element("{%s}Body" % S)
        body.append(r)
        return body

    def receive(self, *a, **k):
        v.check("polled when everything is sent", not log)
        return []

    v.contract(PS + ".Fragmenter.fragment_multiple", multiple)
    v.contract(PS + ".RunspacePool._receive", receive)
    v.contract(PS + ".RunspacePool._parse_responses", lambda self, data, *a, **k: [])
    v.patch(srv, "connect", connect)
    log, g = fragments_sent(v, PS + ".RunspacePool._connect_new_client", ("for", 1), pool, F, 1, "stdin")
    pool.connect()
    v.internal(len(made) == 1, "one fragment_multiple call")
    v.check_eq("negotiation and connect, under the pool's id", made, [(["SessionCapability", "ConnectRunspacePool"], pool.id, None)])
    v.check("one connect request", len(asked) == 1 and len(asked[0]) == 1)
    v.check_eq("with the first fragment", v.mod("pyvc.models").b64decode(asked[0][0]), F(0))
    v.check_eq("a request per other fragment", g.get("n"), n - 1)
    v.check("no other request", not log and not srv.log)
