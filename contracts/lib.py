"""Shared environment for the pool and pipeline contracts: a server at the
connection boundary (the methods of WSMan) that decodes what it is sent with
its own fragment parser and answers from a script.

Assumed contracts used here: Message.pack / Message.unpack are replaced by a
lookup of tokens (their own behaviour is C03), so message objects may carry
symbolic values.
"""
import base64
import struct
import xml.etree.ElementTree as ET

PS = "pypsrp.powershell"
S = "http://www.w3.org/2003/05/soap-envelope"
RSP = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
WSM = "http://schemas.dmtf.org/wbem/wsman/1/wsman.xsd"
WST = "http://schemas.xmlsoap.org/ws/2004/09/transfer"
WSA = "http://schemas.xmlsoap.org/ws/2004/08/addressing"
WSEN = "http://schemas.xmlsoap.org/ws/2004/09/enumeration"
PWSH = "http://schemas.microsoft.com/powershell"

# MS-PSRP RunspacePoolState / PSInvocationState
BEFORE_OPEN, OPENING, OPENED, CLOSED, CLOSING, BROKEN, NEG_SENT, NEG_OK, CONNECTING, DISCONNECTED = range(10)
NOT_STARTED, RUNNING, STOPPING, STOPPED, COMPLETED, FAILED, P_DISCONNECTED = range(7)

OP_TIMEOUT = 2150858793


class ScriptEnd(Exception):
    """the server has nothing more to say: the client polled once too often"""


class Ev:
    def __init__(self, kind, uri, resource, options, selectors, timeout, action=None):
        self.kind, self.uri, self.resource = kind, uri, resource
        self.options, self.selectors, self.timeout = options, selectors, timeout
        self.payload = None
        self.stream = None
        self.command_id = None

    def selector(self, name):
        for k, val, _ in self.selectors.values if self.selectors is not None else []:
            if k == name:
                return val
        return None


class Sent:
    """one message received completely by the server"""

    def __init__(self, msg, oid):
        self.msg, self.oid = msg, oid
        self.data = msg.data
        self.via = []  # (kind, stream, command id) of each fragment

    @property
    def name(self):
        return type(self.data).__name__

    @property
    def pid(self):
        """the pipeline the message names, None for the pool"""
        p = self.msg.pid
        if p is None or str(p) == "00000000-0000-0000-0000-000000000000":
            return None
        return str(p).upper()


def body():
    return ET.Element("{%s}Body" % S)


TEXTS = ["The WS-Management service cannot complete the operation within the time specified in OperationTimeout.", "Access is denied.", "timeout", "The shell was not found on the server.", "2150858793"]


class Server:
    def __init__(self, v, max_payload=5000, size=60):
        self.v = v
        self.max_payload_size = max_payload
        self.max_envelope_size = 153600
        self.operation_timeout = 20
        self.log = []  # Ev, in order
        self.messages = []  # Sent, complete
        self.partial = {}
        self.frag_errors = []
        self.script = []
        self.polls = []
        self.tokens = {}
        self.size = size  # bytes of an outgoing message
        self.cmd_ids = {}
        self.resized = []
        self.on = {}
        MSG = v.mod("pypsrp.messages")
        self.MSG = MSG
        v.patch(MSG.Message, "pack", lambda m: self._token(m, self.size))
        v.patch(MSG.Message, "unpack", staticmethod(lambda data, *a, **k: self.tokens[bytes(data)]))

    # tokens
    def _token(self, m, size=44):
        if callable(size):
            size = size(m)
        t = (b"<%08d>" % len(self.tokens)).ljust(size, b".")
        self.tokens[t] = m
        return t

    # server -> client
    def raw(self, *objs, rpid=None, pid=None, split=None):
        """fragments of the given message objects, one after the other"""
        out = b""
        for o in objs:
            m = self.MSG.Message.__new__(self.MSG.Message)
            m.destination, m.message_type, m.rpid, m.pid, m.data, m._serializer = 1, o.MESSAGE_TYPE, rpid, pid, o, None
            t = self._token(m)
            oid = 10000 + len(self.tokens)
            out += struct.pack(">QQBI", oid, 0, 3, len(t)) + t
        return out

    def say(self, *objs):
        self.script.append(objs)
        return self

    def fault(self, code):
        X = self.v.mod("pypsrp.exceptions")
        t = [self.v.str(n, pool=TEXTS) for n in ("fault machine", "fault reason", "fault provider", "fault path", "provider fault")]
        if not self.v.symbolic and self.v.bool("fault without details"):
            t = [None] * 5
        self.script.append(X.WSManFaultError(code, *t))
        return self

    def quiet(self):
        """nothing to say"""
        self.script.append(())
        return self

    # client -> server
    def _call(self, kind, resource_uri, resource=None, option_set=None, selector_set=None, timeout=None):
        e = Ev(kind, resource_uri, resource, option_set, selector_set, timeout)
        self.log.append(e)
        if kind == "create":
            c = resource.find("creationXml") if resource is not None else None
            if c is None and resource is not None:
                c = resource.find("{%s}creationXml" % PWSH)
            if c is not None:
                self._payload(e, c.text, "creationXml", None)
        elif kind == "connect":
            c = resource.find("connectXml")
            if c is None:
                c = resource.find("{%s}connectXml" % PWSH)
            if c is not None:
                self._payload(e, c.text, "connectXml", None)
            e.command_id = resource.attrib.get("CommandId")
        elif kind == "command":
            e.command_id = resource.attrib.get("CommandId")
            a = resource.findall("{%s}Arguments" % RSP)
            if len(a) == 1:
                self._payload(e, a[0].text, "command", e.command_id)
        elif kind == "send":
            s = resource.find("{%s}Stream" % RSP)
            self._payload(e, s.text, s.attrib.get("Name"), s.attrib.get("CommandId"))
        elif kind == "receive":
            s = resource.find("{%s}DesiredStream" % RSP)
            e.stream, e.command_id = s.text, s.attrib.get("CommandId")
        elif kind == "signal":
            e.command_id = resource.attrib.get("CommandId")
            e.stream = resource.find("{%s}Code" % RSP).text
        f = self.on.get(kind)
        if f is not None:
            r = f(e)
            if r is not None:
                return r
        return getattr(self, "_r_" + kind, self._r_default)(e)

    def _payload(self, e, text, stream, cid):
        raw = base64.b64decode(text)
        e.payload, e.stream, e.command_id = raw, stream, cid
        if len(raw) > self.max_payload_size:
            self.frag_errors.append("block of %d bytes" % len(raw))
        while raw:
            oid, fid, flag, n = struct.unpack(">QQBI", raw[:21])
            data, raw = raw[21 : 21 + n], raw[21 + n :]
            p = self.partial.get(oid)
            if (p is None) != bool(flag & 1) or fid != (0 if p is None else p[1]):
                self.frag_errors.append("fragment %d of object %d out of order" % (fid, oid))
            if p is None:
                p = self.partial[oid] = [b"", 0, []]
            p[0] += data
            p[1] += 1
            p[2].append((e.kind, stream, cid))
            if flag & 2:
                m = Sent(self.tokens[p[0]], oid)
                m.via = p[2]
                self.messages.append(m)
                del self.partial[oid]

    def _r_default(self, e):
        return body()

    def _r_create(self, e):
        b = body()
        sh = ET.SubElement(b, "{%s}Shell" % RSP)
        sid = e.resource.attrib.get("ShellId") or "11111111-2222-3333-4444-555555555555"
        ET.SubElement(sh, "{%s}ShellId" % RSP).text = sid
        rc = ET.SubElement(b, "{%s}ResourceCreated" % WST)
        rp = ET.SubElement(rc, "{%s}ReferenceParameters" % WSA)
        ss = ET.SubElement(rp, "{%s}SelectorSet" % WSM)
        ET.SubElement(ss, "{%s}Selector" % WSM, Name="ShellId").text = sid
        self.shell_id = sid
        return b

    def _r_command(self, e):
        b = body()
        r = ET.SubElement(b, "{%s}CommandResponse" % RSP)
        ET.SubElement(r, "{%s}CommandId" % RSP).text = self.cmd_ids.get(e.command_id, e.command_id)
        return b

    def _r_connect(self, e):
        b = body()
        r = ET.SubElement(b, "{%s}ConnectResponse" % RSP)
        ET.SubElement(r, "{%s}connectResponseXml" % PWSH).text = base64.b64encode(self.raw(*getattr(self, "connect_says", ()))).decode()
        return b

    def _r_receive(self, e):
        self.polls.append(e)
        if not self.script:
            raise ScriptEnd()
        item = self.script.pop(0)
        if callable(item):
            item = item()
        if isinstance(item, Exception):
            raise item
        b = body()
        r = ET.SubElement(b, "{%s}ReceiveResponse" % RSP)
        if item:
            raws = self.raw(*item)
            ET.SubElement(r, "{%s}Stream" % RSP, Name="stdout").text = base64.b64encode(raws).decode()
        return b

    # the WSMan interface
    def create(self, *a, **k):
        return self._call("create", *a, **k)

    def command(self, *a, **k):
        return self._call("command", *a, **k)

    def send(self, *a, **k):
        return self._call("send", *a, **k)

    def receive(self, *a, **k):
        return self._call("receive", *a, **k)

    def signal(self, *a, **k):
        return self._call("signal", *a, **k)

    def delete(self, *a, **k):
        return self._call("delete", *a, **k)

    def connect(self, *a, **k):
        return self._call("connect", *a, **k)

    def disconnect(self, *a, **k):
        return self._call("disconnect", *a, **k)

    def reconnect(self, *a, **k):
        return self._call("reconnect", *a, **k)

    def enumerate(self, *a, **k):
        return self._call("enumerate", *a, **k)

    def get(self, *a, **k):
        return self._call("get", *a, **k)

    def update_max_payload_size(self, max_payload_size=None):
        self.resized.append(max_payload_size)
        self.max_envelope_size = max_payload_size
        self.max_payload_size = max_payload_size // 4 * 3

    def kinds(self):
        return [e.kind for e in self.log]


class St:
    """RUNSPACEPOOL_STATE / PIPELINE_STATE message data"""


def pool_state(v, state, err=None):
    M = v.mod("pypsrp.messages")
    m = M.RunspacePoolStateMessage(state=state, error_record=err)
    return m


def pipe_state(v, state, err=None):
    M = v.mod("pypsrp.messages")
    return M.PipelineState(state=state, error_record=err)


def new_pool(v, srv, state=OPENED, opened=None, **kw):
    """a pool in the given state, its shell open"""
    P = v.mod(PS)
    W = v.mod("pypsrp.wsman")
    pool = P.RunspacePool(srv, **kw)
    if opened is None:
        opened = not (isinstance(state, int) and state == BEFORE_OPEN)
    if opened:
        pool.shell.opened = True
        pool.shell.id = pool.id
        ss = W.SelectorSet()
        ss.add_option("ShellId", pool.id)
        pool.shell._selector_set = ss
    pool.state = state
    return pool


def new_pipe(v, pool):
    """a pipeline of the pool; what should make no difference is arbitrary"""
    ps = v.mod(PS).PowerShell(pool)
    ps.is_nested = v.sbool("is nested")
    ps.history_string = v.choice("history", [None, "earlier commands"]) if not v.symbolic else "earlier commands"
    return ps


def availability(v, response, ci):
    M = v.mod("pypsrp.messages")
    return M.RunspaceAvailability(response=response, ci=ci)


def pool_poll(v, srv, pool, *objs):
    """have the pool receive these messages, through its public interface"""

    def item():
        ci = [m for m in srv.messages if m.name == "GetAvailableRunspaces"][-1].data.ci
        return tuple(objs) + (availability(v, 1, ci),)

    srv.script.append(item)
    pool.get_available_runspaces()


def unchanged(v, name, srv):
    v.check(name, len(srv.log) == 0)


def plain_text(v):
    """CLIXML escaping as the identity on both sides (that decoding inverts
    encoding is C04)"""
    v.contract("pypsrp.serializer.Serializer._serialize_string", lambda self, s: s)
    v.contract("pypsrp.serializer.Serializer._deserialize_string", lambda self, s: "" if s is None else s)


def prop(el, name):
    """the property of a CLIXML object element"""
    for tag in ("MS", "Props"):
        ms = el.find(tag)
        for c in ms if ms is not None else []:
            if c.attrib.get("N") == name:
                return c
    return None


def items(el):
    l = el.find("LST")
    return list(l) if l is not None else None


def unescape(v, s):
    """the text a server reads from escaped CLIXML text (independent decoder)"""
    if v.symbolic or s is None:
        return s
    out, i = [], 0
    while i < len(s):
        h = s[i + 2 : i + 6]
        if s[i : i + 2] in ("_x", "_X") and s[i + 6 : i + 7] == "_" and len(h) == 4 and all(c in "0123456789abcdefABCDEF" for c in h):
            out.append(int(h, 16))
            i += 7
        else:
            b = s[i].encode("utf-16-be", "surrogatepass")
            out += [int.from_bytes(b[k : k + 2], "big") for k in range(0, len(b), 2)]
            i += 1
    return b"".join(u.to_bytes(2, "big") for u in out).decode("utf-16-be", "surrogatepass")


def unb64(v, text):
    if v.symbolic and not isinstance(text, (str, bytes)):
        return v.mod("pyvc.models").b64decode(text)
    return base64.b64decode(text)


def b64text(v, data):
    """base64 text of bytes, symbolic or not"""
    if v.symbolic and not isinstance(data, bytes):
        M = v.mod("pyvc.models")
        return M.bytes_decode(M.b64encode(data), "utf-8")
    return base64.b64encode(data).decode()


class RawServer(Server):
    """a server that keeps what it is sent as bytes"""

    def _payload(self, e, text, stream, cid):
        e.stream, e.command_id = stream, cid
        if e.kind == "send":
            e.payload = b"" if text is None else unb64(self.v, text)


def fragments_sent(v, qual, ordinal, pool, F, first, stream, command_id=None, before=None):
    """contract of a loop that sends the fragments F(first), F(first + 1), ...
    of a message, one per turn, in order; returns the log of other requests"""
    log, g = [], {}

    def send(stream, data, command_id=None, end=None):
        log.append((stream, data, command_id, end))
        return ET.Element("x")

    v.patch(pool.shell, "send", send)

    def havoc(v, j, L0, seq):
        g["n"] = v.len(seq)
        del log[:]
        return {}

    def step(v, j, x, L, L1):
        v.internal(log or not any(e.kind == "send" for e in pool.connection.log), "fragments are sent by the shell's send")
        v.check("one request per fragment", len(log) == 1)
        s, data, cid, end = log[0]
        v.check("to the stream of the shell", s == stream and cid == command_id and end is None)
        v.check_eq("the fragment at its place", data, F(j + first))

    v.loop(qual, ordinal, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
    return log, g


def any_fragments(v, n, F):
    V = v.mod("pyvc.values")
    return V.SList([V.Seg(V._z(V.zi(n)), F)])


class Fake:
    """stands for any object of which only a part of the interface is given;
    code that uses another part is out of the contract's reach"""

    def __init__(self, v):
        self.__dict__.update(v=v, puts=[])

    def _no(self, *a, **k):
        self.v.internal(False, "the part of %s that the contract describes" % type(self).__name__)

    __contains__ = __len__ = __iter__ = __getitem__ = __setitem__ = __delitem__ = __iadd__ = __add__ = __or__ = __ior__ = __bool__ = __call__ = _no

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._no()


class Puts(Fake):
    """any dictionary: records what is put into it"""

    def __setitem__(self, k, x):
        self.puts.append((k, x))

    def update(self, d):
        self.v.internal(type(d) is dict, "update with a dictionary")
        self.puts.extend(d.items())


class Adds(Fake):
    """any list: records what is appended"""

    def append(self, x):
        self.puts.append(x)

    def extend(self, l):
        self.v.internal(type(l) is list, "extend by a list")
        self.puts.extend(l)

    def __iadd__(self, l):
        self.extend(l)
        return self


def block_error(v):
    """an error raised in a with block: the caller's own, one of each class of
    the library's exceptions, or an interrupt"""
    X = v.mod("pypsrp.exceptions")
    kinds = ["KeyError", "KeyboardInterrupt", "SystemExit", "WinRMError", "AuthenticationError", "WinRMTransportError",
             "WSManFaultError", "InvalidRunspacePoolStateError", "InvalidPipelineStateError", "InvalidPSRPOperation",
             "FragmentError", "SerializationError"]
    k = v.choice("error", kinds)
    if k in ("KeyError", "KeyboardInterrupt", "SystemExit"):
        return {"KeyError": KeyError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}[k]("block")
    cls = getattr(X, k)
    if k == "WinRMTransportError":
        return cls("http", 500, "block")
    if k == "WSManFaultError":
        return cls(2150858843, "m", "block", "p", "pp", "pf")
    if k in ("InvalidRunspacePoolStateError", "InvalidPipelineStateError"):
        return cls(2, 0, "block")
    return cls("block")


def grown(v, L0):
    """at the head of a loop: every list variable that is empty before it may
    by then hold any number of anything"""
    from pyvc.values import Seg, SList

    out = {}
    for k, x in L0.items():
        if type(x) is list and not x:
            n = v.int("length of %s" % k, 0)
            out[k] = SList([Seg(n.e, lambda i: v.opaque("entry"))])
    return out
