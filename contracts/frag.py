"""Fragmenter, Fragment, Message: C01, C02, C03."""
from pyvc.harness import contract

U64 = 2**64 - 1
U32 = 2**32 - 1
RPID = "4358D585-0EAB-47EF-A0E6-4B98E71F34AB"
PID = "7A9C4B0E-51F6-4D7C-9C1B-1E2F3A4B5C6D"
PS = "pypsrp.powershell"


def frag_bytes(v, oid, fid, start, end, payload):
    """MS-PSRP 2.2.4: the specification of one packed fragment."""
    flag = v.ite(start, 1, 0) + v.ite(end, 2, 0)
    return v.enc(8, ">", oid) + v.enc(8, ">", fid) + v.enc(1, ">", flag) + v.enc(4, ">", v.len(payload)) + payload


@contract(["C03", "C01"], funcs=["powershell.Fragment.__init__", "powershell.Fragment.pack"])
def fragment_pack(v):
    P = v.mod(PS)
    oid, fid = v.int("oid", 0, U64), v.int("fid", 0, U64)
    start, end = v.bool("start"), v.bool("end")
    data = v.bytes("data", 0, U32)
    raw = P.Fragment(oid, fid, data, start, end).pack()
    v.check_eq("fragment layout: BE64 object id, BE64 fragment id, flags, BE32 length, payload", raw, frag_bytes(v, oid, fid, start, end, data))


@contract(["C03", "C01"], funcs=["powershell.Fragment.unpack"])
def fragment_unpack(v):
    P = v.mod(PS)
    oid, fid = v.int("oid", 0, U64), v.int("fid", 0, U64)
    flag = v.int("flag", 0, 255)
    data = v.bytes("data", 0, U32)
    rest = v.bytes("rest")
    raw = v.enc(8, ">", oid) + v.enc(8, ">", fid) + v.enc(1, ">", flag) + v.enc(4, ">", v.len(data)) + data + rest
    frag, left = P.Fragment.unpack(raw)
    v.check_eq("object id decoded", frag.object_id, oid)
    v.check_eq("fragment id decoded", frag.fragment_id, fid)
    v.check("start flag is bit 0", v.iff(frag.start, flag % 2 == 1))
    v.check("end flag is bit 1", v.iff(frag.end, (flag // 2) % 2 == 1))
    v.check_eq("payload decoded", frag.data, data)
    v.check_eq("exactly the following bytes are left", left, rest)


class FakeSerializer:
    """serialises every object to the given bytes; remembers what it got"""

    def __init__(self, out):
        self.out = out
        self.got = []

    def serialize(self, value, metadata=None, *a, **k):
        self.got.append(value)
        return self.out


@contract("C03", funcs=["messages.Message.__init__", "messages.Message.pack"])
def message_pack(v):
    M = v.mod("pypsrp.messages")
    dest = v.int("dest", 0, U32)
    mtype = v.int("mtype", 0, U32)
    special = [M.MessageType.PUBLIC_KEY_REQUEST, M.MessageType.END_OF_PIPELINE_INPUT, M.MessageType.PIPELINE_INPUT, M.MessageType.CONNECT_RUNSPACEPOOL]
    for s in special:
        v.assume(mtype != s)
    rp, pp = v.uuid("rpid"), v.uuid("pid")
    rcase, pcase = v.choice("rcase", ["lower", "upper", "none"]), v.choice("pcase", ["lower", "upper", "none"])

    def form(u, case):
        s = v.uuid_str(u)
        return None if case == "none" else s.upper() if case == "upper" else s

    body = v.utf8("body")
    data = M.ResetRunspaceState(1)
    data.MESSAGE_TYPE = mtype
    ser = FakeSerializer(body)
    raw = M.Message(dest, form(rp, rcase), form(pp, pcase), data, ser).pack()
    nil = b"\x00" * 16
    want = v.enc(4, "<", dest) + v.enc(4, "<", mtype) + (nil if rcase == "none" else rp.bytes_le) + (nil if pcase == "none" else pp.bytes_le) + body
    v.check_eq("message layout: LE32 destination, LE32 type, GUIDs little endian, data", raw, want)
    v.check("the message object itself is serialised", len(ser.got) == 1 and ser.got[0] is data)


@contract("C03", funcs=["messages.Message.pack"], runs=60)
def message_pack_special(v):
    """the kinds whose data is not simply the serialised object"""
    M = v.mod("pypsrp.messages")
    kind = v.choice("kind", ["pkr", "eopi", "input", "connect", "connect_min", "connect_max"])
    body = v.utf8("body")
    ser = FakeSerializer(body)
    payload = object()
    if kind == "pkr":
        obj, want, t = M.PublicKeyRequest(), None, 0x00010007
    elif kind == "eopi":
        obj, want, t = M.EndOfPipelineInput(), b"", 0x00041003
    elif kind == "input":
        obj, want, t = M.PipelineInput(data=payload), body, 0x00041002
    elif kind == "connect":
        obj, want, t = M.ConnectRunspacePool(), None, 0x00010008
    elif kind == "connect_min":
        obj, want, t = M.ConnectRunspacePool(min_runspaces=v.choice("m", [0, 1])), body, 0x00010008
    else:
        obj, want, t = M.ConnectRunspacePool(max_runspaces=v.choice("m", [0, 1])), body, 0x00010008
    m = M.Message(0x2, RPID, PID, obj, ser)
    raw = m.pack()
    import uuid

    head = v.enc(4, "<", 2) + v.enc(4, "<", t) + uuid.UUID(RPID).bytes_le + uuid.UUID(PID).bytes_le
    if want is None:
        import xml.etree.ElementTree as ET

        el = ET.fromstring(raw[40:])
        v.check("empty <S/> element", el.tag == "S" and len(el) == 0 and not el.text and not el.attrib)
        want = raw[40:]
    v.check_eq("special message layout", raw, head + want)
    if kind == "input":
        v.check("the input object is serialised", len(ser.got) == 1 and ser.got[0] is payload)


class FakeDeserializer:
    def __init__(self, out, fail_first=None):
        self.out = out
        self.got = []
        self.fail_first = fail_first

    def deserialize(self, value, metadata=None, *a, **k):
        self.got.append((value, metadata))
        if self.fail_first is not None and len(self.got) == 1:
            raise self.fail_first
        return self.out


TYPES = {
    # MS-PSRP 2.2.1 message type -> class implementing it
    0x00010002: "SessionCapability",
    0x00010004: "InitRunspacePool",
    0x00010005: "PublicKey",
    0x00010006: "EncryptedSessionKey",
    0x00010007: "PublicKeyRequest",
    0x00010008: "ConnectRunspacePool",
    0x0002100B: "RunspacePoolInitData",
    0x0002100C: "ResetRunspaceState",
    0x00021002: "SetMaxRunspaces",
    0x00021003: "SetMinRunspaces",
    0x00021004: "RunspaceAvailability",
    0x00021005: "RunspacePoolStateMessage",
    0x00021006: "CreatePipeline",
    0x00021007: "GetAvailableRunspaces",
    0x00021008: "UserEvent",
    0x00021009: "ApplicationPrivateData",
    0x0002100A: "GetCommandMetadata",
    0x00021100: "RunspacePoolHostCall",
    0x00021101: "RunspacePoolHostResponse",
    0x00041002: "PipelineInput",
    0x00041003: "EndOfPipelineInput",
    0x00041004: "PipelineOutput",
    0x00041005: "ErrorRecordMessage",
    0x00041006: "PipelineState",
    0x00041007: "DebugRecord",
    0x00041008: "VerboseRecord",
    0x00041009: "WarningRecord",
    0x00041010: "ProgressRecord",
    0x00041011: "InformationRecord",
    0x00041100: "PipelineHostCall",
    0x00041101: "PipelineHostResponse",
}


@contract("C03", funcs=["messages.Message.unpack", "messages.Message.__init__"], runs=300)
def message_unpack(v):
    M = v.mod("pypsrp.messages")
    dest = v.int("dest", 0, U32)
    num = v.choice("type", sorted(TYPES))
    cls = getattr(M, TYPES[num])
    rp, pp = v.uuid("rpid"), v.uuid("pid")
    body = v.utf8("body")
    obj = object.__new__(cls)
    payload = object()
    ser = FakeDeserializer(payload if num in (0x00041002, 0x00041004) else obj)
    raw = v.enc(4, "<", dest) + v.enc(4, "<", num) + rp.bytes_le + pp.bytes_le + body
    msg = M.Message.unpack(raw, ser)
    v.check_eq("destination decoded", msg.destination, dest)
    v.check_eq("message type decoded", msg.message_type, num)
    v.check_eq("pool id decoded", msg.rpid, rp)
    v.check_eq("pipeline id decoded", msg.pid, pp)
    if num == 0x00010007:
        v.check("public key request object", isinstance(msg.data, cls))
        return
    bom = v.truth(body.startswith(b"\xef\xbb\xbf"))
    text = (body[3:] if bom else body).decode("utf-8")
    v.check("deserialised once", len(ser.got) == 1)
    v.check_eq("data decoded as UTF-8 without byte-order mark", ser.got[0][0], text)
    if num in (0x00041002, 0x00041004):
        v.check("payload object wrapped", type(msg.data) is cls and msg.data.data is payload)
    else:
        v.check("deserialised as the class of the message type", ser.got[0][1].object is cls and ser.got[0][1].tag == "Obj")
        v.check("decoded object returned", msg.data is obj)


@contract("C03", funcs=["messages (message type table)"], runs=40)
def message_types(v):
    M = v.mod("pypsrp.messages")
    num = v.choice("type", sorted(TYPES))
    cls = getattr(M, TYPES[num])
    v.check_eq("message type number assigned by MS-PSRP", cls.MESSAGE_TYPE, num)


@contract("C03", funcs=["messages.Message.pack", "messages.Message.unpack"], runs=60)
def message_roundtrip_real(v):
    """pack, then unpack, with the real serializer, one object of each simple kind"""
    M = v.mod("pypsrp.messages")
    S = v.mod("pypsrp.serializer")
    ser = S.Serializer()
    n = v.choice("n", [0, 1, 7, -1, 2**31 - 1])
    mk = v.choice("mk", [
        (lambda: M.SetMaxRunspaces(max_runspaces=n, ci=n), ["max_runspaces", "ci"]),
        (lambda: M.SetMinRunspaces(min_runspaces=n, ci=n + 1), ["min_runspaces", "ci"]),
        (lambda: M.SessionCapability("2.3", "2.0", "1.1.0.1"), ["protocol_version", "ps_version", "serialization_version"]),
        (lambda: M.GetAvailableRunspaces(ci=n), ["ci"]),
        (lambda: M.ResetRunspaceState(ci=n), ["ci"]),
        (lambda: M.RunspacePoolInitData(n, n + 2), ["min_runspaces", "max_runspaces"]),
        (lambda: M.ConnectRunspacePool(n, n + 1), ["min_runspaces", "max_runspaces"]),
        (lambda: M.PublicKey(public_key="QUJD"), ["public_key"]),
        (lambda: M.EncryptedSessionKey(session_key="QUJD"), ["session_key"]),
        (lambda: M.PipelineState(state=n), ["state"]),
        (lambda: M.RunspaceAvailability(response=n, ci=n), ["response", "ci"]),
        (lambda: M.PipelineInput(data="x_\n"), ["data"]),
    ])
    obj = mk[0]()
    m = M.Message(1, RPID, None, obj, ser)
    back = M.Message.unpack(m.pack(), ser)
    v.check("ids and type survive", back.rpid == m.rpid and back.pid.int == 0 and back.message_type == m.message_type and back.destination == 1)
    v.check("kind survives", type(back.data) is type(obj))
    for f in mk[1]:
        v.check_eq("field survives", getattr(back.data, f), getattr(obj, f))


# ------------------------------------------------------------ fragmenter
def mk_fragmenter(v, msg_bytes, M, oid):
    P = v.mod(PS)
    fr = P.Fragmenter(M, None)
    fr.outgoing_counter = oid
    MSG = v.mod("pypsrp.messages")
    it = iter(msg_bytes)
    v.patch(MSG.Message, "pack", lambda self: next(it))
    return fr


def payload_of(raw):
    return raw[21:]


def spec_fragments(v, oid, data, cap, first):
    """list of packed fragments required for data: the first carries `first`
    bytes, the others cap bytes, ids count from 0"""


def loop_fragment(v, data_len):
    """contract of the loop of Fragmenter.fragment"""

    def closed(v, j, L0, seq):
        fid0, start0 = L0["fragment_id"], L0["start"]
        oid = L0["self"].outgoing_counter
        n = v.len(seq)

        from pyvc.values import SList, Seg, mkint, zexpr

        def el(i):
            x = seq.select(i)
            return frag_bytes(v, oid, mkint(zexpr(fid0) + i), v.and_(start0, mkint_eq(i, 0)), x[1], x[0])

        return {
            "fragment_id": fid0 + j,
            "start": v.and_(start0, j == 0),
            "fragments": SList(SList.of(L0["fragments"]).segs + [Seg(zexpr(j), el)]),
        }

    v.loop("pypsrp.powershell.Fragmenter.fragment", 1, closed=closed)


def mkint_eq(i, k):
    from pyvc.values import mkbool

    return mkbool(i == k) if not isinstance(i, int) else i == k


def check_fragments(v, frags, data, oid, first, cap):
    """postcondition of fragment(): a partition of data into fragments"""
    n = v.len(frags)
    v.check("at least one fragment", n >= 1)

    def each(i, raw):
        v.check("fragment no larger than header + capacity", v.len(raw) <= cap + 21)
        lo = v.ite(i == 0, 0, first + (i - 1) * cap)
        hi = v.ite(i == n - 1, v.len(data), first + i * cap)
        v.check("fragment boundaries ordered", v.and_(lo <= hi, hi <= v.len(data)))
        v.check("no empty fragment", lo < hi)
        want = frag_bytes(v, oid, i, i == 0, i == n - 1, data[lo:hi])
        v.check_eq("fragment i carries id i, start only on the first, end only on the last, and the next slice of the message", raw, want)

    v.forall(frags, each)


@contract(["C01", "C02"], funcs=["powershell.Fragmenter.fragment", "powershell.Fragmenter._byte_iterator", "powershell.Fragmenter.__init__"], runs=300)
def fragment_plain(v):
    P = v.mod(PS)
    MSG = v.mod("pypsrp.messages")
    M = v.int("capacity", 1, U32, cmax=109) + 21
    oid = v.int("object_id", 1, U64 - 1)
    data = v.bytes("message", 40, U32, cmax=500)
    fr = mk_fragmenter(v, [data], M, oid)
    loop_fragment(v, v.len(data))
    frags = fr.fragment(MSG.EndOfPipelineInput(), RPID, v.choice("pid", [None, PID]))
    check_fragments(v, frags, data, oid, M - 21, M - 21)
    v.check_eq("next message gets the next object id", fr.outgoing_counter, oid + 1)


@contract(["C01", "C02"], funcs=["powershell.Fragmenter.fragment"], runs=300)
def fragment_remaining(v):
    """with the room left in a partly filled block"""
    P = v.mod(PS)
    MSG = v.mod("pypsrp.messages")
    M = v.int("capacity", 1, U32, cmax=109) + 21
    rem = v.int("remaining", 1, U32, cmax=110)
    v.assume(rem <= M - 21)
    oid = v.int("object_id", 1, U64 - 1)
    data = v.bytes("message", 40, U32, cmax=500)
    v.truth(v.len(data) <= rem)  # two cases, for the solver
    fr = mk_fragmenter(v, [data], M, oid)
    loop_fragment(v, v.len(data))
    frags = fr.fragment(MSG.EndOfPipelineInput(), RPID, PID, remaining_size=rem)
    first = frags[0]
    v.check("first fragment uses at most the room left", v.len(first) <= rem + 21)
    check_fragments(v, frags, data, oid, rem, M - 21)
    v.check_eq("next message gets the next object id", fr.outgoing_counter, oid + 1)


# ---------------------------------------------------------- reassembly
def mk_defrag(v, entry, oid, other, fail_unpack=False):
    """a Fragmenter whose buffer holds `entry` for object oid and `other` for
    another object; Message.unpack replaced by the identity on the bytes"""
    P = v.mod(PS)
    MSG = v.mod("pypsrp.messages")
    fr = P.Fragmenter(1000, None)
    v.need(fr, "incoming_buffer")
    v.patch(MSG.Message, "unpack", staticmethod(lambda data, ser: ("msg", data)))
    items = []
    if entry is not None:
        items.append((oid, entry))
    if other is not None:
        items.append(other)
    if v.symbolic:
        from pyvc.values import SMap

        fr.incoming_buffer = SMap(items)
    else:
        fr.incoming_buffer = dict(items)
    return fr


def check_buffer_shape(v):
    """the representation of a partly received message the contracts below
    state their invariant over; inapplicable if the code uses another one"""
    from pyvc.harness import Inapplicable

    P = v.mod(PS)
    fr = P.Fragmenter(1000, None)
    fr.defragment(P.Fragment(5, 0, b"ab", True, False).pack())
    b = getattr(fr, "incoming_buffer", None)
    if type(b) is not dict or b != {5: {"data": b"ab", "id": 1}}:
        raise Inapplicable("reassembly buffer representation changed")


def entry_of(fr, oid):
    return fr.incoming_buffer.get(oid)


@contract("C01", funcs=["powershell.Fragmenter.defragment", "powershell.Fragment.unpack"], runs=300)
def defragment_inductive_step(v):
    """Invariant: after the first i fragments of a message cut at c_0=0 <= ... <= c_n
    the buffer of its object is {data: message[:c_i], id: i} (absent for i=0).
    One arbitrary fragment i keeps the invariant, or with the end flag yields
    exactly the whole message and forgets the object.  Other objects are framed."""
    P = v.mod(PS)
    check_buffer_shape(v)
    oid, oid2 = v.int("oid", 0, U64), v.int("oid2", 0, U64)
    v.assume(oid2 != oid)
    i = v.int("i", 0, U64 - 1, cmax=5)
    lo = v.int("lo", 0, U32, cmax=20)
    last = v.bool("last")
    msg = v.bytes("message", 0, U32, cmax=60)
    if v.truth(last):
        hi = v.len(msg)
    else:
        hi = v.int("hi", 0, U32, cmax=40)
    v.assume(v.and_(lo <= hi, hi <= v.len(msg)))
    first = v.truth(i == 0)
    if first:
        v.assume(lo == 0)
        entry = None
    else:
        entry = {"data": msg[0:lo], "id": i}
    odata, oi = v.bytes("other", 0, U32, cmax=9), v.int("other_id", 1, U64)
    oentry = {"data": odata, "id": oi}
    fr = mk_defrag(v, entry, oid, (oid2, oentry))
    raw = frag_bytes(v, oid, i, first, last, msg[lo:hi])
    out = fr.defragment(raw)
    if v.truth(last):
        v.check("the last fragment yields one message", len(out) == 1)
        v.check_eq("the message is exactly what was sent", out[0][1], msg)
        v.check("nothing is kept of a complete message", entry_of(fr, oid) is None)
    else:
        v.check("no message before its last fragment", len(out) == 0)
        e = entry_of(fr, oid)
        v.check("the object is being reassembled", e is not None)
        v.check_eq("received data is the message up to the cut", e["data"], msg[0:hi])
        v.check_eq("next fragment id", e["id"], i + 1)
    o = entry_of(fr, oid2)
    v.check("other objects keep their buffer", o is not None)
    v.check_eq("other object's data unchanged", o["data"], odata)
    v.check_eq("other object's next id unchanged", o["id"], oi)


@contract("C01", funcs=["powershell.Fragmenter.defragment"], runs=300)
def defragment_rejects(v):
    """a fragment whose id is not the expected one raises and yields nothing"""
    P = v.mod(PS)
    X = v.mod("pypsrp.exceptions")
    check_buffer_shape(v)
    oid = v.int("oid", 0, U64)
    fid = v.int("fid", 0, U64, cmax=6)
    exp = v.int("expected", 0, U64, cmax=6)
    v.assume(fid != exp)
    entry = None if v.truth(exp == 0) else {"data": v.bytes("data", 0, U32, cmax=9), "id": exp}
    payload = v.bytes("payload", 0, U32, cmax=9)
    fr = mk_defrag(v, entry, oid, None)
    raw = frag_bytes(v, oid, fid, v.bool("start"), v.bool("end"), payload)
    err = v.raises(X.FragmentError, fr.defragment, raw)
    v.check("an unexpected fragment id is a fragment error", err is not None)


@contract("C01", funcs=["powershell.Fragmenter.defragment"], runs=20)
def defragment_loop(v):
    """the loop over a chunk: each iteration consumes exactly the next fragment,
    appends at most one message at the end and leaves the earlier ones alone,
    whatever follows in the chunk; messages come out in completion order"""
    P = v.mod(PS)
    if v.unrolled:
        return
    check_buffer_shape(v)
    from pyvc.values import SMap

    oid, fid = v.int("oid", 0, U64), v.int("fid", 0, U64)
    start, end = v.bool("start"), v.bool("end")
    payload = v.bytes("payload", 0, U32)
    rest = v.bytes("rest")
    have = v.bool("have")
    olddata = v.bytes("old", 0, U32)
    done = v.seq("done", "bytes")
    fr = mk_defrag(v, None, oid, None)
    st = {}

    def havoc(v, L0):
        entry = {"data": olddata, "id": fid}
        st["entry"] = entry
        fr.incoming_buffer = SMap([(oid, entry)]) if v.truth(have) else SMap([])
        if not v.truth(have):
            v.assume(fid == 0)
        return {"data": frag_bytes(v, oid, fid, start, end, payload) + rest, "fragments": done.copy()}

    def step(v, L, L1):
        v.check_eq("exactly one fragment is consumed", L1["data"], rest)
        if v.truth(end):
            v.check_eq("one message completed", v.len(L1["fragments"]), v.len(done) + 1)
            got = L1["fragments"][v.len(done)]
            if v.truth(start):
                v.check_eq("single-fragment message", got, payload)
            elif v.truth(have):
                v.check_eq("completed message", got, olddata + payload)
        else:
            v.check_eq("no message completed", v.len(L1["fragments"]), v.len(done))
        v.forall(done, lambda i, x: v.check_eq("earlier messages untouched", L1["fragments"][i], x))

    v.loop("pypsrp.powershell.Fragmenter.defragment", ("while", 1), havoc=havoc, inv=lambda v, L, L0: [], step=step, heap=lambda L0: [fr.incoming_buffer, st["entry"], st.setdefault("l", L0)])
    chunk = v.bytes("chunk")
    fr.defragment(chunk)


@contract("C01", funcs=["powershell.Fragmenter.defragment", "powershell.Fragmenter.fragment"], runs=400, bounded="two messages of at most 3 fragments each, every interleaving and chunking, symbolic contents", time_limit=300)
def interleaved_roundtrip(v):
    """end to end, independent of the buffer's representation"""
    P = v.mod(PS)
    MSG = v.mod("pypsrp.messages")
    X = v.mod("pypsrp.exceptions")
    na, nb = v.choice("na", [1, 2, 3]), v.choice("nb", [1, 2])
    A, B = v.bytes("A", 1, 400, cmax=30), v.bytes("B", 1, 400, cmax=30)
    oa, ob = v.int("oa", 1, U64), v.int("ob", 1, U64)
    v.assume(oa != ob)

    def cut(name, m, n):
        cs = [0]
        for k in range(n - 1):
            c = v.int("%s%d" % (name, k), 0, 400, cmax=30)
            v.assume(v.and_(c >= cs[-1], c <= v.len(m)))
            cs.append(c)
        cs.append(v.len(m))
        return cs

    ca, cb = cut("ca", A, na), cut("cb", B, nb)
    fa = [P.Fragment(oa, k, A[ca[k] : ca[k + 1]], k == 0, k == na - 1).pack() for k in range(na)]
    fb = [P.Fragment(ob, k, B[cb[k] : cb[k + 1]], k == 0, k == nb - 1).pack() for k in range(nb)]
    v.patch(MSG.Message, "unpack", staticmethod(lambda data, ser: data))
    fr = P.Fragmenter(1000, None)
    if v.symbolic:
        from pyvc.values import SMap

        if v.need(fr, "incoming_buffer") == {}:
            fr.incoming_buffer = SMap()
    order, i, j = [], 0, 0
    while i < na or j < nb:
        if j >= nb or (i < na and v.choice("next", ["a", "b"]) == "a"):
            order.append(("A", fa[i], i == na - 1))
            i += 1
        else:
            order.append(("B", fb[j], j == nb - 1))
            j += 1
    got, want, chunk = [], [], b""
    for k, (who, raw, last) in enumerate(order):
        chunk = chunk + raw
        if last:
            want.append(A if who == "A" else B)
        if k == len(order) - 1 or v.choice("flush", [True, False]):
            got.extend(fr.defragment(chunk))
            chunk = b""
    v.check("each message exactly once", len(got) == 2)
    for g, w in zip(got, want):
        v.check_eq("messages in order of completion, byte for byte", g, w)
    v.check("nothing left over", v.raises(X.FragmentError, fr.defragment, P.Fragment(oa, 1, b"x", False, True).pack()) is not None)


# ---------------------------------------------------------- several messages
@contract(["C02", "C01"], funcs=["powershell.Fragmenter.fragment_multiple"], runs=400)
def multiple_step(v):
    """Packing any number of messages.  Loop invariant of fragment_multiple:
    no block exceeds the maximum payload and the room offered to the next
    message is what is left of the last block.  Step: the blocks so far stay as
    they are except that the last one may be extended by exactly the first new
    fragment; all other new fragments follow, in order, as blocks of their own.
    (So the concatenation of the blocks stays the concatenation of the fragments.)"""
    P = v.mod(PS)
    MSG = v.mod("pypsrp.messages")
    M = v.int("capacity", 1, U32, cmax=109) + 21
    oid = v.int("object_id", 1, 2**63)
    if v.unrolled:
        if v.symbolic:
            return
        k = v.choice("k", [1, 2, 3, 4])
        msgs = [v.bytes("m%d" % i, 40, U32, cmax=200) for i in range(k)]
        fr = mk_fragmenter(v, msgs, M, oid)
        frags = []
        real = P.Fragmenter.fragment

        def keep(self, *a, **kw):
            r = real(self, *a, **kw)
            frags.extend(r)
            return r

        v.patch(P.Fragmenter, "fragment", keep)
        out = fr.fragment_multiple([MSG.EndOfPipelineInput() for _ in msgs], RPID, PID)
        for b in out:
            v.check("no block exceeds the maximum payload", len(b) <= M)
        v.check_eq("the blocks are the fragments in order", b"".join(out), b"".join(frags))
        return
    from pyvc.values import Seg, SList, mkint, zexpr

    fr = mk_fragmenter(v, [], M, oid)
    cap = M - 21
    v.symlists()
    st = {}

    def spec(self, data, rpid, pid=None, remaining_size=None):
        # contract of fragment(), established by fragment_plain / fragment_remaining
        rem = cap if remaining_size is None else remaining_size
        v.check("the room offered for the first fragment is between 1 and the capacity", v.and_(rem >= 1, rem <= cap), kind="post")
        v.check_eq("the message fragmented is the next one", data, st["x"])
        v.check_eq("pool id passed on", rpid, RPID)
        v.check_eq("pipeline id passed on", pid, PID)
        st["calls"] = st.get("calls", 0) + 1
        first = v.bytes("first", 22, U32)
        v.assume(v.len(first) <= rem + 21)
        tail = v.seq("tail", "bytes", elo=22, ehi=M)
        st["first"], st["tail"] = first, tail
        st["new"] = SList([Seg(1, lambda i: first)] + tail.segs)
        return st["new"].copy()

    v.contract("pypsrp.powershell.Fragmenter.fragment", spec)

    def havoc(v, j, L0, seq):
        st["x"] = seq.select(zexpr(j))
        before = v.seq("before", "bytes", elo=22, ehi=M)
        if v.truth(j == 0):
            return {"fragments": SList(), "remaining_size": cap}
        last = v.bytes("last", 22, U32)
        v.assume(v.len(last) <= M)
        room = cap - v.len(last)
        return {"fragments": SList(before.segs + [Seg(1, lambda i: last)]), "remaining_size": v.ite(room <= 0, cap, room)}

    def inv(v, j, L, L0, seq):
        fs = SList.of(L["fragments"])
        rem = L["remaining_size"]
        if v.truth(v.len(fs) == 0):
            return [("no blocks only before the first message", j == 0), ("full capacity for the first message", rem == cap)]
        out = []
        v.forall(fs, lambda i, b: v.check("no block exceeds the maximum payload", v.and_(v.len(b) <= M, v.len(b) >= 22)) if st.get("chk") else None)
        room = cap - v.len(fs[-1])
        out.append(("room offered is what is left of the last block", v.and_(rem >= 1, v.or_(rem == cap, rem <= room))))
        return out

    def step(v, j, x, L, L1):
        st["chk"] = True
        v.check("each message fragmented exactly once", st.get("calls") == 1)
        old, new, res = L["fragments"], st["new"], SList.of(L1["fragments"])
        n, m = v.len(old), v.len(new)
        if v.truth(v.len(res) == n + m):
            # nothing merged
            v.check_eq("blocks, then the new fragments", res, SList(old.segs + new.segs))
        else:
            merged = SList([Seg(1, lambda i: old[-1] + st["first"])])
            v.check("the first fragment is merged into the last block", v.len(res) == n + m - 1)
            v.check_eq("blocks, the last one extended by the first fragment, then the other fragments", res, SList(old[:-1].segs + merged.segs + st["tail"].segs))

    v.loop("pypsrp.powershell.Fragmenter.fragment_multiple", 1, whole=True, havoc=havoc, inv=inv, step=step, heap=lambda L0: [fr])
    blocks = v.seq("blocks", "opaque")
    out = fr.fragment_multiple(blocks, RPID, PID)


def v_z(c):
    from pyvc.values import zb

    return zb(c)


@contract(["C02", "C01"], funcs=["powershell.Fragmenter.fragment_multiple"], runs=500, bounded="up to 3 messages, concrete inputs", sym=False)
def multiple_order(v):
    """the concatenation of the blocks is the concatenation of the fragments of
    the messages in order: nothing lost, reordered or duplicated"""
    P = v.mod(PS)
    MSG = v.mod("pypsrp.messages")
    k = v.choice("k", [1, 2, 3])
    M = v.int("max_payload", 43, 200, cmax=130)
    oid = v.int("object_id", 1, 2**62)
    msgs = [v.bytes("m%d" % i, 40, 300 if k < 3 else 60, cmax=150) for i in range(k)]
    if v.symbolic:
        for m in msgs:
            v.assume(v.len(m) <= 2 * (M - 21))
    fr = mk_fragmenter(v, msgs, M, oid)
    out = fr.fragment_multiple([MSG.EndOfPipelineInput() for _ in msgs], RPID, PID)
    stream = b""
    for b in out:
        v.check("no block exceeds the maximum payload", v.len(b) <= M)
        stream = stream + b
    # decode the stream fragment by fragment with the (separately proved) decoder
    got = []
    cur, nxt = b"", 0
    while len(got) < k:
        f, stream = P.Fragment.unpack(stream)
        v.check_eq("object ids increase by one per message", f.object_id, oid + len(got))
        v.check_eq("fragment ids count from 0", f.fragment_id, nxt)
        v.check("start flag only on the first fragment", v.iff(f.start, nxt == 0))
        cur = cur + f.data
        nxt += 1
        if v.truth(f.end):
            got.append(cur)
            cur, nxt = b"", 0
        if not stream:
            break
    v.check("all messages are in the blocks", len(got) == k)
    for g, w in zip(got, msgs):
        v.check_eq("message contents in order", g, w)
    v.check_eq("nothing after the last message", stream, b"")
