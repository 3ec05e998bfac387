"""Pipeline input arrives completely, in order and terminated exactly once."""
from pyvc.harness import contract

from .lib import *

FN = ["powershell.PowerShell.begin_invoke", "powershell.PowerShell._invoke", "powershell.PowerShell.invoke"]
BI = PS + ".PowerShell.begin_invoke"


def setup(v, **kw):
    P = v.mod(PS)
    srv = Server(v, **kw)
    pool = new_pool(v, srv, OPENED)
    pool.protocol_version = "2.3"
    ps = P.PowerShell(pool)
    ps.add_cmdlet("x")
    return P, srv, pool, ps


def same(v, a, b):
    """is what arrived the object supplied"""
    return a is b or (type(a) is type(b) and v.truth(a == b))


def check_stream(v, srv, ps, cid, objs, given):
    """what the server received for an invocation with these input objects"""
    names = [m.name for m in srv.messages]
    v.check("no malformed fragments", not srv.frag_errors)
    v.check("nothing is left incomplete", not srv.partial)
    v.check("the pipeline is created first and once", names[:1] == ["CreatePipeline"] and names.count("CreatePipeline") == 1)
    v.check_eq("no input is declared exactly when none is given", srv.messages[0].data.no_input, not given)
    rest = srv.messages[1:]
    if not given:
        v.check("no input, no end of input", not rest)
    else:
        v.check("every input once, then one end of input", [m.name for m in rest] == ["PipelineInput"] * len(objs) + ["EndOfPipelineInput"])
        for m, o in zip(rest, objs):
            v.check("inputs in order", same(v, m.data.data, o))
    v.check("messages name the pipeline", all(m.pid == ps.id for m in srv.messages))
    # the channel
    c = srv.messages[0].via
    v.check("the first fragment opens the command", c[0][0] == "command" and c[0][2] == ps.id)
    others = c[1:] + [x for m in rest for x in m.via]
    v.check("everything else is sent to the command id the server returned", all(k == "send" and s == "stdin" and i == cid for k, s, i in others))
    v.check("one command", srv.kinds().count("command") == 1)
    v.check_eq("running", ps.state, RUNNING)


def value(v):
    k = v.choice("value", ["object", "None", "0", "False", "empty string", "dict"])
    return {"None": None, "0": 0, "False": False, "empty string": "", "dict": {}}.get(k, v.opaque("in"))


@contract("C14", funcs=FN, runs=500, bounded="generators of up to 3 items, lists of up to 2; values arbitrary", max_paths=9000)
def inputs(v):
    sizes = (60, 5000) if v.symbolic else (60, 500, 5000)
    P, srv, pool, ps = setup(v, size=v.choice("message size", list(sizes)), max_payload=v.choice("max payload", [4000] if v.symbolic else [200, 1000, 4000]))
    cid = srv.cmd_ids[ps.id] = v.choice("command id", ["AAAAAAAA-0000-0000-0000-000000000000", ps.id])
    shape = v.choice("input", ["none", "value", "list", "generator"])
    if v.symbolic:
        seq = lambda: [v.opaque("in") for _ in range(v.choice("items", [0, 1, 2]))]
    else:
        seq = lambda: [value(v) for _ in range(v.choice("items", [0, 1, 2, 4]))]
    objs, inp = [], None
    if shape == "value":
        while inp is None:
            inp = value(v)
            v.assume(inp is not None)
        objs = [inp]
    elif shape == "list":
        inp = objs = seq()
        objs = list(objs)
    elif shape == "generator":
        steps = []
        for _ in range(v.choice("yields", [0, 1, 2, 3] if v.symbolic else [0, 1, 2, 3, 6])):
            if v.choice("yield", ["value", "list"]) == "value":
                x = v.opaque("in") if v.symbolic else value(v)
                steps.append(x)
                objs.append(x)
            else:
                x = seq()
                steps.append(x)
                objs += x
        inp = (s for s in steps)
    ps.begin_invoke(inp)
    check_stream(v, srv, ps, cid, objs, shape != "none")


@contract("C14", funcs=FN, runs=60)
def falsy_values(v):
    """None yielded by a generator and false values are inputs like any other"""
    P, srv, pool, ps = setup(v)
    x = value(v)
    how = v.choice("how", ["value", "in a list", "yielded", "yielded in a list"])
    if how == "value":
        v.assume(x is not None)
    ps.begin_invoke({"value": x, "in a list": [x]}.get(how) if not how.startswith("y") else (i for i in ([x] if how == "yielded" else [[x]])))
    check_stream(v, srv, ps, ps.id, [x], True)


def recorders(v, pool, cid):
    """the shell's command and send, recorded"""
    log = []
    R = v.mod("xml.etree.ElementTree")

    def command(executable, arguments=None, no_shell=False, command_id=None):
        log.append(("command", arguments, command_id))
        b = R.Element("x")
        r = R.SubElement(b, "{%s}CommandResponse" % RSP)
        R.SubElement(r, "{%s}CommandId" % RSP).text = cid
        return b

    def send(stream, data, command_id=None, end=None):
        log.append(("send", stream, data, command_id))

    v.patch(pool.shell, "command", command)
    v.patch(pool.shell, "send", send)
    return log


@contract("C14", funcs=["powershell.PowerShell._invoke"], runs=60)
def create_fragments(v):
    """for any number of fragments: the first opens the command, the others
    follow in order to the returned command id"""
    P, srv, pool, ps = setup(v)
    cid = v.str("cid", nonempty=True)
    log = recorders(v, pool, cid)
    frags = v.seq("frag", "bytes", lo=1, elo=1)
    v.contract(PS + ".Fragmenter.fragment", lambda self, msg, rpid, pid=None, **k: frags.copy())
    if v.symbolic:

        def havoc(v, j, L0, seq):
            log[1:] = []
            return {}

        def step(v, j, x, L, L1):
            new = log[1:]
            v.check("one send per fragment", len(new) == 1)
            v.check_eq("stream, command id", new[0][1:2] + new[0][3:], ("stdin", cid))
            v.check_eq("the fragment at its place", new[0][2], frags[j + 1])

        v.loop(PS + ".PowerShell._invoke", 1, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
        if v.unrolled:
            return
    else:
        real = v.need(P, "Fragmenter")
        used = []
        v.patch(P.Fragmenter, "fragment", lambda self, *a, **k: used.append(1) or list(frags))
    ps.begin_invoke()
    v.internal(v.symbolic or len(used) == 1, "the request is split by one Fragmenter.fragment call")
    c = log[0]
    v.check("opened by a command with the pipeline's id", c[0] == "command" and c[2] == ps.id)
    v.check("with one argument", len(c[1]) == 1)
    v.check_eq("the first fragment, base64", base64.b64decode(c[1][0]) if not v.symbolic else v.mod("pyvc.models").b64decode(c[1][0]), frags[0])
    if not v.symbolic:
        v.check_eq("the others in order", [e[2] for e in log[1:]], list(frags)[1:])
        v.check("stream, command id", all(e[0] == "send" and e[1] == "stdin" and e[3] == cid for e in log[1:]))


@contract("C14", funcs=["powershell.PowerShell.begin_invoke"], runs=60)
def input_blocks(v):
    """all blocks of the packed input are sent in order, for any number"""
    P, srv, pool, ps = setup(v)
    cid = v.str("cid", nonempty=True)
    log = recorders(v, pool, cid)
    blocks = v.seq("block", "bytes", lo=1, elo=1)
    packed = []

    def pack(self, msgs, rpid, pid=None):
        packed.append(msgs)
        return blocks.copy()

    v.need(v.need(P, "Fragmenter"), "fragment_multiple")
    v.patch(P.Fragmenter, "fragment_multiple", pack)
    if v.symbolic:
        if v.unrolled:
            return

        def havoc(v, j, L0, seq):
            log[:] = []
            return {}

        def step(v, j, x, L, L1):
            v.check("one send per block", len(log) == 1)
            v.check_eq("stream, command id", log[0][1:2] + log[0][3:], ("stdin", cid))
            v.check_eq("the block at its place", log[0][2], blocks[j])

        v.loop(BI, 2, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
    data = v.seq("input", "opaque")
    n = v.len(data)
    ps.begin_invoke(data)
    v.internal(len(packed) == 1, "the input is packed by one fragment_multiple call")
    msgs = packed[0]
    v.check_eq("inputs and one end", v.len(msgs), n + 1)
    if v.symbolic:
        v.forall(msgs, lambda i, m: v.check("inputs in order", v.or_(i == n, m.data == data[i]) if hasattr(m, "data") else v.truth(i == n)))
    else:
        v.check("inputs in order", [getattr(m, "data", None) for m in msgs[:-1]] == list(data))
        v.check_eq("sent in order", [e[2] for e in log[-v.len(blocks):]], list(blocks))
    v.check("ends with the end of input", type(msgs[-1]).__name__ == "EndOfPipelineInput")


@contract("C14", funcs=["powershell.PowerShell.begin_invoke"], runs=1, conc=False)
def generator_step(v):
    """one step of the loop that feeds the pipeline, with a generator of any
    length whose items are arbitrary values or lists"""
    if v.unrolled:
        return
    P, srv, pool, ps = setup(v)
    log = recorders(v, pool, "C1")
    packed = []
    v.contract(PS + ".Fragmenter.fragment_multiple", lambda self, msgs, rpid, pid=None: packed.append((msgs, rpid, pid)) or [b"blk%d" % len(packed)])
    st = {"ended": False, "last": None}

    def gen():
        # (no item at all: the harness `inputs`)
        yield v.opaque("first")
        while v.choice("more", [True, False]):
            st["last"] = v.opaque("item") if v.choice("yield", ["value", "list"]) == "value" else v.seq("items")
            yield st["last"]
        st["ended"] = True
        st["last"] = None

    g = gen()
    box = {}

    def havoc(v, L0):
        # the item pulled but not sent yet is arbitrary; everything before it
        # has been sent
        packed[:] = []
        log[1:] = []
        cur = v.opaque("item") if v.choice("pending", ["value", "list"]) == "value" else v.seq("items")
        box["cur"] = cur
        st["ended"] = False
        return {"next_input": cur, "more_input": True}

    def step(v, L, L1):
        v.check("packed once", len(packed) == 1)
        msgs, rpid, pid = packed[0]
        v.check("for this pipeline", rpid == pool.id and pid == ps.id)
        cur = box["cur"]
        ended = st["ended"]
        is_list = type(cur).__name__ == "SList"
        k = v.len(cur) if is_list else 1
        v.check_eq("the pending objects, and the end exactly when exhausted", v.len(msgs), k + (1 if ended else 0))
        if is_list:
            i = v.int("i", 0)
            v.assume(i < k)
            v.check_eq("object at its place", msgs[i].data, cur[i])
        else:
            v.check_eq("object at its place", msgs[0].data, cur)
        if ended:
            v.check("end of input last", type(msgs[-1]).__name__ == "EndOfPipelineInput")
        v.check("loop ends exactly when exhausted", v.truth(L1["more_input"]) == (not ended))
        if not ended:
            v.check("the pulled item is pending", L1["next_input"] is st["last"])
        v.check_eq("sent to the command", [e[1:2] + e[3:] for e in log[1:]], [("stdin", "C1")])

    v.loop(BI, 1, havoc=havoc, inv=lambda v, L, L0: [], step=step, heap=lambda L0: [...])
    ps.begin_invoke(g)


@contract("C14", funcs=["messages.Message.pack", "serializer.Serializer.serialize"], runs=60, bounded="the values listed")
def values_on_the_wire(v):
    """an input message carries the CLIXML of its value, whatever it is"""
    import xml.etree.ElementTree as ET

    M, S, C = v.mod("pypsrp.messages"), v.mod("pypsrp.serializer"), v.mod("pypsrp.complex_objects")
    zero, empty = C.GenericComplexObject(), C.GenericComplexObject()
    zero.adapted_properties["n"] = 0
    values = {"None": (None, "Nil", None), "0": (0, "I32", "0"), "False": (False, "B", "false"), "True": (True, "B", "true"), "0.0": (0.0, "Sg", "0.0"), "empty text": ("", "S", None), "text": ("a<b", "S", "a<b"), "number": (7, "I32", "7"), "bytes": (b"", "BA", None), "list": ([], "Obj", None), "list of None": ([None, 0], "Obj", None), "dict": ({}, "Obj", None), "object": (zero, "Obj", None), "empty object": (empty, "Obj", None)}
    k = v.choice("value", sorted(values))
    x, tag, text = values[k]
    data = M.Message(2, "AAAAAAAA-0000-0000-0000-000000000000", "BBBBBBBB-0000-0000-0000-000000000000", M.PipelineInput(data=x), S.Serializer()).pack()
    body = data[40:]
    v.check("an input message", data[4:8] == (0x00041002).to_bytes(4, "little"))
    v.check("its value is there", len(body) > 0)
    if len(body) == 0:
        return
    el = ET.fromstring(body)
    v.check("the kind of the value", el.tag == tag)
    if tag != "Obj":
        v.check("the value", (el.text or None) == text)
    elif k.startswith("list"):
        v.check("the items", [(i.tag, i.text) for i in el.find("LST")] == ([("Nil", None), ("I32", "0")] if x else []))
    elif k == "dict":
        v.check("no entries", len(el.find("DCT")) == 0)
    elif k == "object":
        v.check("the property", [(i.tag, i.attrib.get("N"), i.text) for i in el.find("Props")] == [("I32", "n", "0")])
