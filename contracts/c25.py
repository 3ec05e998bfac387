"""Disconnected pools and pipelines are rebuilt faithfully."""
from pyvc.harness import contract

from .lib import *

GET = ["powershell.RunspacePool.get_runspace_pools"]
ALL = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell"
UU = "0000000%d-aabb-CCDD-3333-44444444444%d"


def listing(v, tag, ids, idtag):
    """the answer to an enumeration: one element per id, with the other fields
    a server adds"""
    b = body()
    r = ET.SubElement(b, "{%s}EnumerateResponse" % WSEN)
    it = ET.SubElement(r, "{%s}Items" % WSM)
    for i in ids:
        s = ET.SubElement(it, "{%s}%s" % (RSP, tag))
        ET.SubElement(s, "{%s}Name" % RSP).text = "Runspace1"
        ET.SubElement(s, "{%s}%s" % (RSP, idtag)).text = i
        ET.SubElement(s, "{%s}State" % RSP).text = "Connected" if i.startswith("00000001") else "Disconnected"
        if tag == "Command":
            ET.SubElement(s, "{%s}ShellId" % RSP).text = "not the id"
        else:
            ET.SubElement(s, "{%s}ClientIP" % RSP).text = "127.0.0.1"
    ET.SubElement(r, "{%s}EndOfSequence" % WSM)
    ET.SubElement(r, "{%s}EnumerationContext" % WSEN)
    return b


def asked(e):
    """the shell whose commands an enumeration asks for"""
    f = e.resource.find("{%s}Filter" % WSM)
    if f is None:
        return None
    s = f.findall(".//{%s}Selector" % WSM)
    return (f.attrib.get("Dialect"), [(x.attrib.get("Name"), x.text) for x in s])


DIALECT = "http://schemas.dmtf.org/wbem/wsman/1/wsman/SelectorFilter"


def fill(v, srv, shells):
    def f(e):
        if e.uri == ALL:
            return listing(v, "Shell", list(shells), "ShellId")
        d, s = asked(e)
        v.check("asks for the commands of one shell, by its id", e.uri == ALL + "/Command" and d == DIALECT and len(s) == 1 and s[0][0] == "ShellId" and s[0][1] in shells)
        return listing(v, "Command", shells[s[0][1]], "CommandId")

    srv.on["enumerate"] = f


@contract("C25", funcs=GET + ["powershell.RunspacePool.create_disconnected_power_shells"], runs=150, bounded="up to 2 shells of up to 2 commands")
def enumerated(v):
    """one pool per shell, one pipeline per command, all disconnected"""
    P = v.mod(PS)
    srv = Server(v)
    big = [0, 1, 2] if v.symbolic else [0, 1, 2, 3, 5]
    shells = {}
    for i in range(v.choice("shells", big)):
        shells[UU % (i, 1)] = [UU % (k, 5 + i) for k in range(v.choice("commands", big))]
    fill(v, srv, shells)
    pools = P.RunspacePool.get_runspace_pools(srv)
    v.check_eq("one pool per shell, in order", [p.id for p in pools], list(shells))
    v.check("only questions are sent", set(srv.kinds()) <= {"enumerate"})
    for p in pools:
        want = shells[p.id]
        v.check_eq("its shell has that id", p.shell.id, p.id)
        v.check("on this connection", p.connection is srv)
        v.check_eq("disconnected", p.state, DISCONNECTED)
        v.check_eq("one pipeline per command, under its id", list(p.pipelines), want)
        for k, ps in p.pipelines.items():
            v.check("disconnected pipeline with the command's id, of that pool", ps.id == k and ps.state == P_DISCONNECTED and ps.runspace_pool is p)
        v.check("its disconnected pipelines are all of them", [x.id for x in p.create_disconnected_power_shells()] == want)
        x = v.choice("finished", [None] + want) if want else None
        if x is not None:
            p.pipelines[x].state = v.int("new state", 0, 5)
        v.check_eq("exactly those in the disconnected state", [y.id for y in p.create_disconnected_power_shells()], [w for w in want if w != x])


@contract("C25", funcs=["powershell.RunspacePool.create_disconnected_power_shells"], runs=60)
def only_disconnected(v):
    """any pipeline states at all"""
    P = v.mod(PS)
    srv = Server(v)
    pool = new_pool(v, srv, v.int("pool state", 0, 12), opened=True)
    pipes = []
    for i in range(v.choice("n", [0, 1, 3])):
        ps = new_pipe(v, pool)
        ps.state = v.int("state", 0, 9)
        pool.pipelines[ps.id] = ps
        pipes.append(ps)
    got = pool.create_disconnected_power_shells()
    for ps in pipes:
        v.check("listed exactly when disconnected", v.iff(len([g for g in got if g is ps]) == 1, ps.state == P_DISCONNECTED))
    v.check("nothing else listed", all(any(g is p for p in pipes) for g in got))
    v.check("nothing is sent", not srv.log)


class Items:
    """an enumeration answer of any length"""

    def __init__(self, v, tag, seq):
        self.__dict__.update(v=v, tag=tag, seq=seq)

    def findall(self, path, namespaces=None):
        self.v.internal(path.split(":")[-1] == self.tag, "findall " + path)
        return self.seq

    def __getattr__(self, n):
        self.v.internal(False, "enumeration answers are read by findall")


class Item:
    def __init__(self, v, tag, id):
        self.__dict__.update(v=v, tag=tag, id=id)

    def find(self, path, namespaces=None):
        self.v.internal(path.split(":")[-1] == self.tag, "find " + path)
        e = ET.Element("x")
        e.text = self.id
        return e

    def __getattr__(self, n):
        self.v.internal(False, "items are read by find")


@contract("C25", funcs=GET, runs=1, conc=False)
def any_number(v):
    """any number of shells and commands: every turn of the two loops adds
    exactly its own pool and its own pipeline"""
    if v.unrolled:
        return
    P = v.mod(PS)
    V = v.mod("pyvc.values")
    srv = Server(v)
    n, m = v.int("shells", 0), v.int("commands", 0)
    sid, cid = v.choice("shell id", [UU % (1, 1), UU % (2, 2)]), UU % (3, 3)
    shells = V.SList([V.Seg(V._z(V.zi(n)), lambda i: Item(v, "ShellId", sid))])
    commands = V.SList([V.Seg(V._z(V.zi(m)), lambda i: Item(v, "CommandId", cid))])
    asks = []

    def f(e):
        asks.append(e)
        return Items(v, "Shell", shells) if e.uri == ALL else Items(v, "Command", commands)

    srv.on["enumerate"] = f
    box = {}

    def havoc1(v, j, L0, seq):
        box["pools"] = Adds(v)
        box["asks"] = len(asks)
        return {"runspace_pools": box["pools"]}

    def step1(v, j, x, L, L1):
        v.check("one pool is added per shell", len(box["pools"].puts) == 1)
        p = box["pools"].puts[0]
        v.check("with that shell's id, disconnected", p.id == sid and p.shell.id == sid and p.state == DISCONNECTED)
        v.check("its own pipelines", p.pipelines is box["pipes"])
        new = asks[box["asks"] :]
        v.check("asked once, for the commands of this shell", len(new) == 1 and asked(new[0]) == (DIALECT, [("ShellId", sid)]))

    def havoc2(v, j, L0, seq):
        box["pipes"] = Puts(v)
        return {"pipelines": box["pipes"]}

    def step2(v, j, x, L, L1):
        v.check("one pipeline is added per command, under its id", len(box["pipes"].puts) == 1 and box["pipes"].puts[0][0] == cid)
        ps = box["pipes"].puts[0][1]
        v.check("disconnected, with the command's id", ps.id == cid and ps.state == P_DISCONNECTED)

    Q = "pypsrp.powershell.RunspacePool.get_runspace_pools"
    v.loop(Q, 1, whole=True, havoc=havoc1, inv=lambda v, j, L, L0, seq: [], step=step1, heap=lambda L0: [...])
    v.loop(Q, 2, whole=True, havoc=havoc2, inv=lambda v, j, L, L0, seq: [("starts empty", isinstance(L["pipelines"], Puts) or not L["pipelines"])], step=step2, heap=lambda L0: [...])
    r = P.RunspacePool.get_runspace_pools(srv)
    v.check("the list of all pools is returned", r is box.get("pools"))


@contract("C25", funcs=["powershell.RunspacePool.connect", "powershell.RunspacePool._connect_new_client", "powershell.RunspacePool._connect_existing_client", "powershell.RunspacePool.disconnect", "shell.WinRS.close"], runs=200)
def connect_new_client(v):
    """an enumerated pool is connected by the negotiation and connect messages
    to its own shell, which every later request uses"""
    P, M = v.mod(PS), v.mod("pypsrp.messages")
    srv = Server(v)
    sid, other = UU % (1, 1), UU % (2, 2)
    fill(v, srv, {other: [], sid: [UU % (3, 3)]})
    pool = P.RunspacePool.get_runspace_pools(srv)[1]
    pipe = pool.create_disconnected_power_shells()[0]
    del srv.log[:]
    lo, hi = v.int("min", 1, 1000), v.int("max", 1, 1000)
    srv.connect_says = (M.SessionCapability("2.%d" % v.choice("protocol", [1, 2, 3]), "2.0", "1.1.0.1"), M.RunspacePoolInitData(min_runspaces=lo, max_runspaces=hi))
    srv.say(M.ApplicationPrivateData(data={}), pool_state(v, OPENED))
    lost = v.choice("first attempts fail", [0, 1, 2])
    X = v.mod("pypsrp.exceptions")
    for _ in range(lost):

        def fails(e):
            raise X.WinRMTransportError("http", 503, "busy")

        srv.on["connect"] = fails
        v.check("a failed connect is reported", v.raises(X.WinRMTransportError, pool.connect) is not None)
        v.check_eq("it was a connect to that shell", [(e.kind, e.selector("ShellId")) for e in srv.log], [("connect", sid)])
        v.check_eq("still disconnected", pool.state, DISCONNECTED)
        del srv.on["connect"], srv.log[:], srv.messages[:]
    pool.connect()
    v.check_eq("one connect, then one poll", srv.kinds(), ["connect", "receive"])
    e = srv.log[0]
    v.check_eq("to that shell", [(k, x) for k, x, _ in e.selectors.values], [("ShellId", sid)])
    v.check("of that kind of shell", e.uri == pool.shell.resource_uri and e.command_id is None)
    v.check("requires the protocol", [(o[0], o[1]) for o in e.options.values] == [("protocolversion", "2.3")])
    v.check_eq("negotiation, then connect", [m.name for m in srv.messages], ["SessionCapability", "ConnectRunspacePool"])
    v.check("complete, in order", not srv.frag_errors and not srv.partial)
    v.check("under the pool's id", all(str(m.msg.rpid).upper() == sid.upper() for m in srv.messages))
    v.check_eq("opened", pool.state, OPENED)
    v.check_eq("limits taken from the server", [pool.min_runspaces, pool.max_runspaces], [lo, hi])

    after = v.choice("then", ["poll", "close", "disconnect", "pipeline"])
    n = len(srv.log)
    if after == "poll":
        pool_poll(v, srv, pool)
    elif after == "close":
        pool.close()
        v.check_eq("one close", srv.kinds()[n:], ["delete"])
    elif after == "pipeline":
        pipe.connect_async()
        srv.say(pipe_state(v, COMPLETED))
        pipe.end_invoke()
        v.check_eq("under its command id", [x.command_id for x in srv.log[n:]], [UU % (3, 3)] * 2)
    else:
        pool.disconnect()
        v.check_eq("its pipelines too", [x.id for x in pool.create_disconnected_power_shells()], [pipe.id])
        pool.connect()
        v.check_eq("a pool disconnected by this client is reconnected", srv.kinds()[n:], ["disconnect", "reconnect"])
        v.check_eq("opened again", pool.state, OPENED)
        v.check("nothing negotiated again", len(srv.messages) == 2)
    v.check("the other shell is never addressed", all(x.selector("ShellId") == sid for x in srv.log))


@contract("C25", funcs=["powershell.RunspacePool.get_runspace_pools", "powershell.RunspacePool.close", "powershell.RunspacePool.is_alive"], runs=30)
def used_before_connecting(v):
    """closing or querying an enumerated pool addresses its own shell"""
    P = v.mod(PS)
    srv = Server(v)
    ids = [UU % (1, 1), UU % (2, 2)]
    fill(v, srv, {i: [] for i in ids})
    pools = P.RunspacePool.get_runspace_pools(srv)
    del srv.log[:]
    i = v.choice("which", [0, 1])
    what = v.choice("what", ["close", "is_alive"])
    getattr(pools[i], what)()
    v.check_eq("one request", srv.kinds(), [{"close": "delete", "is_alive": "get"}[what]])
    v.check_eq("for its own shell", srv.log[0].selector("ShellId"), ids[i])
    v.check_eq("the other pool is left alone", pools[1 - i].state, DISCONNECTED)


@contract("C25", funcs=["powershell.RunspacePool.disconnect", "powershell.RunspacePool.connect", "powershell.RunspacePool._connect_existing_client"], runs=40)
def reconnect_own(v):
    """a pool opened and disconnected by this client"""
    srv = Server(v)
    pool = new_pool(v, srv, BEFORE_OPEN)
    srv.say(pool_state(v, OPENED))
    given = UU % (9, 9)
    create = srv._r_create

    def on_create(e):
        if v.choice("the server picks another id", [False, True]):
            e.resource.attrib["ShellId"] = given
        return create(e)

    srv.on["create"] = on_create
    pool.open()
    sid = srv.shell_id
    n = len(srv.log)
    for _ in range(v.choice("rounds", [1, 2])):
        pool.disconnect()
        pool.connect()
    rest = srv.log[n:]
    v.check_eq("disconnect and reconnect in turn", [e.kind for e in rest], ["disconnect", "reconnect"] * (len(rest) // 2))
    v.check("always its own shell", all(e.selector("ShellId") == sid and e.uri == pool.shell.resource_uri for e in rest))
    v.check_eq("opened", pool.state, OPENED)
