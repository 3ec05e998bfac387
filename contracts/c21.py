"""A WinRS process returns all its output, its exit code and its final state."""
from pyvc.harness import contract

from .lib import *

SH = "pypsrp.shell"
CS = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/"
STATES = {k: CS + k for k in ("Done", "Pending", "Running")}
CMD = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/cmd"
FN = ["shell.WinRS.receive", "shell.Process.poll_invoke", "shell.Process.end_invoke"]


def mk(v, opened=True):
    SHM, W = v.mod(SH), v.mod("pypsrp.wsman")
    srv = RawServer(v)
    sh = SHM.WinRS(srv)
    if opened:
        sh.open()
    return SHM, srv, sh


def answer(v, streams, state=None, rc=None):
    """the body of a receive answer"""
    b = body()
    r = ET.SubElement(b, "{%s}ReceiveResponse" % RSP)
    for i, (name, data) in enumerate(streams):
        s = ET.SubElement(r, "{%s}Stream" % RSP, Name=name, CommandId="c")
        if data is None or (state == "Done" and i == len(streams) - 1):
            s.attrib["End"] = "true"
        if data is not None:
            s.text = b64text(v, data)
    if state is not None:
        c = ET.SubElement(r, "{%s}CommandState" % RSP, State=STATES[state], CommandId="c")
        if rc is not None:
            ET.SubElement(c, "{%s}ExitCode" % RSP).text = v.mod("pyvc.values").int_str(rc) if v.symbolic else str(rc)
    return b


def some_answer(v, more, empties=True):
    streams = []
    for _ in range(v.choice("streams", [0, 1, 2] if v.symbolic else [0, 1, 2, 3, 5])):
        streams.append((v.choice("name", ["stdout", "stderr"]), v.bytes("data", 1, cmax=40) if not (empties and v.choice("empty", [False, True])) else None))
    state = v.choice("state", [None, "Running", "Pending"] if more else ["Done"])
    rc = v.int("rc", -(2**31), 2**32 - 1) if state is not None and (state == "Done" or not v.symbolic) and v.choice("has rc", [True, False]) else None
    return streams, state, rc


def output(streams, name):
    r = b""
    for n, d in streams:
        if n == name and d is not None:
            r = r + d
    return r


@contract("C21", funcs=FN, runs=400, bounded="up to 2 receive answers of up to 2 stream elements; contents and exit code arbitrary", max_paths=20000, time_limit=300)
def whole_process(v):
    """invoke: everything the answers contain, the last exit code and state;
    a server timeout in between is an empty answer"""
    SHM, srv, sh = mk(v)
    X = v.mod("pypsrp.exceptions")
    p = SHM.Process(sh, "exe", ["a"])
    srv.cmd_ids[None] = "the-command"
    n = v.choice("answers", [1, 2] if v.symbolic else [1, 2, 3, 5])
    out, err, rc, script = b"", b"", None, []
    for i in range(n):
        if v.choice("timeout before", [False, True] if i == n - 1 or not v.symbolic else [False]):
            srv.fault(OP_TIMEOUT)
        streams, state, rc = some_answer(v, i < n - 1, not v.symbolic)
        out, err = out + output(streams, "stdout"), err + output(streams, "stderr")
        srv.script.append(lambda b=answer(v, streams, state, rc): b)
    srv.on["receive"] = lambda e: next_answer(srv)
    expected = len(srv.script)
    v.check("ends when done", v.raises(ScriptEnd, p.invoke) is None)
    v.check("polls exactly until done", len(srv.polls) == expected and not srv.script)
    v.check_eq("standard output", p.stdout, out)
    v.check_eq("standard error", p.stderr, err)
    v.check_eq("exit code last reported", p.rc, rc)
    v.check_eq("state last reported", p.state, STATES["Done"])
    v.check("asked for this command's output", all(e.command_id == "the-command" and set(e.stream.split()) == {"stdout", "stderr"} for e in srv.polls))


def next_answer(srv):
    """answer of the next receive, given as a body"""
    if not srv.script:
        raise ScriptEnd()
    srv.polls.append(srv.log[-1])
    item = srv.script.pop(0)
    if isinstance(item, Exception):
        raise item
    return item()


@contract("C21", funcs=["shell.Process.poll_invoke"], runs=200)
def one_poll(v):
    """from any earlier output"""
    SHM, srv, sh = mk(v)
    X = v.mod("pypsrp.exceptions")
    p = SHM.Process(sh, "exe")
    p.id = "c"
    p.stdout, p.stderr = v.bytes("out0", cmax=20), v.bytes("err0", cmax=20)
    p.state = v.choice("state0", [STATES["Running"], STATES["Pending"]])
    p.rc = None
    o0, e0, s0 = p.stdout, p.stderr, p.state
    timeout = v.choice("timeout", [None, 1, 30])
    kind = v.choice("kind", ["answer", "fault", "error"])
    if kind == "answer":
        streams, state, rc = some_answer(v, v.choice("more", [True, False]))
        srv.on["receive"] = lambda e: answer(v, streams, state, rc)
        p.poll_invoke(timeout)
        v.check_eq("standard output", p.stdout, o0 + output(streams, "stdout"))
        v.check_eq("standard error", p.stderr, e0 + output(streams, "stderr"))
        v.check_eq("exit code", p.rc, rc)
        if state is not None:
            v.check_eq("state", p.state, STATES[state])
        else:
            v.check("not done without a state", p.state != STATES["Done"])
    elif kind == "fault":
        code = v.int("code", 0, 2**32 - 1)

        def f(e):
            raise X.WSManFaultError(code, "m", "r", None, None, None)

        srv.on["receive"] = f
        err = v.raises(X.WSManFaultError, p.poll_invoke, timeout)
        v.check("raised exactly when not an operation timeout", v.iff(err is not None, code != OP_TIMEOUT))
        v.check_eq("nothing changes", [p.stdout, p.stderr, p.state, p.rc], [o0, e0, s0, None])
    else:

        def f(e):
            raise KeyError("transport")

        srv.on["receive"] = f
        v.check("other errors are raised", v.raises(KeyError, p.poll_invoke, timeout) is not None)
    v.check_eq("timeout of this poll", srv.log[-1].timeout, timeout)
    v.check("one request", srv.kinds()[1:] == ["receive"])


class SBody:
    """a receive answer with any number of stream elements"""

    def __init__(self, v, streams, state):
        self.__dict__.update(v=v, streams=streams, state=state)

    def find(self, path, namespaces=None):
        tail = path.split(":")[-1]
        self.v.internal(tail in ("CommandState", "ExitCode"), "find " + path)
        return self.state if tail == "CommandState" else None

    def findall(self, path, namespaces=None):
        self.v.internal(path.split(":")[-1] == "Stream", "findall " + path)
        return self.streams

    def __getattr__(self, n):
        self.v.internal(False, "the answer is read by find and findall")


class Stream:
    def __init__(self, name, text):
        self.attrib, self.text = {"Name": name}, text


@contract("C21", funcs=["shell.WinRS.receive"], runs=1, conc=False)
def any_number_of_streams(v):
    """one step of the loop over the stream elements, from any earlier buffers"""
    if v.unrolled:
        return
    SHM, srv, sh = mk(v)
    V = v.mod("pyvc.values")
    import z3

    names = z3.Function("stream name", z3.IntSort(), z3.BoolSort())
    data = v.seq("data", "bytes")
    texts = data.map(lambda d: b64text(v, d))
    box = {}

    class St:
        attrib = None

    def el(i):
        d = data[V.mkint(V._z(i))]
        return Stream(box["name"], b64text(v, d) if box["has"] else None)

    box["name"] = v.choice("name", ["stdout", "stderr"])
    box["has"] = v.choice("has text", [True, False])
    srv.on["receive"] = lambda e: SBody(v, V.SList([V.Seg(data.segs[0].count, el)]), None)

    def havoc(v, j, L0, seq):
        box["b"] = {"stdout": v.bytes("out"), "stderr": v.bytes("err")}
        return {"buffer": dict(box["b"])}

    def step(v, j, x, L, L1):
        want = dict(box["b"])
        if box["has"]:
            want[box["name"]] = want[box["name"]] + data[j]
        v.check("no other stream appears", set(L1["buffer"]) == {"stdout", "stderr"})
        for k in want:
            v.check_eq("the data is appended to its own stream", L1["buffer"][k], want[k])

    # the streams start out empty
    def inv(v, j, L, L0, seq):
        return []

    v.loop(SH + ".WinRS.receive", 2, whole=True, havoc=havoc, inv=inv, step=step, heap=lambda L0: [...])
    sh.receive("stdout stderr", "c")


@contract("C21", funcs=["shell.Process.end_invoke"], runs=1, conc=False)
def wait_until_done(v):
    """for any number of polls: one poll per turn, and the end exactly when the
    server reported the done state"""
    if v.unrolled:
        return
    SHM, srv, sh = mk(v)
    p = SHM.Process(sh, "exe")
    p.id = "c"
    p.state = v.choice("state0", list(STATES.values()))

    def poll(self, timeout=None):
        box["polls"] += 1
        self.state = v.choice("state", list(STATES.values()))

    box = {"polls": 0}
    v.contract(SH + ".Process.poll_invoke", poll)

    def havoc(v, L0):
        p.state = v.choice("state now", list(STATES.values()))
        box["polls"] = 0
        return {}

    def step(v, L, L1):
        v.check("one poll per turn", box["polls"] == 1)

    v.loop(SH + ".Process.end_invoke", ("while", 1), havoc=havoc, inv=lambda v, L, L0: [], step=step, heap=lambda L0: [...])
    p.end_invoke()
    v.check("ends only when done", p.state == STATES["Done"])


@contract("C21", funcs=["shell.WinRS.open", "shell.WinRS.close", "shell.WinRS._parse_shell_create"], runs=200)
def open_close(v):
    SHM, srv, sh0 = mk(v, opened=False)
    given = v.choice("id", [None, "MY-ID"])
    if v.symbolic:
        b, wd, idle, life, name = v.choice("settings", [(2, None, None, None, None), (False, "C:\\x", 60, 100, "nm"), ("", "", 0, 0, ""), (0, "", None, 100, None), (0, None, 60, None, "nm")])
    else:
        b, wd, idle, life, name = [v.choice(*x) for x in (("b", [2, 0, False, ""]), ("wd", [None, "C:\\x", ""]), ("idle", [None, 60, 0]), ("life", [None, 100, 0]), ("name", [None, "nm", ""]))]
    sh = SHM.WinRS(srv, id=given, environment={"A": v.str("a"), "B": b}, codepage=v.choice("codepage", [None, 0, 437, 65001]), working_directory=wd, no_profile=v.choice("no_profile", [None, True, False]), idle_time_out=idle, lifetime=life, name=name)
    cp, wd, npf, idle, life, name, env = sh.codepage, sh.working_directory, sh.no_profile, sh.idle_time_out, sh.lifetime, sh.name, dict(sh.environment)
    v.check("closing a shell that is not open does nothing", (sh.close(), len(srv.log))[1] == 0)
    chosen = v.choice("server's id", [None, "abcdef00-1111-2222-3333-aBcDeF000000", " x/\u00e9&"])
    create = srv._r_create

    def on_create(e):
        v.check("own id requested", e.resource.attrib.get("ShellId") == given)
        if chosen is not None:
            e.resource.attrib["ShellId"] = chosen
        return create(e)

    def refused(e):
        raise KeyError("refused")

    if v.choice("refused at first", [False, True]):
        srv.on["create"] = refused
        v.check("an error of the server is not lost", v.raises(KeyError, sh.open) is not None)
        v.check("the shell is not open then", not sh.opened)
        sh.close()
        v.check("so closing it does nothing", srv.kinds() == ["create"])
        del srv.log[:]
    srv.on["create"] = on_create
    sh.open()
    v.check("one create", srv.kinds() == ["create"])
    c = srv.log[0]
    g = lambda n: c.resource.findtext("{%s}%s" % (RSP, n))
    v.check("streams", g("InputStreams") == "stdin" and g("OutputStreams") == "stdout stderr")
    v.check("working directory", g("WorkingDirectory") == wd)
    v.check("name", g("Name") == name)
    v.check("timeouts", g("IdleTimeOut") == (None if idle is None else "PT%dS" % idle) and g("Lifetime") == (None if life is None else "PT%dS" % life))
    ev = c.resource.find("{%s}Environment" % RSP)
    v.check_eq("environment", [(x.attrib["Name"], x.text) for x in ev], [("A", env["A"]), ("B", str(env["B"]))])
    opts = [(o[0], o[1]) for o in (c.options.values if c.options is not None else [])]
    v.check_eq("options", opts, ([("WINRS_NOPROFILE", "TRUE")] if npf else []) + ([] if cp is None else [("WINRS_CODEPAGE", str(cp))]))
    sid = srv.shell_id
    v.check("the shell has the id the server gave", sh.opened and sh.id == sid and sid == (chosen or given or sid))
    v.check("opening again does nothing", sh.open() is None and srv.kinds() == ["create"])
    given = sid
    if v.choice("its close fails at first", [False, True]):
        srv.on["delete"] = refused
        v.check("an error of the server is not lost", v.raises(KeyError, sh.close) is not None)
        v.check("the shell is still open and still has its id", sh.opened and sh.id == sid)
        srv.on.pop("delete")
        del srv.log[-1:]
    sh.close()
    v.check("one delete for the shell's id", srv.kinds() == ["create", "delete"] and srv.log[-1].selector("ShellId") == sid)
    v.check("closed", not sh.opened)
    sh.close()
    v.check("closing again does nothing", srv.kinds() == ["create", "delete"])
    given = None
    if chosen is not None:
        chosen = v.choice("its id then", [chosen, "22222222-1111-2222-3333-444444444444"])
    sh.open()
    v.check("it can be opened again", srv.kinds() == ["create", "delete", "create"] and sh.opened)
    v.check("with the id the server gave it now", sh.id == srv.shell_id)
    sh.close()
    v.check("one delete for the new shell", srv.kinds()[3:] == ["delete"] and [(k, x) for k, x, _ in srv.log[-1].selectors.values] == [("ShellId", srv.shell_id)])


@contract("C21", funcs=["shell.WinRS.command", "shell.WinRS.send", "shell.WinRS.signal", "shell.Process.*"], runs=300)
def requests(v):
    """a process's requests carry the executable, arguments, input and ids given"""
    SHM, srv, sh = mk(v)
    sid = srv.shell_id
    exe = v.str("exe")
    n = v.choice("arguments", [None, 0, 1, 2, 3])
    args = None if n is None else [v.str("arg") for _ in range(n)]
    ns = v.choice("no_shell", [False, True])
    p = SHM.Process(sh, exe, list(args) if args is not None else None, no_shell=ns, id=v.choice("id given, or of an earlier run", [None, "cmd-0"]))
    srv.cmd_ids[None] = "cmd-1"
    p.begin_invoke()
    e = srv.log[-1]
    v.check("one command", srv.kinds() == ["create", "command"])
    v.check_eq("executable", [x.text for x in e.resource.findall("{%s}Command" % RSP)], [exe])
    v.check_eq("arguments", [x.text for x in e.resource.findall("{%s}Arguments" % RSP)], args or [])
    v.check("shell option", [(o[0], o[1]) for o in e.options.values] == [("WINRS_SKIP_CMD_SHELL", str(ns))])
    v.check("id the server returned", p.id == "cmd-1")
    data = v.bytes("input", cmax=50)
    end = v.choice("end", [None, True, False])
    if end is None:
        p.send(data)
    else:
        p.send(data, end)
    e = srv.log[-1]
    v.check_eq("input as given", e.payload, data)
    v.check("stream, command, end", e.kind == "send" and e.stream == "stdin" and e.command_id == "cmd-1" and e.resource.find("{%s}Stream" % RSP).attrib.get("End") == str(end is not False))
    code = v.choice("signal", ["CTRL_C", "CTRL_BREAK", "TERMINATE", "PS_CTRL_C"])
    p.signal(getattr(SHM.SignalCode, code))
    e = srv.log[-1]
    v.check("signal", e.kind == "signal" and e.command_id == "cmd-1" and e.stream == {"CTRL_C": RSP + "/signal/ctrl_c", "CTRL_BREAK": RSP + "/signal/ctrl_break", "TERMINATE": RSP + "/signal/Terminate", "PS_CTRL_C": "powershell/signal/ctrl_c"}[code])
    v.check("all to this shell", all(x.selector("ShellId") == sid for x in srv.log[1:]))
    v.check("all to its resource", all(x.uri == CMD for x in srv.log))


def grows(v, qual, n, parent, element):
    """contract of a loop that appends one element per turn: element(j, x) is
    compared with what was added to the element parent(locals) finds"""
    g = {}

    def havoc(v, j, L0, seq):
        l = [x for x in L0.values() if type(x).__name__ == "Element" and x.tag == parent]
        v.internal(len(l) == 1, "the element under construction")
        g["at"], g["before"], g["seq"] = l[0], list(l[0]), seq
        return {}

    def step(v, j, x, L, L1):
        now = list(g["at"])
        v.check("one element is added, at the end", len(now) == len(g["before"]) + 1 and all(a is b for a, b in zip(now, g["before"])))
        element(j, now[-1])

    v.loop(qual, n, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
    return g


@contract("C21", funcs=["shell.WinRS.command"], runs=1, conc=False)
def any_number_of_arguments(v):
    """every argument is sent, in order"""
    if v.unrolled:
        return
    V = v.mod("pyvc.values")
    SHM, srv, sh = mk(v)
    n = v.int("arguments", 0)
    F = v.z3fun("argument", "str")
    args = V.SList([V.Seg(V._z(V.zi(n)), F)])

    def element(j, e):
        v.check("an argument", e.tag == "{%s}Arguments" % RSP and not e.attrib and not len(e))
        v.check_eq("argument j", e.text, F(j))

    g = grows(v, SH + ".WinRS.command", 1, "{%s}CommandLine" % RSP, element)
    exe = v.str("exe")
    sent = []

    def command(e):
        sent.append(e)
        v.check("the element under construction is sent", e.resource is g["at"])
        v.check("nothing else is in it", [x.tag for x in e.resource] == ["{%s}Command" % RSP])
        v.check_eq("the executable", e.resource[0].text, exe)
        return body()

    srv.on["command"] = command
    sh.command(exe, args, command_id="c")
    v.check_eq("a turn per argument", v.len(g["seq"]), n)
    v.check("sent once", len(sent) == 1 and sent[0].resource.attrib == {"CommandId": "c"})


@contract("C21", funcs=["shell.WinRS.open"], runs=1, conc=False)
def any_environment(v):
    """every variable is sent"""
    if v.unrolled:
        return
    V = v.mod("pyvc.values")
    SHM, srv, sh0 = mk(v, opened=False)
    n = v.int("variables", 0)
    K, X = v.z3fun("variable", "str"), v.z3fun("value", "str")

    class Env:
        def items(self):
            return V.SList([V.Seg(V._z(V.zi(n)), lambda i: (K(i), X(i)))])

    def element(j, e):
        v.check("a variable", e.tag == "{%s}Variable" % RSP and set(e.attrib) == {"Name"} and not len(e))
        v.check_eq("its name", e.attrib["Name"], K(j))
        v.check_eq("its value", e.text, X(j))

    g = grows(v, SH + ".WinRS.open", 1, "{%s}Environment" % RSP, element)
    create, sent = srv._r_create, []

    def on_create(e):
        sent.append(e.resource)
        envs = e.resource.findall("{%s}Environment" % RSP)
        v.check("the element under construction is sent", len(envs) == 1 and envs[0] is g["at"] and not len(envs[0]))
        return create(e)

    srv.on["create"] = on_create
    sh = SHM.WinRS(srv, environment=Env())
    sh.open()
    v.check_eq("a turn per variable", v.len(g["seq"]), n)
    v.check("sent once", len(sent) == 1)


@contract("C21", funcs=["shell.WinRS.__enter__", "shell.WinRS.__exit__", "shell.WinRS.open", "shell.WinRS.close"], runs=40)
def with_block(v):
    """a with block opens the shell and closes it however the block ends"""
    SHM, srv, sh = mk(v, opened=v.choice("open already", [False, True]))
    raises = v.choice("raises", [False, True])
    error = block_error(v) if raises else None
    seen = []

    def block():
        with sh as s:
            seen.append((s is sh, s.opened, srv.kinds()))
            if raises:
                raise error

    e = v.raises(BaseException, block)
    v.check("the block runs once, with this shell open", seen == [(True, True, ["create"])])
    v.check("an error of the block is not lost", (e is error) if raises else e is None)
    v.check("created and closed once", srv.kinds() == ["create", "delete"] and not sh.opened)
    v.check("its own shell is closed", srv.log[-1].selector("ShellId") == srv.shell_id)
