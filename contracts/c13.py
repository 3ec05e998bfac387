"""The built pipeline contains exactly the commands, arguments and statements added."""
from pyvc.harness import contract

from .lib import *

FN = ["powershell.PowerShell.add_*", "powershell.PowerShell.begin_invoke", "complex_objects.Pipeline.*", "complex_objects.Command.__init__", "complex_objects.CommandParameter.__init__", "serializer.Serializer._serialize_obj", "serializer.Serializer._serialize_lst", "serializer.Serializer._deserialize_obj", "serializer.Serializer._deserialize_lst"]
MERGES = ["error", "warning", "verbose", "debug", "information"]


class Want:
    """a command as the user added it"""

    def __init__(self, cmd, is_script, local, args=None):
        self.cmd, self.is_script, self.local = cmd, is_script, local
        self.args = args or []
        self.end = False


def wire_value(v, el):
    if el is None:
        return "absent"
    if el.tag == "Nil":
        return None
    if el.tag == "B":
        return el.text == "true"
    if el.tag == "I32":
        t = el.text
        return t.tag[1] if not isinstance(t, str) else int(t)
    return unescape(v, el.text) if el.text is not None else ""


def wire_enum(v, el):
    return None if el is None else wire_value(v, el.find("I32"))


def wire_commands(v, lst):
    """[(cmd, is script, use local scope, [(name, value)])] of a list element"""
    out = []
    for c in items(lst):
        args = [(wire_value(v, prop(a, "N")), wire_value(v, prop(a, "V"))) for a in items(prop(c, "Args"))]
        out.append((wire_value(v, prop(c, "Cmd")), wire_value(v, prop(c, "IsScript")), wire_value(v, prop(c, "UseLocalScope")), args))
    return out


def same_text(v, name, a, b):
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        v.check(name, a is b)
    else:
        v.check_eq(name, a, b)


def check_commands(v, where, got, want):
    v.check(where + ": number of commands", len(got) == len(want))
    for (cmd, scr, loc, args), w in zip(got, want):
        v.check_eq(where + ": command text", cmd, w.cmd)
        v.check(where + ": script or command", scr is w.is_script)
        v.check(where + ": local scope", loc is w.local)
        v.check(where + ": number of arguments", len(args) == len(w.args))
        for (n, val), (wn, wv) in zip(args, w.args):
            same_text(v, where + ": parameter name", n, wn)
            same_text(v, where + ": argument value", val, wv)


def statements(want):
    out = [[]]
    for w in want:
        out[-1].append(w)
        if w.end:
            out.append([])
    return [s for s in out if s]


FORMS = [("cmdlet", None, []), ("cmdlet", True, ["argument", "parameter"]), ("script", False, ["parameters", "switch"]), ("object", None, ["switch", "argument", "argument"]), ("script", None, ["argument"]), ("cmdlet", False, ["parameter", "parameter"])]


def add_one(v, ps, version):
    C = v.mod("pypsrp.complex_objects")
    if v.symbolic:
        kind, local, hows = v.choice("form", FORMS[:4])
    else:
        kind, local = v.choice("kind", ["cmdlet", "script", "object"]), v.choice("local", [None, True, False])
        hows = [v.choice("how", ["argument", "parameter", "switch", "parameters"]) for _ in range(v.choice("args", [0, 1, 2, 3]))]
    text = v.str("text")
    if kind == "cmdlet":
        r = ps.add_cmdlet(text, local) if local is not None else ps.add_cmdlet(text)
    elif kind == "script":
        r = ps.add_script(text, use_local_scope=local)
    else:
        r = ps.add_command(C.Command(text, version, is_script=False, use_local_scope=local))
    v.check("the pipeline is returned", r is ps)
    w = Want(text, kind == "script", local)
    for how in hows:
        val = v.str("value")
        if how == "argument":
            r = ps.add_argument(val)
            w.args.append((None, val))
        elif how == "parameter":
            n = v.str("name")
            r = ps.add_parameter(n, val)
            w.args.append((n, val))
        elif how == "switch":
            n = v.str("name")
            r = ps.add_parameter(n)
            w.args.append((n, None))
        else:
            r = ps.add_parameters({"p1": val, "p0": None})
            w.args += [("p1", val), ("p0", None)]
        v.check("the pipeline is returned", r is ps)
    return w


def sent_pipeline(v, srv, ps):
    n = len(srv.messages)
    ps.begin_invoke()
    m = [m for m in srv.messages[n:] if m.name == "CreatePipeline"]
    v.check("one pipeline is sent", len(m) == 1)
    return m[0].data


def check_wire(v, el, want):
    pl = el
    sts = statements(want)
    check_commands(v, "main commands", wire_commands(v, prop(pl, "Cmds")), sts[0])
    ex = prop(pl, "ExtraCmds")
    if len(sts) < 2:
        v.check("no extra commands for one statement", ex is None or ex.tag == "Nil")
        return
    e = items(ex)
    v.check("all statements in the extra commands", len(e) == len(sts))
    for x, st in zip(e, sts):
        check_commands(v, "extra commands", wire_commands(v, prop(x, "Cmds")), st)


def check_decoded(v, p, want):
    v.check("decoded: number of commands", len(p.commands) == len(want))
    for i, (c, w) in enumerate(zip(p.commands, want)):
        v.check_eq("decoded: command", c.cmd, w.cmd)
        v.check("decoded: flags", c.is_script is w.is_script and c.use_local_scope is w.local)
        v.check("decoded: number of arguments", len(c.args) == len(w.args))
        for a, (wn, wv) in zip(c.args, w.args):
            same_text(v, "decoded: parameter name", a.name, wn)
            same_text(v, "decoded: argument", a.value, wv)
        if i < len(want) - 1:
            v.check("decoded: statement end", bool(c.end_of_statement) == w.end)


def setup(v, version="2.3"):
    P = v.mod(PS)
    srv = Server(v)
    pool = new_pool(v, srv, OPENED)
    pool.protocol_version = version
    return srv, pool, new_pipe(v, pool)


def build(v, ps, version, n):
    want = []
    for i in range(n):
        w = add_one(v, ps, version)
        want.append(w)
        ends = v.choice("end of statement", [0, 1] if v.symbolic else [0, 1, 1, 2])
        for _ in range(ends):
            v.check("the pipeline is returned", ps.add_statement() is ps)
            w.end = True
    return want


@contract("C13", funcs=FN, runs=250, bounded="up to 3 commands of up to 3 arguments; texts, names and values arbitrary", max_paths=20000, time_limit=400)
def sent_and_decoded(v):
    plain_text(v)
    version = v.choice("protocol", ["2.3", "2.1"])
    srv, pool, ps = setup(v, version)
    n = v.choice("commands", ([1, 2, 3] if version == "2.3" else [1, 2]) if v.symbolic else [1, 2, 3, 4, 5])
    want = build(v, ps, version, n)
    pl = sent_pipeline(v, srv, ps).pipeline
    SER, C = v.mod("pypsrp.serializer"), v.mod("pypsrp.complex_objects")
    el = SER.Serializer().serialize(pl)
    check_wire(v, el, want)
    check_decoded(v, SER.Serializer().deserialize(el, C.ObjectMeta("Obj", object=C.Pipeline)), want)


@contract("C13", funcs=FN, runs=120, bounded="two invocations, up to 2 commands each", max_paths=8000)
def added_after_an_invocation(v):
    """a statement ends only where the user ended it, also when the pipeline
    is invoked in between; the second pipeline contains the commands of both"""
    plain_text(v)
    srv, pool, ps = setup(v)
    want = []
    SER = v.mod("pypsrp.serializer")
    for k in range(2):
        w = Want(v.str("text"), False, None)
        ps.add_cmdlet(w.cmd)
        want.append(w)
        if v.choice("argument", [False, True]):
            val = v.str("value")
            ps.add_argument(val)
            w.args.append((None, val))
        for _ in range(v.choice("end of statement", [0, 1, 2])):
            ps.add_statement()
            w.end = True
        el = SER.Serializer().serialize(sent_pipeline(v, srv, ps).pipeline)
        check_wire(v, el, want)
        ps.state = v.choice("state", [COMPLETED, FAILED, STOPPED])
    if v.choice("clear", [False, True]):
        v.check("clearing returns the pipeline", ps.clear_commands() is ps)
        v.check("cleared", len(ps.commands) == 0)
        w = Want(v.str("text"), False, None)
        ps.add_cmdlet(w.cmd)
        check_wire(v, SER.Serializer().serialize(sent_pipeline(v, srv, ps).pipeline), [w])


class Unlike:
    """a value that is false, and equal to nothing"""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return False

    __hash__ = object.__hash__


def any_value(v):
    k = v.choice("value", ["text", "bool", "int", "object", "unlike", "false", "zero", "empty", "list", "dict", "None"])
    return v.str("text") if k == "text" else v.bool("bool") if k == "bool" else v.int("int", -5, 5) if k == "int" else v.opaque("object") if k == "object" else {"unlike": Unlike(), "false": False, "zero": 0, "empty": "", "list": [], "dict": {}, "None": None}[k]


@contract("C13", funcs=["powershell.PowerShell.add_argument", "powershell.PowerShell.add_parameter", "powershell.PowerShell.add_parameters", "powershell.PowerShell.begin_invoke", "complex_objects.CommandParameter.__init__"], runs=300, max_paths=8000)
def any_values(v):
    """arguments and parameters of any value, also of false ones, are those
    of the command sent, none left out"""
    srv, pool, ps = setup(v)
    ps.add_cmdlet("first")
    ps.add_argument("other")
    ps.add_cmdlet("second")
    want = []
    how = v.choice("how", ["argument", "parameter", "parameters", "mixed"])
    x, y = any_value(v), any_value(v)
    if how == "argument":
        ps.add_argument(x).add_argument(y)
        want = [(None, x), (None, y)]
    elif how == "parameter":
        ps.add_parameter("n", x).add_parameter("n", y)
        want = [("n", x), ("n", y)]
    elif how == "parameters":
        ps.add_parameters({"b": x, "a": y})
        want = [("b", x), ("a", y)]
    else:
        ps.add_parameters({"b": x}).add_argument(y).add_parameters({}).add_parameters({"b": y})
        want = [("b", x), (None, y), ("b", y)]
    cmds = sent_pipeline(v, srv, ps).pipeline.commands
    v.check("both commands", [len(c.args) for c in cmds] == [1, len(want)])
    for a, (n, val) in zip(cmds[1].args, want):
        v.check("parameter name", a.name == n)
        v.check("its value", a.value is val or (not isinstance(val, Unlike) and v.truth(a.value == val) and type(a.value) is type(val)))


def supported(version):
    n = tuple(int(x) for x in version.split("."))
    return MERGES if n >= (2, 3) else MERGES[:4] if n >= (2, 2) else MERGES[:1]


def value_of(to):  # .NET PipelineResultTypes
    return {"none": 0, "output": 1, "null": 8}[to]


@contract("C13", funcs=["powershell.PowerShell.merge_*", "powershell.PowerShell._set_merge_to", "complex_objects.Command.__init__"], runs=300, max_paths=8000)
def merges(v):
    """merges change the last command only; refused ones change nothing"""
    plain_text(v)
    X = v.mod("pypsrp.exceptions")
    SER = v.mod("pypsrp.serializer")
    version = v.choice("protocol", ["2.1", "2.2", "2.3"] if v.symbolic else ["2.1", "2.2", "2.3", "2.0", "2.1.5", "2.2.9", "2.10", "3.0", "10.1"])
    srv, pool, ps = setup(v, version)
    ps.add_cmdlet("a").add_cmdlet("b")
    which = v.choice("stream", MERGES + ["all", "reset", "previous"])
    prior = v.choice("before", [None, "output", "previous"])
    if prior == "previous":
        ps.merge_previous(True)
    elif prior:
        ps.merge_all(prior)
    to = v.choice("to", ["none", "output", "null", "bad", "OUTPUT", ""])
    names = ["MergeMyResult", "MergeToResult", "MergePreviousResults"] + ["Merge" + m.capitalize() for m in MERGES]

    def snapshot():
        import copy

        pl = SER.Serializer().serialize(v.mod("pypsrp.complex_objects").Pipeline(cmds=[copy.deepcopy(c) for c in ps.commands]))
        return [[wire_enum(v, prop(c, n)) for n in names] for c in items(prop(pl, "Cmds"))]

    before = snapshot()
    sup = supported(version)
    exp = list(before[1])
    targets = {"error": ["none", "output"]}
    if which == "previous":
        on = v.choice("enabled", [True, False])
        e = v.raises(Exception, lambda: ps.merge_previous(on))
        v.check("accepted", e is None)
        exp[2] = 3 if on else 0
    elif which == "reset":
        e = v.raises(Exception, lambda: ps.merge_reset())
        v.check("accepted", e is None)
        exp = [None if x is None else 0 for x in exp]
    else:
        if to == "none" and v.choice("left out", [False, True]):
            e = v.raises(X.InvalidPSRPOperation, lambda: getattr(ps, "merge_" + which)())
        else:
            e = v.raises(X.InvalidPSRPOperation, lambda: getattr(ps, "merge_" + which)(to))
        valid = ["none", "output"] if which in ("error", "all") else ["none", "null", "output"]
        if to not in valid or (which != "all" and which not in sup):
            v.check("refused", e is not None)
            v.check_eq("a refused merge changes nothing", snapshot(), before)
            return
        v.check("accepted", e is None)
        for m in sup if which == "all" else [which]:
            exp[names.index("Merge" + m.capitalize())] = value_of(to) if ("Merge" + m.capitalize()) in names and before[1][names.index("Merge" + m.capitalize())] is not None else None
        if which in ("error", "all"):
            exp[0] = 2 if to == "output" else 0
            exp[1] = value_of(to)
    after = snapshot()
    v.check_eq("other commands unchanged", after[0], before[0])
    v.check_eq("merges of the last command", after[1], exp)
    # what the protocol version knows is what is sent
    for m in MERGES:
        v.check("sent exactly when the version knows it", (after[1][names.index("Merge" + m.capitalize())] is not None) == (m == "error" and len(sup) > 1 or m != "error" and m in sup))




@contract("C13", funcs=["complex_objects.Command.__init__", "complex_objects.CommandParameter.__init__", "powershell.PowerShell.add_command"] + FN[2:3], runs=300)
def command_objects(v):
    """a command built by the user is sent as it was built"""
    plain_text(v)
    C, SER = v.mod("pypsrp.complex_objects"), v.mod("pypsrp.serializer")
    version = v.choice("protocol", ["2.1", "2.2", "2.3"])
    srv, pool, ps = setup(v, version)
    names = ["my_result", "to_result", "previous", "error", "warning", "verbose", "debug", "information"]
    wire = ["MergeMyResult", "MergeToResult", "MergePreviousResults"] + ["Merge" + m.capitalize() for m in MERGES]
    known = 3 if version == "2.1" else 7 if version == "2.2" else 8
    a, b, z = v.str("name"), v.str("value"), v.str("value 2")
    kw = {}
    merged = v.choice("merged", [None] + list(range(known)))
    if merged is not None:
        kw["merge_" + names[merged]] = C.PipelineResultTypes(value=1 + merged % 3 if v.symbolic else v.choice("merge", [1, 2, 3]))
    ends = v.choice("ends the statement", [None, False, True])
    if ends is not None:
        kw["end_of_statement"] = ends
    if v.choice("arguments", [True, False]):
        kw["args"] = [C.CommandParameter(name=a, value=b), C.CommandParameter(value=z), C.CommandParameter(name=a)]
    script, local = v.choice("form", [(True, None), (False, True), (True, False)]) if v.symbolic else (v.choice("script", [True, False]), v.choice("local", [None, True, False]))
    first = Want(v.str("text"), script, local, [(a, b), (None, z), (a, None)] if "args" in kw else [])
    if "args" in kw and not v.symbolic and v.choice("how many arguments", [False, False, True]):
        kw["args"] = kw["args"] * 30
        first.args = first.args * 30
    first.end = bool(ends)
    ps.add_command(C.Command(first.cmd, version, is_script=first.is_script, use_local_scope=first.local, **kw))
    if v.choice("the arguments later", [False, True]):
        ps.add_argument(z)
        first.args.append((None, z))
    second = Want("Other", False, None)
    ps.add_command(C.Command(cmd="Other", protocol_version=version, is_script=False))
    el = SER.Serializer().serialize(sent_pipeline(v, srv, ps).pipeline)
    check_wire(v, el, [first, second])
    one = items(prop(el, "Cmds"))[0]
    got = [wire_enum(v, prop(one, n)) for n in wire]
    v.check_eq("its merges", got, [(kw["merge_" + names[merged]].value if k == merged else 0) if k < known else None for k in range(8)])
    other = [wire_enum(v, prop(items(prop(el, "Cmds"))[-1], n)) for n in wire]
    if not first.end:
        v.check_eq("no merges of the other", other, [0] * known + [None] * (8 - known))


# ---- pipelines of any length: an arbitrary step of the loops ------------------------------------
def any_command(v, C, name):
    c = C.Command(v.str(name), "2.3", is_script=v.bool(name + " is script"), use_local_scope=v.choice(name + " local", [None, True]))
    c.args = [C.CommandParameter(name=v.str(name + " parameter"), value=v.str(name + " value"))]
    return c


def same_command(v, a, b):
    return v.and_(a.cmd == b.cmd, a.is_script == b.is_script, a.use_local_scope is b.use_local_scope, len(a.args) == len(b.args), *[v.and_(p.name == q.name, p.value == q.value) for p, q in zip(a.args, b.args)])


@contract("C13", funcs=["powershell.PowerShell.add_parameters", "powershell.PowerShell.add_parameter"], runs=1, conc=False)
def any_parameters(v):
    """any number of parameters: each becomes one argument of the last command, in order"""
    if v.unrolled:
        return
    V = v.mod("pyvc.values")
    srv, pool, ps = setup(v)
    m, k, n = v.int("earlier commands", 0), v.int("earlier arguments", 0), v.int("parameters", 0)
    ps.add_cmdlet("Last")
    last = ps.commands[-1]
    ps.commands = V.SList([V.Seg(V._z(V.zi(m)), lambda i: Fake(v)), V.Seg(1, lambda i: last)])
    K, X = v.z3fun("parameter", "str"), v.z3fun("value", "str")

    class Params(Fake):
        def items(self):
            return V.SList([V.Seg(V._z(V.zi(n)), lambda i: (K(i), X(i)))])

    g = {}

    def havoc(v, j, L0, seq):
        g["seq"] = seq
        last.args = V.SList([V.Seg(V._z(V.zi(k)), lambda i: Fake(v))])
        return {}

    def step(v, j, x, L, L1):
        v.check_eq("no command is added", v.len(ps.commands), m + 1)
        v.check_eq("one argument is added", v.len(last.args), k + 1)
        a = last.args[k]
        v.internal(not isinstance(a, Fake), "the new argument is last")
        v.check_eq("its name", a.name, K(j))
        v.check_eq("its value", a.value, X(j))

    v.loop(PS + ".PowerShell.add_parameters", 1, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
    r = ps.add_parameters(Params(v))
    v.check("the pipeline itself", r is ps)
    v.check_eq("a turn per parameter", v.len(g["seq"]), n)


@contract("C13", funcs=["complex_objects.Pipeline.*"], runs=1, conc=False)
def pack_any_number(v):
    """any number of commands: each joins its statement, at the end, and the
    statement is complete exactly where it ends"""
    if v.unrolled:
        return
    C = v.mod("pypsrp.complex_objects")
    V = v.mod("pyvc.values")
    n = v.int("commands", 1)
    cmd = any_command(v, C, "command")
    cmd.end_of_statement = v.bool("ends")
    Q = "pypsrp.complex_objects.Pipeline._get_statements"
    box = {}

    def havoc(v, j, L0, seq):
        box["before"] = [["statement %d" % k] for k in range(v.choice("statements before", [0, 1, 6]))]
        box["open"] = [any_command(v, C, "earlier")] * v.choice("commands before", [0, 1, 5])
        return {"statements": list(box["before"]), "current_statement": list(box["open"])}

    def step(v, j, x, L, L1):
        st, cur = L1["statements"], L1["current_statement"]
        done = v.truth(cmd.end_of_statement)
        v.check("earlier statements stay", len(st) == len(box["before"]) + done and all(a == b for a, b in zip(st, box["before"])))
        v.check("a statement is complete where it ends", not done or (len(cur) == 0 and st[-1] is not cur))
        one = st[-1] if done else cur
        v.check("the command joins the statement", len(one) == len(box["open"]) + 1)
        for a, b in zip(one, box["open"] + [cmd]):
            v.check("each command itself, in order", same_command(v, a, b))

    def inv(v, j, L, L0, seq):
        return [("starts with nothing", "before" in box or not L["statements"] and not L["current_statement"]), ("two lists", L["statements"] is not L["current_statement"])]

    v.loop(Q, 1, whole=True, havoc=havoc, inv=inv, step=step, heap=lambda L0: [...])
    pl = C.Pipeline(cmds=V.SList([V.Seg(V._z(V.zi(n)), lambda i: cmd)]))
    r = v.need(pl, "_get_statements")()
    rest = box["open"]
    v.check("all statements, the open one last", len(r) == len(box["before"]) + bool(rest) and all(a == b for a, b in zip(r, box["before"])))
    if rest:
        v.check("its commands", len(r[-1]) == len(rest) and same_command(v, r[-1][0], rest[0]))
        v.check("the pipeline's end is its end", r[-1][-1].end_of_statement is True)


@contract("C13", funcs=["complex_objects.Pipeline.*"], runs=1, conc=False)
def unpack_any_number(v):
    """decoding any number of statements of any number of commands"""
    if v.unrolled:
        return
    C = v.mod("pypsrp.complex_objects")
    V = v.mod("pyvc.values")
    n, m = v.int("statements", 1), v.int("commands", 1)
    cmd = any_command(v, C, "command")
    Q = "pypsrp.complex_objects.Pipeline._extra_cmds"
    box = {}

    class Statement:
        cmds = V.SList([V.Seg(V._z(V.zi(m)), lambda i: cmd)])

    def havoc1(v, j, L0, seq):
        box["l"] = ["earlier"]
        return {"commands": box["l"]}

    def havoc2(v, j, L0, seq):
        last = any_command(v, C, "the one before")
        box["l2"] = ["earlier", last]
        box["last"] = last
        return {"commands": box["l2"]}

    def step2(v, j, x, L, L1):
        v.check("the command is added at the end", L1["commands"] == box["l2"][:2] + [cmd] and L1["commands"][-1] is cmd)

    def step1(v, j, x, L, L1):
        v.check("what the statement added stays", L1["commands"][:2] == ["earlier", box["last"]])
        v.check("its last command ends the statement", L1["commands"][-1].end_of_statement is True)

    v.loop(Q, 1, whole=True, havoc=havoc1, inv=lambda v, j, L, L0, seq: [("starts with nothing", "l" in box or not L["commands"])], step=step1, heap=lambda L0: [...])
    v.loop(Q, 2, whole=True, havoc=havoc2, inv=lambda v, j, L, L0, seq: [], step=step2, heap=lambda L0: [...])
    pl = C.Pipeline(cmds=[])
    pl._extra_cmds = V.SList([V.Seg(V._z(V.zi(n)), lambda i: Statement())])
    v.check("all commands are those of the pipeline", pl.commands is box["l"])
