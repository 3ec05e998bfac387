"""A host call runs the right host method once and answers with its own ids."""
from pyvc.harness import contract

from .lib import *

FN = ["powershell.RunspacePool._process_host_call", "powershell.RunspacePool._process_runspacepool_host_call", "powershell.PowerShell._process_pipeline_host_call", "host.PSHost.run_method", "complex_objects.HostMethodIdentifier", "complex_objects.Enum._to_string"]

# MS-PSRP 2.2.3.17
HOST = ["GetName", "GetVersion", "GetInstanceId", "GetCurrentCulture", "GetCurrentUICulture", "SetShouldExit", "EnterNestedPrompt", "ExitNestedPrompt", "NotifyBeginApplication", "NotifyEndApplication"]
UI = ["ReadLine", "ReadLineAsSecureString", "Write1", "Write2", "WriteLine1", "WriteLine2", "WriteLine3", "WriteErrorLine", "WriteDebugLine", "WriteProgress", "WriteVerboseLine", "WriteWarningLine", "Prompt", "PromptForCredential1", "PromptForCredential2", "PromptForChoice"]
RAW = ["GetForegroundColor", "SetForegroundColor", "GetBackgroundColor", "SetBackgroundColor", "GetCursorPosition", "SetCursorPosition", "GetWindowPosition", "SetWindowPosition", "GetCursorSize", "SetCursorSize", "GetBufferSize", "SetBufferSize", "GetWindowSize", "SetWindowSize", "GetWindowTitle", "SetWindowTitle", "GetMaxWindowSize", "GetMaxPhysicalWindowSize", "GetKeyAvailable", "ReadKey", "FlushInputBuffer", "SetBufferContents1", "SetBufferContents2", "GetBufferContents", "ScrollBufferContents"]
TABLE = dict(enumerate([("host", n) for n in HOST] + [("ui", n) for n in UI] + [("raw", n) for n in RAW], 1))


class Rec:
    pass


def make_host(v, calls, answer):
    """every level has a method of every name; each call is recorded"""
    H = v.mod("pypsrp.host")

    def meth(level, name):
        def f(self, runspace, pipeline, *args):
            calls.append((level, name, runspace, pipeline, list(args)))
            return answer()

        return f

    def level(lv, base):
        return type("H_" + lv, (base,), {n: meth(lv, n) for _, n in TABLE.values()})

    raw = level("raw", Rec)()
    ui = level("ui", Rec)()
    ui.raw_ui = raw
    return level("host", H.PSHost)(None, None, False, "n", None, ui, "1.0")


def request(v, kind, mi, ci, args):
    M, C = v.mod("pypsrp.messages"), v.mod("pypsrp.complex_objects")
    cls = M.RunspacePoolHostCall if kind == "pool" else M.PipelineHostCall
    return cls(ci=ci, mi=C.HostMethodIdentifier(value=mi), mp=args)


RESPONSE = {"pool": "RunspacePoolHostResponse", "pipeline": "PipelineHostResponse"}


def setup(v, host=True, answers=None):
    P = v.mod(PS)
    srv = Server(v)
    calls = []
    h = make_host(v, calls, lambda: answers.pop(0)) if host else None
    pool = new_pool(v, srv, OPENED, host=h)
    ps, other = new_pipe(v, pool), new_pipe(v, pool)
    for p in (ps, other):
        pool.pipelines[p.id] = p
        p.state = RUNNING
        p._command_id = "C0MMAND0-" + p.id[9:]  # the server may have given it another command id
    return srv, pool, ps, other, calls


@contract("C12", funcs=FN, runs=600, max_paths=6000)
def every_method(v):
    mi = v.choice("mi", list(range(1, 52)))
    kind = v.choice("kind", ["pool", "pipeline"])
    ci = v.int("ci", 0, 2**63 - 1)
    rk = v.choice("returns", ["nothing", "value", "False", "0", "empty string"])
    ret = {"nothing": None, "False": False, "0": 0, "empty string": ""}.get(rk, v.opaque("result"))
    odd = v.choice("the second argument", ["any", None, 0, "", False])
    args = [v.opaque("arg") if odd == "any" or k != 1 else odd for k in range(mi % 7 if v.symbolic else v.choice("args", [0, 1, 2, 3, 6]))]
    srv, pool, ps, other, calls = setup(v, answers=[ret])
    if (mi % 5 == 0) if v.symbolic else v.bool("response of several fragments"):
        srv.size = lambda m: 12500 if m.message_type in (0x00021101, 0x00041101) else 60
    srv.say(request(v, kind, mi, ci, args))
    if kind == "pipeline" or v.choice("received in the poll of", ["pipeline", "pool"]) == "pipeline":
        ps.poll_invoke()
    else:
        n = request(v, kind, mi, ci, args)
        srv.script = []
        pool_poll(v, srv, pool, n)
    v.check_eq("called exactly once", len(calls), 1)
    lv, name, rs, pl, got = calls[0]
    v.check_eq("the matching method at its level", (lv, name), TABLE[mi])
    v.check("with the pool and the calling pipeline", rs is pool and pl is (ps if kind == "pipeline" else None))
    v.check_eq("with the arguments of the request", got, args)
    out = [m for m in srv.messages if m.name != "GetAvailableRunspaces"]
    if rk == "nothing":
        v.check("nothing is sent", len(out) == 0)
        return
    v.check_eq("exactly one response, of the kind of the request", [m.name for m in out], [RESPONSE[kind]])
    v.check("the whole response, its fragments in order", not srv.partial and not srv.frag_errors)
    r = out[0]
    v.check_eq("with the call id of the request", r.data.ci, ci)
    v.check_eq("with the method id of the request", r.data.mi.value, mi)
    v.check("with the value returned", (r.data.mr is ret) or (type(r.data.mr) is type(ret) and v.truth(r.data.mr == ret)))
    v.check("to the pipeline that asked", r.pid == (ps.id if kind == "pipeline" else None))
    v.check("on the prompt response stream", all(s == "pr" for k, s, c in r.via))
    v.check_eq("no host error is reported", r.data.me, None)


@contract("C12", funcs=FN, runs=100)
def no_host(v):
    kind = v.choice("kind", ["pool", "pipeline"])
    srv, pool, ps, other, calls = setup(v, host=False)
    mi = v.choice("mi", [1, 11, 27, 51])
    srv.say(request(v, kind, mi, v.int("ci", 0), []))
    ps.poll_invoke()
    v.check("nothing is sent", len(srv.messages) == 0)


@contract("C12", funcs=FN, runs=200)
def unsupported_methods(v):
    """identifiers without a host method call nothing and send nothing"""
    kind = v.choice("kind", ["pool", "pipeline"])
    srv, pool, ps, other, calls = setup(v, answers=[v.opaque("r")])
    srv.say(request(v, kind, v.choice("mi", [52, 53, 54, 55, 56]), v.int("ci", 0), []))
    ps.poll_invoke()
    v.check("no method is called, nothing is sent", not calls and len(srv.messages) == 0)


@contract("C12", funcs=FN, runs=200, bounded="two host calls in one response")
def several_calls(v):
    """each call is answered, in order, with its own ids"""
    ks = [v.choice("kind", ["pool", "pipeline"]) for _ in range(2)]
    mis = [v.choice("mi", [3, 11, 35, 46]) for _ in range(2)]
    cis = [v.int("ci", 0) for _ in range(2)]
    rets = [v.choice("returns", [None, 0, "x"]) for _ in range(2)]
    srv, pool, ps, other, calls = setup(v, answers=list(rets))
    srv.say(*[request(v, k, m, c, [i]) for i, (k, m, c) in enumerate(zip(ks, mis, cis))])
    other.poll_invoke()
    v.check_eq("each method once, in order", [(lv, n, a) for lv, n, _, _, a in calls], [TABLE[m] + ([i],) for i, m in enumerate(mis)])
    want = [i for i in range(2) if rets[i] is not None]
    v.check_eq("one response per answer", len(srv.messages), len(want))
    for i, m in zip(want, srv.messages):
        v.check_eq("kind", m.name, RESPONSE[ks[i]])
        v.check_eq("ids", [m.data.ci, m.data.mi.value], [cis[i], mis[i]])
        v.check("value", m.data.mr == rets[i])
        v.check("asking pipeline", m.pid == (other.id if ks[i] == "pipeline" else None))


@contract("C12", funcs=["host.PSHostRawUserInterface.*", "host.PSHostUserInterface.*", "host.PSHost.*"], runs=100)
def default_host(v):
    """the default host: what is set through a host call is what the matching
    get call answers; text goes to the stream of its method"""
    H, C = v.mod("pypsrp.host"), v.mod("pypsrp.complex_objects")
    P = v.mod(PS)
    raw = H.PSHostRawUserInterface("title", 10, C.Color(value=1), C.Color(value=2), C.Coordinates(x=1, y=2), C.Coordinates(x=3, y=4), C.Size(width=5, height=6), C.Size(width=7, height=8), C.Size(width=9, height=10), C.Size(width=11, height=12))
    ui = H.PSHostUserInterface(raw)
    cult, uicult = C.CultureInfo(), C.CultureInfo()
    host = H.PSHost(cult, uicult, False, "the name", None, ui, "1.2")
    srv = Server(v)
    pool = new_pool(v, srv, OPENED, host=host)

    def run(name, *args):
        mi = [k for k, (_, n) in TABLE.items() if n == name][0]
        return host.run_method(C.HostMethodIdentifier(value=mi), list(args), pool, None)

    def gen(**kw):
        g = C.GenericComplexObject()
        g.extended_properties = dict(kw)
        return g

    a, b = v.int("a", -(2**31), 2**31 - 1), v.int("b", -(2**31), 2**31 - 1)
    t = v.str("text")
    which = v.choice("method", ["ForegroundColor", "BackgroundColor", "CursorPosition", "WindowPosition", "CursorSize", "BufferSize", "WindowSize", "WindowTitle", "text", "fixed", "exit"])
    others = {n: run("Get" + n) for n in ("ForegroundColor", "BackgroundColor", "CursorPosition", "WindowPosition", "CursorSize", "BufferSize", "WindowSize", "WindowTitle") if n != which}
    if which.endswith("Color"):
        v.check("setting returns nothing", run("Set" + which, a) is None)
        v.check_eq("colour kept", run("Get" + which).value, a)
    elif which.endswith("Position"):
        v.check("setting returns nothing", run("Set" + which, gen(x=a, y=b)) is None)
        v.check_eq("position kept", [run("Get" + which).x, run("Get" + which).y], [a, b])
    elif which in ("BufferSize", "WindowSize"):
        v.check("setting returns nothing", run("Set" + which, gen(width=a, height=b)) is None)
        v.check_eq("size kept", [run("Get" + which).width, run("Get" + which).height], [a, b])
    elif which == "CursorSize":
        v.check("setting returns nothing", run("SetCursorSize", a) is None)
        v.check_eq("cursor size kept", run("GetCursorSize"), a)
    elif which == "WindowTitle":
        v.check("setting returns nothing", run("SetWindowTitle", t) is None)
        v.check_eq("title kept", run("GetWindowTitle"), t)
    elif which == "exit":
        run("SetShouldExit", a)
        v.check_eq("exit code kept", host.rc, a)
    elif which == "fixed":
        v.check("fixed answers", run("GetName") == "the name" and run("GetInstanceId") == host.instance_id and run("GetCurrentCulture") is cult and run("GetCurrentUICulture") is uicult)
        v.check("sizes", run("GetMaxWindowSize") is raw.max_window_size and run("GetMaxPhysicalWindowSize") is raw.max_physical_window_size and run("GetKeyAvailable") is False)
    else:
        for n, args in (("Write1", [t]), ("Write2", [1, 2, t]), ("WriteLine1", []), ("WriteLine2", [t]), ("WriteLine3", [1, 2, t]), ("WriteDebugLine", [t]), ("WriteVerboseLine", [t]), ("WriteWarningLine", [t]), ("WriteErrorLine", [t])):
            v.check("writing returns nothing", run(n, *args) is None)
        v.check_eq("standard output in order", ui.stdout, [t, t, "\r\n", t + "\r\n", t + "\r\n", "DEBUG: " + t + "\r\n", "VERBOSE: " + t + "\r\n", "WARNING: " + t + "\r\n"])
        v.check_eq("errors", ui.stderr, [t + "\r\n"])
    for n in others:
        v.check("nothing else changes", run("Get" + n) is others[n] or run("Get" + n) == others[n])


@contract("C12", funcs=["powershell.RunspacePool._process_host_call"], runs=1, conc=False)
def answer_of_any_size(v):
    """every fragment of the answer is sent, in order, for any number of them"""
    if v.unrolled:
        return
    P, M = v.mod(PS), v.mod("pypsrp.messages")
    kind = v.choice("kind", ["pool", "pipeline"])
    answers = ["the answer"]
    srv, pool, ps, other, calls = setup(v, answers=answers)
    n, F, made = v.int("fragments", 1), v.z3fun("fragment", "bytes"), []

    def fragment(self, msg, rpid, pid=None, *a, **k):
        made.append((msg, rpid, pid))
        return any_fragments(v, n, F)

    v.contract(PS + ".Fragmenter.fragment", fragment)
    log, g = fragments_sent(v, "pypsrp.powershell.RunspacePool._process_host_call", 1, pool, F, 0, "pr")
    call = request(v, kind, 11, v.int("call id", 0, 2**63 - 1), [])
    message = type("Message", (), {"data": call})()
    pool._process_host_call(message, getattr(M, RESPONSE[kind]), ps if kind == "pipeline" else None)
    v.internal(len(made) == 1, "one fragment call")
    v.check("one answer is made", len(made) == 1 and len(calls) == 1)
    v.check("of this pool, and pipeline if it asked", made[0][1] == pool.id and made[0][2] == (ps.id if kind == "pipeline" else None))
    v.check_eq("a request per fragment", g.get("n"), n)
    v.check("no other request", not log and not srv.log)
