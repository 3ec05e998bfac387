"""Pools and pipelines are created with the settings asked for.

Ghost state: the settings as given to the public interface.  Every message the
client packs is serialised with the real serialiser at that moment and what is
written is compared, setting by setting, with the ghost.
"""
import xml.etree.ElementTree as ET

from pyvc.harness import contract

from contracts.lib import BEFORE_OPEN, OPENED, PS, RSP, Server, new_pipe, new_pool, plain_text, pool_state, prop

RP = "powershell.RunspacePool."
CO = "complex_objects."
HOST = [CO + "HostInfo.*", CO + "_HostDefaultData.*", CO + "_HostDefaultData._Color.*", CO + "_HostDefaultData._Coordinates.*", CO + "_HostDefaultData._Size.*", CO + "_HostDefaultData._DictValue.*", CO + "Color.__init__", CO + "Coordinates.__init__", CO + "Size.__init__", "host.PSHost.__init__", "host.PSHostUserInterface.__init__", "host.PSHostRawUserInterface.__init__"]
OPEN = [RP + "__init__", RP + "open", RP + "min_runspaces", RP + "max_runspaces", "shell.WinRS.__init__", "shell.WinRS.open", "messages.InitRunspacePool.__init__", "messages.SessionCapability.__init__", CO + "PSThreadOptions.*", CO + "ApartmentState.*"]
INVOKE = ["powershell.PowerShell.__init__", "powershell.PowerShell.begin_invoke", "powershell.PowerShell._invoke", "messages.CreatePipeline.__init__", CO + "Pipeline.*", CO + "Pipeline._ExtraCmds.*", CO + "RemoteStreamOptions.*", CO + "ApartmentState.*"]
I32 = (-(2**31), 2**31 - 1)


def server(v):
    """a server that writes down the form every message has when it is packed"""
    srv = Server(v)
    S = v.mod("pypsrp.serializer")
    srv.xml = {}

    def size(m):
        srv.xml.setdefault(type(m.data).__name__, []).append(S.Serializer().serialize(m.data))
        return 60

    srv.size = size
    return srv


def value(v, el):
    """tag and value of a property"""
    if el is None:
        return (None, None)
    return (el.tag, v.mod("pypsrp.serializer").Serializer().deserialize(el))


def is_(v, name, el, tag, want):
    t, x = value(v, el)
    v.check(name + ": its type", t == tag)
    if t == tag:
        v.check_eq(name, x, want)


def enum(v, name, el, typ, want):
    """an enumeration value"""
    ok = el is not None and [t.text for t in el.findall("TN/T")][:1] == [typ] and el.find("I32") is not None
    v.check(name + ": an enumeration", ok)
    if ok:
        is_(v, name, el.find("I32"), "I32", want)


def flag(v, name, el, want):
    v.check(name, el is not None and el.tag == "B" and el.text == ("true" if want else "false"))


def given_host(v):
    """a host of any kind: none, one without a user interface, one without a
    raw user interface, a complete one with arbitrary settings"""
    H, C = v.mod("pypsrp.host"), v.mod("pypsrp.complex_objects")
    kind = v.choice("host", ["none", "no ui", "no raw ui", "complete"])
    if kind == "none":
        return None, {"kind": kind}
    raw, g = None, {"kind": kind}
    if kind == "complete":
        g.update({k: v.int(k, *I32) for k in ("cursor size",)})
        for k in ("cursor", "window at", "buffer", "window", "max window", "max physical"):
            g[k] = (v.int(k + " 0", *I32), v.int(k + " 1", *I32))
        g["title"] = v.str("title", pool=["", "w", "PS C:\\>"])
        g["fore"], g["back"] = v.int("fore", 0, 15), v.int("back", 0, 15)
        pos = lambda k: C.Coordinates(x=g[k][0], y=g[k][1])
        size = lambda k: C.Size(width=g[k][0], height=g[k][1])
        raw = H.PSHostRawUserInterface(
            window_title=g["title"], cursor_size=g["cursor size"], foreground_color=C.Color(value=g["fore"]), background_color=C.Color(value=g["back"]),
            cursor_position=pos("cursor"), window_position=pos("window at"), buffer_size=size("buffer"), max_physical_window_size=size("max physical"),
            max_window_size=size("max window"), window_size=size("window"),
        )
    ui = None if kind == "no ui" else H.PSHostUserInterface(raw_ui=raw)
    return H.PSHost(None, None, False, "host", None, ui, "1.0"), g


def host_described(v, el, g):
    kind = g["kind"]
    flag(v, "whether there is no host", prop(el, "_isHostNull"), kind == "none")
    flag(v, "whether there is no user interface", prop(el, "_isHostUINull"), kind in ("none", "no ui"))
    flag(v, "whether there is no raw user interface", prop(el, "_isHostRawUINull"), kind != "complete")
    flag(v, "whether the pool's host is used", prop(el, "_useRunspaceHost"), kind == "none")
    d = prop(el, "_hostDefaultData")
    if kind != "complete":
        v.check("nothing is said about a raw user interface that is not there", d is None or d.tag == "Nil")
        return
    d = prop(d, "data") if d is not None else None
    en = d.findall("DCT/En") if d is not None else []
    v.check("ten settings of the raw user interface", len(en) == 10 and all(len(e) == 2 and e[0].attrib.get("N") == "Key" and e[1].attrib.get("N") == "Value" for e in en))
    got = {e[0].text: e[1] for e in en if e[0].tag == "I32"}
    v.check("numbered from 0 to 9", set(got) == {str(i) for i in range(10)})
    if set(got) != {str(i) for i in range(10)}:
        return
    typ = lambda i: prop(got[str(i)], "T").text if prop(got[str(i)], "T") is not None else None
    val = lambda i: prop(got[str(i)], "V")
    for i, k in ((0, "fore"), (1, "back")):
        v.check(k + " colour: its kind", typ(i) == "System.ConsoleColor")
        is_(v, k + " colour", val(i), "I32", g[k])
    for i, k in ((2, "cursor"), (3, "window at")):
        v.check(k + ": its kind", typ(i) == "System.Management.Automation.Host.Coordinates")
        is_(v, k + ": column", prop(val(i), "x"), "I32", g[k][0])
        is_(v, k + ": row", prop(val(i), "y"), "I32", g[k][1])
    v.check("cursor size: its kind", typ(4) == "System.Int32")
    is_(v, "cursor size", val(4), "I32", g["cursor size"])
    for i, k in ((5, "buffer"), (6, "window"), (7, "max window"), (8, "max physical")):
        v.check(k + ": its kind", typ(i) == "System.Management.Automation.Host.Size")
        is_(v, k + ": width", prop(val(i), "width"), "I32", g[k][0])
        is_(v, k + ": height", prop(val(i), "height"), "I32", g[k][1])
    v.check("title: its kind", typ(9) == "System.String")
    is_(v, "title", val(9), "S", g["title"])


@contract("C27", funcs=HOST, runs=300)
def host_info(v):
    """every kind of host with all settings; the description is that of the
    host as it is when it is written"""
    C, S = v.mod("pypsrp.complex_objects"), v.mod("pypsrp.serializer")
    plain_text(v)
    host, g = given_host(v)
    info = C.HostInfo(host=host)
    if g["kind"] == "complete" and v.choice("changed after", [False, True]):
        raw = host.ui.raw_ui
        g["title"] = raw.window_title = v.str("new title", pool=["", "w", "PS C:\\>"])
        g["window"] = (v.int("new width", *I32), v.int("new height", *I32))
        raw.window_size = C.Size(width=g["window"][0], height=g["window"][1])
        g["fore"] = v.int("new fore", 0, 15)
        raw.foreground_color = C.Color(value=g["fore"])
    host_described(v, S.Serializer().serialize(info), g)


@contract("C27", funcs=OPEN + HOST, runs=300)
def open_pool(v):
    """everything given to the constructor, for all values"""
    P, M = v.mod(PS), v.mod("pypsrp.messages")
    plain_text(v)
    srv = server(v)
    kw, g = {}, {"min": 1, "max": 1, "threads": 0, "apartment": 2}
    cfg, np, idle, args, s, left = "Microsoft.PowerShell", False, None, None, "x", False
    what = v.choice("given", ["nothing", "host", "sizes", "options", "shell", "arguments"]) if v.symbolic else "all"
    given = lambda k: what in (k, "all")
    host, described = given_host(v) if given("host") else (None, {"kind": "none"})
    if host is not None:
        kw["host"] = host
    if given("sizes"):
        kw["min_runspaces"], kw["max_runspaces"] = g["min"], g["max"] = v.int("min", *I32), v.int("max", *I32)
    if given("options"):
        kw["thread_options"] = g["threads"] = v.choice("thread options", [0, 1, 2, 3])
        kw["apartment_state"] = g["apartment"] = v.choice("apartment state", [0, 1, 2])
    if given("shell"):
        kw["configuration_name"] = cfg = v.choice("configuration", ["Microsoft.PowerShell", "JEA config"])
        kw["no_profile"] = np = v.choice("no profile", [False, True])
        kw["idle_timeout"] = idle = v.choice("idle timeout", [None, v.int("idle", 0)])
    pool = P.RunspacePool(srv, **kw)
    if given("sizes") and v.choice("sizes changed before opening", [False, True]):
        g["min"], g["max"] = v.int("min then", *I32), v.int("max then", *I32)
        pool.min_runspaces, pool.max_runspaces = g["min"], g["max"]
        v.check_eq("the sizes are those set", (pool.min_runspaces, pool.max_runspaces), (g["min"], g["max"]))
    if given("arguments"):
        s = v.str("argument", pool=["", "x", "y z"])
        args = v.choice("application arguments", [None, {}, {"name": s, "number": 5}])
        left = args is None and v.choice("left out", [False, True])
    pid = pool.id
    srv.say(M.SessionCapability("2.3", "5.1", "1.1.0.1"))
    srv.say(M.ApplicationPrivateData(data={}))
    srv.say(pool_state(v, OPENED))
    if left:
        pool.open()
    else:
        pool.open(args)
    v.check("open", pool.state == OPENED and pool.id == pid)
    # the shell
    e = srv.log[0]
    v.check("created once, first", srv.kinds()[0] == "create" and srv.kinds().count("create") == 1)
    v.check("at the configuration asked for", e.uri == "http://schemas.microsoft.com/powershell/" + cfg)
    v.check("under the pool's id", e.resource.attrib.get("ShellId") == pid)
    t = lambda n: e.resource.findtext("{%s}%s" % (RSP, n))
    v.check("its streams", t("InputStreams") == "stdin pr" and t("OutputStreams") == "stdout")
    if idle is None:
        v.check("no idle timeout", t("IdleTimeOut") is None)
    else:
        v.check_eq("idle timeout", t("IdleTimeOut"), v.mod("pyvc.models").str_mod("PT%dS", (idle,)) if v.symbolic else "PT%dS" % idle)
    v.check("nothing else is asked for", {c.tag.split("}")[-1] for c in e.resource} - {"InputStreams", "OutputStreams", "IdleTimeOut", "creationXml"} == set())
    opts = {o[0]: (o[1], dict(o[2] or {})) for o in e.options.values} if e.options is not None else {}
    want = {"protocolversion": ("2.3", {"MustComply": "true"})}
    if np:
        want["WINRS_NOPROFILE"] = ("TRUE", {"MustComply": "true"})
    v.check_eq("options", opts, want)
    # the messages
    v.check("two messages", [m.name for m in srv.messages] == ["SessionCapability", "InitRunspacePool"])
    sc, init = srv.xml["SessionCapability"], srv.xml["InitRunspacePool"]
    v.check("once each", len(sc) == 1 and len(init) == 1)
    for n, x in (("protocolversion", "2.3"), ("PSVersion", "2.0"), ("SerializationVersion", "1.1.0.1")):
        p = prop(sc[0], n)
        v.check("announced: " + n, p is not None and (p.tag, p.text) == ("Version", x))
    x = init[0]
    is_(v, "minimum runspaces", prop(x, "MinRunspaces"), "I32", g["min"])
    is_(v, "maximum runspaces", prop(x, "MaxRunspaces"), "I32", g["max"])
    enum(v, "thread options", prop(x, "PSThreadOptions"), "System.Management.Automation.Runspaces.PSThreadOptions", g["threads"])
    enum(v, "apartment state", prop(x, "ApartmentState"), "System.Management.Automation.Runspaces.ApartmentState", g["apartment"])
    host_described(v, prop(x, "HostInfo"), described)
    a = prop(x, "ApplicationArguments")
    if args is None:
        v.check("no application arguments", a is None or a.tag == "Nil")
    else:
        v.check("application arguments are a primitive dictionary", a is not None and a.tag == "Obj" and [n.text for n in a.findall("TN/T")][:1] == ["System.Management.Automation.PSPrimitiveDictionary"] and a.find("DCT") is not None)
        en = a.findall("DCT/En") if a is not None else []
        v.check("one entry each", [[c.attrib.get("N") for c in i] for i in en] == [["Key", "Value"]] * len(args) and [i[0].text for i in en] == list(args))
        if len(en) == 2:
            is_(v, "the text", en[0][1], "S", s)
            is_(v, "the number", en[1][1], "I32", 5)


@contract("C27", funcs=INVOKE + HOST, runs=400)
def create_pipeline(v):
    """everything given to an invocation, for all values"""
    C = v.mod("pypsrp.complex_objects")
    plain_text(v)
    srv = server(v)
    what = v.choice("given", ["nothing", "host", "apartment", "nesting", "input", "flags"]) if v.symbolic else "all"
    given = lambda k: what in (k, "all")
    host, described = given_host(v) if given("host") else (None, {"kind": "none"})
    apartment, own, nested, history, text, stream, streams, kw = 2, "left", None, "left", "x", "left", "left", {}
    if given("apartment"):
        apartment = v.choice("apartment state of the pool", [0, 1, 2])
        own = v.choice("own apartment state", ["left", None, 0, 1, 2])
        if own != "left":
            kw["apartment_state"] = own
    pool = new_pool(v, srv, apartment_state=apartment, host=host)
    pool.protocol_version = "2.3"
    ps = v.mod(PS).PowerShell(pool)
    ps.add_script("x")
    if given("nesting") or given("host"):
        nested = v.choice("nested", [None, False, True])
        if nested is not None:
            ps.is_nested = nested
    if given("nesting"):
        history = v.choice("history string", ["left", None, "given"])
        text = v.str("history", pool=["Get-Item", "", "a | b"])
        if history != "left":
            ps.history_string = None if history is None else text
    if given("input"):
        stream = v.choice("input", ["left", None, "some", "none at all", "", 0, False, b""])
        if stream != "left":
            kw["input"] = None if stream is None else (i for i in ()) if stream == "none at all" else "value" if stream == "some" else stream
        streams = v.choice("remote stream options", ["left", "given"])
        if streams == "given":
            kw["remote_stream_options"] = v.int("stream options", 0, 15)
    if given("flags"):
        for k in ("add_to_history", "redirect_shell_error_to_out"):
            c = v.choice(k, ["left", False, True])
            if c != "left":
                kw[k] = c
    ps.begin_invoke(**kw)
    v.check("one create request, first", [m.name for m in srv.messages][:1] == ["CreatePipeline"] and len(srv.xml["CreatePipeline"]) == 1)
    v.check("for this pipeline", srv.messages[0].pid == ps.id.upper() and srv.log[0].command_id == ps.id)
    x = srv.xml["CreatePipeline"][0]
    flag(v, "whether there is input", prop(x, "NoInput"), stream is None or stream == "left")
    enum(v, "apartment state: its own, else that of the pool", prop(x, "ApartmentState"), "System.Management.Automation.Runspaces.ApartmentState", apartment if own in ("left", None) else own)
    enum(v, "remote stream options", prop(x, "RemoteStreamOptions"), "System.Management.Automation.Runspaces.RemoteStreamOptions", 15 if streams == "left" else kw["remote_stream_options"])
    flag(v, "whether it is added to the history", prop(x, "AddToHistory"), kw.get("add_to_history", False))
    flag(v, "whether it is nested", prop(x, "IsNested"), bool(nested))
    host_described(v, prop(x, "HostInfo"), described)
    p = prop(x, "PowerShell")
    v.check("the pipeline", p is not None)
    if p is None:
        return
    flag(v, "whether the commands are nested", prop(p, "IsNested"), bool(nested))
    flag(v, "whether errors of the shell go to the output", prop(p, "RedirectShellErrorOutputPipe"), kw.get("redirect_shell_error_to_out", False))
    h = prop(p, "History")
    if history != "given":
        v.check("no history string", h is None or h.tag == "Nil")
    else:
        is_(v, "history string", h, "S", text)
