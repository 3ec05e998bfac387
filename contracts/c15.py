"""Headers of every WSMan request, matching of answers, per-call timeouts."""
import ipaddress
import re
import urllib.parse

from pyvc.harness import contract

from .http import *

ACTIONS = {
    "command": RSP + "/Command",
    "connect": RSP + "/Connect",
    "create": "http://schemas.xmlsoap.org/ws/2004/09/transfer/Create",
    "disconnect": RSP + "/Disconnect",
    "delete": "http://schemas.xmlsoap.org/ws/2004/09/transfer/Delete",
    "enumerate": "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Enumerate",
    "get": "http://schemas.xmlsoap.org/ws/2004/09/transfer/Get",
    "pull": "http://schemas.xmlsoap.org/ws/2004/09/enumeration/Pull",
    "put": "http://schemas.xmlsoap.org/ws/2004/09/transfer/Put",
    "receive": RSP + "/Receive",
    "reconnect": RSP + "/Reconnect",
    "send": RSP + "/Send",
    "signal": RSP + "/Signal",
}
FUNCS = ["wsman.WSMan._create_header", "wsman.WSMan.invoke"] + ["wsman.WSMan." + a for a in ACTIONS]
SETF = ["wsman._WSManSet.add_option", "wsman._WSManSet.pack"]


def one(v, header, ns, name):
    """the only such header"""
    l = header.findall("{%s}%s" % (ns, name))
    v.check("exactly one %s header" % name, len(l) == 1)
    return l[0]


def resource(v):
    r = ET.Element("{%s}Send" % RSP, Any=safe(v, "resource attribute"))
    ET.SubElement(r, "{%s}Stream" % RSP, Name="stdin").text = safe(v, "resource text", nonempty=True)
    return r


def dec(v, n):
    """decimal text"""
    return v.mod("pyvc.models").m_str(n) if is_sym(n) else str(n)


def headers(v, w, op, request, uri, timeout, locale, data_locale):
    """the headers of one request"""
    env = tree(v, request.data)
    v.check("a SOAP envelope of one header and one body", env.tag == "{%s}Envelope" % S and [c.tag for c in env] == ["{%s}Header" % S, "{%s}Body" % S])
    h = env[0]
    v.check_eq("action of the operation", one(v, h, WSA, "Action").text, ACTIONS[op])
    same_text(v, "resource URI", one(v, h, WSM, "ResourceURI").text, uri)
    v.check_eq("the endpoint", one(v, h, WSA, "To").text, "https://server:5986/wsman")
    v.check_eq("posted to the endpoint", (request.method, request.url), ("POST", "https://server:5986/wsman"))
    v.check_eq("the session id", one(v, h, WSMV, "SessionId").text, "uuid:" + w.session_id.upper())
    mid = one(v, h, WSA, "MessageID").text
    v.check("a message id", bool(re.fullmatch(UUID_RE, mid)))
    v.check_eq("the locale", one(v, h, WSM, "Locale").attrib.get("{%s}lang" % XMLNS), locale)
    v.check_eq("the data locale", one(v, h, WSMV, "DataLocale").attrib.get("{%s}lang" % XMLNS), data_locale)
    v.check_eq("the envelope size", one(v, h, WSM, "MaxEnvelopeSize").text, dec(v, w.max_envelope_size))
    v.check_eq("the operation timeout", one(v, h, WSM, "OperationTimeout").text, "PT" + dec(v, timeout) + "S")
    v.check_eq("answers are sent back on the connection", [c.text for c in h.findall("{%s}ReplyTo/{%s}Address" % (WSA, WSA))], ["http://schemas.xmlsoap.org/ws/2004/08/addressing/role/anonymous"])
    for ns, name in ((WSA, "Action"), (WSM, "MaxEnvelopeSize"), (WSM, "ResourceURI")):
        v.check_eq("must be understood: " + name, one(v, h, ns, name).attrib.get("{%s}mustUnderstand" % S), "true")
    return h, env[1], mid


def call(w, op, uri, res, options=None, selectors=None, timeout=None):
    kw = {}
    if options is not None:
        kw["option_set"] = options
    if selectors is not None:
        kw["selector_set"] = selectors
    if timeout is not None:
        kw["timeout"] = timeout
    if res is not None:
        kw["resource"] = res
    return getattr(w, op)(uri, **kw)


def fill(v, s, name, n, items):
    for i in range(n):
        at = {"{urn:a}Kind": safe(v, "%s attribute %d" % (name, i))} if v.choice("%s attribute" % name, [False, True]) else None
        k, x = safe(v, "%s name %d" % (name, i)), safe(v, "%s value %d" % (name, i))
        s.add_option(k, x, at) if at is not None else s.add_option(k, x)
        items.append((k, x, at or {}))
    return s


def check_set(v, h, name, child, items, must):
    l = h.findall("{%s}%s" % (WSM, name))
    if items is None:
        v.check("no %s" % name, len(l) == 0)
        return
    v.check("one %s" % name, len(l) == 1)
    v.check_eq("%s must be understood" % name, l[0].attrib.get("{%s}mustUnderstand" % S), must)
    v.check("%s: exactly the given entries" % name, [c.tag for c in l[0]] == ["{%s}%s" % (WSM, child)] * len(items))
    for c, (k, x, at) in zip(l[0], items):
        same_text(v, "%s values in order" % name, c.text, x)
        v.check_eq("%s names in order" % name, c.attrib.get("Name"), k)
        v.check("%s attributes" % name, set(c.attrib) == {"Name"} | set(at))
        for a in at:
            v.check_eq("%s attributes" % name, c.attrib[a], at[a])


@contract("C15", funcs=FUNCS, runs=120)
def operations(v):
    """every operation: all headers, the resource as the only body, the answer
    returned unchanged"""
    op = v.choice("operation", sorted(ACTIONS))
    kw = {}
    locale = data_locale = "en-US"
    conf = v.choice("configured", ["nothing", "locale", "data locale", "all"])
    if conf in ("locale", "all"):
        kw["locale"] = locale = data_locale = safe(v, "locale")
    if conf in ("data locale", "all"):
        kw["data_locale"] = data_locale = safe(v, "data locale")
    op_t = 20
    if conf == "all":
        kw["operation_timeout"] = op_t = v.int("operation timeout", 1, None)
    answers = []

    def answer(k, request, timeout):
        b = ET.Element("{%s}Body" % S)
        x = ET.SubElement(b, "{%s}Answer" % RSP, At=safe(v, "answer attribute"))
        x.text = safe(v, "answer text")
        answers.append(b)
        return response(v, 200, doc(v, envelope(message_id(v, request), b)))

    w, s = connect(v, answer, **kw)
    if conf == "all":
        v.need(w, "max_envelope_size")
        w.max_envelope_size = v.int("envelope size", 1, None)
    uri = safe(v, "resource uri", nonempty=True)
    needs = op not in ("delete", "enumerate", "get", "pull", "put", "reconnect")
    res = resource(v) if needs or v.choice("resource", [False, True]) else None
    n = v.int("timeout", 1, None) if v.choice("given timeout", [False, True]) else None
    body = call(w, op, uri, res, timeout=n)
    v.check_eq("one request", len(s.sent), 1)
    request, http = s.sent[0]
    h, b, mid = headers(v, w, op, request, uri, n if n is not None else op_t, locale, data_locale)
    if res is None:
        v.check("empty body", len(b) == 0)
    else:
        v.check_eq("one resource", len(b), 1)
        same_tree(v, "the resource unchanged", b[0], res)
    same_tree(v, "the answer's body unchanged", body, answers[0])
    if n is not None:
        v.check_eq("HTTP timeout n+2", http, n + 2)
    else:
        v.check_eq("default HTTP timeouts", http, (30, 30))
    v.check_eq("no options or selectors", [c.tag for c in h if c.tag.endswith("Set")], [])
    v.check_eq("content type", request.headers["Content-Type"], "application/soap+xml;charset=UTF-8")
    # the next request: its own id and, again, the configured timeouts
    call(w, op, uri, res)
    v.check_eq("one request per operation", len(s.sent), 2)
    request, http = s.sent[1]
    _, _, mid2 = headers(v, w, op, request, uri, op_t, locale, data_locale)
    v.check("a fresh message id", mid2 != mid)
    v.check_eq("the timeout was for one request only", http, (30, 30))
    v.check_eq("and for the session defaults too", (w.operation_timeout, w.transport.connection_timeout, w.transport.read_timeout), (op_t, 30, 30))


@contract("C15", funcs=FUNCS + SETF, runs=120, bounded="at most 2 options and 2 selectors (the step contract covers any number)")
def options(v):
    """options and selectors, in order, with their attributes"""
    WS = v.mod(W)
    op = v.choice("operation", ["create", "delete"] if v.symbolic else sorted(ACTIONS))
    w, s = connect(v, lambda k, request, t: response(v, 200, doc(v, envelope(message_id(v, request)))))
    oi = si = o = sel = None
    no = v.choice("options", [None, 0, 1, 2])
    ns = v.choice("selectors", [None, 0, 1, 2] if no in (None, 2) else [1])
    if no is not None:
        oi = []
        o = fill(v, WS.OptionSet(), "option", no, oi)
    if ns is not None:
        si = []
        sel = fill(v, WS.SelectorSet(), "selector", ns, si)
    res = ET.Element("{%s}Thing" % RSP)
    for k in range(2):  # the same sets can be used again
        call(w, op, "uri", res, o, sel)
        h, _, _ = headers(v, w, op, s.sent[k][0], "uri", 20, "en-US", "en-US")
        check_set(v, h, "OptionSet", "Option", oi, "true")
        check_set(v, h, "SelectorSet", "Selector", si, None)


@contract("C15", funcs=["wsman._WSManSet.pack"], runs=1)
def option_step(v):
    """any number of options: each step adds exactly its own entry after those
    already there"""
    if v.unrolled or not v.symbolic:
        return
    import z3
    from pyvc.values import Seg, SList, SStr, SSort, ISort, _z, zi

    WS = v.mod(W)
    s = v.choice("set", [WS.OptionSet, WS.SelectorSet])()
    N = z3.Function("name", ISort, SSort)
    X = z3.Function("value", ISort, SSort)
    A = z3.Function("attribute", ISort, SSort)
    attrs = v.choice("attributes", [(), ("{urn:a}K",), ("{urn:a}K", "b")])
    n = v.int("n", 0, None)
    v.need(s, "values")
    item = lambda i: (SStr(N(_z(zi(i)))), SStr(X(_z(zi(i)))), {a: SStr(A(_z(zi(i)))) for a in attrs})
    s.values = SList([Seg(_z(zi(n)), item)])
    box = {}

    def element(L):
        l = [x for x in L.values() if isinstance(x, ET.Element)]
        v.internal(len(set(map(id, l))) == 1, "one element under construction")
        return l[0]

    def havoc(v, j, L0, seq):
        e = element(L0)
        v.check("starts empty", len(e) == 0)
        ET.SubElement(e, "earlier")
        return {}

    def inv(v, j, L, L0, seq):
        return []

    def step(v, j, x, L, L1):
        e = element(L1)
        v.check("the earlier entries stay, one is added", [c.tag for c in e] == ["earlier", "{%s}%s" % (WSM, s.child_element_name)])
        k, t, at = item(j)
        same_text(v, "its value", e[1].text, t)
        v.check_eq("its name", e[1].attrib.get("Name"), k)
        v.check("its attributes", set(e[1].attrib) == {"Name"} | set(at))
        for a in at:
            v.check_eq("its attributes", e[1].attrib[a], at[a])

    v.loop("pypsrp.wsman._WSManSet.pack", 1, whole=True, havoc=havoc, inv=inv, step=step)
    s.pack()


@contract("C15", funcs=FUNCS, runs=150)
def relates(v):
    """an answer for another message, or for none, is an error; it is never
    returned, and the next operation is not disturbed"""
    X = v.mod("pypsrp.exceptions")
    op = v.choice("operation", sorted(ACTIONS))
    how = v.choice("relates to", ["other", "none", "own"])
    other = safe(v, "related id", pool=["uuid:11111111-1111-1111-1111-111111111111", "", "uuid:"])
    sent = []

    def answer(k, request, timeout):
        mid = message_id(v, request)
        sent.append(mid)
        b = ET.Element("{%s}Body" % S)
        ET.SubElement(b, "answer").text = "number %d" % k
        r = mid if k or how == "own" else {"other": other, "none": None}[how]
        return response(v, 200, doc(v, envelope(r, b)))

    w, s = connect(v, answer)
    res = ET.Element("{%s}Thing" % RSP)
    box = []
    err = v.raises(X.WinRMError, lambda: box.append(call(w, op, "uri", res)))
    match = how == "own" or (how == "other" and v.truth(other == sent[0]))
    v.check("accepted exactly when it relates to the request", (err is None) == match)
    v.check("sent once", len(s.sent) == 1)
    v.check_eq("the next operation is answered", call(w, op, "uri", res)[0].text, "number 1")


@contract("C15", funcs=["wsman.WSMan.invoke"], runs=40)
def stale(v):
    """an answer to the previous request is not accepted for this one"""
    X = v.mod("pypsrp.exceptions")
    op = v.choice("operation", sorted(ACTIONS))
    mids = []

    def answer(k, request, timeout):
        mids.append(message_id(v, request))
        return response(v, 200, doc(v, envelope(mids[0])))

    w, s = connect(v, answer)
    res = ET.Element("{%s}Thing" % RSP)
    call(w, op, "uri", res)
    v.check("rejected", v.raises(X.WinRMError, lambda: call(w, op, "uri", res)) is not None)


@contract("C15", funcs=["wsman.WSMan.__init__"], runs=20, bounded="concrete; session ids of several clients")
def sessions(v):
    """every client has a session id of its own, the same for all its requests"""
    ids = []
    for c in range(3):
        w, s = connect(v, lambda k, request, t: response(v, 200, doc(v, envelope(message_id(v, request)))))
        for op in ("get", "delete"):
            call(w, op, "uri", None)
        got = {tree(v, r.data).find("{%s}Header/{%s}SessionId" % (S, WSMV)).text for r, _ in s.sent}
        v.check("one id per client", len(got) == 1 and all(re.fullmatch(UUID_RE, i) for i in got))
        ids += got
    v.check("different clients, different ids", len(set(ids)) == 3)


@contract("C15", funcs=["wsman._TransportHTTP.__init__", "wsman._TransportHTTP._create_endpoint", "wsman.WSMan.__init__", "wsman.WSMan._create_header", "wsman.WSMan.invoke"], runs=200)
def endpoint(v):
    """requests go to, and name, the server, port and path of the client"""
    host = v.choice("server", ["server", "a.example.com", "10.0.0.1", "::1", "fe80::00a1:2", "2001:DB8:0:0:8:800:200C:417A"])
    kw, where = {}, "http" if v.choice("ssl", [True, False]) is False else "https"
    if where == "http":
        kw.update(ssl=False, encryption="never")
    elif v.choice("ssl given", [False, True]):
        kw["ssl"] = True
    port = v.choice("port", [None, 5985, 5986, 443, 8443, 1])
    if port is not None:
        kw["port"] = port
    path = v.choice("path", [None, "wsman", "other/path", "WSMan"])
    if path is not None:
        kw["path"] = path
    w = v.mod(W).WSMan(host, username="u", password="p", auth="basic", **kw)
    s = Session(v, lambda k, request, t: response(v, 200, doc(v, envelope(message_id(v, request)))))
    v.need(w, "transport").session = s
    w.get("uri")
    request = s.sent[0][0]
    url = urllib.parse.urlsplit(request.url)
    v.check_eq("over the protocol asked for", url.scheme, where)
    same = url.hostname == host.lower()
    if ":" in host:
        same = ipaddress.ip_address(url.hostname) == ipaddress.ip_address(host) and "[" in request.url
    v.check("to the server", same)
    v.check_eq("at its port", url.port, port if port is not None else 5986 if where == "https" else 5985)
    v.check_eq("with its path", url.path, "/" + (path or "wsman"))
    v.check_eq("as the header says", tree(v, request.data).find("{%s}Header/{%s}To" % (S, WSA)).text, request.url)
    v.check_eq("with a body", request.method, "POST")
