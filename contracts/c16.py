"""Server faults and failed HTTP answers."""
from pyvc.harness import contract

from .http import *

OPS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]
FUNCS = ["wsman.WSMan.invoke", "wsman.WSMan._parse_wsman_fault", "wsman._TransportHTTP._send_request", "wsman._TransportHTTP.send"] + ["wsman.WSMan." + a for a in OPS]
FS = "{%s}" % S
FF = "{%s}" % FAULT


def call(w, op):
    return getattr(w, op)("http://resource", ET.Element("{%s}Thing" % RSP))


def stripped(v, x):
    """the text without its surrounding white space, None when nothing is left"""
    if x is None:
        return None
    return x.strip() if v.truth(x.strip() != "") else None


def present(v, what):
    return v.choice(what, [False, True])


def number(v, text):
    """codes: a whole decimal number is read as such"""
    try:
        return int(text or "")
    except ValueError:
        return text


CODE_TEXTS = ["2150858793", "0", "-5", "4294967295", "18446744073709551616", "s:Sender", "w:SchemaValidationError", "", "0x80338029", "1.5", "2150858793.0", "two"]


def code_text(v, name):
    """a code as the server writes it, and as it has to be read"""
    if v.symbolic and v.choice(name + " is", ["number", "text"]) == "number":
        n = v.int(name)
        return v.mod("pyvc.models").m_str(n), n
    if not v.symbolic and v.choice(name + " is", ["number", "text"]) == "number":
        n = v.int(name)
        return str(n), n
    t = v.choice(name + " text", ["s:Sender", "", "1.5"] if v.symbolic else CODE_TEXTS)
    return t, number(v, t) if t else t


def same_code(v, got, want):
    if want == "" or want is None:
        v.check("no code when the fault has none", got is None or got == "")
    else:
        v.check("the fault's code", type(got) is type(want) or isinstance(got, int) == isinstance(want, int))
        v.check_eq("the fault's code", got, want)


def fault_body(v, soap, wsm):
    """a SOAP fault and what the error must carry"""
    want = dict(code=None, machine=None, reason=None, provider=None, provider_path=None, provider_fault=None)
    b = ET.Element(FS + "Body")
    f = ET.SubElement(b, FS + "Fault")
    if soap != "nothing":
        c = ET.SubElement(f, FS + "Code")
        if soap in ("code", "code and subcode"):
            t, want["code"] = code_text(v, "code")
            ET.SubElement(c, FS + "Value").text = t
        if soap in ("subcode", "code and subcode"):
            t, want["code"] = code_text(v, "subcode")
            ET.SubElement(ET.SubElement(c, FS + "Subcode"), FS + "Value").text = t
    if present(v, "reason"):
        t = safe(v, "reason text", pool=[" a reason \n", "  ", ""])
        ET.SubElement(ET.SubElement(f, FS + "Reason"), FS + "Text").text = t
        want["reason"] = stripped(v, t)
    if wsm == "no detail":
        return b, want
    d = ET.SubElement(f, FS + "Detail")
    if wsm == "other detail":
        ET.SubElement(d, "{urn:x}Thing", Code="5", Machine="m").text = "other"
        return b, want
    wf = ET.SubElement(d, FF + "WSManFault")
    if (wsm == "no message" or not v.symbolic) and present(v, "fault code"):
        t, want["code"] = code_text(v, "WSManFault code")
        wf.attrib["Code"] = t
    if present(v, "machine"):
        wf.attrib["Machine"] = want["machine"] = safe(v, "machine name")
    if wsm == "no message":
        return b, want
    m = ET.SubElement(wf, FF + "Message")
    if wsm in ("message", "message and provider"):
        m.text = safe(v, "message", pool=["text", " \n ", " x "])
        r = stripped(v, m.text)
        if r is not None:
            want["reason"] = r
    if wsm in ("provider", "message and provider"):
        p = ET.SubElement(m, FF + "ProviderFault")
        how = v.choice("provider", ["bare", "named", "placed", "text", "nested"])
        if how != "bare":
            p.attrib["provider"] = want["provider"] = safe(v, "provider name")
        if how not in ("bare", "named"):
            p.attrib["path"] = want["provider_path"] = safe(v, "provider path")
        if how == "text":
            p.text = safe(v, "provider fault", pool=[" ", "x", " provider text "])
            want["provider_fault"] = stripped(v, p.text)
        if how == "nested":
            i = ET.SubElement(ET.SubElement(p, FF + "WSManFault", Code="7", Machine="inner"), FF + "Message")
            i.text = safe(v, "nested text")
            want["provider_fault"] = stripped(v, i.text)
    return b, want


def check_error(v, err, want):
    v.check("a WSMan fault error", type(err).__name__ == "WSManFaultError")
    same_code(v, err.code, want["code"])
    for k in ("machine", "reason", "provider", "provider_path", "provider_fault"):
        if want[k] is None:
            v.check("no %s when the fault has none" % k, getattr(err, k) is None or v.truth(getattr(err, k) == ""))
        else:
            v.check_eq("the fault's %s" % k, getattr(err, k), want[k])


DETAIL = ["no detail", "other detail", "no message", "empty message", "message", "provider", "message and provider"]


@contract("C16", funcs=FUNCS, runs=400)
def faults(v):
    """every combination of fields: each reaches the error as the server wrote
    it, whatever the HTTP status"""
    X = v.mod("pypsrp.exceptions")
    soap = v.choice("soap code", ["nothing", "code", "subcode", "code and subcode"])
    # the codes do not depend on the texts: their combinations run concretely
    wsm = v.choice("detail", DETAIL if not v.symbolic or soap == "nothing" else ["no detail", "no message"])
    b, want = fault_body(v, soap, wsm)
    status = v.int("status", 400, 599)
    v.assume(status != 401)
    w, s = connect(v, lambda k, request, t: response(v, status, doc(v, envelope("uuid:any", b))))
    op = "get" if v.symbolic else v.choice("operation", OPS)
    err = v.raises(X.WSManFaultError, lambda: call(w, op))
    v.check("raised", err is not None)
    check_error(v, err, want)
    v.check("asked once", len(s.sent) == 1)


@contract("C16", funcs=FUNCS, runs=150)
def operations(v):
    """every operation raises the fault, in a failed and in a successful answer"""
    X = v.mod("pypsrp.exceptions")
    op = v.choice("operation", OPS)
    status = v.int("status", 400, 599) if v.choice("failed", [True, False]) else 200
    v.assume(status != 401)
    n = v.int("code")
    b = ET.Element(FS + "Body")
    f = ET.SubElement(b, FS + "Fault")
    shape = v.choice("shape", ["WSMan fault", "SOAP fault without details", "other details", "empty"])
    want = dict(code=None, machine=None, reason=None, provider=None, provider_path=None, provider_fault=None)
    text = v.mod("pyvc.models").m_str(n) if is_sym(n) else str(n)
    if shape == "WSMan fault":
        wf = ET.SubElement(ET.SubElement(f, FS + "Detail"), FF + "WSManFault", Code=text, Machine=safe(v, "machine"))
        ET.SubElement(wf, FF + "Message").text = t = safe(v, "message", nonempty=True)
        want.update(code=n, machine=wf.attrib["Machine"], reason=stripped(v, t))
    elif shape != "empty":
        ET.SubElement(ET.SubElement(f, FS + "Code"), FS + "Value").text = text
        t = safe(v, "reason", nonempty=True)
        ET.SubElement(ET.SubElement(f, FS + "Reason"), FS + "Text").text = t
        want.update(code=n, reason=stripped(v, t))
        if shape == "other details":
            ET.SubElement(ET.SubElement(f, FS + "Detail"), "{urn:x}Thing").text = "x"
    w, s = connect(v, lambda k, request, tm: response(v, status, doc(v, envelope(message_id(v, request), b))))
    box = []
    err = v.raises(X.WSManFaultError, lambda: box.append(call(w, op)))
    v.check("raised, never returned", err is not None and not box)
    check_error(v, err, want)


@contract("C16", funcs=FUNCS, runs=200)
def transport(v):
    """a failed answer without a SOAP fault: its status and text; 401: an
    authentication error whatever it says"""
    X = v.mod("pypsrp.exceptions")
    status = v.int("status", 400, 599)
    kind = v.choice("body", ["empty", "not XML", "other XML", "an envelope without a fault", "a fault elsewhere", "a fault"])
    if kind == "a fault":
        v.assume(status == 401)
    t = None
    if kind == "not XML":
        t = v.choice("text", ["Service Unavailable", "<html><body>Bad</p>", "{}", "<a>", "&", " \r\n padded\n"])
        content, ctype = t.encode(), "text/html;charset=utf-8"
    elif kind == "empty":
        content, ctype = b"", v.choice("type", ["text/plain", None])
    else:
        if kind == "other XML":
            e = ET.Element("html")
            ET.SubElement(e, "p").text = safe(v, "text", nonempty=True)
        elif kind == "a fault elsewhere":
            e = ET.Element("{%s}Envelope" % S)
            ET.SubElement(ET.SubElement(e, FS + "Header"), FS + "Fault").text = safe(v, "text", nonempty=True)
        else:
            b = ET.Element(FS + "Body")
            ET.SubElement(b, FS + "Fault" if kind == "a fault" else "{urn:x}Fault").text = safe(v, "text", nonempty=True)
            e = envelope("uuid:any", b)
        content, ctype = doc(v, e), "application/soap+xml;charset=UTF-8"
    w, s = connect(v, lambda k, request, tm: response(v, status, content, ctype))
    op = v.choice("operation", ["get", "receive"] if v.symbolic else OPS)
    box = []
    err = v.raises(X.WinRMError, lambda: box.append(call(w, op)))
    v.check("never a success", err is not None and not box)
    if v.truth(status == 401):
        v.check("an authentication error", type(err) is X.AuthenticationError)
        return
    v.check("a transport error", type(err) is X.WinRMTransportError)
    v.check_eq("its status", err.code, status)
    v.check_eq("its protocol", err.protocol, "http")
    got = err.response_text
    if is_sym(content):
        v.check("its text", tree(v, got) is not None)
        same_tree(v, "its text", tree(v, got), tree(v, content))
    else:
        v.check_eq("its text", got, text_of(v, content))
    v.check("asked once", len(s.sent) == 1)


@contract("C16", funcs=["exceptions.WSManFaultError.*", "exceptions.WinRMTransportError.*"], runs=200)
def messages(v):
    """the text of the error shows what it carries"""
    X = v.mod("pypsrp.exceptions")
    names = ["code", "machine", "reason", "provider", "provider_path", "provider_fault"]
    have = [n for n in names if v.choice(n + " is there", [True, False])]
    val = {k: (v.int("code", 1) if k == "code" else safe(v, k, nonempty=True)) if k in have else None for k in names}
    e = X.WSManFaultError(*[val[k] for k in names])
    for k in names:
        v.check("the %s" % k, getattr(e, k) is val[k])
    m = e.__str__() if v.choice("read", ["as text", "message"]) == "as text" else e.message
    for k in have:
        t = val[k] if k != "code" else (v.mod("pyvc.models").m_str(val[k]) if is_sym(val[k]) else str(val[k]))
        v.check("%s is shown" % k, contains(v, m, t))
