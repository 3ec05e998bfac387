"""The HTTP boundary: a session that records the requests handed to it and
answers from a script.  Assumed of requests: Session.send returns a response
with the status, headers and content of the answer, or raises;
raise_for_status raises HTTPError exactly for the statuses 400 to 599."""
import xml.etree.ElementTree as ET

import requests

from .lib import RSP, S, WSA, WSM

WSMV = "http://schemas.microsoft.com/wbem/wsman/1/wsman.xsd"
XMLNS = "http://www.w3.org/XML/1998/namespace"
FAULT = "http://schemas.microsoft.com/wbem/wsman/1/wsmanfault"
W = "pypsrp.wsman"
UUID_RE = "uuid:[0-9A-F]{8}(-[0-9A-F]{4}){3}-[0-9A-F]{12}"


def safe(v, name, pool=None, nonempty=False):
    """a text that XML can carry unchanged"""
    s = v.str(name, pool=pool, nonempty=nonempty)
    if v.symbolic:
        return s
    s = "".join(c for c in s if c in "\t\n" or 0x20 <= ord(c) <= 0xD7FF or 0xE000 <= ord(c) <= 0xFFFD or ord(c) >= 0x10000)
    return s or ("a" if nonempty else "")


def is_sym(x):
    return type(x).__module__.startswith("pyvc.")


def tree(v, data):
    """the document a server reads"""
    if is_sym(data):
        return v.mod("pyvc.models").et_fromstring(data)
    return ET.fromstring(data)


def doc(v, el):
    """the bytes of a document"""
    if v.symbolic:
        return v.mod("pyvc.models").et_tostring(el, encoding="utf-8")
    return ET.tostring(el, encoding="utf-8")


def text_of(v, data):
    if is_sym(data):
        return v.mod("pyvc.models").bytes_decode(data, "utf-8")
    return data.decode("utf-8")


def same_text(v, name, got, want):
    """element texts: an absent one is an empty one"""
    v.check_eq(name, "" if got is None else got, "" if want is None else want)


def same_tree(v, name, a, b):
    if a is None or a.tag != b.tag or set(a.attrib) != set(b.attrib) or len(a) != len(b):
        v.check(name, False)
        return
    for k in a.attrib:
        v.check_eq(name, a.attrib[k], b.attrib[k])
    same_text(v, name, a.text, b.text)
    for x, y in zip(a, b):
        same_tree(v, name, x, y)


class Response:
    """requests.Response"""

    def __init__(self, v, status, content=b"", ctype="application/soap+xml;charset=UTF-8", text=None):
        self.v, self.status_code, self.content = v, status, content
        self.headers = requests.structures.CaseInsensitiveDict({"content-type": ctype} if ctype is not None else {})
        self._text = text
        self.encoding, self.reason, self.url, self.request = "utf-8", "", "", None

    @property
    def ok(self):
        return not self.v.truth(self.v.and_(400 <= self.status_code, self.status_code < 600))

    @property
    def text(self):
        return self._text if self._text is not None else text_of(self.v, self.content)

    def raise_for_status(self):
        if not self.ok:
            raise requests.HTTPError("status", response=self)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        self.__dict__["v"].internal(False, "requests.Response.%s" % name)


def response(v, status, content=b"", ctype="application/soap+xml;charset=UTF-8", text=None):
    if v.symbolic:
        return Response(v, status, content, ctype, text)
    r = requests.Response()
    r.status_code = status
    r._content = content
    if ctype is not None:
        r.headers["content-type"] = ctype
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
    return r


class Session:
    def __init__(self, v, answer, auth=None):
        self.__dict__.update(v=v, answer=answer, auth=auth, sent=[], closed=0)
        self.headers = requests.structures.CaseInsensitiveDict({"User-Agent": "x", "Accept-Encoding": "identity"})

    def prepare_request(self, request):
        return request

    def send(self, request, timeout=None, **kw):
        self.sent.append((request, timeout))
        r = self.answer(len(self.sent) - 1, request, timeout)
        if isinstance(r, BaseException):
            raise r
        return r

    def close(self):
        self.closed += 1

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.__dict__["v"].internal(False, "requests.Session.%s" % name)


def connect(v, answer, auth=None, **kw):
    """a WSMan whose session is ours"""
    kw.setdefault("username", "u")
    kw.setdefault("password", "p")
    kw.setdefault("auth", "basic")
    w = v.mod(W).WSMan("server", **kw)
    s = Session(v, answer, auth)
    v.need(w, "transport").session = s
    return w, s


def envelope(relates=None, body=None):
    """an answer of the server"""
    e = ET.Element("{%s}Envelope" % S)
    h = ET.SubElement(e, "{%s}Header" % S)
    ET.SubElement(h, "{%s}MessageID" % WSA).text = "uuid:11111111-1111-1111-1111-111111111111"
    if relates is not None:
        ET.SubElement(h, "{%s}RelatesTo" % WSA).text = relates
    e.append(body if body is not None else ET.Element("{%s}Body" % S))
    return e


def message_id(v, request):
    """the MessageID of a request"""
    t = tree(v, request.data)
    return t.find("{%s}Header/{%s}MessageID" % (S, WSA)).text


def contains(v, s, part):
    if is_sym(s) or is_sym(part):
        import z3
        from pyvc.values import SStr, mkbool

        return mkbool(z3.Contains(SStr.z(s), SStr.z(part)))
    return part in s
