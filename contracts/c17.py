"""Message encryption: never skipped, never with a stale context."""
import types

import requests

from pyvc.harness import contract

from . import c20  # noqa: F401  (its exchange: the newest context is the one kept)
from .http import *

R = requests.exceptions
AUTHS = ["basic", "certificate", "credssp", "kerberos", "negotiate", "ntlm"]
CAN_WRAP = {"credssp", "kerberos", "negotiate", "ntlm"}
PROTOCOL = {
    "credssp": "application/HTTP-CredSSP-session-encrypted",
    "kerberos": "application/HTTP-Kerberos-session-encrypted",
    "negotiate": "application/HTTP-SPNEGO-session-encrypted",
    "ntlm": "application/HTTP-SPNEGO-session-encrypted",
}
FUNCS = ["wsman._TransportHTTP.__init__", "wsman._TransportHTTP.send", "wsman._TransportHTTP._send_request"]
TIMEOUTS = [R.ReadTimeout, R.ConnectTimeout]


class Context:
    """a security context: wrapping is recorded, its result is recognisable"""

    def __init__(self, wire, number, scheme):
        self.wire, self.number, self.response_auth_header = wire, number, scheme

    def wrap_winrm(self, data):
        self.wire.made.append((self, None, bytes(data)))
        return b"head", b"<wrapped %d>" % (len(self.wire.made) - 1), 0

    def unwrap_winrm(self, header, data):
        return data


class Wire:
    """the session and its server: an empty request establishes a new context"""

    def __init__(self, v, auth, outcomes, scheme=None):
        self.v, self.auth_name, self.outcomes = v, auth, outcomes
        self.made = []  # (context, protocol, text) of each wrapping
        self.empty = self.messages = 0
        self.valid = None  # the context messages have to be wrapped with
        self.number = 0
        self.scheme = scheme
        self.errors = []
        self.log = []
        if v.symbolic:
            E = v.mod("pypsrp.encryption").WinRMEncryption

            def wrap(enc, message):
                self.made.append((enc.context, enc.protocol, message))
                return v.choice("kind", ["multipart/encrypted", "multipart/x-multi-encrypted"]), b"<wrapped %d>" % (len(self.made) - 1)

            v.contract("pypsrp.encryption.WinRMEncryption.wrap_message", wrap)

    def holder(self):
        if self.auth_name == "credssp":
            C = self.v.mod(W).HttpCredSSPAuth
            a = C.__new__(C)
        else:
            a = types.SimpleNamespace()
        a.contexts = {}
        return a

    def answer(self, k, request, timeout):
        v = self.v
        empty = request.data is None or (not is_sym(request.data) and not request.data)
        out = self.last = self.outcomes(k, empty)
        if empty:
            self.log.append("empty")
            self.empty += 1
            if out is None:
                self.number += 1
                scheme = {"credssp": "credssp", "kerberos": "kerberos", "ntlm": "ntlm"}.get(self.auth_name) or self.scheme or "negotiate"
                ctx = Context(self, self.number, scheme)
                # the context of another host (after a redirection, say) is not the one to use
                self.session.auth.contexts = {"other." + self.host: Context(self, -1, scheme), self.host: ctx}
                self.valid = ctx
                return response(v, 200, b"", None)
            if isinstance(out, tuple(TIMEOUTS)):
                self.valid = None
            return out
        self.log.append("message")
        self.messages += 1
        self.inspect(request)
        if isinstance(out, tuple(TIMEOUTS)):
            self.valid = None
        return out if out is not None else response(v, 200, b"<answer %d/>" % k)

    def inspect(self, request):
        v = self.v
        v.check("a context was established since the last timeout", self.valid is not None)
        if is_sym(request.data):
            v.check("the message leaves wrapped", False)
            return
        parts = [i for i in range(len(self.made)) if b"<wrapped %d>" % i in request.data]
        v.check("the message leaves wrapped", len(parts) > 0 and (not v.symbolic or request.data == b"<wrapped %d>" % parts[0]))
        v.check("all its parts are of this attempt", parts == list(range(self.seen, len(self.made))))
        self.seen = len(self.made)
        v.check("wrapped by the newest context", all(self.made[i][0] is self.valid for i in parts))
        if v.symbolic:
            v.check_eq("the wrapped text is the message", self.made[parts[0]][2], self.message)
        else:
            v.check_eq("the wrapped text is the message", b"".join(self.made[i][2] for i in parts), self.message)
            v.check("no part of the message leaves in the clear", self.message not in request.data)
        want = PROTOCOL["kerberos" if self.auth_name == "negotiate" and self.scheme == "kerberos" else self.auth_name]
        for i in parts:
            if self.made[i][1] is not None:
                v.check_eq("wrapped with the protocol of the authentication", self.made[i][1], want)
        if not v.symbolic:
            v.check("the parts are labelled with it", request.data.count(b"Content-Type: " + want.encode()) == len(parts))
        ct = request.headers["Content-Type"]
        v.check("content type", ct in ['%s;protocol="%s";boundary="Encrypted Boundary"' % (k, want) for k in ("multipart/encrypted", "multipart/x-multi-encrypted")])
        v.check_eq("content length", request.headers["Content-Length"], str(len(request.data)))

    seen = 0


def make(v, auth, outcomes, scheme=None, **kw):
    if auth == "certificate":
        kw.update(certificate_pem="c", certificate_key_pem="k")
    wire = Wire(v, auth, outcomes, scheme)
    wire.host = kw.pop("server", "server")
    v.patch(v.mod("time"), "sleep", lambda s: None)
    w = v.mod(W).WSMan(wire.host, username="u", password="p", auth=auth, **kw)
    s = Session(v, wire.answer, wire.holder() if auth not in ("basic", "certificate") else None)
    v.need(w, "transport").session = s
    wire.session = s
    return w.transport, s, wire


def message(v):
    m = v.bytes("message", lo=1, cmax=400)
    if not v.symbolic and v.choice("large", [False, False, True]):
        m = m * (40000 // len(m))
    return b"<message>" + m if not v.symbolic else m


@contract("C17", funcs=FUNCS, runs=200)
def policy(v):
    """every combination of scheme, authentication and policy"""
    ssl = v.choice("ssl", [True, False])
    auth = v.choice("auth", AUTHS)
    enc = v.choice("encryption", [None, "auto", "always", "never"])
    kw = {"ssl": ssl, "server": v.choice("server", ["server", "localhost"] if v.symbolic else ["server", "localhost", "127.0.0.1", "10.0.0.1", "server.domain.test", "outlook.office365.com"])}
    if not v.symbolic:
        for k, l in (("port", [80, 443, 5985, 5986, 1234]), ("path", ["wsman", "powershell", ""]), ("proxy", ["http://proxy:8080"]), ("cert_validation", [False, True])):
            if v.choice(k + " given", [False, True]):
                kw[k] = v.choice(k, l)
    if enc is not None:
        kw["encryption"] = enc
    must = enc == "always" or (enc in (None, "auto") and not ssl)
    box = []
    scheme = v.choice("negotiated", ["kerberos", "ntlm"]) if auth == "negotiate" else None
    err = v.raises(ValueError, lambda: box.append(make(v, auth, lambda k, empty: None, scheme, **kw)))
    v.check("refused exactly when it cannot be wrapped", (err is not None) == (must and auth not in CAN_WRAP))
    if err is not None:
        return
    t, s, wire = box[0]
    wire.message = m = message(v)
    for k in range(2):
        if must:
            v.check_eq("the answer", t.send(m), b"<answer %d/>" % (k + 1))
        else:
            wire.inspect = lambda request: None
            v.check_eq("the answer", t.send(m), b"<answer %d/>" % k)
    if must:
        v.check("an empty request before the first message only", wire.log == ["empty", "message", "message"])
    else:
        v.check("nothing but the messages", wire.log == ["message", "message"])
        for q, _ in s.sent:
            v.check_eq("sent unchanged", q.data, m)
            v.check_eq("as plain SOAP", q.headers["Content-Type"], "application/soap+xml;charset=UTF-8")


@contract("C17", funcs=FUNCS, runs=40, sym=False)
def unknown(v):
    """unknown policies and authentications are refused"""
    ssl = v.choice("ssl", [True, False])
    if v.choice("which", ["policy", "auth"]) == "policy":
        enc = v.choice("encryption", ["Auto", "AUTO", "", "none", "off", "true", "Never", "always "])
        auth = v.choice("auth", AUTHS)
        err = v.raises(ValueError, lambda: make(v, auth, lambda k, empty: None, ssl=ssl, encryption=enc))
    else:
        auth = v.choice("auth", ["", "Basic", "digest", "NTLM", "anonymous"])
        enc = v.choice("encryption", ["auto", "always", "never"])
        err = v.raises(ValueError, lambda: make(v, auth, lambda k, empty: None, ssl=ssl, encryption=enc))
    v.check("refused", err is not None)


def outcome(v, k, short=False):
    o = v.choice("outcome", ["ok", "read timeout", "connect timeout", "other"] if not short else ["ok", "read timeout", "other"])
    return {"ok": lambda: None, "read timeout": lambda: R.ReadTimeout("t"), "connect timeout": lambda: R.ConnectTimeout("t"), "other": lambda: R.ConnectionError("x") if k % 2 else response(v, 500, b"bad", "text/plain")}[o]()


@contract("C17", funcs=FUNCS, runs=500, max_paths=16000, bounded="two operations with at most 1 retry each symbolically; up to 4 with 3 retries concretely")
def histories(v):
    """every history of timeouts, failures and answers"""
    auth = v.choice("auth", ["credssp", "kerberos", "negotiate"] if v.symbolic else sorted(CAN_WRAP))
    scheme = v.choice("negotiated", ["kerberos", "ntlm"]) if auth == "negotiate" else None
    kw = {"ssl": False} if v.symbolic or v.choice("ssl", [False, True]) is False else {"ssl": True, "encryption": "always"}
    X = v.mod("pypsrp.exceptions")
    t, s, wire = make(v, auth, lambda k, empty: outcome(v, k, v.symbolic), scheme, **kw)
    for i in range(2 if v.symbolic else v.choice("operations", [1, 2, 3, 4])):
        wire.message = m = message(v)
        n = v.choice("retries", [0, 1] if v.symbolic else [0, 1, 3])
        wire.last = "nothing"
        e = v.raises(Exception, lambda: t.send(m, retries_on_read_timeout=n))
        if wire.last is None:
            v.check("an answered message succeeds", e is None)
        elif isinstance(wire.last, Exception):
            v.check("fails only as the last request did", e is wire.last)
        else:
            v.check("fails only by its answer", isinstance(e, X.WinRMTransportError))
    v.check("every operation was tried", wire.empty >= 1)


@contract("C17", funcs=FUNCS, runs=1, conc=False)
def any_history(v):
    """from any state a history can lead to (no context, or the newest one),
    any number of attempts: the next attempt is wrapped by the newest context,
    and such a state is left behind"""
    if v.unrolled:
        return
    auth = v.choice("auth", sorted(CAN_WRAP))
    scheme = v.choice("negotiated", ["kerberos", "ntlm"]) if auth == "negotiate" else "kerberos" if auth == "kerberos" else None
    t, s, wire = make(v, auth, lambda k, empty: outcome(v, k), scheme, ssl=False)
    want = PROTOCOL["kerberos" if scheme == "kerberos" else auth]
    E = v.mod("pypsrp.encryption").WinRMEncryption
    v.need(t, "encryption")

    def state():
        """any reachable state"""
        if v.choice("state", ["none", "established"]) == "none":
            t.encryption, wire.valid = None, None
        else:
            wire.number += 1
            ctx = Context(wire, wire.number, scheme or "negotiate")
            s.auth.contexts = {"server": ctx}
            wire.valid = ctx
            t.encryption = E(ctx, want)

    def good():
        e = t.encryption
        return e is None or (wire.valid is not None and e.context is wire.valid and e.protocol == want)

    state()
    wire.message = m = message(v)
    n = v.int("retries", 0, None)

    def havoc(v, L0):
        state()
        a = v.int("attempts so far", 0, None)
        return {"attempt": a}

    v.loop("pypsrp.wsman._TransportHTTP.send", ("while", 1), havoc=havoc, inv=lambda v, L, L0: [("no stale context", good()), ("attempts", L["attempt"] >= 0)], heap=lambda L0: [...])
    v.raises(Exception, lambda: t.send(m, retries_on_read_timeout=n))
    v.check("no stale context is left behind", good())
