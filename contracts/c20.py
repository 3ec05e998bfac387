"""Authentication: which scheme, with which arguments, bound to which
certificate.  Assumed of spnego: client(...) opens a context for the protocol
it is given and step() gives the next token; of cryptography: a certificate
tells its hash algorithm and Hash/fingerprint compute that hash."""
import base64
import datetime
import hashlib
import types
import warnings

import requests

from pyvc.harness import contract

from .http import *

ORDER = ["Negotiate", "Kerberos", "NTLM"]
PROVIDERS = ["negotiate", "kerberos", "ntlm"]
URL = "https://server:5986/wsman"
HOOK = ["negotiate.HTTPNegotiateAuth.response_hook", "negotiate.HTTPNegotiateAuth.handle_401", "negotiate.HTTPNegotiateAuth._check_auth_supported", "negotiate.HTTPNegotiateAuth._set_auth_token", "negotiate.HTTPNegotiateAuth._get_auth_token"]
BUILD = ["wsman._TransportHTTP._build_session", "wsman._TransportHTTP._get_auth_kwargs"] + ["wsman._TransportHTTP._build_auth_" + a for a in ("basic", "certificate", "credssp", "kerberos", "negotiate", "ntlm")]


class Context:
    """a security context: the tokens it gives, and when it is complete"""

    def __init__(self, v, outs, done):
        self.outs, self.done, self.got = list(outs), done, []
        self.complete = done == 0

    def step(self, in_token=None):
        self.got.append(in_token)
        k = len(self.got)
        self.complete = k >= self.done
        return self.outs[k - 1] if k <= len(self.outs) else None


class Spnego:
    """records what contexts are asked for"""

    NAMES = ["username", "password", "hostname", "service", "channel_bindings", "context_req", "protocol", "options"]

    def __init__(self, v, make=None):
        self.asked, self.made = [], []
        self.make = make or (lambda: Context(v, [], 0))
        v.patch(v.mod("spnego"), "client", self.client)

    def client(self, *a, **k):
        self.asked.append({**dict(zip(self.NAMES, a)), **k})
        self.made.append(self.make())
        return self.made[-1]


class Request:
    """requests.PreparedRequest"""

    def __init__(self, v):
        self.v, self.url, self.headers, self.hooks = v, URL, requests.structures.CaseInsensitiveDict(), {}
        self.method, self.body = "POST", b"<request/>"

    def copy(self):
        r = Request(self.v)
        r.headers = self.headers.copy()
        return r

    def register_hook(self, event, hook):
        self.hooks.setdefault(event, []).append(hook)


class Connection:
    """the adapter the answer came from"""

    def __init__(self, v, answers):
        self.v, self.answers, self.sent = v, answers, []

    def send(self, request, **kw):
        self.sent.append((request, kw))
        r = self.answers(len(self.sent) - 1, request)
        r.connection, r.request = self, request
        return r


def challenge(v, header, status=401, raw=None):
    """an answer of the server"""
    h = requests.structures.CaseInsensitiveDict()
    if header is not None:
        h["www-authenticate"] = header
    raw = raw or types.SimpleNamespace(release_conn=lambda: None)
    return types.SimpleNamespace(status_code=status, headers=h, url=URL, content=b"", raw=raw, request=Request(v), connection=None)


def respond(v, auth, response, answers=None, **kw):
    """give the handler an answer as requests does"""
    req = Request(v)
    auth(req)
    v.check("the hook is registered", len(req.hooks.get("response", [])) == 1)
    response.request = req
    conn = response.connection = Connection(v, answers or (lambda k, q: challenge(v, None, 200)))
    out = req.hooks["response"][0](response, **kw)
    return out, conn


# headers a server sends: scheme names with or without parameters
PIECES = ["Negotiate", "Kerberos", "NTLM", 'Basic realm="WSMAN"', "CredSSP"]


def header(v):
    """a list of up to three offers, in any order and case"""
    n = v.choice("offers", [0, 1, 2, 3])
    left, out = list(PIECES), []
    for i in range(n):
        p = v.choice("offer %d" % i, left)
        left.remove(p)
        out.append(p)
    case = v.choice("case", [str, str.lower, str.upper]) if n else str
    if n == 0:
        return None if v.choice("no header", [True, False]) else "", set()
    return case(v.choice("separator", [", ", ","])) .join(case(p) for p in out), {p for p in out}


def wanted(provider, offered):
    """(provider used, scheme announced) or None"""
    if provider == "negotiate":
        for s in ORDER:
            if s in offered:
                return s.lower(), s
        return None
    own = {p.lower(): p for p in ORDER}[provider]
    for s in ("Negotiate", own):
        if s in offered:
            return provider, s
    return None


@contract("C20", funcs=HOOK, runs=300, bounded="headers that offer at most three schemes (the texts of the header are enumerated)")
def scheme(v):
    """the configured provider; when negotiating the strongest offered scheme;
    an authentication error when none is offered"""
    sp = Spnego(v, lambda: Context(v, [b"token"], 1))
    A = v.mod("pypsrp.negotiate").HTTPNegotiateAuth
    X = v.mod("pypsrp.exceptions")
    provider = v.choice("provider", PROVIDERS)
    auth = A("u", "p", auth_provider=provider, send_cbt=False)
    text, offered = header(v)
    box = []
    err = v.raises(Exception, lambda: box.append(respond(v, auth, challenge(v, text))))
    want = wanted(provider, offered)
    if want is None:
        v.check("none acceptable is an authentication error", isinstance(err, X.AuthenticationError))
        v.check("no context is opened", not sp.asked)
        return
    v.check("no error", err is None)
    v.check_eq("one context", len(sp.asked), 1)
    v.check_eq("the provider", sp.asked[0]["protocol"], want[0])
    out, conn = box[0]
    v.check("one request", len(conn.sent) == 1)
    v.check_eq("and its scheme kept for the message encryption", sp.made[0].response_auth_header, want[1].lower())
    v.check("the scheme announced with the token", as_bytes(conn.sent[0][0].headers["Authorization"]).lower() == (want[1] + " ").encode().lower() + base64.b64encode(b"token").lower())


def as_bytes(x):
    return x.encode("ascii") if isinstance(x, str) else x


class HeaderText(str):
    """any header text, known only by which scheme names it contains"""

    def __new__(cls, v, has):
        self = str.__new__(cls, "<any header>")
        self.v, self.has = v, has
        return self

    def upper(self):
        return self

    lower = casefold = upper

    def __contains__(self, name):
        n = name.upper()
        self.v.internal(n in self.has, "search of %r in a header" % (name,))
        return self.v.truth(self.has[n])

    def find(self, name):
        return 0 if name in self else -1

    def _other(self, *a, **k):
        self.v.internal(False, "header text used otherwise")

    split = partition = replace = strip = startswith = endswith = index = __getitem__ = __iter__ = __add__ = encode = _other


@contract("C20", funcs=HOOK, runs=1, conc=False, assumes=["a header contains the name of a scheme only where it offers it"])
def any_header(v):
    """the same for every header text"""
    sp = Spnego(v)
    A = v.mod("pypsrp.negotiate").HTTPNegotiateAuth
    X = v.mod("pypsrp.exceptions")
    provider = v.choice("provider", PROVIDERS)
    auth = A("u", "p", auth_provider=provider, send_cbt=False)
    if v.unrolled:
        return
    has = {s.upper(): v.bool("offers " + s) for s in ORDER}
    err = v.raises(Exception, lambda: respond(v, auth, challenge(v, HeaderText(v, has))))
    want = wanted(provider, {s for s in ORDER if v.truth(has[s.upper()])})
    if want is None:
        v.check("none acceptable is an authentication error", isinstance(err, X.AuthenticationError))
        v.check("no context is opened", not sp.asked)
    else:
        v.check("no error", err is None)
        v.check_eq("the provider", [a["protocol"] for a in sp.asked], [want[0]])


@contract("C20", funcs=["negotiate.HTTPNegotiateAuth.response_hook"], runs=100)
def other_answers(v):
    """only a 401 starts an authentication"""
    sp = Spnego(v)
    A = v.mod("pypsrp.negotiate").HTTPNegotiateAuth
    status = v.int("status", 100, 999)
    v.assume(status != 401)
    r = challenge(v, v.choice("header", [None, "Negotiate", "Basic"]), status)
    out, conn = respond(v, A("u", "p"), r)
    v.check("passed on", out is r and not conn.sent and not sp.asked)


@contract(["C20", "C17"], funcs=HOOK, runs=200, bounded="at most 4 rounds of tokens")
def exchange(v):
    """every token of the context goes to the server under the same scheme and
    every token of the server to the context"""
    n = v.choice("rounds", [1, 2, 3, 4])
    outs = [v.bytes("token %d" % i, cmax=60) for i in range(n)]
    extra = v.choice("a token after the last answer", [False, True]) and n > 1
    done = n if extra else n + 1
    sp = Spnego(v, lambda: Context(v, outs, done))
    A = v.mod("pypsrp.negotiate").HTTPNegotiateAuth
    s = v.choice("scheme", ORDER)
    stop = v.choice("server stops at", [None] + list(range(n)))
    ins = [b"answers %d" % i for i in range(n)]
    resp = []

    def answers(k, q):
        last = k == n - 1
        h = None if stop == k else form % (spelt(s), base64.b64encode(ins[k]).decode())
        resp.append(challenge(v, h, 200 if last else 401))
        return resp[-1]

    auth = A("u", "p", send_cbt=False)
    spelt = v.choice("case of the scheme in answers", [str, str.upper, str.lower])
    form = v.choice("form of answers", ["%s %s", "%s  %s", 'Basic realm="WSMAN", %s %s', '%s %s, Basic realm="WSMAN"'])
    earlier, other = object(), object()
    if v.choice("signed in before", [False, True]):
        auth.contexts.update(server=earlier, other=other)
    kw = {"timeout": (1, 2), "verify": "v", "cert": ("a", "b"), "stream": False, "proxies": {}}
    out, conn = respond(v, auth, challenge(v, s), answers, **kw)
    ctx = sp.made[0]
    sent = n if stop is None else stop + 1
    v.check("one context", len(sp.made) == 1)
    v.check_eq("one request for each token", len(conn.sent), sent)
    for k, (q, given) in enumerate(conn.sent):
        v.check_eq("its token under the scheme", q.headers["Authorization"], (s + " ").encode() + b64(v, outs[k]))
        v.check("with the settings of the request", given == kw)
    v.check_eq("the tokens of the server", ctx.got, [None] + ins[: sent if stop is None else stop])
    v.check("the last answer", out is resp[-1])
    v.check("the context is kept for the host", auth.contexts.get("server") is ctx)
    v.check("and no other is touched", set(auth.contexts) <= {"server", "other"} and auth.contexts.get("other", other) is other)


def b64(v, data):
    return v.mod("pyvc.models").b64encode(data) if is_sym(data) else base64.b64encode(data)


@contract("C20", funcs=HOOK, runs=1, conc=False)
def any_rounds(v):
    """any number of rounds: each turn sends the token at hand and hands the
    answer's token to the context"""
    if v.unrolled:
        return
    ghost = {"turn": False}
    first, tok, nxt = v.bytes("first token"), v.bytes("token at hand"), v.bytes("next token")
    state = {"complete": v.choice("complete at first", [False, True])}
    ends = v.choice("complete after the turn", [False, True])
    more = v.choice("next token given", [False, True])

    class Ctx:
        got = []

        def step(self, t=None):
            self.got = self.got + [t]
            if not ghost["turn"]:
                self.complete = state["complete"]
                return first
            self.complete = ends
            return nxt if more else None

    Ctx.complete = False
    sp = Spnego(v, Ctx)
    A = v.mod("pypsrp.negotiate").HTTPNegotiateAuth
    s = v.choice("scheme", ORDER)
    auth = A("u", "p", send_cbt=False)
    stops = v.choice("server stops", [False, True])
    resp = []

    def answers(k, q):
        resp.append(challenge(v, None if stops else s + " " + base64.b64encode(b"answer").decode()))
        return resp[-1]

    r0 = challenge(v, s)

    def havoc(v, L0):
        ghost["turn"] = True
        ctx = sp.made[0]
        ctx.got, ctx.complete = [], v.choice("complete so far", [False, True])
        give = v.choice("a token is at hand", [True, False])
        if not give and not ctx.complete:
            v.assume(False)
        return {"out_token": tok if give else None, "response": r0}

    def inv(v, L, L0):
        if not ghost["turn"]:
            return [("the first token is at hand", L["out_token"] is first)]
        if not sp.made[0].got:
            return []
        return [("the token the context gave", L["out_token"] is (nxt if more else None)), ("the latest answer", L["response"] is resp[-1])]

    def step(v, L, L1):
        q = r0.connection.sent
        v.check("one request in a turn", len(q) == 1)
        v.check_eq("the token at hand", q[0][0].headers["Authorization"], (s + " ").encode() + b64(v, tok))
        v.check_eq("the server's token goes to the context", sp.made[0].got, [b"answer"])

    v.loop("pypsrp.negotiate.HTTPNegotiateAuth.handle_401", ("while", 1), havoc=havoc, inv=inv, step=step, heap=lambda L0: [...])
    out, conn = respond(v, auth, r0, answers)
    if conn.sent:
        v.check("stopped in this turn: the answer without a token", stops and out is resp[-1] and sp.made[0].got == [])
    else:
        v.check("complete", sp.made[0].complete and out is r0)


ARGS = {"negotiate_delegate": [None, True, False], "negotiate_hostname_override": [None, "other.host"], "negotiate_send_cbt": [None, True, False], "negotiate_service": [None, "http"]}


def cbt_raw(v, der=b"certificate"):
    """a urllib3 response over TLS"""
    H = v.mod("requests.packages.urllib3.response").HTTPResponse
    raw = H.__new__(type("R", (H,), {"__init__": lambda self: None, "release_conn": lambda self: None, "__del__": lambda self: None, "closed": True, "flush": lambda self: None}))
    sock = types.SimpleNamespace(getpeercert=lambda binary_form=False: der if binary_form else {})
    raw._fp = types.SimpleNamespace(fp=types.SimpleNamespace(raw=types.SimpleNamespace(_sock=sock)))
    return raw


@contract("C20", funcs=HOOK + BUILD + ["wsman._TransportHTTP.__init__", "client.Client.__init__"], runs=300)
def options(v):
    """credentials and options of the user reach the security context
    unchanged"""
    N = v.mod("pypsrp.negotiate")
    sp = Spnego(v)
    auth = v.choice("auth", PROVIDERS)
    user = v.str("username", pool=["u", "DOM\\u", "u@DOM", "\u00fc"]) if v.choice("username given", [True, False]) else None
    pw = v.str("password", pool=["p", "", "\u20ac"]) if v.choice("password given", [True, False]) else None
    kw, want = {}, {}
    hashed = []
    if v.symbolic:
        v.contract("pypsrp.negotiate.HTTPNegotiateAuth._get_cbt_data", lambda response: hashed.append(response) or b"tls-server-end-point:hash")
    for k, values in ARGS.items():
        x = v.choice(k, values)
        if isinstance(x, str):
            x = v.str("text of " + k, pool=[x, "x.y"], nonempty=True)
        want[k] = x
        if x is not None:
            kw[k] = x
    enc = v.choice("encryption", ["auto", "always", "never"])
    kw.update(username=user, password=pw, auth=auth, encryption=enc)
    if auth == PROVIDERS[0] and v.choice("of a client", [False, True]):
        w = v.need(v.mod("pypsrp.client").Client("server", **kw), "wsman")
    else:
        w = v.mod(W).WSMan("server", **kw)
    t = w.transport
    s = v.need(t, "_build_session")()
    offered = v.choice("offered", ORDER[:1] if v.symbolic else ORDER)
    if wanted(auth, {offered}) is None:
        return
    der = None if v.symbolic else certificate(v, "sha256")[0]
    respond(v, s.auth, challenge(v, offered, raw=cbt_raw(v, der)))
    v.check_eq("one context", len(sp.asked), 1)
    a = sp.asked[0]
    C = v.mod("spnego").ContextReq
    O = v.mod("spnego").NegotiateOptions
    v.check_eq("username", a["username"], user)
    v.check_eq("password", a["password"], pw)
    v.check_eq("provider", a["protocol"], wanted(auth, {offered})[0])
    v.check_eq("service", a["service"], want["negotiate_service"] if want["negotiate_service"] is not None else "host")
    v.check_eq("host name", a["hostname"], want["negotiate_hostname_override"] if want["negotiate_hostname_override"] is not None else "server")
    v.check("delegation exactly when asked for", a["context_req"] == (C.default | C.delegate if want["negotiate_delegate"] else C.default))
    v.check("message protection exactly when required", int(a.get("options", 0)) == (int(O.wrapping_winrm) if enc == "always" else 0))
    cb = a.get("channel_bindings")
    v.check("the channel is bound unless disabled", (cb is not None) == (want["negotiate_send_cbt"] is not False))
    if cb is not None:
        v.check_eq("to the certificate", cb.application_data, b"tls-server-end-point:" + (b"hash" if v.symbolic else hashlib.sha256(der).digest()))


@contract("C20", funcs=HOOK + ["negotiate.HTTPNegotiateAuth._get_cbt_data"], runs=30)
def not_tls(v):
    """without TLS there is no certificate to bind to"""
    N = v.mod("pypsrp.negotiate")
    sp = Spnego(v)
    raw = cbt_raw(v)
    kind = v.choice("connection", ["plain socket", "no socket"])
    if kind == "plain socket":
        raw._fp.fp.raw._sock = object()
    else:
        raw._fp = types.SimpleNamespace(fp=None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        respond(v, N.HTTPNegotiateAuth("u", "p"), challenge(v, "Negotiate", raw=raw))
    v.check("no binding", len(sp.asked) == 1 and sp.asked[0].get("channel_bindings") is None)


# ---- certificates

CERTS = {}
OIDS = {"md5": 4, "sha1": 5, "sha256": 11, "sha384": 12, "sha512": 13, "sha224": 14, "unknown": 99}


def certificate(v, kind):
    """(DER of a certificate signed with that hash, hash to be used)"""
    if kind in CERTS:
        return CERTS[kind]
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec, ed25519, padding, rsa

    def build(key, alg, **kw):
        name = x509.Name([x509.NameAttribute(x509.oid.NameOID.COMMON_NAME, "server")])
        t = datetime.datetime(2024, 1, 1)
        b = x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(key.public_key()).serial_number(7).not_valid_before(t).not_valid_after(t + datetime.timedelta(9000))
        return b.sign(key, alg, **kw).public_bytes(serialization.Encoding.DER)

    if "rsa" not in CERTS:
        CERTS["rsa"] = rsa.generate_private_key(65537, 2048)
    key = CERTS["rsa"]
    oid = bytes.fromhex("2a864886f70d0101")
    if kind in OIDS:
        der = build(key, hashes.SHA256())
        assert der.count(oid + b"\x0b") == 2
        der = der.replace(oid + b"\x0b", oid + bytes([OIDS[kind]]))
        alg = "sha256" if kind in ("md5", "sha1", "unknown") else kind
    elif kind.startswith("ecdsa-"):
        alg = kind[6:]
        der = build(ec.generate_private_key(ec.SECP256R1()), {"sha256": hashes.SHA256, "sha384": hashes.SHA384, "sha512": hashes.SHA512, "sha224": hashes.SHA224}[alg]())
    elif kind.startswith("pss-"):
        alg = kind[4:]
        h = {"sha256": hashes.SHA256, "sha384": hashes.SHA384, "sha512": hashes.SHA512}[alg]()
        der = build(key, h, rsa_padding=padding.PSS(padding.MGF1(h), h.digest_size))
    else:
        alg = "sha256"
        der = build(ed25519.Ed25519PrivateKey.generate(), None)
    CERTS[kind] = der, alg
    return CERTS[kind]


KINDS = list(OIDS) + ["ecdsa-sha224", "ecdsa-sha256", "ecdsa-sha384", "ecdsa-sha512", "pss-sha256", "pss-sha384", "pss-sha512", "ed25519"]
CBT = ["negotiate.HTTPNegotiateAuth._get_cbt_data", "negotiate.HTTPNegotiateAuth._get_certificate_hash", "negotiate.HTTPNegotiateAuth.handle_401"]


@contract("C20", funcs=CBT, runs=60, sym=False)
def binding_real(v):
    """real certificates of every hash algorithm"""
    sp = Spnego(v)
    kind = v.choice("certificate", KINDS)
    der, alg = certificate(v, kind)
    A = v.mod("pypsrp.negotiate").HTTPNegotiateAuth
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        respond(v, A("u", "p"), challenge(v, "Negotiate", raw=cbt_raw(v, der)))
    cb = sp.asked[0].get("channel_bindings")
    v.check("bound to the certificate", cb is not None and cb.application_data == b"tls-server-end-point:" + hashlib.new(alg, der).digest())


@contract("C20", funcs=CBT, runs=1, conc=False)
def binding(v):
    """any certificate: its own hash algorithm, SHA-256 for a weak or unknown
    one"""
    sp = Spnego(v)
    H = v.mod("cryptography.hazmat.primitives.hashes")
    UA = v.mod("cryptography.exceptions").UnsupportedAlgorithm
    names = ["MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA3_256", "SHA3_512", "SM3", None, "unsupported"]
    kind = v.choice("hash algorithm of the certificate", names)
    der = v.bytes("certificate", 1)
    done = []

    def digest(alg, data):
        done.append((alg.name, data))
        return b"<hash %d>" % len(done)

    class Cert:
        @property
        def signature_hash_algorithm(self):
            if kind == "unsupported":
                raise UA("unknown")
            return None if kind is None else getattr(H, kind)()

        def public_bytes(self, encoding):
            return der

        def fingerprint(self, alg):
            return digest(alg, der)

    class Hash:
        def __init__(self, alg, backend=None):
            self.alg, self.data = alg, b""

        def update(self, data):
            self.data = self.data + data

        def finalize(self):
            return digest(self.alg, self.data)

    loaded = []
    v.patch(v.mod("cryptography.x509"), "load_der_x509_certificate", lambda data, backend=None: loaded.append(data) or Cert())
    v.patch(H, "Hash", Hash)
    A = v.mod("pypsrp.negotiate").HTTPNegotiateAuth
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        respond(v, A("u", "p"), challenge(v, "Negotiate", raw=cbt_raw(v, der)))
    cb = sp.asked[0].get("channel_bindings")
    v.check("bound", cb is not None and len(done) == 1)
    v.check_eq("the server's certificate", loaded, [der])
    v.check_eq("its hash", cb.application_data, b"tls-server-end-point:<hash 1>")
    weak = kind in ("MD5", "SHA1", None, "unsupported")
    v.check_eq("with the right algorithm", done[0][0], "sha256" if weak else getattr(H, kind)().name)
    v.check_eq("of the whole certificate", done[0][1], der)


# ---- the other schemes


@contract("C20", funcs=BUILD, runs=200)
def basic(v):
    """basic: the credentials as given; refused without them"""
    user = v.str("username", pool=["u", "a:b", ""]) if v.choice("username given", [True, False]) else None
    pw = v.str("password", pool=["p", "", "a:b"]) if v.choice("password given", [True, False]) else None
    t = v.mod(W).WSMan("server", username=user, password=pw, auth="basic").transport
    box = []
    err = v.raises(ValueError, lambda: box.append(v.need(t, "_build_session")()))
    v.check("refused exactly without credentials", (err is not None) == (user is None or pw is None))
    if err is None:
        a = box[0].auth
        v.check("basic", isinstance(a, requests.auth.HTTPBasicAuth))
        v.check_eq("username", a.username, user)
        v.check_eq("password", a.password, pw)


@contract("C20", funcs=BUILD, runs=200)
def credssp(v):
    """CredSSP: credentials and options as given; refused without
    credentials"""
    made = []
    v.patch(v.mod(W), "HttpCredSSPAuth", lambda **k: made.append(k) or "credssp handler")
    user = v.str("username", pool=["u", ""]) if v.choice("username given", [True, False]) else None
    pw = v.str("password", pool=["p", ""]) if v.choice("password given", [True, False]) else None
    given = {"auth_mechanism": v.choice("mechanism", [None, "auto", "ntlm", "kerberos"]), "disable_tlsv1_2": v.choice("disable", [None, True, False]), "minimum_version": v.int("minimum version", 0, 9) if v.choice("version given", [True, False]) else None}
    kw = {"credssp_" + k: x for k, x in given.items() if x is not None}
    t = v.mod(W).WSMan("server", username=user, password=pw, auth="credssp", **kw).transport
    box = []
    err = v.raises(ValueError, lambda: box.append(v.need(t, "_build_session")()))
    v.check("refused exactly without credentials", (err is not None) == (user is None or pw is None))
    if err is not None:
        v.check("no handler", not made)
        return
    v.check("the handler", len(made) == 1 and box[0].auth == "credssp handler")
    got = made[0]
    v.check_eq("username", got.pop("username", None), user)
    v.check_eq("password", got.pop("password", None), pw)
    v.check("no other option", set(got) <= set(given))
    for k, x in given.items():
        v.check_eq(k, got.get(k), x)


@contract("C20", funcs=BUILD + ["_pool_manager.create_request_adapter", "_pool_manager.HTTPSAdapterWithKeyPassword.__init__", "_pool_manager.HTTPSAdapterWithKeyPassword.init_poolmanager"], runs=200)
def client_certificate(v):
    """certificate: over HTTPS only, with both files; the key's password
    reaches the connections"""
    key = v.str("key", pool=["key.pem"]) if v.choice("key given", [True, False]) else None
    pem = v.str("certificate", pool=["cert.pem"]) if v.choice("certificate given", [True, False]) else None
    pw = v.choice("password", [None, "secret", ""])
    ssl = v.choice("ssl", [True, False])
    port = v.choice("port", [None, 443, 5985, 5986])
    kw = {k: x for k, x in {"certificate_key_pem": key, "certificate_pem": pem, "certificate_key_password": pw}.items() if x is not None}
    box = []

    def go():
        t = v.mod(W).WSMan("server", auth="certificate", ssl=ssl, **({} if ssl else {"encryption": "never"}), **kw, **({} if port is None else {"port": port})).transport
        box.append(v.need(t, "_build_session")())

    err = v.raises(ValueError, go)
    v.check("refused exactly without both files or HTTPS", (err is not None) == (key is None or pem is None or not ssl))
    if err is not None:
        return
    s = box[0]
    v.check_eq("the certificate", s.cert[0], pem)
    v.check_eq("its key", s.cert[1], key)
    v.check_eq("the mutual authentication profile", s.headers["Authorization"], "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual")
    if not v.symbolic:
        pool = s.get_adapter(URL).poolmanager.connection_from_url(URL)
        v.check_eq("the password of the key", pool.key_password, pw)
