"""Retries: only a receive, within bounds, with growing delays; the policy of
the connection."""
import time

import requests

from pyvc.harness import contract

from .c17 import CAN_WRAP, make
from .http import *

R = requests.exceptions
OPS = ["command", "connect", "create", "disconnect", "delete", "enumerate", "get", "pull", "put", "receive", "reconnect", "send", "signal"]
SEND = ["wsman._TransportHTTP.send", "wsman._TransportHTTP._send_request"]
OK = b"<answer/>"
TIMEOUTS = [R.ReadTimeout, R.ConnectTimeout]
OTHERS = [R.ConnectionError, R.SSLError, R.ChunkedEncodingError, R.RetryError, ValueError]


def naps(v):
    out = []
    v.patch(v.mod("time"), "sleep", lambda s: out.append(s))
    return out


def plain(v, answer, **kw):
    w, s = connect(v, answer, **kw)
    return w.transport, s


@contract("C19", funcs=SEND, runs=300, bounded="at most 4 retries (any back-off, message and timeout)")
def outcomes(v):
    """every sequence of timeouts, other errors and answers"""
    sleeps = naps(v)
    backoff = v.real("backoff", 0.0)
    top = 2 if v.symbolic else 7
    n = v.choice("retries", list(range(top + 1)))
    msg = b"<request/>" if v.symbolic else v.bytes("message", cmax=20) and b"<request/>"
    given = v.choice("timeout", [None, 7, (1, 2)])
    script = []

    def answer(k, request, timeout):
        what = v.choice("outcome %d" % k, ["read timeout", "connect timeout", "answer", "failed answer", "other error"])
        if what == "answer":
            r = response(v, 200, OK + b"%d" % k)
        elif what == "failed answer":
            r = response(v, 503, b"busy", "text/plain")
        elif what == "other error":
            r = v.choice("error", OTHERS[:2] if v.symbolic else OTHERS)("other")
        else:
            r = TIMEOUTS[what == "connect timeout"]("timeout %d" % k)
        script.append(r)
        return r

    t, s = plain(v, answer, reconnection_backoff=backoff)
    kw = {} if n == 0 and v.choice("default", [True, False]) else {"retries_on_read_timeout": n}
    if given is not None:
        kw["timeout"] = given
    box = []
    err = v.raises(Exception, lambda: box.append(t.send(msg, **kw)))
    late = [isinstance(x, tuple(TIMEOUTS)) for x in script]
    v.check("at most the given number of retries", len(s.sent) <= n + 1)
    v.check("nothing is sent after an answer or another error", all(late[:-1]))
    v.check("a timeout is the end only when the retries are used up", not late[-1] or len(s.sent) == n + 1)
    last = script[-1]
    if isinstance(last, BaseException):
        v.check("fails with the last error", err is last)
    elif last.status_code == 503:
        v.check("a failed answer is not retried", type(err).__name__ == "WinRMTransportError")
    else:
        v.check("the answer to the last attempt", err is None and box == [OK + b"%d" % (len(script) - 1)])
    for q, tm in s.sent:
        v.check("the same request each time", q.data == msg and q.url == s.sent[0][0].url and dict(q.headers) == dict(s.sent[0][0].headers))
        v.check_eq("the same timeout each time", tm, given if given is not None else (30, 30))
    v.check("one delay between attempts", len(sleeps) == len(s.sent) - 1)
    scaled(v, sleeps, backoff)


def scaled(v, sleeps, backoff):
    """growing delays, proportional to the back-off factor"""
    for k, x in enumerate(sleeps):
        v.check("delays are not negative", x >= 0)
        if k:
            v.check("delays grow", v.implies(backoff > 0, x > sleeps[k - 1]))
    if not v.symbolic and backoff > 0 and sleeps:
        # as multiples of the factor they do not depend on it
        for x, y in zip(sleeps, unit(v, len(sleeps))):
            v.check("delays are scaled by the back-off", abs(x - y * backoff) <= 1e-6 * max(abs(x), 1e-9))
    elif v.symbolic:
        for x, y in zip(sleeps, unit(v, len(sleeps))):
            v.check("delays are scaled by the back-off", x == y * backoff)


UNIT = {}


def unit(v, n):
    """the delays with a factor of 1"""
    saved = v.mod("time").sleep
    out = []
    v.mod("time").sleep = lambda s: out.append(s)
    try:
        t, s = plain(v, lambda k, request, timeout: R.ReadTimeout("t") if k < n else response(v, 200, OK), reconnection_backoff=1.0)
        t.send(b"<request/>", retries_on_read_timeout=n)
    finally:
        v.mod("time").sleep = saved
    return out


@contract("C19", funcs=SEND, runs=1, conc=False)
def any_number(v):
    """for any number of retries and any history of timeouts"""
    if v.unrolled:
        return
    sleeps = naps(v)
    n = v.int("retries", 0, None)
    backoff = v.real("backoff", 0.0)
    made = []

    def answer(k, request, timeout):
        what = v.choice("outcome", ["read timeout", "connect timeout", "answer", "other error"])
        r = {"answer": lambda: response(v, 200, OK), "other error": lambda: R.ConnectionError("x")}.get(what, lambda: TIMEOUTS[what == "connect timeout"]("t"))()
        made.append(r)
        return r

    t, s = plain(v, answer, reconnection_backoff=backoff)
    msg = v.bytes("message")
    ghost = {"sent": 0}

    def havoc(v, L0):
        a = v.int("attempts so far", 0, None)
        ghost["sent"] = a
        del s.sent[:], made[:], sleeps[:]
        return {"attempt": a}

    def inv(v, L, L0):
        g = ghost["sent"] + len(s.sent)
        return [("as many attempts counted as made", L["attempt"] == g), ("another attempt is left", g <= n)]

    def step(v, L, L1):
        v.check("one attempt per turn, it timed out", len(s.sent) == 1 and isinstance(made[0], tuple(TIMEOUTS)))
        v.check("one delay per turn", len(sleeps) == 1)

    v.loop("pypsrp.wsman._TransportHTTP.send", ("while", 1), havoc=havoc, inv=inv, step=step, heap=lambda L0: [...])
    box = []
    err = v.raises(R.RequestException, lambda: box.append(t.send(msg, retries_on_read_timeout=n)))
    total = ghost["sent"] + len(s.sent)
    v.check("at most the given number of retries", total <= n + 1)
    v.check("sent once in the last turn", len(s.sent) == 1)
    v.check_eq("the same message", s.sent[0][0].data, msg)
    v.check("nothing is waited for at the end", not sleeps)
    if isinstance(made[0], BaseException):
        v.check("fails with the last error", err is made[0])
        if isinstance(made[0], tuple(TIMEOUTS)):
            v.check("a timeout is the end only when the retries are used up", total == n + 1)
    else:
        v.check("the answer of this turn", err is None and box == [OK])


KINDS = ["answer", "read timeout", "connect timeout", "other error", "failed answer"]


def result(v, what, k):
    if what == "answer":
        return None
    if what == "failed answer":
        return response(v, 503, b"busy", "text/plain")
    if what == "other error":
        return R.ConnectionError("other %d" % k)
    return TIMEOUTS[what == "connect timeout"]("timeout %d" % k)


@contract("C19", funcs=SEND, runs=300, bounded="at most 2 retries symbolically, 5 concretely")
def wrapped(v):
    """with message encryption the requests that establish a context count as
    attempts like any other"""
    auth = v.choice("auth", ["credssp", "negotiate"] if v.symbolic else sorted(CAN_WRAP))
    n = v.choice("retries", [0, 1, 2] if v.symbolic else [0, 1, 2, 5])
    backoff = v.real("backoff", 0.0)
    made = []

    def outcome(k, empty):
        made.append((empty, result(v, v.choice("outcome %d" % k, KINDS), k)))
        return made[-1][1]

    t, s, wire = make(v, auth, outcome, ssl=False, reconnection_backoff=backoff)
    sleeps = naps(v)
    wire.message = m = v.bytes("message", lo=1) if v.symbolic else b"<message>" + v.bytes("message", cmax=20)
    box = []
    err = v.raises(Exception, lambda: box.append(t.send(m, retries_on_read_timeout=n)))
    late = [isinstance(x, tuple(TIMEOUTS)) for _, x in made]
    v.check("at most the given number of retries", sum(late) <= n + 1)
    v.check("a context is established at most once for each attempt", sum(e for e, _ in made) <= n + 1 and sum(not e for e, _ in made) <= n + 1)
    last = made[-1][1]
    v.check("a timeout is the end only when the retries are used up", not late[-1] or sum(late) == n + 1)
    v.check("nothing is sent after another error", all(x is None or l for (_, x), l in zip(made[:-1], late)))
    v.check("nothing is sent after an answer", all(e or x is not None for e, x in made[:-1]))
    if isinstance(last, BaseException):
        v.check("fails with the last error", err is last)
    elif last is not None:
        v.check("a failed answer is not retried", type(err).__name__ == "WinRMTransportError")
    else:
        v.check("the answer to the last attempt", err is None and box == [b"<answer %d/>" % (len(made) - 1)])
    v.check("one delay between attempts", len(sleeps) == sum(late) - late[-1])
    for k, x in enumerate(sleeps):
        v.check("delays are not negative", x >= 0)
        if k:
            v.check("delays grow", v.implies(backoff > 0, x > sleeps[k - 1]))


@contract("C19", funcs=SEND, runs=1, conc=False)
def any_number_wrapped(v):
    """the same for any number of retries and any history"""
    if v.unrolled:
        return
    auth = v.choice("auth", ["credssp", "kerberos", "negotiate"])
    n = v.int("retries", 0, None)
    backoff = v.real("backoff", 0.0)
    made = []

    def outcome(k, empty):
        made.append((empty, result(v, v.choice("outcome", KINDS), k)))
        return made[-1][1]

    t, s, wire = make(v, auth, outcome, "kerberos" if auth == "kerberos" else None, ssl=False, reconnection_backoff=backoff)
    sleeps = naps(v)
    wire.message = m = v.bytes("message", lo=1)
    v.need(t, "encryption")
    E = v.mod("pypsrp.encryption").WinRMEncryption
    ghost = {"late": 0}

    def late():
        return sum(isinstance(x, tuple(TIMEOUTS)) for _, x in made)

    def havoc(v, L0):
        from .c17 import PROTOCOL, Context

        a = v.int("attempts so far", 0, None)
        ghost["late"] = a
        del s.sent[:], made[:], sleeps[:]
        t.encryption = wire.valid = None
        if v.choice("context", ["none", "established"]) == "established":
            wire.number += 1
            wire.valid = ctx = Context(wire, wire.number, auth)
            s.auth.contexts = {"server": ctx}
            t.encryption = E(ctx, PROTOCOL[auth])
        return {"attempt": a}

    def inv(v, L, L0):
        g = ghost["late"] + late()
        return [("as many attempts counted as timed out", L["attempt"] == g), ("another attempt is left", g <= n)]

    def step(v, L, L1):
        v.check("one attempt per turn, it timed out", late() == 1 and isinstance(made[-1][1], tuple(TIMEOUTS)))
        v.check("at most one request for a context before the message", [e for e, _ in made] in ([True], [False], [True, False]))
        v.check("one delay per turn", len(sleeps) == 1)

    v.loop("pypsrp.wsman._TransportHTTP.send", ("while", 1), havoc=havoc, inv=inv, step=step, heap=lambda L0: [...])
    box = []
    err = v.raises(Exception, lambda: box.append(t.send(m, retries_on_read_timeout=n)))
    total = ghost["late"] + late()
    v.check("at most the given number of retries", total <= n + 1)
    v.check("nothing is waited for at the end", not sleeps)
    last = made[-1][1]
    if isinstance(last, BaseException):
        v.check("fails with the last error", err is last)
        if isinstance(last, tuple(TIMEOUTS)):
            v.check("a timeout is the end only when the retries are used up", total == n + 1)
    elif last is None:
        v.check("the answer of this turn", err is None and box == [b"<answer %d/>" % (len(s.sent) - 1)])


@contract("C19", funcs=["wsman.WSMan." + o for o in OPS] + ["wsman.WSMan.invoke"] + SEND, runs=200)
def operations(v):
    """of all operations only a receive is repeated, with the very same
    request"""
    sleeps = naps(v)
    op = v.choice("operation", OPS)
    k0 = v.choice("timeouts", [1, 2, 5, 6, 9])
    kind = v.choice("kind", TIMEOUTS)
    raised = []

    def answer(k, request, timeout):
        if k < k0:
            raised.append(kind("timeout %d" % k))
            return raised[-1]
        return response(v, 200, doc(v, envelope(message_id(v, request), body())))

    def body():
        b = ET.Element("{%s}Body" % S)
        ET.SubElement(b, "answer").text = "answer %d" % k0
        return b

    kw = {"timeout": v.int("timeout", 1, None)} if v.choice("timeout given", [False, True]) else {}
    w, s = connect(v, answer)
    box = []
    err = v.raises(Exception, lambda: box.append(getattr(w, op)("uri", ET.Element("{%s}Thing" % RSP), **kw)))
    if op != "receive":
        v.check("sent once", len(s.sent) == 1 and not sleeps)
        v.check("fails with that timeout", err is raised[0])
        return
    v.check("a receive is tried 6 times at most", len(s.sent) == min(k0, 5) + 1)
    v.check("the very same request", all(q.data is s.sent[0][0].data or q.data == s.sent[0][0].data for q, _ in s.sent))
    v.check("the same timeout", all(v.truth(tm == s.sent[0][1]) for _, tm in s.sent))
    if k0 > 5:
        v.check("fails with the last timeout", err is raised[-1])
    else:
        v.check("the answer to the last attempt", err is None and box[0][0].text == "answer %d" % k0)


POLICY = ["wsman._TransportHTTP._build_session", "_pool_manager.create_request_adapter"]
CODES = {425, 429, 503}


def policies(v, n, backoff, **kw):
    w = v.mod(W).WSMan("server", username="u", password="p", auth="basic", reconnection_retries=n, reconnection_backoff=backoff, **kw)
    s = v.need(w.transport, "_build_session")()
    return [(u, s.get_adapter(u).max_retries) for u in ("https://server:5986/wsman", "http://server:5985/wsman")]


@contract("C19", funcs=POLICY, runs=60)
def policy(v):
    """the configured counts and factor; no retry after a read failure; exactly
    the three status codes"""
    n = v.int("retries", 0, None, cmax=6)
    backoff = v.real("backoff", 0.0, 100.0)
    for u, r in policies(v, n, backoff):
        for what in ("total", "connect", "status"):
            v.check_eq("%s retries as configured" % what, getattr(r, what), n)
        v.check("no retry after a read failure", r.read is False or v.truth(r.read == 0))
        v.check_eq("back-off as configured", r.backoff_factor, backoff)
        v.check("exactly these status codes", set(r.status_forcelist) == CODES)


@contract("C19", funcs=POLICY, runs=40, sym=False)
def behaviour(v):
    """the policy as urllib3 applies it to a POST"""
    U = v.mod("urllib3.exceptions")
    n = v.choice("retries", [0, 1, 2, 5])
    backoff = v.choice("backoff", [0.5, 2.0, 3.0])
    for u, r0 in policies(v, n, backoff):
        # failed connections
        for mk in (lambda: U.NewConnectionError(None, "no"), lambda: U.ConnectTimeoutError("no")):
            r, k, waits = r0, 0, []
            try:
                while k < 50:
                    r = r.increment("POST", "/wsman", error=mk())
                    k += 1
                    waits.append(r.get_backoff_time())
            except U.MaxRetryError:
                pass
            v.check_eq("connection retries", k, n)
            g = [w for w in waits if w]
            v.check("delays grow", all(a < b for a, b in zip(g, g[1:])))
            v.check("scaled by the factor", all(abs(w / backoff - x) < 1e-9 for w, x in zip(g, (2.0**i for i in range(1, 20)))))
        # read failures
        for mk in (lambda: U.ReadTimeoutError(None, "/wsman", "late"), lambda: U.ProtocolError("reset")):
            v.check("a read failure is not retried", v.raises(Exception, lambda: r0.increment("POST", "/wsman", error=mk())) is not None)
        # status codes
        for m in ("POST", "PUT"):
            for code in range(200, 600):
                want = code in CODES
                if m == "POST" and want and v.listed("C19-post-status"):
                    continue
                v.check("status %d is retried exactly when it is one of the three (%s)" % (code, m), bool(r0.is_retry(m, code)) == want)
