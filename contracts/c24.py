"""Liveness checks and the context that forbids new connections."""
import threading

from pyvc.harness import contract

from .lib import *

UNKNOWN_SHELL = 0x8033805B


def shell_get(v, state, present=True):
    """the Get answer of a shell, with the given state text"""
    b = body()
    if present:
        sh = ET.SubElement(b, "{%s}Shell" % RSP)
        ET.SubElement(sh, "{%s}ShellId" % RSP).text = "some id"
        ET.SubElement(sh, "{%s}Owner" % RSP).text = "Disconnected"
        if state is not None:
            ET.SubElement(sh, "{%s}State" % RSP).text = state
        ET.SubElement(sh, "{%s}IdleTimeOut" % RSP).text = "PT1.0S"
    return b


def gone(v, pool, srv):
    v.check_eq("marked closed", pool.state, CLOSED)
    n = len(srv.log)
    pool.close()
    v.check("closing afterwards sends nothing", len(srv.log) == n)


FUNCS = ["powershell.RunspacePool.is_alive", "shell.WinRS._get_shell", "powershell.RunspacePool.close", "_pool_manager.DisableNewConnectionsContext.__enter__", "_pool_manager.DisableNewConnectionsContext.__exit__", "_pool_manager.DisableNewConnectionsContext.current"]


def watch(v, srv, answer):
    """install the answer to the liveness request; the context must be in
    force exactly while the request runs"""
    D = v.mod("pypsrp._pool_manager").DisableNewConnectionsContext
    seen = []

    def get(e):
        seen.append((e, D.current() is not None))
        r = answer()
        if isinstance(r, BaseException):
            raise r
        return r

    srv.on["get"] = get
    return D, seen


@contract("C24", funcs=FUNCS, runs=150)
def answered(v):
    """the shell answers: alive unless its state is Disconnected"""
    srv = Server(v)
    st = v.str("shell state", pool=["Connected", "Disconnected", "disconnected", ""])
    how = v.choice("answer", ["state", "no state element", "no shell element"])
    pst = v.int("pool state", 1, 12)
    pool = new_pool(v, srv, pst, opened=True)
    D, seen = watch(v, srv, lambda: shell_get(v, st if how == "state" else None, how != "no shell element"))
    t = v.choice("timeout", [None, 7])
    alive = pool.is_alive(timeout=t) if t is not None else pool.is_alive()
    down = v.and_(how == "state", st == "Disconnected")
    v.check("false exactly when the server says disconnected", v.iff(alive, v.not_(down)))
    v.check("connections are forbidden during the request", [d for _, d in seen] == [True])
    v.check("and allowed again after it", D.current() is None)
    e = seen[0][0]
    v.check_eq("asks about this pool's shell", e.selector("ShellId"), pool.id)
    v.check_eq("with the given timeout", e.timeout, t)
    v.check_eq("only one request", srv.kinds(), ["get"])
    if v.truth(down):
        gone(v, pool, srv)
    else:
        v.check_eq("state unchanged", pool.state, pst)


@contract("C24", funcs=FUNCS, runs=200)
def faults(v):
    """any fault code: closed for a timed-out operation and for an unknown
    shell, raised for every other"""
    X = v.mod("pypsrp.exceptions")
    srv = Server(v)
    pst = v.int("pool state", 1, 12)
    pool = new_pool(v, srv, pst, opened=True)
    code = v.int("code", 0, 2**32 - 1) if v.choice("kind", ["any", "special"]) == "any" else v.choice("code", [OP_TIMEOUT, UNKNOWN_SHELL, OP_TIMEOUT + 1, UNKNOWN_SHELL - 1, 0])
    fault = X.WSManFaultError(code, "m", "r", None, None, None)
    D, seen = watch(v, srv, lambda: fault)
    known = v.truth(v.or_(code == OP_TIMEOUT, code == UNKNOWN_SHELL))
    box = []
    err = v.raises(X.WSManFaultError, lambda: box.append(pool.is_alive(timeout=3)))
    v.check("raised exactly when it is another fault", (err is None) == known)
    v.check("allowed again afterwards", D.current() is None)
    v.check("connections are forbidden during the request", [d for _, d in seen] == [True])
    if known:
        v.check("not alive", box == [False])
        gone(v, pool, srv)
    else:
        v.check("the very fault", err is fault)
        v.check_eq("state unchanged", pool.state, pst)


@contract("C24", funcs=FUNCS, runs=60)
def failures(v):
    """a check that times out, or whose connection is gone, answers false;
    any other error is raised"""
    import requests

    PM = v.mod("pypsrp._pool_manager")
    X = v.mod("pypsrp.exceptions")
    R = requests.exceptions
    srv = Server(v)
    pst = v.int("pool state", 1, 12)
    pool = new_pool(v, srv, pst, opened=True)
    kinds = [PM.NewConnectionDisabled, TimeoutError, R.Timeout, R.ReadTimeout, R.ConnectTimeout, R.ConnectionError, R.SSLError, R.ProxyError]
    other = [ValueError, R.InvalidURL, lambda: X.AuthenticationError("no"), lambda: X.WinRMTransportError("http", 500, "x"), KeyboardInterrupt]
    exc = v.choice("error", kinds + other)
    inst = exc()
    D, seen = watch(v, srv, lambda: inst)
    box = []
    err = v.raises(BaseException, lambda: box.append(pool.is_alive()))
    v.check("allowed again afterwards", D.current() is None)
    v.check("one request, connections forbidden", [d for _, d in seen] == [True])
    if exc in kinds:
        v.check("not alive", err is None and box == [False])
        gone(v, pool, srv)
    else:
        v.check("raised", err is inst)
        v.check_eq("state unchanged", pool.state, pst)


@contract("C24", funcs=FUNCS[3:], runs=40)
def context_restores(v):
    """whatever was in force before the context is in force after it, also when
    its body raises; the error is not swallowed"""
    PM = v.mod("pypsrp._pool_manager")
    D = PM.DisableNewConnectionsContext
    depth = v.choice("contexts already in force", [0, 1, 2])
    fails = v.choice("the body raises", [False, True])
    reuse = v.choice("check within the context", [False, True])
    outer = [D() for _ in range(depth)]
    for o in outer:
        o.__enter__()
    before = D.current()
    boom = KeyError("x")

    def run():
        with D():
            v.check("in force inside", D.current() is not None)
            if reuse:
                with D():
                    v.check("in force inside the inner one", D.current() is not None)
                v.check("still in force after the inner one", D.current() is not None)
            if fails:
                raise boom

    err = v.raises(KeyError, run)
    v.check("errors pass through", (err is boom) if fails else err is None)
    v.check("previous context restored", D.current() is before)
    for o in reversed(outer):
        v.check("in force until the last one ends", D.current() is not None)
        o.__exit__(None, None, None)
    v.check("nothing in force at the end", D.current() is None)


class Connected(Exception):
    pass


def recorder(v):
    """stands in for opening a socket: records that it was asked for"""
    import urllib3.connection as C

    n = []

    def connect(self):
        n.append((type(self).__name__, threading.get_ident()))
        raise OSError("no network here")

    v.patch(C.HTTPConnection, "connect", connect)
    v.patch(C.HTTPSConnection, "connect", connect)
    return n


@contract(
    "C24",
    funcs=["_pool_manager.create_request_adapter", "_pool_manager._wrap", "_pool_manager._create_connection_pool", "_pool_manager._create_new_connection_with_failure", "_pool_manager._raise_if_connections_disabled", "wsman._TransportHTTP._build_session"],
    runs=40,
    assumes=["urllib3 opens sockets only through the connect method of its connection classes"],
)
def no_new_connections(v):
    """real requests/urllib3 over the session the transport builds, with and
    without TLS, a proxy, and a client certificate key password"""
    import requests

    PM = v.mod("pypsrp._pool_manager")
    W = v.mod("pypsrp.wsman")
    D = PM.DisableNewConnectionsContext
    ssl = v.choice("ssl", [False, True])
    proxy = v.choice("proxy", [None, "http://127.0.0.1:9/", "https://127.0.0.1:9/"])
    second = v.choice("session used before", [False, True])
    n = recorder(v)
    wsman = W.WSMan("127.0.0.1", port=9, ssl=ssl, proxy=proxy, no_proxy=proxy is None, username="u", password="p", auth="negotiate", encryption="never", reconnection_retries=0)
    session = wsman.transport._build_session()
    session.trust_env = False
    session.auth = None
    url = ("https" if ssl else "http") + "://127.0.0.1:9/wsman"

    def ask():
        return v.raises(Exception, session.post, url, data=b"x")

    if second:
        v.check("a connection is attempted before", isinstance(ask(), requests.exceptions.ConnectionError) and len(n) == 1)
    k = len(n)
    with D():
        e = ask()
        v.check("refused at once", isinstance(e, PM.NewConnectionDisabled))
        v.check("no connection attempted", len(n) == k)
        box = []
        t = threading.Thread(target=lambda: box.append(ask()))
        t.start()
        t.join()
        v.check("other threads still connect", len(n) == k + 1 and isinstance(box[0], requests.exceptions.ConnectionError))
        v.check("still refused here", isinstance(ask(), PM.NewConnectionDisabled) and len(n) == k + 1)
    v.check("connecting is possible again", isinstance(ask(), requests.exceptions.ConnectionError) and len(n) == k + 2)


def type_of(scheme):
    import urllib3.connection as C

    return C.HTTPSConnection if scheme == "https" else C.HTTPConnection


@contract("C24", funcs=["_pool_manager.create_request_adapter", "_pool_manager.HTTPSAdapterWithKeyPassword.init_poolmanager"], runs=10)
def adapter_kinds(v):
    """the adapter with and without a key password"""
    import requests
    from urllib3.util.retry import Retry

    PM = v.mod("pypsrp._pool_manager")
    D = PM.DisableNewConnectionsContext
    n = recorder(v)
    pw = v.choice("key password", [None, "secret", ""])
    a = PM.create_request_adapter(max_retries=Retry(0), key_password=pw)
    b = requests.adapters.HTTPAdapter(max_retries=Retry(0))
    s, o = requests.Session(), requests.Session()
    for x, y in ((s, a), (o, b)):
        x.trust_env = False
        x.mount("https://", y)
        x.mount("http://", y)
    with D():
        for url in ("https://127.0.0.1:9/", "http://127.0.0.1:9/"):
            v.check("refused", isinstance(v.raises(Exception, s.get, url), PM.NewConnectionDisabled))
        v.check("no connection attempted", not n)
        v.raises(Exception, o.get, "https://127.0.0.1:9/")
        v.check("sessions of others are left alone", len(n) == 1)
    for scheme in ("https", "http"):
        # with connecting allowed a connection of the pool connects: once,
        # through the connect method it came with, raising nothing
        del n[:]
        v.patch(type_of(scheme), "connect", lambda self: n.append(self))
        c = a.poolmanager.connection_from_url(scheme + "://127.0.0.1:9/")._new_conn()
        e = v.raises(Exception, c.connect)
        v.check("connects as the connection would without the library", e is None and n == [c])
        with D():
            v.check("refused", isinstance(v.raises(Exception, c.connect), PM.NewConnectionDisabled) and n == [c])
        e = v.raises(Exception, c.connect)
        v.check("and connects again afterwards", e is None and n == [c, c])
    v.check("key password reaches the pool", pw is None or a.poolmanager.connection_pool_kw.get("key_password") == pw)
