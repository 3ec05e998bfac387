"""Copied and fetched files are transferred completely and verified."""
import hashlib
import os
import re
import shutil
import tempfile

from pyvc.harness import contract

from .lib import *

CL = "pypsrp.client"
COPY = ["client.Client.copy", "client._handle_powershell_error"]
FETCH = ["client.Client.fetch", "client._handle_powershell_error"]


class Only:
    """a stand-in for a module or object that the harness controls; anything
    else asked of it means that the code took another way"""

    def __init__(self, v, what, **kw):
        self.__dict__.update(kw)
        self.__dict__.update(_v=v, _what=what)

    def __getattr__(self, n):
        self.__dict__["_v"].internal(False, "%s.%s" % (self.__dict__["_what"], n))


def cat(a, b):
    return b if type(a) is bytes and a == b"" else a + b


class Hashes:
    """sha1 as an injective function of the bytes it was fed: the digest is a
    token that names them"""

    def __init__(self, v):
        self.v, self.of = v, {}

    def module(self):
        return Only(self.v, "hashlib", sha1=self.sha1)

    def sha1(self, data=b"", **kw):
        H = self

        def update(d):
            h.__dict__["fed"] = cat(h.fed, d)

        def hexdigest():
            t = ("%02d" % len(H.of)) * 20
            H.of[t] = h.fed
            return t

        h = Only(self.v, "sha1", fed=data, update=update, hexdigest=hexdigest)
        return h


class Src:
    """an open file with the given content"""

    def __init__(self, v, content):
        self.v, self.content, self.pos, self.closed = v, content, 0, False

    def read(self, n=None):
        self.v.internal(n is not None, "read with a size")
        d = self.content[self.pos : self.pos + n]
        self.pos = self.pos + self.v.len(d)
        return d

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self.v.internal(False, "file." + n)


def scratch(v):
    d = tempfile.mkdtemp(prefix="c22-")
    v._undo(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def client(v, max_payload=5000, sizes=None):
    C = v.mod(CL)
    srv = Server(v, max_payload=max_payload)
    srv.close = lambda: None
    # at 153600 the limit is raised when the pool opens
    srv.max_envelope_size = v.choice("envelope size", [150000, 153600])
    c = C.Client("h", username="u", password="p", ssl=True, auth="negotiate")
    c.wsman = srv
    srv.say(pool_state(v, OPENED))
    M = v.mod("pypsrp.messages")
    base = Server._r_create

    def create(e):
        # the server's protocol version arrives with the opened state
        srv.script[0] = (M.SessionCapability("2.3", "2.0", "1.1.0.1"),) + srv.script[0]
        return base(srv, e)

    srv.on["create"] = create
    return C, c, srv


def output(v, *xs):
    M = v.mod("pypsrp.messages")
    r = []
    for x in xs:
        o = M.PipelineOutput()
        o.data = x
        r.append(o)
    return r


def record(v, cls, text):
    """an error or warning record that prints as this text"""
    M = v.mod("pypsrp.messages")
    m = getattr(M, cls).__new__(getattr(M, cls))

    if cls == "ErrorRecordMessage":
        m._to_string = m.to_string = text
        m.__class__ = type(cls, (type(m),), {"__str__": lambda s: text})
        return m
    m.message = text
    m.__class__ = type(cls, (type(m),), {"__str__": lambda s: text})
    return m


def failure(v):
    """the ways a server reports that a script failed"""
    r = record(v, "ErrorRecordMessage", "boom")
    how = v.choice("how it fails", ["record", "with the state", "state only"])
    return {"record": [r, pipe_state(v, FAILED)], "with the state": [pipe_state(v, FAILED, r)], "state only": [pipe_state(v, FAILED)]}[how]


def commands(v, srv):
    m = [m for m in srv.messages if m.name == "CreatePipeline"]
    v.check("one pipeline", len(m) == 1)
    return m[0].data.pipeline.commands


def params(cmd):
    return [(p.name, p.value) for p in cmd.args]


def ended(v, srv, ok=True):
    v.check("the pool is closed again", srv.kinds()[-1] == "delete" and srv.kinds().count("delete") == 1)
    v.check("no malformed fragments", not srv.frag_errors and not srv.partial)


@contract("C22", funcs=COPY, runs=120, bounded="files of up to 3 buffers (any size: copy_stream); contents arbitrary", assumes=["the local file does not change while it is copied"])
def copy_file(v):
    X = v.mod("pypsrp.exceptions")
    C, c, srv = client(v, max_payload=90 if v.symbolic else v.choice("payload", [90, 100, 5000]))
    buf = int((srv.max_payload_size - 82) / 4 * 3)
    dest = v.choice("dest", ["C:\\x.txt", "%TMP%\\x"])
    expand = v.choice("expand", [None, False, True])
    H = Hashes(v)
    if v.symbolic:
        data = v.bytes("content", 0)
        v.assume(v.len(data) <= 3 * buf)
        files = []
        v.patch(C, "hashlib", H.module())
        v.patch(C, "open", lambda p, m: (v.internal(p == b"/src/f" and m == "rb", "open"), files.append(Src(v, data)), files[-1])[-1])
        v.patch(C, "os", Only(v, "os", path=Only(v, "os.path", getsize=lambda p: v.len(data), expanduser=lambda p: "/src/f", expandvars=lambda p: p)))
        src = "/src/f"
    else:
        n = v.choice("size", [0, 1, buf - 1, buf, buf + 1, 2 * buf, 3 * buf, 3 * buf + 7])
        data = v.bytes("content", 0, cmax=n) if n < 60 and v.choice("random", [True, False]) else bytes((i * 7 + i // 251) % 256 for i in range(n))
        d = scratch(v)
        v.patch(os, "environ", dict(os.environ, C22DIR=d, HOME=d))
        name = "f\u00e9" if expand else v.choice("source name", ["f\u00e9", "$C22DIR", "~", "a b'$(x)"])
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
        src = os.path.join(d, name)
        if expand:
            src = v.choice("source to expand", ["$C22DIR/f\u00e9", "~/f\u00e9"])
        elif v.choice("relative", [False, True]):
            v._undo(lambda old=os.getcwd(): os.chdir(old))
            os.chdir(d)
            src = name
    fail = v.choice("remote", ["ok", "fails", "warns"])
    if fail == "fails":
        how = failure(v)
        srv.say(*how)
    else:
        more = [record(v, "WarningRecord", "careful")] if fail == "warns" else []
        srv.say(*(more + output(v, "C:\\out.txt \r\n") + [pipe_state(v, COMPLETED)]))
    import warnings

    kw = {} if expand is None else {"expand_variables": expand}
    with warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        box = []
        err = v.raises(X.WinRMError, lambda: box.append(c.copy(src, dest, **kw)))
    v.check("a script failure is raised, nothing else is", (err is not None) == (fail == "fails"))
    if err is None:
        v.check_eq("the path the server reported", box, ["C:\\out.txt"])
        v.check("warnings of the script are passed on", [str(w.message) for w in warned] == (["careful"] if fail == "warns" else []))
    else:
        v.check("with the server's error", len(how) == 1 and how[0].error_record is None or "boom" in str(err))
    ins = [m.data.data for m in srv.messages if m.name == "PipelineInput"]
    v.check("terminated once", [m.name for m in srv.messages].count("EndOfPipelineInput") == 1 and srv.messages[-1].name == "EndOfPipelineInput")
    v.check("some data and the hash", len(ins) >= 2)
    got = b""
    for p in ins[:-1]:
        got = got + unb64(v, p)
    v.check_eq("the whole file, in order", got, data)
    h = base64.b64decode(ins[-1]).decode()
    v.check_eq("then the hash of exactly these bytes", H.of[h] if v.symbolic else h, data if v.symbolic else hashlib.sha1(data).hexdigest())
    cmd = commands(v, srv)
    v.check("one script with destination and flag", len(cmd) == 1 and cmd[0].is_script and params(cmd[0]) == [(None, dest), (None, bool(expand))])
    ended(v, srv)


@contract("C22", funcs=["client.Client.copy"], runs=1, conc=False, assumes=["the local file does not change while it is copied"])
def copy_stream(v):
    """one step of the reading loop, for a file of any size"""
    if v.unrolled:
        return
    C, c, srv = client(v, max_payload=v.choice("payload", [400, 153600]))
    H = Hashes(v)
    data = v.bytes("content", 0)
    size = v.len(data)
    f = Src(v, data)
    opened = []
    v.patch(C, "hashlib", H.module())
    sha = []
    make = H.sha1
    C.hashlib.__dict__["sha1"] = lambda *a: (sha.append(make(*a)), sha[-1])[1]
    v.patch(C, "open", lambda p, m: (v.internal(p == b"/src/f" and m == "rb", "open"), opened.append(1), f)[-1])
    v.patch(C, "os", Only(v, "os", path=Only(v, "os.path", getsize=lambda p: size)))
    gens = []

    def invoke(self, input=None, **k):
        gens.append(input)
        run(input)
        self.output.append("x")
        return self.output

    v.contract(PS + ".PowerShell.invoke", invoke)
    box = {"end": False}

    def havoc(v, L0):
        box["pos"] = f.pos = v.int("position", 0)
        v.assume(f.pos <= size)
        sha[0].__dict__["fed"] = data[: f.pos]
        box["out"] = []
        box["in loop"] = True
        return {"offset": f.pos}

    def inv(v, L, L0):
        return [("offset is the position", L["offset"] == f.pos), ("hashed what was read", sha[0].fed == data[: f.pos])]

    def step(v, x, L, L1):
        v.check("one yield per piece", len(box["out"]) == 1)
        r = box["out"][0]
        n = v.len(data[box["pos"] : f.pos])
        v.check("progress", n >= 1)
        v.check_eq("the piece read", unb64(v, r[0]), data[box["pos"] : f.pos])
        last = v.truth(f.pos == size)
        v.check("the hash exactly with the last piece", len(r) == (2 if last else 1))
        if last:
            v.check_eq("of the whole file", H.of[base64.b64decode(r[1]).decode()], data)

    def run(g):
        box["out"] = []
        box["in loop"] = False
        for r in g:
            box["out"].append(r)
            if box["in loop"]:
                continue
        # after the loop: the position is at the end of the file
        v.check("ends at the end of the file", f.pos == size)
        if v.truth(size == 0):
            v.check("an empty file: an empty piece and the hash", len(box["out"]) == 1 and len(box["out"][0]) == 2 and box["out"][0][0] == "")
            v.check_eq("hash of nothing", H.of[base64.b64decode(box["out"][0][1]).decode()], b"")
        else:
            v.check("nothing more after the last piece", not box["out"])

    v.loop(CL + ".Client.copy.read_buffer", 1, havoc=havoc, inv=inv, step=step, pull=True, heap=lambda L0: [...])
    v.raises(Exception, c.copy, "/src/f", "dest")
    v.check("the script is fed by the reader", len(gens) == 1)


class FS:
    """temporary file and destination of a fetch"""

    def __init__(self, v, short):
        self.v, self.files, self.open, self.short = v, {}, {}, short
        self.path = {}

    def mkstemp(self, *a, **k):
        self.files["/tmp/t"] = b""
        self.open[77] = "/tmp/t"
        return 77, "/tmp/t"

    def write(self, fd, data):
        n = self.v.len(data)
        if self.short and self.v.truth(n > 0):
            n = n - 1
        self.files[self.open[fd]] = self.files[self.open[fd]] + data[:n]
        return n

    def fdopen(self, fd, mode="r", closefd=True, **k):
        self.v.internal("b" in mode and "w" in mode, "fdopen")
        fs = self

        class F:
            def write(s, data):
                fs.files[fs.open[fd]] = cat(fs.files[fs.open[fd]], data)
                return fs.v.int("written", 0) if type(data).__name__ == "SJoin" else fs.v.len(data)

            def flush(s):
                pass

            def close(s):
                if closefd:
                    fs.close(fd)

            def __enter__(s):
                return s

            def __exit__(s, *a):
                s.close()

        return F()

    def close(self, fd):
        if fd not in self.open:
            raise OSError("bad fd")
        del self.open[fd]

    def remove(self, p):
        del self.files[p]

    def copy(self, a, b, **k):
        self.files[b] = self.files[a]

    def move(self, a, b, **k):
        self.files[b] = self.files.pop(a)


@contract("C22", funcs=FETCH, runs=150, bounded="up to 3 pieces; their contents and the reported hash arbitrary", assumes=["SHA-1 collisions do not occur", "os.write may write less than asked; a buffered file writes all or raises"])
def fetch_file(v):
    X = v.mod("pypsrp.exceptions")
    C, c, srv = client(v)
    pieces = [v.bytes("piece", 0, cmax=40) for _ in range(v.choice("pieces", [0, 1, 2, 3]))]
    data = b""
    for p in pieces:
        data = data + p
    good = v.choice("reported hash", ["right", "wrong"] if v.symbolic else ["right", "wrong", "of the first piece"])
    fail = v.choice("remote fails", [False, True])
    expand = v.choice("expand", [None, False, True])
    H = Hashes(v)
    before = v.choice("destination exists", [False, True])
    short = False
    if v.symbolic:
        short = v.choice("short writes", [False, True])
        fs = FS(v, short)
        v.patch(C, "hashlib", H.module())
        v.patch(C, "tempfile", Only(v, "tempfile", mkstemp=fs.mkstemp))
        v.patch(C, "shutil", Only(v, "shutil", copy=fs.copy, copyfile=fs.copy, move=fs.move))
        v.patch(C, "os", Only(v, "os", write=fs.write, fdopen=fs.fdopen, close=fs.close, remove=fs.remove, unlink=fs.remove, path=Only(v, "os.path", expanduser=lambda p: "/dst/f", expandvars=lambda p: p)))
        dest = given = "/dst/f"
        if before:
            fs.files[dest] = b"old"
        rep = "x" * 40

        real = H.sha1

        def sha1(d=b"", **k):
            h = real(d)

            def hexdigest():
                v.check_eq("the hash is that of all the data", h.fed, data)
                return rep if good == "right" else "y" * 40

            h.__dict__["hexdigest"] = hexdigest
            return h

        C.hashlib.__dict__["sha1"] = sha1
    else:
        d = scratch(v)
        os.mkdir(os.path.join(d, "tmp"))
        os.mkdir(os.path.join(d, "dst"))
        v.patch(tempfile, "tempdir", os.path.join(d, "tmp"))
        v.patch(os, "environ", dict(os.environ, C22DIR=d, HOME=d))
        name = "f" if expand else v.choice("destination name", ["f", "$C22DIR", "~", "a b"])
        dest = given = os.path.join(d, "dst", name)
        if expand:
            given = v.choice("destination to expand", ["$C22DIR/dst/f", "~/dst/f"])
        elif v.choice("relative", [False, True]):
            v._undo(lambda old=os.getcwd(): os.chdir(old))
            os.chdir(os.path.join(d, "dst"))
            given = name
        if before:
            with open(dest, "wb") as f:
                f.write(b"old")
        rep = hashlib.sha1({"right": data, "wrong": data + b"!", "of the first piece": (pieces + [b""])[0]}[good]).hexdigest()
    texts = [b64text(v, p) for p in pieces]
    if fail:
        how = failure(v)
        srv.say(*(output(v, *(texts + [rep] if v.choice("after output", [False, True]) else [])) + how))
    else:
        srv.say(*(output(v, *texts) + output(v, rep) + [pipe_state(v, COMPLETED)]))
    kw = {} if expand is None else {"expand_variables": expand}
    err = v.raises(X.WinRMError, c.fetch, "C:\\src", given, **kw)
    same = good == "right" or (good != "wrong" and (pieces + [b""])[0] == data)
    v.check("an error exactly when the script failed or the hash differs", (err is not None) == (fail or not same))
    if fail:
        v.check("with the server's error", len(how) == 1 and how[0].error_record is None or "boom" in str(err))
    if v.symbolic:
        left = dict(fs.files)
        v.check("no descriptor stays open", not fs.open)
    else:
        left = {}
        for sub in ("tmp", "dst"):
            for n in os.listdir(os.path.join(d, sub)):
                with open(os.path.join(d, sub, n), "rb") as f:
                    left[os.path.join(d, sub, n)] = f.read()
    v.check("no temporary file stays", set(left) <= {dest})
    if err is None:
        v.check("the file is there", dest in left)
        v.check_eq("with exactly the data of all pieces, in order", left[dest], data)
    else:
        v.check("the destination is left alone", left.get(dest) == (b"old" if before else None))
    cmd = commands(v, srv)
    v.check("one script with source and flag", len(cmd) == 1 and cmd[0].is_script and params(cmd[0]) == [(None, "C:\\src"), (None, bool(expand))])
    ended(v, srv)


def same_join(v, what, x, sep, n, item):
    """x is item(0) sep item(1) ... item(n - 1)"""
    v.internal(type(x).__name__ == "SJoin", "the join of a list of any length")
    v.check(what + ": the separator", x.sep == sep)
    v.check_eq(what + ": as many", v.len(x.items), n)
    j = v.int("j", 0)
    v.assume(j < n)
    v.check_eq(what + ": piece j", x.items[j], item(j))


@contract("C22", funcs=["client.Client.fetch"], runs=1, conc=False, assumes=["SHA-1 collisions do not occur"])
def fetch_any_pieces(v):
    """however many pieces arrive, the file is all of them in order, and its hash is compared"""
    if v.unrolled:
        return
    X, P, V = v.mod("pypsrp.exceptions"), v.mod(PS), v.mod("pyvc.values")
    C, c, srv = client(v)
    H = Hashes(v)
    n = v.int("pieces", 0)
    B = v.z3fun("piece", "bytes")
    data = lambda i: B(i)
    ours, theirs = v.str("hash of the data"), v.str("hash reported")
    hashed = []

    def sha1(d=b"", **k):
        h = H.sha1(d)

        def hexdigest():
            hashed.append(h.fed)
            return ours

        h.__dict__["hexdigest"] = hexdigest
        return h

    fs = FS(v, False)
    v.patch(C, "hashlib", Only(v, "hashlib", sha1=sha1))
    v.patch(C, "tempfile", Only(v, "tempfile", mkstemp=fs.mkstemp))
    v.patch(C, "shutil", Only(v, "shutil", copy=fs.copy, copyfile=fs.copy, move=fs.move))
    v.patch(C, "os", Only(v, "os", write=fs.write, fdopen=fs.fdopen, close=fs.close, remove=fs.remove, unlink=fs.remove, path=Only(v, "os.path")))

    def invoke(ps, *a, **k):
        v.check("nothing is given as input", not a and not k)
        ps.output = V.SList([V.Seg(V._z(V.zi(n)), lambda i: b64text(v, B(i))), V.Seg(1, lambda i: theirs)])
        return ps.output

    v.patch(P.PowerShell, "invoke", invoke)
    err = v.raises(X.WinRMError, c.fetch, "C:\\src", "/dst/f")
    v.check("the hash is computed once", len(hashed) == 1)
    same_join(v, "what is hashed", hashed[0], b"", n, data)
    v.check("an error exactly when the hash differs", (err is None) == v.truth(ours == theirs))
    v.check("no temporary file stays", set(fs.files) <= {"/dst/f"} and not fs.open)
    v.check("the file is written exactly when the hash is right", ("/dst/f" in fs.files) == (err is None))
    if err is None:
        same_join(v, "the file", fs.files["/dst/f"], b"", n, data)


@contract("C22", funcs=["client.Client.execute_ps"], runs=1, conc=False)
def execute_any(v):
    """any number of variables, each set in a statement of its own before the
    script, and any number of output lines"""
    if v.unrolled:
        return
    P, V = v.mod(PS), v.mod("pyvc.values")
    C, c, srv = client(v)
    m, n, k = v.int("earlier commands", 0), v.int("variables", 1), v.int("lines", 0)
    K, X, L_ = v.z3fun("variable", "str"), v.z3fun("value", "str"), v.z3fun("line", "str")
    script = v.str("script")
    g = {}

    class Env(Fake):
        def __bool__(self):
            return True

        def items(self):
            return V.SList([V.Seg(V._z(V.zi(n)), lambda i: (K(i), X(i)))])

    def earlier(ps):
        ps.commands = V.SList([V.Seg(V._z(V.zi(m)), lambda i: Fake(v))])

    def havoc(v, j, L0, seq):
        ps = [x for x in L0.values() if isinstance(x, P.PowerShell)]
        v.internal(len(ps) == 1, "the pipeline under construction")
        g["ps"], g["seq"] = ps[0], seq
        earlier(ps[0])
        return {}

    def step(v, j, x, L, L1):
        cmds = g["ps"].commands
        v.check_eq("two commands per variable", v.len(cmds), m + 2)
        a, b = cmds[m], cmds[m + 1]
        v.check_eq("it is set by New-Item", [a.cmd, b.cmd], ["New-Item", "Out-Null"])
        v.check_eq("its arguments", [p.name for p in a.args], ["Path", "Name", "Value", "Force"])
        v.check_eq("a variable", a.args[0].value, "env:")
        v.check_eq("its name", a.args[1].value, K(j))
        v.check_eq("its value", a.args[2].value, X(j))
        v.check("whether it exists or not", a.args[3].value is True)
        v.check("in a statement of its own", a.end_of_statement is False and b.end_of_statement is True and not b.args)

    v.loop(CL + ".Client.execute_ps", 1, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [("nothing before the first", "ps" in g or all(not x.commands for x in L0.values() if isinstance(x, P.PowerShell)))], step=step, heap=lambda L0: [...])
    bad = v.bool("had errors")

    def invoke(ps, *a, **kw):
        v.check("nothing is given as input", not a and not kw)
        v.check("the pipeline with the variables", ps is g["ps"])
        v.check_eq("and the script", v.len(ps.commands), m + 2)
        x, y = ps.commands[m], ps.commands[m + 1]
        v.check_eq("the script itself", [(p.name, p.value) for p in x.args], [("Command", script)])
        v.check_eq("its commands", [x.cmd, y.cmd, y.args[0].name], ["Invoke-Expression", "Out-String", "Stream"])
        ps.output = V.SList([V.Seg(V._z(V.zi(k)), L_)])
        ps.had_errors = bad
        return ps.output

    v.patch(P.PowerShell, "invoke", invoke)
    out, streams, had = c.execute_ps(script, environment=Env(v))
    same_join(v, "the output", out, "\n", k, L_)
    v.check("the streams of that pipeline", streams is g["ps"].streams)
    v.check_eq("whether it failed", had, bad)
    v.check_eq("a turn per variable", v.len(g["seq"]), n)
    ended(v, srv)


@contract("C22", funcs=["client.Client.execute_ps"], runs=150, bounded="up to 3 output lines and 2 variables; contents arbitrary")
def execute_ps(v):
    C, c, srv = client(v)
    script = v.str("script")
    lines = [v.str("line") for _ in range(v.choice("lines", [0, 1, 2, 3]))]
    env = {"NAME%d" % i: v.str("value") for i in range(v.choice("variables", [0, 1, 2]))}
    failed = v.choice("errors", [False, True])
    how = failure(v) if failed else [pipe_state(v, COMPLETED)]
    srv.say(*(output(v, *lines) + how))
    out, streams, had = c.execute_ps(script, **({"environment": env} if env or v.choice("given", [False, True]) else {}))
    want = ""
    for i, l in enumerate(lines):
        want = want + ("\n" if i else "") + l
    v.check_eq("the output lines", out, want)
    v.check("errors as the server said", had == failed and [str(e) for e in streams.error] == (["boom"] if failed and (len(how) > 1 or how[0].error_record is not None) else []))
    cmds = commands(v, srv)
    v.check_eq("the commands", [x.cmd for x in cmds], ["New-Item", "Out-Null"] * len(env) + ["Invoke-Expression", "Out-String"])
    for i, (k, x) in enumerate(env.items()):
        v.check_eq("variable set", params(cmds[2 * i]), [("Path", "env:"), ("Name", k), ("Value", x), ("Force", True)])
        v.check("in its own statement", cmds[2 * i + 1].end_of_statement and not cmds[2 * i].end_of_statement)
    v.check_eq("the script", params(cmds[-2])[0][1], script)
    v.check_eq("as text", params(cmds[-1])[0][0], "Stream")
    ended(v, srv)


@contract("C22", funcs=["client.Client.execute_cmd"], runs=150, bounded="up to 2 answers of up to 2 pieces; contents arbitrary")
def execute_cmd(v):
    C = v.mod(CL)
    srv = RawServer(v)
    c = C.Client("h", username="u", password="p", ssl=True, auth="negotiate")
    c.wsman = srv
    CS = "http://schemas.microsoft.com/wbem/wsman/1/windows/shell/CommandState/"
    env = v.choice("environment", [None, {"A": "b"}])
    enc = v.choice("encoding", [None, "utf-16-le"] if v.symbolic else [None, "utf-8", "437", "utf-16-le"])
    outs = {"stdout": [], "stderr": []}
    n = v.choice("answers", [1, 2])
    code = v.choice("exit code", [None, -5] if v.symbolic else [None, 0, 1, -5, 3221225786])
    rounds = []
    for i in range(n):
        rounds.append([(v.choice("stream", ["stdout", "stderr"]), v.choice("text", ["", "ab\u00e9"] if v.symbolic else ["", "ab\u00e9", "x\n"])) for _ in range(v.choice("pieces", [0, 1] if v.symbolic else [0, 1, 2]))])
    e = enc or "437"
    left = list(rounds)

    def receive(ev):
        b = body()
        r = ET.SubElement(b, "{%s}ReceiveResponse" % RSP)
        for name, text in left.pop(0):
            outs[name].append(text)
            ET.SubElement(r, "{%s}Stream" % RSP, Name=name).text = base64.b64encode(text.encode(e)).decode() or None
        s = ET.SubElement(r, "{%s}CommandState" % RSP, State=CS + ("Running" if left else "Done"))
        if not left and code is not None:
            ET.SubElement(s, "{%s}ExitCode" % RSP).text = str(code)
        return b

    srv.on["receive"] = receive
    cmd = v.str("command", nonempty=True)
    so, se, rc = c.execute_cmd(cmd, environment=env, **({"encoding": enc} if enc else {}))
    v.check("decoded output", so == "".join(outs["stdout"]))
    v.check("decoded errors", se == "".join(outs["stderr"]))
    v.check_eq("exit code, -1 when none", rc, -1 if code is None else code)
    k = srv.kinds()
    v.check_eq("the requests", k, ["create", "command"] + ["receive"] * n + ["signal", "delete"])
    ev = srv.log[1]
    v.check_eq("the command", ev.resource.find("{%s}Command" % RSP).text, cmd)
    got = [(x.attrib["Name"], x.text) for x in srv.log[0].resource.iter("{%s}Variable" % RSP)]
    v.check_eq("environment", got, list((env or {}).items()))


CLIXML = ["client.Client.sanitise_clixml"]


def encoded(t):
    """as PowerShell escapes a text"""
    out = ""
    for i, c in enumerate(t):
        esc = c < " " or "\x7f" <= c <= "\x9f" or (c == "_" and re.match("_[xX][0-9A-Fa-f]{4}_", t[i:]))
        out += "_x%04X_" % ord(c) if esc else c
    return out


def cleaned(v, parts):
    """the document PowerShell writes to stderr, and the ghost of its errors"""
    ns = v.choice("namespace", ["http://schemas.microsoft.com/powershell/2004/04", "urn:x"])
    root = ET.Element("{%s}Objs" % ns, Version="1.1.0.1")
    for kind, text in parts:
        e = ET.SubElement(root, "{%s}%s" % (ns, "Obj" if kind == "object" else "S"), S={"object": "progress", "other": "Error"}.get(kind, kind))
        if kind == "object":
            e = ET.SubElement(ET.SubElement(e, "{%s}MS" % ns), "{%s}S" % ns, N="x")
        e.text = text
    return root


@contract("C22", funcs=CLIXML, runs=400, bounded="documents of up to 3 records, texts arbitrary")
def clixml(v):
    """the errors in a CLIXML document, decoded and in order, and nothing else"""
    C = v.mod(CL)
    plain = []
    parts = []
    for _ in range(v.choice("records", [0, 1, 2, 3])):
        kind = v.choice("record", ["Error", "verbose", "object"])
        t = v.choice("text", ["some", None])
        parts.append((kind, t if t is None else v.str("record", pool=["a : b", "line", "x"])))
    end = v.choice("line end", ["\r\n", "\n", ""])
    decl = v.choice("declaration", ["", "<?xml version='1.0'?>"]) if not v.symbolic else ""
    if v.symbolic:
        v.contract("pypsrp.serializer.Serializer._deserialize_string", lambda self, t: ("decoded", t))
        root = cleaned(v, parts)
        v.patch(ET, "fromstring", lambda t, *a, **k: (v.check("the document", t == "<Objs/>"), root)[1])
        got = C.Client.sanitise_clixml("#< CLIXML" + end + "<Objs/>")
        want = ""
        for kind, t in parts:
            if kind == "Error" and t is not None:
                want = want + t if not isinstance(want, str) or want else t
        ok = isinstance(got, tuple) and got[0] == "decoded"
        v.check("decoded once", ok)
        if ok:
            v.check_eq("the errors in order", got[1], want)
        return
    parts = [(k, t if t is None else "".join(c for c in t if c in "\t\n\r" or " " <= c and not "\ud7ff" < c < "\ue000" and c not in "\ufffe\uffff")) for k, t in parts]
    root = cleaned(v, [(k, t if t is None else encoded(t)) for k, t in parts])
    got = C.Client.sanitise_clixml("#< CLIXML" + end + decl + ET.tostring(root, "unicode"))
    v.check_eq("the errors in order", got, "".join(t for k, t in parts if k == "Error" and t is not None))


@contract("C22", funcs=CLIXML, runs=1, conc=False)
def clixml_any(v):
    """any number of errors"""
    if v.unrolled:
        return
    C, V = v.mod(CL), v.mod("pyvc.values")
    n = v.int("errors", 0)
    T = v.z3fun("text", "str")
    asked = []

    class Record(Fake):
        def __init__(self, text):
            super().__init__(v)
            self.text = text

    class Root(Fake):
        tag = "{urn:x}Objs"

        def findall(self, path, *a):
            asked.append(path)
            return V.SList([V.Seg(V._z(V.zi(n)), lambda i: Record(T(i)))])

    so_far = lambda j: V.SList([V.Seg(V._z(V.zi(j)), T)])

    def inv(v, j, L, L0, seq):
        l = [x for x in L.values() if isinstance(x, (list, V.SList)) and x is not seq]
        v.internal(len(l) == 1, "the texts collected")
        out = [("as many as turns", v.len(l[0]) == j)]
        if isinstance(l[0], V.SList) and v.truth(j > 0):
            i = v.int("i", 0)
            v.assume(i < j)
            out.append(("each is its error's", l[0][i] == T(i)))
        return out

    v.loop(CL + ".Client.sanitise_clixml", 1, whole=True, havoc=lambda v, j, L0, seq: {k: so_far(j) for k, x in L0.items() if isinstance(x, list)}, inv=inv)
    v.contract("pypsrp.serializer.Serializer._deserialize_string", lambda self, t: ("decoded", t))
    v.patch(ET, "fromstring", lambda t, *a, **k: Root(v))
    got = C.Client.sanitise_clixml("#< CLIXML\r\n<Objs/>")
    v.check("the records of the error stream are looked for", asked == ["{urn:x}S[@S='Error']"])
    ok = isinstance(got, tuple) and got[0] == "decoded"
    v.check("decoded once", ok)
    if ok:
        same_join(v, "the errors", got[1], "", n, T)


@contract("C22", funcs=CLIXML, runs=200)
def not_clixml(v):
    """any other text stays as it is"""
    C = v.mod(CL)
    t = v.str("text", pool=["stderr line", "", "#< CLIX", " #< CLIXML\r\n<Objs/>", "<Objs/>", "error #< CLIXML"])
    v.assume(v.not_(t.startswith("#< CLIXML")))
    v.check_eq("unchanged", C.Client.sanitise_clixml(t), t)
