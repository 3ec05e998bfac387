"""Framing of encrypted messages."""
import re

from pyvc.harness import contract

from .http import *

E = "pypsrp.encryption"
CREDSSP = "application/HTTP-CredSSP-session-encrypted"
PROTOCOLS = [CREDSSP, "application/HTTP-Kerberos-session-encrypted", "application/HTTP-SPNEGO-session-encrypted"]
SIZE = 16384
WRAP = ["encryption.WinRMEncryption.wrap_message", "encryption.WinRMEncryption._wrap_message"]
UNWRAP = ["encryption.WinRMEncryption.unwrap_message"]
CLOSE = b"--Encrypted Boundary--\r\n"


def decimal(v, n):
    """the ASCII digits of a number"""
    if is_sym(n):
        M = v.mod("pyvc.models")
        return M._encode_part(M.int_str(n).e, "utf-8")
    return b"%d" % n


def le32(v, n):
    return v.enc(4, "<", n)


def part(v, protocol, length, header, data, dash=b"--"):
    """one part, as MS-WSMV describes it"""
    return (
        dash + b"Encrypted Boundary\r\n\tContent-Type: " + protocol.encode() + b"\r\n\tOriginalContent: type=application/soap+xml;charset=UTF-8;Length="
    ) + (decimal(v, length) + (b"\r\n" + dash + b"Encrypted Boundary\r\n\tContent-Type: application/octet-stream\r\n" + (le32(v, v.len(header)) + (header + data))))


class Ctx:
    def __init__(self, v):
        self.v, self.log = v, []

    def wrap_winrm(self, data):
        v = self.v
        r = (v.bytes("security header", hi=2**31 - 1, cmax=20), v.bytes("ciphertext", cmax=40), v.int("padding", 0, None, cmax=16))
        self.log.append((data, r))
        return r


@contract("C18", funcs=WRAP, runs=150)
def one_part(v):
    """every message that is not a large CredSSP one: a single part"""
    ctx = Ctx(v)
    p = v.choice("protocol", PROTOCOLS)
    if v.symbolic:
        m = v.bytes("message", hi=SIZE if p == CREDSSP else None)
    else:
        n = v.choice("length", [0, 1, 5, 100, SIZE - 1, SIZE] + ([SIZE + 1, 50000] if p != CREDSSP else []))
        m = (v.bytes("message", lo=1, cmax=40) * (n + 1))[:n]
    kind, out = v.mod(E).WinRMEncryption(ctx, p).wrap_message(m)
    v.check_eq("content type", kind, "multipart/encrypted")
    v.check("wrapped at once", len(ctx.log) == 1)
    data, (h, c, pad) = ctx.log[0]
    v.check_eq("the whole message", data, m)
    v.check_eq("one part and the closing boundary", out, part(v, p, v.len(m) + pad, h, c) + CLOSE)


@contract("C18", funcs=WRAP, runs=60, sym=False, bounded="concrete, at most 12 slices (the step contract covers any number)")
def slices(v):
    """a large CredSSP message: one part per 16 KiB, covering it exactly"""
    ctx = Ctx(v)
    n = v.choice("length", [SIZE + 1, 2 * SIZE - 1, 2 * SIZE, 2 * SIZE + 1, 3 * SIZE, 5 * SIZE + 77, 12 * SIZE])
    m = (v.bytes("message", lo=3, cmax=40) * (n + 1))[:n]
    kind, out = v.mod(E).WinRMEncryption(ctx, CREDSSP).wrap_message(m)
    v.check_eq("content type", kind, "multipart/x-multi-encrypted")
    want = b""
    for i, (data, (h, c, pad)) in enumerate(ctx.log):
        v.check_eq("consecutive slices", data, m[i * SIZE : (i + 1) * SIZE])
        want = want + part(v, CREDSSP, v.len(data) + pad, h, c)
    k = len(ctx.log)
    v.check("exactly covering the message", v.and_((k - 1) * SIZE < v.len(m), v.len(m) <= k * SIZE))
    v.check_eq("the parts in order and one closing boundary", out, want + CLOSE)


@contract("C18", funcs=WRAP, runs=1, conc=False)
def slice_step(v):
    """any number of slices: each turn appends the part of the next one"""
    if v.unrolled:
        return
    ctx = Ctx(v)
    m = v.bytes("message", lo=SIZE + 1)
    g = {}

    def name(L0):
        """the local the document is collected in"""
        l = [k for k, x in L0.items() if isinstance(x, bytes) and x == b"" or is_sym(x) and x is g.get("before")]
        v.internal(len(l) == 1, "the document under construction")
        return l[0]

    def havoc(v, j, L0, seq):
        g["name"] = name(L0)
        g["before"] = v.bytes("document so far")
        g["seq"] = seq
        del ctx.log[:]
        return {g["name"]: g["before"]}

    def inv(v, j, L, L0, seq):
        return []

    def step(v, j, x, L, L1):
        v.check("one wrapping per slice", len(ctx.log) == 1)
        data, (h, c, pad) = ctx.log[0]
        v.check_eq("slice j of the message", data, m[j * SIZE : j * SIZE + SIZE])
        v.check_eq("its part is appended", L1[g["name"]], g["before"] + part(v, CREDSSP, v.len(data) + pad, h, c))

    v.loop(E + ".WinRMEncryption.wrap_message", 1, whole=True, havoc=havoc, inv=inv, step=step, heap=lambda L0: [...])
    kind, out = v.mod(E).WinRMEncryption(ctx, CREDSSP).wrap_message(m)
    v.check_eq("content type", kind, "multipart/x-multi-encrypted")
    v.check_eq("one closing boundary", out, g["before"] + CLOSE)
    k = v.len(g["seq"])
    v.check("as many slices as cover the message", v.and_((k - 1) * SIZE < v.len(m), v.len(m) <= k * SIZE))


def free(v, name, **kw):
    """bytes without the boundary marker"""
    if v.symbolic:
        from pyvc.values import KBase, SBytes

        b = v.bytes(name, **kw)
        c = b.chunks[0]
        return SBytes([KBase(c.arr, 0, c.n, ("free",))])
    if v.choice("special " + name, [False, False, True]):
        b = v.choice(name + " with", [b"\tContent-Type: application/octet-stream\r\n", b"--", b"\r\n", b" \r\n--", b"Length=", b"\x00\x00\x00\x00", b"a\tContent-Type: application/octet-stream\r\nb\tContent-Type: application/octet-stream\r\n", b"x--Encrypted Boundary--\r\ny", b"\r\nEncrypted Boundary\r\n", b"Encrypted Boundary"])
    else:
        b = v.bytes(name, **kw)
        v.assume(b"Encrypted Boundary" not in b)
    return b


class Opener:
    def __init__(self, v, plain):
        self.v, self.plain, self.log = v, plain, []

    def unwrap_winrm(self, header, data):
        self.log.append((header, data))
        return self.plain[len(self.log) - 1]


@contract("C18", funcs=UNWRAP, runs=400, bounded="at most 3 parts (of any content and length) symbolically, 40 concretely (unwrap_any_number: any number)", assumes=["security headers and ciphertexts do not contain the boundary marker"])
def unwrap(v):
    """every document of parts"""
    X = v.mod("pypsrp.exceptions")
    n = v.choice("parts", [1, 2, 3] if v.symbolic else [1, 2, 3, 9, 40])
    dash = v.choice("boundary", [b"--", b"-- "])
    p = v.choice("protocol", PROTOCOLS)
    doc_, plain, want, fits = b"", [], [], []
    for i in range(n):
        h, c = free(v, "security header", hi=2**31 - 1, cmax=30), free(v, "ciphertext", cmax=60)
        if not v.symbolic:
            v.assume(not re.search(rb"--\s*Encrypted Boundary(--)?(\r\n)?($|\r\n)", h + c) or (h + c).endswith(b"y"))
            v.assume(not re.search(rb"--\s*Encrypted Boundary\r\n", h + c))
        t = v.bytes("plain text", cmax=30)
        if not v.symbolic and n <= 3:
            t = t * v.choice("times", [1, 1, 1, 700, 70000])
        ln = v.int("declared length", 0, None) if v.symbolic or v.choice("wrong", [False, False, True]) else len(t)
        doc_ = doc_ + part(v, p, ln, h, c, dash)
        plain.append(t)
        want.append((h, c))
        fits.append(ln == v.len(t))
    doc_ = doc_ + dash + CLOSE[2:]
    ctx = Opener(v, plain)
    box = []
    err = v.raises(X.WinRMError, lambda: box.append(v.mod(E).WinRMEncryption(ctx, p).unwrap_message(doc_, "Encrypted Boundary")))
    good = v.and_(*fits)
    v.check("rejected exactly when a length does not match", v.iff(err is None, good))
    k = len(ctx.log)
    v.check("no part is skipped", k == n or err is not None)
    for (gh, gc), (h, c) in zip(ctx.log, want):
        v.check_eq("the security header unchanged", gh, h)
        v.check_eq("the ciphertext unchanged", gc, c)
    if err is None:
        v.check_eq("the results in order", box[0], cat(plain))


@contract("C18", funcs=UNWRAP, runs=1, conc=False, assumes=["security headers and ciphertexts do not contain the boundary marker"])
def unwrap_any_number(v):
    """any number of parts: each turn opens the next part and appends its text"""
    if v.unrolled:
        return
    import z3
    from pyvc.values import ISort, KBase, SBytes, SDocument, _z, mkint, zi

    X = v.mod("pypsrp.exceptions")
    n = v.int("parts", 1)
    dash = v.choice("boundary", [b"--", b"-- "])
    p = v.choice("protocol", PROTOCOLS)
    arr = z3.ArraySort(ISort, ISort)

    def family(name, hi=None):
        """arbitrary bytes for every number of a part"""
        F, L = z3.Function(v.E.fresh_name(name), ISort, arr), z3.Function(v.E.fresh_name(name + " length"), ISort, ISort)

        def at(i):
            i = z3.simplify(_z(zi(i)))
            v.E.fact(L(i) >= 0)
            if hi is not None:
                v.E.fact(L(i) <= hi)
            return SBytes([KBase(F(i), 0, L(i), ("free",))])

        return at

    H, C, T = family("security header", 2**31 - 1), family("ciphertext"), family("plain text")
    D = z3.Function(v.E.fresh_name("declared length"), ISort, ISort)

    def declared(i):
        i = z3.simplify(_z(zi(i)))
        v.E.fact(D(i) >= 0)
        return mkint(D(i))

    g = {"turn": None}

    class Opener:
        def __init__(self):
            self.log = []

        def unwrap_winrm(self, header, data):
            v.internal(g["turn"] is not None, "opened in a turn")
            self.log.append((header, data))
            return T(g["turn"])

    ctx = Opener()

    def havoc(v, j, L0, seq):
        l = [k for k, x in L0.items() if isinstance(x, bytes) and x == b"" or is_sym(x) and x is g.get("before")]
        v.internal(len(l) == 1, "the text under construction")
        g["name"], g["before"], g["turn"], g["turns"] = l[0], v.bytes("text so far"), j, v.len(seq)
        del ctx.log[:]
        return {l[0]: g["before"]}

    def opened():
        j = g["turn"]
        v.check("one opened per part", len(ctx.log) == 1)
        v.check_eq("the security header unchanged", ctx.log[0][0], H(j))
        v.check_eq("the ciphertext unchanged", ctx.log[0][1], C(j))

    def step(v, j, x, L, L1):
        opened()
        v.check("the length is the declared one", v.len(T(j)) == declared(j))
        v.check_eq("its text is appended", L1[g["name"]], g["before"] + T(j))

    v.loop(E + ".WinRMEncryption.unwrap_message", 1, whole=True, havoc=havoc, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [...])
    doc_ = SDocument(b"", n, lambda i: part(v, p, declared(i), H(i), C(i), dash), dash + CLOSE[2:])
    box = []
    err = v.raises(X.WinRMError, lambda: box.append(v.mod(E).WinRMEncryption(ctx, p).unwrap_message(doc_, "Encrypted Boundary")))
    if err is not None:
        opened()
        v.check("rejected only for another length", v.len(T(g["turn"])) != declared(g["turn"]))
        return
    v.check_eq("one turn per part", g["turns"], n)
    v.check_eq("the texts in order", box[0], g["before"])


def cat(l):
    r = b""
    for x in l:
        r = r + x
    return r


@contract("C18", funcs=WRAP + UNWRAP, runs=150, bounded="at most 3 parts")
def round_trip(v):
    """what was wrapped is unwrapped again"""
    p = v.choice("protocol", PROTOCOLS)
    if v.symbolic:
        m = v.bytes("message", lo=1, hi=SIZE)
    else:
        k = v.choice("length", [1, 40, SIZE, SIZE + 1, 3 * SIZE - 1])
        m = (v.bytes("message", lo=1, cmax=40) * (k + 1))[:k]

    class Both:
        def __init__(self):
            self.made, self.at = [], 0

        def wrap_winrm(self, data):
            h, c = free(v, "security header", hi=2**31 - 1, cmax=20), free(v, "ciphertext", cmax=30)
            if not v.symbolic:  # nor together with what is before it
                v.assume(not re.search(rb"--\s*Encrypted Boundary\r\n", len(h).to_bytes(4, "little") + h + c))
            self.made.append((h, c, data))
            return h, c, 0

        def unwrap_winrm(self, header, data):
            h, c, d = self.made[self.at]
            self.at += 1
            v.check_eq("the header again", header, h)
            v.check_eq("the ciphertext again", data, c)
            return d

    e = v.mod(E).WinRMEncryption(Both(), p)
    kind, out = e.wrap_message(m)
    v.check_eq("the message again", e.unwrap_message(out, "Encrypted Boundary"), m)


@contract("C18", funcs=["wsman._TransportHTTP._send_request"], runs=150, sym=False, bounded="concrete documents", assumes=["the HTTP response layer of requests"])
def answers(v):
    """an encrypted HTTP answer, successful or not, is unwrapped by the current
    context before it is looked at"""
    kind = v.choice("kind", ["multipart/encrypted", "multipart/x-multi-encrypted"])
    p = v.choice("protocol", PROTOCOLS)
    n = v.choice("parts", [1, 2, 3])
    dash = v.choice("boundary", [b"--", b"-- "])
    plain = [v.bytes("plain text", cmax=30) for _ in range(n)]
    d = cat([part(v, p, len(t), b"h", b"c%d" % i, dash) for i, t in enumerate(plain)]) + dash + CLOSE[2:]
    status = v.choice("status", [200, 500])
    w, s = connect(v, lambda k, request, tm: response(v, status, d, '%s;protocol="%s";boundary="Encrypted Boundary"' % (kind, p)), auth="negotiate")
    ctx = Opener(v, plain)
    w.transport.encryption = v.mod(E).WinRMEncryption(ctx, p)
    box = []
    try:
        text = cat(plain).decode("utf-8")
    except UnicodeDecodeError:
        v.assume(False)
    err = v.raises(Exception, lambda: box.append(w.transport.send(b"<m/>")))
    v.check_eq("every part unwrapped", ctx.log, [(b"h", b"c%d" % i) for i in range(n)])
    if status == 200:
        v.check("the unwrapped document", err is None and box == [cat(plain)])
    else:
        v.check("the unwrapped text of the error", type(err).__name__ == "WinRMTransportError" and err.response_text == text)
