"""Secure strings and the session key exchange."""
import base64
import functools
import struct
import xml.etree.ElementTree as ET

from pyvc.harness import contract

from .lib import *

SER = "pypsrp.serializer"
CO = "pypsrp.complex_objects"
SS_FN = ["serializer.Serializer._serialize_secure_string", "serializer.Serializer._deserialize_secure_string"]
EX = ["powershell.RunspacePool.exchange_keys"]
KEY = ["powershell.RunspacePool._process_encrypted_session_key"]

# MS-PSRP 2.2.2.3: PUBLICKEYSTRUC and RSAPUBKEY of a 2048-bit key
HEADER = bytes([6, 2, 0, 0, 0, 0xA4, 0, 0]) + b"RSA1" + struct.pack("<I", 2048)


def aes(key, data, encrypt):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    c = Cipher(algorithms.AES(key), modes.CBC(bytes(16)))
    c = c.encryptor() if encrypt else c.decryptor()
    return c.update(data) + c.finalize()


def reference(key, text):
    b = text.encode("utf-16-le", "surrogatepass")
    pad = 16 - len(b) % 16
    return base64.b64encode(aes(key, b + bytes([pad]) * pad, True)).decode()


def plain(key, b64):
    b = aes(key, base64.b64decode(b64), False)
    return b[: -b[-1]].decode("utf-16-le")


class Numbers:
    def __init__(self, n, e):
        self.n, self.e = n, e


class Key:
    """a private key as the rsa package makes it"""

    def __init__(self, n, e, result=b"K" * 32):
        self.numbers, self.result, self.asked = Numbers(n, e), result, []

    def public_key(self):
        return self

    def public_numbers(self):
        return self.numbers

    def decrypt(self, data, pad):
        self.asked.append((data, pad))
        return self.result


def keys(v, P, make):
    made = []

    def generate_private_key(public_exponent=None, key_size=None, backend=None):
        made.append((public_exponent, key_size, make()))
        return made[-1][2]

    v.need(P, "rsa")
    v.patch(P.rsa, "generate_private_key", generate_private_key)
    return made


def answer(srv, key=b"\x00" * 12 + b"x" * 256):
    return srv.MSG.EncryptedSessionKey(session_key=base64.b64encode(key).decode())


class Time:
    """the time module"""

    def __init__(self, now):
        self.time = now
        self.monotonic = self.perf_counter = now

    def sleep(self, s):
        pass


def public(v, srv):
    return [m for m in srv.messages if m.name == "PublicKey"]


def blob_of(m):
    """the bytes a PUBLIC_KEY message carries"""
    t = m.data.public_key
    if isinstance(t, str):
        return base64.b64decode(t)
    from pyvc import models

    return models.b64decode(t)


@contract("C07", funcs=EX, runs=60)
def public_key(v):
    """the blob: for every modulus and exponent"""
    P = v.mod(PS)
    srv = Server(v)
    pool = new_pool(v, srv, OPENED)
    n = v.int("modulus", 1 << 2047, (1 << 2048) - 1)
    e = v.int("exponent", 3, (1 << 32) - 1)
    made = keys(v, P, lambda: Key(n, e))
    srv.script = [(answer(srv),)]
    pool.exchange_keys()
    v.check("one fresh key of 2048 bits", len(made) == 1 and made[0][1] == 2048 and made[0][0] == 65537)
    sent = public(v, srv)
    v.check("the public key is sent once", len(sent) == 1)
    v.check("on stdin, for the pool", len(sent) == 1 and sent[0].pid is None and all(x == ("send", "stdin", None) for x in sent[0].via))
    if len(sent) != 1:
        return
    b = blob_of(sent[0])
    v.check("16 bytes of header, 4 of exponent, 256 of modulus", v.len(b) == 16 + 4 + 256)
    v.check_eq("the header", b[:16], HEADER)
    v.check_eq("the little-endian exponent", b[16:20], v.enc(4, "<", e))
    for k in range(256):
        v.check("the little-endian modulus", b[20 + k] == (n >> (8 * k)) % 256 if not v.symbolic else byte_is(v, b[20 + k], n, k))


def byte_is(v, b, n, k):
    from pyvc import values as V

    return V.mkbool(V._z(V.zi(b)) == (n.e / (1 << (8 * k))) % 256)


@contract("C07", funcs=KEY, runs=60)
def session_key(v):
    """any reply: the decryption of the byte-reversed blob behind its header,
    used as the AES key of everything that follows"""
    P = v.mod(PS)
    srv = Server(v)
    pool = new_pool(v, srv, OPENED)
    K = v.choice("size", [32, 16, 24])
    secret = bytes(range(7, 7 + K))
    k = Key(1 << 2047, 65537, secret)
    keys(v, P, lambda: k)
    head = v.bytes("head", 12, 12)
    enc = v.bytes("encrypted", 0, 4096, cmax=300)
    whole = head + enc
    if v.symbolic:
        from pyvc import models

        b64 = models.b64encode(whole)
        text = b64.decode("ascii")
    else:
        text = base64.b64encode(whole).decode()
    srv.script = [(srv.MSG.EncryptedSessionKey(session_key=text),)]
    pool.exchange_keys()
    v.check("decrypted once", len(k.asked) == 1)
    data, pad = k.asked[0]
    from cryptography.hazmat.primitives.asymmetric import padding

    v.check("with the PKCS1 padding", isinstance(pad, padding.PKCS1v15))
    v.check_eq("reversed, without the header", data, enc[::-1] if v.symbolic else bytes(reversed(enc)))
    v.check("nothing else is asked of the server", len(public(v, srv)) == 1)
    t = v.choice("text", ["", "a", "secret \u00e9", "x" * 7, "x" * 8, "\U0001f600"])
    el = pool.serialize(t, v.mod(CO).ObjectMeta("SS"))
    v.check("secure strings are encrypted with it", el.tag == "SS" and el.text == reference(secret, t))


@contract("C07", funcs=EX + KEY + SS_FN, runs=6, thorough_runs=30, sym=False)
def real_exchange(v):
    """with real keys, against a server written from the specification"""
    from cryptography.hazmat.primitives.asymmetric import padding, rsa

    srv = Server(v)
    pool = new_pool(v, srv, OPENED)
    secret = v.bytes("secret", 32, 32)

    def reply():
        b = blob_of(public(v, srv)[-1])
        v.check("the header", b[:16] == HEADER and len(b) == 276)
        e, n = int.from_bytes(b[16:20], "little"), int.from_bytes(b[20:], "little")
        enc = rsa.RSAPublicNumbers(e, n).public_key().encrypt(secret, padding.PKCS1v15())
        return (answer(srv, v.bytes("header", 12, 12) + enc[::-1]),)

    srv.script = [(), reply] if v.bool("late") else [reply]
    pool.exchange_keys()
    for _ in range(3):
        t = v.str("text")
        el = pool.serialize(t, v.mod(CO).ObjectMeta("SS"))
        v.check("encrypted under the session key", plain(secret, el.text) == t)
        v.check("deserialised again", pool._serializer.deserialize(el) == t)


# ---- waiting -----------------------------------------------------------------
@contract("C07", funcs=EX, runs=1, conc=False)
def waits(v):
    """any number of messages before the key, any passing of time"""
    if v.unrolled:
        return
    from pyvc import values as V
    import z3

    P = v.mod(PS)
    srv = Server(v)
    limit = v.int("timeout", 0)
    pool = new_pool(v, srv, OPENED, session_key_timeout_ms=limit)
    v.need(pool, "_key_exchanged")
    keys(v, P, lambda: Key((1 << 2047) + 1, 65537))
    clock = [v.real("t0", 0)]
    start = clock[0]
    reads, rounds = [], []

    def now():
        t = v.real("t")
        v.assume(t >= clock[0])
        clock[0] = t
        reads.append(t)
        return t

    v.patch(P, "time", Time(now))

    def receive(self, *a, **k):
        rounds.append(len(public(v, srv)))
        pool._key_exchanged = v.truth(v.sbool("arrived"))

    v.contract("pypsrp.powershell.RunspacePool._receive", receive)
    began = {}

    def havoc(v, L0):
        if not began:
            began["t"] = reads[0] if reads else None
        pool._key_exchanged = v.truth(v.sbool("before"))
        t = v.real("later")
        v.assume(t >= clock[0])
        clock[0] = t
        began["n"] = len(reads)
        began["r"] = len(rounds)
        return {}

    def step(v, L, L1):
        v.check("one round of receiving", len(rounds) == began["r"] + 1)
        new = reads[began["n"] :]
        v.check("within the time limit", len(new) >= 1 and ms(new[0] - began["t"]) <= limit)

    def ms(d):
        return V.mkint(z3.ToInt(V.zr(d) * 1000))

    v.loop("pypsrp.powershell.RunspacePool.exchange_keys", ("while", 1), havoc=havoc, inv=lambda v, L, L0: [("the public key is sent once", len(public(v, srv)) == 1)], step=step, heap=lambda L0: [pool])
    try:
        pool.exchange_keys()
        v.check("returns with the key", pool._key_exchanged is True)
    except v.mod("pypsrp.exceptions").InvalidPSRPOperation:
        v.check("fails only without the key", pool._key_exchanged is not True)
        v.check("fails only after the time limit", ms(clock[0] - began["t"]) > limit)
    v.check("the public key is sent once", len(public(v, srv)) == 1)


@contract("C07", funcs=EX, runs=200, bounded="at most 3 answers before the key")
def interleaved(v):
    """started by the user, by the server or by both; other messages arrive
    before the key; asked again afterwards"""
    P = v.mod(PS)
    srv = Server(v)
    pool = new_pool(v, srv, OPENED, session_key_timeout_ms=v.choice("timeout", [60000, 1000] if v.symbolic else [60000, 1000, 0, 500, 1500, 999]))
    k = Key((1 << 2047) + 1, 65537, b"s" * 32)
    made = keys(v, P, lambda: k)
    clock = [100.0]
    v.patch(P, "time", Time(lambda: clock[0]))
    n = v.choice("before", [0, 1, 2, 3])
    order = [v.choice("m%d" % i, ["nothing", "request", "event"]) for i in range(n)]
    pace = v.choice("pace", [0.125, 20.0] if v.symbolic else [0.0, 0.125, 0.5, 0.875, 1.5, 20.0])

    def say(what):
        def item():
            clock[0] += pace
            if what == "request":
                return (srv.MSG.PublicKeyRequest(),)
            if what == "event":
                return (v.mod("pypsrp.messages").UserEvent(event_id=1),)
            if what == "key":
                return (answer(srv),)
            return ()

        return item

    by_server = v.choice("by server", [False, True])
    limit = pool.session_key_timeout_ms
    rounds = len(order) + 1
    late = limit < int((rounds - 1) * pace * 1000)
    srv.script = [say(w) for w in order] + [say("key")]
    X = v.mod("pypsrp.exceptions")
    failed = None
    if by_server:
        srv.script.insert(0, say("request"))
        v.need(pool, "_receive")
        failed = v.raises(X.InvalidPSRPOperation, pool._receive)
    else:
        failed = v.raises(X.InvalidPSRPOperation, pool.exchange_keys)
    v.check("the public key is sent once", len(public(v, srv)) == 1 and len(made) == 1)
    v.check("fails exactly when the time is over", (failed is not None) == late)
    SERIAL = v.mod(SER)
    meta = v.mod(CO).ObjectMeta("SS")
    if failed is not None:
        v.check("no key, no secure string", v.raises(X.SerializationError, pool.serialize, "x", meta) is not None)
        return
    v.check("until the key is there", not srv.script and len(k.asked) == 1)
    v.check("encrypted with the key", pool.serialize("x", meta).text == reference(b"s" * 32, "x"))
    polls = len(srv.polls)
    pool.exchange_keys()
    v.check("an exchange that is done is not repeated", len(public(v, srv)) == 1 and len(srv.polls) == polls and len(made) == 1)
    srv.script = [(srv.MSG.PublicKeyRequest(),)]
    v.need(pool, "_receive")
    pool._receive()
    v.check("nor when the server asks again", len(public(v, srv)) == 1 and len(made) == 1)
    v.check("encrypted with the key", pool.serialize("y", meta).text == reference(b"s" * 32, "y"))


# ---- secure strings ------------------------------------------------------------
class Flow:
    """an incremental transformation: what goes in, what comes out"""

    def __init__(self, v, name, outs):
        self.v, self.name, self.outs, self.given, self.done = v, name, list(outs), b"", False

    def update(self, data):
        self.v.check("%s: updated before it is finalised" % self.name, not self.done)
        self.given = self.given + data
        return self.outs.pop(0) if len(self.outs) > 1 else b""

    def finalize(self):
        self.v.check("%s: finalised once" % self.name, not self.done)
        self.done = True
        r = b""
        for o in self.outs:
            r = r + o
        self.outs = []
        return r


@contract("C07", funcs=SS_FN, runs=1, conc=False, assumes=["PKCS7: unpadding inverts padding; AES-CBC: decryption inverts encryption (cryptography package)"])
def flow(v):
    """all data goes through padding and encryption, in this order, and back;
    for every string"""
    from pyvc import models

    S = v.mod(SER)
    ser = S.Serializer()
    v.need(S, "PKCS7")
    s = v.str("s")
    blocks = []
    pads = []

    class Pad:
        def __init__(self, size):
            blocks.append(size)

        def padder(self):
            pads.append(Flow(v, "pad", [v.bytes("p1"), v.bytes("p2")]))
            pads[-1].result = pads[-1].outs[0] + pads[-1].outs[1]
            return pads[-1]

        def unpadder(self):
            pads.append(Flow(v, "unpad", unpadded))
            return pads[-1]

    v.patch(S, "PKCS7", Pad)
    ciph = []

    class Alg:
        block_size = 128

    class Cipher:
        algorithm = Alg()

        def encryptor(self):
            ciph.append(Flow(v, "encrypt", [v.bytes("e1"), v.bytes("e2")]))
            ciph[-1].result = ciph[-1].outs[0] + ciph[-1].outs[1]
            return ciph[-1]

        def decryptor(self):
            ciph.append(Flow(v, "decrypt", [v.bytes("d1"), v.bytes("d2")]))
            ciph[-1].result = ciph[-1].outs[0] + ciph[-1].outs[1]
            return ciph[-1]

    ser.cipher = Cipher()
    utf16 = models.str_encode(s, "utf-16-le")
    meta = v.mod(CO).ObjectMeta("SS")
    if v.choice("direction", ["out", "in"]) == "out":
        el = ser.serialize(s, meta)
        v.check("one padding, one encryption", len(pads) == 1 and len(ciph) == 1 and pads[0].done and ciph[0].done)
        v.check("blocks of 128 bits", blocks == [128])
        v.check_eq("the UTF-16LE form is padded", pads[0].given, utf16)
        v.check_eq("what is padded is encrypted", ciph[0].given, pads[0].result)
        v.check("an SS element with nothing else", el.tag == "SS" and len(el) == 0 and not el.attrib)
        v.check_eq("the ciphertext in base64", models.b64decode(el.text), ciph[0].result)
    else:
        unpadded = [utf16, b""] if v.choice("early", [True, False]) else [b"", utf16]
        data = v.bytes("data")
        el = ET.Element("SS")
        el.text = models.bytes_decode(models.b64encode(data), "ascii")
        got = ser.deserialize(el, meta)
        v.check("one decryption, one unpadding", len(pads) == 1 and len(ciph) == 1 and pads[0].done and ciph[0].done)
        v.check("blocks of 128 bits", blocks == [128])
        v.check_eq("the base64 text is decrypted", ciph[0].given, data)
        v.check_eq("what is decrypted is unpadded", pads[0].given, ciph[0].result)
        v.check("and is UTF-16LE", got == s)


@contract("C07", funcs=SS_FN, runs=300, sym=False)
def round_trip(v):
    """with the real cipher"""
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    S, C = v.mod(SER), v.mod(CO)
    key = v.bytes("key", 32, 32)
    ser = S.Serializer()
    ser.cipher = Cipher(algorithms.AES(key), modes.CBC(bytes(16)))
    meta = C.ObjectMeta("SS")
    for _ in range(3):
        t = v.str("s") * v.choice("times", [1, 1, 3, 40]) + v.choice("end", ["", "\x00", "\x01", "\u0101\u0101", "_x0041_", "\U0001f600", "\uffff", "\x10" * 8, "\n", " "])
        form = v.choice("how", ["meta", "tagged", "bytes"])
        if form == "meta":
            el = ser.serialize(t, meta)
        elif form == "tagged":
            el = ser.serialize(S.TaggedValue("SS", t))
        else:
            el = ser.serialize(t.encode("utf-16-le"), meta)
        v.check("only the ciphertext", el.tag == "SS" and el.text == reference(key, t) and len(el) == 0)
        v.check("the original string", ser.deserialize(el) == t)
        v.check("from the document", ser.deserialize(ET.tostring(el).decode()) == t)


@contract("C07", funcs=SS_FN[:1], runs=60)
def refused(v):
    """without a session key, for every string, wherever it stands"""
    S, C = v.mod(SER), v.mod(CO)
    X = v.mod("pypsrp.exceptions")
    ser = S.Serializer()
    s = v.str("s")
    where = v.choice("where", ["alone", "tagged", "list", "dict", "credential", "dynamic"])
    parent = ET.Element("parent")
    T = S.TaggedValue("SS", s)
    value, meta = T, None
    if where == "alone":
        value, meta = s, C.ObjectMeta("SS")
    elif where == "list":
        value = ["x", T]
    elif where == "dict":
        value = {"k": T}
    elif where == "credential":
        value = C.PSCredential(username="user", password=s)
    elif where == "dynamic":
        value = C.GenericComplexObject()
        value.extended_properties["p"] = T
    try:
        got = ser.serialize(value, meta, parent=parent)
        v.check("refused", False)
    except X.SerializationError:
        v.check("no text is produced", len(parent) == 0)
    el = ET.Element("SS")
    el.text = "AAAA"
    v.check("a received one stays encrypted", ser.deserialize(el) is el)


@contract("C07", funcs=SS_FN, runs=100, sym=False)
def nowhere_in_the_clear(v):
    """no document contains a secret in a readable form"""
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    S, C = v.mod(SER), v.mod(CO)
    key = v.bytes("key", 32, 32)
    ser = S.Serializer()
    ser.cipher = Cipher(algorithms.AES(key), modes.CBC(bytes(16)))
    secret = "S3cret-" + v.choice("tail", ["abcdefgh", "12345678", "\u00e9\u00e8\u00ea\u00eb"])
    T = S.TaggedValue("SS", secret)
    cred = C.PSCredential(username="user", password=secret)
    g = C.GenericComplexObject()
    g.adapted_properties["p"] = v.choice("inner", [T, cred])
    value = v.choice("value", [cred, [T, "x"], {"k": cred}, g])
    el = ser.serialize(value)
    doc = ET.tostring(el)
    import binascii

    for form in (secret.encode(), secret.encode("utf-16-le"), base64.b64encode(secret.encode("utf-16-le"))[:16], base64.b64encode(secret.encode())[:12], binascii.hexlify(secret.encode("utf-16-le")), ET.tostring(_text(secret))[3:-4]):
        v.check("the secret is not readable", form.lower() not in doc.lower())
    ss = [e for e in el.iter() if e.tag == "SS"]
    v.check("but encrypted", len(ss) >= 1 and all(plain(key, e.text) == secret for e in ss))
    if value is cred:
        back = ser.deserialize(el)
        v.check("the credential comes back", (back.username, back.password) == ("user", secret))


def _text(t):
    e = ET.Element("S")
    e.text = t
    return e


@contract("C07", funcs=EX, runs=1, conc=False)
def key_of_any_fragments(v):
    """every fragment of the public key message is sent, in order"""
    if v.unrolled:
        return
    srv = Server(v)
    pool = new_pool(v, srv, OPENED, opened=True)
    n, F, made = v.int("fragments", 1), v.z3fun("fragment", "bytes"), []

    def fragment(self, msg, rpid, pid=None, *a, **k):
        made.append((type(msg).__name__, rpid, pid))
        return any_fragments(v, n, F)

    def receive(self, *a, **k):
        self._key_exchanged = True
        return []

    v.contract(PS + ".Fragmenter.fragment", fragment)
    v.contract(PS + ".RunspacePool._receive", receive)
    log, g = fragments_sent(v, "pypsrp.powershell.RunspacePool.exchange_keys", ("for", 2), pool, F, 0, "stdin")
    pool.exchange_keys()
    v.internal(len(made) == 1, "one fragment call")
    v.check_eq("one public key, under the pool's id", made, [("PublicKey", pool.id, None)])
    v.check_eq("a request per fragment", g.get("n"), n)
    v.check("no other request", not log and not srv.log)
