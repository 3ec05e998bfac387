"""A value comes back from CLIXML as it was."""
import base64
import json
import os
import uuid
import xml.etree.ElementTree as ET
from queue import Queue

from pyvc.harness import contract

from .lib import Adds, Puts

SER = "pypsrp.serializer"
CO = "pypsrp.complex_objects"
Q = "pypsrp.serializer.Serializer."
F = "serializer.Serializer."
ALL = [F + "serialize", F + "deserialize", F + "_get_tag_from_value"]
CONT = [F + x for x in ("_serialize_lst", "_serialize_dct", "_serialize_que", "_serialize_stk", "_deserialize_lst", "_deserialize_dct", "_deserialize_que", "_deserialize_stk", "_deserialize_list_values")]
OBJS = [F + x for x in ("_serialize_obj", "_serialize_dynamic_obj", "_deserialize_obj", "_deserialize_dynamic_obj", "_create_obj")]


# ---- the escaping of texts: the contract that C04 proves ----------------------
def escaping(v, S):
    """in place of _serialize_string and _deserialize_string (symbolic runs):
    an arbitrary text for every text, and the way back"""
    if not v.symbolic:
        return
    table = []

    def enc(self, s):
        for a, b in table:
            if a is s:
                return b
        e = v.str("!escaped")
        v.assume(v.iff(v.len(e) == 0, v.len(s) == 0))
        table.append((s, e))
        return e

    def dec(self, t):
        if t is None:
            # the text of an element without text: only the empty text gives it
            return ""
        for a, b in table:
            if b is t:
                return a
        from pyvc import values as V

        for a, b in table:
            if isinstance(t, V.SStr) and b.e.eq(t.e):
                return a
        return str(t)

    v.contract(Q + "_serialize_string", enc)
    v.contract(Q + "_deserialize_string", dec)


class Made:
    """a value, the element it must give, and what comes back"""

    def __init__(self, value, tag, text, back):
        self.value, self.tag, self.text, self.back = value, tag, text, back


INTS = {"By": (0, 255), "SB": (-128, 127), "U16": (0, 65535), "I16": (-32768, 32767), "U32": (0, 2**32 - 1), "I32": (-(2**31), 2**31 - 1), "U64": (0, 2**64 - 1), "I64": (-(2**63), 2**63 - 1)}
TEXTS = ["S", "URI", "XD", "SBK"]
PLAIN = ["DT", "TS", "D", "Version"]
NATIVE = ["None", "str", "bool", "int", "bytes", "guid"]
SAMPLES = {"DT": "2024-02-29T23:59:59.9999999+01:00", "TS": "P10675199DT2H48M5.4775807S", "D": "79228162514264337593543950335", "Version": "5.1.19041.1"}


def leaf(v, S, kind):
    """an arbitrary value of the kind"""
    T = S.TaggedValue
    if kind == "None":
        return Made(None, "Nil", None, None)
    if kind == "str":
        s = v.str("s")
        return Made(s, "S", ("escaped", s), s)
    if kind == "bool":
        b = v.bool("b")
        return Made(b, "B", "true" if b else "false", b)
    if kind == "int":
        n = v.int("n")
        small = v.truth(v.and_(n >= -(2**31), n < 2**31))
        if small:
            tag = "I32"
        elif v.truth(v.and_(n >= -(2**63), n < 2**63)):
            tag = "I64"
        elif v.truth(v.and_(n >= 0, n < 2**64)):
            tag = "U64"
        else:
            return Made(n, "D", ("dec", n), ("dec", n))
        return Made(n, tag, ("dec", n), n)
    if kind == "bytes":
        b = v.bytes("data")
        return Made(b, "BA", ("b64", b), b)
    if kind == "guid":
        u = v.uuid("u")
        return Made(u, "G", ("str", u), u)
    if kind == "float":
        x = v.choice("x", [0.1] if v.symbolic else [0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, 0.1, 123456789.125, float("inf")])
        return Made(x, "Sg", None, x)
    if kind in INTS:
        n = v.int("n", *INTS[kind])
        return Made(T(kind, n), kind, ("dec", n), n)
    if kind in TEXTS:
        s = v.str("s")
        return Made(T(kind, s), kind, ("escaped", s), s)
    if kind in ("BA", "G", "B"):
        m = leaf(v, S, {"BA": "bytes", "G": "guid", "B": "bool"}[kind])
        m.value = T(kind, m.value)
        return m
    if kind == "C":
        n = v.choice("c", [0, 9, 10, 32, 65, 0xD7FF, 0xE000, 0xFFFF, 0x100, 0x1F600, 0x10FFFF]) if not v.symbolic else v.int("c", 0, 0xFFFF)
        c = chr(n) if not v.symbolic else __import__("pyvc.models", fromlist=["m_chr"]).m_chr(n)
        return Made(T("C", c), "C", ("dec", n), c)
    if kind in ("Sg", "Db"):
        x = v.choice("x", [0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, 0.1, float("inf"), -1.7976931348623157e308])
        return Made(T(kind, x), kind, None, x)
    if kind in PLAIN:
        s = v.choice("t", [SAMPLES[kind], "1"])
        return Made(T(kind, s), kind, s, s)
    if kind == "Nil":
        t = v.choice("tag", ["S", "I32", "G", "BA", "Db"])
        return Made(T(t, None), "Nil", None, None)
    raise KeyError(kind)


LEAVES = NATIVE + ["float"] + list(INTS) + TEXTS + ["BA", "G", "B", "C", "Sg", "Db"] + PLAIN + ["Nil"]


def same(v, a, b):
    """equal values of the same type"""
    if isinstance(b, tuple) and len(b) == 2 and b[0] == "dec":
        if v.symbolic:
            from pyvc import models, values as V

            return isinstance(a, V.SStr) and a == models.m_str(b[1])
        return a == str(b[1]) and type(a) is str
    if v.symbolic:
        from pyvc import values as V

        if isinstance(a, V.Sym) or isinstance(b, V.Sym):
            return kindof(a) == kindof(b) and a == b
    if isinstance(b, float):
        return type(a) is float and repr(a) == repr(b)
    return type(a) is type(b) and a == b


def kindof(x):
    from pyvc import models, values as V

    for t, c in (("str", V.SStr), ("int", V.SInt), ("bytes", V.SBytes), ("bool", V.SBool), ("guid", models.SUUID)):
        if isinstance(x, c):
            return t
    return {str: "str", int: "int", bytes: "bytes", bool: "bool", uuid.UUID: "guid"}.get(type(x), "other")


def text_ok(v, el, m):
    if m.text is None:
        return True
    if not isinstance(m.text, tuple):
        return el.text == m.text
    how, x = m.text
    if v.symbolic:
        from pyvc import models, values as V

        if how == "escaped":
            return isinstance(el.text, V.SStr)
        if how == "b64":
            return isinstance(el.text, (V.SStr, str)) and models.b64decode(el.text) == x
        return el.text == models.m_str(x)
    if how == "escaped":
        return isinstance(el.text, str)
    if how == "b64":
        return el.text == base64.b64encode(x).decode()
    return el.text == str(x)


def back(v, S, el, ser=None):
    """deserialised from the element, or from the document"""
    ser = ser or S.Serializer()
    if v.choice("from", ["element", "document"]) == "document":
        if v.symbolic:
            from pyvc import models

            el = models.et_fromstring(models.et_tostring(el, "unicode"))
        else:
            el = ET.tostring(el, "unicode")
    return ser.deserialize(el)


@contract("C05", funcs=ALL, runs=600)
def leaves(v):
    """every kind of value, every value of the kind"""
    S, C = v.mod(SER), v.mod(CO)
    escaping(v, S)
    kind = v.choice("kind", LEAVES)
    if kind == "C":
        v.note("chars are UTF-16 code units")
    m = leaf(v, S, kind)
    xml_chars(v, kind, m)
    ser = S.Serializer()
    name = v.choice("name", [None, "Name"])
    meta = v.choice("meta", ["none", "shared"])
    meta = None if meta == "none" and name is None else C.ObjectMeta(name=name)
    parent = ET.Element("P") if v.choice("parent", [False, True]) else None
    el = ser.serialize(m.value, meta, parent)
    v.check("the tag of the value", el.tag == m.tag)
    v.check("the text of the value", text_ok(v, el, m))
    v.check("nothing else", len(el) == 0 and el.attrib == ({} if name is None else {"N": name}))
    v.check("appended once", parent is None or (len(parent) == 1 and parent[0] is el))
    if meta is not None:
        v.check("the metadata is the caller's", (meta.tag, meta.name, meta.optional, meta.object) == ("*", name, False, None))
    got = back(v, S, el)
    v.check("the value comes back", same(v, got, m.back))


def xml_chars(v, kind, m):
    """documents can not contain U+FFFE and U+FFFF (and lone surrogates)"""
    if not v.symbolic and isinstance(m.back, str) and kind in TEXTS + ["str"]:
        v.assume(not any(c in "\ufffe\uffff" or 0xD800 <= ord(c) < 0xE000 for c in m.back))


@contract("C05", funcs=ALL, runs=300)
def explicit(v):
    """the tag given by the metadata"""
    S, C = v.mod(SER), v.mod(CO)
    escaping(v, S)
    kind = v.choice("kind", list(INTS) + TEXTS + ["BA", "G", "B", "C", "Sg", "Db"] + PLAIN)
    m = leaf(v, S, kind)
    xml_chars(v, kind, m)
    ser = S.Serializer()
    optional = v.choice("optional", [False, True])
    meta = C.ObjectMeta(kind, name=v.choice("name", [None, "n"]), optional=optional)
    before = dict(vars(meta))
    null = v.choice("null", [False, True])
    el = ser.serialize(None if null else m.value.value, meta)
    v.check("the metadata is the caller's", vars(meta) == before)
    if null:
        v.check("no value", el is None if optional else (el.tag == "Nil" and not el.text and len(el) == 0))
        return
    v.check("the tag of the metadata", el.tag == kind)
    v.check("the text of the value", text_ok(v, el, m))
    v.check("the name", el.attrib == ({} if meta.name is None else {"N": meta.name}))
    v.check("the value comes back", same(v, back(v, S, el), m.back))
    again = ser.serialize(None if null else m.value.value, meta)
    v.check("as often as it is serialised", again.tag == kind and again is not el and len(again) == 0)


# ---- containers -----------------------------------------------------------------
ENTRIES = ["None", "str", "bool", "int", "bytes", "guid", "float", "U16", "SBK", "list", "dict", "dynamic", "untyped", "static", "queue"]


def entry(v, S, C, kind):
    """(value, check of its element, what comes back)"""
    if kind == "list":
        return ["in", None, 7], lambda e: e.tag == "Obj" and [x.tag for x in e.find("LST")] == ["S", "Nil", "I32"], ["in", None, 7]
    if kind == "dict":
        return {"k": True, 3: b"x"}, lambda e: [[x.tag for x in y] for y in e.find("DCT")] == [["S", "B"], ["I32", "BA"]], {"k": True, 3: b"x"}
    if kind == "dynamic":
        g = C.GenericComplexObject()
        g.extended_properties["p"] = 5
        g.adapted_properties["q"] = "t"
        g.property_sets = [True]
        g.types = ["Mine", "System.Object"]
        g.to_string = "mine"
        ok = lambda e: e.find("MS/I32[@N='p']") is not None and e.find("Props/S[@N='q']") is not None and e.find("B") is not None and [t.text for t in e.findall("TN/T")] in (["Mine", "System.Object"], [])
        return g, ok, g
    if kind == "untyped":
        g = C.GenericComplexObject()
        g.adapted_properties["q"] = None
        return g, lambda e: e.tag == "Obj" and e.find("TN") is None and e.find("TNRef") is None and e.find("Props/Nil[@N='q']") is not None, g
    if kind == "static":
        c = C.Coordinates(x=3, y=-4)
        return c, lambda e: [(x.tag, x.attrib["N"], x.text) for x in e.find("Props")] == [("I32", "X", "3"), ("I32", "Y", "-4")], c
    if kind == "queue":
        q = Queue()
        q.put("first")
        q.put(2)
        w = Queue()
        w.put("first")
        w.put(2)
        return q, lambda e: [x.tag for x in e.find("QUE")] == ["S", "I32"], w
    m = leaf(v, S, kind)
    xml_chars(v, kind, m)
    return m.value, lambda e: v.and_(e.tag == m.tag, text_ok(v, e, m)), m.back


def equal(v, C, a, b, depth=0):
    """deep equality, of equal types"""
    if isinstance(b, list):
        if type(a) is not list or len(a) != len(b):
            return False
        return v.and_(*[equal(v, C, x, y) for x, y in zip(a, b)]) if b else True
    if isinstance(b, dict):
        if type(a) is not dict or len(a) != len(b):
            return False
        r = True
        rest = list(a.items())
        for k, y in b.items():
            hit = [n for n, (kk, _) in enumerate(rest) if keyed(v, kk, k)]
            if not hit:
                return False
            r = v.and_(r, equal(v, C, rest.pop(hit[0])[1], y))
        return r
    if isinstance(b, Queue):
        return isinstance(a, Queue) and equal(v, C, list(a.queue), list(b.queue))
    if isinstance(b, C.GenericComplexObject):
        if type(a) is not C.GenericComplexObject:
            return False
        return v.and_(
            equal(v, C, a.property_sets, b.property_sets),
            equal(v, C, a.extended_properties, b.extended_properties),
            equal(v, C, a.adapted_properties, b.adapted_properties),
            equal(v, C, a.to_string, b.to_string),
            a.types == b.types,
        )
    if isinstance(b, C.ComplexObject):
        if type(a) is not type(b):
            return False
        r = True
        for attr, meta in b._property_sets + b._adapted_properties + b._extended_properties:
            r = v.and_(r, equal(v, C, getattr(a, attr), getattr(b, attr)))
        return r
    return same(v, a, b)


def keyed(v, a, b):
    r = same(v, a, b)
    return r if isinstance(r, bool) else v.truth(r)


def build(v, S, C, shape, values):
    """(container, metadata, elements of the entries, expected value)"""
    if shape == "list":
        return list(values), None, lambda e: list(e.find("LST")), lambda b: list(b)
    if shape == "typed list":
        t = v.choice("types", [["System.Object[]", "System.Array", "System.Object"], ["System.Collections.ArrayList", "System.Object"], ["System.Array"]])
        return list(values), C.ListMeta(list_types=t), lambda e: list(e.find("LST")), lambda b: list(b)
    if shape == "queue":
        q = Queue()
        for x in values:
            q.put(x)

        def want(b):
            w = Queue()
            for x in b:
                w.put(x)
            return w

        return q, v.choice("meta", [None, C.QueueMeta()]), lambda e: list(e.find("QUE")), want
    if shape == "stack":
        return list(values), C.StackMeta(), lambda e: list(e.find("STK"))[::-1], lambda b: list(b)[::-1]
    if shape == "dict":
        d = dict(("k%d" % i, x) for i, x in enumerate(values))
        return d, None, lambda e: [x[1] for x in e.find("DCT")], lambda b: dict(("k%d" % i, x) for i, x in enumerate(b))
    if shape == "pairs":
        return tuple((i, x) for i, x in enumerate(values)), C.DictionaryMeta(), lambda e: [x[1] for x in e.find("DCT")], lambda b: dict(enumerate(b))
    g = C.GenericComplexObject()

    def fill(g, xs):
        if shape == "sets":
            g.property_sets = list(xs)
        elif shape == "extended":
            g.extended_properties = dict(("p%d" % i, x) for i, x in enumerate(xs))
        else:
            g.adapted_properties = dict(("p%d" % i, x) for i, x in enumerate(xs))
        return g

    tag = {"sets": None, "extended": "MS", "adapted": "Props"}[shape]
    return fill(g, values), None, lambda e: list(e if tag is None else e.find(tag)), lambda b: fill(C.GenericComplexObject(), b)


SHAPES = ["list", "typed list", "queue", "stack", "dict", "pairs", "sets", "extended", "adapted"]


@contract("C05", funcs=ALL + CONT + OBJS, runs=1500, thorough_runs=9000, bounded="containers of two entries, entries of depth at most 2; all values of the entries", max_paths=9000)
def siblings(v):
    """the entries of a container do not influence each other"""
    S, C = v.mod(SER), v.mod(CO)
    escaping(v, S)
    shape = v.choice("shape", SHAPES)
    kinds = [v.choice("first", ENTRIES), v.choice("second", ENTRIES)]
    ser = S.Serializer()
    made = [entry(v, S, C, k) for k in kinds]
    value, meta, elements, want = build(v, S, C, shape, [m[0] for m in made])
    if shape == "typed list" and meta.list_types[0] != "System.Object[]" and kinds[1] == "untyped" and kinds[0] in NATIVE + ["float", "U16", "SBK"]:
        # an untyped object behind a primitive entry
        v.assume(not v.listed("C05-untyped-after-primitive"))
    el = ser.serialize(value, meta)
    es = elements(el)
    v.check("an element for each entry", len(es) == 2)
    for m, e in zip(made, es):
        v.check("the element of the entry", m[1](e))
    if v.symbolic:
        got = S.Serializer().deserialize(el)
    else:
        got = back(v, S, el, v.choice("by", [None, ser]))
    v.check("the value comes back", equal(v, C, got, want([m[2] for m in made])))
    if meta is not None:
        vm = getattr(meta, "list_value_meta", None) or meta.dict_value_meta
        v.check("the metadata is the caller's", vm.tag == "*" and vm.object is None)


# ---- any number of entries: one iteration of each loop --------------------------------
class Calls:
    def __init__(self):
        self.all = []


def nested(v, S, out):
    """serialize() of the entries, under its contract: one new element in the
    parent, whatever was there before; the metadata stays as it is"""

    def serialize(self, value, metadata=None, parent=None, clear=True):
        e = ET.Element("entry")
        out.append((value, metadata, dict(vars(metadata)) if metadata is not None else None, parent, clear, e))
        if parent is not None:
            parent.append(e)
        return e

    v.contract(Q + "serialize", serialize)


class Source:
    """any iterable of entries: list, dict.items()"""

    def __init__(self, nxt):
        self.nxt = nxt

    def __iter__(self):
        return self

    def __next__(self):
        return self.nxt()


@contract("C05", funcs=[F + "_serialize_lst", F + "_serialize_dct", F + "_serialize_ie"], runs=1, conc=False)
def write_entries(v):
    """a list or dictionary of any length: each entry is written by itself,
    with metadata of its own; an arbitrary iteration of the loop"""
    if v.unrolled:
        return
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    calls = []
    nested(v, S, calls)
    which = v.choice("container", ["LST", "IE", "DCT", "default list", "default dict"])
    tag = v.choice("tag of the entries", ["*", "S", "I32"])
    inner = C.ObjectMeta(tag, name=v.choice("name", [None, "Value"]))
    more = {"go": True}
    entries = []

    def nxt():
        if not v.truth(v.sbool("more")):
            raise StopIteration
        x = v.opaque("entry")
        y = v.opaque("key")
        entries.append((y, x))
        return (y, x) if "d" in which.lower()[0:1] and which in ("DCT", "default dict") else x

    dct = which in ("DCT", "default dict")

    class List(list):
        def __iter__(self):
            return Source(nxt)

    class Dict(dict):
        def items(self):
            return Source(nxt)

    class Pairs(tuple):
        def __iter__(self):
            return Source(nxt)

    value = (v.choice("form", [Dict, Pairs]) if dct else List)()
    if which in ("LST", "IE"):
        meta = C.ListMeta(which, list_value_meta=inner)
    elif which == "DCT":
        meta = C.DictionaryMeta(dict_key_meta=C.ObjectMeta("S", name="Key"), dict_value_meta=inner)
    else:
        meta = C.ObjectMeta(name="n")
    at = {}

    def havoc(v, L0):
        at["n"], at["e"] = len(calls), len(entries)
        return {}

    def step(v, x, L, L1):
        new = calls[at["n"] :]
        y, x = entries[-1]
        v.check("every entry is written once", len(new) == (2 if dct else 1))
        if len(new) != (2 if dct else 1):
            return
        if dct:
            v.check("the key, then the value", new[0][0] is y and new[1][0] is x)
            v.check("in one element of their own", new[0][3] is new[1][3] and new[0][3].tag == "En" and len(new[0][3]) == 2)
            v.check("the key is named", new[0][2] is not None and new[0][2]["name"] == "Key")
            want = [("S" if which == "DCT" else "*", "Key"), (tag, inner.name) if which == "DCT" else ("*", "Value")]
        else:
            v.check("the entry itself", new[0][0] is x)
            v.check("in the element of the list", new[0][3].tag == (which if which in ("LST", "IE") else "LST"))
            want = [(tag, inner.name) if which in ("LST", "IE") else ("*", None)]
        for c, w in zip(new, want):
            v.check("without starting a new document", c[4] is False)
            m = c[2] or {"tag": "*", "name": None, "optional": False, "object": None}
            v.check("with the metadata of entries", (m["tag"], m["name"], m["optional"], m["object"]) == (w[0], w[1], False, None))

    for fn in ("_serialize_lst", "_serialize_dct"):
        v.loop(Q + fn, 1, whole=True, havoc=havoc, inv=lambda v, L, L0: [], step=step, pull=True, heap=lambda L0: [...])
    n0 = len(calls)
    pack = getattr(ser, {"LST": "_serialize_lst", "IE": "_serialize_ie", "DCT": "_serialize_dct", "default list": "_serialize_lst", "default dict": "_serialize_dct"}[which])
    pack(meta, value)
    v.check("nothing but the entries is written", len(calls) == n0)
    v.check("the metadata is the caller's", inner.tag == tag and meta.tag == {"LST": "LST", "IE": "IE", "DCT": "DCT"}.get(which, "*"))


@contract("C05", funcs=[F + "_deserialize_lst", F + "_deserialize_que", F + "_deserialize_stk", F + "_deserialize_list_values", F + "_deserialize_dct"], runs=1, conc=False)
def read_entries(v):
    """a list, queue, stack or dictionary of any length: an arbitrary
    iteration of the loop over the entries"""
    if v.unrolled:
        return
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    which = v.choice("container", ["LST", "QUE", "STK"])
    made = []

    def deserialize(self, element, metadata=None, clear=True):
        made.append((element, metadata, clear, v.opaque("value")))
        return made[-1][3]

    v.contract(Q + "deserialize", deserialize)
    given = []

    def nxt():
        if not v.truth(v.sbool("more")):
            raise StopIteration
        given.append(ET.Element("entry"))
        return given[-1]

    asked = []

    class Element:
        tag = "Obj"
        attrib = {"RefId": "0"}

        def find(self, path):
            asked.append(path)
            return Source(nxt)

    at = {}
    meta = C.ObjectMeta("*")

    def havoc(v, L0):
        at["n"] = len(made)
        return {}

    got = []

    def step(v, x, L, L1):
        v.check("the entry is read once", len(made) == at["n"] + 1)
        if len(made) == at["n"] + 1:
            v.check("this entry, in the same document", made[-1][0] is given[-1] and made[-1][2] is False)
            v.check("with the metadata of entries", made[-1][1] is None or made[-1][1].tag == meta.tag)

    v.loop(Q + "_deserialize_list_values", 1, whole=True, havoc=havoc, inv=lambda v, L, L0: [], step=step, pull=True, heap=lambda L0: [...])
    v.need(ser, "_deserialize_list_values")
    for x in ser._deserialize_list_values(Element(), which, value_meta=meta):
        v.check("what the entry is comes out", made and x is made[-1][3])
        got.append(x)
    v.check("the entries of the container", asked == [which])


# ---- containers with the type names of .NET ------------------------------------------------
DOTNET = {
    "String": "S", "Char": "C", "Boolean": "B", "DateTime": "DT", "Byte": "By", "SByte": "SB", "UInt16": "U16", "Int16": "I16", "UInt32": "U32", "Int32": "I32", "UInt64": "U64",
    "Int64": "I64", "Single": "Sg", "Double": "Db", "Decimal": "D", "Guid": "G", "Uri": "URI", "Version": "Version", "Xml.XmlDocument": "XD", "Management.Automation.ScriptBlock": "SBK",
    "Object": "*", "DayOfWeek": "*",
}
LISTS = [
    "%s[]", "Deserialized.%s[]", "System.Collections.Generic.List`1[[%s]]", "System.Collections.ObjectModel.Collection`1[[%s]]", "System.Collections.ObjectModel.ReadOnlyCollection`1[[%s]]",
    "Deserialized.System.Collections.Generic.List`1[[%s]]", "System.Collections.ArrayList", "Deserialized.System.Collections.ArrayList", "System.Array",
]
DICTS = [
    "System.Collections.Generic.Dictionary`2[[System.String, mscorlib],[%s]]", "System.Collections.Hashtable", "Deserialized.System.Collections.Hashtable",
    "System.Management.Automation.PSPrimitiveDictionary", "System.Management.Automation.PSBoundParametersDictionary",
]
ASSEMBLY = ", mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089"


@contract("C05", funcs=CONT + [F + "deserialize"], runs=500, bounded="containers of two entries, all values of the entries")
def typed_containers(v):
    """a list or dictionary with any of the type names .NET has for them comes
    back, without metadata, as the list or dictionary it was"""
    S, C = v.mod(SER), v.mod(CO)
    escaping(v, S)
    dct = v.choice("container", [False, True])
    name = v.choice("entries", sorted(DOTNET))
    form = v.choice("type", DICTS if dct else LISTS)
    if name == "DayOfWeek" and form.endswith("%s[]"):
        # an array of a type nothing is known about is still an array
        types = [form % "System.DayOfWeek", "System.Array", "System.Object"]
    elif "%s" in form:
        types = [form % ("System." + name + (ASSEMBLY if "[[" in form else "")), "System.Object"]
        if name == "DayOfWeek" and not dct:
            return
    else:
        types = [form, "System.Object"]
    tag = DOTNET[name]
    inner = C.ObjectMeta(tag)
    if tag == "*":
        m = leaf(v, S, v.choice("leaf", ["str", "int", "guid", "None"]))
        x, b = m.value, ("dec", m.back[1]) if isinstance(m.back, tuple) else m.back
    else:
        m = leaf(v, S, tag)
        x, b = m.value.value, m.back
    xml_chars(v, "str", m)
    xml_chars(v, tag, m)
    absent = v.choice("absent", [False, True])
    second = (None, None) if absent else (x, b)
    if dct:
        given, want = {"k": x, "l": second[0]}, {"k": b, "l": second[1]}
        meta = C.DictionaryMeta(dict_types=types, dict_key_meta=C.ObjectMeta("S", name="Key"), dict_value_meta=C.ObjectMeta(tag, name="Value"))
    else:
        given, want = [x, second[0]], [b, second[1]]
        meta = C.ListMeta(list_types=types, list_value_meta=inner)
    el = S.Serializer().serialize(given, meta)
    v.check("its type names", [t.text for t in el.findall("TN/T")] == types)
    got = back(v, S, el)
    v.check("the container comes back", equal(v, C, got, want))


@contract("C05", funcs=CONT, runs=200, bounded="containers of two entries, all values of the entries")
def given_types(v):
    """a container whose metadata names its types is written with exactly
    those, and one without with those of its kind"""
    S, C = v.mod(SER), v.mod(CO)
    escaping(v, S)
    kind, own, meta, field = v.choice("kind", [
        ("list", ["System.Object[]", "System.Array", "System.Object"], "ListMeta", "list_types"),
        ("queue", ["System.Collections.Queue", "System.Object"], "QueueMeta", "list_types"),
        ("stack", ["System.Collections.Stack", "System.Object"], "StackMeta", "list_types"),
        ("dict", ["System.Collections.Hashtable", "System.Object"], "DictionaryMeta", "dict_types"),
    ])
    given = v.choice("types", [None, ["Mine"] + own, own[:1]])
    m = getattr(C, meta)(**({} if given is None else {field: list(given)}))
    x = leaf(v, S, v.choice("leaf", ["str", "int", "None"]))
    xml_chars(v, "str", x)
    b = ("dec", x.back[1]) if isinstance(x.back, tuple) else x.back
    value, want = {"list": lambda: ([x.value, 5], [b, 5]), "stack": lambda: ([x.value, 5], [5, b]), "dict": lambda: ({"k": x.value}, {"k": b}), "queue": lambda: (Queue(), Queue())}[kind]()
    if kind == "queue":
        for q, e in ((value, x.value), (want, b)):
            q.put(e)
            q.put(5)
    el = S.Serializer().serialize(value, m)
    v.check("its type names", [t.text for t in el.findall("TN/T")] == (own if given is None else given))
    v.check("its tag", [e.tag for e in el if e.tag != "TN"] == [{"list": "LST", "queue": "QUE", "stack": "STK", "dict": "DCT"}[kind]])
    v.check("it comes back", equal(v, C, back(v, S, el), want))


@contract("C05", funcs=[F + "serialize"], runs=100)
def elements(v):
    """an XML element in place of a value is the value's serialised form"""
    S, C = v.mod(SER), v.mod(CO)
    x = ET.Element(v.choice("tag", ["Obj", "S", "Nil"]), N="given") if v.choice("had a name", [True, False]) else ET.Element("I32")
    x.text = "5"
    name = v.choice("name", [None, "n"])
    parent = v.choice("parent", [None, ET.Element("LST")])
    meta = v.choice("metadata", [True, False])
    before = x.attrib.get("N")
    out = S.Serializer().serialize(x, C.ObjectMeta(name=name) if meta else None, parent=parent, clear=False)
    v.check("the element itself", out is x and x.text == "5")
    v.check("under the name of the property", x.attrib.get("N") == (name if meta and name else before))
    v.check("where it belongs", parent is None or (len(parent) == 1 and parent[0] is x))


# ---- deep mixtures, several documents with one serialiser ----------------------------
@contract("C05", funcs=ALL + CONT + OBJS, runs=700, thorough_runs=6000, sym=False)
def mixtures(v):
    """random values of depth 4; the elements and the values that come back"""
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    shared = {"list": C.ListMeta(list_types=["System.Object[]", "System.Array", "System.Object"]), "any": C.ObjectMeta(), "named": C.ObjectMeta(name="N1"), "queue": C.QueueMeta(), "dict": C.DictionaryMeta()}

    def value(depth):
        """(value, expected tag, what comes back)"""
        k = v.choice("kind", LEAVES if depth <= 0 else ["list", "dict", "queue", "generic", "leaf", "leaf", "none", "coordinates", "credential-like"])
        if k == "none":
            return None, "Nil", None
        if k == "leaf" or k in LEAVES:
            m = leaf(v, S, v.choice("leaf", LEAVES) if k == "leaf" else k)
            xml_chars(v, k, m)
            xml_chars(v, "str", m)
            return m.value, m.tag, ("dec", m.back[1]) if isinstance(m.back, tuple) else m.back
        n = v.choice("entries", [0, 1, 2, 3, 5])
        xs = [value(depth - 1) for _ in range(n)]
        if k == "list":
            return [x[0] for x in xs], "Obj", [x[2] for x in xs]
        if k == "dict":
            pool = [None, "", "k", "k ", 0, 1, "1", -3, 2**40, 2.5, b"", b"x", uuid.UUID(int=5), "_x0031_", "a\nb", False if depth == 1 else "False"]
            keys = []
            for i in range(n):
                fresh = [x for x in pool if x not in keys]
                keys.append(fresh[v.int("key", 0, len(fresh) - 1)])
            return dict(zip(keys, [x[0] for x in xs])), "Obj", dict(zip(keys, [x[2] for x in xs]))
        if k == "queue":
            q, w = Queue(), Queue()
            for x in xs:
                q.put(x[0])
                w.put(x[2])
            return q, "Obj", w
        if k == "coordinates":
            c = C.Size(width=v.int("w", -5, 70000), height=n)
            return c, "Obj", c
        g, w = C.GenericComplexObject(), C.GenericComplexObject()
        types = v.choice("types", [[], ["System.Object"], ["A", "System.Object"], ["System.Management.Automation.PSObject", "x"]])
        text = v.choice("text", [None, "", "t\n", "_x000A_"])
        names = v.choice("names", [["p%d" % j for j in range(9)], ["Name", "Name", "id", "name", "NAME", "name"], ["", "a b", "", "_x000A_", "\u00e9", "<&>\"'"], ["x\ny", "10", "9", "X", "9", "10"]])
        for o, i in ((g, 0), (w, 2)):
            o.types, o.to_string = list(types), text
            for j, x in enumerate(xs):
                if j % 3 == 0:
                    o.extended_properties[names[j]] = x[i]
                elif j % 3 == 1:
                    o.adapted_properties[names[j]] = x[i]
                else:
                    o.property_sets.append(x[i])
        return g, "Obj", w

    for _ in range(3):
        x, tag, want = value(3)
        use = v.choice("metadata", [None, "any", "named"])
        if type(x) is list and v.choice("typed", [False, True]):
            use = "list"
        el = ser.serialize(x, shared.get(use))
        v.check("the tag of the value", el.tag == tag)
        v.check("the metadata is the caller's", [m.tag for m in shared.values()] == ["LST", "*", "*", "QUE", "DCT"])
        v.check("and that of its entries", shared["list"].list_value_meta.tag == "*" and shared["dict"].dict_key_meta.tag == "*")
        reader = v.choice("reader", [ser, None]) or S.Serializer()
        got = back(v, S, el, reader)
        v.check("the value comes back", equal(v, C, got, want))


# ---- typed protocol objects ---------------------------------------------------------------
CLASSES = [
    "Coordinates", "Size", "Color", "PSThreadOptions", "ApartmentState", "RemoteStreamOptions", "CommandOrigin", "ProgressRecordType", "SessionStateEntryVisibility",
    "PipelineResultTypes", "HostMethodIdentifier", "CommandMetadataCount", "ParameterMetadata", "KeyInfo", "KeyInfoDotNet", "BufferCell", "CultureInfo", "CommandParameter",
    "ErrorRecord", "InformationalRecord",
]
MESSAGES = [
    "PublicKey", "EncryptedSessionKey", "SetMaxRunspaces", "SetMinRunspaces", "RunspaceAvailability", "GetAvailableRunspaces", "UserEvent", "ApplicationPrivateData",
    "RunspacePoolHostCall", "RunspacePoolHostResponse", "PipelineHostCall", "PipelineHostResponse", "ConnectRunspacePool", "RunspacePoolInitData", "ResetRunspaceState",
    "ProgressRecord", "InformationRecord", "DebugRecord", "VerboseRecord", "WarningRecord", "ErrorRecordMessage", "GetCommandMetadata",
]
# properties of which the value decides whether others are written
FLAGS = ("invocation", "extended_info_present")
ENUMS = {"Color": 15, "PSThreadOptions": 3, "ApartmentState": 2, "RemoteStreamOptions": 15, "CommandOrigin": 1, "ProgressRecordType": 1, "SessionStateEntryVisibility": 1, "PipelineResultTypes": 3, "HostMethodIdentifier": 56, "CommandType": 511}


def fit(v, S, C, m, depth):
    """(value, what comes back) that the metadata of a property describes"""
    t = m.tag
    if m.optional and v.choice("absent", [False, True]):
        return None, None
    if t == "*" and m.object is not None:
        o = typed(v, S, C, m.object, depth - 1)
        return o, o
    if t == "*" or (t == "ObjDynamic"):
        k = v.choice("open", ["str", "int", "None", "list", "dynamic", "guid", "static"] if t == "*" else ["dynamic"])
        if k == "int":
            x = v.int("i", -(2**63), 2**63 - 1)
            return x, x
        x, _, b = entry(v, S, C, k)
        return x, b
    if t in INTS or t in TEXTS or t in PLAIN or t in ("B", "BA", "G", "C", "Sg", "Db"):
        x = leaf(v, S, t)
        xml_chars(v, t, x)
        return x.value.value, x.back
    if t == "LST":
        xs = [fit(v, S, C, m.list_value_meta, depth - 1) for _ in range(v.choice("entries", [0, 1, 2]))]
        return [x[0] for x in xs], [x[1] for x in xs]
    if t == "DCT":
        ks = [("k%d" % i) for i in range(v.choice("entries", [0, 1, 2]))]
        xs = [fit(v, S, C, m.dict_value_meta, depth - 1) for _ in ks]
        return dict(zip(ks, [x[0] for x in xs])), dict(zip(ks, [x[1] for x in xs]))
    if t == "Obj" and m.object is not None and depth > 0:
        o = typed(v, S, C, m.object, depth - 1)
        return o, o
    if t == "Obj":
        return None, None
    raise KeyError(t)


def typed(v, S, C, cls, depth):
    o = cls()
    if cls.__name__ in ENUMS:
        o.value = v.int("enum", 1 if cls is C.HostMethodIdentifier else 0, ENUMS[cls.__name__])
        return o
    flag = False
    for attr, meta in o._property_sets + o._adapted_properties + o._extended_properties:
        if attr in FLAGS:
            # two properties of one name
            flag = v.bool("flag") if attr == "invocation" else flag
            setattr(o, attr, flag)
            continue
        if isinstance(getattr(cls, attr, None), property):
            continue
        setattr(o, attr, fit(v, S, C, meta, depth)[0])
    return o


@contract("C05", funcs=OBJS + CONT, runs=1500, thorough_runs=6000, sym=False)
def protocol_objects(v):
    """every typed object, with random properties"""
    S, C, M = v.mod(SER), v.mod(CO), v.mod("pypsrp.messages")
    name = v.choice("class", CLASSES + MESSAGES)
    cls = getattr(C, name, None) or getattr(M, name)
    o = typed(v, S, C, cls, 2)
    ser = S.Serializer()
    el = ser.serialize(o)
    v.check("an object", el.tag == "Obj")
    for tag, props in (("Props/", o._adapted_properties), ("MS/", o._extended_properties)):
        for attr, m in props:
            x = getattr(o, attr)
            if m.name is None:
                continue
            es = [e for e in (el.find(tag[:-1]) if el.find(tag[:-1]) is not None else []) if e.attrib.get("N") == m.name]
            n = sum(1 for a, k in props if k.name == m.name and not (k.optional and getattr(o, a) is None))
            v.check("each property is written under its name", len(es) == n)
    doc = v.choice("form", ["element", "document"])
    got = S.Serializer().deserialize(el if doc == "element" else ET.tostring(el, "unicode"), C.ObjectMeta("Obj", object=cls))
    v.check("an object of the class", type(got) is cls)
    for attr, m in o._property_sets + o._adapted_properties + o._extended_properties:
        v.check("the property comes back: " + attr, equal(v, C, getattr(got, attr), getattr(o, attr)))
    # the received object is an object like any other
    again = ET.tostring(S.Serializer().serialize(got), "unicode")
    v.check("sent again as it was", again == ET.tostring(el, "unicode"))
    if type(got) is C.CommandParameter:
        m = leaf(v, S, v.choice("new value", NATIVE))
        got.value = m.value
        e = S.Serializer().serialize(got).find("MS/*[@N='V']")
        v.check("a new value has its own tag", e.tag == m.tag and text_ok(v, e, m))


# ---- the objects of MS-PSRP: what they are called with, and how they are written --------------
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "objects.json")) as _f:
    # class -> type names; [section, attribute (and parameter of the constructor), tag, name, optional, class]
    OBJECTS = json.load(_f)
# the classes their own type names lead back to
REGISTERED = [
    "ApartmentState", "Color", "CommandMetadataCount", "CommandOrigin", "Coordinates", "HostMethodIdentifier", "KeyInfoDotNet", "PSThreadOptions", "ParameterMetadata", "PipelineResultTypes",
    "ProgressRecordType", "RemoteStreamOptions", "SessionStateEntryVisibility", "Size", "DebugRecord", "ErrorRecordMessage", "InformationRecord", "VerboseRecord", "WarningRecord",
]
DERIVED = ("extended_info_present",)  # "invocation" once more


def sample(v, S, C, row, m):
    """(what the constructor is given, what comes back)"""
    _, attr, tag, _, optional, cls = row
    if cls == "GenericComplexObject":
        x, _, b = entry(v, S, C, "dynamic")
        return x, b
    if cls in ENUMS:
        return (lambda n: (getattr(C, cls)(value=n),) * 2)(v.choice(attr, [ENUMS[cls], 1]))
    if cls == "ErrorRecord" or tag == "Obj" and not cls:
        o = (C.ErrorRecord if cls else v.mod("pypsrp.messages").ErrorRecordMessage)(exception="e", fq_error="fq", category=3, target_name="tn", script_stacktrace="at", invocation=True)
        return o, o
    if tag == "LST":
        inner = {"I32": [3, -4], "S": ["a", ""]}.get(m.list_value_meta.tag, ["a", None, 7])
        return inner, inner
    if tag == "DCT":
        x = {"k": C.ParameterMetadata(name="p", parameter_type="t", aliases=["q"], switch_parameter=False, dynamic=True)} if m.dict_value_meta.object is C.ParameterMetadata else {"k": "x", "l": None}
        return x, x
    if tag == "*":
        x = v.str("any " + attr)
        return x, x
    if tag in PLAIN:
        return SAMPLES[tag], SAMPLES[tag]
    if tag == "BA":
        x = v.bytes(attr)
        return x, x
    if tag == "G":
        x = v.uuid(attr)
        return x, x
    if tag == "B":
        x = v.bool(attr)
        return x, x
    if tag == "C":
        return "\u20ac", "\u20ac"
    if tag in INTS:
        x = v.int(attr, *INTS[tag])
        return x, x
    x = v.str(attr)
    return x, x


@contract("C05", funcs=OBJS + ["messages.*.__init__", "complex_objects.*.__init__"], runs=600, thorough_runs=3000, bounded="lists and dictionaries in the objects of fixed shape; texts, numbers, GUIDs and bytes arbitrary")
def constructed(v):
    """objects built with the documented parameters: written with the type names, names and tags of MS-PSRP, and back"""
    S, C, M = v.mod(SER), v.mod(CO), v.mod("pypsrp.messages")
    escaping(v, S)
    name = v.choice("class", sorted(OBJECTS))
    cls = getattr(C, name, None) or getattr(M, name)
    rows = OBJECTS[name]["props"]
    proto = cls(value=1) if name in ENUMS else cls(**({} if hasattr(C, name) else {r[1]: None for r in rows if r[1] not in DERIVED and issubclass_of(M, cls)}))
    metas = dict(proto._property_sets + proto._adapted_properties + proto._extended_properties)
    # one property at a time is absent
    gone = v.choice("absent", [None] + [r[1] for r in rows if r[4]])
    given, want = {}, {}
    for row in rows:
        attr = row[1]
        if attr in DERIVED or attr == gone:
            continue
        v.check("it has " + attr, attr in metas)
        if name in ENUMS and attr == "value":
            given[attr] = want[attr] = v.choice("value", list(range(1, ENUMS[name] + 1)) if name == "HostMethodIdentifier" else [0, 1, ENUMS[name]])
        elif attr == "invocation" and "ErrorCategory_Message" not in [r[3] for r in rows]:
            continue
        elif attr == "invocation":
            given[attr] = want[attr] = True
        else:
            given[attr], want[attr] = sample(v, S, C, row, metas[attr])
    o = cls(**given)
    ser = S.Serializer()
    el = ser.serialize(o)
    v.check("an object", el.tag == "Obj")
    v.check("its type names", [t.text for t in el.findall("TN/T")] == OBJECTS[name]["types"])
    for section in ("adapted", "extended"):
        wanted = []
        for row in rows:
            _, attr, tag, wire, optional, c = row
            if row[0] != section or attr == gone:
                continue
            wanted.append((attr, wire, tag, c))
        box = el.find({"adapted": "Props", "extended": "MS"}[section])
        got = list(box) if box is not None else []
        v.check("as many properties as given (%s)" % section, len(got) == len(wanted))
        for e, (attr, wire, tag, c) in zip(got, wanted):
            v.check("%s is called %s" % (attr, wire), e.attrib.get("N", "") == wire)
            if tag in ("LST", "DCT", "Obj", "ObjDynamic"):
                v.check("%s is an object" % attr, e.tag == "Obj")
            elif tag == "*":
                v.check("%s has the tag of its value" % attr, e.tag == ("Obj" if c else "S"))
            else:
                v.check("%s has the tag %s" % (attr, tag), e.tag == tag)
    known = name in REGISTERED and gone is None and v.choice("by its type names", [False, True])
    got = S.Serializer().deserialize(el, None if known else C.ObjectMeta("Obj", object=cls))
    v.check("an object of the class", type(got) is cls)
    for attr, x in want.items():
        v.check("%s comes back" % attr, equal(v, C, getattr(got, attr), x))
    if gone:
        v.check("%s is absent" % gone, getattr(got, gone) is None)


def issubclass_of(M, cls):
    return cls.__module__ == M.__name__


# ---- objects of any number of properties ---------------------------------------------------
class Kid:
    """an element whose children are taken one after the other"""

    def __init__(self, tag, attrib, text=None, kids=None):
        self.tag, self.attrib, self.text, self.kids = tag, attrib, text, kids

    def __iter__(self):
        return Source(self.kids)


@contract("C05", funcs=[F + "_deserialize_dynamic_obj"], runs=1, conc=False)
def read_dynamic(v):
    """an object of any number of types and properties: an arbitrary iteration
    of each loop puts the one element it reads at its place"""
    if v.unrolled:
        return
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    v.need(ser, "_deserialize_dynamic_obj")
    made, given = [], []

    def deserialize(self, element, metadata=None, clear=True):
        made.append((element, metadata, clear, v.opaque("value")))
        return made[-1][3]

    v.contract(Q + "deserialize", deserialize)
    objs = []

    class Dyn:
        def __init__(self):
            objs.append(self)
            self.types, self.property_sets, self.adapted_properties, self.extended_properties = Adds(v), Adds(v), Puts(v), Puts(v)
            self.to_string = None

    def now():
        o = objs[0]
        return [o.types.puts, o.adapted_properties.puts, o.extended_properties.puts, o.property_sets.puts, o.to_string]

    def clear():
        o = objs[0]
        for x in (o.types, o.adapted_properties, o.extended_properties, o.property_sets):
            del x.puts[:]
        o.to_string = None
        del made[:]

    def child(parent):
        def nxt():
            if not v.truth(v.sbool("another")):
                raise StopIteration
            if parent == "TN":
                e = Kid("T", {}, v.choice("type", [None, v.str("type name")]))
            else:
                e = Kid(v.choice("tag", ["S", "Obj", "Ref"]), {"N": v.str("name")})
            given.append(e)
            return e

        return nxt

    def prop():
        if not v.truth(v.sbool("more")):
            raise StopIteration
        tag = v.choice("element", ["TN", "Props", "MS", "ToString", "I32"])
        e = Kid(tag, {"RefId": "7"} if tag == "TN" else {}, None, child(tag))
        given.append(e)
        return e

    def havoc(v, L0):
        clear()
        return {}

    def step(v, x, L, L1):
        types, props, ms, sets, s = now()
        tag = given[-1].tag if given[-1].tag in ("ToString", "I32") else None
        v.check("read once, within this document", tag is None or len(made) == 1 and made[0][0] is given[-1] and made[0][2] is False)
        v.check("the text shown", (s is made[0][3]) if tag == "ToString" else s is None)
        v.check("a value of the object itself", (len(sets) == 1 and sets[0] is made[0][3]) if tag == "I32" else not sets)
        v.check("nothing else", tag is None or not types and not props and not ms)

    def inner(which):
        def step(v, x, L, L1):
            types, props, ms, sets, s = now()
            e = given[-1]
            v.check("nothing else", not sets and s is None)
            if which == "TN":
                v.check_eq("the type name", types, [e.text if e.text is not None else ""])
                v.check("nothing else", not props and not ms)
                return
            mine, other = (props, ms) if which == "Props" else (ms, props)
            v.check("read once, within this document", len(made) == 1 and made[0][0] is e and made[0][2] is False)
            v.check("put once, there", len(mine) == 1 and not other and not types)
            v.check_eq("under its name", mine[0][0], e.attrib["N"])
            v.check("the value read", mine[0][1] is made[0][3])

        return step

    fn = Q + "_deserialize_dynamic_obj"
    for n, st in enumerate([step, inner("TN"), inner("Props"), inner("MS")]):
        v.loop(fn, n + 1, whole=True, havoc=havoc, inv=lambda v, L, L0: [], step=st, pull=True, heap=lambda L0: [...])
    top = Kid("Obj", {"RefId": "3"}, None, prop)
    r = ser._deserialize_dynamic_obj(top, C.ObjectMeta("ObjDynamic", object=Dyn))
    v.check("one object, known under its id", len(objs) == 1 and r is objs[0] and ser.obj["3"] is r)


@contract("C05", funcs=[F + "_serialize_dynamic_obj", F + "_serialize_obj"], runs=1, conc=False)
def write_properties(v):
    """an object of any number of properties: an arbitrary iteration of each
    loop writes the one value, under its name, where it belongs"""
    if v.unrolled:
        return
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    made, given = [], []

    def create(self, parent, obj, key=None, meta=None):
        made.append((parent, obj, key, meta))
        ET.SubElement(parent, "written")

    v.contract(Q + "_create_obj", create)
    root, at = [], {}
    static = v.choice("object", ["static", "dynamic"]) == "static"

    class One:
        """any number of (attribute, metadata) pairs"""

        def __init__(self, where):
            self.where = where

        def __len__(self):
            return 5

        def __iter__(self):
            return Source(self.nxt)

        def nxt(self):
            if not v.truth(v.sbool("more")):
                raise StopIteration
            given.append((self.where, v.opaque("value"), C.ObjectMeta("S", name="given")))
            if not static:
                return given[-1][1]
            val.attribute = given[-1][1]
            return "attribute", given[-1][2]

    class Val:
        pass

    val = Val()
    if static:
        val._types, val._to_string = [], None
        val._property_sets, val._adapted_properties, val._extended_properties = One("set"), One("Props"), One("MS")
    else:
        val.types, val.to_string, val.adapted_properties, val.extended_properties = [], None, {}, {}
        val.property_sets = One("set")

    def havoc(v, L0):
        at["n"] = len(made)
        return {}

    def step(v, x, L, L1):
        v.check("one value is written", len(made) == at["n"] + 1)
        parent, obj, key, meta = made[-1]
        where, value, m = given[-1]
        v.check("the value of this property", obj is value and key is None and (meta is m if static else meta is None))
        v.check("where it belongs", parent.tag == ("Obj" if where == "set" else where))

    if static:
        v.loop(Q + "_serialize_obj", 1, whole=True, havoc=havoc, inv=lambda v, L, L0: [], step=step, pull=True, heap=lambda L0: [...])
        v.loop(Q + "_serialize_obj.serialize_prop", 1, whole=True, havoc=havoc, inv=lambda v, L, L0: [], step=step, pull=True, heap=lambda L0: [...])
        e = ser._serialize_obj(C.ObjectMeta("Obj"), val)
    else:
        v.loop(Q + "_serialize_dynamic_obj", 1, whole=True, havoc=havoc, inv=lambda v, L, L0: [], step=step, pull=True, heap=lambda L0: [...])
        e = ser._serialize_dynamic_obj(C.ObjectMeta("ObjDynamic"), val)
    v.check("one element", e.tag == "Obj" and set(x.tag for x in e) <= {"MS", "Props", "written"})
