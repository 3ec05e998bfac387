"""Type-name and object references."""
import json
import os
import queue
import xml.etree.ElementTree as ET

from pyvc.harness import contract

SER = "pypsrp.serializer"
CO = "pypsrp.complex_objects"
Q = "pypsrp.serializer.Serializer."
F = "serializer.Serializer."


class Table:
    """a dict whose keys may be symbolic texts or lists of texts: the entries
    the code made, out of arbitrarily many others"""

    def __init__(self, v):
        self.v = v
        self.entries = []
        self.view = None

    def same(self, a, b):
        from pyvc import values as V

        la, lb = isinstance(a, (V.SList, list, tuple)), isinstance(b, (V.SList, list, tuple))
        if la != lb:
            return False
        if not la:
            r = a == b
            return r if isinstance(r, bool) else bool(r)
        return same_list(self.v, a, b)

    def find(self, k):
        for n, (kk, _) in enumerate(self.entries):
            if kk is k or self.same(kk, k):
                return n
        return None

    def get(self, k, d=None):
        n = self.find(k)
        return d if n is None else self.entries[n][1]

    def __getitem__(self, k):
        n = self.find(k)
        if n is None:
            raise KeyError("not in the table")
        return self.entries[n][1]

    def __contains__(self, k):
        return self.find(k) is not None

    def __setitem__(self, k, x):
        n = self.find(k)
        if n is None:
            self.entries.append((k, x))
        else:
            self.entries[n] = (k, x)

    def setdefault(self, k, x=None):
        n = self.find(k)
        if n is None:
            self.entries.append((k, x))
            return x
        return self.entries[n][1]

    def items(self):
        return self.view if self.view is not None else list(self.entries)


def same_list(v, a, b):
    """decide on this path whether two lists of texts are equal"""
    import z3
    from pyvc import values as V

    a, b = V.SList.of(a), V.SList.of(b)
    la, lb = V._z(a.zlen()), V._z(b.zlen())
    if v.choice("equal lists", [True, False]):
        v.assume(V.mkbool(la == lb))
        n = a.concrete_len() if a.concrete_len() is not None else b.concrete_len()
        if n is not None:
            for i in range(n):
                v.assume(a.select(i) == b.select(i))
        else:
            i = z3.Int(v.E.fresh_name("i"))
            v.E.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < la), text(a, i) == text(b, i))))
        return True
    w = z3.Int(v.E.fresh_name("differs"))
    ok = z3.And(w >= 0, w < la, w < lb)
    n = [x.concrete_len() for x in (a, b)]
    if None in n:
        differ = text(a, w) != text(b, w)
    else:
        differ = z3.Or(*[z3.And(w == k, V.SStr.z(a.select(k)) != V.SStr.z(b.select(k))) for k in range(min(n))]) if min(n) else z3.BoolVal(False)
    v.assume(V.mkbool(z3.Or(la != lb, z3.And(ok, differ))))
    return False


def text(s, i):
    """term of element i of a list that is one segment"""
    from pyvc import values as V

    v = None
    pos = 0
    if len(s.segs) == 1:
        return V.SStr.z(s.segs[0].fn(i))
    import z3

    r = None
    for k in range(len(s.segs) - 1, -1, -1):
        x = V.SStr.z(s.segs[k].fn(0))
        r = x if r is None else z3.If(V._z(i) == k, x, r)
    return r if r is not None else z3.StringVal("")


def equal_now(v, a, b):
    """formula: the same texts in the same order"""
    import z3
    from pyvc import values as V

    a, b = V.SList.of(a), V.SList.of(b)
    i = z3.Int(v.E.fresh_name("i"))
    la = V._z(a.zlen())
    return V.mkbool(z3.And(la == V._z(b.zlen()), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < la), text(a, i) == text(b, i)))))


def dec(n):
    from pyvc import values as V

    return V.int_str(n)


def names_loop(v, lists):
    """one T element per name, in order"""
    def step(v, j, x, L, L1):
        tn = L1["tn"]
        v.internal(isinstance(tn, ET.Element) if isinstance(ET.Element, type) else True, "TN element")
        ch = list(tn)
        v.check("one T per name", len(ch) == 1 and ch[0].tag == "T" and len(ch[0]) == 0)
        v.check("holding the name", len(ch) == 1 and (ch[0].text == x if ch[0].text is not None else False))

    def seqs(v, j, L0, seq):
        v.check("over the names of the list", any(seq is l or getattr(seq, "segs", 0) == getattr(l, "segs", 1) for l in lists))
        return {}

    v.loop(Q + "_create_tn", 1, whole=True, havoc=seqs, inv=lambda v, j, L, L0, seq: [], step=step, heap=lambda L0: [Ellipsis])


@contract("C06", funcs=[F + "_create_tn"], runs=1, conc=False)
def type_table(v):
    """any two type lists, of any length, written at any two moments under
    one serialiser"""
    if v.unrolled:
        return
    from pyvc import values as V

    ser = v.mod(SER).Serializer()
    v.need(ser, "_create_tn")
    v.need(ser, "tn_id")
    v.need(ser, "tn")
    ser.tn = Table(v)
    n = v.int("earlier entries", 0)
    ser.tn_id = n
    A, B = v.seq("A", "str"), v.seq("B", "str")
    names_loop(v, [A, B])
    p1, p2 = ET.Element("Obj"), ET.Element("Obj")
    ser._create_tn(p1, A)
    c1 = list(p1)
    v.check("a new list gets an entry", len(c1) == 1 and c1[0].tag == "TN")
    v.check("under the next id", len(c1) == 1 and c1[0].attrib.get("RefId") == dec(n))
    v.check("the id is taken", ser.tn_id == n + 1)
    more = v.int("entries in between", 0)
    ser.tn_id = ser.tn_id + more
    m = ser.tn_id
    ser._create_tn(p2, B)
    c2 = list(p2)
    v.check("one element", len(c2) == 1 and c2[0].tag in ("TN", "TNRef"))
    if len(c2) != 1:
        return
    if c2[0].tag == "TNRef":
        v.check("refers to its own list", equal_now(v, A, B))
        v.check("by the id of the entry", c2[0].attrib.get("RefId") == dec(n))
        v.check("no id is taken", ser.tn_id == m)
    else:
        v.check("another list, or written again in full, gets a fresh id", c2[0].attrib.get("RefId") == dec(m))
        v.check("a list written before is referred to", v.not_(equal_now(v, A, B)))
        v.check("the id is taken", ser.tn_id == m + 1)


@contract("C06", funcs=[F + "_get_obj_id"], runs=1, conc=False)
def object_ids(v):
    """every call hands out a number not handed out before"""
    ser = v.mod(SER).Serializer()
    v.need(ser, "_get_obj_id")
    v.need(ser, "obj_id")
    n = v.int("n", 0)
    ser.obj_id = n
    v.check("the next number", ser._get_obj_id() == dec(n))
    v.check("which is taken then", ser.obj_id == n + 1)


@contract("C06", funcs=[F + "_create_obj"], runs=1, conc=False)
def object_refs(v):
    """a Ref is written only for the very object registered under its id,
    among any number of registered objects"""
    if v.unrolled:
        return
    from pyvc import values as V

    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    v.need(ser, "_create_obj")
    v.need(ser, "obj")
    G = C.GenericComplexObject
    mine, others = G(), [G(), C.Color(value=1)]
    n = v.int("registered", 0)
    import z3

    R = z3.Function(v.E.fresh_name("ref"), V.ISort, V.SSort)
    at = []

    def el(i):
        val = [mine] + others
        x = val[v.E.choose(3)]
        at.append((i, x))
        return (V.SStr(R(V._z(i))), x)

    t = Table(v)
    t.view = V.SList([V.Seg(n.e, el)])
    ser.obj = t
    done = []
    v.contract(Q + "serialize", lambda self, obj, metadata=None, parent=None, clear=True: done.append((obj, metadata, parent, clear)))
    v.loop(Q + "_create_obj", 1, havoc=lambda v, j, L0, seq: {}, inv=lambda v, j, L, L0, seq: [], heap=lambda L0: [Ellipsis],
           step=lambda v, j, x, L, L1: v.check("an entry passed over is another object", at[-1][1] is not mine))
    parent = ET.Element("Props")
    key = v.choice("key", [None, "k"])
    ser._create_obj(parent, mine, key)
    if len(parent):
        v.check("one element", len(parent) == 1 and not done)
        e = parent[0]
        v.check("a Ref to the object itself", e.tag == "Ref" and at[-1][1] is mine)
        v.check("by its id", e.attrib.get("RefId") == V.SStr(R(V._z(at[-1][0]))))
        v.check("under its name", e.attrib.get("N") == key)
    else:
        v.check("else written in full", len(done) == 1 and done[0][0] is mine and done[0][2] is parent and done[0][3] is False)


@contract("C06", funcs=[F + "_get_types_from_obj"], runs=1, conc=False)
def read_types(v):
    """a TNRef yields the names defined under its id: any ids, any names"""
    S = v.mod(SER)
    ser = S.Serializer()
    v.need(ser, "_get_types_from_obj")
    v.need(ser, "tn")
    ser.tn = Table(v)
    a, b, r = v.str("a"), v.str("b"), v.str("r")
    v.assume(a != b)

    def define(ref, n):
        e = ET.Element("Obj")
        tn = ET.SubElement(e, "TN", RefId=ref)
        names = []
        for i in range(n):
            names.append(v.str("name"))
            ET.SubElement(tn, "T").text = names[-1]
        return e, names

    e1, A = define(a, v.choice("names of a", [0, 1, 3]))
    e2, B = define(b, v.choice("names of b", [0, 2]))
    v.check_eq("its own names", ser._get_types_from_obj(e1), A)
    v.check_eq("its own names", ser._get_types_from_obj(e2), B)
    none = ET.Element("Obj")
    v.check_eq("no names", ser._get_types_from_obj(none), [])
    e3 = ET.Element("Obj")
    ET.SubElement(e3, "TNRef", RefId=r)
    is_a = v.truth(r == a)
    is_b = not is_a and v.truth(r == b)
    try:
        got = ser._get_types_from_obj(e3)
    except KeyError:
        v.check("the id is defined", not is_a and not is_b)
        return
    v.check_eq("the names defined under the id", got, A if is_a else B)
    v.check("the id is defined", is_a or is_b)


@contract("C06", funcs=[F + "deserialize", F + "_deserialize_dynamic_obj"], runs=1, conc=False)
def read_refs(v):
    """a Ref yields the very object defined under its id, a TNRef of a dynamic
    object the types defined under its id: any ids"""
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    for a in ("tn", "obj"):
        v.need(ser, a)
    ser.tn, ser.obj = Table(v), Table(v)
    ids = [v.str("id%d" % i) for i in range(3)]
    for i in range(3):
        for j in range(i):
            v.assume(ids[i] != ids[j])
    t = [v.str("t0"), v.str("t1")]
    v.assume(t[0] != t[1])
    kind = v.choice("first", ["dynamic", "list", "static"])

    def obj(ref, tn=None, tnref=None):
        e = ET.Element("Obj", RefId=ref)
        if tn is not None:
            x = ET.SubElement(e, "TN", RefId=tn[0])
            for n in tn[1]:
                ET.SubElement(x, "T").text = n
        if tnref is not None:
            ET.SubElement(e, "TNRef", RefId=tnref)
        return e

    if kind == "dynamic":
        e0 = obj(ids[0], (t[0], ["System.Object", "one"]))
    elif kind == "list":
        e0 = obj(ids[0], (t[0], ["System.Object[]", "System.Array", "System.Object"]))
        ET.SubElement(ET.SubElement(e0, "LST"), "I32").text = "5"
    else:
        e0 = obj(ids[0], (t[0], ["System.ConsoleColor", "System.Enum"]))
        ET.SubElement(e0, "I32").text = "5"
        ET.SubElement(e0, "ToString").text = "x"
    e1 = obj(ids[1], (t[1], ["System.Management.Automation.PSObject", "two", ""]))
    inner = ET.SubElement(e1, "MS")
    self_ref = ET.SubElement(inner, "Ref", RefId=ids[1], N="me")
    o0 = ser.deserialize(e0, clear=False)
    o1 = ser.deserialize(e1, clear=False)
    v.check("the object is what it should be", type(o0) is {"dynamic": C.GenericComplexObject, "list": list, "static": C.Color}[kind])
    v.check("a reference to the object around it", o1.extended_properties.get("me") is o1)
    if kind == "dynamic":
        v.check("its types", o0.types == ["System.Object", "one"])
    v.check("its types", o1.types == ["System.Management.Automation.PSObject", "two", ""])
    r = v.str("r")
    e2 = ET.Element("Ref", RefId=r)
    w = 0 if v.truth(r == ids[0]) else 1 if v.truth(r == ids[1]) else None
    try:
        got = ser.deserialize(e2, clear=False)
        v.check("the very object defined under the id", w is not None and got is (o0, o1)[w])
    except KeyError:
        v.check("an id that is defined", w is None)
    q = v.str("q")
    e3 = obj(ids[2], tnref=q)
    w = 0 if v.truth(q == t[0]) else 1 if v.truth(q == t[1]) else None
    if w is None:
        return
    want = ["System.Object", "one"] if kind == "dynamic" else None
    if w == 1 or want:
        o2 = ser.deserialize(e3, clear=False)
        v.check("the types defined under the id", isinstance(o2, C.GenericComplexObject) and o2.types == (want if w == 0 else ["System.Management.Automation.PSObject", "two", ""]))


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "objects.json")) as _f:
    OBJECTS = json.load(_f)  # class -> types, properties: see c05
PLACES = [(c, r) for c in sorted(OBJECTS) for r in OBJECTS[c]["props"] if r[0] != "set" and r[2] in ("Obj", "ObjDynamic", "LST", "DCT", "*") and r[3]]


@contract("C06", funcs=[F + "_deserialize_obj", F + "deserialize"], runs=300)
def typed_references(v):
    """a Ref in place of any property of any typed object yields the very
    object defined under its id, whatever stands around it"""
    S, C, M = v.mod(SER), v.mod(CO), v.mod("pypsrp.messages")
    cls, row = v.choice("property", PLACES)
    ser = S.Serializer()
    if v.symbolic:
        v.need(ser, "obj")
        ser.tn, ser.obj = Table(v), Table(v)
    a, b, t = v.str("a"), v.str("b"), v.str("t")
    v.assume(a != b)
    e0 = ET.Element("Obj", RefId=a)
    kind = v.choice("what", ["dynamic", "list", "static"])
    tn = ET.SubElement(e0, "TN", RefId=t)
    for n in {"dynamic": ["Mine", "System.Object"], "list": ["System.Object[]", "System.Array", "System.Object"], "static": ["System.ConsoleColor", "System.Enum"]}[kind]:
        ET.SubElement(tn, "T").text = n
    if kind == "list":
        ET.SubElement(ET.SubElement(e0, "LST"), "I32").text = "5"
    else:
        ET.SubElement(e0, "I32").text = "5"
    others = v.choice("others", ["absent", "Nil"])
    itself = kind == "dynamic" and v.choice("itself", [False, True])
    e1 = ET.Element("Obj", RefId=b)
    for section, box in (("adapted", "Props"), ("extended", "MS")):
        rows = [r for r in OBJECTS[cls]["props"] if r[0] == section]
        if not rows:
            continue
        p = ET.SubElement(e1, box)
        for r in rows:
            if r == row:
                ET.SubElement(p, "Ref", N=r[3], RefId=b if itself else a)
            elif not r[4] or others == "Nil":
                ET.SubElement(p, "Nil", N=r[3])
    x = ser.deserialize(e0, clear=False)
    try:
        y = ser.deserialize(e1, C.ObjectMeta("Obj", object=getattr(C, cls, None) or getattr(M, cls)), clear=False)
    except S.SerializationError:
        v.check("the property is found", False)
        return
    v.check("the very object", getattr(y, row[1]) is (y if itself else x))
    others = [getattr(y, r[1]) for r in OBJECTS[cls]["props"] if r != row]
    v.check("the others are empty", all(o is None for o in others))


@contract("C06", funcs=[F + x for x in ("serialize", "_create_tn", "_serialize_dynamic_obj", "_serialize_obj", "_serialize_lst", "_serialize_dct", "_serialize_que", "_serialize_stk", "_serialize_ie")], runs=400, bounded="objects of every kind inside one another, depth three")
def one_document(v):
    """whatever the objects of a document are, their ids and those of the type
    lists are unique, and every reference names a type list of the document"""
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    kinds = ["list", "queue", "stack", "enumerable", "dict", "dynamic", "static"]

    def obj(kind, inner):
        """(value, metadata)"""
        if kind in ("list", "enumerable"):
            return inner, C.ListMeta("LST" if kind == "list" else "IE")
        if kind == "queue":
            q = queue.Queue()
            for x in inner:
                q.put(x)
            return q, C.QueueMeta()
        if kind == "stack":
            return inner, C.StackMeta()
        if kind == "dict":
            return {"k%d" % i: x for i, x in enumerate(inner)}, C.DictionaryMeta()
        if kind == "static":
            return C.Color(value=3), C.ObjectMeta("Obj", object=C.Color)
        g = C.GenericComplexObject()
        g.types = ["Mine", "System.Object"]
        g.property_sets = inner[:1]
        for i, x in enumerate(inner[1:]):
            (g.extended_properties if i % 2 else g.adapted_properties)["p%d" % i] = x
        return g, C.ObjectMeta("ObjDynamic", object=C.GenericComplexObject)

    for _ in range(1 if v.symbolic else 2):
        a = v.choice("outer", kinds[:-1])
        b = v.choice("middle", [k for k in kinds if k not in ("stack", "enumerable")])
        c = v.choice("inner", [k for k in kinds if k not in ("stack", "enumerable")])
        deep = obj(b, [5, obj(c, ["x"])[0], obj(c, [])[0], None])[0]
        value, meta = obj(a, [obj(c, [1])[0], deep, obj(b, [2])[0], obj(c, [3, 4])[0]])
        el = ser.serialize(value, meta)
        tns, ids, found = resolve(v, el)
        want = 5 + (2 if b != "static" else 0)
        v.check("every object is written", len(found) == want)


# ---- through the public interface, with random documents --------------------
NAMES = ["System.Object", "A", "B", "A,B", "A;B", "", "a", "System.Object[]", "System.Array", "System.Collections.Hashtable", "A\x00B", " ", "A B", "System.Management.Automation.PSObject"]


def resolve(v, root):
    """the complete type list of every object element, ids checked"""
    tns, objs = {}, {}
    out = []
    for e in root.iter():
        if e.tag == "Obj":
            ref = e.attrib.get("RefId")
            v.check("object ids are unique", ref is not None and ref not in objs)
            objs[ref] = e
            got = None
            for c in e:
                if c.tag == "TN":
                    v.check("type ids are unique", c.attrib["RefId"] not in tns)
                    got = tns[c.attrib["RefId"]] = [t.text or "" for t in c]
                elif c.tag == "TNRef":
                    v.check("the type id is defined before", c.attrib["RefId"] in tns)
                    got = tns.get(c.attrib["RefId"])
            out.append((e, got))
    return tns, objs, out


@contract("C06", funcs=[F + "serialize", F + "_create_tn", F + "_create_obj", F + "_serialize_dynamic_obj", F + "_serialize_obj", F + "_serialize_lst", F + "_serialize_dct"], runs=400, sym=False)
def write_documents(v):
    """random object graphs, several documents with one serialiser"""
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    n = v.int("objects", 1, 8)
    objs = []
    want = []

    seen = []

    def types():
        how = v.choice("list", ["new", "prefix", "joined", "reversed", "case"]) if seen else "new"
        old = v.choice("of", seen) if how != "new" else []
        if how == "prefix" and old:
            r = old[: v.int("cut", 0, len(old))]
        elif how == "joined" and len(old) > 1:
            k = v.int("at", 0, len(old) - 2)
            r = old[:k] + [v.choice("by", [",", ";", " ", "", "|", ".", "\n", ", ", ":", "/"]).join(old[k : k + 2])] + old[k + 2 :]
        elif how == "reversed":
            r = old[::-1]
        elif how == "case":
            r = [t.lower() for t in old]
        else:
            r = [v.choice("type", NAMES) for _ in range(v.choice("number of names", [0, 1, 2, 2, 3]))]
        seen.append(r)
        return list(r)

    for i in range(n):
        kind = v.choice("kind", ["dynamic", "dynamic", "static", "list", "dict"])
        if kind == "dynamic":
            g = C.GenericComplexObject()
            g.types = types()
            for k in range(v.choice("props", [0, 1, 2])):
                if objs and v.choice("share", [True, False]):
                    g.extended_properties["p%d" % k] = v.choice("which", objs)
                else:
                    g.adapted_properties["p%d" % k] = k
            objs.append(g)
        elif kind == "static":
            objs.append(C.Color(value=v.choice("colour", [0, 3])))
        elif kind == "list":
            objs.append([v.choice("entry", [1, "x"])])
        else:
            objs.append({"k": v.choice("entry", [1, "x"])})
    root = C.GenericComplexObject()
    root.types = types()
    root.property_sets = list(objs)
    for _ in range(2):
        el = ser.serialize(root)
        tns, ids, found = resolve(v, el)
        lists = [tuple(x) for x in tns.values()]
        v.check("one entry per type list", len(set(lists)) == len(lists))
        # walk values and elements together
        table = {}

        def walk(x, e):
            if e.tag == "Ref":
                v.check("the Ref names this object", table.get(e.attrib["RefId"]) is x)
                return
            got = dict((id(k), t) for k, t in found).get(id(e))
            if isinstance(x, C.GenericComplexObject):
                table[e.attrib["RefId"]] = x
                v.check("exactly its own type list", (got or []) == list(x.types))
                rest = [c for c in e if c.tag not in ("TN", "TNRef", "ToString", "Props", "MS")]
                for a, b in zip(x.property_sets, rest):
                    walk(a, b)
                for tag, props in (("MS", x.extended_properties), ("Props", x.adapted_properties)):
                    byname = {c.attrib.get("N"): c for c in (e.find(tag) if e.find(tag) is not None else [])}
                    for k, y in props.items():
                        walk(y, byname[k])
            elif isinstance(x, C.ComplexObject):
                v.check("exactly its own type list", got == ["System.ConsoleColor", "System.Enum", "System.ValueType", "System.Object"])
            elif isinstance(x, list):
                v.check("exactly its own type list", got == ["System.Object[]", "System.Array", "System.Object"])
            elif isinstance(x, dict):
                v.check("exactly its own type list", got == ["System.Collections.Hashtable", "System.Object"])

        walk(root, el)


@contract("C06", funcs=[F + "deserialize", F + "_deserialize_dynamic_obj", F + "_get_types_from_obj"], runs=400, sym=False)
def read_documents(v):
    """random documents with arbitrary ids, written by this harness"""
    S, C = v.mod(SER), v.mod(CO)
    ser = S.Serializer()
    for _ in range(2):
        pool = v.choice("ids", [["0", "1", "2", "3", "4", "5", "6", "7"], ["7", "3", "x", "", "10", "01", "1", "é"]])
        n = v.int("objects", 1, 6)
        tns, expect = {}, []
        root = ET.Element("Obj", RefId="root")
        tn = ET.SubElement(root, "TN", RefId="root")
        ET.SubElement(tn, "T").text = "System.Object"
        free, tfree = list(pool), list(pool)
        made = []
        for i in range(n):
            how = v.choice("how", ["new", "new", "Ref"]) if made else "new"
            if how == "Ref":
                k = v.choice("which", made)
                ET.SubElement(root, "Ref", RefId=k[0])
                expect.append(("ref", k[1]))
                continue
            rid = free.pop(v.int("id", 0, len(free) - 1))
            e = ET.SubElement(root, "Obj", RefId=rid)
            if tns and v.choice("types", ["TNRef", "TN"]) == "TNRef":
                t = v.choice("which types", sorted(tns))
                ET.SubElement(e, "TNRef", RefId=t)
            else:
                t = tfree.pop(v.int("tid", 0, len(tfree) - 1))
                tns[t] = ["System.Object"] + [v.choice("name", NAMES[:6]) for _ in range(v.choice("names", [0, 1, 2]))]
                x = ET.SubElement(e, "TN", RefId=t)
                for m in tns[t]:
                    ET.SubElement(x, "T").text = m
            ET.SubElement(ET.SubElement(e, "MS"), "I32", N="n").text = str(i)
            if v.choice("itself", [False, True]):
                ET.SubElement(e.find("MS"), "Ref", RefId=rid, N="me")
                me = True
            else:
                me = False
            made.append((rid, i))
            expect.append(("new", i, tns[t], me))
        got = ser.deserialize(root if v.choice("form", [True, False]) else ET.tostring(root).decode())
        out = got.property_sets
        v.check("as many objects", len(out) == len(expect))
        for x, e in zip(out, expect):
            if e[0] == "ref":
                v.check("the very object", x is out[e[1]])
            else:
                v.check("a new object", all(x is not y for y, f in zip(out, expect) if f[0] == "new" and f[1] < e[1]))
                v.check("its types", x.types == e[2])
                v.check("its own properties", x.extended_properties["n"] == e[1])
                if e[3]:
                    v.check("a reference to itself", x.extended_properties["me"] is x)


@contract("C06", funcs=[F + "deserialize"], runs=300, sym=False, bounded="up to five containers of up to two entries")
def container_refs(v):
    """references to containers of every kind, empty ones included, are the
    very container, wherever they are"""
    S = v.mod(SER)
    ser = S.Serializer()
    kinds = {"LST": ("System.Collections.ArrayList", list), "DCT": ("System.Collections.Hashtable", dict), "QUE": ("System.Collections.Queue", None), "STK": ("System.Collections.Stack", list)}
    for _ in range(2):  # the references of one document are not those of the next
        root = ET.Element("Obj", RefId="0")
        t = ET.SubElement(root, "TN", RefId="0")
        ET.SubElement(t, "T").text = "System.Management.Automation.PSCustomObject"
        ET.SubElement(t, "T").text = "System.Object"
        ms = ET.SubElement(root, "MS")
        made, tns, expect = [], {}, {}
        base = v.choice("first id", [1, 50])
        for i in range(v.choice("properties", [2, 3, 5])):
            if made and v.choice("how", ["new", "Ref"]) == "Ref":
                k = v.choice("which", made)
                ET.SubElement(ms, "Ref", RefId=str(base + k), N="p%d" % i)
                expect["p%d" % i] = "p%d" % k
                continue
            tag = v.choice("kind", sorted(kinds))
            e = ET.SubElement(ms, "Obj", RefId=str(base + i), N="p%d" % i)
            if tag in tns:
                ET.SubElement(e, "TNRef", RefId=tns[tag])
            else:
                tns[tag] = str(base + len(tns))
                x = ET.SubElement(e, "TN", RefId=tns[tag])
                ET.SubElement(x, "T").text = kinds[tag][0]
                ET.SubElement(x, "T").text = "System.Object"
            c = ET.SubElement(e, tag)
            for j in range(v.choice("entries", [0, 0, 1, 2])):
                if tag == "DCT":
                    en = ET.SubElement(c, "En")
                    ET.SubElement(en, "S", N="Key").text = "k%d" % j
                    c2, at = en, {"N": "Value"}
                else:
                    c2, at = c, {}
                if made and v.choice("entry", ["number", "Ref"]) == "Ref":
                    k = v.choice("which", made)
                    ET.SubElement(c2, "Ref", RefId=str(base + k), **at)
                    expect[("p%d" % i, j)] = "p%d" % k
                else:
                    ET.SubElement(c2, "I32", **at).text = str(10 * i + j)
                    expect[("p%d" % i, j)] = 10 * i + j
            expect["p%d" % i] = (tag, len(c))
            made.append(i)
        got = ser.deserialize(root if v.choice("form", [True, False]) else ET.tostring(root).decode()).extended_properties
        v.check("every property", sorted(got) == sorted(k for k in expect if isinstance(k, str)))
        for k, e in expect.items():
            if isinstance(k, str):
                if isinstance(e, str):
                    v.check("the very container", got[k] is got[e])
                    continue
                v.check("its kind", isinstance(got[k], kinds[e[0]][1]) if kinds[e[0]][1] else hasattr(got[k], "get") and not isinstance(got[k], dict))
                v.check("its size", (len(got[k]) if hasattr(got[k], "__len__") else got[k].qsize()) == e[1])
                continue
            p, j = k
            x = got[p]
            tag, n = expect[p]
            entry = x["k%d" % j] if tag == "DCT" else x.queue[j] if tag == "QUE" else x[j]
            v.check("its entries", entry is got[e] if isinstance(e, str) else entry == e)
