"""Multi-dimensional arrays and enumerations."""
import xml.etree.ElementTree as ET

from pyvc.harness import contract

CO = "pypsrp.complex_objects"
ARRAY = ["complex_objects.Array.array", "complex_objects.Array.mae", "complex_objects.Array.mal", "complex_objects.Array._build_array", "complex_objects.Array._get_list_entries", "complex_objects.Array._get_list_count"]


def shape(v, depth, top, zero=True):
    """sizes of the dimensions; only the innermost may be 0 (a nested list
    cannot tell what is inside an empty list)"""
    return [v.choice("size %d" % i, list(range(0 if zero and i == depth - 1 else 1, top + 1))) for i in range(depth)]


def nested(dims, it):
    if len(dims) == 1:
        return [next(it) for _ in range(dims[0])]
    return [nested(dims[1:], it) for _ in range(dims[0])]


def total(dims):
    n = 1
    for d in dims:
        n *= d
    return n


def same(a, b):
    """the same nested list of the very same elements"""
    if type(a) is list or type(b) is list:
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b


@contract("C26", funcs=ARRAY, runs=400, bounded="up to 4 dimensions of at most 3 elements (any elements)")
def roundtrip(v):
    """to the wire form and back"""
    A = v.mod(CO).Array
    depth = v.choice("depth", [1, 2, 3, 4] if v.symbolic else [1, 2, 3, 4, 5, 6])
    dims = shape(v, depth, 3 if v.symbolic or depth < 4 else 2)
    flat = [object() for _ in range(total(dims))]
    value = nested(dims, iter(flat))
    a = A(array=value) if v.choice("how", [True, False]) else A()
    a.array = value
    for _ in (0, 1):
        v.check("lengths are the sizes of the dimensions", list(a.mal) == dims)
        v.check("elements in row-major order", same(a.mae, flat))
    v.check("the value itself is unchanged", same(a.array, nested(dims, iter(flat))))
    b = A()
    first = v.choice("order", ["mae", "mal"])
    for name in [first, "mal" if first == "mae" else "mae"]:
        setattr(b, name, list(flat) if name == "mae" else list(dims))
    if v.choice("sent before read", [False, True]):
        v.check("sent again unchanged", list(b.mal) == dims and same(b.mae, flat))
    v.check("read back", same(b.array, value))
    v.check("sent again unchanged", list(b.mal) == dims and same(b.mae, flat))


@contract("C26", funcs=ARRAY, runs=100, bounded="a leading empty dimension, up to 4 dimensions")
def empty_outside(v):
    """received arrays whose outer dimension is empty can be read"""
    A = v.mod(CO).Array
    inner = [v.choice("size %d" % i, [0, 1, 3]) for i in range(v.choice("inner", [0, 1, 2, 3]))]
    outer = [v.choice("outer", [1, 2])] if v.choice("inside", [False, True]) else []
    b = A()
    b.mae, b.mal = [], outer + [0] + inner
    want = [[] for _ in range(outer[0])] if outer else []
    v.check("the empty lists", b.array == want)


def flat_fn(v, name):
    import z3
    from pyvc import values as V

    F = z3.Function(v.E.fresh_name(name), V.ISort, V.AnySort)
    return lambda i: V.Opaque(F(V._z(V.zi(i))), "element")


def seg(n, fn):
    from pyvc import values as V

    return V.SList([V.Seg(V._z(V.zi(n)), fn)])


def plus(a, b):
    from pyvc import values as V

    return V.zadd(V.zi(a), V.zi(b))


@contract("C26", funcs=["complex_objects.Array._get_list_entries"], runs=1, conc=False)
def entries(v):
    """elements in row-major order, for every depth (induction: the elements of
    the inner lists are given by the contract) and size"""
    if v.unrolled:
        return
    A = v.mod(CO).Array
    v.need(A, "_get_list_entries")
    n = v.int("size", 0)
    F = flat_fn(v, "E")
    leaf = v.choice("children", ["elements", "lists"]) == "elements"
    b = 1 if leaf else v.int("elements of a child", 0)

    def child(k):
        from pyvc import values as V

        if leaf:
            return F(k)
        x = seg(b, lambda i: F(plus(k * V._z(V.zi(b)), i)))
        x.start = k * V._z(V.zi(b))
        return x

    value = seg(n, child)

    def inner(self, x):
        v.internal(hasattr(x, "start"), "recursion on something else than a child")
        return seg(b, lambda i: F(plus(x.start, i)))

    v.contract("pypsrp.complex_objects.Array._get_list_entries", inner)
    v.loop("pypsrp.complex_objects.Array._get_list_entries", 1, closed=lambda v, j, L0, seq: {"values": seg(j * b, F)})
    got = A._get_list_entries(A(), value)
    v.check_eq("row-major", got, seg(n * b, F))


@contract("C26", funcs=["complex_objects.Array._get_list_count"], runs=1, conc=False)
def counts(v):
    """the sizes of the dimensions, for every depth and size"""
    if v.unrolled:
        return
    import z3
    from pyvc import values as V

    A = v.mod(CO).Array
    v.need(A, "_get_list_count")
    D = v.int("depth", 1)
    dims = z3.Function(v.E.fresh_name("dim"), V.ISort, V.ISort)

    def dim(t):
        t = V._z(V.zi(t))
        v.E.fact(dims(t) >= z3.If(t == D.e - 1, 0, 1))
        return V.mkint(dims(t))

    def node(t):
        """a list at level t < D"""
        def at(i):
            return node(t + 1) if v.truth(t + 1 < D) else leaf
        x = seg(dim(t), at)
        x.level = t
        return x

    leaf = flat_fn(v, "leaf")(0)
    ghost = {}

    def havoc(v, L0):
        t = v.int("level", 0)
        what = v.choice("at", ["list", "element", "nothing"])
        if what == "list":
            v.assume(t < D)
            cur = node(t)
        else:
            v.assume(t == D)
            if what == "nothing":
                v.assume(dim(D - 1) == 0)
            cur = leaf if what == "element" else None
        ghost["t"] = t
        return {"count": seg(t, dim), "current_entry": cur}

    def inv(v, L, L0):
        c, n = L["current_entry"], v.len(L["count"])
        if isinstance(c, V.SList):
            ok = v.and_(n == c.level, c.level < D)
        elif c is None:
            ok = v.and_(n == D, dim(D - 1) == 0)
        else:
            ok = v.and_(n == D, c is leaf)
        return [("as many sizes as levels passed", ok)]

    def step(v, L, L1):
        v.check_eq("the size of this level is added", L1["count"], seg(ghost["t"] + 1, dim))

    v.loop("pypsrp.complex_objects.Array._get_list_count", 1, havoc=havoc, inv=inv, step=step)
    got = A._get_list_count(A(), node(v.int("top", 0, 0)))
    v.check_eq("the sizes of the dimensions", got, seg(D, dim))


@contract("C26", funcs=["complex_objects.Array._build_array"], runs=1, conc=False)
def build(v):
    """one level: the elements are cut into rows of the innermost size; more
    dimensions are the same problem over the rows (contract of the recursive
    call), for every number and size of dimensions"""
    if v.unrolled:
        return
    import z3
    from pyvc import values as V

    A = v.mod(CO).Array
    v.need(A, "_build_array")
    F = flat_fn(v, "M")
    dims = z3.Function(v.E.fresh_name("dim"), V.ISort, V.ISort)
    prod = z3.Function(v.E.fresh_name("prod"), V.ISort, V.ISort)

    def dim(t):
        t = V._z(V.zi(t))
        v.E.fact(dims(t) >= 0)
        return V.mkint(dims(t))

    def P(k):
        """product of the first k sizes"""
        k = V._z(V.zi(k))
        v.E.fact(prod(z3.IntVal(0)) == 1)
        v.E.fact(prod(k + 1) == prod(k) * dims(k))
        v.E.fact(prod(k) >= 0)
        return V.mkint(prod(k))

    case = v.choice("dimensions", ["one", "two", "more"])
    D = 1 if case == "one" else 2 if case == "two" else v.int("dimensions", 3)
    mal = seg(D, dim) if case == "more" else [dim(i) for i in range(D)]
    last = dim(D - 1)
    P(0)
    count = P(D - 1)
    v.E.fact(prod(V._z(V.zi(D)) ) == prod(V._z(V.zi(D - 1))) * dims(V._z(V.zi(D - 1))))
    n = count * last
    mae = seg(n, F)

    def row(k):
        return seg(last, lambda i: F(plus(k * V._z(V.zi(last)), i)))

    Q = "pypsrp.complex_objects.Array._build_array"
    called = []
    result = [object()]

    def inner(self, a, b):
        called.append((a, b))
        return result

    v.contract(Q, inner)
    v.loop(Q, 1, closed=lambda v, j, L0, seq: {"count": P(j)})

    def rows(v, j, L0, s):
        left = (count - j) * last
        # instances of (a + 1) * b == a * b + b and of a, b >= 0 => a * b >= 0
        z = lambda x: V._z(V.zi(x))
        v.E.fact(z((j + 1) * last) == z(j * last) + z(last))
        v.E.fact(z(left) == z((count - j - 1) * last) + z(last))
        v.E.fact(z3.Implies(z(count - j - 1) >= 0, z((count - j - 1) * last) >= 0))
        return {"values": seg(j, row), "mae": seg(left, lambda i: F(plus(V._z(V.zi(j * last)), i)))}

    v.loop(Q, 2, closed=rows)

    def cells(v, j, L0, s):
        m = L0["mae"]
        k = m.segs[0].fn if m.segs else F
        return {"entry": seg(j, k), "mae": seg(v.len(m) - j, lambda i: k(plus(V.zi(j), i)))}

    v.loop(Q, 3, closed=cells)
    got = A._build_array(A(), mae, mal)
    if case == "one":
        v.check_eq("all elements", got, seg(last, F))
        v.check("no further level", not called)
    elif case == "two":
        v.check_eq("rows of the innermost size", got, seg(dim(0), row))
        v.check("no further level", not called)
    else:
        v.check("the outer dimensions over the rows", len(called) == 1 and got is result)
        v.check_eq("the rows", called[0][0], seg(count, row))
        v.check_eq("the outer sizes", called[0][1], seg(D - 1, dim))


@contract("C26", funcs=ARRAY + ["serializer.Serializer.serialize", "serializer.Serializer.deserialize"], runs=200, bounded="up to 3 dimensions of at most 2 elements")
def wire(v):
    """through a serializer, to a document and back"""
    C, S = v.mod(CO), v.mod("pypsrp.serializer")
    depth = v.choice("depth", [1, 2, 3])
    dims = shape(v, depth, 2 if v.symbolic else 4)
    kind = v.choice("kind", ["int", "str"])
    if v.symbolic:
        flat = [v.int("i%d" % i, -(2**31), 2**31 - 1) for i in range(total(dims))] if kind == "int" else ["s%d" % i for i in range(total(dims))]
    else:
        flat = [v.choice("e", [0, -1, 2**31 - 1, 2**40]) if kind == "int" else v.choice("s", ["", "a", "_x0041_", "<"]) for i in range(total(dims))]
    el = S.Serializer().serialize(C.Array(array=nested(dims, iter(flat))))
    ms = el.find("MS")
    byname = {o.attrib.get("N"): o for o in ms}
    v.check("the lengths", [x.text for x in byname["mal"].find("LST")] == [str(d) for d in dims])
    v.check_eq("as many elements", len(byname["mae"].find("LST")), total(dims))
    b = S.Serializer().deserialize(el, C.ObjectMeta("Obj", object=C.Array))
    again = S.Serializer().serialize(b) if v.choice("sent before read", [False, True]) else None
    v.check_eq("read back", b.array, nested(dims, iter(flat)))
    if again is None:
        again = S.Serializer().serialize(b)
    v.check("sent again unchanged", dump(again) == dump(el))


def dump(el):
    """an element with symbolic texts compared by identity or value"""
    t = el.text
    return (el.tag, sorted(el.attrib.items()), t if t is None or isinstance(t, str) else str(getattr(t, "e", t)), [dump(c) for c in el])


# ---- enumerations: [MS-PSRP] 2.2.3, name of the constant, number, text
SIMPLE = {
    "Color": [("BLACK", 0, "Black"), ("DARK_BLUE", 1, "DarkBlue"), ("DARK_GREEN", 2, "DarkGreen"), ("DARK_CYAN", 3, "DarkCyan"), ("DARK_RED", 4, "DarkRed"), ("DARK_MAGENTA", 5, "DarkMagenta"), ("DARK_YELLOW", 6, "DarkYellow"), ("GRAY", 7, "Gray"), ("DARK_GRAY", 8, "DarkGray"), ("BLUE", 9, "Blue"), ("GREEN", 10, "Green"), ("CYAN", 11, "Cyan"), ("RED", 12, "Red"), ("MAGENTA", 13, "Magenta"), ("YELLOW", 14, "Yellow"), ("WHITE", 15, "White")],
    "PSThreadOptions": [("DEFAULT", 0, "Default"), ("USE_NEW_THREAD", 1, "UseNewThread"), ("REUSE_THREAD", 2, "ReuseThread"), ("USE_CURRENT_THREAD", 3, "UseCurrentThread")],
    "ApartmentState": [("STA", 0, "STA"), ("MTA", 1, "MTA"), ("UNKNOWN", 2, "UNKNOWN")],
    "CommandOrigin": [("RUNSPACE", 0, "Runspace"), ("INTERNAL", 1, "Internal")],
    "PipelineResultTypes": [("NONE", 0, "None"), ("OUTPUT", 1, "Output"), ("ERROR", 2, "Error"), ("WARNING", 3, "Warning"), ("VERBOSE", 4, "Verbose"), ("DEBUG", 5, "Debug"), ("INFORMATION", 6, "Information"), ("ALL", 7, "All"), ("NULL", 8, "Null")],
    "ProgressRecordType": [("PROCESSING", 0, "Processing"), ("COMPLETED", 1, "Completed")],
    "SessionStateEntryVisibility": [("PUBLIC", 0, "Public"), ("PRIVATE", 1, "Private")],
    "HostMethodIdentifier": [(None, i + 1, n) for i, n in enumerate(
        "GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication "
        "ReadLine ReadLineAsSecureString Write1 Write2 WriteLine1 WriteLine2 WriteLine3 WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine Prompt "
        "PromptForCredential1 PromptForCredential2 PromptForChoice GetForegroundColor SetForegroundColor GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition "
        "GetWindowPosition SetWindowPosition GetCursorSize SetCursorSize GetBufferSize SetBufferSize GetWindowSize SetWindowSize GetWindowTitle SetWindowTitle GetMaxWindowSize "
        "GetMaxPhysicalWindowSize GetKeyAvailable ReadKey FlushInputBuffer SetBufferContents1 SetBufferContents2 GetBufferContents ScrollBufferContents PushRunspace PopRunspace "
        "GetIsRunspacePushed GetRunspace PromptForChoiceMultipleSelection".split())],
}
STATES = {
    "RunspacePoolState": [("BEFORE_OPEN", 0, "BeforeOpen"), ("OPENING", 1, "Opening"), ("OPENED", 2, "Opened"), ("CLOSED", 3, "Closed"), ("CLOSING", 4, "Closing"), ("BROKEN", 5, "Broken"), ("NEGOTIATION_SENT", 6, "NegotiationSent"), ("NEGOTIATION_SUCCEEDED", 7, "NegotiationSucceeded"), ("CONNECTING", 8, "Connecting"), ("DISCONNECTED", 9, "Disconnected")],
    "PSInvocationState": [("NOT_STARTED", 0, "NotStarted"), ("RUNNING", 1, "Running"), ("STOPPING", 2, "Stopping"), ("STOPPED", 3, "Stopped"), ("COMPLETED", 4, "Completed"), ("FAILED", 5, "Failed"), ("DISCONNECTED", 6, "Disconnected")],
}
FLAGS = {
    "RemoteStreamOptions": ([("ADD_INVOCATION_INFO_TO_ERROR_RECORD", 1, "AddInvocationInfoToErrorRecord"), ("ADD_INVOCATION_INFO_TO_WARNING_RECORD", 2, "AddInvocationInfoToWarningRecord"), ("ADD_INVOCATION_INFO_TO_DEBUG_RECORD", 4, "AddInvocationInfoToDebugRecord"), ("ADD_INVOCATION_INFO_TO_VERBOSE_RECORD", 8, "AddInvocationInfoToVerboseRecord")], ("ADD_INVOCATION_INFO", 15, "AddInvocationInfo")),
    "CommandType": ([("ALIAS", 1, "Alias"), ("FUNCTION", 2, "Function"), ("FILTER", 4, "Filter"), ("CMDLET", 8, "Cmdlet"), ("EXTERNAL_SCRIPT", 16, "ExternalScript"), ("APPLICATION", 32, "Application"), ("SCRIPT", 64, "Script"), ("WORKFLOW", 128, "Workflow"), ("CONFIGURATION", 256, "Configuration")], ("ALL", 511, "All")),
}
CONSTANTS = {
    "ControlKeyState": [("RightAltPressed", 1), ("LeftAltPressed", 2), ("RightCtrlPressed", 4), ("LeftCtrlPressed", 8), ("ShiftPressed", 16), ("NumLockOn", 32), ("ScrollLockOn", 64), ("CapsLockOn", 128), ("EnhancedKey", 256)],
    "BufferCellType": [("COMPLETE", 0), ("LEADING", 1), ("TRAILING", 2)],
}
ENUM = ["complex_objects.Enum.__init__", "complex_objects.Enum._to_string"]


def sent(v, name, value, text, **kw):
    """an enumeration value as transmitted and received"""
    C, S = v.mod(CO), v.mod("pypsrp.serializer")
    o = getattr(C, name)(value=value, **kw)
    v.check_eq("shown as its name", str(o), text)
    el = S.Serializer().serialize(o)
    v.check_eq("transmitted with the text", el.findtext("ToString"), text)
    nums = el.findall("I32")
    v.check("and one number", len(nums) == 1)
    v.check_eq("its number", nums[0].text, str(value))
    back = S.Serializer().deserialize(el, C.ObjectMeta("Obj", object=getattr(C, name)))
    v.check_eq("received as the same number", back.value, value)


@contract("C26", funcs=ENUM + ["complex_objects.%s.__init__" % n for n in SIMPLE] + ["complex_objects.%s.__str__" % n for n in STATES], runs=300)
def enums(v):
    """every value of every enumeration"""
    C = v.mod(CO)
    name = v.choice("enumeration", sorted(SIMPLE) + sorted(STATES))
    const, value, text = v.choice("value", (SIMPLE.get(name) or STATES.get(name)))
    if const is not None:
        v.check_eq("the constant", getattr(getattr(C, name), const), value)
    if name in STATES:
        v.check_eq("shown as its name", str(getattr(C, name)(value)), text)
        return
    sent(v, name, value, text)


@contract("C26", funcs=ENUM + ["complex_objects.PipelineResultTypes.__init__"], runs=20)
def merge_v2(v):
    """the result types of protocol 2.1: the two flags"""
    value, text = v.choice("value", [(0, "None"), (1, "Output"), (2, "Error"), (3, "Output, Error")])
    C = v.mod(CO)
    v.check_eq("shown as its names", str(C.PipelineResultTypes(protocol_version_2=True, value=value)), text)


@contract("C26", funcs=ENUM, runs=60)
def unknown(v):
    """a number that no name stands for is not shown as one"""
    C = v.mod(CO)
    name = v.choice("enumeration", sorted(SIMPLE))
    known = [x[1] for x in SIMPLE[name]]
    value = v.choice("value", [max(known) + 1, -1, 1000])
    v.check("refused", v.raises(KeyError, lambda: str(getattr(C, name)(value=value))) is not None)


@contract("C26", funcs=["complex_objects.%s._to_string" % n for n in FLAGS], runs=500)
def flags(v):
    """every set of flags: exactly their names"""
    name = v.choice("flags", sorted(FLAGS))
    table, (allname, every, alltext) = FLAGS[name]
    K = getattr(v.mod(CO), name)
    v.check("the constants", all(getattr(K, c) == n for c, n, _ in table) and getattr(K, allname) == every)
    value = v.choice("value", list(range(every + 1)))
    o = K(value=value)
    got = str(o)
    if value == every:
        v.check_eq("all of them", got, alltext)
    else:
        v.check_eq("exactly the names of the set", sorted(x for x in got.split(", ") if x), sorted(t for c, n, t in table if value & n))
    if value in (0, 1, every) or value % 7 == 3:
        sent(v, name, value, got)


@contract("C26", funcs=[], runs=5)
def constants(v):
    C = v.mod(CO)
    for name, table in CONSTANTS.items():
        for c, n in table:
            v.check_eq("%s.%s" % (name, c), getattr(getattr(C, name), c), n)
