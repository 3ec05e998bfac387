"""Loops of a function, with those that were moved into helpers of it.

A loop contract names a loop as the n-th (while) loop of a function.  When a
function calls a helper that did not exist when the contracts were written
(contracts/functions.json), the loops of the helper count as standing where
the helper is called."""
import ast
import json
import os

from . import instrument

try:
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "functions.json")) as _f:
        KNOWN = json.load(_f)
except OSError:  # tools/mkfunctions.py writes it
    KNOWN = {}
_TREES = {}


class Ambiguous(Exception):
    pass



def _functions(mod):
    if mod in _TREES:
        return _TREES[mod]
    path = os.path.join(instrument.REPO_SRC, mod.replace(".", "/"))
    path = path + ".py" if os.path.exists(path + ".py") else os.path.join(path, "__init__.py")
    out = {}

    def go(n, p):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                # a property and its setter have one name
                out.setdefault(".".join(p + [c.name]), []).append(c)
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                go(c, p + [c.name])
            else:
                go(c, p)

    try:
        with open(path) as f:
            go(ast.parse(f.read()), [mod])
    except (OSError, SyntaxError):
        pass
    _TREES[mod] = out
    return out


def local_names(fn):
    """the locals of a function in the order in which the text binds them"""
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store) and c.id not in out:
                out.append(c.id)
            visit(c)

    visit(fn)
    return out


def renames(qual):
    """{name the contracts know a local by: its name now}, for locals that got
    another name.  Only a guess: a proof that succeeds by it is a proof."""
    pinned = (KNOWN.get(qual) or [])[2:]
    if not pinned:
        return {}
    for fn in _functions(".".join(qual.split(".")[:2])).get(qual, []):
        if any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(fn)):
            now = local_names(fn)
            gone = [n for n in pinned[0] if n not in now]
            new = [n for n in now if n not in pinned[0]]
            if len(gone) == len(new):
                return dict(zip(gone, new))
    return {}


def loops(qual):
    """[(qual, ordinal, kind)] in the order of the text"""
    mod = ".".join(qual.split(".")[:2])
    funcs = _functions(mod)
    out = []

    def function(q, seen):
        if q in seen or q not in funcs:
            return
        n = [0]  # each definition of the name has loops 1, 2, ...

        def visit(node):
            if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                return
            if isinstance(node, (ast.For, ast.While)):
                n[0] += 1
                out.append((q, n[0], "for" if isinstance(node, ast.For) else "while"))
            for c in ast.iter_child_nodes(node):
                visit(c)
            if isinstance(node, ast.Call):
                f = node.func
                h = None
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                    h = ".".join(q.split(".")[:-1] + [f.attr])
                elif isinstance(f, ast.Name):
                    h = mod + "." + f.id if mod + "." + f.id in funcs else q + "." + f.id
                if h and h not in KNOWN:
                    function(h, seen + [q])

        for fn in funcs[q]:
            n[0] = 0
            for s in fn.body:
                visit(s)

    function(qual, [])
    return out


def find(qual, kind, k):
    """the k-th loop (of the kind) of the function: (qual, ordinal); None when
    it is not there any more, or cannot be told from others"""
    same = [x for x in loops(qual) if kind is None or x[2] == kind]
    fors, whiles = KNOWN.get(qual, (None, None))[:2]
    pinned = None if fors is None else whiles if kind == "while" else fors if kind == "for" else fors + whiles
    if pinned is not None and pinned < len(same):
        raise Ambiguous("%s has %d loops more than when its contract was written" % (qual, len(same) - pinned))
    return same[k - 1][:2] if len(same) >= k else None
