"""Mechanical instrumentation of /repo's current source.

The modules of pypsrp are compiled from the files of /repo's working tree after
this AST rewriting, which is semantics preserving on concrete values:

  f(a)            -> __vc_call(f, a)        (models for symbolic arguments)
  x[k], x[k]=v    -> __vc_get / __vc_set    (symbolic index or key)
  k in d          -> __vc_in
  [a, b]          -> __vc_list              (a list that can grow symbolically, on request)
  s % a, f"..."   -> __vc_mod / __vc_fstr
  o.a = v         -> the store plus a note of the write (frame conditions)
  [e for x in s]  -> __vc_comp              (map over a symbolic list)
  for/while       -> the same loop over __vc_for/__vc_while, which iterate
                     normally on concrete data and otherwise apply the loop
                     contract at a cut point

Dropped: statements `log.<method>(...)` and type annotations.
"""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
LOOP_INDEX = {}  # (qualname, ordinal) -> line
LOOP_KIND = {}  # (qualname, ordinal) -> "for" or "while"
FUNC_HASH = {}  # qualname -> hash of source


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class _Locals(ast.NodeVisitor):
    """names bound in a function body (not in nested functions)"""

    def __init__(self):
        self.names = set()
        self.outer = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        self.visit(n.generators[0].iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        # the name is deleted after the handler; keep it native
        for s in n.body:
            self.visit(s)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_Global(self, n):
        self.outer.update(n.names)

    visit_Nonlocal = visit_Global


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []  # qualname parts
        self.fn = []  # per function: dict(loops=count, locals=set)

    # ---- scopes ----
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        node.body = [x for s in node.body for x in (s if isinstance(s, list) else [s]) if x is not None]
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        lv = _Locals()
        for s in node.body:
            lv.visit(s)
        names = (lv.names - lv.outer) | set(params)
        FUNC_HASH[self.mod + "." + ".".join(self.stack)] = hashlib.sha1(ast.dump(node).encode()).hexdigest()
        self.fn.append({"loops": 0, "locals": names})
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        node.body = body or [ast.Pass()]
        node.returns = None
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        self.fn.pop()
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass() if self.fn else node
        if not self.fn:
            return self.generic_visit(node)
        new = ast.Assign(targets=[node.target], value=node.value)
        return self.visit(ast.copy_location(new, node))

    # ---- statements ----
    def visit_Expr(self, node):
        v = node.value
        if (
            isinstance(v, ast.Call)
            and isinstance(v.func, ast.Attribute)
            and isinstance(v.func.value, ast.Name)
            and v.func.value.id == "log"
        ):
            return ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)

    def _store(self, target):
        """extra statements after/before a store into target"""
        return target

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(_call("__vc_set__", self.visit(t.value), self.visit(self._slice(t.slice)), node.value)), node
            )
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute) and self.fn:
            t = node.targets[0]
            t.value = ast.copy_location(_call("__vc_w__", self.visit(t.value), ast.Constant(t.attr)), t.value)
            return node
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript):
            return ast.copy_location(
                ast.Expr(
                    _call("__vc_augset__", self.visit(t.value), self.visit(self._slice(t.slice)), ast.Constant(type(node.op).__name__), node.value)
                ),
                node,
            )
        if isinstance(t, ast.Attribute):
            t.value = ast.copy_location(_call("__vc_w__", self.visit(t.value), ast.Constant(t.attr)), t.value)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(
                    ast.copy_location(ast.Expr(_call("__vc_del__", self.visit(t.value), self.visit(self._slice(t.slice)))), node)
                )
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_ExceptHandler(self, node):
        # bare except / except BaseException must not swallow the engine's own signals
        self.generic_visit(node)
        catch_all = node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException")
        if catch_all:
            node.body = [ast.Expr(_call("__vc_reraise__"))] + node.body
        return node

    # ---- expressions ----
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals"):
            return self.generic_visit(node)
        a = node.args
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(a) == 1 and not node.keywords and isinstance(a[0], ast.GeneratorExp):
            # join makes a list of what it is given
            node.args = [ast.copy_location(ast.ListComp(elt=a[0].elt, generators=a[0].generators), a[0])]
        node = self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name("__vc_call__"), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.fn:
            return ast.copy_location(_call("__vc_list__", node), node)
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if self.fn:
            return ast.copy_location(_call("__vc_new__", node), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(func=_name("slice"), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        return s

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load) and self.fn:
            sl = node.slice
            if isinstance(sl, ast.Slice):
                for f in ("lower", "upper", "step"):
                    if getattr(sl, f) is not None:
                        setattr(sl, f, self.visit(getattr(sl, f)))
                idx = self._slice(sl)
            else:
                idx = self.visit(sl)
            return ast.copy_location(_call("__vc_get__", self.visit(node.value), idx), node)
        return self.generic_visit(node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = _call("__vc_in__", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("__vc_mod__", node.left, node.right), node)
        if isinstance(node.op, ast.Mult):
            return ast.copy_location(_call("__vc_mul__", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                if isinstance(spec, ast.JoinedStr):
                    spec = self.visit_JoinedStr(spec)
                parts.append(
                    ast.Call(
                        func=_name("__vc_fmt__"), args=[self.visit(v.value), ast.Constant(v.conversion), spec], keywords=[]
                    )
                )
        return ast.copy_location(_call("__vc_fstr__", ast.List(elts=parts, ctx=ast.Load())), node)

    def visit_ListComp(self, node):
        g = node.generators[0]
        simple = len(node.generators) == 1 and not g.is_async and isinstance(g.target, (ast.Name, ast.Tuple)) and self.fn
        has_yield = any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(node))
        if not simple or has_yield:
            return self.generic_visit(node)
        it = self.visit(g.iter)
        elt = self.visit(node.elt)
        conds = [self.visit(c) for c in g.ifs]
        cond = ast.Constant(None)

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(
                    args=ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                    body=body,
                )
            # tuple target: bind through a nested comprehension
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg("_vc_t")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=ast.Subscript(
                    value=ast.ListComp(
                        elt=body,
                        generators=[
                            ast.comprehension(target=g.target, iter=ast.List(elts=[_name("_vc_t")], ctx=ast.Load()), ifs=[], is_async=0)
                        ],
                    ),
                    slice=ast.Constant(0),
                    ctx=ast.Load(),
                ),
            )

        import copy

        if conds:
            c = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
            cond = lam(c)
        new = _call("__vc_comp__", lam(elt), it, cond)
        return ast.copy_location(new, node)

    # ---- loops ----
    def _loop_helpers(self, node, key):
        lv = _Locals()
        for s in node.body + node.orelse:
            lv.visit(s)
        if isinstance(node, ast.For):
            lv.visit(node.target)
        mod = sorted((lv.names - lv.outer) & self.fn[-1]["locals"])
        allv = sorted(self.fn[-1]["locals"])
        n = self.fn[-1]["loops"]
        gname, sname = "__vc_g%d__" % n, "__vc_s%d__" % n
        gbody = [ast.parse("_vc_d = {}").body[0]]
        for nm in allv:
            gbody.append(ast.parse("try:\n    _vc_d[%r] = %s\nexcept NameError:\n    pass" % (nm, nm)).body[0])
        gbody.append(ast.parse("return _vc_d").body[0])
        g = ast.FunctionDef(name=gname, args=_noargs(), body=gbody, decorator_list=[], type_params=[])
        sbody = []
        if allv:
            sbody.append(ast.Nonlocal(names=allv))
        for nm in allv:
            sbody.append(ast.parse("if %r in _vc_d:\n    %s = _vc_d[%r]" % (nm, nm, nm)).body[0])
        if not sbody:
            sbody = [ast.Pass()]
        s = ast.FunctionDef(name=sname, args=_noargs(["_vc_d"]), body=sbody, decorator_list=[], type_params=[])
        return [g, s], gname, sname, mod

    def visit_For(self, node):
        if not self.fn:
            return self.generic_visit(node)
        self.fn[-1]["loops"] += 1
        key = (self.mod + "." + ".".join(self.stack), self.fn[-1]["loops"])
        LOOP_INDEX[key] = node.lineno
        LOOP_KIND[key] = "for"
        helpers, g, s, mod = self._loop_helpers(node, key)
        it = self.visit(node.iter)
        tl = _Locals()
        tl.visit(node.target)
        targets = tl.names
        node.iter = ast.Call(
            func=_name("__vc_for__"),
            args=[it, ast.Constant(key[0]), ast.Constant(key[1]), _name(g), _name(s), ast.Constant(tuple(mod)), ast.Constant(tuple(sorted(targets)))],
            keywords=[],
        )
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse) if node.orelse else []
        for h in helpers:
            ast.copy_location(h, node)
        return helpers + [node]

    def visit_While(self, node):
        if not self.fn:
            return self.generic_visit(node)
        self.fn[-1]["loops"] += 1
        key = (self.mod + "." + ".".join(self.stack), self.fn[-1]["loops"])
        LOOP_INDEX[key] = node.lineno
        LOOP_KIND[key] = "while"
        helpers, g, s, mod = self._loop_helpers(node, key)
        test = self.visit(node.test)
        lam = ast.Lambda(args=_noargs(), body=test)
        new = ast.For(
            target=ast.Name(id="__vc_it__", ctx=ast.Store()),
            iter=ast.Call(
                func=_name("__vc_while__"),
                args=[lam, ast.Constant(key[0]), ast.Constant(key[1]), _name(g), _name(s), ast.Constant(tuple(mod))],
                keywords=[],
            ),
            body=self._body(node.body),
            orelse=self._body(node.orelse) if node.orelse else [],
        )
        ast.copy_location(new, node)
        for h in helpers:
            ast.copy_location(h, node)
        return helpers + [new]

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        return node


def _noargs(names=()):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Rewriter(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        from . import hooks

        module.__dict__.update(hooks.NAMES)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pypsrp" and not fullname.startswith("pypsrp."):
            return None
        rel = fullname.replace(".", "/")
        base = os.path.join(REPO_SRC, rel)
        if os.path.isdir(base) and os.path.exists(base + "/__init__.py"):
            f = base + "/__init__.py"
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f), submodule_search_locations=[base]
            )
        if os.path.exists(base + ".py"):
            f = base + ".py"
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))
        return None


def install():
    sys.dont_write_bytecode = True
    for m in list(sys.modules):
        if m == "pypsrp" or m.startswith("pypsrp."):
            del sys.modules[m]
    sys.meta_path.insert(0, Finder())


def instrumented(f):
    g = getattr(f, "__globals__", None)
    return g is not None and "__vc_call__" in g
