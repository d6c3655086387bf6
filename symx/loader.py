"""Loads /repo/src/wulfric through an AST transformation, on every run, from the working tree."""

import ast
import builtins
import copy
import hashlib
import importlib.abc
import importlib.machinery
import os
import sys
import types
import warnings

from . import npshim, shims
from .sym import Unsupported

REPO = os.environ.get("WULFRIC_REPO", "/repo")
SRC = os.path.join(REPO, "src")

SOURCES = {}  # module -> sha256


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.fdepth = 0

    # -- numbers
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            src = repr(n.value)
            if src in ("inf", "nan"):
                return n
            return ast.copy_location(_call("flt", [ast.Constant(src)]), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                parts.append(
                    ast.Tuple(
                        [
                            self.visit(v.value),
                            ast.Constant(v.conversion),
                            self.visit(spec) if spec is not None else ast.Constant(""),
                        ],
                        ast.Load(),
                    )
                )
        return ast.copy_location(_call("fstr", parts), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(_call("join", [n.func.value, n.args[0]]), n)
        return n

    # -- operators
    def visit_BinOp(self, n):
        self.generic_visit(n)
        name = {ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod"}.get(type(n.op))
        if name:
            return ast.copy_location(_call(name, [n.left, n.right]), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        name = {ast.Div: "idiv", ast.Pow: "pow", ast.Mod: "mod"}.get(type(n.op))
        if name and isinstance(n.target, ast.Name):
            load = ast.Name(n.target.id, ast.Load())
            return ast.copy_location(
                ast.Assign([n.target], _call(name, [load, n.value])), n
            )
        return n

    def visit_BoolOp(self, n):
        if self.fdepth == 0 or _has_walrus(n):
            return self.generic_visit(n)
        self.generic_visit(n)
        name = "and_" if isinstance(n.op, ast.And) else "or_"
        return ast.copy_location(_call(name, [_thunk(v) for v in n.values]), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(_call("not_", [n.operand]), n)
        return n

    def visit_Compare(self, n):
        walrus = _has_walrus(n)
        self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], ast.In):
                return ast.copy_location(_call("contains", [n.left, n.comparators[0]]), n)
            if isinstance(n.ops[0], ast.NotIn):
                return ast.copy_location(_call("not_contains", [n.left, n.comparators[0]]), n)
            return n
        if self.fdepth == 0 or walrus:
            return n
        names = {
            ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
            ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot",
        }
        args = [n.left]
        for op, c in zip(n.ops, n.comparators):
            args.append(ast.Constant(names[type(op)]))
            args.append(_thunk(c))
        return ast.copy_location(_call("cmpchain", args), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fdepth:
            sl = n.slice
            if isinstance(sl, ast.Constant):
                return n
            return ast.copy_location(_call("getitem", [n.value, _slice_expr(sl)]), n)
        return n

    # -- scopes
    def _func(self, n):
        self.stack.append(n.name)
        deco = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.fdepth += 1
        body = []
        for s in n.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        self.fdepth -= 1
        n.decorator_list = deco
        n.returns = None
        k = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            k = 1
        mark = ast.Expr(_call("enter", [ast.Constant(self.mod), ast.Constant(".".join(self.stack))]))
        ast.copy_location(mark, n.body[0])
        n.body = body[:k] + [mark] + body[k:]
        self.stack.pop()
        return n

    visit_FunctionDef = _func

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        self.fdepth += 1
        n.body = self.visit(n.body)
        self.fdepth -= 1
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        d, self.fdepth = self.fdepth, 0
        self.generic_visit(n)
        self.fdepth = d
        self.stack.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n


def _has_walrus(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))


def _call(name, args):
    return ast.Call(
        func=ast.Attribute(value=ast.Name("__sx__", ast.Load()), attr=name, ctx=ast.Load()),
        args=args,
        keywords=[],
    )


def _thunk(e):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=e,
    )


def _slice_expr(sl):
    if isinstance(sl, ast.Slice):
        return ast.Call(
            func=ast.Name("slice", ast.Load()),
            args=[x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)],
            keywords=[],
        )
    if isinstance(sl, ast.Tuple):
        return ast.Tuple([_slice_expr(x) for x in sl.elts], ast.Load())
    return sl


def compile_source(src, path, modname):
    tree = ast.parse(src, path)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


# ---- stubs --------------------------------------------------------------------
class Stub(types.ModuleType):
    """Foreign code: any use is Unsupported unless a harness installs a contract stub"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def missing(*a, **k):
            raise Unsupported(f"foreign call {self.__name__}.{name}")

        return missing


spglib = Stub("spglib")
scipy = Stub("scipy")
scipy_spatial = Stub("scipy.spatial")
scipy_spatial_transform = Stub("scipy.spatial.transform")
scipy.spatial = scipy_spatial
scipy_spatial.transform = scipy_spatial_transform
_plotly = Stub("plotly")
_plotly_go = Stub("plotly.graph_objects")
_plotly.graph_objects = _plotly_go
_plotly_sub = Stub("plotly.subplots")
_plotly.subplots = _plotly_sub
for _n in ("Scatter3d", "Cone"):
    _plotly_go.__dict__[_n] = lambda *a, _n=_n, **k: dict(*a, type=_n.lower(), **k)

REDIRECT = {
    "numpy": npshim.np,
    "numpy.linalg": npshim.linalg,
    "math": shims.math,
    "spglib": spglib,
    "scipy": scipy,
    "scipy.spatial": scipy_spatial,
    "scipy.spatial.transform": scipy_spatial_transform,
    "plotly": _plotly,
    "plotly.graph_objects": _plotly_go,
    "plotly.subplots": _plotly_sub,
}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in REDIRECT:
        if fromlist:
            return REDIRECT[name]
        return REDIRECT[name.split(".")[0]]
    if level == 0 and name.split(".")[0] in ("hypothesis", "pytest"):
        raise ImportError(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = shims.make_builtins(sx_import)


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path = path
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        SOURCES[self.name] = hashlib.sha256(src.encode()).hexdigest()[:16]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile_source(src, self.path, self.name)
        module.__dict__["__builtins__"] = BUILTINS
        module.__dict__["__sx__"] = shims.H
        module.__dict__["__file__"] = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "wulfric" and not fullname.startswith("wulfric."):
            return None
        rel = os.path.join(SRC, *fullname.split("."))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, "__init__.py")):
            p = os.path.join(rel, "__init__.py")
            return importlib.machinery.ModuleSpec(fullname, Loader(p, fullname), origin=p, is_package=True)
        p = rel + ".py"
        if os.path.exists(p):
            return importlib.machinery.ModuleSpec(fullname, Loader(p, fullname), origin=p)
        return None


def load():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    import wulfric

    return wulfric
