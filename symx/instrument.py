"""Importer that compiles litdata's current sources with a handful of builtins redirected, so that symbolic values
survive them.  Semantics on ordinary values are those of the builtins (each helper delegates to it).

  int(x) float(x) bool(x) bytes(x)      call position only
  len min max sum abs round sorted open  anywhere
  <constant>.join(xs)                    bytes/str join
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

import z3

from symx import core
from symx.core import SymBool, SymInt, SymReal, is_sym

CALL_ONLY = {"int", "float", "bool", "bytes"}
ANY = {"len", "min", "max", "sum", "abs", "round", "open"}


class SX:
    """Redirected builtins."""

    open_hook = None

    @staticmethod
    def int(*a, **k):
        if len(a) == 1 and not k:
            t = type(a[0])
            if t is SymInt:
                return a[0]
            if t is SymReal:
                return a[0].__trunc__()
            if t is SymBool:
                return a[0]._i()
            if hasattr(t, "__sx_int__"):
                return a[0].__sx_int__()
            if core.TOKENS and t is str:
                x = core.untoken(a[0].strip())
                if len(x) == 1 and type(x[0]) is SymInt:
                    return x[0]
                return builtins.int("".join(y if type(y) is str else str(y._conc()) for y in x))
        return builtins.int(*a, **k)

    @staticmethod
    def float(*a):
        if len(a) == 1:
            t = type(a[0])
            if t is SymReal:
                return a[0]
            if t is SymInt:
                return SymReal(z3.ToReal(a[0].e))
            if hasattr(t, "__sx_float__"):
                return a[0].__sx_float__()
        return builtins.float(*a)

    @staticmethod
    def bool(*a):
        return builtins.bool(*a)

    @staticmethod
    def bytes(*a, **k):
        if len(a) == 1 and hasattr(type(a[0]), "__sx_bytes__"):
            return a[0].__sx_bytes__()
        return builtins.bytes(*a, **k)

    @staticmethod
    def len(x):
        f = getattr(type(x), "__sx_len__", None)
        if f is not None:
            return f(x)
        f = getattr(type(x), "__len__", None)
        if type(f) is types.FunctionType and f.__module__.startswith("litdata"):
            return f(x)  # the builtin would force the length to a machine integer
        return builtins.len(x)

    @staticmethod
    def abs(x):
        return builtins.abs(x)

    @staticmethod
    def round(x, *a):
        return builtins.round(x, *a)

    @staticmethod
    def sum(xs, start=0):
        xs = list(xs)
        if type(start) is builtins.int and any(is_sym(x) for x in xs) and all(
            is_sym(x) or isinstance(x, (builtins.int, builtins.float)) for x in xs
        ):
            r = core.sym_sum(xs)
            return r if start == 0 else r + start
        return builtins.sum(xs, start)

    @staticmethod
    def _mm(which, a, k):
        xs = list(a[0]) if builtins.len(a) == 1 else list(a)
        if not k and xs and any(is_sym(x) for x in xs) and all(core._z(x) is not None for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = (x < r) if which == "min" else (x > r)
                r = core.ite(c, x, r)
            return r
        f = builtins.min if which == "min" else builtins.max
        return f(xs, **k)

    @staticmethod
    def min(*a, **k):
        return SX._mm("min", a, k)

    @staticmethod
    def max(*a, **k):
        return SX._mm("max", a, k)

    @staticmethod
    def join(sep, xs):
        xs = list(xs)
        for x in xs:
            f = getattr(type(x), "__sx_join__", None)
            if f is not None:
                return f(sep, xs)
        return sep.join(xs)

    @staticmethod
    def open(*a, **k):
        if SX.open_hook is not None:
            return SX.open_hook(*a, **k)
        return builtins.open(*a, **k)


def _own(node):
    """Nodes of a statement, without those of nested scopes."""
    yield node
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
        return
    for c in ast.iter_child_nodes(node):
        yield from _own(c)


class _T(ast.NodeTransformer):
    def __init__(self):
        self.shadow = [set()]

    def _ref(self, node, name):
        return ast.copy_location(
            ast.Attribute(value=ast.copy_location(ast.Name(id="__sx__", ctx=ast.Load()), node), attr=name,
                          ctx=ast.Load()), node)

    def visit_FunctionDef(self, node):
        # annotations and defaults keep their meaning
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        stored = {n.id for b in node.body for n in _own(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.shadow.append(self.shadow[-1] | ((args | stored) & (CALL_ONLY | ANY)))
        node.body = [self.visit(x) for x in node.body]
        self.shadow.pop()
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _comp(self, node):
        names = {n.id for g in node.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        first = self.visit(node.generators[0].iter)  # evaluated in the enclosing scope
        self.shadow.append(self.shadow[-1] | (names & (CALL_ONLY | ANY)))
        self.generic_visit(node)
        self.shadow.pop()
        node.generators[0].iter = first
        return node

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Lambda(self, node):
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        self.shadow.append(self.shadow[-1] | (args & (CALL_ONLY | ANY)))
        self.generic_visit(node)
        self.shadow.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALL_ONLY and f.id not in self.shadow[-1]:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(a) for a in node.keywords]
            node.func = self._ref(f, f.id)
            return node
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, (str, bytes)) and len(node.args) == 1:
            arg = self.visit(node.args[0])
            return ast.copy_location(ast.Call(func=self._ref(f, "join"), args=[f.value, arg], keywords=[]), node)
        self.generic_visit(node)
        return node

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in ANY and node.id not in self.shadow[-1]:
            return self._ref(node, node.id)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        # names a module rebinds at top level keep their binding
        bound = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n in tree.body:
                bound.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    bound.add((al.asname or al.name).split(".")[0])
        t = _T()
        t.shadow = [bound & (CALL_ONLY | ANY)]
        tree = t.visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__sx__"] = SX
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "litdata" and not fullname.startswith("litdata."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            if fullname == "litdata" and (spec is None or spec.origin is None):
                pass
            return spec
        spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    sys.path.insert(0, os.path.join(os.environ.get("SYMX_REPO", "/repo"), "src"))
