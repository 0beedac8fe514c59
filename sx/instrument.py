"""AST import hook: loads /repo's current source with calls, subscripts, containment,
f-strings, dict/set building and % routed through the engine's hooks.  CPython still
executes the code; nothing about control flow or structure is changed."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.util
import os
import sys

from . import dumpstub, models

NOHOOK = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "isinstance", "issubclass", "TypeVar",
          "ParamSpec", "NewType", "cast", "property", "hasattr", "setattr", "len", "enumerate", "list", "tuple",
          "id", "callable", "staticmethod", "classmethod", "bool", "next", "any", "all", "zip",
          "reversed"}


def _n(name):
    return ast.Name(id=f"__sx_{name}__", ctx=ast.Load())


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []

    # annotations are left alone
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self.scope.append(node.name)
        body = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        name = f"{self.mod}:{'.'.join(self.scope)}"
        self.scope.pop()
        enter = ast.Expr(ast.Call(func=_n("enter"), args=[ast.Constant(name)], keywords=[]))
        k = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            k = 1
        body.insert(k, enter)
        node.body = body
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        self.scope.pop()
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == "len" and len(node.args) == 1 and not node.keywords:
            self.generic_visit(node)
            node.func = _n("len")
            return node
        if isinstance(f, ast.Name) and f.id in NOHOOK:
            self.generic_visit(node)
            return node
        # keep the attribute access itself: obj.meth evaluated first, as in Python
        self.generic_visit(node)
        return ast.Call(func=_n("call"), args=[node.func, *node.args], keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            h = "contains" if isinstance(node.ops[0], ast.In) else "notin"
            # argument order: container, item -- evaluation order of the two operands is swapped back
            # via a keyword-free two-argument call evaluated item-first
            return ast.Call(func=_n(h + "2"), args=[node.left, node.comparators[0]], keywords=[])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return ast.Call(func=_n("fstr"), args=parts, keywords=[])

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=_n("slice"), args=[
                self.visit(x) if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)],
                keywords=[])
        return self.visit(s)

    def visit_Subscript(self, node):
        val = self.visit(node.value)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(func=_n("getitem"), args=[val, self._slice(node.slice)], keywords=[])
        sl = node.slice if isinstance(node.slice, ast.Slice) else self.visit(node.slice)
        if isinstance(sl, ast.Slice):
            self.generic_visit(sl)
        node.value = ast.Call(func=_n("box"), args=[val], keywords=[])
        node.slice = sl
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                             generators=node.generators)
        return ast.Call(func=_n("mkdict"), args=[g], keywords=[])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.Call(func=_n("mkset"), args=[g], keywords=[])

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.Tuple(elts=[_n("SPREAD") if k is None else k, v], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.Call(func=_n("dictdisp"), args=pairs, keywords=[])

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return ast.Call(func=_n("mkset"), args=[ast.Tuple(elts=node.elts, ctx=ast.Load())], keywords=[])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = {ast.Mod: "%", ast.Sub: "-", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}.get(type(node.op))
        if op is None:
            return node
        return ast.Call(func=_n("binop"), args=[ast.Constant(op), node.left, node.right], keywords=[])


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Tx(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


models.HOOKS["__sx_contains2__"] = lambda item, cont: models.sx_contains(cont, item)
models.HOOKS["__sx_notin2__"] = lambda item, cont: not models.sx_contains(cont, item)


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__.update(models.HOOKS)
        exec(transform(src, self.path, module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Serve `castep_outputs` (and harness modules) from source with instrumentation."""

    def __init__(self, roots):
        self.roots = roots  # top-level package name -> directory holding it

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        rel = os.path.join(root, *fullname.split("."))
        init = os.path.join(rel, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.util.spec_from_loader(fullname, Loader(init, True), origin=init, is_package=True)
            spec.submodule_search_locations = [rel]
            spec.has_location = True
            return spec
        if os.path.isfile(rel + ".py"):
            spec = importlib.util.spec_from_loader(fullname, Loader(rel + ".py", False), origin=rel + ".py")
            spec.has_location = True
            return spec
        return None


def install(repo, harness_dir):
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    dumpstub.install()
    sys.meta_path.insert(0, Finder({"castep_outputs": repo, "props": harness_dir}))
