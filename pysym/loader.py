"""Imports the code under test from /repo's working tree, with every call,
dictionary, set, comparison and % rewritten to go through hooks.py.  The text
comes from the files at the time of the run; nothing is cached across runs."""
import ast
import importlib.abc
import importlib.util
import os
import sys
from . import hooks
from .containers import SymDict, SymSet

SKIP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}
EXECUTED = set()
FUNCS = []


def mark(i):
    EXECUTED.add(i)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        node.decorator_list = [d if isinstance(d, ast.Call) else ast.Call(func=self._name('__sym_deco__'), args=[d], keywords=[])
                               for d in node.decorator_list]
        if node.name == '__bool__':
            node.body = [Returns().visit(s) for s in node.body]
        q = '.'.join(self.scope)
        self.scope.pop()
        FUNCS.append(self.modname + ':' + q)
        m = ast.Expr(ast.Call(func=self._name('__sym_mark__'), args=[ast.Constant(len(FUNCS) - 1)], keywords=[]))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, m)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP:
            return node
        return ast.Call(func=self._name('__sym_call__'), args=[node.func] + node.args, keywords=node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(func=self._name('__sym_mod__'), args=[node.left, node.right], keywords=[])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            n = {ast.Eq: '__sym_eq__', ast.NotEq: '__sym_ne__', ast.In: '__sym_in__', ast.NotIn: '__sym_notin__'}.get(
                type(node.ops[0]))
            if n:
                return ast.Call(func=self._name(n), args=[node.left, node.comparators[0]], keywords=[])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return ast.Call(func=self._name('__sym_sub__'), args=[node.value, node.slice], keywords=[])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign(targets=[node.target], value=ast.Call(
                func=self._name('__sym_mod__'), args=[self._name(node.target.id), node.value], keywords=[]))
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.Call(func=self._name('__sym_mkdict__'), args=[
            ast.Tuple(elts=[k if k is not None else self._name('__sym_star__') for k in node.keys], ctx=ast.Load()),
            ast.Tuple(elts=node.values, ctx=ast.Load())], keywords=[])

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(func=self._name('__sym_mkset__'), args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.Call(func=self._name('__sym_dictof__'), args=[g], keywords=[])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.Call(func=self._name('__sym_mkset__'), args=[g], keywords=[])

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = self._name('__sym_Exception__')
        return node

    def visit_MatchMapping(self, node):
        return node


class Returns(ast.NodeTransformer):
    """__bool__ has to return a bool."""

    def visit_FunctionDef(self, node):
        return node
    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Return(self, node):
        if node.value is not None:
            node.value = ast.Call(func=ast.Name(id='__sym_decide__', ctx=ast.Load()), args=[node.value], keywords=[])
        return node


def decide(v):
    return bool(v) if type(v) is hooks.SymBool else v


_STAR = object()


def mkdict(ks, vs):
    d = SymDict()
    for k, v in zip(ks, vs):
        if k is _STAR:
            d.update(v)
        else:
            d[k] = v
    return d


ENV = {
    '__sym_call__': hooks.call, '__sym_mod__': hooks.mod, '__sym_eq__': hooks.eq, '__sym_ne__': hooks.ne,
    '__sym_in__': hooks.contains, '__sym_notin__': hooks.not_contains, '__sym_sub__': hooks.subscript,
    '__sym_mkdict__': mkdict, '__sym_mkset__': SymSet, '__sym_dictof__': SymDict, '__sym_star__': _STAR,
    '__sym_Exception__': Exception, '__sym_mark__': mark, '__sym_deco__': hooks.deco,
    '__sym_decide__': decide,
}

_code = {}


def compile_file(path, modname):
    c = _code.get(path)
    if c is None:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        tree = Rewriter(modname).visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, path, 'exec')
        _code[path] = c
    return c


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path = path
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__.update(ENV)
        exec(compile_file(self.path, self.name), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # {top-level package: directory that holds it}
        self.specs = {}

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        hit = self.specs.get(name)
        if hit is None:
            base = os.path.join(self.roots[top], *name.split('.'))
            if os.path.isfile(os.path.join(base, '__init__.py')):
                hit = (os.path.join(base, '__init__.py'), True)
            elif os.path.isfile(base + '.py'):
                hit = (base + '.py', False)
            else:
                return None
            self.specs[name] = hit
        p, pkg = hit
        spec = importlib.util.spec_from_file_location(name, p, loader=Loader(p, name),
                                                      submodule_search_locations=[os.path.dirname(p)] if pkg else None)
        return spec


def install(roots):
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f


def purge(tops):
    for n in list(sys.modules):
        if n.split('.')[0] in tops:
            del sys.modules[n]
