#!/usr/bin/env python3
"""Rewrites of the code that change no behaviour, to see that the checks stay quiet.

python3 tools/refactor.py KIND[,KIND...] [ID...]: applies the rewrites everywhere in a copy of /repo, runs the tests
there and then the quick checks (all, or those named). KIND is one of the functions below, or 'all'.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self, s='tmp'):
        self.n += 1
        return '_%s_%d' % (s, self.n)


class Invert(Base):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Temps(Base):
    """return e -> r = e; return r, and the same for conditions and arguments of assignments"""
    def visit_Return(self, n):
        if n.value is None:
            return n
        t = self.fresh('result')
        return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        t = self.fresh('cond')
        return [ast.Assign([ast.Name(t, ast.Store())], n.test), ast.If(ast.Name(t, ast.Load()), n.body, n.orelse)]


class Whiles(Base):
    """for x in y -> explicit iterator"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it, end = self.fresh('it'), self.fresh('end')
        return [ast.Assign([ast.Name(end, ast.Store())], ast.Call(ast.Name('object', ast.Load()), [], [])),
                ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [n.iter], [])),
                ast.While(ast.Constant(True), [
                    ast.Assign([ast.Name(it + 'v', ast.Store())], ast.Call(ast.Name('next', ast.Load()), [ast.Name(it, ast.Load()), ast.Name(end, ast.Load())], [])),
                    ast.If(ast.Compare(ast.Name(it + 'v', ast.Load()), [ast.Is()], [ast.Name(end, ast.Load())]), [ast.Break()], []),
                    ast.Assign([n.target], ast.Name(it + 'v', ast.Load()))] + n.body, [])]


class Indexed(Base):
    """for x in range(a, b) -> counting while loop (bodies without continue)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(k, ast.Continue) for k in ast.walk(n)):
            return n
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) <= 2
                and isinstance(n.target, ast.Name)):
            return n
        i, e = self.fresh('i'), self.fresh('e')
        lo, hi = ([ast.Constant(0)] + n.iter.args)[-2:]
        return [ast.Assign([ast.Name(i, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], hi),
                ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                          [ast.Assign([n.target], ast.Name(i, ast.Load()))] + n.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]


class Comps(Base):
    """[e for x in y if c] -> list(map(lambda x: e, filter(lambda x: c, y)))"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) != 1 or not isinstance(g.target, ast.Name) or self.klass:
            return n
        a = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
        src = g.iter
        for c in g.ifs:
            src = ast.Call(ast.Name('filter', ast.Load()), [ast.Lambda(copy.deepcopy(a), c), src], [])
        return ast.Call(ast.Name('list', ast.Load()), [ast.Call(ast.Name('map', ast.Load()), [ast.Lambda(a, n.elt), src], [])], [])

    klass = 0

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, ast.FunctionDef) else s for s in n.body]
        return n


class Flip(Base):
    """a < b -> b > a"""
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()], [n.left])
        return n


class Negate(Base):
    """a == b -> not (a != b), a in b -> not (a not in b)"""
    OPS = {ast.Eq: ast.NotEq, ast.In: ast.NotIn, ast.Is: ast.IsNot, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.OPS[type(n.ops[0])]()], n.comparators))
        return n


class Members(Base):
    """x in (a, b) -> any(x == m for m in (a, b))"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List)):
            t = self.fresh('m')
            e = ast.Call(ast.Name('any', ast.Load()), [ast.GeneratorExp(ast.Compare(n.left, [ast.Eq()], [ast.Name(t, ast.Load())]),
                                                                       [ast.comprehension(ast.Name(t, ast.Store()), n.comparators[0], [], 0)])], [])
            return e if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), e)
        return n


class Helpers(Base):
    """def f(a): body -> def f(a): return _f_body(a)"""
    def rewrite(self, n, method):
        if n.decorator_list or n.args.vararg or n.args.kwarg or n.args.kwonlyargs or n.name.startswith('__') and n.name != '__init__':
            return n
        if any(isinstance(k, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for k in ast.walk(n)) or 'super' in [getattr(k, 'id', '') for k in ast.walk(n)]:
            return n
        if any(isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id in ('locals', 'vars') for k in ast.walk(n)):
            return n
        inner = copy.deepcopy(n)
        inner.name = '_%s_body' % n.name.strip('_')
        inner.args.defaults = []
        names = [ast.Name(a.arg, ast.Load()) for a in n.args.args]
        n.body = [inner, ast.Return(ast.Call(ast.Name(inner.name, ast.Load()), names, []))]
        return n

    def visit_FunctionDef(self, n):
        return self.rewrite(n, False)


class Unchain(Base):
    """a and b in conditions -> nested conditions; x if c else y in assignments -> statement"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class Arith(Base):
    """a // b -> divmod(a, b)[0]; a % b of numbers -> a - b * (a // b); x * 8 -> 8 * x"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.FloorDiv):
            return ast.Subscript(ast.Call(ast.Name('divmod', ast.Load()), [n.left, n.right], []), ast.Constant(0), ast.Load())
        if isinstance(n.op, ast.Mult) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, int) and not isinstance(n.left, (ast.List, ast.Tuple, ast.Constant)):
            if isinstance(n.left, ast.Name) and n.left.id.isupper():
                return n
            return n
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right)) if isinstance(n.right, (ast.Constant, ast.Attribute)) else n
        if isinstance(n.op, ast.RShift) and isinstance(n.right, ast.Constant):
            return ast.BinOp(n.left, ast.FloorDiv(), ast.Constant(1 << n.right.value))
        if isinstance(n.op, ast.LShift) and isinstance(n.right, ast.Constant):
            return ast.BinOp(n.left, ast.Mult(), ast.Constant(1 << n.right.value))
        if isinstance(n.op, ast.BitAnd) and isinstance(n.right, ast.Constant) and n.right.value in (7, 0xf):
            return ast.BinOp(n.left, ast.Mod(), ast.Constant(n.right.value + 1))
        return n


class Aug(Base):
    """x += 1 -> x = x + 1 (names and attributes, number constants)"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, (ast.Name, ast.Attribute)) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)):
            l = copy.deepcopy(n.target)
            l.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
        return n


class Enumerated(Base):
    """for x in y -> for _, x in enumerate(y); two-part loops through list()"""
    def visit_For(self, n):
        self.generic_visit(n)
        i = self.fresh('k')
        return ast.For(ast.Tuple([ast.Name(i, ast.Store()), n.target], ast.Store()), ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], []), n.body, n.orelse)


class Early(Base):
    """if c: A (last statement of a loop body) -> if not c: continue; A"""
    def visit_For(self, n):
        self.generic_visit(n)
        last = n.body[-1]
        if isinstance(last, ast.If) and not last.orelse and not n.orelse:
            n.body = n.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], [])] + last.body
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        last = n.body[-1]
        if isinstance(last, ast.If) and not last.orelse and len(n.body) > 1:
            n.body = n.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Return(None)], [])] + last.body
        return n


class Keywords(Base):
    """'...' % (a, b) -> through a local name; constants through module-level names"""
    def visit_Module(self, n):
        self.consts = {}
        self.depth = 0
        self.generic_visit(n)
        at = 0
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            at = 1
        while at < len(n.body) and isinstance(n.body[at], ast.ImportFrom) and n.body[at].module == '__future__':
            at += 1
        n.body[at:at] = [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(k)) for k, v in self.consts.items()]
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Constant(self, n):
        if self.depth and type(n.value) is int and n.value > 1:
            name = self.consts.setdefault(n.value, 'NUMBER_%d' % n.value)
            return ast.Name(name, ast.Load())
        return n


class Try(Base):
    """function bodies in try/finally, with a statement that does nothing"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = [ast.Try(n.body, [], [], [ast.Pass()])]
        return n


KINDS = {c.__name__.lower(): c for c in (Invert, Temps, Whiles, Indexed, Comps, Flip, Negate, Members, Helpers, Unchain, Arith, Aug,
                                         Enumerated, Early, Keywords, Try)}


def rewrite(repo, kinds):
    n = 0
    for root, _, files in os.walk(os.path.join(repo, 'redeclipse')):
        for f in files:
            if not f.endswith('.py') or f.endswith('_test.py') or f.startswith('test_'):
                continue
            p = os.path.join(root, f)
            src = open(p).read()
            tree = ast.parse(src)
            before = ast.unparse(tree)
            for k in kinds:
                tree = ast.fix_missing_locations(KINDS[k]().visit(tree))
            after = ast.unparse(tree)
            if before != after:
                n += 1
                with open(p, 'w') as h:
                    h.write(after)
    return n


def main():
    groups = sys.argv[1].split(',')
    if groups == ['all']:
        groups = sorted(KINDS)
    ids = sys.argv[2:] or [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    for g in groups:
        tmp = tempfile.mkdtemp(prefix='refactor-')
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        try:
            n = rewrite(repo, g.split('+'))
            t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--hypothesis-profile=ci',
                                '-o', 'python_files=test_*.py *_test.py hyp_*.py', 'tests'], cwd=repo, capture_output=True, text=True)
            print('== %s: %d files, tests: %s' % (g, n, t.stdout.strip().splitlines()[-1]), flush=True)
            if t.returncode:
                print(t.stdout[-1500:])
                continue
            for i in ids:
                t0 = time.time()
                r = subprocess.run(['python3-vt', 'run.py', i], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo))
                if r.returncode:
                    print('%s %s rc=%d %.0fs\n%s' % (g, i, r.returncode, time.time() - t0, (r.stdout + r.stderr)[-2500:]), flush=True)
                elif 'INCOMPLETE' in r.stdout:
                    print('%s %s %s' % (g, i, [l for l in r.stdout.splitlines() if l.startswith(i)]), flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
