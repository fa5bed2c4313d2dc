#!/usr/bin/env python3
"""Random small changes to the code, to find what no check sees.

python3 tools/mutate.py SEED COUNT LOG [FILE...]: each change that the stable tests accept is put to the quick checks of
the properties anchored in its file; those that no check reports are listed in LOG for a person to judge (many change
nothing that can be observed). Works on copies under /tmp.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['__init__.py', 'aftereffects.py', 'objects.py', 'upm.py', 'worldflavors.py', 'cli/__init__.py', 'cli/magica_rooms.py',
         'cli/iso.py', 'cli/to_json.py', 'cli/perlin.py', 'cli/magicavoxel_info.py', 'skybox/__init__.py', 'entities/__init__.py', 'entities/model.py', 'entities/weapon.py', 'lighting/__init__.py',
         'magicavoxel/reader.py', 'magicavoxel/writer.py', 'prefabs/__init__.py', 'prefabs/construction_kit.py',
         'prefabs/distributions.py', 'prefabs/magica.py', 'prefabs/castle/__init__.py', 'prefabs/spacestation/__init__.py',
         'prefabs/egypt/__init__.py', 'prefabs/dungeon/__init__.py', 'prefabs/original/__init__.py',
         'textures/__init__.py', 'textures/basetex.py', 'textures/dull_theme.py', 'textures/minecraft.py', 'textures/paper.py',
         'textures/primary.py', 'vector/__init__.py', 'vector/orientations.py', 'vector/re.py', 'voxel/__init__.py']
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift}


def sites(tree):
    """(node, name of the change, function making it in place)."""
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'log' in ast.unparse(n.value.func):
            for k in ast.walk(n):
                doc.add(id(k))
        if isinstance(n, ast.Raise):
            for k in ast.walk(n):
                doc.add(id(k))
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                infunc.add(id(n))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((n, 'cmp', lambda n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or \
                isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(getattr(n.left, 'value', 0), str):
            out.append((n, 'bin', lambda n: setattr(n, 'op', BIN[type(n.op)]())))
        elif isinstance(n, ast.BoolOp):
            out.append((n, 'bool', lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            out.append((n, 'drop', lambda n: n.values.pop()))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((n, 'plus', lambda n: setattr(n, 'value', n.value + 1)))
            out.append((n, 'minus', lambda n: setattr(n, 'value', n.value - 1)))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n, 'flip', lambda n: setattr(n, 'value', not n.value)))
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            out.append((n, 'scale', lambda n: setattr(n, 'value', n.value * 1.5 + 0.25)))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((n, 'swap', lambda n: n.args.insert(0, n.args.pop(1))))
        elif isinstance(n, ast.If) and id(n) in infunc:
            out.append((n, 'always', lambda n: setattr(n, 'test', ast.Constant(True))))
            out.append((n, 'never', lambda n: setattr(n, 'test', ast.Constant(False))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((n, 'unary', lambda n: setattr(n, 'op', ast.UAdd()) if isinstance(n.op, ast.USub) else setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand))))
        elif isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            out.append((n, 'turn', lambda n: n.elts.insert(0, n.elts.pop())))
            out.append((n, 'short', lambda n: n.elts.pop()))
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With)) and id(n) in infunc:
            for name in ('body', 'orelse'):
                for i, s in enumerate(getattr(n, name, [])):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Continue, ast.Break)) and id(s) not in doc:
                        out.append((n, 'del %s %d' % (name, i), lambda n, name=name, i=i: getattr(n, name).__setitem__(i, ast.Pass())))
    return out


MEMO = """
def memo__(f):
    kept = {}

    def g(*a, **k):
        key = [type(x).__name__ if i == 0 and hasattr(x, '__dict__') else x for i, x in enumerate(a)]
        key = repr((key, sorted(k.items())))
        if key not in kept:
            kept[key] = f(*a, **k)
        return kept[key]
    return g


def own__(f):
    def g(self, *a, **k):
        kept = self.__dict__.setdefault('kept__' + f.__name__, {})
        key = repr((a, sorted(k.items())))
        if key not in kept:
            kept[key] = f(self, *a, **k)
        return kept[key]
    return g
"""


def state_sites(tree):
    """Changes about what outlives a use: results kept, copies not made, objects shared, long loops cut."""
    out = []
    helpers = ast.parse(MEMO).body

    def kept(n, name):
        n.decorator_list.append(ast.Name(name, ast.Load()))
        at = 1 if isinstance(tree.body[0], ast.Expr) else 0
        tree.body[at:at] = helpers
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            for n in c.body:
                if isinstance(n, ast.FunctionDef):
                    n.method = True
                    if n.name == '__init__':
                        for i, a in enumerate(n.body):
                            if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Attribute) and \
                                    (isinstance(a.value, (ast.List, ast.Dict)) or isinstance(a.value, ast.Call) and not a.value.args):
                                def share(n, c=c, i=i, a=a):
                                    n.body[i] = ast.Pass()
                                    c.body.insert(c.body.index(n), ast.Assign([ast.Name(a.targets[0].attr, ast.Store())], a.value))
                                out.append((n, 'shared ' + a.targets[0].attr, share))
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.args.args and n.name != '__init__' and \
                not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            out.append((n, 'memo ' + n.name, lambda n: kept(n, 'memo__')))
            if getattr(n, 'method', False) and not n.decorator_list and not n.name.startswith('__'):
                out.append((n, 'own ' + n.name, lambda n: kept(n, 'own__')))
        if isinstance(n, ast.For):
            for k in (16, 50):
                out.append((n, 'cut %d' % k, lambda n, k=k: setattr(n, 'iter', ast.Subscript(
                    ast.Call(ast.Name('list', ast.Load()), [n.iter], []), ast.Slice(None, ast.Constant(k)), ast.Load()))))
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ('copy.deepcopy', 'copy.copy', 'list', 'dict', 'set') and len(n.args) == 1:
            out.append((n, 'alias', lambda n: (setattr(n, 'func', ast.parse('(lambda x: x)').body[0].value))))
    return out


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def main():
    seed, count, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or FILES
    rng = random.Random(seed)
    props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    tmp = tempfile.mkdtemp(prefix='mutate-')
    verif = os.path.join(tmp, 'verif')
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    os.mkdir(os.path.join(verif, 'evidence'))
    repo = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', repo])
    done = set()
    tries = 0
    tally = {'tests': 0, 'caught': 0, 'missed': 0}
    try:
        while count > 0:
            tries += 1
            if tries > 20000:
                break
            f = rng.choice(files)
            path = os.path.join(repo, 'redeclipse', f)
            src = open(path).read()
            tree = ast.parse(src)
            ss = (state_sites if os.environ.get('MUTATE_STATE') else sites)(tree)
            if not ss:
                continue
            i = rng.randrange(len(ss))
            if (f, i) in done:
                continue
            done.add((f, i))
            part = os.environ.get('MUTATE_PART')
            if part and (len(f) * 7 + i) % int(part.split('/')[1]) != int(part.split('/')[0]):
                continue
            node, kind, act = ss[i]
            line = node.lineno
            before = ast.unparse(node)
            act(node)
            after = ast.unparse(node)
            if before == after:
                continue
            ast.fix_missing_locations(tree)
            new = ast.unparse(tree)
            count -= 1
            try:
                open(path, 'w').write(new)
                r = sh(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60',
                        '--hypothesis-profile=ci', '-o', 'python_files=test_*.py *_test.py hyp_*.py', 'tests'], repo, {'PYTHONHASHSEED': '0'}, timeout=120)
                if r is None or r.returncode:
                    tally['tests'] += 1
                    continue
                hit = None
                rel = [p['id'] for p in props if any(os.path.join('redeclipse', f) == x for x in p['anchors']['files'])]
                rel += [p['id'] for p in props if p['id'] not in rel and os.environ.get('MUTATE_ALL')]
                codes = []
                for p in rel:
                    r = sh(['python3-vt', 'run.py', p], verif, {'VERIF_REPO': repo})
                    codes.append('%s:%s' % (p, r.returncode if r else 'T'))
                    if r is not None and r.returncode == 1 and 'VIOLATION' in r.stdout:
                        hit = p
                        break
                tally['caught' if hit else 'missed'] += 1
                with open(log, 'a') as h:
                    if hit:
                        h.write('caught %s %s:%d %s\n' % (hit, f, line, kind))
                    else:
                        b, a = before.splitlines(), after.splitlines()
                        diff = [(x, y) for x, y in zip(b, a) if x != y][:1] or [(b[-1], '(less)')]
                        h.write('MISSED %s:%d %s | %s | %s | %s\n' % (f, line, kind, diff[0][0].strip(), diff[0][1].strip(), ' '.join(codes)))
            finally:
                open(path, 'w').write(src)
    finally:
        shutil.rmtree(tmp)
        with open(log, 'a') as h:
            h.write('seed %d: %r\n' % (seed, tally))


if __name__ == '__main__':
    main()
