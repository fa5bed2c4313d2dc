"""The harness's view of a symbolic run."""
import z3
from . import nums, symbytes, hooks
from .core import Engine, PathAbort, Unsupported, _Entry
from .nums import SymNum, SymBool, Lin, truth, mk_and, mk_or, sym_not
from .symbytes import SymBytes, SymText, ByteOf
from .containers import SymDict, SymSet, sym_eq
from fractions import Fraction


class TooMany(Exception):
    pass


class SymCtx(object):
    symbolic = True

    def __init__(self, engine, sink):
        self.e = engine
        self.sink = sink          # task-level accumulation
        self.inputs = []          # (name, kind, value)
        self.obs = []
        self.fs = symbytes.FS()
        self.draws = hooks.Draws()
        self._ctx_draws()
        hooks.set_fs(self.fs)
        hooks.set_draws(self.draws)

    def _ctx_draws(self):
        ctx = self
        orig_random, orig_below = self.draws.random, self.draws.below

        def random():
            v = orig_random()
            ctx.inputs.append((ctx.draws.log[-1], 'draw', v))
            return v

        def below(n):
            v = orig_below(n)
            ctx.inputs.append((ctx.draws.log[-1], 'draw', v))
            return v
        orig_noise = self.draws.noise

        def noise():
            v = orig_noise()
            ctx.inputs.append((ctx.draws.log[-1], 'noise', v))
            return v
        self.draws.noise = noise
        self.draws.random = random
        self.draws.below = below

    # -- inputs -----------------------------------------------------------------
    def int(self, name, lo, hi):
        v = nums.new_int(name, lo, hi)
        self.inputs.append((name, 'int', v))
        return v

    def bool(self, name):
        v = nums.new_bool(name)
        self.inputs.append((name, 'bool', v))
        return v

    def real(self, name, lo, hi, bits=0):
        """A float k / 2**bits in [lo, hi]."""
        k = nums.new_int(name, int(lo * 2 ** bits), int(hi * 2 ** bits))
        k = SymNum.lift(k)
        v = SymNum.make(k.lin.scale(Fraction(1, 2 ** bits)) if bits else k.lin, 0, True)
        self.inputs.append((name, 'float', v))
        return v

    def bytes(self, name, n, lo=0, hi=255):
        v = symbytes.mkbytes([nums.new_int('%s_%d' % (name, i), lo, hi) for i in range(n)])
        self.inputs.append((name, 'bytes', v))
        return v

    def text(self, name, n, lo=1, hi=126):
        v = SymText.make([nums.new_int('%s_%d' % (name, i), lo, hi) for i in range(n)])
        self.inputs.append((name, 'text', v))
        return v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = nums.new_int(name, 0, len(options) - 1)
        self.inputs.append((name, 'int', v))
        return options[v.concretise()]

    def fix(self, v):
        """Fork over the values of a symbolic number."""
        return v.concretise() if type(v) is SymNum else bool(v) if type(v) is SymBool else v

    def draws_limit(self, n):
        self.draws.limit = n

    # -- assumptions and assertions ------------------------------------------------
    def assume(self, cond):
        c = truth(cond)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.e.assume(c.t)

    def all(self, *cs):
        return mk_and(*[truth(c) for c in flat(cs)])

    def any(self, *cs):
        return mk_or(*[truth(c) for c in flat(cs)])

    def no(self, c):
        return sym_not(truth(c))

    def implies(self, a, b):
        return mk_or(sym_not(truth(a)), truth(b))

    def eq(self, a, b):
        """a == b as one condition (no forking on lists, tuples, numbers, text, bytes)."""
        return eqv(a, b)

    def iff(self, a, b):
        a, b = truth(a), truth(b)
        return mk_or(mk_and(a, b), mk_and(sym_not(a), sym_not(b)))

    def check(self, cond, label, finding=None):
        e = self.e
        c = truth(cond)
        self.sink.labels[label] = self.sink.labels.get(label, 0) + 1
        if c is True:
            self.sink.trivial += 1
            return
        if c is False:
            # fails for every input of this path
            if e.pos >= len(e.trace):
                self.sink.violation(self, e.get_model(), label, finding)
            raise PathAbort()
        if e.pos < len(e.trace):
            e._replay(c.t)
            return
        m = e.possible(z3.Not(c.t))
        self.sink.asserted += 1
        if m is not None:
            self.sink.violation(self, m, label, finding, [z3.Not(c.t)])
            e.assume(c.t)
        else:
            e.trace.append(_Entry(c.t, True, False, False))
            e.pos += 1

    def fail(self, label, finding=None):
        self.check(False, label, finding)

    def reach(self, label):
        self.sink.reached[label] = self.sink.reached.get(label, 0) + 1

    def observe(self, label, v):
        self.obs.append((label, v))

    # -- files ---------------------------------------------------------------------
    def path(self, name):
        return symbytes.ROOT + name

    def write_file(self, path, data, gz=True):
        self.fs.write_bytes(path, data, gz)

    def read_file(self, path, gz=True):
        """Contents as a reader of the finished file sees them now."""
        f = self.fs.files.get(path)
        if f is None:
            return None
        if f[2]:
            return ''.join(f[0])
        return symbytes.mkbytes(f[0])

    def read_text(self, path):
        b = self.read_file(path, gz=False)
        return b.decode() if type(b) is bytes else b

    def shipped(self, path):
        import os
        return os.path.exists(path)

    def join(self, parts):
        out = []
        for p in parts:
            out += symbytes.cells_of(p)
        return symbytes.mkbytes(out)

    def pack(self, fmt, *vals):
        return symbytes.pack(fmt, *vals)

    def unpack(self, fmt, b):
        return symbytes.unpack(fmt, b)

    def open_files(self):
        return self.fs.open_count

    def run_main(self, module, argv):
        """Run a module of the repository as a script."""
        import sys
        import types
        from . import loader
        path = [f for f in sys.meta_path if isinstance(f, loader.Finder)][0].find_spec(module).origin
        m = types.ModuleType('__main__')
        m.__dict__.update(loader.ENV)
        m.__file__ = path
        old = sys.argv
        before = set(symbytes.OPEN)
        sys.argv = [path] + list(argv)
        try:
            exec(loader.compile_file(path, module), m.__dict__)
        except SystemExit as e:
            if e.code:
                raise RuntimeError('the script ended with %r' % (e.code,))
        finally:
            sys.argv = old
            # the end of the process closes its files
            for f in list(symbytes.OPEN - before):
                if not f.gz:
                    f.close()

    def values(self, model):
        out = []
        for name, kind, v in self.inputs:
            out.append([name, kind, enc(concrete(v, model))])
        return out

    def wishes(self, rng):
        """A random value for every input."""
        out = []
        for name, kind, v in self.inputs:
            if type(v) is SymBool:
                out.append(v.t if rng.random() < 0.5 else z3.Not(v.t))
                continue
            for c in ([v] if type(v) is SymNum else v.pts if type(v) is SymText else getattr(v, 'cells', ())):
                if type(c) is SymNum:
                    for a in c.lin.terms:
                        if a.isint and a.lo is not None and a.hi is not None and a.lo > -2 ** 80 and a.hi < 2 ** 80:
                            out.append(a.term == rng.randint(int(a.lo), int(a.hi)))
        return out

    def observations(self, model):
        return [[l, enc(concrete(v, model))] for l, v in self.obs]


def flat(cs):
    for c in cs:
        if isinstance(c, (list, tuple)) or hasattr(c, '__next__'):
            for x in flat(c):
                yield x
        else:
            yield c


def eqv(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and tb in (list, tuple):
        if len(a) != len(b):
            return False
        return mk_and(*[eqv(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        if all(type(k) in (str, bytes, int) and not nums.has_token(k) if type(k) is str else True for k in list(a) + list(b)) \
                and all(type(k) in (str, bytes, int) for k in list(a) + list(b)):
            return set(a) == set(b) and mk_and(*[eqv(v, b[k]) for k, v in a.items()])
        return mk_and(*[mk_and(eqv(k1, k2), eqv(v1, v2)) for (k1, v1), (k2, v2) in zip(a.items(), b.items())])
    if ta is str and tb is str:
        return nums.str_eq(a, b)
    return truth(a == b)


def concrete(v, model):
    t = type(v)
    if t in (SymNum, SymBool):
        return nums.value_of(v, model)
    if t is str:
        if nums.has_token(v):
            return nums.value_of(v, model)
        return v
    if t is SymText:
        return ''.join(chr(nums.value_of(p, model)) for p in v.pts)
    if t in (SymBytes, symbytes.SymByteArray):
        out = []
        for c in v.cells:
            if type(c) is ByteOf:
                x = nums.value_of(c.v, model)
                import struct
                out.append(struct.pack('<' + c.f, x)[c.k])
            else:
                out.append(nums.value_of(c, model))
        return bytes(out)
    if isinstance(v, list):
        return [concrete(x, model) for x in v]
    if isinstance(v, tuple):
        return tuple(concrete(x, model) for x in v)
    if isinstance(v, dict):
        return {concrete(k, model): concrete(x, model) for k, x in v.items()}
    if t is SymSet:
        return [concrete(x, model) for x in v]
    return v


def enc(v):
    """JSON form of a concrete value; floats keep their exact value."""
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return {'f': v.hex()}
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {'d': [[enc(k), enc(x)] for k, x in v.items()]}
    return {'r': type(v).__name__}
