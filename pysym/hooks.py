"""Dispatch for calls made by instrumented code: builtins and library functions
that would look inside a symbolic value are replaced by symbolic counterparts."""
import argparse
import builtins
import collections
import copy as _copy
import enum
import functools
import gzip as _gzip
import io
import json as _json
import math
import os
import random as _random
import shutil
import struct as _struct
import types
from fractions import Fraction
import z3
from .core import Engine, Unsupported
from . import nums
from .nums import SymNum, SymBool, SymBase, tabulate, has_token, str_eq, truth, mk_and, make_atom, Lin
from .containers import SymDict, SymSet, sym_eq
from . import symbytes
from .symbytes import SymBytes, SymByteArray, SymText, SymFile, SymBytesIO, SymStruct, ROOT

FS = symbytes.FS()
SYMBYTES = (SymBytes, SymByteArray)


def set_fs(fs):
    global FS
    FS = fs


def is_sym(v):
    return isinstance(type(v), type) and getattr(type(v), '_is_sym', False) is True


# -- builtins ------------------------------------------------------------------

def h_int(*a, **k):
    if a and len(a) == 1:
        x = a[0]
        t = type(x)
        if t is SymNum:
            return x.to_int()
        if t is SymBool:
            return nums.simp(x.as_num())
        if t is str and has_token(x):
            raise Unsupported('int() of text with a symbolic number')
        if t is SymText:
            return int(x._fork())
        for n in ('__int__', '__index__', '__trunc__'):
            m = getattr(t, n, None)
            if isinstance(m, types.FunctionType):
                return h_int(m(x))
            if m is not None:
                break
    return int(*a, **k)


def h_float(*a):
    if a and type(a[0]) in (SymNum, SymBool):
        return SymNum.lift(a[0]).to_float()
    if a:
        m = getattr(type(a[0]), '__float__', None)
        if isinstance(m, types.FunctionType):
            return m(a[0])
    return float(*a)


def h_bool(*a):
    if a and type(a[0]) in (SymNum, SymBool):
        return truth(a[0])
    return bool(*a)


def h_len(x):
    m = getattr(type(x), '__len__', None)
    if isinstance(m, types.FunctionType) and not hasattr(type(x), '_sym_container'):
        return m(x)
    return len(x)


def h_bytearray(*a, **k):
    if not a:
        return SymByteArray([])
    x = a[0]
    if type(x) is SymByteArray:
        return SymByteArray(x.cells)
    return SymByteArray(symbytes.cells_of(h_bytes(*a, **k)))


def h_memoryview(x):
    if type(x) in SYMBYTES:
        return x
    return memoryview(x)


def h_bin(f):
    def h(x):
        return f(x.concretise() if type(x) is SymNum else x)
    return h


def h_cache(f):
    """functools.cache: results by (symbolic) arguments."""
    store = SymDict()
    hits = [0, 0]

    @functools.wraps(f)
    def wrapper(*a, **k):
        key = a if not k else (a, _KWD) + tuple(k.items())
        if key in store:
            hits[0] += 1
            return store[key]
        hits[1] += 1
        r = f(*a, **k)
        store[key] = r
        return r

    def cache_clear():
        store.clear()
        hits[:] = [0, 0]
    wrapper.cache_clear = cache_clear
    wrapper.cache_info = lambda: (hits[0], hits[1], None, len(store))
    return wrapper


_KWD = object()


def h_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return h_cache(maxsize)
    return h_cache


def deco(d):
    """A bare decorator."""
    try:
        return DECOS.get(d, d)
    except TypeError:
        return d


DECOS = {functools.lru_cache: h_cache, functools.cache: h_cache}


def h_ord(c):
    if type(c) in SYMBYTES:
        if len(c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(c))
        return c[0]
    if type(c) is SymText:
        if len(c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(c))
        return c.pts[0]
    return ord(c)


def h_chr(x):
    if type(x) is SymBool:
        x = x.as_num()
    if type(x) is SymNum:
        if x.isfloat:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not bool(x >= 0) or not bool(x <= 0x10ffff):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymText([x])
    return chr(x)


def h_type(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t in (SymNum, SymBool, SymBytes, SymByteArray, SymText, SymSet):
            return x.__class__
        if t is SymDict:
            return x._kind
        return t
    return type(*a)


def h_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymText:
            return x
        return str(x)
    if a and type(a[0]) in SYMBYTES:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def h_repr(x):
    return repr(x)


def h_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) in SYMBYTES:
            return symbytes.mkbytes(x.cells)
        if isinstance(x, int):
            return bytes(int(x))
        if isinstance(x, (list, tuple)) or hasattr(x, '__next__') or isinstance(x, set):
            cs = []
            for v in x:
                if type(v) is SymNum:
                    if v.isfloat:
                        raise TypeError("'float' object cannot be interpreted as an integer")
                    if not bool(v >= 0) or not bool(v <= 255):
                        raise ValueError('bytes must be in range(0, 256)')
                    cs.append(v)
                else:
                    cs.append(bytes([v])[0])
            return symbytes.mkbytes(cs)
    if a and type(a[0]) is SymText:
        return a[0].encode(*a[1:], **k)
    if a and isinstance(a[0], str) and has_token(a[0]):
        raise Unsupported('encoding text of a symbolic number')
    return bytes(*a, **k)


def h_dict(*a, **k):
    return SymDict(*a, **k)


def h_ordereddict(*a, **k):
    d = SymDict(*a, **k)
    d._kind = collections.OrderedDict
    return d


def h_defaultdict(f=None, *a, **k):
    d = SymDict(*a, **k)
    d._default = f
    d._kind = collections.defaultdict
    return d


class SymCounter(SymDict):
    __slots__ = ()

    def __init__(self, *a, **k):
        SymDict.__init__(self)
        self._kind = collections.Counter
        self.update(*a, **k)

    def _missing(self, key):
        return 0

    def update(self, *a, **k):
        for it in a + ((k,) if k else ()):
            if isinstance(it, dict):
                for x, n in it.items():
                    self[x] = self[x] + n
            elif it is not None:
                for x in it:
                    self[x] = self[x] + 1

    def subtract(self, *a, **k):
        for it in a + ((k,) if k else ()):
            for x, n in (it.items() if isinstance(it, dict) else [(x, 1) for x in it]):
                self[x] = self[x] - n

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for x, n in self.items():
            for _ in range(int(n)):
                yield x

    def total(self):
        return h_sum(self.values())

    def copy(self):
        return SymCounter(self)
    __copy__ = copy

    def __add__(self, o):
        r = SymCounter(self)
        r.update(o)
        return SymCounter({x: n for x, n in r.items() if n > 0})

    def __sub__(self, o):
        r = SymCounter(self)
        r.subtract(o)
        return SymCounter({x: n for x, n in r.items() if n > 0})


def h_counter(*a, **k):
    return SymCounter(*a, **k)


def h_set(*a):
    return SymSet(*a)


def h_isinstance(x, c):
    return isinstance(x, c)


def h_hash(x):
    if type(x) is SymNum or type(x) is SymBool:
        return SymNum.lift(x).to_int() if type(x) is SymNum and x.isfloat is False else x
    if type(x) is tuple:
        from .containers import plain_hash, sym_hash, SymHash
        if not plain_hash(x):
            return SymHash(sym_hash(x))
    try:
        return hash(x)
    except TypeError:
        m = getattr(type(x), '__hash__', None)
        if m is None:
            raise
        if isinstance(m, types.FunctionType):
            return m(x)
        raise


def h_sum(it, start=0):
    it = list(it)
    if all(type(x) in (int, float, bool) for x in it) and type(start) in (int, float, bool):
        return sum(it, start)
    r = start
    for x in it:
        r = r + x
    return r


def h_minmax(lt):
    real = min if lt else max

    def f(*a, **k):
        key = k.pop('key', None)
        has_d = 'default' in k
        d = k.pop('default', None)
        seq = list(a[0]) if len(a) == 1 else list(a)
        if not seq:
            if has_d:
                return d
            return real(seq)
        best = seq[0]
        bk = key(best) if key else best
        for x in seq[1:]:
            xk = key(x) if key else x
            if is_sym(xk) or is_sym(bk):
                c = (xk < bk) if lt else (xk > bk)
                if type(c) is SymBool and key is None and type(xk) in (SymNum, int) and type(bk) in (SymNum, int):
                    a1, b1 = SymNum.lift(xk), SymNum.lift(bk)
                    if not (a1.isfloat or b1.isfloat):
                        la, ha = a1.bounds()
                        lb, hb = b1.bounds()
                        lo, hi = (min(la, lb), min(ha, hb)) if lt else (max(la, lb), max(ha, hb))
                        t = z3.If(c.t, a1.lin.z3(), b1.lin.z3())
                        best = bk = SymNum(Lin({make_atom(t, lo, hi): 1}, 0), 0, False)
                        continue
            else:
                c = (xk < bk) if lt else (xk > bk)
            if c:
                best, bk = x, xk
        return best
    return f


def h_abs(x):
    return abs(x)


def h_round(x, *a):
    return round(x, *a)


def h_any(it):
    for x in it:
        if x:
            return True
    return False


def h_divmod(a, b):
    return divmod(a, b)


def h_pow(a, b, *m):
    return pow(a, b, *m)


def h_format(x, spec=''):
    return format(x, spec)


def h_open(path, mode='r', *a, **k):
    if isinstance(path, str) and path.startswith(ROOT):
        return SymFile(FS, path, mode)
    if 'r' in mode and '+' not in mode:
        return symbytes._real_open(path, mode, *a, **k)
    raise Unsupported('writing to a real file: %s' % (path,))


def h_gzip_open(path, mode='rb', *a, **k):
    if isinstance(path, str) and path.startswith(ROOT):
        return SymFile(FS, path, mode.replace('t', ''), gz=True)
    if isinstance(path, SymFile):
        return SymFile(FS, path.name, mode, gz=True)
    if 'r' in mode:
        return symbytes._real_gzip_open(path, mode, *a, **k)
    raise Unsupported('writing to a real gzip file')


def h_exists(p):
    if isinstance(p, str) and p.startswith(ROOT):
        return FS.exists(p)
    return os.path.exists(p)


def h_isfile(p):
    if isinstance(p, str) and p.startswith(ROOT):
        return p in FS.files
    return os.path.isfile(p)


def h_makedirs(p, *a, **k):
    if isinstance(p, str) and p.startswith(ROOT):
        FS.dirs.add(p.rstrip('/'))
        return
    raise Unsupported('makedirs on the real file system')


def h_remove(p):
    if isinstance(p, str) and p.startswith(ROOT):
        if p not in FS.files:
            raise FileNotFoundError(p)
        del FS.files[p]
        return
    raise Unsupported('remove on the real file system')


def h_rename(a, b):
    if a.startswith(ROOT) and b.startswith(ROOT):
        FS.files[b] = FS.files.pop(a)
        return
    raise Unsupported('rename on the real file system')


def h_copy_file(src, dst, *a, **k):
    if isinstance(dst, str) and dst.startswith(ROOT):
        if dst.rstrip('/') in FS.dirs:
            dst = dst.rstrip('/') + '/' + os.path.basename(src)
        if src.startswith(ROOT):
            FS.files[dst] = list(FS.files[src])
        else:
            with symbytes._real_open(src, 'rb') as f:
                FS.files[dst] = [list(f.read()), False, False]
        return dst
    raise Unsupported('copying to the real file system')


def pure1(f):
    def h(x, *a):
        if type(x) is SymBool:
            x = x.as_num()
        if type(x) is SymNum:
            return tabulate(f, x)
        return f(x, *a)
    return h


def h_math_pow(a, b):
    if type(a) is SymNum or type(b) is SymNum:
        b2 = b if type(b) is not SymNum else b.concretise()
        if isinstance(b2, (int, float)) and type(a) is SymNum:
            return tabulate(lambda v: math.pow(v, b2), a)
        return tabulate(lambda v: math.pow(a, v), SymNum.lift(b))
    return math.pow(a, b)


def h_atan2(y, x):
    y = y.concretise() if type(y) is SymNum else y
    x = x.concretise() if type(x) is SymNum else x
    return math.atan2(y, x)


def h_fabs(x):
    return abs(x).to_float() if type(abs(x)) is SymNum else float(abs(x))


def h_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        d = abs(a - b)
        m = h_minmax(False)(abs(a), abs(b))
        return (d <= rel_tol * m) or (d <= abs_tol)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def h_trunc(x):
    return math.trunc(x)


def h_fsum(it):
    xs = list(it)
    if any(is_sym(x) for x in xs):
        return h_sum(xs, 0.0)
    return math.fsum(xs)


def h_sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def h_deepcopy(x, *a):
    return _copy.deepcopy(x, *a)


def h_opaque(*a, **k):
    raise Unsupported('an opaque library call')


# -- JSON as a structure-preserving library ------------------------------------
JSON_DOCS = {}


class Docs(object):
    def __init__(self):
        self.docs = []


def json_norm(x, iterable):
    """What json.loads(json.dumps(x)) gives, with json's type errors."""
    t = type(x)
    if x is None or t in (int, float, bool, SymNum, SymBool, str, SymText):
        return x
    if isinstance(x, enum.Enum):
        raise TypeError('Object of type %s is not JSON serializable' % t.__name__)
    if isinstance(x, (list, tuple)):
        return [json_norm(v, iterable) for v in x]
    if isinstance(x, dict):
        d = SymDict()
        for k, v in x.items():
            if isinstance(k, bytes):
                raise TypeError('keys must be str, int, float, bool or None')
            if isinstance(k, bool):
                k = 'true' if k else 'false'
            elif isinstance(k, (int, float)):
                k = str(k)
            elif k is None:
                k = 'null'
            elif not isinstance(k, str):
                raise TypeError('keys must be str, int, float, bool or None')
            d[k] = json_norm(v, iterable)
        return d
    if isinstance(x, (int, float, str)):
        return x
    if iterable and hasattr(x, '__iter__') and not isinstance(x, (bytes, set)):
        return [json_norm(v, iterable) for v in x]
    if isinstance(x, bytes):
        raise TypeError('Object of type bytes is not JSON serializable')
    raise TypeError('Object of type %s is not JSON serializable' % t.__name__)


JSON_A, JSON_B = '\ue002', '\ue003'


def h_json_dumps(x, **k):
    d = json_norm(x, k.get('iterable_as_array', False))
    FS.docs = getattr(FS, 'docs', [])
    FS.docs.append(d)
    return '%s%d%s' % (JSON_A, len(FS.docs) - 1, JSON_B)


def h_json_std_dumps(x, **k):
    k.pop('iterable_as_array', None)
    return h_json_dumps(x, **k)


def h_json_loads(s, **k):
    if isinstance(s, str) and s.startswith(JSON_A):
        return _copy.deepcopy(FS.docs[int(s[1:-1])])
    return SymDict_wrap(_json.loads(s))


def SymDict_wrap(x):
    if isinstance(x, dict):
        return SymDict({k: SymDict_wrap(v) for k, v in x.items()})
    if isinstance(x, list):
        return [SymDict_wrap(v) for v in x]
    return x


def h_json_dump(x, f, **k):
    f.write(h_json_dumps(x, **k))


def h_json_load(f, **k):
    return h_json_loads(f.read())


# -- random ----------------------------------------------------------------------

class Draws(object):
    """Every random draw is a fresh symbolic value."""

    def __init__(self):
        self.log = []
        self.limit = 400
        self.fixed = []       # values the harness prescribes for the first draws

    def _name(self, kind):
        if len(self.log) >= self.limit:
            raise Unsupported('more than %d random draws' % self.limit)
        n = 'draw%d' % len(self.log)
        self.log.append(n)
        return n

    def random(self):
        k = nums.new_int(self._name('random'), 0, 2 ** 53 - 1)
        return SymNum.make(Lin(k.lin.terms, 0).scale(Fraction(1, 2 ** 53)), 0, True)

    def below(self, n):
        if type(n) is SymNum:
            n = n.concretise()
        if n <= 0:
            raise ValueError('empty range')
        return nums.new_int(self._name('below'), 0, n - 1)


    def noise(self):
        k = nums.new_int(self._name('noise'), -1024, 1024)
        return SymNum.make(Lin(k.lin.terms, 0).scale(Fraction(1, 1024)), 0, True)


DRAWS = Draws()


def set_draws(d):
    global DRAWS
    DRAWS = d


class LazySample(list):
    """A sample whose draws are decided as it is read."""

    def __init__(self, pool, js):
        list.__init__(self)
        self.pool, self.js, self.n = pool, js, len(js)

    def __force(self, k):
        while list.__len__(self) < k:
            i = list.__len__(self)
            j = int(self.js[i])
            list.append(self, self.pool[j])
            self.pool[j] = self.pool[len(self.pool) - i - 1]

    def __iter__(self):
        i = 0
        while i < self.__len__():
            self.__force(min(i + 1, self.n))
            yield list.__getitem__(self, i)
            i += 1

    def __len__(self):
        return max(self.n, list.__len__(self))

    def __bool__(self):
        return self.__len__() > 0

    def __getitem__(self, i):
        if type(i) is int and i >= 0:
            self.__force(min(i + 1, self.n))
        else:
            self.__force(self.n)
        return list.__getitem__(self, i)


def _forced(name):
    real = getattr(list, name)

    def f(self, *a, **k):
        self._LazySample__force(self.n)
        return real(self, *a, **k)
    return f


for _n in ('__setitem__', '__delitem__', '__contains__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
           '__add__', '__mul__', '__rmul__', '__iadd__', '__imul__', '__repr__', '__reversed__', 'append', 'clear',
           'copy', 'count', 'extend', 'index', 'insert', 'pop', 'remove', 'reverse', 'sort', '__reduce_ex__'):
    setattr(LazySample, _n, _forced(_n))


class RandomModel(object):
    """The functions of module random, over DRAWS; the concrete replay uses the
    same definitions with scripted draws (see replay.py)."""

    def __init__(self, get):
        self.get = get

    def functions(self):
        get = self.get

        def r_random():
            return get().random()

        def r_uniform(a, b):
            return a + (b - a) * get().random()

        def r_below(n):
            return get().below(n)

        def r_randint(a, b):
            return a + r_below(b - a + 1)

        def r_randrange(a, b=None, step=1):
            if b is None:
                a, b = 0, a
            n = (b - a + step - 1) // step if step > 0 else (a - b - step - 1) // (-step)
            if n <= 0:
                raise ValueError('empty range for randrange()')
            return a + step * r_below(n)

        def r_choice(seq):
            if not len(seq):
                raise IndexError('Cannot choose from an empty sequence')
            return seq[r_below(len(seq))]

        def r_sample(population, k, counts=None):
            pool = list(population)
            n = len(pool)
            if not 0 <= k <= n:
                raise ValueError('Sample larger than population or is negative')
            js = [r_below(n - i) if n - i > 1 else 0 for i in range(k)]
            if any(type(j) is not int for j in js):
                return LazySample(pool, js)
            out = []
            for i, j in enumerate(js):
                out.append(pool[j])
                pool[j] = pool[n - i - 1]
            return out

        def r_shuffle(x):
            for i in reversed(range(1, len(x))):
                j = int(r_below(i + 1))
                x[i], x[j] = x[j], x[i]

        def r_choices(population, weights=None, *, cum_weights=None, k=1):
            pop = list(population)
            if weights is None and cum_weights is None:
                return [pop[int(r_below(len(pop)))] for _ in range(k)]
            if cum_weights is None:
                cum_weights = []
                t = 0
                for w in weights:
                    t = t + w
                    cum_weights.append(t)
            total = cum_weights[-1] + 0.0
            out = []
            for _ in range(k):
                r = get().random() * total
                for i, c in enumerate(cum_weights):
                    if i == len(pop) - 1 or r < c:
                        out.append(pop[i])
                        break
            return out

        def r_getrandbits(k):
            return r_below(1 << k)

        def r_seed(*a, **k):
            return None

        return {'random': r_random, 'uniform': r_uniform, 'randint': r_randint, 'randrange': r_randrange,
                'choice': r_choice, 'sample': r_sample, 'shuffle': r_shuffle, 'choices': r_choices,
                'getrandbits': r_getrandbits, 'seed': r_seed}


_RM = RandomModel(lambda: DRAWS).functions()


class SymRandom(object):
    """random.Random, whatever its seed: every draw is arbitrary."""

    def __init__(self, *a):
        pass

    def __getattr__(self, n):
        if n in _RM:
            return _RM[n]
        raise Unsupported('Random.' + n)


def noise_stub(*a, **k):
    """noise.pnoise3 and friends: any value the documentation allows, [-1, 1]."""
    return DRAWS.noise()


class SymFileType(object):
    """argparse.FileType"""

    def __init__(self, mode='r', *a, **k):
        self.mode = mode

    def __call__(self, name):
        return h_open(name, self.mode)


HOOKS = {
    argparse.FileType: SymFileType,
    int: h_int, float: h_float, bool: h_bool, ord: h_ord, chr: h_chr, type: h_type, str: h_str,
    bytes: h_bytes, dict: h_dict, set: h_set, frozenset: h_set, hash: h_hash, sum: h_sum, min: h_minmax(True),
    max: h_minmax(False), builtins.open: h_open, io.open: h_open,
    collections.OrderedDict: h_ordereddict, collections.defaultdict: h_defaultdict,
    collections.Counter: h_counter,
    _gzip.open: h_gzip_open, _gzip.GzipFile: h_gzip_open,
    _struct.pack: symbytes.pack, _struct.unpack: symbytes.unpack, _struct.calcsize: symbytes.calcsize,
    _struct.unpack_from: symbytes.unpack_from, _struct.iter_unpack: symbytes.iter_unpack,
    _struct.pack_into: symbytes.pack_into, bytearray: h_bytearray, memoryview: h_memoryview, len: h_len,
    functools.lru_cache: h_lru_cache, functools.cache: h_cache, bin: h_bin(bin), hex: h_bin(hex), oct: h_bin(oct),
    _struct.Struct: SymStruct, io.BytesIO: SymBytesIO,
    math.cos: pure1(math.cos), math.sin: pure1(math.sin), math.tan: pure1(math.tan), math.sqrt: pure1(math.sqrt),
    math.exp: pure1(math.exp), math.log: pure1(math.log), math.radians: pure1(math.radians),
    math.degrees: pure1(math.degrees), math.log2: pure1(math.log2),
    math.pow: h_math_pow, math.atan2: h_atan2, math.fabs: h_fabs, math.isclose: h_isclose, math.fsum: h_fsum,
    os.path.exists: h_exists, os.path.isdir: h_exists, os.path.isfile: h_isfile, os.makedirs: h_makedirs,
    os.mkdir: h_makedirs, os.remove: h_remove, os.unlink: h_remove, os.rename: h_rename, os.replace: h_rename,
    shutil.copy: h_copy_file, shutil.copyfile: h_copy_file, shutil.copy2: h_copy_file,
    _json.dumps: h_json_std_dumps, _json.loads: h_json_loads, _json.dump: h_json_dump, _json.load: h_json_load,
}
for _n, _f in _RM.items():
    HOOKS[getattr(_random, _n)] = _f
HOOKS[_random.Random] = HOOKS[_random.SystemRandom] = SymRandom


def h_str_encode(s, *a, **k):
    if type(s) is SymText:
        return s.encode(*a, **k)
    if isinstance(s, str) and has_token(s):
        raise Unsupported('encoding text of a symbolic number')
    return str.encode(s, *a, **k)


def h_bytes_decode(b, *a, **k):
    if type(b) in SYMBYTES:
        return b.decode(*a, **k)
    return bytes.decode(b, *a, **k)


def h_bytes_join(sep, parts):
    parts = list(parts)
    if any(type(p) in SYMBYTES for p in parts):
        return SymBytes(symbytes.cells_of(sep)).join(parts) if len(sep) else symbytes.mkbytes(
            [c for p in parts for c in symbytes.cells_of(p)])
    return sep.join(parts)


def h_str_join(sep, parts):
    parts = list(parts)
    if any(type(p) is SymText for p in parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += symbytes.pts_of(sep)
            out += symbytes.pts_of(p)
        return SymText.make(out)
    return sep.join(parts)


def h_int_from_bytes(b, byteorder='big', *, signed=False):
    if type(b) not in (bytes, SymBytes, SymByteArray, memoryview, bytearray):
        b = h_bytes(b)
    if type(b) in SYMBYTES:
        return symbytes.int_from_bytes(b, byteorder, signed)
    return int.from_bytes(b, byteorder, signed=signed)


def h_fromkeys(it, v=None):
    d = SymDict()
    for k in it:
        d[k] = v
    return d


HOOKS[str.encode] = h_str_encode
HOOKS[bytes.decode] = h_bytes_decode
HOOKS[str.join] = h_str_join
HOOKS[bytes.join] = h_bytes_join

# methods of concrete builtin objects that would mishandle symbolic arguments
METHODS = {
    (str, 'encode'): h_str_encode, (str, 'join'): h_str_join, (bytes, 'join'): h_bytes_join,
}

NOHOOK = types.MethodType


def call(f, *a, **k):
    t = type(f)
    if t is types.MethodType:
        if f.__self__ is _random._inst:
            h = HOOKS.get(f)
            if h is None:
                raise Unsupported('random.' + f.__name__)
            return h(*a, **k)
        return f(*a, **k)
    try:
        h = HOOKS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if t is types.BuiltinFunctionType:
        s = f.__self__
        ts = type(s)
        if ts is str or ts is bytes:
            h = METHODS.get((ts, f.__name__))
            if h is not None:
                return h(s, *a, **k)
            if ts is str and f.__name__ in ('upper', 'lower', 'split', 'strip', 'replace', 'title') and has_token(s):
                if f.__name__ in ('split', 'strip', 'replace'):
                    pass
            if ts is bytes and a and type(a[0]) in SYMBYTES:
                return getattr(SymBytes(s), f.__name__)(*a, **k)
        elif s is int and f.__name__ == 'from_bytes':
            return h_int_from_bytes(*a, **k)
        elif s is dict and f.__name__ == 'fromkeys':
            return h_fromkeys(*a, **k)
        elif s is collections.OrderedDict and f.__name__ == 'fromkeys':
            return h_fromkeys(*a, **k)
        elif ts is _struct.Struct:
            return getattr(SymStruct(s.format), f.__name__)(*a, **k)
        elif ts is list and f.__name__ == 'index':
            for i, x in enumerate(s):
                if x is a[0] or sym_eq(x, a[0]):
                    return i
            raise ValueError('not in list')
        elif ts is list and f.__name__ == 'remove':
            for i, x in enumerate(s):
                if x is a[0] or sym_eq(x, a[0]):
                    del s[i]
                    return None
            raise ValueError('list.remove(x): x not in list')
        elif ts is float and f.__name__ in ('is_integer',):
            return f(*a)
        elif ts is int and f.__name__ == 'to_bytes':
            return f(*a, **k)
        return f(*a, **k)
    if isinstance(f, type) and issubclass(f, enum.Enum) and len(a) == 1 and not k:
        x = a[0]
        if is_sym(x) and issubclass(f, enum.Flag):
            return f(int(x))
        if is_sym(x):
            for m in f:
                if sym_eq(x, m.value):
                    return m
            raise ValueError('%s is not a valid %s' % (x, f.__name__))
        if type(x) in (SymBytes, SymText):
            for m in f:
                if sym_eq(m.value, x):
                    return m
            raise ValueError('not a valid %s' % f.__name__)
    return f(*a, **k)


def mod(a, b):
    if isinstance(a, str) and type(a) is str:
        return str_mod(a, b)
    return a % b


def str_mod(fmt, args):
    if isinstance(args, tuple):
        vals = list(args)
    elif isinstance(args, dict):
        return fmt % args
    else:
        vals = [args]
    if not any(is_sym(v) for v in vals):
        return fmt % args
    # numbers under %s / %d / %i become tokens
    out = []
    i = 0
    vi = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        j = i + 1
        while fmt[j] in '#0- +123456789.':
            j += 1
        conv = fmt[j]
        spec = fmt[i:j + 1]
        i = j + 1
        if conv == '%':
            out.append('%')
            continue
        if vi >= len(vals):
            raise TypeError('not enough arguments for format string')
        v = vals[vi]
        vi += 1
        if is_sym(v) and type(v) is SymNum:
            if conv in 'di':
                v = v.to_int()
            elif conv == 'f':
                v = v.to_float()
            if len(spec) == 2 and conv in 'dis' and type(v) is SymNum:
                out.append(str(v))
                continue
            if type(v) is SymNum:
                out.append(nums.token(v, spec))
            else:
                out.append(spec % v)
        elif is_sym(v):
            out.append(spec % bool(v))
        else:
            out.append(spec % v)
    if vi != len(vals):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


def eq(a, b):
    ta = type(a)
    if ta is str and type(b) is str and (has_token(a) or has_token(b)):
        return str_eq(a, b)
    if ta is tuple or ta is list:
        if type(b) is ta:
            return sym_eq(a, b)
    return a == b


def ne(a, b):
    ta = type(a)
    if ta is str and type(b) is str or (ta in (tuple, list) and type(b) is ta):
        return nums.sym_not(eq(a, b))
    return a != b


def contains(x, c):
    tc = type(c)
    if tc is list or tc is tuple:
        for y in c:
            if y is x or eq(y, x):
                return True
        return False
    if tc is dict or tc is set or tc is frozenset:
        try:
            return x in c
        except TypeError:
            for y in c:
                if sym_eq(y, x):
                    return True
            return False
    if tc is range and type(x) is SymNum:
        if c.step == 1:
            return mk_and(x >= c.start, x < c.stop, True if not x.isfloat else x.is_integer())
        return any(bool(x == y) for y in c)
    if tc is str and type(x) is str and has_token(x) and not has_token(c):
        raise Unsupported('substring test on text of a symbolic number')
    return x in c


def not_contains(x, c):
    return nums.sym_not(contains(x, c))


def subscript(c, i):
    """Load c[i] where c is a native dict and i may be symbolic."""
    if type(c) is dict:
        try:
            return c[i]
        except TypeError:
            for k, v in c.items():
                if sym_eq(k, i):
                    return v
            raise KeyError(i)
    return c[i]


def late():
    """Hooks on packages that exist only once the search path is set."""
    try:
        import simplejson
        HOOKS[simplejson.dumps] = h_json_dumps
        HOOKS[simplejson.loads] = h_json_loads
        HOOKS[simplejson.dump] = h_json_dump
        HOOKS[simplejson.load] = h_json_load
    except ImportError:
        pass
    try:
        import noise
        for n in ('pnoise1', 'pnoise2', 'pnoise3', 'snoise2', 'snoise3', 'snoise4'):
            if hasattr(noise, n):
                HOOKS[getattr(noise, n)] = noise_stub
    except ImportError:
        pass
