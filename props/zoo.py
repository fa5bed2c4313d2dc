"""Language and library features under symbolic execution, compared with native runs (a test of the engine, not a property).

PYSYM_ZOO=1 python3-vt run.py ZOO"""
import bisect
import collections
import copy
import contextlib
import dataclasses
import enum
import functools
import heapq
import io
import itertools
import json
import math
import operator
import random
import string
import struct
import types
import typing
from collections import Counter, ChainMap, OrderedDict, defaultdict, deque, namedtuple
from fractions import Fraction
from redeclipse.vector import CoarseVector, FineVector

Point = namedtuple('Point', 'x y z')


class Kind(enum.IntEnum):
    A = 0
    B = 1
    C = 5


class Flag(enum.IntFlag):
    ONE = 1
    TWO = 2
    FOUR = 4


@dataclasses.dataclass(frozen=True)
class Cell:
    x: int
    y: int = 0

    def up(self):
        return dataclasses.replace(self, y=self.y + 1)


@dataclasses.dataclass(order=True)
class Item:
    w: float
    name: str = dataclasses.field(compare=False, default='')


class Pair(typing.NamedTuple):
    a: int
    b: int


def z_bytes(x, y):
    b = x.to_bytes(4, 'little', signed=True) + (y + 300).to_bytes(2, 'big')
    return [int.from_bytes(b[:4], 'little', signed=True), int.from_bytes(b[4:], 'big'), list(b), len(b), b[0], b[-1:] == bytes([b[5]])]


def z_struct(x, y):
    s = struct.Struct('<iHf')
    b = s.pack(x, y, x / 2)
    buf = bytearray(20)
    struct.pack_into('<i', buf, 4, x)
    r = list(struct.iter_unpack('<h', b[:4]))
    return [s.unpack(b), s.size, s.unpack_from(b'ab' + b, 2), struct.unpack_from('<i', buf, 4), r[0][0], struct.unpack('>I', struct.pack('>I', y))[0]]


def z_bytearray(x, y):
    b = bytearray()
    b += struct.pack('<i', x)
    b.append(y)
    b.extend([1, y, 2])
    b.extend(struct.pack('<H', y))
    return [bytes(b) == struct.pack('<i', x) + bytes([y, 1, y, 2]) + struct.pack('<H', y), len(b), b[4], struct.unpack('<i', b[:4])[0], bytes(b).hex() != '']


def z_bytesio(x, y):
    f = io.BytesIO()
    f.write(struct.pack('<i', x))
    f.write(b'abc')
    n = f.tell()
    f.seek(0)
    a = f.read(4)
    with io.BytesIO(f.getvalue()) as g:
        h = g.read()
    m = memoryview(f.getvalue())
    return [struct.unpack('<i', a)[0], n, f.read(1), f.read(), len(h), struct.unpack('<i', m[:4])[0], bytes(m[4:])]


def z_itertools(x, y):
    xs = [x, y, 3]
    return [list(itertools.accumulate(xs)), list(itertools.chain.from_iterable([xs, [x]])), [a + b for a, b in itertools.product(xs, xs)][:4],
            list(itertools.takewhile(lambda v: v < 5, xs)), list(itertools.dropwhile(lambda v: v < 5, xs)), list(itertools.compress('abc', xs)),
            [k for k, g in itertools.groupby([x > 3, y > 3, True])], list(itertools.filterfalse(lambda v: v % 2, xs)),
            list(itertools.starmap(operator.sub, [(x, y)])), list(itertools.islice(itertools.count(x, 2), 3)), [a for a in itertools.pairwise(xs)],
            list(itertools.zip_longest([x], xs, fillvalue=0)), len(list(itertools.permutations(xs))), list(itertools.repeat(x, 2)),
            list(itertools.accumulate(xs, operator.mul)), list(itertools.accumulate(xs, max))]


def z_functools(x, y):
    calls = []

    @functools.lru_cache(maxsize=None)
    def f(a, b=1):
        calls.append(a)
        return a * 2 + b

    @functools.cache
    def g(a):
        return [a]
    h = functools.partial(f, b=y)
    fs = [f(x), f(x), f(y), h(x), functools.reduce(operator.add, [x, y, 1]), functools.reduce(lambda a, b: a * b, [x, y], 2)]
    return fs + [len(calls) <= 3, g(x) is g(x)]


def z_operator(x, y):
    p = Point(x, y, 2)
    return [operator.attrgetter('x')(p), operator.itemgetter(1, 2)(p), operator.lt(x, y), operator.eq(x, y), operator.and_(x, 3), operator.xor(x, y),
            list(map(operator.add, [x, y], [1, 2])), operator.methodcaller('count', 2)(p), operator.neg(x), operator.truth(x), operator.not_(y),
            operator.index(5), operator.contains([1, x], y), operator.mod(x, 3)]


def z_collections(x, y):
    d = defaultdict(list)
    d[x].append(1)
    d[y].append(2)
    d[3].append(3)
    c = Counter([x, y, x, 3])
    q = deque([x, y], maxlen=3)
    q.append(5)
    q.appendleft(x + 1)
    q.rotate(1)
    o = OrderedDict([(x, 'a'), (y, 'b')])
    o.move_to_end(x)
    m = ChainMap({x: 1}, {y: 2})
    p = Point(x, y, 0)._replace(z=y)
    return [sorted(d.items()), c[3], c.most_common(1)[0][1], list(q), list(o), m[y], p.z, p == (x, y, y), sum(c.values()), list(p), p._asdict()['x']]


def z_dataclass(x, y):
    a, b = Cell(x), Cell(y).up()
    s = {a, b, Cell(3, 1)}
    d = {a: 1, b: 2}
    it = sorted([Item(x, 'p'), Item(y, 'q'), Item(2.5, 'r')])
    return [a == b, len(s), d[a], d.get(Cell(3, 1), 0), [i.name for i in it], dataclasses.astuple(a), dataclasses.asdict(b)['y'], a != Cell(x), max(it).name,
            Pair(x, y) < Pair(y, x), Pair(x, y).a]


def z_math(x, y):
    return [math.floor(x / 2), math.ceil(x / 2), math.trunc(-x / 2), round(x / 4), round(x / 4, 1), math.hypot(3, 4), math.prod([x, y]), math.gcd(4, 6),
            math.isclose(x, y), math.copysign(2, -1), divmod(x, 3), math.inf > x, abs(y - x), pow(x, 2), x ** 2, math.isnan(1.0), math.fmod(5, 3),
            max(x, y), min([x, y, 2]), sum([x, y]), math.sqrt(16), x // 3, -x // 2, x % 4, int(x / 3), float(x), x.bit_length(), math.dist((0, 0), (3, 4)),
            (x / 2).is_integer(), math.isfinite(2.0)]


def z_bits(x, y):
    return [x & 7, x | 8, x ^ y, x << 2, x >> 1, ~x, -x & 0xff, Flag(x & 7) & Flag.TWO != 0, bool(Flag.FOUR & Flag(x & 7)), (x & 1) == 1, x & -x, y << x % 4,
            (1 << x % 5) - 1, bool(x >> 2 & 1)]


def z_compare(x, y):
    return [x < y <= 8, x == y, x != y, 0 <= x < 3, x in (1, 2), x not in {3, 4}, x in range(2, 5), (x, y) < (y, x), [x] == [y], (x, 1) == (y, 1), not x,
            x and y, x or y, x is None, x if y > 2 else y, any(v == 3 for v in (x, y)), all([x, y]), bool(x), [x, y].index(y), [1, x, y].count(1),
            x in {1: 2, y: 3}, x in [y, 1]]


def z_dicts(x, y):
    d = {x: 'a', 2: 'b', **{y: 'c'}}
    e = dict(zip([1, 2, 3], [x, y, x]))
    f = {k: v for k, v in e.items() if v > 2}
    f.setdefault(9, x)
    g = d | {4: 'd'}
    d.pop(2, None)
    s = {x, y}
    s.add(3)
    s.discard(4)
    t = s | {5}
    u = frozenset([x]) & s
    k = dict.fromkeys([x, y, x])
    return [sorted(d.items()), sorted(f.items()), len(g), list(e), sorted(s), sorted(t - s), sorted(u), s <= t, list(k), e == {1: x, 2: y, 3: x},
            next(iter(e.items())), {**e, 1: 7}[1], sorted(s ^ {x}), s.issuperset({3}), s.isdisjoint({77}), d.get(99), len(e.keys() & {1, 2})]


def z_lists(x, y):
    a = [x, y, 3, 1]
    b = sorted(a)
    c = sorted(a, key=lambda v: -v, reverse=True)
    a.sort(reverse=True)
    a.insert(1, 9)
    a[1:2] = [x, x]
    d = a[::-1]
    *r, last = a
    a.remove(3)
    e = [v for v in a if v > 2]
    f = list(filter(None, [x, 0, y]))
    return [b, c, a, d, r, last, e, f, a.pop(), a[x % 3], list(reversed(a)), list(enumerate(a, 1)), max(a, key=lambda v: v % 4), min(a, default=3), [0] * (x % 3),
            list(zip(*[(1, x), (2, y)])), a[-1], a.index(x), b[:x % 3], list(map(lambda v: v + 1, a)), bisect.bisect([1, 3, 5, 7], x), bisect.bisect_left([1, 3, 5, 7], y),
            heapq.nsmallest(2, [x, y, 4]), list(range(x % 4)), list(range(y % 4, 5, 2)), tuple(a)]


def z_text(x, y):
    s = 'v%d-%s' % (x, y)
    t = f'{x}/{y:d}'
    u = '{} {}'.format(x, y)
    return [s == 'v3-2', t, u, 'abc'[x % 3], '%s_%s' % (x, y) in {'1_2'}, ','.join(str(v) for v in (x, y)), 'a' * (x % 3), len('abc'), 'k' + str(x % 2),
            string.ascii_lowercase[y % 26], f'{x:03d}', ('x', 'y')[x > y], repr(x), 'ab'.encode() + bytes([x])]


def z_control(x, y):
    out = []
    n = x
    while n > 0:
        n -= 2
        if n == 1:
            break
    else:
        out.append('even')
    for i in range(5):
        if i == x:
            continue
        if i > y:
            break
        out.append(i)
    else:
        out.append('all')
    match x:
        case 0:
            out.append('zero')
        case 1 | 2:
            out.append('few')
        case v if v > 6:
            out.append('many')
        case _:
            out.append('some')
    match (x, y):
        case (0, _):
            out.append('first')
        case (a, b) if a == b:
            out.append('same')
    try:
        if x == 4:
            raise KeyError(x)
        10 // (x - 3)
    except ZeroDivisionError:
        out.append('zero')
    except (KeyError, ValueError) as e:
        out.append(type(e).__name__)
    else:
        out.append('ok')
    finally:
        out.append('end')
    if (m := x + y) > 5:
        out.append(m)
    with contextlib.suppress(IndexError):
        out.append([1, 2, 3][x])
    assert x >= 0
    return out


def z_generators(x, y):
    def count(n):
        i = 0
        while i < n:
            got = yield i
            i += got or 1

    def both():
        yield from count(x % 4)
        return 5
    g = both()
    a = list(g)
    h = count(5)
    b = [next(h), h.send(2), next(h, None)]

    class It:
        def __init__(self):
            self.n = x % 3

        def __iter__(self):
            return self

        def __next__(self):
            if self.n == 0:
                raise StopIteration
            self.n -= 1
            return self.n
    return [a, b, list(It()), sum(v * v for v in range(x % 4)), dict((v, v) for v in (x, y))[x], next((v for v in [1, 2, 3] if v > x), -1)]


def z_classes(x, y):
    class Base:
        __slots__ = ('v',)
        total = 0

        def __init__(self, v):
            self.v = v

        def __add__(self, o):
            return type(self)(self.v + o.v)

        def __eq__(self, o):
            return isinstance(o, Base) and self.v == o.v

        def __hash__(self):
            return hash(self.v)

        def __lt__(self, o):
            return self.v < o.v

        def __bool__(self):
            return self.v > 3

        def __len__(self):
            return 3

        def __getitem__(self, i):
            return (self.v, 1, 2)[i]

        def __contains__(self, i):
            return i == self.v

        def __call__(self, k=2):
            return self.v * k

        @property
        def twice(self):
            return self.v * 2

        @classmethod
        def make(cls, v):
            cls.total += 1
            return cls(v)

        @staticmethod
        def half(v):
            return v // 2

    class Sub(Base):
        def __init__(self, v):
            super().__init__(v + 1)

        def __getattr__(self, n):
            if n == 'w':
                return 7
            raise AttributeError(n)
    a, b = Base(x), Sub.make(y)
    s = {a, b}
    return [(a + a).v, a == b, a < b, bool(a), y in b, a(), b(k=3), a.twice, Base.half(x), len(s), b.w, getattr(a, 'zz', 3), hasattr(a, 'v'), sorted([b, a])[0].v,
            list(a), isinstance(b, Base), type(b).__name__, Sub.total, copy.copy(a).v if False else 0, a in s, a != b]


def z_vectors(x, y):
    a, b = CoarseVector(x, y, 1), FineVector(8 * x, 8 * y, 8)
    s = {a, CoarseVector(y, x, 1)}
    d = {a: 1}
    return [a == b, len(s), d.get(CoarseVector(x, y, 1)), d.get(CoarseVector(0, 0, 1)), tuple(a), list(map(sum, zip(a, (1, 2, 3)))), [*a], sorted([a, CoarseVector(3, 3, 1)])[0][0],
            a in [CoarseVector(1, 2, 1)], max(a), sum(a), dict(zip('xyz', a))['y'], all(0 <= c < 4 for c in a)]


def z_enum(x, y):
    k = Kind(5 if x > 3 else x % 2)
    return [k.name, k.value, Kind['A'] == x, [m.name for m in Kind if m == x], k is Kind.C, k + 1, list(Kind).index(k), Kind.B in (k,), isinstance(k, int)]


def z_copy(x, y):
    a = {'p': [x, [y]], 'q': Point(x, y, 1), 'r': CoarseVector(x, y, 0)}
    b = copy.deepcopy(a)
    c = copy.copy(a)
    b['p'][1].append(4)
    c['p'][0] = 77
    ns = types.SimpleNamespace(a=x)
    ns.b = y
    return [a['p'], b['p'], b['q'], tuple(b['r']), vars(ns)['b'], ns.a, len(a), a['r'] == b['r'], a['r'] is b['r']]


def z_json(x, y):
    s = json.dumps({'a': x, 'b': [y, 1.5, None, True], 'c': {'d': str(x % 2)}})
    d = json.loads(s)
    return [d['a'], d['b'], d['c']['d']]


def z_random(x, y):
    rng = random.Random(5)
    r = random.random()
    i = random.randrange(3)
    c = random.choice([x, y, 3])
    s = random.sample([1, 2, 3], 2)
    w = random.choices(['a', 'b'], weights=[1, 2])[0]
    l = [1, 2, 3]
    random.shuffle(l)
    return [0 <= r < 1, 0 <= i < 3, c == x or c == y or c == 3, len(set(s)), w in 'ab', sorted(l), 1 <= random.uniform(1, 2) <= 2, rng.randint(2, 2), random.getrandbits(2) < 4]


def z_fraction(x, y):
    return [Fraction(1, 2) + 1 == Fraction(3, 2), x * 0.5, x / 4 + y / 4, (x + 0.5) // 1, int(x * 1.5), x * 1.0 == x, 2.5 * y % 2]


ALL = sorted(n[2:] for n in globals() if n.startswith('z_'))


def zoo(ctx, name):
    x, y = ctx.int('x', 0, 7), ctx.int('y', 0, 7)
    for i, v in enumerate(globals()['z_' + name](x, y)):
        if name == 'random' and i == 2:
            continue
        ctx.observe('%s %d' % (name, i), v)
    ctx.reach('end')
