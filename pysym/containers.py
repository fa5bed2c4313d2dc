"""Dictionaries and sets that accept symbolic keys.

A key matches an entry when both hashes are equal and the keys are equal, as in
CPython (equal keys with different hashes do NOT match), where the hash of a
symbolic key is what the real __hash__ returns.  While every key hashes to a
plain int, the underlying dict does the work.
"""
from .core import Unsupported
from .nums import SymNum, SymBool, mk_and, truth, has_token, str_eq, sym_not

_MISS = object()
_tuples = {tuple: True}


def tupl(t):
    """A type whose values hash and compare as tuples (named tuples)."""
    r = _tuples.get(t)
    if r is None:
        r = _tuples[t] = issubclass(t, tuple) and t.__hash__ is tuple.__hash__ and t.__eq__ is tuple.__eq__
    return r


class SymHash(object):
    """The hash of a tuple with symbolic values: good for comparing only."""

    def __init__(self, parts):
        self.parts = parts

    @property
    def __class__(self):
        return int

    def __eq__(self, o):
        return type(o) is SymHash and hash_eq(self.parts, o.parts)

    def __hash__(self):
        raise TypeError('hash of a symbolic hash')

    def _no(self, *a):
        raise Unsupported('arithmetic on the hash of symbolic values')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __xor__ = __rxor__ = __and__ = __rand__ = _no
    __or__ = __ror__ = __mod__ = __rmod__ = __floordiv__ = __lshift__ = __rshift__ = __neg__ = __invert__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __index__ = __int__ = __abs__ = _no


def plain_hash(k):
    """True when the key can be hashed natively and holds nothing symbolic."""
    t = type(k)
    if t is int or t is float or t is bool or k is None or t is bytes:
        return True
    if t is str:
        return not has_token(k)
    if tupl(t):
        for x in k:
            if not plain_hash(x):
                return False
        return True
    if t is SymNum or t is SymBool:
        return False
    try:
        hash(k)
    except TypeError:
        h = getattr(type(k), '__hash__', None)
        if h is None:
            raise
        return False
    return True


def structural(k):
    """A native key that is equal only for keys that are certainly the same."""
    t = type(k)
    if t is SymNum:
        return ('n', k.lin.key()) if k.eps == 0 else ('id', id(k))
    if t is SymBool:
        return ('b', k.t.get_id())
    if tupl(t):
        return ('t',) + tuple(structural(x) for x in k)
    if t is int or t is float or t is bool:
        from .nums import norm
        return ('n', ((), norm(k)))
    if t is str or t is bytes:
        return (t.__name__, k)
    sk = getattr(k, '_sym_key', None)
    if sk is not None and not isinstance(k, type):
        return ('k', sk())
    d = getattr(k, '__dict__', None)
    if d is not None and type(k).__module__.startswith('redeclipse') and type(k).__eq__ is not object.__eq__ \
            and set(d) <= {'x', 'y', 'z'}:
        return ('o', t) + tuple(structural(v) for v in d.values())
    return ('id', id(k))


def sym_hash(k):
    """Hash as a list of comparable parts."""
    t = type(k)
    if t is SymNum or t is SymBool:
        return ('v', k)
    if tupl(t):
        return ('t', [sym_hash(x) for x in k])
    if t is int or t is float or t is bool:
        return ('v', k)
    if t is str:
        return ('s', k)
    if hasattr(k, '_sym_key'):
        return ('v', 0)
    h = type(k).__hash__
    if h is None:
        raise TypeError('unhashable type: %r' % t.__name__)
    fs = getattr(t, '__dataclass_fields__', None)
    if fs and getattr(getattr(h, '__code__', None), 'co_filename', '') == '<string>':
        return ('t', [sym_hash(getattr(k, n)) for n, f in fs.items() if (f.compare if f.hash is None else f.hash)])
    v = h(k)
    return v.parts if type(v) is SymHash else ('v', v)


def hash_eq(a, b):
    if a[0] == 't' and b[0] == 't':
        if len(a[1]) != len(b[1]):
            return False
        rs = []
        for x, y in zip(a[1], b[1]):
            r = hash_eq(x, y)
            if r is False:
                return False
            rs.append(r)
        return mk_and(*rs)
    if a[0] == 's' and b[0] == 's':
        return str_eq(a[1], b[1])
    if a[0] != b[0]:
        return False
    return truth(a[1] == b[1])


def sym_eq(a, b):
    """a == b without forking on compound values."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return str_eq(a, b)
    if tupl(ta) and tupl(tb) or ta is list and tb is list:
        if len(a) != len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            r = sym_eq(x, y)
            if r is False:
                return False
            rs.append(r)
        return mk_and(*rs)
    return truth(a == b)


class Store(object):
    """Insertion-ordered association of keys (some symbolic) to values."""
    __slots__ = ('ents', 'index')

    def __init__(self):
        self.ents = {}      # structural key -> [key, hash, value]

    def find(self, key):
        sk = structural(key)
        e = self.ents.get(sk)
        if e is not None:
            return sk
        h = None
        for ok, e in list(self.ents.items()):
            if quick_ne(e[0], key):
                continue
            if h is None:
                h = sym_hash(key)
            he = hash_eq(e[1], h)
            if he is False:
                continue
            if tupl(type(key)) or type(key) is SymNum or tupl(type(e[0])) or type(e[0]) is SymNum:
                eq = sym_eq(e[0], key)
            elif not (he is True or bool(he)):
                continue
            else:
                he = True
                eq = sym_eq(e[0], key)
            if eq is False:
                continue
            c = mk_and(he, eq)
            if c is True or (c is not False and bool(c)):
                return ok
        return None


def quick_ne(a, b):
    """Certainly different, by cheap means."""
    ta, tb = type(a), type(b)
    if tupl(ta) and tupl(tb):
        if len(a) != len(b):
            return True
        for x, y in zip(a, b):
            if quick_ne(x, y):
                return True
        return False
    na = ta is SymNum or ta is int or ta is float
    nb = tb is SymNum or tb is int or tb is float
    if na and nb:
        if ta is SymNum and tb is SymNum:
            if a.eps == 0 and b.eps == 0:
                if a.lin.shape() == b.lin.shape():
                    return a.lin.const != b.lin.const
                la, ha = a.lin.bounds()
                lb, hb = b.lin.bounds()
                return ha < lb or hb < la
            return False
        return (a == b) is False
    if na != nb and (ta in (str, bytes) or tupl(ta) or tb in (str, bytes) or tupl(tb) or a is None or b is None):
        return True
    if ta is tb and ta.__module__.startswith('redeclipse'):
        da, db = getattr(a, '__dict__', None), getattr(b, '__dict__', None)
        if da and db and set(da) == {'x', 'y', 'z'} and set(db) == {'x', 'y', 'z'}:
            # hash or equality decides only through the real methods; but a
            # vector class compares coordinates, so only skip when the real
            # comparison says so below
            return False
    return False


class SymDict(dict):
    """dict whose keys may be symbolic."""
    __slots__ = ('_st', '_default', '_kind')
    _sym_container = True

    def __init__(self, *a, **k):
        self._st = None
        self._default = None
        self._kind = dict
        dict.__init__(self)
        if a or k:
            self.update(*a, **k)

    def _slow(self):
        if self._st is None:
            st = Store()
            for k, v in dict.items(self):
                st.ents[structural(k)] = [k, sym_hash(k), v]
            dict.clear(self)
            self._st = st
        return self._st

    def _find(self, key):
        """structural key in slow mode"""
        return self._st.find(key)

    def __getitem__(self, key):
        if self._st is None:
            if plain_hash(key):
                try:
                    return dict.__getitem__(self, key)
                except KeyError:
                    return self._missing(key)
            self._slow()
        f = self._find(key)
        if f is None:
            return self._missing(key)
        return self._st.ents[f][2]

    def _missing(self, key):
        if self._default is not None:
            v = self._default()
            self[key] = v
            return v
        raise KeyError(key)

    def get(self, key, default=None):
        if self._st is None:
            if plain_hash(key):
                return dict.get(self, key, default)
            self._slow()
        f = self._find(key)
        return default if f is None else self._st.ents[f][2]

    def __contains__(self, key):
        if self._st is None:
            if plain_hash(key):
                return dict.__contains__(self, key)
            self._slow()
        return self._find(key) is not None

    def __setitem__(self, key, value):
        if self._st is None:
            if plain_hash(key):
                dict.__setitem__(self, key, value)
                return
            self._slow()
        f = self._find(key)
        if f is None:
            self._st.ents[structural(key)] = [key, sym_hash(key), value]
        else:
            self._st.ents[f][2] = value

    def __delitem__(self, key):
        if self._st is None:
            if plain_hash(key):
                dict.__delitem__(self, key)
                return
            self._slow()
        f = self._find(key)
        if f is None:
            raise KeyError(key)
        del self._st.ents[f]

    def pop(self, key, *d):
        if self._st is None:
            if plain_hash(key):
                return dict.pop(self, key, *d)
            self._slow()
        f = self._find(key)
        if f is None:
            if d:
                return d[0]
            raise KeyError(key)
        return self._st.ents.pop(f)[2]

    def popitem(self, last=True):
        if self._st is None:
            if last:
                return dict.popitem(self)
            k = next(iter(self))
            return k, dict.pop(self, k)
        ks = list(self._st.ents)
        k = ks[-1] if last else ks[0]
        e = self._st.ents.pop(k)
        return e[0], e[2]

    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            rest = list(self.items())
            self.clear()
            self[key] = v
            self.update(rest)

    def setdefault(self, key, default=None):
        if self._st is None and plain_hash(key):
            return dict.setdefault(self, key, default)
        if key in self:
            return self[key]
        self[key] = default
        return default

    def update(self, *a, **k):
        for src in a:
            if isinstance(src, dict):
                for kk, v in src.items():
                    self[kk] = v
            elif hasattr(src, 'keys'):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def __iter__(self):
        if self._st is None:
            return dict.__iter__(self)
        return _guarded(self, 0)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self):
        return dict.__len__(self) if self._st is None else len(self._st.ents)

    def __bool__(self):
        return len(self) > 0

    def keys(self):
        return KeysView(self)

    def values(self):
        if self._st is None:
            return dict.values(self)
        return ValuesView(self)

    def items(self):
        if self._st is None:
            return dict.items(self)
        return ItemsView(self)

    def clear(self):
        dict.clear(self)
        self._st = None

    def copy(self):
        d = type(self)()
        d._default = self._default
        d._kind = self._kind
        SymDict.update(d, self)
        return d
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = type(self)()
        d._default = self._default
        d._kind = self._kind
        memo[id(self)] = d
        for k, v in list(self.items()):
            d[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return d

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self.items())


def _guarded(d, what):
    n = len(d)
    for e in list(d._st.ents.values()):
        yield e[0] if what == 0 else e[2] if what == 1 else (e[0], e[2])
        if len(d) != n:
            raise RuntimeError('dictionary changed size during iteration')


class _View(object):
    what = 0

    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        if self.d._st is None:
            return iter((dict.keys, dict.values, dict.items)[self.what](self.d))
        return _guarded(self.d, self.what)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __repr__(self):
        return repr(list(self))


class KeysView(_View):
    what = 0

    def __contains__(self, k):
        return k in self.d

    def _set(self):
        return SymSet(self)

    def __and__(self, o):
        return self._set() & SymSet(o)

    def __or__(self, o):
        return self._set() | SymSet(o)

    def __sub__(self, o):
        return self._set() - SymSet(o)

    def __rsub__(self, o):
        return SymSet(o) - self._set()
    __rand__ = __and__
    __ror__ = __or__

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __eq__(self, o):
        return self._set() == SymSet(o)
    __hash__ = None


class ValuesView(_View):
    what = 1

    def __contains__(self, v):
        return any(x is v or x == v for x in self)


class ItemsView(_View):
    what = 2

    def __contains__(self, kv):
        return kv[0] in self.d and self.d[kv[0]] == kv[1]


class SymSet(object):
    _sym_container = True

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    @property
    def __class__(self):
        return set

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def add(self, k):
        self._d[k] = True

    def discard(self, k):
        self._d.pop(k, None)

    def remove(self, k):
        del self._d[k]

    def pop(self):
        return self._d.popitem(last=False)[0]

    def clear(self):
        self._d.clear()

    def copy(self):
        return SymSet(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SymSet(copy.deepcopy(k, memo) for k in self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        s = SymSet(self)
        s.update(*its)
        return s

    def intersection(self, *its):
        r = list(self)
        for it in its:
            o = it if hasattr(it, '__contains__') and not isinstance(it, list) else SymSet(it)
            r = [x for x in r if x in o]
        return SymSet(r)

    def difference(self, *its):
        r = list(self)
        for it in its:
            o = SymSet(it)
            r = [x for x in r if x not in o]
        return SymSet(r)

    def symmetric_difference(self, o):
        o = SymSet(o)
        return SymSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *its):
        self._d = self.difference(*its)._d

    def intersection_update(self, *its):
        self._d = self.intersection(*its)._d

    def isdisjoint(self, o):
        for x in o:
            if x in self:
                return False
        return True

    def issubset(self, o):
        o = o if isinstance(o, set) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def _chk(self, o):
        return isinstance(o, (set, frozenset)) or type(o) is KeysView

    def __or__(self, o):
        return self.union(o) if self._chk(o) else NotImplemented

    def __ror__(self, o):
        return SymSet(o).union(self)

    def __and__(self, o):
        return self.intersection(o) if self._chk(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._chk(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        if not self._chk(o):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self))
