"""Symbolic numbers.

A symbolic number is a linear form  sum(coef * atom) + const  over atoms (z3
Int terms with known bounds, or z3 Real terms), with rational coefficients, an
error radius eps, and the Python type it stands for (int, float or bool).

Integers are mathematical, as in Python.  A float whose linear form ranges over
multiples of 2^-g of magnitude below 2^(53-g) is computed exactly (eps == 0);
anything else carries eps > 0, a bound on the distance between the linear form
and the double CPython computes; a comparison on such a float introduces one
fresh real variable for the error, so it over-approximates.
"""
import math
import operator
import re
from fractions import Fraction
from math import gcd
import z3
from .core import Engine, Unsupported

INF = float('inf')
U53 = Fraction(1, 2 ** 53)
MAXFORK = 5000


def eng():
    return Engine.current


class Atom(object):
    __slots__ = ('term', 'lo', 'hi', 'isint', 'uid', 'name')
    count = 0

    def __init__(self, term, lo, hi, isint=True, name=None):
        self.term = term
        self.lo = lo
        self.hi = hi
        self.isint = isint
        Atom.count += 1
        self.uid = Atom.count
        self.name = name


def make_atom(term, lo, hi, isint=True, name=None):
    """Atoms are shared per (term, bounds), so that equal terms cancel."""
    e = eng()
    key = (term.get_id(), lo, hi)
    a = e.atoms_by_key.get(key)
    if a is None:
        a = Atom(term, lo, hi, isint, name)
        e.atoms_by_key[key] = a
    return a


class Lin(object):
    """Immutable linear form."""
    __slots__ = ('terms', 'const', '_b', '_key')

    def __init__(self, terms, const):
        self.terms = terms          # dict atom -> Fraction/int, never zero
        self.const = const
        self._b = None
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (tuple(sorted((a.uid, c) for a, c in self.terms.items())), self.const)
        return self._key

    def shape(self):
        return self.key()[0]

    def add(self, o):
        t = dict(self.terms)
        for a, c in o.terms.items():
            n = t.get(a, 0) + c
            if n == 0:
                t.pop(a, None)
            else:
                t[a] = n
        return Lin(t, self.const + o.const)

    def sub(self, o):
        t = dict(self.terms)
        for a, c in o.terms.items():
            n = t.get(a, 0) - c
            if n == 0:
                t.pop(a, None)
            else:
                t[a] = n
        return Lin(t, self.const - o.const)

    def scale(self, k):
        if k == 0:
            return Lin({}, 0)
        return Lin({a: c * k for a, c in self.terms.items()}, self.const * k)

    def addc(self, k):
        return Lin(self.terms, self.const + k)

    def bounds(self):
        if self._b is None:
            lo = hi = self.const
            for a, c in self.terms.items():
                x, y = (a.lo, a.hi) if c > 0 else (a.hi, a.lo)
                lo = lo + c * x
                hi = hi + c * y
            self._b = (lo, hi)
        return self._b

    def den(self):
        d = Fraction(self.const).denominator
        for c in self.terms.values():
            q = Fraction(c).denominator
            d = d * q // gcd(d, q)
        return d

    def allint(self):
        return all(a.isint for a in self.terms)

    def z3(self):
        """z3 term of the form; Int sort if every atom and coefficient is integral."""
        if self.allint() and self.den() == 1:
            parts = []
            for a, c in self.terms.items():
                c = int(c)
                parts.append(a.term if c == 1 else z3.IntVal(c) * a.term)
            if self.const != 0 or not parts:
                parts.append(z3.IntVal(int(self.const)))
            return parts[0] if len(parts) == 1 else z3.Sum(parts)
        parts = []
        for a, c in self.terms.items():
            t = z3.ToReal(a.term) if a.isint else a.term
            f = Fraction(c)
            parts.append(t if f == 1 else z3.RealVal('%d/%d' % (f.numerator, f.denominator)) * t)
        f = Fraction(self.const)
        if f != 0 or not parts:
            parts.append(z3.RealVal('%d/%d' % (f.numerator, f.denominator)))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)


def const_lin(v):
    return Lin({}, v)


def norm(v):
    """Python number -> exact rational."""
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            raise Unsupported('nan/inf meets a symbolic number')
        f = Fraction(v)
        return f.numerator if f.denominator == 1 else f
    return int(v)


def zero_cmp(lin, op):
    """z3 Bool for  lin <op> 0, scaled to integers when possible."""
    if lin.allint():
        lin = lin.scale(lin.den())
        g = 0
        for c in lin.terms.values():
            g = gcd(g, int(c))
        k = int(lin.const)
        if g > 1:
            if k % g == 0:
                lin = Lin({a: int(c) // g for a, c in lin.terms.items()}, k // g)
            elif op == '==':
                return False
            elif op in ('<', '<='):
                # sum + k < 0  with sum multiple of g:  sum/g <= floor(...)
                bound = (-k - 1) // g if op == '<' else (-k) // g
                lin = Lin({a: int(c) // g for a, c in lin.terms.items()}, -bound)
                op = '<='
        t = Lin(lin.terms, 0).z3()
        c = z3.IntVal(-int(lin.const))
    else:
        t = Lin(lin.terms, 0).z3()
        f = -Fraction(lin.const)
        c = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    if op == '==':
        return t == c
    if op == '<':
        return t < c
    return t <= c


def _is_num(v):
    return type(v) in (int, float, bool)


class SymBase(object):
    __slots__ = ()
    _is_sym = True


class SymBool(SymBase):
    __slots__ = ('t', '_id')

    def __init__(self, t):
        self.t = t
        self._id = t.get_id()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().branch(self.t)

    def as_num(self):
        return SymNum(Lin({make_atom(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), 0, 1): 1}, 0), 0, False)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __and__(self, o):
        if isinstance(o, bool):
            return mk_and(self, o)
        return self.as_num() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mk_or(self, o)
        return self.as_num() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.t, bool_term(o)))
        return self.as_num() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.t == bool_term(o))
        return self.as_num() == o

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        raise TypeError('hash of a symbolic bool')

    def __index__(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return 'True' if bool(self) else 'False'

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        return format(bool(self), spec)

    def __lt__(self, o):
        return self.as_num() < o

    def __le__(self, o):
        return self.as_num() <= o

    def __gt__(self, o):
        return self.as_num() > o

    def __ge__(self, o):
        return self.as_num() >= o

    def __add__(self, o):
        return self.as_num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_num() - o

    def __rsub__(self, o):
        return o - self.as_num()

    def __mul__(self, o):
        return self.as_num() * o
    __rmul__ = __mul__

    def __lshift__(self, o):
        return self.as_num() << o

    def __rlshift__(self, o):
        return o << self.as_num()

    def __neg__(self):
        return -self.as_num()

    def __invert__(self):
        return ~self.as_num()


def mkbool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bool_term(b):
    if type(b) is SymBool:
        return b.t
    return z3.BoolVal(bool(b))


def junction(ts, conj):
    """Conjunction or disjunction of SymBools; built once per task."""
    if not ts:
        return conj
    if len(ts) == 1:
        return ts[0]
    k = (conj,) + tuple([b._id for b in ts])
    cache = eng().term_cache
    r = cache.get(k)
    if r is None:
        ts = [b.t for b in ts]
        r = cache[k] = SymBool(z3.And(ts) if conj else z3.Or(ts))
    return r


def mk_and(*bs):
    ts = []
    for b in bs:
        if type(b) is SymBool:
            ts.append(b)
        elif not b:
            return False
    return junction(ts, True)


def mk_or(*bs):
    ts = []
    for b in bs:
        if type(b) is SymBool:
            ts.append(b)
        elif b:
            return True
    return junction(ts, False)


def sym_not(b):
    if type(b) is SymBool:
        cache = eng().term_cache
        k = ('not', b._id)
        r = cache.get(k)
        if r is None:
            r = cache[k] = mkbool(z3.Not(b.t))
            if type(r) is SymBool:
                cache['not', r._id] = b
        return r
    return not b


def truth(v):
    """A value's truth as True, False or SymBool, without forking when possible."""
    if type(v) is SymBool or v is True or v is False:
        return v
    if type(v) is SymNum:
        return v != 0
    return bool(v)


class SymNum(SymBase):
    __slots__ = ('lin', 'eps', 'isfloat', '_err', '_cl')

    def __init__(self, lin, eps, isfloat, clamp=None):
        self.lin = lin
        self.eps = eps
        self.isfloat = isfloat
        self._err = None
        self._cl = clamp      # (lo, hi) known bounds of the double itself

    @property
    def __class__(self):
        return float if self.isfloat else int

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        raise Unsupported('pickling a symbolic number')

    def __hash__(self):
        raise TypeError('hash of a symbolic number')

    # -- bounds -----------------------------------------------------------
    def bounds(self):
        lo, hi = self.lin.bounds()
        lo, hi = lo - self.eps, hi + self.eps
        if self._cl is not None:
            lo = max(lo, self._cl[0])
            hi = min(hi, self._cl[1])
        return lo, hi

    def mag(self):
        lo, hi = self.bounds()
        return max(abs(lo), abs(hi))

    def key(self):
        return (self.isfloat, self.eps, self.lin.key())

    # -- construction -------------------------------------------------------
    @staticmethod
    def lift(v):
        if type(v) is SymNum:
            return v
        if type(v) is SymBool:
            return v.as_num()
        t = type(v)
        if t is int or t is bool:
            return SymNum(const_lin(int(v)), 0, False)
        if t is float:
            return SymNum(const_lin(norm(v)), 0, True)
        if isinstance(v, int):
            return SymNum(const_lin(int(v)), 0, False)
        return None

    @staticmethod
    def make(lin, eps, isfloat, clamp=None):
        if not lin.terms and eps == 0:
            c = lin.const
            if isfloat:
                return float(c)
            return int(c)
        return SymNum(lin, eps, isfloat, clamp)

    @staticmethod
    def fl(lin, eps, clamp=None):
        """The float that CPython gets when the exact result is lin +- eps."""
        lo, hi = lin.bounds()
        mag = max(abs(lo), abs(hi)) + eps
        if eps == 0 and lin.allint():
            d = lin.den()
            if d & (d - 1) == 0 and mag * d <= 2 ** 53:
                return SymNum.make(lin, 0, True, clamp)
        # drop terms that are pure noise against the rest
        small = {}
        for a, c in lin.terms.items():
            m = abs(c) * max(abs(a.lo), abs(a.hi))
            if m != 0 and m < Fraction(1, 2 ** 30):
                small[a] = m
        if small:
            lin = Lin({a: c for a, c in lin.terms.items() if a not in small}, lin.const)
            eps = eps + sum(small.values())
        if eps == 0 and lin.allint():
            d = lin.den()
            if d & (d - 1) == 0 and mag * d <= 2 ** 53:
                return SymNum.make(lin, 0, True, clamp)
        eps = eps + mag * U53 + Fraction(1, 2 ** 1070)
        return SymNum.make(lin, eps, True, clamp)

    def exact(self):
        """Linear form with the error as an explicit variable."""
        if self.eps == 0:
            return self.lin
        if self._err is None:
            e = eng()
            if self._cl is not None and self._cl[0] == self._cl[1]:
                self._err = const_lin(self._cl[0])
                return self._err
            t = z3.Real(e.fresh_name('err'))
            f = Fraction(self.eps)
            b = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
            a = make_atom(t, -f, f, False)
            self._err = self.lin.add(Lin({a: 1}, 0))
            cs = [t <= b, t >= -b]
            if self._cl is not None:
                lo, hi = Fraction(self._cl[0]), Fraction(self._cl[1])
                v = self._err.z3()
                cs.append(v >= z3.RealVal('%d/%d' % (lo.numerator, lo.denominator)))
                cs.append(v <= z3.RealVal('%d/%d' % (hi.numerator, hi.denominator)))
            e.assume(z3.And(cs))
        return self._err

    # -- arithmetic ---------------------------------------------------------
    def _bin(self, o, f):
        if nonfinite(o):
            return self._with_inf(o, f)
        o = SymNum.lift(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def _with_inf(self, o, f):
        """An operation with inf or nan depends on no more than this number's sign."""
        if f in (SymNum._add, SymNum._radd, SymNum._sub, SymNum._rsub):
            v = 0.0
        else:
            v = 1.0 if bool(self > 0) else -1.0 if bool(self < 0) else 0.0
        return _NATIVE[f](v, o)

    @staticmethod
    def _radd(a, b):
        return SymNum._add(b, a)

    @staticmethod
    def _rsub(a, b):
        return SymNum._sub(b, a)

    @staticmethod
    def _rmul(a, b):
        return SymNum._mul(b, a)

    @staticmethod
    def _rtruediv(a, b):
        return SymNum._truediv(b, a)

    @staticmethod
    def rounded(r, lo, hi):
        """Rounding is monotone: a result between lo and hi rounds to between their doubles."""
        if type(r) is SymNum and r.eps != 0:
            try:
                lo, hi = Fraction(float(lo)), Fraction(float(hi))
            except OverflowError:
                return r
            if r._cl is not None:
                lo, hi = max(lo, r._cl[0]), min(hi, r._cl[1])
            r._cl = (lo, hi)
        return r

    @staticmethod
    def _add(a, b):
        lin = a.lin.add(b.lin)
        if a.isfloat or b.isfloat:
            for x, y in ((a, b), (b, a)):
                if not x.lin.terms and x.eps == 0 and x.lin.const == 0 and y.isfloat:
                    return y
            la, ha = a.bounds()
            lb, hb = b.bounds()
            return SymNum.rounded(SymNum.fl(lin, a.eps + b.eps), la + lb, ha + hb)
        return SymNum.make(lin, 0, False)

    @staticmethod
    def _sub(a, b):
        lin = a.lin.sub(b.lin)
        if a.isfloat or b.isfloat:
            la, ha = a.bounds()
            lb, hb = b.bounds()
            return SymNum.rounded(SymNum.fl(lin, a.eps + b.eps), la - hb, ha - lb)
        return SymNum.make(lin, 0, False)

    @staticmethod
    def _mul(a, b):
        if a.lin.terms and b.lin.terms:
            return SymNum._nl_mul(a, b)
        if a.lin.terms:
            a, b = b, a
        k = a.lin.const
        lin = b.lin.scale(k)
        if a.isfloat or b.isfloat:
            r = SymNum.fl(lin, b.eps * abs(k) + a.eps * b.mag())
            if a.eps == 0:
                lb, hb = b.bounds()
                r = SymNum.rounded(r, min(k * lb, k * hb), max(k * lb, k * hb))
            return r
        return SymNum.make(lin, 0, False)

    @staticmethod
    def _nl_mul(a, b):
        la, ha = a.lin.bounds()
        lb, hb = b.lin.bounds()
        ps = [la * lb, la * hb, ha * lb, ha * hb]
        lo, hi = min(ps), max(ps)
        if a.lin.allint() and b.lin.allint():
            da, db = a.lin.den(), b.lin.den()
            t = a.lin.scale(da).z3() * b.lin.scale(db).z3()
            at = make_atom(t, lo * da * db, hi * da * db)
            lin = Lin({at: Fraction(1, da * db) if da * db != 1 else 1}, 0)
        else:
            ta, tb = a.lin.z3(), b.lin.z3()
            ta = z3.ToReal(ta) if ta.is_int() else ta
            tb = z3.ToReal(tb) if tb.is_int() else tb
            lin = Lin({make_atom(ta * tb, lo, hi, False): 1}, 0)
        if a.isfloat or b.isfloat:
            ma, mb = a.mag(), b.mag()
            return SymNum.fl(lin, a.eps * mb + b.eps * ma + a.eps * b.eps)
        return SymNum.make(lin, 0, False)

    def __add__(self, o):
        return self._bin(o, SymNum._add)

    def __radd__(self, o):
        return self._bin(o, SymNum._radd)

    def __sub__(self, o):
        return self._bin(o, SymNum._sub)

    def __rsub__(self, o):
        return self._bin(o, SymNum._rsub)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._bin(o, SymNum._mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        return self._bin(o, SymNum._rmul)

    def __neg__(self):
        return SymNum.make(self.lin.scale(-1), self.eps, self.isfloat)

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.bounds()
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return self if bool(self >= 0) else -self

    @staticmethod
    def _truediv(a, b):
        if not b.lin.terms:
            k = b.lin.const
            if b.eps == 0:
                if k == 0:
                    raise ZeroDivisionError('division by zero')
                inv = Fraction(1) / Fraction(k)
                lin = a.lin.scale(inv.numerator if inv.denominator == 1 else inv)
                return SymNum.fl(lin, a.eps * abs(inv))
        if bool(b == 0):
            raise ZeroDivisionError('division by zero')
        lo, hi = b.bounds()
        if lo <= 0 <= hi:
            if bool(b > 0):
                lo = Fraction(1, b.lin.den()) if b.eps == 0 and b.lin.allint() else None
            else:
                hi = -Fraction(1, b.lin.den()) if b.eps == 0 and b.lin.allint() else None
            if lo is None or hi is None:
                raise Unsupported('division by a symbolic number close to zero')
        la, ha = a.bounds()
        ps = [Fraction(x) / Fraction(y) for x in (la, ha) for y in (lo, hi)]
        ta, tb = a.exact().z3(), b.exact().z3()
        ta = z3.ToReal(ta) if ta.is_int() else ta
        tb = z3.ToReal(tb) if tb.is_int() else tb
        at = make_atom(ta / tb, min(ps), max(ps), False)
        return SymNum.fl(Lin({at: 1}, 0), 0)

    def __truediv__(self, o):
        return self._bin(o, SymNum._truediv)

    def __rtruediv__(self, o):
        return self._bin(o, SymNum._rtruediv)

    @staticmethod
    def floor_lin(lin, k=1):
        """Lin of floor(lin / k), for integer atoms and rational coefficients."""
        f = Fraction(1) / Fraction(k)
        lin = lin.scale(f)
        allint = lin.allint()
        whole, rest = {}, {}
        for a, c in lin.terms.items():
            c = Fraction(c)
            if not a.isint:
                rest[a] = c
            elif c.denominator == 1:
                whole[a] = int(c)
            else:
                # an all-integer remainder divides by a constant: keep it non-negative
                w = math.floor(c) if allint else math.floor(c + Fraction(1, 2))
                if w:
                    whole[a] = w
                rest[a] = c - w
        kw = math.floor(lin.const)
        kr = Fraction(lin.const) - kw
        if not rest:
            return Lin(whole, kw)
        r = Lin(rest, kr)
        lo, hi = r.bounds()
        flo, fhi = math.floor(lo), math.floor(hi)
        if flo == fhi:
            return Lin(whole, kw + flo)
        if allint:
            d = r.den()
            if d > 2 ** 40 and any(abs(c) < Fraction(1, 2 ** 20) or abs(c - 1) < Fraction(1, 2 ** 20) for c in rest.values()):
                # coefficients a hair away from whole numbers: nearest split instead
                whole, rest = {}, {}
                for a, c in lin.terms.items():
                    c = Fraction(c)
                    w = math.floor(c + Fraction(1, 2))
                    if w:
                        whole[a] = w
                    if c != w:
                        rest[a] = c - w
                r = Lin(rest, kr)
                lo, hi = r.bounds()
                flo, fhi = math.floor(lo), math.floor(hi)
                if flo == fhi:
                    return Lin(whole, kw + flo)
                d = r.den()
            t = r.scale(d).z3() / z3.IntVal(int(d))
        else:
            t = z3.ToInt(r.z3())
        at = make_atom(t, flo, fhi)
        return Lin(whole, kw).add(Lin({at: 1}, 0))

    @staticmethod
    def _floordiv(a, b):
        if b.lin.terms:
            # divide by a symbolic number: fork on its value
            b = SymNum.lift(b.concretise())
        k = b.lin.const
        if k == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        isf = a.isfloat or b.isfloat
        lin = SymNum.floor_lin(a.exact(), k)
        return SymNum.make(lin, 0, isf)

    def __floordiv__(self, o):
        return self._bin(o, SymNum._floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: SymNum._floordiv(b, a))

    @staticmethod
    def _mod(a, b):
        if b.lin.terms:
            b = SymNum.lift(b.concretise())
        q = SymNum.lift(SymNum._floordiv(a, b))
        return SymNum.lift(a - q * SymNum.make(b.lin, 0, False)) if not (a.isfloat or b.isfloat) \
            else SymNum.fl(a.exact().sub(q.lin.scale(b.lin.const)), 0)

    def __mod__(self, o):
        r = self._bin(o, SymNum._mod)
        return simp(r)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return simp(self._bin(o, lambda a, b: SymNum._mod(b, a)))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, n, m=None):
        if type(n) is SymNum:
            n = n.concretise()
        if m is not None:
            raise Unsupported('three-argument pow')
        if type(n) is int and 0 <= n <= 8:
            r = SymNum.make(const_lin(1), 0, self.isfloat)
            for _ in range(n):
                r = r * self
            return r
        return tabulate(lambda v: v ** n, self)

    def __rpow__(self, b):
        return tabulate(lambda v: b ** v, self)

    # -- bits -----------------------------------------------------------------
    def _int_only(self, o):
        if self.isfloat or isinstance(o, float):
            raise TypeError('unsupported operand type(s) for a bit operation')

    def _bits(self, n):
        return [(self // (1 << i)) % 2 for i in range(n)]

    @staticmethod
    def _and_const(x, m):
        lo, hi = x.bounds()
        if m < 0:
            # x & m == x - (x & ~m)
            return x - SymNum._and_const(x, ~m)
        r = 0
        i = 0
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1:
                    j += 1
                r = r + ((x // (1 << i)) % (1 << (j - i))) * (1 << i)
                i = j
            else:
                i += 1
        return r

    def __and__(self, o):
        self._int_only(o)
        if type(o) is SymNum or type(o) is SymBool:
            o = SymNum.lift(o)
            n = max(self.bounds()[1], o.bounds()[1]).bit_length()
            if self.bounds()[0] < 0 or o.bounds()[0] < 0 or n > 32:
                o = o.concretise()
            else:
                r = 0
                for i, (a, b) in enumerate(zip(self._bits(n), o._bits(n))):
                    r = r + bitand(a, b) * (1 << i)
                return r
        return simp(SymNum._and_const(self, int(o)))
    __rand__ = __and__

    def __or__(self, o):
        self._int_only(o)
        return simp(self + o - (self & o))
    __ror__ = __or__

    def __xor__(self, o):
        self._int_only(o)
        return simp(self + o - 2 * (self & o))
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, n):
        self._int_only(n)
        if type(n) is SymNum:
            n = n.concretise()
        if n < 0:
            raise ValueError('negative shift count')
        return self * (1 << n)

    def __rlshift__(self, o):
        return o << self.concretise()

    def __rshift__(self, n):
        self._int_only(n)
        if type(n) is SymNum:
            n = n.concretise()
        if n < 0:
            raise ValueError('negative shift count')
        return self // (1 << n)

    def __rrshift__(self, o):
        return o >> self.concretise()

    # -- comparison -------------------------------------------------------------
    def _cmp(self, o, op):
        if nonfinite(o):
            return _NATIVE[op](0.0, o)
        o = SymNum.lift(o) if not isinstance(o, str) else None
        if o is None:
            return NotImplemented
        if op in ('>', '>='):
            return o._cmp(self, '<' if op == '>' else '<=')
        la, ha = self.bounds()
        lb, hb = o.bounds()
        if op == '==':
            if ha < lb or hb < la:
                return False
        elif op == '<':
            if ha < lb:
                return True
            if la >= hb:
                return False
        else:
            if ha <= lb:
                return True
            if la > hb:
                return False
        if self is o and op != '<':
            return True
        d = self.exact().sub(o.exact())
        if not d.terms:
            c = d.const
            return c == 0 if op == '==' else c < 0 if op == '<' else c <= 0
        lo, hi = d.bounds()
        if op == '==':
            if lo > 0 or hi < 0:
                return False
        elif op == '<':
            if hi < 0:
                return True
            if lo >= 0:
                return False
        else:
            if hi <= 0:
                return True
            if lo > 0:
                return False
        cache = eng().term_cache
        k = (op, d.key())
        r = cache.get(k)
        if r is None:
            r = cache[k] = mkbool(zero_cmp(d, op))
        return r

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        r = self._cmp(o, '==')
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        return bool(self != 0)

    # -- conversion ---------------------------------------------------------------
    def floor(self):
        return SymNum.make(SymNum.floor_lin(self.exact()), 0, False)

    def __floor__(self):
        return self if not self.isfloat else self.floor()

    def __ceil__(self):
        return self if not self.isfloat else -((-self).floor())

    def __trunc__(self):
        if not self.isfloat:
            return self
        lo, hi = self.bounds()
        if lo >= 0:
            return self.floor()
        if hi <= 0:
            return self.__ceil__()
        return self.floor() if bool(self >= 0) else self.__ceil__()

    def __round__(self, nd=None):
        if not self.isfloat:
            if nd is None or nd >= 0:
                return self
            raise Unsupported('round to negative digits')
        if nd is not None:
            if type(nd) is SymNum:
                nd = nd.concretise()
            return tabulate(lambda v: round(v, nd), self)
        lin = self.lin
        if lin.allint() and lin.den() == 1 and self.eps < Fraction(1, 2):
            return SymNum.make(lin, 0, False)
        x = self.exact()
        n = SymNum.floor_lin(x.addc(Fraction(1, 2)))
        # half to even: n is one too high when x is exactly n - 1/2 and n is odd
        half = SymNum(n.addc(-Fraction(1, 2)).sub(x), 0, True) == 0 if n.sub(x).terms else \
            (n.const - Fraction(1, 2) == x.const)
        num = SymNum.make(n, 0, False)
        if half is False:
            return num
        if bool(half) and bool(num % 2 == 1):
            return num - 1
        return num

    def to_int(self):
        return self.__trunc__()

    def to_float(self):
        if self.isfloat:
            return self
        return SymNum.fl(self.lin, 0)

    def is_integer(self):
        return self == self.floor()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if self.isfloat:
            raise AttributeError("'float' object has no attribute 'to_bytes'")
        from . import symbytes
        return symbytes.int_to_bytes(self, int(length), byteorder, signed)

    def as_integer_ratio(self):
        if self.isfloat:
            raise Unsupported('the ratio of a symbolic float')
        return (self, 1)

    def bit_count(self):
        return tabulate(lambda v: bin(v).count('1'), self)

    def hex(self):
        return self.concretise().hex()

    def bit_length(self):
        return tabulate(lambda v: v.bit_length(), self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        if self.isfloat:
            raise AttributeError('numerator')
        return self

    @property
    def denominator(self):
        if self.isfloat:
            raise AttributeError('denominator')
        return 1

    def concretise(self):
        """Fork over every value this number can take; returns a Python number."""
        e = eng()
        lin = self.lin if self.eps == 0 else None
        if lin is None or not lin.allint():
            raise Unsupported('a real-valued number is needed concretely')
        lo, hi = self.bounds()
        d = lin.den()
        if (hi - lo) * d > MAXFORK:
            raise Unsupported('a number with a range of %s is needed concretely' % (hi - lo))
        term = lin.scale(d).z3()
        while True:
            if e.pos < len(e.trace):
                # replaying: the recorded condition carries the value
                c = e.trace[e.pos].cond
                v = None
                if z3.is_eq(c):
                    for i in (1, 0):
                        if z3.is_int_value(c.arg(i)):
                            v = c.arg(i).as_long()
                            break
                if v is None:
                    raise Unsupported('concretisation out of step %s' % c)
            else:
                m = e.get_model()
                v = m.eval(term, model_completion=True).as_long()
            if e.branch(term == z3.IntVal(v)):
                f = Fraction(v, d)
                return float(f) if self.isfloat else int(f)

    def __index__(self):
        if self.isfloat:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.concretise()

    def __int__(self):
        v = self.to_int()
        return v.concretise() if type(v) is SymNum else v

    def __float__(self):
        return float(self.concretise())

    # -- text ---------------------------------------------------------------------
    def __repr__(self):
        return token(self, '')

    def __str__(self):
        return token(self, '')

    def __format__(self, spec):
        return token(self, spec)


def nonfinite(v):
    return type(v) is float and (v != v or v in (INF, -INF))


_NATIVE = {SymNum._add: operator.add, SymNum._radd: operator.add, SymNum._sub: operator.sub,
           SymNum._rsub: lambda a, b: b - a, SymNum._mul: operator.mul, SymNum._rmul: operator.mul,
           SymNum._truediv: operator.truediv, SymNum._rtruediv: lambda a, b: b / a,
           '==': operator.eq, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def simp(r):
    if type(r) is SymNum and not r.lin.terms and r.eps == 0:
        return SymNum.make(r.lin, 0, r.isfloat)
    return r


def bitand(a, b):
    if type(a) is not SymNum:
        return b if a else 0
    if type(b) is not SymNum:
        return a if b else 0
    t = z3.If(z3.And(a.lin.z3() == 1, b.lin.z3() == 1), z3.IntVal(1), z3.IntVal(0))
    return SymNum(Lin({make_atom(t, 0, 1): 1}, 0), 0, False)


TABLE_MAX = 1024


def tabulate(f, x):
    """f(x) for a pure function of one symbolic number of small range: a nested
    if-then-else over all its values (each computed by the real function)."""
    if type(x) is not SymNum:
        return f(x)
    if x.eps != 0 or not x.lin.allint():
        raise Unsupported('table over a real-valued number')
    d = x.lin.den()
    lo, hi = x.bounds()
    n0, n1 = int(lo * d), int(hi * d)
    if n1 - n0 > TABLE_MAX:
        raise Unsupported('table over %d values' % (n1 - n0))
    vals = []
    for n in range(n0, n1 + 1):
        v = Fraction(n, d)
        vals.append((n, f(float(v) if x.isfloat else int(v))))
    isf = any(type(v) is float for _, v in vals)
    qs = [Fraction(norm(v)) for _, v in vals]
    if all(q == qs[0] for q in qs):
        return vals[0][1]
    den = 1
    for q in qs:
        den = den * q.denominator // gcd(den, q.denominator)
    term = x.lin.scale(d).z3()
    if den <= 2 ** 60:
        t = z3.IntVal(int(qs[-1] * den))
        for (n, _), q in reversed(list(zip(vals, qs))[:-1]):
            t = z3.If(term <= n, z3.IntVal(int(q * den)), t)
        at = make_atom(t, int(min(qs) * den), int(max(qs) * den))
        return SymNum.make(Lin({at: Fraction(1, den) if den > 1 else 1}, 0), 0, isf)
    t = z3.RealVal('%d/%d' % (qs[-1].numerator, qs[-1].denominator))
    for (n, _), q in reversed(list(zip(vals, qs))[:-1]):
        t = z3.If(term <= n, z3.RealVal('%d/%d' % (q.numerator, q.denominator)), t)
    return SymNum.make(Lin({make_atom(t, min(qs), max(qs), False): 1}, 0), 0, isf)


# -- symbolic numbers inside text -------------------------------------------------
TOK_A, TOK_B = '\ue000', '\ue001'


def fmt_one(v, spec):
    return spec % v if spec[:1] == '%' else format(v, spec)


_CODES = {}


def text_code(num, spec):
    """A number that is the same for two values exactly when they are formatted alike."""
    return tabulate(lambda v: _CODES.setdefault(fmt_one(v, spec), len(_CODES)), num)


def token(num, spec):
    """Text of a symbolic number: a token that stands for str(value)."""
    e = eng()
    k = (num.key(), spec)
    t = e.token_of.get(k)
    if t is None:
        t = '%s%d%s' % (TOK_A, len(e.tokens), TOK_B)
        e.token_of[k] = t
        e.tokens[t] = (num, spec)
    return t


def has_token(s):
    return TOK_A in s


def split_tokens(s):
    """[str | (num, spec)] """
    out = []
    e = eng()
    i = 0
    while True:
        j = s.find(TOK_A, i)
        if j < 0:
            if i < len(s):
                out.append(s[i:])
            return out
        if j > i:
            out.append(s[i:j])
        k = s.index(TOK_B, j)
        out.append(e.tokens[s[j:k + 1]])
        i = k + 1


def str_eq(a, b):
    """Equality of two strings that may hold tokens."""
    if a == b:
        return True
    pa, pb = split_tokens(a), split_tokens(b)
    if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
        conds = []
        for x, y in zip(pa, pb):
            if isinstance(x, str):
                if x != y:
                    return _str_eq_slow(pa, pb)
            else:
                if x[1] not in ('', 'd') or y[1] not in ('', 'd'):
                    if len(pa) > 1 and not (_apart(pa) and _apart(pb)):
                        raise Unsupported('formatted numbers next to each other compared')
                    conds.append(text_code(*x) == text_code(*y))
                    continue
                if x[0].isfloat != y[0].isfloat:
                    return _str_eq_slow(pa, pb)
                conds.append(x[0] == y[0])
        return mk_and(*conds)
    return _str_eq_slow(pa, pb)


def _apart(p):
    """Between any two numbers lies a character that no number's text holds."""
    for i, x in enumerate(p):
        if i and not isinstance(x, str) and i > 1 and (
                not isinstance(p[i - 1], str) or all(c.isalnum() or c in '+-. %,' for c in p[i - 1])):
            return False
    return True


_NUMCHARS = set('0123456789.+-einfa')


def _separated(p):
    """Numbers in the text are kept apart by characters no number contains."""
    for i, x in enumerate(p):
        if not isinstance(x, str):
            if x[1] not in ('', 'd'):
                return False
            if i + 1 < len(p) and (not isinstance(p[i + 1], str) or p[i + 1][0] in _NUMCHARS):
                return False
            if i > 0 and p[i - 1][-1] in _NUMCHARS:
                return False
    return True


def _match(p, s):
    """A text with numbers against a plain one; None when that is not clear cut."""
    if not _separated(p):
        return None
    pat = ''.join(re.escape(x) if isinstance(x, str) else '([0-9.+einfa-]+)' for x in p)
    m = re.fullmatch(pat, s)
    if m is None:
        return False
    conds = []
    for x, t in zip([x for x in p if not isinstance(x, str)], m.groups()):
        try:
            v = float(t) if x[0].isfloat else int(t)
        except ValueError:
            return False
        if str(v) != t or (v != v) or v in (INF, -INF):
            return False
        if v == 0 and x[0].isfloat:
            # 0.0 and -0.0 read differently; an unknown of the harness is never -0.0, nor is a positive multiple of one
            ts = list(x[0].lin.terms.items())
            if len(ts) != 1 or x[0].lin.const != 0 or ts[0][1] <= 0 or ts[0][0].name is None or ts[0][0].lo is None or ts[0][0].lo < 0:
                return None
            if t.startswith('-'):
                return False
        conds.append(x[0] == v)
    return mk_and(*conds)


def _str_eq_slow(pa, pb):
    """Texts of different make-up: compare after fixing the numbers' values."""
    for p, q in ((pa, pb), (pb, pa)):
        if all(isinstance(x, str) for x in q):
            r = _match(p, ''.join(q))
            if r is not None:
                return r
    if len(pa) == len(pb) and _separated(pa) and _separated(pb) and \
            [x if isinstance(x, str) else 0 for x in pa] == [x if isinstance(x, str) else 0 for x in pb]:
        return False              # somewhere an int meets a float
    def flat(p):
        return ''.join(x if isinstance(x, str) else fmt_one(x[0].concretise(), x[1]) for x in p)
    # texts with a different first literal cannot be equal
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return False
    return flat(pa) == flat(pb)


def new_int(name, lo, hi):
    t = z3.Int(name)
    e = eng()
    if lo == hi:
        return lo
    e.assume(z3.And(t >= lo, t <= hi))
    return SymNum(Lin({make_atom(t, lo, hi, name=name): 1}, 0), 0, False)


def new_bool(name):
    return SymBool(z3.Bool(name))


def value_of(v, model):
    """Concrete value of a symbolic scalar in a model (floats: centre of the range)."""
    if type(v) is SymBool:
        return z3.is_true(model.eval(v.t, model_completion=True))
    if type(v) is SymNum:
        s = Fraction(v.lin.const)
        for a, c in v.lin.terms.items():
            x = model.eval(a.term, model_completion=True)
            if z3.is_int_value(x):
                x = Fraction(x.as_long())
            elif z3.is_rational_value(x):
                x = Fraction(x.numerator_as_long(), x.denominator_as_long())
            else:
                x = x.approx(60)
                x = Fraction(x.numerator_as_long(), x.denominator_as_long())
            s += Fraction(c) * x
        return float(s) if v.isfloat else int(s)
    if isinstance(v, str) and has_token(v):
        return ''.join(p if isinstance(p, str) else fmt_one(value_of(p[0], model), p[1]) for p in split_tokens(v))
    return v
