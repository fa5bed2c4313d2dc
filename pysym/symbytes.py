"""Byte strings whose cells may be symbolic, struct.pack / unpack over them, and
an in-memory file system.

A cell is an int 0..255, a symbolic int in 0..255, or a ByteOf: byte k of a value
packed with some format.  Unpacking all bytes of one packed value with the same
format gives the value back; other overlaps are computed arithmetically for
integers and rejected (Unsupported) for floats.
"""
import builtins
import gzip as _gzip
import weakref
import io
import os
import struct as _struct
from fractions import Fraction
from .core import Unsupported
from .nums import SymNum, SymBool, mk_and, truth, has_token, simp

_real_open = builtins.open
_real_gzip_open = _gzip.open

SIZES = {'b': 1, 'B': 1, 'c': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'x': 1}
RANGES = {'b': (-128, 127), 'B': (0, 255), 'h': (-2 ** 15, 2 ** 15 - 1), 'H': (0, 2 ** 16 - 1),
          'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1), 'l': (-2 ** 31, 2 ** 31 - 1), 'L': (0, 2 ** 32 - 1),
          'q': (-2 ** 63, 2 ** 63 - 1), 'Q': (0, 2 ** 64 - 1)}


class ByteOf(object):
    __slots__ = ('v', 'f', 'k')

    def __init__(self, v, f, k):
        self.v = v
        self.f = f
        self.k = k

    def num(self):
        """The byte as a number."""
        if self.f in ('f', 'd'):
            if not isinstance(self.v, (SymNum,)):
                return _struct.pack('<' + self.f, self.v)[self.k]
            v = self.v.concretise()
            return _struct.pack('<' + self.f, v)[self.k]
        return simp((self.v // (1 << (8 * self.k))) % 256)


def cell_num(c):
    return c.num() if type(c) is ByteOf else c


def cell_eq(a, b):
    if type(a) is ByteOf and type(b) is ByteOf and a.f == b.f and a.k == b.k and a.v is b.v:
        return True
    return truth(cell_num(a) == cell_num(b))


class SymBytes(object):
    __slots__ = ('cells',)
    _is_symbytes = True

    def __init__(self, cells):
        self.cells = list(cells)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.cells[i])
        return cell_num(self.cells[i])

    def __iter__(self):
        for c in self.cells:
            yield cell_num(c)

    def __add__(self, o):
        return mkbytes(self.cells + cells_of(o))

    def __radd__(self, o):
        return mkbytes(cells_of(o) + self.cells)

    def __mul__(self, n):
        return mkbytes(self.cells * int(n))

    def eq(self, o):
        oc = cells_of(o)
        if len(oc) != len(self.cells):
            return False
        # whole packed values compare as values
        rs = []
        i = 0
        while i < len(oc):
            a, b = self.cells[i], oc[i]
            if type(a) is ByteOf and type(b) is ByteOf and a.k == 0 and b.k == 0 and a.f == b.f:
                n = SIZES[a.f]
                if i + n <= len(oc) and whole(self.cells[i:i + n]) and whole(oc[i:i + n]):
                    r = truth(a.v == b.v)
                    if r is False:
                        return False
                    rs.append(r)
                    i += n
                    continue
            r = cell_eq(a, b)
            if r is False:
                return False
            rs.append(r)
            i += 1
        return mk_and(*rs)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return self.eq(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        from .nums import sym_not
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        raise TypeError('hash of symbolic bytes')

    def _sym_key(self):
        from .containers import structural
        return tuple((c.f, c.k, structural(c.v)) if type(c) is ByteOf else structural(c) for c in self.cells)

    def __bool__(self):
        return len(self.cells) > 0

    def __contains__(self, x):
        if isinstance(x, int):
            return any(bool(cell_num(c) == x) for c in self.cells)
        xc = cells_of(x)
        for i in range(len(self.cells) - len(xc) + 1):
            if bool(truth(mkbytes(self.cells[i:i + len(xc)]) == mkbytes(xc))):
                return True
        return False

    def startswith(self, p):
        return mkbytes(self.cells[:len(p)]) == p

    def endswith(self, p):
        return mkbytes(self.cells[len(self.cells) - len(p):]) == p

    def find(self, x, start=0):
        xc = cells_of(x) if not isinstance(x, int) else [x]
        for i in range(start, len(self.cells) - len(xc) + 1):
            if bool(truth(mkbytes(self.cells[i:i + len(xc)]) == mkbytes(xc))):
                return i
        return -1

    def index(self, x, start=0):
        r = self.find(x, start)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rstrip(self, chars=b' \t\n\r\x0b\x0c'):
        cs = list(self.cells)
        while cs and any(bool(cell_num(cs[-1]) == c) for c in chars):
            cs.pop()
        return mkbytes(cs)

    def strip(self, chars=b' \t\n\r\x0b\x0c'):
        cs = cells_of(self.rstrip(chars))
        while cs and any(bool(cell_num(cs[0]) == c) for c in chars):
            cs.pop(0)
        return mkbytes(cs)

    def split(self, sep, maxsplit=-1):
        out = []
        cur = self
        while maxsplit != 0:
            i = cur.find(sep) if type(cur) is SymBytes else bytes(cur).find(sep)
            if i < 0:
                break
            out.append(cur[:i])
            cur = cur[i + len(sep):]
            maxsplit -= 1
        out.append(cur)
        return out

    def ljust(self, n, fill=b' '):
        return mkbytes(self.cells + list(fill) * max(0, n - len(self.cells)))

    def decode(self, encoding='utf-8', errors='strict'):
        return SymText.decode(self, encoding)

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.cells
            out += cells_of(p)
        return mkbytes(out)

    def tobytes(self):
        return mkbytes(self.cells)

    def hex(self, *a):
        return ''.join(format(c, '02x') for c in self)

    def rjust(self, n, fill=b' '):
        return mkbytes(list(fill) * max(0, n - len(self.cells)) + self.cells)

    def count(self, x):
        n, i = 0, 0
        xc = mkbytes([x] if isinstance(x, int) else cells_of(x))
        while True:
            i = self.find(xc, i)
            if i < 0:
                return n
            n += 1
            i += len(xc)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mkbytes(self.cells), b'', b'')
        return (self[:i], sep, self[i + len(sep):])

    def lstrip(self, chars=b' \t\n\r\x0b\x0c'):
        cs = list(self.cells)
        while cs and any(bool(cell_num(cs[0]) == c) for c in chars):
            cs.pop(0)
        return mkbytes(cs)

    def replace(self, a, b):
        if len(a) != 1:
            raise Unsupported('replacing in symbolic bytes')
        out = []
        for c in self.cells:
            out += cells_of(b) if bool(cell_num(c) == a[0]) else [c]
        return mkbytes(out)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'b<%d symbolic bytes>' % len(self.cells)


def byte_cell(v):
    if isinstance(v, float) or not hasattr(v, '__index__'):
        raise TypeError("'%s' object cannot be interpreted as an integer" % v.__class__.__name__)
    if type(v) is SymBool:
        v = v.as_num()
    if type(v) is SymNum:
        if not bool(v >= 0) or not bool(v <= 255):
            raise ValueError('byte must be in range(0, 256)')
        return v
    return bytearray([v])[0]


class SymByteArray(SymBytes):
    """A bytearray."""
    __slots__ = ()

    @property
    def __class__(self):
        return bytearray

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymByteArray(self.cells[i])
        return cell_num(self.cells[i])

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.cells[i] = cells_of(v) if isinstance(v, (bytes, bytearray)) else [byte_cell(x) for x in v]
        else:
            self.cells[i] = byte_cell(v)

    def __delitem__(self, i):
        del self.cells[i]

    def append(self, v):
        self.cells.append(byte_cell(v))

    def extend(self, it):
        self.cells += cells_of(it) if isinstance(it, (bytes, bytearray)) else [byte_cell(x) for x in it]

    def __iadd__(self, o):
        self.cells += cells_of(o)
        return self

    def __add__(self, o):
        return SymByteArray(self.cells + cells_of(o))

    def __mul__(self, n):
        return SymByteArray(self.cells * int(n))

    def insert(self, i, v):
        self.cells.insert(i, byte_cell(v))

    def pop(self, i=-1):
        return cell_num(self.cells.pop(i))

    def clear(self):
        del self.cells[:]

    def reverse(self):
        self.cells.reverse()

    def copy(self):
        return SymByteArray(self.cells)

    def __copy__(self):
        return SymByteArray(self.cells)

    def __deepcopy__(self, memo):
        return SymByteArray(self.cells)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")


def whole(cells):
    c = cells[0]
    return all(type(x) is ByteOf and x.k == i and x.f == c.f and (x.v is c.v) for i, x in enumerate(cells)) \
        and len(cells) == SIZES[c.f]


def mkbytes(cells):
    out = []
    for c in cells:
        if type(c) is not int:
            return SymBytes(cells)
        out.append(c)
    return bytes(out)


def cells_of(b):
    if type(b) is SymBytes or type(b) is SymByteArray:
        return list(b.cells)
    if isinstance(b, (bytes, bytearray, memoryview)):
        return list(bytes(b))
    raise TypeError('a bytes-like object is required, not %r' % type(b).__name__)


class SymText(object):
    """Text with symbolic code points (from chr() or decode())."""
    __slots__ = ('pts',)

    def __init__(self, pts):
        self.pts = list(pts)

    @property
    def __class__(self):
        return str

    @staticmethod
    def make(pts):
        if all(type(p) is int for p in pts):
            return ''.join(map(chr, pts))
        return SymText(pts)

    @staticmethod
    def decode(b, encoding):
        enc = encoding.lower().replace('-', '').replace('_', '')
        pts = []
        cs = [cell_num(c) for c in cells_of(b)]
        if enc in ('latin1', 'iso88591'):
            return SymText.make(cs)
        if enc not in ('utf8', 'ascii'):
            raise Unsupported('decode with ' + encoding)
        for c in cs:
            if type(c) is int and c < 128:
                pts.append(c)
            elif bool(c < 128):
                pts.append(c)
            elif enc == 'ascii':
                raise UnicodeDecodeError('ascii', b'', 0, 1, 'ordinal not in range(128)')
            else:
                raise Unsupported('decoding bytes above 127')
        return SymText.make(pts)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        out = []
        for p in self.pts:
            if bool(p < 128):
                out.append(p)
            elif enc in ('latin1', 'iso88591'):
                if bool(p < 256):
                    out.append(p)
                else:
                    raise UnicodeEncodeError('latin-1', '?', 0, 1, 'ordinal not in range(256)')
            elif enc == 'ascii':
                raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
            elif bool(p < 0x800):
                out += [0xC0 + p // 64, 0x80 + p % 64]
            else:
                raise Unsupported('encoding code points above 0x7ff')
        return mkbytes([simp(c) for c in out])

    def __len__(self):
        return len(self.pts)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymText.make(self.pts[i])
        return SymText.make([self.pts[i]])

    def __iter__(self):
        for p in self.pts:
            yield SymText.make([p])

    def __add__(self, o):
        return SymText.make(self.pts + pts_of(o))

    def __radd__(self, o):
        return SymText.make(pts_of(o) + self.pts)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        op = pts_of(o)
        if len(op) != len(self.pts):
            return False
        return mk_and(*[truth(a == b) for a, b in zip(self.pts, op)])

    def __ne__(self, o):
        r = self.__eq__(o)
        from .nums import sym_not
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        raise TypeError('hash of symbolic text')

    def _sym_key(self):
        from .containers import structural
        return tuple(structural(c) for c in self.pts)

    def __bool__(self):
        return len(self.pts) > 0

    def __deepcopy__(self, memo):
        return self

    def _fork(self):
        return ''.join(chr(p if type(p) is int else p.concretise()) for p in self.pts)

    def lower(self):
        return self._fork().lower()

    def upper(self):
        return self._fork().upper()

    def __str__(self):
        return self._fork()

    def __repr__(self):
        return repr(self._fork())

    def __format__(self, spec):
        return format(self._fork(), spec)


def pts_of(s):
    if type(s) is SymText:
        return list(s.pts)
    if isinstance(s, str):
        if has_token(s):
            raise Unsupported('text of a symbolic number joined to symbolic text')
        return [ord(c) for c in s]
    raise TypeError('not text')


# -- struct -------------------------------------------------------------------

INT_CODES = {(1, True): 'b', (1, False): 'B', (2, True): 'h', (2, False): 'H', (4, True): 'i', (4, False): 'I',
             (8, True): 'q', (8, False): 'Q'}


def int_to_bytes(v, n, order, signed):
    if order not in ('little', 'big'):
        raise ValueError("byteorder must be either 'little' or 'big'")
    lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed and n else (0, (1 << 8 * n) - 1)
    if not signed and not bool(v >= 0):
        raise OverflowError("can't convert negative int to unsigned")
    if not bool(v >= lo) or not bool(v <= hi):
        raise OverflowError('int too big to convert')
    code = INT_CODES.get((n, bool(signed)))
    if code:
        cells = pack_one(code, v)
    else:
        cells = [simp((v // (1 << (8 * k))) % 256) for k in range(n)]
    return mkbytes(cells if order == 'little' else cells[::-1])


def int_from_bytes(b, order, signed):
    cs = cells_of(b)
    if order == 'big':
        cs = cs[::-1]
    code = INT_CODES.get((len(cs), bool(signed)))
    if code:
        return unpack_one(code, cs)
    r = 0
    for i, c in enumerate(cs):
        r = r + cell_num(c) * (1 << (8 * i))
    if signed and cs and bool(r >= 1 << (8 * len(cs) - 1)):
        r = r - (1 << (8 * len(cs)))
    return simp(r)


def parse_fmt(fmt):
    """[(count, code)], little endian; native alignment of '@' is applied as pad bytes."""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    fmt = fmt.replace(' ', '')
    native = True
    if fmt and fmt[0] in '<=@>!':
        native = fmt[0] == '@'
        fmt = fmt[1:]
    out = []
    n = ''
    off = 0
    for ch in fmt:
        if ch.isdigit():
            n += ch
            continue
        cnt = int(n) if n else 1
        explicit = bool(n)
        n = ''
        if ch == 's':
            out.append(('s', cnt))
            off += cnt
            continue
        if ch not in SIZES:
            raise _struct.error('bad char in struct format')
        size = 8 if native and ch in 'lL' else SIZES[ch]
        code = {'l': 'q', 'L': 'Q'}.get(ch, ch) if native else ch
        if native and off % size:
            pad = size - off % size
            out.append(('pad', pad))
            off += pad
        for _ in range(cnt):
            out.append(('pad', 1) if ch == 'x' else (code, size))
            off += size
    return out


def big_endian(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    return fmt.strip()[:1] in ('>', '!') and fmt.strip() != ''


def calcsize(fmt):
    return sum(n for _, n in parse_fmt(fmt))


def in_f32(v):
    """Is this exact symbolic float representable as a float32 for all its values?"""
    if v.eps != 0 or not v.lin.allint():
        return False
    d = v.lin.den()
    if d & (d - 1):
        return False
    g = 0
    from math import gcd
    for c in v.lin.terms.values():
        g = gcd(g, int(c * d))
    k = int(v.lin.const * d)
    g = gcd(g, k) if k else g
    p = 1
    while g % (2 * p) == 0:
        p *= 2
    return v.mag() * d / p <= 2 ** 24 and d <= 2 ** 100


def pack_one(code, v):
    if code in ('f', 'd'):
        if isinstance(v, str) or v is None or not isinstance(v, (int, float)):
            raise _struct.error('required argument is not a float')
        if type(v) is SymBool:
            v = v.as_num()
        if type(v) is not SymNum:
            return list(_struct.pack('<' + code, v))
        v = v.to_float()
        if type(v) is not SymNum:
            return list(_struct.pack('<' + code, v))
        if code == 'f' and not in_f32(v):
            raise Unsupported('rounding of a symbolic number to float32')
        return [ByteOf(v, code, k) for k in range(SIZES[code])]
    if code == 'c':
        if not isinstance(v, bytes) or len(v) != 1:
            raise _struct.error('char format requires a bytes object of length 1')
        return cells_of(v)
    if code == '?':
        return [1 if v else 0]
    if isinstance(v, float) or not isinstance(v, int):
        if isinstance(v, float) or not hasattr(v, '__index__'):
            raise _struct.error('required argument is not an integer')
    if type(v) is SymBool:
        v = v.as_num()
    if type(v) is not SymNum:
        return list(_struct.pack('<' + code, v))
    lo, hi = RANGES[code]
    if not bool(v >= lo) or not bool(v <= hi):
        raise _struct.error("'%s' format requires %d <= number <= %d" % (code, lo, hi))
    if SIZES[code] == 1 and lo == 0:
        return [v]
    return [ByteOf(v, code, k) for k in range(SIZES[code])]


def pack(fmt, *args):
    items = parse_fmt(fmt)
    big = big_endian(fmt)
    out = []
    args = list(args)
    want = sum(1 for c, _ in items if c != 'pad')
    if want != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (want, len(args)))
    for code, n in items:
        if code == 'pad':
            out += [0] * n
            continue
        v = args.pop(0)
        if code == 's':
            if not isinstance(v, (bytes, bytearray)):
                raise _struct.error("argument for 's' must be a bytes object")
            cs = cells_of(v)[:n]
            out += cs + [0] * (n - len(cs))
        elif big:
            out += pack_one(code, v)[::-1]
        else:
            out += pack_one(code, v)
    return mkbytes(out)


def unpack_one(code, cells):
    if all(type(c) is int for c in cells):
        return _struct.unpack('<' + code, bytes(cells))[0]
    if code == 'c':
        return mkbytes(cells)
    c0 = cells[0]
    if type(c0) is ByteOf and c0.f == code and whole(cells):
        return c0.v
    if code in ('f', 'd'):
        raise Unsupported('a float read from unrelated symbolic bytes')
    if type(c0) is ByteOf and whole_int(cells) and RANGES.get(c0.f) and RANGES.get(code) and SIZES[c0.f] == SIZES[code]:
        v = c0.v
        lo, hi = RANGES[code]
        m = 1 << (8 * SIZES[code])
        if lo < 0:
            return simp(v if bool(v <= hi) else v - m)
        return simp(v if bool(v >= 0) else v + m)
    r = 0
    for i, c in enumerate(cells):
        r = r + cell_num(c) * (1 << (8 * i))
    lo, hi = RANGES[code]
    if lo < 0 and not (type(r) is int and r <= hi) and not bool(r <= hi):
        r = r - (1 << (8 * len(cells)))
    return simp(r)


def whole_int(cells):
    c = cells[0]
    return c.f in RANGES and all(type(x) is ByteOf and x.k == i and x.v is c.v and x.f == c.f
                                 for i, x in enumerate(cells)) and len(cells) == SIZES[c.f]


def unpack(fmt, b):
    items = parse_fmt(fmt)
    big = big_endian(fmt)
    need = sum(n for _, n in items)
    cs = cells_of(b)
    if len(cs) != need:
        raise _struct.error('unpack requires a buffer of %d bytes' % need)
    out = []
    i = 0
    for code, n in items:
        part = cs[i:i + n]
        i += n
        if code == 'pad':
            continue
        if code == 's':
            out.append(mkbytes(part))
        else:
            out.append(unpack_one(code, part[::-1] if big else part))
    return tuple(out)


def unpack_from(fmt, b, offset=0):
    n = calcsize(fmt)
    cs = cells_of(b)[offset:offset + n]
    if len(cs) < n:
        raise _struct.error('unpack_from requires a buffer of at least %d bytes' % n)
    return unpack(fmt, mkbytes(cs))


def iter_unpack(fmt, b):
    n = calcsize(fmt)
    cs = cells_of(b)
    if not n or len(cs) % n:
        raise _struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    return iter([unpack(fmt, mkbytes(cs[i:i + n])) for i in range(0, len(cs), n)])


def pack_into(fmt, buf, offset, *args):
    if type(buf) is not SymByteArray:
        if isinstance(buf, bytearray):
            return _struct.pack_into(fmt, buf, offset, *args)
        raise TypeError('argument must be read-write bytes-like object')
    cs = cells_of(pack(fmt, *args))
    if offset < 0:
        offset += len(buf)
    if offset < 0 or offset + len(cs) > len(buf):
        raise _struct.error('pack_into requires a buffer of at least %d bytes' % (offset + len(cs)))
    buf.cells[offset:offset + len(cs)] = cs


def size_of(fmt):
    return calcsize(fmt)


class SymStruct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = calcsize(fmt)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        return iter_unpack(self.format, b)

    def pack_into(self, buf, offset, *a):
        return pack_into(self.format, buf, offset, *a)


# -- files ----------------------------------------------------------------------
ROOT = '/symfs/'


class FS(object):
    """Files under /symfs/ live here; reading other files goes to the real ones."""

    def __init__(self):
        self.files = {}      # path -> (cells or text parts, gz)
        self.open_count = 0
        self.dirs = {ROOT.rstrip('/')}

    def exists(self, p):
        return p in self.files or p.rstrip('/') in self.dirs

    def write_bytes(self, path, b, gz=False):
        self.files[path] = [cells_of(b), gz, False]

    def read_bytes(self, path):
        f = self.files[path]
        if f[2]:
            raise Unsupported('text file read as bytes')
        return mkbytes(f[0])


OPEN = weakref.WeakSet()


class SymFile(object):
    """A file handle of the in-memory file system; written data reaches the file
    on close() or flush() (and on deallocation, as CPython does)."""
    raw = False

    def __init__(self, fs, path, mode, gz=False):
        self.fs = fs
        self.name = path
        self.mode = mode
        self.gz = gz
        self.closed = False
        self.text = 'b' not in mode and not gz
        self.pos = 0
        self.buf = []
        fs.open_count += 1
        OPEN.add(self)
        if 'r' in mode and 'w' not in mode:
            if path not in fs.files:
                raise FileNotFoundError(2, 'No such file or directory', path)
            data, fgz, ftext = fs.files[path]
            if gz and not fgz:
                raise _gzip.BadGzipFile('Not a gzipped file')
            self.raw = fgz and not gz
            self.data = list(data)
            self.reading = True
        else:
            self.reading = False
            old = fs.files.get(path)
            self.data = list(old[0]) if 'a' in mode and old else []
            fs.files[path] = [list(self.data), gz, self.text]

    def write(self, b):
        if self.closed:
            raise ValueError('write() on closed file')
        if self.reading:
            raise io.UnsupportedOperation('not writable')
        if self.text:
            if not isinstance(b, str):
                raise TypeError('write() argument must be str')
            self.buf.append(b)
            return len(b)
        cs = cells_of(b)
        self.buf += cs
        return len(cs)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def tell(self):
        return self.pos if self.reading else len(self.data) + len(self.buf)

    def seek(self, off, whence=0):
        if not self.reading:
            raise Unsupported('seek while writing')
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def read(self, n=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if self.raw:
            raise Unsupported('reading compressed bytes of a symbolic file')
        if n is None or n < 0:
            n = len(self.data) - self.pos
        part = self.data[self.pos:self.pos + n]
        self.pos += len(part)
        if self.text:
            return ''.join(part)
        return mkbytes(part)

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def flush(self):
        if not self.reading and self.buf:
            self.data += self.buf
            self.buf = []
            self.fs.files[self.name] = [list(self.data), self.gz, self.text]

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True
            self.fs.open_count -= 1

    def readable(self):
        return self.reading

    def writable(self):
        return not self.reading

    def seekable(self):
        return self.reading

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        # a GzipFile is part of a reference cycle in CPython 3.12: dropping the
        # last name does not write its buffers out
        if self.gz and not self.reading:
            return
        try:
            self.close()
        except BaseException:
            pass

    def __deepcopy__(self, memo):
        raise TypeError('cannot pickle a file')


class SymBytesIO(SymFile):
    def __init__(self, initial=b''):
        self.closed = False
        self.text = False
        self.reading = True
        self.data = cells_of(initial)
        self.pos = 0
        self.buf = []
        self.mode = 'rb+'
        self.name = None

    def write(self, b):
        cs = cells_of(b)
        self.data[self.pos:self.pos + len(cs)] = cs
        self.pos += len(cs)
        return len(cs)

    def getvalue(self):
        return mkbytes(self.data)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __del__(self):
        pass
