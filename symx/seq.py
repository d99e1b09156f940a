"""Symbolic byte strings, byte arrays, text and byte streams.

Lengths are concrete on every path; elements are ints or SymInts.  A result without symbolic elements becomes a real
bytes / str object again; byte arrays stay stand-ins because they are mutable.
"""
import z3
from . import core
from .core import SymInt, SymBool, SymNum, SymFloat, mk, mkb, conc, low_bits, i_cmp, b_and, b_or, b_not, ite

WS = b' \t\n\r\x0b\x0c'
STR_WS = frozenset(c for c in range(0x3001) if chr(c).isspace())


def raw8(x):
    if type(x) is SymInt:
        t = x.t
        if t.size() == 9 and t.decl().kind() == z3.Z3_OP_ZERO_EXT and t.arg(0).size() == 8:
            return t.arg(0)
        return low_bits(x, 8)
    return z3.BitVecVal(x, 8)


def byte_of(t8):
    t8 = z3.simplify(t8)
    if z3.is_bv_value(t8):
        return t8.as_long()
    return SymInt(z3.ZeroExt(1, t8), 0, 255)


def norm8(x):
    """A byte element in its canonical form; checks the range."""
    if type(x) is SymBool:
        x = x.as_int()
    if type(x) is SymInt:
        if x.lo < 0 or x.hi > 255:
            if not bool(b_and(x >= 0, x <= 255)):
                raise ValueError("byte must be in range(0, 256)")
        t = x.t
        if t.size() == 9 and t.decl().kind() == z3.Z3_OP_ZERO_EXT and t.arg(0).size() == 8:
            return x
        return byte_of(low_bits(x, 8))
    if hasattr(type(x), '__index__'):
        x = x.__index__()
        if 0 <= x <= 255:
            return x
        raise ValueError("byte must be in range(0, 256)")
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)


def int_to_bytes(x, n):
    """Little-endian elements of the n low bytes of an int-like."""
    if type(x) is not SymInt:
        return [(x >> (8 * i)) & 255 for i in range(n)]
    t = low_bits(x, 8 * n) if n else None
    return [byte_of(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(n)]


def bytes_to_int(e, signed=False):
    """Little-endian elements -> int-like."""
    if not e:
        return 0
    if all(type(b) is int for b in e):
        return int.from_bytes(bytes(e), 'little', signed=signed)
    ts = [raw8(b) for b in reversed(e)]
    t = z3.simplify(z3.Concat(*ts)) if len(ts) > 1 else ts[0]
    return core.from_signed(t) if signed else core.from_unsigned(t)


def mk_bytes(e):
    e = list(e)
    for x in e:
        if type(x) is not int:
            return SymBytes(e)
    return bytes(e)


def mk_str(e):
    e = list(e)
    for x in e:
        if type(x) is not int:
            return SymStr(e)
    return ''.join(map(chr, e))


def elems(x, strict=True):
    """Elements of a bytes-like object (None if it is not one)."""
    t = type(x)
    if t is SymBytes or t is SymByteArray:
        return x.e
    if t in (bytes, bytearray):
        return list(x)
    if t is SymMemoryView:
        return x.e
    if isinstance(x, (bytes, bytearray, memoryview)) and not core.is_sym(x):
        return list(x)
    return None


def eq_elems(a, b):
    if len(a) != len(b):
        return False
    return b_and(*[x if isinstance(x, bool) else x for x in (_eq1(p, q) for p, q in zip(a, b))])


def _eq1(p, q):
    if type(p) is int and type(q) is int:
        return p == q
    return i_cmp('eq', p, q)


def lt_elems(a, b, or_eq):
    """Lexicographic comparison without forking."""
    n = min(len(a), len(b))
    r = (len(a) < len(b)) or (or_eq and len(a) == len(b))
    for i in reversed(range(n)):
        lt, eq = i_cmp('lt', a[i], b[i]) if not (type(a[i]) is int and type(b[i]) is int) else a[i] < b[i], _eq1(a[i], b[i])
        r = b_or(lt, b_and(eq, r))
    return r


def clip_index(i, n):
    """slice bound -> concrete int in 0..n"""
    if type(i) is SymBool:
        i = i.as_int()
    if type(i) is SymInt:
        if i.lo < 0:
            i = ite(i < 0, ite(i + n < 0, 0, i + n), i)
        if type(i) is SymInt and i.hi > n:
            i = ite(i > n, n, i)
        return conc(i)
    return i


def conc_slice(s, n):
    if type(s.start) is int or s.start is None:
        if type(s.stop) is int or s.stop is None:
            if type(s.step) is int or s.step is None:
                return s
    step = conc(s.step) if s.step is not None else None
    if step is not None and step < 0:
        return slice(conc(s.start), conc(s.stop), step)
    for x in (s.start, s.stop):
        if x is not None and not hasattr(type(x), '__index__'):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
    return slice(clip_index(s.start, n) if s.start is not None else None,
                 clip_index(s.stop, n) if s.stop is not None else None, step)


def sym_index(e, i, what):
    """e[i] for a SymInt i: a chain of Ifs over the elements."""
    n = len(e)
    if not bool(b_and(i >= -n, i < n)):
        raise IndexError("%s index out of range" % what)
    if i.lo < 0:
        i = ite(i < 0, i + n, i)
    if type(i) is int:
        return e[i]
    lo, hi = max(0, i.lo), min(n - 1, i.hi)
    r = e[hi]
    for k in range(hi - 1, lo - 1, -1):
        r = ite(i == k, e[k], r)
    return r


class _Seq(object):
    __slots__ = ()

    def __len__(self):
        return len(self.e)

    def __iter__(self):
        i = 0
        while i < len(self.e):
            yield self._one(self.e[i])
            i += 1

    def __reversed__(self):
        for x in reversed(list(self.e)):
            yield self._one(x)

    def _one(self, x):
        return x

    def __bool__(self):
        return bool(self.e)

    def _key(self, k):
        if isinstance(k, slice):
            return conc_slice(k, len(self.e))
        if type(k) is SymBool:
            return k.as_int()
        if type(k) is int or type(k) is SymInt:
            return k
        if hasattr(type(k), '__index__'):
            return k.__index__()
        raise TypeError("%s indices must be integers or slices, not %s" % (self._name, k.__class__.__name__))

    def __getitem__(self, k):
        k = self._key(k)
        if type(k) is slice:
            return self._mk(self.e[k])
        if type(k) is SymInt:
            return self._one(sym_index(self.e, k, self._name))
        try:
            return self._one(self.e[k])
        except IndexError:
            raise IndexError("%s index out of range" % self._name)

    def __eq__(self, o):
        e = self._other(o)
        if e is None:
            return NotImplemented
        return eq_elems(self.e, e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def _order(swap, or_eq):
        def f(self, o):
            e = self._other(o)
            if e is None:
                return NotImplemented
            return lt_elems(e, self.e, or_eq) if swap else lt_elems(self.e, e, or_eq)
        return f
    __lt__ = _order(False, False)
    __le__ = _order(False, True)
    __gt__ = _order(True, False)
    __ge__ = _order(True, True)

    def __add__(self, o):
        e = self._other(o)
        if e is None:
            return NotImplemented
        return self._mk(self.e + e)

    def __mul__(self, n):
        if not (type(n) is int or type(n) in (SymInt, SymBool) or hasattr(type(n), '__index__')):
            return NotImplemented
        n = conc(n) if core.is_sym(n) else n.__index__()
        return self._mk(self.e * n)
    __rmul__ = __mul__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- searching
    def _sub(self, x):
        e = self._other(x)
        if e is None:
            raise TypeError("argument should be %s, not %s" % (self._name, type(x).__name__))
        return e

    def _range(self, start, end):
        n = len(self.e)
        s = conc_slice(slice(start, end), n)
        a, b, _ = s.indices(n)
        return a, b

    def find(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._range(start, end)
        for i in range(a, b - len(sub) + 1):
            if eq_elems(self.e[i:i + len(sub)], sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._range(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if eq_elems(self.e[i:i + len(sub)], sub):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = self._sub(sub)
        a, b = self._range(start, end)
        if not sub:
            return max(0, b - a + 1)
        n, i = 0, a
        while i + len(sub) <= b:
            if eq_elems(self.e[i:i + len(sub)], sub):
                n, i = n + 1, i + len(sub)
            else:
                i += 1
        return n

    def __contains__(self, x):
        sub = self._sub(x)
        return bool(b_or(*[eq_elems(self.e[i:i + len(sub)], sub) for i in range(len(self.e) - len(sub) + 1)]))

    def _fix(self, x, start, end, at_end):
        xs = x if isinstance(x, tuple) else (x,)
        a, b = self._range(start, end)
        part = self.e[a:b]
        r = []
        for y in xs:
            y = self._other(y)
            if y is None:
                raise TypeError("%s first arg must be bytes or a tuple of bytes" % ('endswith' if at_end else 'startswith'))
            r.append(len(y) <= len(part) and eq_elems(part[len(part) - len(y):] if at_end else part[:len(y)], y))
        return b_or(*r)

    def startswith(self, x, start=None, end=None):
        return self._fix(x, start, end, False)

    def endswith(self, x, start=None, end=None):
        return self._fix(x, start, end, True)

    def removeprefix(self, x):
        e = self._other(x)
        return self._mk(self.e[len(e):]) if bool(self._fix(x, None, None, False)) else self._mk(list(self.e))

    def removesuffix(self, x):
        e = self._other(x)
        return self._mk(self.e[:len(self.e) - len(e)]) if e and bool(self._fix(x, None, None, True)) else self._mk(list(self.e))

    # -- stripping and padding
    def _in(self, x, chars):
        return b_or(*[_eq1(x, c) for c in chars])

    def _strip_chars(self, chars):
        if chars is None:
            return self._ws
        e = self._other(chars)
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % chars.__class__.__name__)
        return e

    def rstrip(self, chars=None):
        chars = self._strip_chars(chars)
        n = len(self.e)
        while n and bool(self._in(self.e[n - 1], chars)):
            n -= 1
        return self._mk(self.e[:n])

    def lstrip(self, chars=None):
        chars = self._strip_chars(chars)
        n = 0
        while n < len(self.e) and bool(self._in(self.e[n], chars)):
            n += 1
        return self._mk(self.e[n:])

    def strip(self, chars=None):
        return self.rstrip(chars).lstrip(chars)

    def _fill(self, c):
        e = self._other(c)
        if e is None or len(e) != 1:
            raise TypeError("The fill character must be exactly one character long")
        return e

    def ljust(self, n, fill=None):
        fill = self._fill(fill) if fill is not None else [32]
        return self._mk(self.e + fill * max(0, conc(n) - len(self.e)))

    def rjust(self, n, fill=None):
        fill = self._fill(fill) if fill is not None else [32]
        return self._mk(fill * max(0, conc(n) - len(self.e)) + self.e)

    def center(self, n, fill=None):
        fill = self._fill(fill) if fill is not None else [32]
        n = conc(n)
        pad = max(0, n - len(self.e))
        left = pad // 2 + (pad & n & 1)
        return self._mk(fill * left + self.e + fill * (pad - left))

    def zfill(self, n):
        n = conc(n)
        pad = max(0, n - len(self.e))
        if not pad:
            return self._mk(list(self.e))
        if self.e and bool(self._in(self.e[0], (43, 45))):
            return self._mk(self.e[:1] + [48] * pad + self.e[1:])
        return self._mk([48] * pad + self.e)

    def join(self, it):
        r, first = [], True
        for x in it:
            e = self._other(x)
            if e is None:
                raise TypeError("sequence item: expected %s instance, %s found" % (self._name, x.__class__.__name__))
            if not first:
                r.extend(self.e)
            first = False
            r.extend(e)
        return self._mk(r)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._native('split', sep, maxsplit)
        s = self._other(sep)
        if not s:
            raise ValueError("empty separator")
        r, i, cur = [], 0, 0
        while i + len(s) <= len(self.e):
            if maxsplit != 0 and bool(eq_elems(self.e[i:i + len(s)], s)):
                r.append(self._mk(self.e[cur:i]))
                i += len(s)
                cur = i
                maxsplit -= 1
            else:
                i += 1
        r.append(self._mk(self.e[cur:]))
        return r

    def partition(self, sep):
        s = self._other(sep)
        if not s:
            raise ValueError("empty separator")
        i = self.find(sep)
        if i < 0:
            return self._mk(list(self.e)), self._mk([]), self._mk([])
        return self._mk(self.e[:i]), self._mk(list(s)), self._mk(self.e[i + len(s):])

    def rpartition(self, sep):
        s = self._other(sep)
        if not s:
            raise ValueError("empty separator")
        i = self.rfind(sep)
        if i < 0:
            return self._mk([]), self._mk([]), self._mk(list(self.e))
        return self._mk(self.e[:i]), self._mk(list(s)), self._mk(self.e[i + len(s):])

    def replace(self, old, new, count=-1):
        o, n = self._other(old), self._other(new)
        if not o:
            return self._native('replace', old, new, count)
        r, i = [], 0
        while i < len(self.e):
            if count != 0 and i + len(o) <= len(self.e) and bool(eq_elems(self.e[i:i + len(o)], o)):
                r.extend(n)
                i += len(o)
                count -= 1
            else:
                r.append(self.e[i])
                i += 1
        return self._mk(r)

    def _native(self, name, *a):
        return getattr(self._sx_concrete(), name)(*[conc(x) for x in a])

    def __hash__(self):
        return hash(self._sx_concrete())

    def __str__(self):
        if core.E is not None and not core.E.peek and type(self) is not SymStr:
            core.E.approximate('formatting of symbolic bytes')
        return str(self._peeked())

    def __repr__(self):
        if core.E is not None and not core.E.peek:
            core.E.approximate('formatting of symbolic bytes')
        return repr(self._peeked())

    def __format__(self, spec):
        return format(self._peeked(), spec)

    def _peeked(self):
        E = core.E
        if E is None:
            return self._real([0 if type(x) is not int else x for x in self.e])
        E.peek += 1
        try:
            return self._sx_concrete()
        finally:
            E.peek -= 1

    def _sx_concrete(self):
        return self._real([conc(x) for x in self.e])


class _Bytes(_Seq):
    __slots__ = ()
    _ws = list(WS)

    def _other(self, o):
        return elems(o)

    def _sub(self, x):
        e = elems(x)
        if e is None:
            if type(x) in (int, SymInt, bool, SymBool):
                return [norm8(x)]
            raise TypeError("argument should be integer or bytes-like object, not '%s'" % x.__class__.__name__)
        return e

    def decode(self, encoding='utf-8', errors='strict'):
        name = _codec(encoding)
        e = self.e
        if errors != 'strict' or name is None:
            return self._native('decode', encoding, errors)
        if name == 'latin-1':
            return mk_str(e)
        if name == 'ascii':
            for x in e:
                if type(x) is SymInt and x.hi < 128:
                    continue
                if bool(x >= 128):
                    raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range(128)')
            return mk_str(e)
        if name.startswith('utf-16') or name.startswith('utf-32'):
            w = 2 if '16' in name else 4
            big = name.endswith('be')
            if not (big or name.endswith('le')):
                return self._native('decode', encoding)
            if len(e) % w:
                raise UnicodeDecodeError(name, b'?', 0, 1, 'truncated data')
            r = []
            for i in range(0, len(e), w):
                u = bytes_to_int(list(reversed(e[i:i + w])) if big else e[i:i + w])
                if bool(b_and(u >= 0xd800, u < 0xe000)) or (w == 4 and bool(u > 0x10ffff)):
                    return self._native('decode', encoding)
                r.append(u)
            return mk_str(r)
        r, i = [], 0

        def bad():
            raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid byte')
        while i < len(e):
            b = e[i]
            if bool(b < 0x80):
                r.append(b)
                i += 1
                continue
            if bool(b < 0xc2) or bool(b > 0xf4):
                bad()
            n = 2 if bool(b < 0xe0) else 3 if bool(b < 0xf0) else 4
            if i + n > len(e):
                bad()
            u = b & (0x1f, 0x0f, 0x07)[n - 2]
            for j in range(1, n):
                c = e[i + j]
                if not bool((c & 0xc0) == 0x80):
                    bad()
                u = (u << 6) | (c & 0x3f)
            if n == 3 and (bool(u < 0x800) or bool(b_and(u >= 0xd800, u < 0xe000))):
                bad()
            if n == 4 and (bool(u < 0x10000) or bool(u > 0x10ffff)):
                bad()
            r.append(u)
            i += n
        return mk_str(r)

    def hex(self, *a):
        if a:
            return self._native('hex', *a)
        r = []
        for b in self.e:
            for d in (b >> 4, b & 15):
                r.append(ite(d < 10, d + 48, d + 87))
        return mk_str(r)

    def _case(lo, hi, d):
        def f(self):
            return self._mk([norm8(ite(b_and(x >= lo, x <= hi), x + d, x)) for x in self.e])
        return f
    lower = _case(65, 90, 32)
    upper = _case(97, 122, -32)

    def translate(self, table, delete=b''):
        t = elems(table) if table is not None else list(range(256))
        d = elems(delete)
        r = []
        for x in self.e:
            if d and bool(self._in(x, d)):
                continue
            r.append(t[x] if type(x) is int else sym_index(t, x, 'table'))
        return self._mk(r)

    def __radd__(self, o):
        e = elems(o)
        if e is None:
            return NotImplemented
        return SymByteArray(e + self.e) if o.__class__ is bytearray else mk_bytes(e + self.e)

    def __bytes__(self):
        return bytes(self._sx_concrete())

    def __mod__(self, args):
        return self._sx_concrete() % args


class SymBytes(_Bytes):
    __slots__ = ('e',)
    _name = 'bytes'

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bytes

    def _mk(self, e):
        return mk_bytes(e)

    def _real(self, e):
        return bytes(e)

    def __getattr__(self, name):
        if name.startswith('_') or not hasattr(bytes, name):
            raise AttributeError("'bytes' object has no attribute '%s'" % name)
        return getattr(self._sx_concrete(), name)

    def __buffer__(self, flags):
        return memoryview(self._sx_concrete())


class SymByteArray(_Bytes):
    __slots__ = ('e',)
    _name = 'bytearray'
    __hash__ = None

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bytearray

    def _mk(self, e):
        return SymByteArray(list(e))

    def _real(self, e):
        return bytearray(e)

    def __getattr__(self, name):
        if name.startswith('_') or not hasattr(bytearray, name):
            raise AttributeError("'bytearray' object has no attribute '%s'" % name)
        return getattr(self._sx_concrete(), name)

    def __buffer__(self, flags):
        return memoryview(self._sx_concrete())

    def _sx_all_concrete(self):
        return all(type(x) is int for x in self.e)

    def copy(self):
        return SymByteArray(list(self.e))
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _new(self, v):
        e = elems(v)
        if e is not None:
            return list(e)
        if isinstance(v, str):
            raise TypeError("can assign only bytes, buffers, or iterables of ints in range(0, 256)")
        if type(v) in (int, SymInt):
            raise TypeError("can assign only bytes, buffers, or iterables of ints in range(0, 256)")
        return [norm8(x) for x in v]

    def __setitem__(self, k, v):
        k = self._key(k)
        if type(k) is slice:
            v = self._new(v)
            a, b, st = k.indices(len(self.e))
            if st == 1:
                self.e[a:max(a, b)] = v
            else:
                self.e[k] = v
            return
        n = len(self.e)
        if type(k) is SymInt:
            v = norm8(v)
            if not bool(b_and(k >= -n, k < n)):
                raise IndexError("bytearray index out of range")
            k = ite(k < 0, k + n, k) if k.lo < 0 else k
            if type(k) is int:
                self.e[k] = v
                return
            for i in range(max(0, k.lo), min(n - 1, k.hi) + 1):
                self.e[i] = norm8(ite(k == i, v, self.e[i]))
            return
        if not -n <= k < n:
            norm8(v)
            raise IndexError("bytearray index out of range")
        self.e[k] = norm8(v)

    def __delitem__(self, k):
        k = self._key(k)
        if type(k) is SymInt:
            k = conc(k)
        try:
            del self.e[k]
        except IndexError:
            raise IndexError("bytearray index out of range")

    def append(self, x):
        self.e.append(norm8(x))

    def extend(self, it):
        if isinstance(it, str) or type(it) in (int, SymInt):
            raise TypeError("expected iterable of integers; got: '%s'" % it.__class__.__name__)
        self.e.extend(self._new(it))

    def __iadd__(self, o):
        e = elems(o)
        if e is None:
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        self.e.extend(e)
        return self

    def __imul__(self, n):
        self.e *= conc(n)
        return self

    def insert(self, i, x):
        self.e.insert(conc(i), norm8(x))

    def pop(self, i=-1):
        if not self.e:
            raise IndexError("pop from empty bytearray")
        try:
            return self.e.pop(conc(i))
        except IndexError:
            raise IndexError("pop index out of range")

    def remove(self, x):
        for i, y in enumerate(self.e):
            if bool(_eq1(x, y)):
                del self.e[i]
                return
        raise ValueError("value not found in bytearray")

    def reverse(self):
        self.e.reverse()

    def clear(self):
        del self.e[:]


class SymMemoryView(_Bytes):
    """Read-only view semantics over a snapshot of bytes-like content; writes go to the viewed byte array."""
    __slots__ = ('e', 'base', 'off')
    _name = 'memoryview'

    def __init__(self, base, off=0, e=None):
        self.base, self.off = base, off
        self.e = elems(base) if e is None else e

    @property
    def __class__(self):
        return memoryview

    def _mk(self, e):
        return mk_bytes(e)

    def _real(self, e):
        return bytes(e)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = conc_slice(k, len(self.e))
            a, b, st = k.indices(len(self.e))
            if st != 1:
                return SymMemoryView(mk_bytes(self.e[k]))
            b = max(a, b)
            v = SymMemoryView(self.base, self.off + a, self.e[a:b])
            return v
        return _Bytes.__getitem__(self, k)

    def __setitem__(self, k, v):
        if type(self.base) is not SymByteArray:
            raise TypeError("cannot modify read-only memory")
        if isinstance(k, slice):
            k = conc_slice(k, len(self.e))
            a, b, st = k.indices(len(self.e))
            v = elems(v)
            if st != 1 or len(v) != max(0, b - a):
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            self.base.e[self.off + a:self.off + a + len(v)] = v
            self.e[a:a + len(v)] = v
        else:
            n = len(self.e)
            k = conc(k)
            if not -n <= k < n:
                raise IndexError("index out of bounds on dimension 1")
            k %= n
            self.base.e[self.off + k] = self.e[k] = norm8(v)

    def tobytes(self):
        return mk_bytes(list(self.e))

    def tolist(self):
        return list(self.e)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    nbytes = property(lambda self: len(self.e))
    readonly = property(lambda self: type(self.base) is not SymByteArray)


def digit_elems(x, bits, n, upper=False):
    """The n lowest digits of x, the most significant first, as characters."""
    ds = [(x >> (bits * i)) & ((1 << bits) - 1) for i in reversed(range(n))]
    return [ite(d < 10, d + 48, d + (55 if upper else 87)) if bits == 4 else d + 48 for d in ds]


def _codec(encoding):
    n = encoding.lower().replace('_', '-')
    return {'ascii': 'ascii', 'us-ascii': 'ascii', 'latin-1': 'latin-1', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1',
            'iso8859-1': 'latin-1', 'utf-8': 'utf-8', 'utf8': 'utf-8', 'utf-16-le': 'utf-16-le', 'utf-16le': 'utf-16-le',
            'utf-16-be': 'utf-16-be', 'utf-16be': 'utf-16-be', 'utf-32-le': 'utf-32-le', 'utf-32-be': 'utf-32-be'}.get(n)


class SymStr(_Seq):
    __slots__ = ('e', '_digits')
    _name = 'str'
    _ws = sorted(STR_WS)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def digits(x, bits, prefix=''):
        """The prefix and the digits, without leading zeros, of a non-negative symbolic integer in base 2, 8 or 16.  How many
        digits there are is only decided (forking) when something depends on it."""
        s = SymStr.__new__(SymStr)
        s._digits = (x, bits, prefix)
        return s

    def _pending(self):
        try:
            object.__getattribute__(self, 'e')
            return None
        except AttributeError:
            return self._digits

    def __getitem__(self, k):
        d = self._pending()
        if d is not None and type(k) is slice and k.stop is None and k.step is None and k.start == len(d[2]) and d[2]:
            return SymStr.digits(d[0], d[1])
        return _Seq.__getitem__(self, k)

    def _padded(self, n):
        """Zero-padded to n digits, where that settles how many there are."""
        d = self._pending()
        if d is not None and not d[2]:
            n = conc(n)
            if n * d[1] >= d[0].hi.bit_length():
                return SymStr(digit_elems(d[0], d[1], max(n, 1)))
        return None

    def zfill(self, n):
        r = self._padded(n)
        return _Seq.zfill(self, n) if r is None else r

    def rjust(self, n, fill=None):
        r = self._padded(n) if fill == '0' else None
        return _Seq.rjust(self, n, fill) if r is None else r

    def _length(self):
        d = self._pending()
        if d is None:
            return len(self.e)
        n = d[0].bit_length()
        n = (n + d[1] - 1) // d[1]
        return len(d[2]) + ite(n < 1, 1, n)

    @property
    def __class__(self):
        return str

    def _one(self, x):
        return mk_str([x])

    def _mk(self, e):
        return mk_str(e)

    def _real(self, e):
        return ''.join(map(chr, e))

    def _other(self, o):
        if type(o) is SymStr:
            return o.e
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def __radd__(self, o):
        e = self._other(o)
        return NotImplemented if e is None else mk_str(e + self.e)

    def __getattr__(self, name):
        if name == 'e':
            x, bits, prefix = self._digits
            n = max(1, -(-x.hi.bit_length() // bits))
            while n > 1 and bool(x < (1 << (bits * (n - 1)))):
                n -= 1
            self.e = [ord(c) for c in prefix] + digit_elems(x, bits, n)
            return self.e
        if name.startswith('_') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return getattr(self._sx_concrete(), name)

    def encode(self, encoding='utf-8', errors='strict'):
        name = _codec(encoding)
        e = self.e
        if errors != 'strict' or name is None:
            return self._native('encode', encoding, errors)
        if name in ('ascii', 'latin-1'):
            lim = 128 if name == 'ascii' else 256
            for x in e:
                if type(x) is SymInt and x.hi < lim and x.lo >= 0:
                    continue
                if bool(x >= lim):
                    raise UnicodeEncodeError(name, '?', 0, 1, 'ordinal not in range(%d)' % lim)
            return mk_bytes([norm8(x) if type(x) is int else byte_of(low_bits(x, 8)) for x in e])
        if name != 'utf-8':
            w = 2 if '16' in name else 4
            r = []
            for x in e:
                if bool(b_and(x >= 0xd800, x < 0xe000)) or (w == 2 and bool(x > 0xffff)):
                    return self._native('encode', encoding)
                b = int_to_bytes(x, w)
                r.extend(reversed(b) if name.endswith('be') else b)
            return mk_bytes(r)
        r = []
        for x in e:
            if bool(x < 0x80):
                r.append(x if type(x) is int else byte_of(low_bits(x, 8)))
                continue
            if bool(b_and(x >= 0xd800, x < 0xe000)):
                raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
            n = 2 if bool(x < 0x800) else 3 if bool(x < 0x10000) else 4
            r.append(norm8((x >> (6 * (n - 1))) | (0, 0, 0xc0, 0xe0, 0xf0)[n]))
            for j in reversed(range(n - 1)):
                r.append(norm8(((x >> (6 * j)) & 0x3f) | 0x80))
        return mk_bytes(r)

    def _case(lo, hi, d, name):
        def f(self):
            if any(bool(x >= 128) for x in self.e):
                return self._native(name)
            return mk_str([ite(b_and(x >= lo, x <= hi), x + d, x) for x in self.e])
        return f
    lower = _case(65, 90, 32, 'lower')
    upper = _case(97, 122, -32, 'upper')

    def isdigit(self):
        if any(bool(x >= 128) for x in self.e):
            return self._native('isdigit')
        return bool(self.e) and b_and(*[b_and(x >= 48, x <= 57) for x in self.e])

    def __mod__(self, args):
        return self._sx_concrete() % args

    def format(self, *a, **k):
        return self._sx_concrete().format(*a, **k)


core.SYM_TYPES.update((SymBytes, SymByteArray, SymStr, SymMemoryView))


class UnsupportedOperation(OSError, ValueError):
    pass


class SymBytesIO(object):
    """Stand-in for io.BytesIO."""

    def __init__(self, initial=b''):
        e = elems(initial)
        if e is None and type(initial).__module__ == 'array':
            e = list(initial.tobytes())
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % initial.__class__.__name__)
        self._e = list(e)
        self._pos = 0
        self.closed = False

    @property
    def __class__(self):
        import io
        return io.BytesIO

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, size=-1):
        self._open()
        left = max(0, len(self._e) - self._pos)
        if size is None:
            n = left
        else:
            if type(size) is SymBool:
                size = size.as_int()
            if not (type(size) is SymInt or hasattr(type(size), '__index__')):
                raise TypeError("argument should be integer or None, not '%s'" % size.__class__.__name__)
            if type(size) is SymInt:
                n = conc(ite(b_or(size < 0, size > left), left, size))
            else:
                n = size.__index__()
                n = left if n < 0 or n > left else n
        r = self._e[self._pos:self._pos + n]
        self._pos += len(r)
        return mk_bytes(r)
    read1 = read

    def readline(self, size=-1):
        rest = self._e[self._pos:]
        n = 0
        for x in rest:
            n += 1
            if bool(_eq1(x, 10)):
                break
        return self.read(n)

    def readinto(self, b):
        d = elems(self.read(len(b)))
        b[:len(d)] = mk_bytes(d)
        return len(d)

    def write(self, data):
        self._open()
        e = elems(data)
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'" % data.__class__.__name__)
        if not e:
            return 0
        if self._pos > len(self._e):
            self._e.extend([0] * (self._pos - len(self._e)))
        self._e[self._pos:self._pos + len(e)] = e
        self._pos += len(e)
        return len(e)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def tell(self):
        self._open()
        return self._pos

    def seek(self, pos, whence=0):
        self._open()
        pos = conc(pos)
        if whence == 1:
            pos = max(0, self._pos + pos)
        elif whence == 2:
            pos = max(0, len(self._e) + pos)
        elif pos < 0:
            raise ValueError("negative seek value %d" % pos)
        self._pos = pos
        return pos

    def truncate(self, size=None):
        size = self._pos if size is None else conc(size)
        del self._e[size:]
        return size

    def getvalue(self):
        self._open()
        return mk_bytes(list(self._e))

    def getbuffer(self):
        return SymMemoryView(mk_bytes(list(self._e)))

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return True
    writable = seekable = readable

    def isatty(self):
        return False

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        while True:
            r = self.readline()
            if not r:
                return
            yield r
