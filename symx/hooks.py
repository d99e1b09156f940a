"""Run-time support for the rewritten code: calls, subscripts, membership and formatting that may see symbolic values."""
import builtins
import functools
import io
import json
import math
import operator
import struct
import types
from . import core, seq, cstruct, text
from .core import (SymInt, SymBool, SymNum, SymFloat, SYM_TYPES, conc, ite, b_and, b_or, b_not, mkb)
from .seq import SymBytes, SymByteArray, SymStr, SymBytesIO, SymMemoryView, elems, mk_bytes, mk_str

FUNC, METHOD = types.FunctionType, types.MethodType
BUILTIN = types.BuiltinFunctionType
TABLE = {}


def is_sym(x):
    return type(x) in SYM_TYPES


def has_sym(args, kwargs=None, depth=2):
    for x in args:
        t = type(x)
        if t in SYM_TYPES:
            return True
        if depth and t in (list, tuple) and has_sym(x, None, depth - 1):
            return True
        if depth and t is dict and has_sym(list(x.values()) + list(x), None, depth - 1):
            return True
    return bool(kwargs) and has_sym(kwargs.values())


def concretize_deep(x):
    t = type(x)
    if t in SYM_TYPES:
        return conc(x)
    if t in (list, tuple):
        return t(concretize_deep(y) for y in x)
    if t is dict:
        return dict((concretize_deep(k), concretize_deep(v)) for k, v in x.items())
    return x


def handler(*fs):
    def deco(h):
        for f in fs:
            TABLE[f] = h
        return h
    return deco


# ------------------------------------------------------------------------------------------------ constructors
@handler(int)
def h_int(x=0, *a, **k):
    t = type(x)
    if t in (SymStr, SymBytes, SymByteArray) and (len(a) == 1 and not k or list(k) == ['base'] and not a):
        return text_to_int(x, a[0] if a else k['base'])
    if a or k:
        return int(*[concretize_deep(y) for y in (x,) + a], **k)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if t is SymNum:
        return x.__trunc__()
    if t in (SymStr, SymBytes, SymByteArray):
        return int(x._sx_concrete())
    if t in (int, float, str, bool):
        return int(x)
    for m in ('__int__', '__index__', '__trunc__'):
        f = getattr(t, m, None)
        if f is not None:
            return f(x) if t is not SymFloat else int(x)
    return int(x)


@handler(float)
def h_float(x=0.0):
    t = type(x)
    if t is SymInt:
        return core.mknum(x, 0)
    if t is SymBool:
        return core.mknum(x.as_int(), 0)
    if t in (SymNum, SymFloat):
        return x
    if t in SYM_TYPES:
        return float(conc(x))
    return float(x)


@handler(str)
def h_str(*a, **k):
    if len(a) == 1 and not k:
        if text.on():
            return text.to_str(a[0])
        if type(a[0]) is SymStr:
            return a[0]
        if type(a[0]) is SymInt and 0 <= a[0].lo and a[0].hi <= 9:
            return SymStr([a[0] + 48])
        return str(a[0])
    if a and elems(a[0]) is not None:
        x = a[0] if is_sym(a[0]) else mk_bytes(elems(a[0]))
        return x.decode(*a[1:], **k)
    return str(*a, **k)


@handler(bool)
def h_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return bool(x)


@handler(bytes)
def h_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    if len(a) > 1 or k or isinstance(x, str):
        if isinstance(x, str):
            if len(a) < 2 and 'encoding' not in k:
                raise TypeError("string argument without an encoding")
            return x.encode(*a[1:], **k)
        return bytes(*a, **k)
    return mk_bytes(_byte_source(x, 'bytes'))


@handler(bytearray)
def h_bytearray(*a, **k):
    if not a and not k:
        return SymByteArray([])
    x = a[0] if a else k.pop('source')
    if len(a) > 1 or k or isinstance(x, str):
        if isinstance(x, str):
            if len(a) < 2 and 'encoding' not in k:
                raise TypeError("string argument without an encoding")
            return SymByteArray(list(elems(x.encode(*a[1:], **k))))
        return SymByteArray(list(bytearray(*a, **k)))
    return SymByteArray(_byte_source(x, 'bytearray'))


def _byte_source(x, name):
    e = elems(x)
    if e is not None:
        return list(e)
    t = type(x)
    if t in (SymInt, SymBool):
        if bool(x < 0):
            raise ValueError("negative count")
        return [0] * conc(x)
    if name == 'bytes' and hasattr(t, '__bytes__'):
        return list(elems(t.__bytes__(x)))
    if hasattr(t, '__index__'):
        n = x.__index__()
        if n < 0:
            raise ValueError("negative count")
        if n > 1 << 24:
            raise core.PathCut('very large allocation')
        return [0] * n
    if t in (SymNum, SymFloat, float) or not (hasattr(t, '__iter__') or hasattr(t, '__getitem__')):
        raise TypeError("cannot convert '%s' object to %s" % (x.__class__.__name__, name))
    return [seq.norm8(y) for y in x]


@handler(memoryview)
def h_memoryview(x):
    return SymMemoryView(x) if is_sym(x) else memoryview(x)


@handler(type)
def h_type(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        return a[0].__class__ if t in SYM_TYPES or t is SymBytesIO else t
    return type(*a, **k)


class SymRange(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        while bool(i < self.stop if self.step > 0 else i > self.stop):
            core.E.tick()
            yield i
            i = i + self.step

    def _n(self):
        if self.step > 0:
            n = (self.stop - self.start + self.step - 1) // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // -self.step
        return ite(n < 0, 0, n)

    def __len__(self):
        return conc(self._n())

    def __bool__(self):
        return bool(self._n() > 0)

    def __getitem__(self, k):
        return range(conc(self.start), conc(self.stop), self.step)[k]

    def __reversed__(self):
        return reversed(range(conc(self.start), conc(self.stop), self.step))

    def __contains__(self, x):
        if self.step == 1:
            return bool(b_and(x >= self.start, x < self.stop))
        return x in range(conc(self.start), conc(self.stop), self.step)


@handler(range)
def h_range(*a):
    if not has_sym(a):
        for x in a:
            if type(x) is not int and not hasattr(type(x), '__index__'):
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
        return range(*a)
    a = [x.as_int() if type(x) is SymBool else x for x in a]
    for x in a:
        if type(x) in (SymNum, SymFloat) or isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    step = conc(step)
    if step == 0:
        raise ValueError("range() arg 3 must not be zero")
    return SymRange(conc(start) if step not in (1, -1) else start, stop, step)


@handler(len)
def h_len(x):
    t = type(x)
    if t is SymStr:
        return x._length()
    if t in (list, tuple, dict, str, bytes, set) or t in SYM_TYPES:
        return len(x)
    if t is SymRange:
        return x._n()
    f = getattr(t, '__len__', None)
    if type(f) is FUNC:
        r = f(x)
        if type(r) is SymBool:
            r = r.as_int()
        if type(r) is SymInt:
            if r.lo < 0 and bool(r < 0):
                raise ValueError("__len__() should return >= 0")
            return r
        if type(r) is int and r >= 0:
            return r
    return len(x)


@handler(min, max)
def h_minmax_dummy(*a, **k):
    raise RuntimeError


def _minmax2(fn, r, x):
    """min/max of two numbers; keeps the interval of the result tight."""
    ints = all(type(y) in (int, bool, SymInt, SymBool) for y in (r, x))
    if ints:
        r, x = core._coerce(r), core._coerce(x)
        (al, ah), (bl, bh) = core._lohi(r), core._lohi(x)
        y = ite(x < r if fn is min else x > r, x, r)
        lo, hi = fn(al, bl), fn(ah, bh)
        return core.mk(y.t, lo, hi) if type(y) is SymInt else y
    if all(type(y) in (int, SymInt, SymNum) or (type(y) is float and y - y == 0) for y in (r, x)):
        # both numbers are known well enough to give the one possible value (an equal int is taken for the float)
        a, b, k = core._align(core.to_num(r), core.to_num(x))
        (al, ah), (bl, bh) = core._lohi(a), core._lohi(b)
        if fn(al, bl) == fn(ah, bh):
            return core.mknum(fn(al, bl), k)
    if bool(x < r if fn is min else x > r):
        return _bounded(x, r, fn is min)
    return _bounded(r, x, fn is min)


def _bounded(x, y, below):
    """x, known on this path to be <= y (below) or >= y."""
    if type(x) is SymNum and type(x.n) is SymInt and type(y) in (int, float, SymInt, SymNum) and y == y and \
            y not in (float('inf'), float('-inf')):
        a, b, k = core._align(x, core.to_num(y))
        (al, ah), (bl, bh) = core._lohi(a), core._lohi(b)
        n = core.mk(a.t, al, min(ah, bh)) if below else core.mk(a.t, max(al, bl), ah)
        return core.mknum(n, k)
    if type(x) is SymInt and type(y) in (int, SymInt):
        bl, bh = core._lohi(y)
        return core.mk(x.t, x.lo, min(x.hi, bh)) if below else core.mk(x.t, max(x.lo, bl), x.hi)
    return x


def _minmax(fn):
    def h(*a, **k):
        xs = a
        if len(a) == 1 and not k and type(a[0]) in (list, tuple, types.GeneratorType, map, filter, dict, set):
            xs = tuple(a[0])
            a = (xs,)
        if not k and len(xs) >= 1 and not (len(a) == 1 and len(xs) == 1 and xs is a):
            if any(is_sym(x) for x in xs) and all(type(x) in (int, bool, SymInt, SymBool, SymNum, float) for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    r = _minmax2(fn, r, x)
                return r
        return fn(*a, **k)
    return h


TABLE[min], TABLE[max] = _minmax(min), _minmax(max)


@handler(sum)
def h_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@handler(abs)
def h_abs(x):
    return abs(x)


@handler(ord)
def h_ord(c):
    if type(c) is SymStr or type(c) in (SymBytes, SymByteArray):
        if len(c.e) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c.e))
        return c.e[0]
    return ord(c)


@handler(chr)
def h_chr(x):
    if type(x) is SymInt:
        if not bool(b_and(x >= 0, x <= 0x10ffff)):
            raise ValueError("chr() arg not in range(0x110000)")
        return mk_str([x])
    return chr(conc(x))


@handler(isinstance)
def h_isinstance(x, t):
    return isinstance(x, t)


@handler(repr)
def h_repr(x):
    E = core.E
    if E is None:
        return repr(x)
    if text.on():
        return text.to_repr(x)
    E.peek += 1
    try:
        return repr(x)
    finally:
        E.peek -= 1


@handler(format)
def h_format(x, spec=''):
    return text.to_format(x, spec) if text.on() else format1(x, spec)


@handler(hash)
def h_hash(x):
    return hash(x)


def _base(fn, bits, prefix):
    def h(x):
        if type(x) is SymBool:
            x = x.as_int()
        if type(x) is SymInt:
            if bool(x < 0):
                return '-' + SymStr.digits(-x, bits, prefix) if not core.E.peek else fn(conc(x))
            return SymStr.digits(x, bits, prefix) if not core.E.peek else fn(conc(x))
        return fn(conc(x))
    return h


TABLE[bin], TABLE[hex], TABLE[oct] = _base(bin, 1, '0b'), _base(hex, 4, '0x'), _base(oct, 3, '0o')
DIGITS = {'b': 1, 'o': 3, 'x': 4, 'X': 4}


def digits_format(x, spec):
    """A non-negative symbolic integer formatted in base 2, 8 or 16 as symbolic text; None for anything else."""
    import re
    t = type(x)
    if (t is not SymInt and t is not SymBool) or type(spec) is not str or core.E.peek:
        return None
    m = re.match('^(0?)([0-9]*)([boxX])$', spec)
    if m is None:
        return None
    if t is SymBool:
        x = x.as_int()
    zero, width, c = m.groups()
    bits, width = DIGITS[c], int(width or 0)
    if x.lo < 0 and bool(x < 0) or (width and not zero):
        return None
    if zero and width * bits >= x.hi.bit_length():
        return SymStr(seq.digit_elems(x, bits, width, c == 'X'))
    if c == 'X':
        return None
    r = SymStr.digits(x, bits)
    return r.zfill(width) if zero else r


def format1(x, spec):
    if spec == '' and type(x) is SymStr:
        return x
    r = digits_format(x, spec)
    return format(x, spec if type(spec) is str else conc(spec)) if r is None else r


def text_to_int(x, base):
    """int(text, base) where the text is symbolic: digits of a power-of-two base stay symbolic, the rest is decided value by value."""
    base = conc(base)
    bits = {2: 1, 8: 3, 16: 4}.get(base)
    d = x._pending() if type(x) is SymStr else None
    if d is not None and bits == d[1]:
        return d[0]
    if bits is None or not x.e:
        return int(x._sx_concrete(), base)
    r = 0
    for c in x.e:
        v = c - 48
        ok = b_and(c >= 48, c < 48 + min(base, 10))
        if base == 16:
            v = ite(c < 58, v, ite(c < 71, c - 55, c - 87))
            ok = b_or(ok, b_and(c >= 65, c <= 70), b_and(c >= 97, c <= 102))
        if not bool(ok):
            return int(x._sx_concrete(), base)
        r = (r << bits) | (v & ((1 << bits) - 1))
    return r


@handler(round)
def h_round(x, *a):
    return round(x, *[conc(y) for y in a])


@handler(math.ceil)
def h_ceil(x):
    return x.__ceil__() if is_sym(x) else math.ceil(x)


@handler(math.floor)
def h_floor(x):
    return x.__floor__() if is_sym(x) else math.floor(x)


@handler(math.trunc)
def h_trunc(x):
    return x.__trunc__() if is_sym(x) else math.trunc(x)


@handler(math.isnan)
def h_isnan(x):
    return x.isnan() if type(x) is SymFloat else math.isnan(conc(x))


@handler(math.isinf)
def h_isinf(x):
    return x.isinf() if type(x) is SymFloat else math.isinf(conc(x))


@handler(math.isfinite)
def h_isfinite(x):
    return b_not(b_or(x.isnan(), x.isinf())) if type(x) is SymFloat else math.isfinite(conc(x))


TABLE[struct.pack] = cstruct.pack
TABLE[struct.unpack] = cstruct.unpack
TABLE[struct.unpack_from] = cstruct.unpack_from
TABLE[struct.pack_into] = cstruct.pack_into
TABLE[struct.iter_unpack] = cstruct.iter_unpack
TABLE[struct.Struct] = cstruct.SymStruct
TABLE[io.BytesIO] = SymBytesIO


@handler(int.from_bytes)
def h_from_bytes(b, byteorder='big', *, signed=False):
    e = elems(b)
    if e is None:
        e = [seq.norm8(x) for x in b]
    return seq.bytes_to_int(e[::-1] if byteorder == 'big' else list(e), signed)


@handler(bytes.fromhex, bytearray.fromhex)
def h_fromhex(s):
    return bytes.fromhex(conc(s))


@handler(iter)
def h_iter(*a):
    return iter(*a)


@handler(operator.contains)
def h_contains(c, x):
    return sx_in(x, c)


@handler(operator.getitem)
def h_getitem(c, k):
    return sx_sub(c, k)


@handler(operator.mod)
def h_mod(a, b):
    return sx_mod(a, b)


@handler(operator.index)
def h_index(x):
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x.as_int()
    return operator.index(x)


@handler(functools.reduce)
def h_reduce(f, it, *init):
    it = iter(it)
    if init:
        r = init[0]
    else:
        try:
            r = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value")
    for x in it:
        r = sx_call(f, r, x)
    return r


@handler(map)
def h_map(f, *its):
    return (sx_call(f, *xs) for xs in zip(*its))


@handler(filter)
def h_filter(f, it):
    return (x for x in it if (x if f is None else sx_call(f, x)))


@handler(functools.partial)
def h_partial(f, *a, **k):
    if TABLE.get(f) is not None if _hashable(f) else False:
        return functools.partial(sx_call, f, *a, **k)
    return functools.partial(f, *a, **k)


def _hashable(f):
    return type(f) in (BUILTIN, type)


@handler(json.dumps)
def h_dumps(*a, **k):
    return _JSON.dumps(*a, **k)


@handler(json.loads)
def h_loads(*a, **k):
    return _JSON.loads(*a, **k)


class _JSON(object):
    """json over symbolic data: concrete data goes to the real codec, other data to the model set by the harness."""
    model = None

    @classmethod
    def dumps(cls, x, *a, **k):
        if cls.model is not None:
            r = cls.model.dumps(x, a, k)
            if r is not None:
                return r
        return json.dumps(concretize_deep(x), *a, **k)

    @classmethod
    def loads(cls, s, *a, **k):
        if is_sym(s):
            if cls.model is not None:
                return cls.model.loads(s, a, k)
            return json.loads(conc(s), *a, **k)
        return json.loads(s, *a, **k)


# ------------------------------------------------------------------------------------------------ calls
def sx_call(f, /, *a, **k):
    t = type(f)
    if t is FUNC:
        if f.__module__ == 'json' and f in TABLE:
            return TABLE[f](*a, **k)
        return f(*a, **k)
    if t is METHOD:
        return f(*a, **k)
    if t is type:
        h = TABLE.get(f)
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    if t is BUILTIN:
        h = TABLE.get(f) if f.__self__ is None or type(f.__self__) in (types.ModuleType, type) else None
        if h is not None:
            return h(*a, **k)
        return builtin_call(f, a, k)
    if t in UNBOUND and a and type(a[0]) in SYM_TYPES and f.__objclass__ in (bytes, bytearray, str, int, float):
        if not issubclass(a[0].__class__, f.__objclass__):
            raise TypeError("descriptor '%s' requires a '%s' object" % (f.__name__, f.__objclass__.__name__))
        return getattr(a[0], f.__name__)(*a[1:], **k)
    return f(*a, **k)


UNBOUND = (types.MethodDescriptorType, types.WrapperDescriptorType)
NORETRY = set([getattr, setattr, hasattr, delattr, isinstance, issubclass, callable, sorted, next, iter, any, all, print])


def builtin_call(f, a, k):
    s = f.__self__
    st = type(s)
    if st is str or st is bytes:
        if st is str and text.on():
            if f.__name__ == 'format':
                return text.fmt(s, a, k)
            if f.__name__ == 'join' and len(a) == 1:
                return text.join(s, list(a[0]))
        if f.__name__ == 'format':
            E = core.E
            if has_sym(a, k):
                return sx_format(s, a, k)
            return f(*a, **k)
        if f.__name__ == 'join' and len(a) == 1:
            a = (list(a[0]),)
        if has_sym(a, k):
            e = SymStr([ord(c) for c in s]) if st is str else SymBytes(list(s))
            return getattr(e, f.__name__)(*a, **k)
        return f(*a, **k)
    if st is dict and a and (type(a[0]) in SYM_TYPES):
        n = f.__name__
        if n in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
            found, key = dict_find(s, a[0])
            if found:
                return f(key, *a[1:])
            if n == '__contains__':
                return False
            if n == 'get':
                return a[1] if len(a) > 1 else k.get('default')
            if n == 'pop':
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            if n == '__getitem__':
                raise KeyError(a[0])
            return f(conc(a[0]), *a[1:])
    if st in (set, frozenset) and a and type(a[0]) in SYM_TYPES and f.__name__ == '__contains__':
        return sx_in(a[0], s)
    if st is int and f.__name__ in ('__add__', '__sub__', '__mul__', '__eq__', '__lt__', '__le__', '__gt__', '__ge__',
                                    '__and__', '__or__', '__xor__', '__ne__') and has_sym(a):
        return getattr(operator, f.__name__)(s, *a)
    try:
        return f(*a, **k)
    except TypeError:
        if f in NORETRY or not has_sym(a, k):
            raise
        return f(*[concretize_deep(x) for x in a], **dict((n, concretize_deep(x)) for n, x in k.items()))


def _kind(x):
    c = x.__class__
    if issubclass(c, (int, float)):
        return 'n'
    if issubclass(c, str):
        return 's'
    if issubclass(c, (bytes, bytearray)):
        return 'b'
    return None


def dict_find(d, key):
    """(found, the key of d equal to the symbolic key); forks over the keys."""
    kind = _kind(key)
    for x in d:
        if _kind(x) == kind and kind is not None:
            if bool(key == x):
                return True, x
    return False, None


def sx_sub(x, i):
    ti = type(i)
    if ti in SYM_TYPES:
        t = type(x)
        if t in SYM_TYPES:
            return x[i]
        if t is dict or isinstance(x, dict):
            found, key = dict_find(x, i)
            if found:
                return x[key]
            if t is dict:
                raise KeyError(i)
            return x[conc(i)]
        if ti is SymInt or ti is SymBool:
            if ti is SymBool:
                i = i.as_int()
            if t in (bytes, str) and type(i) is SymInt:
                return (SymBytes(list(x)) if t is bytes else SymStr([ord(c) for c in x]))[i]
            if t in (list, tuple) and type(i) is SymInt:
                n = len(x)
                if not bool(b_and(i >= -n, i < n)):
                    raise IndexError("%s index out of range" % t.__name__)
                if all(type(y) in (int, SymInt) for y in x):
                    return seq.sym_index(list(x), i, t.__name__)
                return x[conc(i)]
    elif ti is slice and type(x) in (list, tuple, str, bytes):
        if is_sym(i.start) or is_sym(i.stop) or is_sym(i.step):
            return x[seq.conc_slice(i, len(x))]
    return x[i]


def sx_in(x, c):
    if type(x) in SYM_TYPES:
        if type(c) in (dict, set, frozenset) or isinstance(c, (dict, set, frozenset)):
            return dict_find(c, x)[0]
        if type(c) in (type({}.keys()),):
            return dict_find(c, x)[0]
        if type(c) is text.SymText:
            return x in c
        if type(c) is str and type(x) is text.SymText:
            return x in text.SymText([ord(ch) for ch in c])
        if type(c) is str and type(x) is SymStr:
            return x in SymStr([ord(ch) for ch in c])
        if type(c) is bytes:
            return x in SymBytes(list(c))
        if type(c) in (tuple, list) and all(_kind(y) is not None for y in c):
            k = _kind(x)
            return bool(b_or(*[x == y for y in c if _kind(y) == k]))
        if type(c) is range:
            if type(x) is SymInt and c.step == 1:
                return bool(b_and(x >= c.start, x < c.stop))
            return conc(x) in c
    return x in c


def sx_mod(a, b):
    t = type(a)
    if t is str and text.on():
        return text.mod(a, b)
    if t is str or t is bytes:
        if not has_sym((b,)):
            return a % b
        if t is str:
            args = list(b) if type(b) is tuple else [b]
            import re
            parts = re.split(r'(%[sd])', a)
            if type(b) is not dict and not any('%' in p for p in parts[::2]) and len(parts) // 2 == len(args):
                out = []
                for i, p in enumerate(parts):
                    if i % 2 == 0:
                        out.append(p)
                    else:
                        x = args[i // 2]
                        if p == '%d':
                            if type(x) in (SymStr, SymBytes, str, bytes) or x is None:
                                raise TypeError("%%d format: a number is required, not %s" % x.__class__.__name__)
                            if type(x) is SymBool:
                                x = x.as_int()
                            if type(x) in (SymNum, SymFloat):
                                x = int(x)
                        out.append(x if type(x) in (SymStr, str) else str(x))
                return SymStr([]).join(out)
        return a % fmt_args(b)
    return a % b


def fmt_args(b):
    """Arguments of a formatting operation, formatted by value of the current model where wide."""
    t = type(b)
    if t is tuple:
        return tuple(fmt_args(x) for x in b)
    if t is dict:
        return dict((k, fmt_args(v)) for k, v in b.items())
    if t is SymInt:
        return int(b._text())
    if t is SymNum or t is SymFloat:
        return float(str(b))
    if t in (SymBytes, SymByteArray, SymStr):
        E = core.E
        if E.peek or t is not SymStr:
            return b._peeked()
        return b._sx_concrete()
    if t is SymBool:
        return bool(b)
    return b


def sx_format(s, a, k):
    import re
    # replacement fields of plain text and of digits in a power-of-two base stay symbolic
    parts = re.split(r'(\{\w*(?::\w*)?\})', s)
    if core.E is None or core.E.peek or any('{' in p or '}' in p for p in parts[::2]):
        return s.format(*a, **k)
    out, n = [], 0
    for i, p in enumerate(parts):
        if i % 2 == 0:
            out.append(p)
            continue
        name, _, spec = p[1:-1].partition(':')
        if name == '':
            name, n = str(n), n + 1
        if name.isdigit():
            if int(name) >= len(a):
                raise IndexError('Replacement index %s out of range for positional args tuple' % name)
            x = a[int(name)]
        else:
            x = k[name]
        out.append(format1(x, spec))
    if any(type(x) is SymStr for x in out):
        return SymStr([]).join(out)
    return ''.join(out)


def sx_fstr(*parts):
    if text.on():
        return text.fstr(parts)
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 'r':
                v = h_repr(v)
            elif conv == 'a':
                v = ascii(v)
            elif conv == 's':
                v = h_str(v)
            out.append(format1(v, spec))
        else:
            out.append(p)
    if any(type(x) is SymStr for x in out):
        return SymStr([]).join(out)
    return ''.join(out)


def sx_not(x):
    return not x


FORK = object()
_SCALAR = (int, bool, SymInt, SymBool)


def sx_merge(c, new, old):
    """The value of both sides joined under an undecided condition, FORK when they are not both plain scalars."""
    if type(c) is SymInt:
        c = c != 0
    if type(c) is not SymBool or core.E is None or core.E.peek:
        return FORK
    try:
        a, b = new(), old()
    except Exception:
        return FORK    # if it really happens, it happens again on the path where the condition holds
    if a is b:
        return a
    if type(a) not in _SCALAR or type(b) not in _SCALAR:
        return FORK
    boolean = [type(x) in (bool, SymBool) for x in (a, b)]
    if all(boolean):
        return core.b_or(core.b_and(c, a), core.b_and(core.b_not(c), b))
    if any(boolean):
        return FORK
    return core.ite(c, a, b)


def sx_ifexp(c, new, old):
    m = sx_merge(c, new, old)
    if m is not FORK:
        return m
    return new() if c else old()


class Peek(object):
    __slots__ = ()

    def __enter__(self):
        if core.E is not None and not core.E.text:
            core.E.peek += 1

    def __exit__(self, *a):
        if core.E is not None and not core.E.text:
            core.E.peek -= 1


PEEK = Peek()


def sx_peek(f):
    E = core.E
    if E is None:
        return f()
    E.peek += 1
    try:
        return f()
    finally:
        E.peek -= 1


FUNCS = {}   # function entered -> count of calls


def sx_enter(name):
    FUNCS[name] = FUNCS.get(name, 0) + 1


def sx_tick():
    if core.E is not None:
        core.E.tick()
    return True


INJECT = {'__sx_call__': sx_call, '__sx_sub__': sx_sub, '__sx_in__': sx_in, '__sx_mod__': sx_mod,
          '__sx_fstr__': sx_fstr, '__sx_peek__': sx_peek, '__sx_PEEK__': PEEK, '__sx_enter__': sx_enter,
          '__sx_tick__': sx_tick, '__sx_slice__': slice, '__sx_Abort__': core.Abort,
          '__sx_merge__': sx_merge, '__sx_ifexp__': sx_ifexp, '__sx_FORK__': FORK}
