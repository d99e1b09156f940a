"""Structs of every kind of field with their reference encoding, shared by several properties.

Each case(S, big) returns a Case: the class, values for its fields (a function, since fields may hold structs), the bytes
the instance is written as, and what reading gives where that differs from what was written."""
from .lib import *
from infi.instruct import *
from infi.instruct.struct import Field
from infi.instruct.array import VarSizeArrayMarshal, FixedSizeArrayMarshal, SumSizeArrayMarshal
from infi.instruct.string import (PaddedStringMarshal, VarSizeStringMarshal, VarSizeBufferMarshal, FixedSizeBufferMarshal,
                                  PADDING_DIRECTION_LEFT, PADDING_DIRECTION_RIGHT, PADDING_DIRECTION_NONE)
from infi.instruct.base import Marshal, MinMax, EMPTY_CONTEXT
from infi.instruct.numeric import UBInt8Marshal, UBInt16Marshal
from infi.instruct.mapping import FixedSizeMappingMarshal
from infi.instruct.struct.selector import FuncStructSelectorMarshal, StructSelectorMarshal


class Case(object):
    def __init__(self, T, values, want, after=None):
        self.T, self.make, self.want, self.after = T, values, want, after

    def object(self):
        return self.T(**self.make())

    def expected(self):
        v = self.make()
        v.update(self.after or {})
        return v

    def check_values(self, S, t, label):
        want = self.expected()
        for k in sorted(want):
            S.check(same(S, getattr(t, k), want[k]), '%s: %s' % (label, k))


def same(S, a, b):
    """the same value; structs field by field (`names` lists their fields)"""
    if isinstance(b, Struct):
        return type(a) is type(b) and S.and_(*[same(S, getattr(a, k), getattr(b, k)) for k in b.names])
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and S.and_(*[same(S, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    if isinstance(b, float):
        return S.eq(S.float_bits(a, 8), S.float_bits(b, 8))
    return S.eq(a, b)


def be(v, n):
    return value_bytes(v, n, False)


def le(v, n):
    return value_bytes(v, n, True)


def size(S, name, most, least=0):
    return S.choice(name, range(least, most + 1))


def raw(S, name, n):
    """content without zero bytes"""
    x = S.bytes(name, n)
    S.assume(S.and_(*[b != 0 for b in x]))
    return x


# ------------------------------------------------------------------------------------------------ numbers, strings
def numbers(S, big):
    class T(Struct):
        _fields_ = [UBInt8('a'), SLInt32('b'), UBInt64('c'), SBInt16('d', 5), ULInt16('e')]
    a, b, c, d, e = S.bits('a', 8), S.int('b', -(1 << 31), (1 << 31) - 1), S.bits('c', 64), S.int('d', -(1 << 15), (1 << 15) - 1), S.bits('e', 16)
    return Case(T, lambda: dict(a=a, b=b, c=c, d=d, e=e), be(a, 1) + le(b, 4) + be(c, 8) + be(d, 2) + le(e, 2))


def floats(S, big):
    class T(Struct):
        _fields_ = [BFloat32('a'), LFloat64('b'), UBInt8('c')]
    a, b, c = S.f32('a'), S.f64('b'), S.bits('c', 8)
    S.assume(S.and_(S.not_(S.is_nan(a)), S.not_(S.is_nan(b))))
    return Case(T, lambda: dict(a=a, b=b, c=c), be(S.float_bits(a, 4), 4) + le(S.float_bits(b, 8), 8) + [c])


def padded(S, big):
    class T(Struct):
        _fields_ = [PaddedString('a', 3), UBInt8('x'), PaddedString('b', 2, padding=b' ', padding_direction=PADDING_DIRECTION_LEFT),
                    FixedSizeBuffer('c', 2)]
    n, m = size(S, 'n', 3), size(S, 'm', 2)
    a, b, c, x = raw(S, 'a', n), S.bytes('b', m), S.bytes('c', 2), S.bits('x', 8)
    S.assume(S.and_(*[v != 32 for v in b]))
    return Case(T, lambda: dict(a=a, b=b, c=c, x=x), list(a) + [0] * (3 - n) + [x] + [32] * (2 - m) + list(b) + list(c))


def var_strings(S, big):
    class T(Struct):
        _fields_ = [VarSizeString('a', UBInt8), VarSizeBuffer('b', ULInt16), UBInt8('x'),
                    VarSizeString('c', UBInt32, padding=b' ', padding_direction=PADDING_DIRECTION_NONE)]
    n, m, k = size(S, 'n', 4 if big else 2), size(S, 'm', 3 if big else 2), size(S, 'k', 2)
    a, b, c, x = raw(S, 'a', n), S.bytes('b', m), S.bytes('c', k), S.bits('x', 8)
    return Case(T, lambda: dict(a=a, b=b, c=c, x=x), [n] + list(a) + le(m, 2) + list(b) + [x] + be(k, 4) + list(c))


class Number(Marshal):
    """a serializer of one or two bytes, depending on the value"""
    def __init__(self, least):
        super(Number, self).__init__()
        self.least = least

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        first = UBInt8Marshal.create_from_stream(stream, context)
        return first if first < self.least else (first - self.least) * 256 + UBInt8Marshal.create_from_stream(stream, context)

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        if obj < self.least:
            UBInt8Marshal.write_to_stream(obj, stream, context)
        else:
            UBInt16Marshal.write_to_stream(self.least * 256 + obj, stream, context)

    def sizeof(self, obj):
        return 1 if obj < self.least else 2

    def min_max_sizeof(self):
        return MinMax(1, 2)

    def bytes(self, obj):
        return [obj] if obj < self.least else be(self.least * 256 + obj, 2)


def user_prefixes(S, big):
    """prefixes of the user's own, the size of which depends on the value"""
    p = Number(2)

    class T(Struct):
        _fields_ = [VarSizeString('a', p), VarSizeBuffer('b', p), UBInt8('x'), VarSizeArray('v', p, UBInt8)]
    n, m, k = S.choice('n', (1, 2)), S.choice('m', (0, 3)), S.choice('k', (1, 3))
    a, b, x = raw(S, 'a', n), S.bytes('b', m), S.bits('x', 8)
    v = [S.bits('v%d' % i, 8) for i in range(k)]
    return Case(T, lambda: dict(a=a, b=b, x=x, v=list(v)), p.bytes(n) + list(a) + p.bytes(m) + list(b) + [x] + p.bytes(k) + v)


def user_types(S, big):
    """types of the user's own, the size of which depends on the value"""
    q = Number(100)

    class T(Struct):
        _fields_ = [SumSizeArray('s', UBInt8, q), OptionalField('o', q, lambda obj, stream, context: True), Field('f', q)]
    s = [S.bits('s%d' % i, 14) for i in range(2)]
    f, o = S.bits('f', 15), S.bits('o', 8)
    S.assume(f < 30000)
    want = [sum(len(q.bytes(y)) for y in s)]
    for y in s + [o, f]:
        want += q.bytes(y)
    return Case(T, lambda: dict(s=list(s), o=o, f=f), want)


def padding(S, big):
    class T(Struct):
        _fields_ = [BytePadding(2), UBInt8('a'), BytePadding(3, b'\xff'), ULInt16('b'), Padding(1)]
    a, b = S.bits('a', 8), S.bits('b', 16)
    return Case(T, lambda: dict(a=a, b=b), [0, 0, a, 255, 255, 255] + le(b, 2) + [0])


# ------------------------------------------------------------------------------------------------ arrays
def arrays(S, big):
    class T(Struct):
        _fields_ = [FixedSizeArray('f', 3, UBInt16), VarSizeArray('v', UBInt8, SLInt16), SumSizeArray('s', ULInt16, UBInt32)]
    n, m = size(S, 'n', 3 if big else 2), size(S, 'm', 2)
    f = [S.bits('f%d' % i, 16) for i in range(3)]
    v = [S.int('v%d' % i, -(1 << 15), (1 << 15) - 1) for i in range(n)]
    s = [S.bits('s%d' % i, 32) for i in range(m)]
    return Case(T, lambda: dict(f=list(f), v=list(v), s=list(s)),
                sum([be(x, 2) for x in f], []) + [n] + sum([le(x, 2) for x in v], []) + le(4 * m, 2) + sum([be(x, 4) for x in s], []))


class Pair(Struct):
    _fields_ = [UBInt8('k'), UBInt16('v')]
    names = ('k', 'v')


class Named(Struct):
    _fields_ = [VarSizeString('name', UBInt8), UBInt8('n')]
    names = ('name', 'n')


def pair(S, p):
    return S.bits(p + 'k', 8), S.bits(p + 'v', 16)


def pair_bytes(x):
    return [x[0]] + be(x[1], 2)


def named(S, p, most=2):
    return raw(S, p + 'name', size(S, p + 'l', most)), S.bits(p + 'n', 8)


def named_bytes(x):
    return [len(x[0])] + list(x[0]) + [x[1]]


def struct_arrays(S, big):
    class T(Struct):
        _fields_ = [VarSizeArray('p', UBInt8, Pair), SumSizeArray('q', UBInt16, Named), FixedSizeArray('r', 1, Named)]
    p = [pair(S, 'p%d' % i) for i in range(size(S, 'n', 2))]
    q = [named(S, 'q%d' % i, 2 if big else 1) for i in range(size(S, 'm', 2))]
    r = named(S, 'r', 1)
    qb = sum([named_bytes(x) for x in q], [])
    return Case(T, lambda: dict(p=[Pair(k=k, v=v) for k, v in p], q=[Named(name=s, n=n) for s, n in q], r=[Named(name=r[0], n=r[1])]),
                [len(p)] + sum([pair_bytes(x) for x in p], []) + be(len(qb), 2) + qb + named_bytes(r))


def array_of_arrays(S, big):
    class T(Struct):
        _fields_ = [VarSizeArray('a', UBInt8, VarSizeArrayMarshal(UBInt8, UBInt16)),
                    FixedSizeArray('b', 2, SumSizeArrayMarshal(UBInt8, PaddedStringMarshal(2)))]
    a = [[S.bits('a%d%d' % (i, j), 16) for j in range(size(S, 'an%d' % i, 2))] for i in range(size(S, 'n', 2))]
    b = [[raw(S, 'b%d%d' % (i, j), 2) for j in range(size(S, 'bn%d' % i, 1))] for i in range(2)]
    want = [len(a)]
    for x in a:
        want += [len(x)] + sum([be(y, 2) for y in x], [])
    for x in b:
        want += [2 * len(x)] + sum([list(y) for y in x], [])
    return Case(T, lambda: dict(a=[list(x) for x in a], b=[list(x) for x in b]), want)


def pointers(S, big):
    """lengths in other fields"""
    class T(Struct):
        _fields_ = [UBInt8('n'), ULInt16('m'), UBInt8('x'), VarSizeArray('a', ReadPointer('n'), UBInt16), VarSizeBuffer('b', ReadPointer('m'))]
    n, m, x = size(S, 'n', 2), size(S, 'm', 3), S.bits('x', 8)
    a, b = [S.bits('a%d' % i, 16) for i in range(n)], S.bytes('b', m)
    return Case(T, lambda: dict(n=n, m=m, x=x, a=list(a), b=b), [n] + le(m, 2) + [x] + sum([be(v, 2) for v in a], []) + list(b))


class Pointed(Struct):
    _fields_ = [UBInt8('n'), VarSizeArray('a', ReadPointer('n'), UBInt8), SumSizeArray('s', ReadPointer('n'), UBInt8)]
    names = ('n', 'a', 's')


def nested_pointers(S, big):
    """each nested struct has its own length field, named like one outside"""
    class T(Struct):
        _fields_ = [UBInt8('n'), Field('i', Pointed), VarSizeArray('l', ReadPointer('n'), Pointed)]
    k = size(S, 'n', 2 if big else 1)
    xs = []
    for i in range(k + 1):
        xs.append([S.bits('e%d%d' % (i, j), 8) for j in range(2 * size(S, 'k%d' % i, 2))])

    def make(x):
        h = len(x) // 2
        return Pointed(n=h, a=list(x[:h]), s=list(x[h:]))
    return Case(T, lambda: dict(n=k, i=make(xs[0]), l=[make(x) for x in xs[1:]]), [k] + sum([[len(x) // 2] + x for x in xs], []))


# ------------------------------------------------------------------------------------------------ bits
def bit_groups(S, big):
    class T(Struct):
        _fields_ = [UBInt8('x'), BitFields(BitField('a', 3), BitPadding(2), BitField('b', 9), BitFlag('c'), BitField('d', 1)),
                    BitFields(BitField('e', 12), BitField('f', 4)), UBInt8('y')]
    x, y, a, b, c, d, e, f = [S.bits(k, n) for k, n in zip('xyabcdef', (8, 8, 3, 9, 1, 1, 12, 4))]
    return Case(T, lambda: dict(x=x, y=y, a=a, b=b, c=c, d=d, e=e, f=f),
                [x] + le(a | (b << 5) | (c << 14) | (d << 15), 2) + le(e | (f << 12), 2) + [y])


def positional_bits(S, big):
    class T(Struct):
        _fields_ = [BitFields(BitField('a', Bits[4:8]), BitField('b', Bits[0:2, 9:12]), BitField('c', Bits[15]), BitField('d', Bits[12:15])), UBInt8('y')]
    a, b, c, d, y = [S.bits(k, n) for k, n in zip('abcdy', (4, 5, 1, 3, 8))]
    return Case(T, lambda: dict(a=a, b=b, c=c, d=d, y=y), le((a << 4) | (b & 3) | ((b >> 2) << 9) | (c << 15) | (d << 12), 2) + [y])


# ------------------------------------------------------------------------------------------------ const, optional, lazy
def constants(S, big):
    class T(Struct):
        _fields_ = [ConstField('a', 0x1234, UBInt16), UBInt8('x'), ConstField('p', Pair(k=1, v=2)), ConstField('s', b'ab', PaddedStringMarshal(3))]
    x = S.bits('x', 8)
    return Case(T, lambda: dict(x=x), [0x12, 0x34, x, 1, 0, 2, 97, 98, 0], dict(a=0x1234, s=b'ab', p=Pair(k=1, v=2)))


def optionals(S, big):
    class T(Struct):
        _fields_ = [UBInt8('flags'), OptionalField('a', UBInt16, lambda o, s, c: o.flags & 1), UBInt8('x'),
                    OptionalField('s', VarSizeStringMarshal(UBInt8), lambda o, s, c: o.flags & 2),
                    OptionalField('p', Pair, lambda o, s, c: o.flags & 4),
                    OptionalField('l', VarSizeArrayMarshal(UBInt8, UBInt8), lambda o, s, c: o.flags & 8)]
    flags, x = S.bits('flags', 4), S.bits('x', 8)
    a, p = S.bits('a', 16), pair(S, 'p')
    s, l = raw(S, 's', size(S, 'sl', 2 if big else 1)), [S.bits('l%d' % i, 8) for i in range(size(S, 'n', 1))]
    has = [bool(flags & (1 << i)) for i in range(4)]
    want = [flags] + (be(a, 2) if has[0] else []) + [x] + ([len(s)] + list(s) if has[1] else []) + (pair_bytes(p) if has[2] else [])
    want += [len(l)] + l if has[3] else []
    return Case(T, lambda: dict(flags=flags, x=x, a=a if has[0] else None, s=s if has[1] else None,
                                p=Pair(k=p[0], v=p[1]) if has[2] else None, l=list(l) if has[3] else None), want)


def lazy(S, big):
    class T(Struct):
        _fields_ = [UBInt8('h'), Lazy(UBInt16('a'), PaddedString('s', 2), BitFields(BitField('b', 3), BitField('c', 5)), FixedSizeArray('l', 2, UBInt8),
                                      ConstField('k', 7, UBInt8), BytePadding(1)), UBInt8('t'), Lazy(Field('p', Pair))]
    h, a, b, c, t = [S.bits(k, n) for k, n in zip('habct', (8, 16, 3, 5, 8))]
    s, l, p = raw(S, 's', size(S, 'n', 2)), [S.bits('l0', 8), S.bits('l1', 8)], pair(S, 'p')
    return Case(T, lambda: dict(h=h, a=a, b=b, c=c, t=t, s=s, l=list(l), p=Pair(k=p[0], v=p[1])),
                [h] + be(a, 2) + list(s) + [0] * (2 - len(s)) + [b | (c << 3)] + l + [7, 0, t] + pair_bytes(p), dict(k=7))


def mapped(S, big):
    class T(Struct):
        _fields_ = [UBInt8('x'), Field('m', FixedSizeMappingMarshal({'a': 1, 'b': 2, 'c': 513}, UBInt16)),
                    FixedSizeArray('l', 2, FixedSizeMappingMarshal({'on': 255, 'off': 0}, UBInt8))]
    x, m = S.bits('x', 8), S.choice('m', 'abc')
    l = [S.choice('l%d' % i, ('on', 'off')) for i in range(2)]
    return Case(T, lambda: dict(x=x, m=m, l=list(l)), [x] + be({'a': 1, 'b': 2, 'c': 513}[m], 2) + [{'on': 255, 'off': 0}[k] for k in l])


# ------------------------------------------------------------------------------------------------ chosen and nested structs
class KindA(Struct):
    _fields_ = [ConstField('kind', 1, UBInt8), UBInt16('a')]
    names = ('kind', 'a')


class KindB(Struct):
    _fields_ = [ConstField('kind', 2, UBInt8), VarSizeString('b', UBInt8)]
    names = ('kind', 'b')


class KindC(Struct):
    _fields_ = [UBInt8('kind')]
    names = ('kind',)


def kind(S, p):
    """(make, bytes)"""
    k = S.choice(p + 'kind', 'ABC')
    if k == 'A':
        a = S.bits(p + 'a', 16)
        return lambda: KindA(a=a), [1] + be(a, 2)
    if k == 'B':
        b = raw(S, p + 'b', size(S, p + 'bl', 2))
        return lambda: KindB(b=b), [2, len(b)] + list(b)
    c = S.int(p + 'c', 3, 255)
    return lambda: KindC(kind=c), [c]


class Header(Struct):
    _fields_ = [UBInt8('kind')]


def choose(obj, stream, context):
    h = Header.create_from_stream(stream, context)
    return KindA if h.kind == 1 else KindB if h.kind == 2 else KindC


def selected(S, big):
    class T(Struct):
        _fields_ = [UBInt8('x'), Field('s', StructSelectorMarshal(UBInt8, {1: KindA, 2: KindB}, KindC)), SelectStructByFunc('f', choose), UBInt8('y')]
    x, y, s, f = S.bits('x', 8), S.bits('y', 8), kind(S, 's'), kind(S, 'f')
    return Case(T, lambda: dict(x=x, y=y, s=s[0](), f=f[0]()), [x] + s[1] + f[1] + [y])


def selected_lists(S, big):
    class T(Struct):
        _fields_ = [VarSizeArray('l', UBInt8, StructSelectorMarshal(UBInt8, {1: KindA, 2: KindB}, KindC)),
                    SumSizeArray('m', UBInt8, FuncStructSelectorMarshal(StructFunc(choose)))]
    l = [kind(S, 'l%d' % i) for i in range(size(S, 'n', 2 if big else 1))]
    m = [kind(S, 'm%d' % i) for i in range(size(S, 'k', 1))]
    mb = sum([x[1] for x in m], [])
    return Case(T, lambda: dict(l=[x[0]() for x in l], m=[x[0]() for x in m]), [len(l)] + sum([x[1] for x in l], []) + [len(mb)] + mb)


class Inner(Struct):
    _fields_ = [UBInt8('a'), VarSizeArray('l', UBInt8, Pair), OptionalField('o', Named, lambda o, s, c: o.a > 99), BitFields(BitField('x', 2), BitField('y', 6))]
    names = ('a', 'l', 'o', 'x', 'y')


def nested(S, big):
    class Middle(Struct):
        _fields_ = [Field('i', Inner), UBInt8('t'), Lazy(UBInt16('z'))]
        names = ('i', 't', 'z')

    class T(Struct):
        _fields_ = [UBInt8('h'), Field('m', Middle), FixedSizeArray('r', 1, Inner), UBInt8('e')]
    h, e, t, z = S.bits('h', 8), S.bits('e', 8), S.bits('t', 8), S.bits('z', 16)
    parts = []
    for i in range(2):
        a, l, o = S.bits('a%d' % i, 8), [pair(S, 'l%d' % i) for _ in range(size(S, 'n%d' % i, 1))], named(S, 'o%d' % i, 1)
        x, y = S.bits('x%d' % i, 2), S.bits('y%d' % i, 6)
        has = S.conc(a > 99)
        parts.append((a, l, o, x, y, has))

    def make(p):
        a, l, o, x, y, has = p
        return Inner(a=a, l=[Pair(k=k, v=v) for k, v in l], o=Named(name=o[0], n=o[1]) if has else None, x=x, y=y)

    def enc(p):
        a, l, o, x, y, has = p
        return [a, len(l)] + sum([pair_bytes(q) for q in l], []) + (named_bytes(o) if has else []) + [x | (y << 2)]
    return Case(T, lambda: dict(h=h, e=e, m=Middle(i=make(parts[0]), t=t, z=z), r=[make(parts[1])]),
                [h] + enc(parts[0]) + [t] + be(z, 2) + enc(parts[1]) + [e])


def inherited(S, big):
    class Base(Struct):
        _fields_ = [UBInt8('a'), VarSizeString('s', UBInt8)]

    class T(Base):
        _fields_ = Base._fields_ + [ULInt16('b')]

        def __init__(self, extra=None):
            super(T, self).__init__()
            self.extra = extra
    a, b, s = S.bits('a', 8), S.bits('b', 16), raw(S, 's', size(S, 'n', 2))
    return Case(T, lambda: dict(a=a, b=b, s=s), [a, len(s)] + list(s) + le(b, 2))


def same_fields(S, big):
    """a class that inherits the field list itself"""
    class Base(Struct):
        _fields_ = (UBInt8('a'), VarSizeArray('l', UBInt8, UBInt8))

    class T(Base):
        pass
    a, l = S.bits('a', 8), [S.bits('l%d' % i, 8) for i in range(size(S, 'n', 2))]
    return Case(T, lambda: dict(a=a, l=list(l)), [a, len(l)] + l)


def nothing(S, big):
    class T(Struct):
        _fields_ = []
    return Case(T, lambda: {}, [])


CASES = [numbers, floats, padded, var_strings, user_prefixes, user_types, padding, arrays, struct_arrays, array_of_arrays, pointers, nested_pointers, bit_groups,
         positional_bits, constants, optionals, lazy, mapped, selected, selected_lists, nested, inherited, same_fields, nothing]
