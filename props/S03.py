"""Every instance size lies within the declared size bounds."""
import sys
from .lib import *
from . import structs, compose
from .structs import *
from infi.instruct.base import MinMax, UNBOUNDED_MIN_MAX, ZERO_MIN_MAX
from infi.instruct.padding import BytePaddingMarshal
from infi.instruct.numeric_macros import *

BOUNDS = ('24 structs and 45 serializers of every kind with every value within the bounds of S02; prefixes of 1..4 bytes; size bounds: every pair of '
          'bounds of up to 67 bits; '
          'sequences of 0..3 elements of any size within any bounds of up to 2**12 (255 elements: up to 15); one-byte prefixed values of up to 255 elements')
BOUNDS += '; structs of any two of 20 kinds of field side by side or the second in a nested struct, list, lazy group, optional field (props/compose.py; quick: fewer arrangements)'
TOP = sys.maxsize


def within(S, mm, n, label):
    S.check(S.and_(0 <= mm.min, mm.min <= n, n <= mm.max, mm.max <= TOP), label)
    S.check(mm.min != mm.max or mm.min == n, label + ', fixed size')


def whole(S, cfg):
    case, big = cfg
    c = case(S, big)
    o = c.object()
    n = len(o.to_bytes())
    mm = c.T.min_max_sizeof()
    S.check(n == len(c.want), 'size written')
    within(S, mm, n, 'within the bounds')
    f = Field('f', c.T)
    within(S, f.min_max_sizeof(), n, 'as a field')
    S.check((f.min_max_sizeof().min == f.min_max_sizeof().max) == bool(f.is_fixed_size()), 'fixed size')
    k = S.choice('times', range(3))
    m = FixedSizeArrayMarshal(k, c.T)
    within(S, m.min_max_sizeof(), k * n, 'repeated')
    S.check(m.sizeof([o] * k) == k * n, 'size repeated')
    within(S, VarSizeArrayMarshal(UBInt8, c.T).min_max_sizeof(), 1 + k * n, 'counted')
    within(S, SumSizeArrayMarshal(ULInt32, c.T).min_max_sizeof(), 4 + k * n, 'prefixed by the size')

    class Two(Struct):
        _fields_ = [f, UBInt16('g'), OptionalField('h', c.T, lambda *a: True)]
    t = Two(f=o, g=1, h=o if S.choice('has', (True, False)) else None)
    within(S, Two.min_max_sizeof(), Two.sizeof(t), 'in another struct')
    S.check(Two.sizeof(t) == len(t.to_bytes()), 'size of another struct')

    class Given(Struct):
        _fields_ = [UBInt16('g'), OptionalField('h', c.T, lambda *a: True, o), OptionalField('i', UBInt32, lambda *a: True, 7)]
    t = Given(g=1)
    within(S, Given.min_max_sizeof(), len(t.to_bytes()), 'optional fields with defaults')
    if S.choice('absent', (True, False)):
        t.h = None
    t.i = None
    within(S, Given.min_max_sizeof(), len(t.to_bytes()), 'optional fields with defaults set to None')


# ------------------------------------------------------------------------------------------------ serializers
def a_string(S, big):
    return S.bytes('v', S.choice('n', range(5 if big else 4)))


def exactly(n):
    return lambda S, big: S.bytes('v', n)


def up_to(n):
    return lambda S, big: S.bytes('v', S.choice('n', range(n + 1)))


def a_number(S, big):
    return S.bits('v', 7)


def a_list(e, most=2):
    return lambda S, big: [e(Part(S, str(i)), big) for i in range(S.choice('n', range(most + 1)))]


def list_of(n, e):
    return lambda S, big: [e(Part(S, str(i)), big) for i in range(n)]


class Part(object):
    def __init__(self, S, suffix):
        self.S, self.suffix = S, suffix

    def bytes(self, name, n):
        return self.S.bytes(name + self.suffix, n)

    def bits(self, name, n):
        return self.S.bits(name + self.suffix, n)

    def choice(self, name, options):
        return self.S.choice(name + self.suffix, options)


def a_pair(S, big):
    return Pair(k=S.bits('k', 8), v=S.bits('v', 16))


def a_named(S, big):
    return Named(name=S.bytes('s', S.choice('sl', range(3))), n=S.bits('v', 8))


def a_kind(S, big):
    k = S.choice('kind', range(3))
    return KindA(a=S.bits('v', 16)) if k == 0 else KindB(b=S.bytes('v', S.choice('bl', range(3)))) if k == 1 else KindC(kind=9)


class Pointing(Struct):
    _fields_ = [UBInt8('n'), VarSizeBuffer('b', ReadPointer('n')), VarSizeArray('l', ReadPointer('n'), UBInt8)]


def a_pointing(S, big):
    n = S.choice('n', range(3))
    return Pointing(n=n, b=S.bytes('b', n), l=[1] * n)


MARSHALS = [(m, a_number) for m in (UBInt8, ULInt16, SBInt32, SNInt64)] + [(BFloat32, lambda S, big: 1.5), (LFloat64, lambda S, big: 0.0)]
MARSHALS += [(PaddedStringMarshal(3), up_to(3)), (PaddedStringMarshal(0), exactly(0)), (PaddedStringMarshal(2, b' ', PADDING_DIRECTION_LEFT), up_to(2)),
             (FixedSizeBufferMarshal(2), exactly(2)), (FixedSizeBufferMarshal(0), exactly(0))]
for p in (UBInt8, ULInt16, UBInt32):
    MARSHALS += [(VarSizeStringMarshal(p), a_string), (VarSizeStringMarshal(p, b' ', PADDING_DIRECTION_LEFT), a_string), (VarSizeBufferMarshal(p), a_string),
                 (VarSizeArrayMarshal(p, UBInt8), a_list(a_number)), (VarSizeArrayMarshal(p, Named), a_list(a_named)),
                 (VarSizeArrayMarshal(p, PaddedStringMarshal(0)), a_list(exactly(0))),
                 (SumSizeArrayMarshal(p, UBInt16), a_list(a_number)), (SumSizeArrayMarshal(p, Named), a_list(a_named))]
MARSHALS += [(FixedSizeArrayMarshal(n, UBInt16), list_of(n, a_number)) for n in (0, 1, 3)]
MARSHALS += [(FixedSizeArrayMarshal(2, Named), list_of(2, a_named)), (FixedSizeArrayMarshal(2, VarSizeBufferMarshal(UBInt8)), list_of(2, up_to(2))),
             (VarSizeArrayMarshal(UBInt8, FixedSizeArrayMarshal(2, VarSizeBufferMarshal(UBInt8))), a_list(list_of(2, up_to(1)), 1)),
             (FixedSizeMappingMarshal({1: 2, 'x': 300}, UBInt16), lambda S, big: S.choice('v', (1, 'x'))),
             (BytePaddingMarshal(3), lambda S, big: None), (BytePaddingMarshal(0), lambda S, big: None),
             (StructSelectorMarshal(UBInt8, {1: KindA, 2: KindB}), lambda S, big: KindA(a=1) if S.choice('w', (0, 1)) else KindB(b=S.bytes('v', S.choice('n', (0, 2))))),
             (StructSelectorMarshal(UBInt8, {1: KindA, 2: KindB}, KindC), a_kind), (StructSelectorMarshal(UBInt8, {1: KindA, 2: KindA}, KindA), lambda S, big: KindA(a=S.bits('v', 16))),
             (FuncStructSelectorMarshal(StructFunc(choose)), a_kind), (FuncStructSelectorMarshal(StructFunc(choose), (1, 300)), a_kind),
             (Pair, a_pair), (Named, a_named), (Pointing, a_pointing)]


def serializer(S, cfg):
    i, big = cfg
    m, gen = MARSHALS[i]
    v = gen(S, big)
    data = m.write_to_string(v)
    S.observe('data', data)
    mm = m.min_max_sizeof()
    within(S, mm, len(data), 'within the bounds')
    S.check(m.sizeof(v) == len(data), 'sizeof')
    for f in (Field('f', m), OptionalField('f', m, lambda *a: True)):
        within(S, f.min_max_sizeof(), len(data), 'field')

    class T(Struct):
        _fields_ = [UBInt8('a'), Field('f', m), ULInt16('b')]
    within(S, T.min_max_sizeof(), len(T(a=1, f=v, b=2).to_bytes()), 'struct')
    S.check(not hasattr(m, 'is_fixed_size') or bool(m.is_fixed_size()) == (mm.min == mm.max), 'is_fixed_size')


class Sized(Marshal):
    """a serializer whose values are their own sizes, with any bounds"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def sizeof(self, obj):
        return obj

    def min_max_sizeof(self):
        return MinMax(self.lo, self.hi)


def any_element(S, cfg):
    """sequences of elements of any size within any bounds"""
    prefix, ks, top = cfg
    lo, hi = S.int('lo', 0, top), S.int('hi', 0, top)
    S.assume(lo <= hi)
    e = Sized(lo, hi)
    k = S.choice('times', ks)
    sizes = [S.int('size%d' % i, 0, top) for i in range(min(k, 3))]
    for x in sizes:
        S.assume(S.and_(lo <= x, x <= hi))
    v = sizes if k <= 3 else sizes + [sizes[2]] * (k - 3)
    total = sum(v)
    m = VarSizeArrayMarshal(prefix, e)
    n = m.sizeof(v)
    S.check(n == prefix.sizeof(0) + total, 'counted sizeof')
    within(S, m.min_max_sizeof(), n, 'counted')
    m = FixedSizeArrayMarshal(k, e)
    S.check(m.sizeof(v) == total, 'repeated sizeof')
    within(S, m.min_max_sizeof(), total, 'repeated')
    n = prefix.sizeof(0) + total
    m = SumSizeArrayMarshal(prefix, e)
    S.check(S.implies(total < 1 << 8 * prefix.sizeof(0), m.sizeof(v) == n), 'prefixed by the size sizeof')
    mm = m.min_max_sizeof()
    S.check(S.implies(total < 1 << 8 * prefix.sizeof(0), S.and_(mm.min <= n, n <= mm.max)), 'prefixed by the size')
    class Around(Struct):
        _fields_ = [Field('a', e), UBInt8('b'), Field('c', FixedSizeArrayMarshal(k, e)), OptionalField('d', e, lambda *a: True)]
    if k < 3:
        lo1, hi1 = lo * (k + 1) + 1, hi * (k + 1) + 1
        mm = Around.min_max_sizeof()
        S.check(S.and_(mm.min <= lo1, hi1 + hi <= mm.max), 'in a struct')


def longest(S, which):
    """the longest values a one-byte prefix allows"""
    n = S.choice('n', (0, 1, 2, 254, 255))
    k = S.choice('k', (0, 1, 255))
    x = b'x' * n
    m, v, size = {
        'string': lambda: (VarSizeStringMarshal(UBInt8), x, 1 + n),
        'buffer': lambda: (VarSizeBufferMarshal(UBInt8), x, 1 + n),
        'strings': lambda: (VarSizeArrayMarshal(UBInt8, VarSizeStringMarshal(UBInt8)), [x] * k, 1 + k * (1 + n)),
        'buffers': lambda: (FixedSizeArrayMarshal(k, VarSizeBufferMarshal(UBInt8)), [x] * k, k * (1 + n)),
        'lists': lambda: (VarSizeArrayMarshal(UBInt8, VarSizeArrayMarshal(UBInt8, UBInt16)), [[7] * n] * min(k, 5), 1 + min(k, 5) * (1 + 2 * n)),
        'sum': lambda: (SumSizeArrayMarshal(UBInt8, UBInt8), [7] * n, 1 + n),
        'sums': lambda: (SumSizeArrayMarshal(UBInt16, VarSizeBufferMarshal(UBInt8)), [x] * k, 2 + k * (1 + n)),
    }[which]()
    if size - 2 > 65535 and which == 'sums':
        return S.check(True, 'too long')
    b = S.bits('before', 8)

    class T(Struct):
        _fields_ = [UBInt8('a'), Field('f', m)]
    o = T(a=b, f=v)
    S.check(m.sizeof(v) == size, 'sizeof')
    within(S, m.min_max_sizeof(), size, 'bounds')
    within(S, T.min_max_sizeof(), T.sizeof(o), 'struct')
    S.check(S.and_(T.sizeof(o) == 1 + size, len(o.to_bytes()) == 1 + size), 'written')


def groups(S, cfg):
    """groups of fields: declared size and written size"""
    class T(Struct):
        _fields_ = [BitFields(BitField('a', 3), BitField('b', 21)), BitFields(BitField('c', Bits[0:3, 12:16]), BitField('d', Bits[4:8])),
                    Lazy(UBInt16('e'), BitFields(BitField('f', 8)), PaddedString('g', 3), Field('p', Pair)), BytePadding(2), ConstField('k', 3, UBInt32)]
    t = T(a=S.bits('a', 3), b=S.bits('b', 21), c=S.bits('c', 7), d=S.bits('d', 4), e=S.bits('e', 16), f=S.bits('f', 8), g=S.bytes('g', 2),
          p=Pair(k=1, v=2))
    n = len(t.to_bytes())
    S.check(n == 3 + 2 + 2 + 1 + 3 + 3 + 2 + 4, 'size written')
    within(S, T.min_max_sizeof(), n, 'bounds')
    S.check(T.sizeof(t) == n, 'sizeof')


# ------------------------------------------------------------------------------------------------ the bounds themselves
def clip(S, v):
    return S.ite(v < 0, 0, S.ite(v > TOP, TOP, v))


def made(S, name, lo=-(1 << 66), hi=1 << 66):
    a, b = S.int(name + 'lo', lo, hi), S.int(name + 'hi', lo, hi)
    return a, b


def bounds(S, how):
    a, b = made(S, 'x')
    out = S.outcome({'two': lambda: MinMax(a, b), 'tuple': lambda: MinMax((a, b)), 'list': lambda: MinMax([a, b]), 'one': lambda: MinMax(a),
                     'none': lambda: MinMax()}[how])
    if how == 'one':
        b = TOP
    elif how == 'none':
        a, b = 0, TOP
    if S.conc(a > b):
        S.check(not out.ok, 'reversed bounds are refused')
        return
    S.check(out.ok, 'made')
    m = out.value
    S.observe('m', tuple(m))
    S.check(S.and_(m.min == clip(S, a), m.max == clip(S, b)), 'clipped to the limits')
    S.check(S.and_(m[0] == m.min, m[1] == m.max), 'by index')
    S.check(S.eq(bool(m.is_unbounded()), m.max == TOP), 'unbounded')
    c = MinMax(m)
    S.check(S.and_(c.min == m.min, c.max == m.max), 'copied')


def sums(S, cfg):
    ms = []
    for i in range(cfg):
        a, b = made(S, 'xyz'[i], 0, TOP)
        S.assume(a <= b)
        ms.append(MinMax(a, b))
    r = ms[0]
    for m in ms[1:]:
        r = r + m
    lo, hi = sum(m.min for m in ms), sum(m.max for m in ms)
    S.check(S.and_(r.min == clip(S, lo), r.max == clip(S, hi)), 'sum saturates')
    S.check(type(r) is MinMax, 'is a bound')
    z = sum(ms, ZERO_MIN_MAX)
    S.check(S.and_(z.min == r.min, z.max == r.max), 'sum from zero')
    u = r + UNBOUNDED_MIN_MAX
    S.check(S.and_(u.min == r.min, u.max == TOP, u.is_unbounded()), 'unbounded stays unbounded')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('struct', whole, [(c, full) for c in structs.CASES], 2)
    obs += group('arranged', whole, [(c, False) for c in compose.cases(1, compose.HOWS if full else compose.FEW, among=None if full else compose.SOME)], 1)
    obs += group('serializer', serializer, [(i, full) for i in range(len(MARSHALS))], 8)
    obs += group('any-element', any_element, [(p, (0, 1, 2, 3), 1 << 12) for p in (UBInt8, ULInt16, UBInt32)] + [(p, (255,), 15) for p in (UBInt8, ULInt16)], 5)
    obs += group('longest', longest, ['string', 'buffer', 'strings', 'buffers', 'lists', 'sum', 'sums'], 7)
    obs += group('groups', groups, [None], 1)
    obs += group('bounds', bounds, ['two', 'tuple', 'list', 'one', 'none'], 8)
    obs += group('sums', sums, [2, 3], 1)
    return obs
