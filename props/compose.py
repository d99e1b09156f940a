"""Structs made of chosen sequences of fields: any kind next to any kind, side by side or one of them inside another part.

Each kind is a function (S, p) returning a Piece: fields named with the prefix p, values for them (a function), and the bytes they are written as."""
from .lib import *
from .structs import *
from .structs import Case, be, le, raw, size
from infi.instruct.string import PADDING_DIRECTION_LEFT


class Piece(object):
    def __init__(self, fields, make, want, after=None):
        self.fields, self.make, self.want, self.after = fields, make, want, after or {}
        self.lazy = all(f.is_fixed_size() for f in fields)  # what a lazy group may hold


def number(S, p):
    v = S.bits(p + 'v', 8)
    return Piece([UBInt8(p + 'v')], lambda: {p + 'v': v}, [v])


def wide(S, p):
    v = S.int(p + 'v', -(1 << 31), (1 << 31) - 1)
    return Piece([SLInt32(p + 'v')], lambda: {p + 'v': v}, le(v, 4))


def defaulted(S, p):
    return Piece([UBInt16(p + 'v', 0x0102)], lambda: {}, [1, 2], {p + 'v': 0x0102})


def real(S, p):
    v = S.f64(p + 'v')
    S.assume(S.not_(S.is_nan(v)))
    return Piece([LFloat64(p + 'v')], lambda: {p + 'v': v}, le(S.float_bits(v, 8), 8))


def pad(S, p):
    return Piece([BytePadding(2, b'\xee')], lambda: {}, [0xee, 0xee])


def text(S, p):
    n = size(S, p + 'n', 2, 1)
    v = raw(S, p + 'v', n)
    return Piece([PaddedString(p + 'v', 2)], lambda: {p + 'v': v}, list(v) + [0] * (2 - n))


def var_text(S, p):
    n = S.choice(p + 'n', (0, 2))
    v = raw(S, p + 'v', n)
    return Piece([VarSizeString(p + 'v', UBInt8)], lambda: {p + 'v': v}, [n] + list(v))


def var_bytes(S, p):
    n = S.choice(p + 'n', (0, 2))
    v = S.bytes(p + 'v', n)
    return Piece([VarSizeBuffer(p + 'v', ULInt16)], lambda: {p + 'v': v}, [n, 0] + list(v))


def fixed_list(S, p):
    v = [S.bits(p + 'v%d' % i, 16) for i in range(2)]
    return Piece([FixedSizeArray(p + 'v', 2, ULInt16)], lambda: {p + 'v': list(v)}, le(v[0], 2) + le(v[1], 2))


def counted_list(S, p):
    n = S.choice(p + 'n', (0, 2))
    v = [S.bits(p + 'v%d' % i, 8) for i in range(n)]
    return Piece([VarSizeArray(p + 'v', UBInt8, UBInt8)], lambda: {p + 'v': list(v)}, [n] + v)


def summed_list(S, p):
    n = S.choice(p + 'n', (0, 2))
    v = [raw(S, p + 'v%d' % i, 1) for i in range(n)]
    return Piece([SumSizeArray(p + 'v', UBInt16, VarSizeStringMarshal(UBInt8))], lambda: {p + 'v': list(v)}, [0, 2 * n] + sum([[1, x[0]] for x in v], []))


def struct_list(S, p):
    n = S.choice(p + 'n', (0, 1))
    v = [pair(S, p + 'v%d' % i) for i in range(n)]
    return Piece([VarSizeArray(p + 'v', UBInt8, Pair)], lambda: {p + 'v': [Pair(k=k, v=x) for k, x in v]}, [n] + sum([pair_bytes(x) for x in v], []))


def bits(S, p):
    a, b, c = S.bits(p + 'a', 3), S.bits(p + 'b', 4), S.bits(p + 'c', 1)
    return Piece([BitFields(BitField(p + 'a', 3), BitField(p + 'b', 4), BitFlag(p + 'c'))], lambda: {p + 'a': a, p + 'b': b, p + 'c': c},
                 [a | (b << 3) | (c << 7)])


def placed_bits(S, p):
    a, b = S.bits(p + 'a', 6), S.bits(p + 'b', 10)
    return Piece([BitFields(BitField(p + 'a', Bits[10:16]), BitField(p + 'b', Bits[0:10]))], lambda: {p + 'a': a, p + 'b': b}, le((a << 10) | b, 2))


def constant(S, p):
    return Piece([ConstField(p + 'v', 0xabcd, UBInt16)], lambda: {}, [0xab, 0xcd], {p + 'v': 0xabcd})


def maybe(S, p):
    f, v = S.bits(p + 'f', 1), S.bits(p + 'v', 16)
    has = S.conc(f == 1)
    return Piece([UBInt8(p + 'f'), OptionalField(p + 'v', UBInt16, lambda o, s, c: getattr(o, p + 'f'))],
                 lambda: {p + 'f': f, p + 'v': v if has else None}, [f] + (be(v, 2) if has else []))


def inner(S, p):
    v = named(S, p, 1)
    return Piece([Field(p + 'v', Named)], lambda: {p + 'v': Named(name=v[0], n=v[1])}, named_bytes(v))


def chosen(S, p):
    make, want = kind(S, p)
    return Piece([Field(p + 'v', StructSelectorMarshal(UBInt8, {1: KindA, 2: KindB}, KindC))], lambda: {p + 'v': make()}, want)


def translated(S, p):
    v = S.choice(p + 'v', ('x', 'y'))
    return Piece([Field(p + 'v', FixedSizeMappingMarshal({'x': 7, 'y': 0x700}, ULInt16))], lambda: {p + 'v': v}, {'x': [7, 0], 'y': [0, 7]}[v])


def pointed(S, p):
    n = S.choice(p + 'n', (0, 2))
    v = S.bytes(p + 'v', n)
    return Piece([UBInt8(p + 'n'), VarSizeBuffer(p + 'v', ReadPointer(p + 'n'))], lambda: {p + 'n': n, p + 'v': v}, [n] + list(v))


KINDS = [number, wide, defaulted, real, pad, text, var_text, var_bytes, fixed_list, counted_list, summed_list, struct_list, bits, placed_bits,
         constant, maybe, inner, chosen, translated, pointed]


# ------------------------------------------------------------------------------------------------ arrangements
def side_by_side(S, ps):
    class T(Struct):
        _fields_ = sum([x.fields for x in ps], [])

    def make():
        v = {}
        for x in ps:
            v.update(x.make())
        return v
    return Case(T, make, sum([x.want for x in ps], []), merged(ps))


def merged(ps):
    r = {}
    for x in ps:
        r.update(x.after)
    return r


def part_struct(x):
    class P(Struct):
        _fields_ = x.fields
        names = tuple(sorted(list(x.make()) + list(x.after)))
    return P


def wrapped(S, ps, how):
    """the last piece inside another part"""
    first, x = ps[:-1], ps[-1]
    if how == 'lazy':
        return lazily(S, first, x)
    P = part_struct(x)
    fields = sum([y.fields for y in first], [])
    extra = {'struct': [Field('w', P), UBInt8('e')], 'list': [VarSizeArray('w', UBInt8, P), UBInt8('e')],
             'sum': [SumSizeArray('w', ULInt16, P), UBInt8('e')],
             'optional': [OptionalField('w', P, lambda o, s, c: True), UBInt8('e')], 'fixed': [FixedSizeArray('w', 2, P), UBInt8('e')]}[how]

    class T(Struct):
        _fields_ = fields + extra
    e = S.bits('e', 8)

    def make():
        v = {'e': e}
        for y in first:
            v.update(y.make())
        v['w'] = [P(**x.make()), P(**x.make())] if how in ('list', 'fixed', 'sum') else P(**x.make())
        return v
    body = {'list': [2] + x.want * 2, 'fixed': x.want * 2, 'sum': le(2 * len(x.want), 2) + x.want * 2}.get(how, x.want)
    return Case(T, make, sum([y.want for y in first], []) + body + [e], merged(first))


def lazily(S, first, x):
    class T(Struct):
        _fields_ = sum([y.fields for y in first], []) + [Lazy(*x.fields), UBInt8('e')]
    e = S.bits('e', 8)

    def make():
        v = {'e': e}
        for y in list(first) + [x]:
            v.update(y.make())
        return v
    return Case(T, make, sum([y.want for y in first], []) + x.want + [e], merged(list(first) + [x]))


HOWS = ('flat', 'struct', 'list', 'lazy', 'optional', 'fixed', 'sum')


def arrangement(S, kinds, how):
    ps = [k(S, 'p%d_' % i) for i, k in enumerate(kinds)]
    if how == 'flat' or how == 'lazy' and not ps[-1].lazy:
        return side_by_side(S, ps)
    return wrapped(S, ps, how)


BY_NAME = dict((k.__name__, k) for k in KINDS)


def one_of(S, first, depth, hows=HOWS, among=None):
    """a struct of the first kind followed by `depth` chosen ones"""
    names = [k.__name__ for k in (among or KINDS)]
    ks = [first] + [BY_NAME[S.choice('part%d' % i, names)] for i in range(depth)]
    return arrangement(S, ks, S.choice('layout', hows))


def cases(depth=1, hows=HOWS, kinds=None, among=None):
    """cases as in structs.CASES: one for each first kind"""
    def case(k):
        f = lambda S, big: one_of(S, k, depth, hows, among)
        f.__name__ = '%s, then %s' % (k.__name__, ', '.join(['any'] * depth))
        return f
    return [case(k) for k in (kinds or KINDS)]


FEW = HOWS[:4]
SOME = [number, text, var_bytes, counted_list, summed_list, bits, constant, maybe, inner, pointed]
