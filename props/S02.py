"""A struct is its fields in order, and its size is what it writes."""
import io
from infi.instruct.string import PADDING_DIRECTION_BOTH
from .lib import *
from . import structs, compose
from .structs import *

BOUNDS = ('24 structs of all kinds of fields and nestings (numbers, floats, strings, buffers, padding, arrays, arrays of structs and of arrays, pointers, bit groups, '
          'constants, optional, lazy and mapped fields, selected structs, inheritance, user-defined serializers): every field value; strings and lists of up to 1..2 '
          '(thorough 2..4) elements; every pair of two cases one after the other')
BOUNDS += '; structs of any two of 20 kinds of field side by side or the second in a nested struct, list, lazy group, optional field (props/compose.py; quick: fewer arrangements; thorough: any three)'


def written(S, cfg):
    case, big = cfg
    c = case(S, big)
    o = c.object()
    data = o.to_bytes()
    S.observe('data', data)
    S.check(same_bytes(S, data, c.want), 'bytes written')
    S.check(c.T.sizeof(o) == len(c.want), 'size')
    S.check(same_bytes(S, c.T.write_to_string(o), c.want), 'write_to_string')
    s = io.BytesIO()
    s.write(b'ab')
    c.T.write_to_stream(o, s)
    o.write_to_stream(o, s)
    S.check(same_bytes(S, s.getvalue(), [97, 98] + c.want + c.want), 'written to a stream, twice')
    c.check_values(S, o, 'writing leaves the value')


def restored(S, cfg):
    case, big = cfg
    c = case(S, big)
    t = c.T.create_from_string(bytes(bytearray(c.want)))
    S.check(c.T.sizeof(t) == len(c.want), 'size of what was read')
    c.check_values(S, t, 'read')
    S.check(same_bytes(S, t.to_bytes(), c.want), 'writes what it read')
    S.check(c.T.sizeof(t) == len(c.want), 'and its size')


def assigned(S, cfg):
    """fields set one by one, after the instance was made from nothing or read"""
    case, big = cfg
    c = case(S, big)
    how = S.choice('how', ('new', 'read'))
    t = c.T() if how == 'new' else c.T.create_from_string(bytes(bytearray(c.want)))
    v = c.make()
    names = sorted(v)
    for k in names if S.choice('order', (True, False)) else reversed(names):
        setattr(t, k, v[k])
    S.check(c.T.sizeof(t) == len(c.want), 'size')
    S.check(same_bytes(S, t.to_bytes(), c.want), 'written')
    S.check(c.T.sizeof(t) == len(c.want), 'size after writing')


def with_padding(S, cfg):
    """content that holds padding bytes anywhere"""
    class T(Struct):
        _fields_ = [VarSizeString('r', UBInt8), VarSizeString('l', UBInt8, padding=b' ', padding_direction=PADDING_DIRECTION_LEFT),
                    PaddedString('p', 3), VarSizeString('b', ULInt16, padding=b'ab', padding_direction=PADDING_DIRECTION_BOTH), UBInt8('e'),
                    VarSizeBuffer('w', UBInt8), VarSizeArray('m', UBInt8, VarSizeStringMarshal(UBInt8, b'*'))]
    v = dict((k, b'') for k in 'rlpbw')
    which = S.choice('which', cfg)
    v[which] = S.bytes('v', S.choice('n', (1, 2, 3)))
    m = [S.bytes('x', 2), b'', b'**'] if which == 'w' else []
    t = T(m=m, e=5, **v)
    data = t.to_bytes()
    S.observe('data', data)
    S.check(T.sizeof(t) == len(data), 'size')
    k = S.choice('k', (0, 2))
    A = VarSizeArrayMarshal(UBInt8, T)
    S.check(A.sizeof([t] * k) == 1 + k * len(data), 'size in a list')
    r = T.create_from_string(bytes(data))
    S.check(S.and_(r.e == 5, T.sizeof(r) == len(r.to_bytes())), 'size of what was read')
    S.check(same_bytes(S, r.to_bytes(), data), 'writes what it read')
    mm = T.min_max_sizeof()
    S.check(mm.min <= len(data) and len(data) <= mm.max, 'within the bounds')


def derived(S, cfg):
    """an instance of a derived struct in a field of the base struct's type"""
    class Base(Struct):
        _fields_ = [UBInt8('a')]

    class Derived(Base):
        _fields_ = Base._fields_ + [VarSizeString('s', UBInt8)]

    class T(Struct):
        _fields_ = [UBInt8('h'), Field('x', Base), VarSizeArray('l', UBInt8, Base), OptionalField('o', Base, lambda o, s, c: True), UBInt8('e')]
    h, a, e = S.bits('h', 8), S.bits('a', 8), S.bits('e', 8)
    parts = []
    for i in range(3):
        if S.choice('derived%d' % i, (True, False)):
            s = raw(S, 's%d' % i, size(S, 'n%d' % i, 1))
            parts.append((Derived(a=a, s=s), [a, len(s)] + list(s)))
        else:
            parts.append((Base(a=a), [a]))
    t = T(h=h, x=parts[0][0], l=[parts[1][0]], o=parts[2][0], e=e)
    want = [h] + parts[0][1] + [1] + parts[1][1] + parts[2][1] + [e]
    S.check(same_bytes(S, t.to_bytes(), want), 'written')
    S.check(T.sizeof(t) == len(want), 'size')


def named(S, cfg):
    """a struct may have any name, also that of the library's own classes"""
    for name in ('Struct', 'StructType', 'Field', 'T'):
        T = type(Struct)(name, (Struct,), dict(_fields_=[UBInt16('a'), VarSizeString('s', UBInt8), UBInt8('b', 3)]))
        D = type(Struct)(name, (T,), dict(_fields_=T._fields_ + [UBInt8('c')]))
        a, s, c = S.bits('a' + name, 16), raw(S, 's' + name, 2), S.bits('c' + name, 8)
        want = be(a, 2) + [2] + list(s) + [3]
        S.check(same_bytes(S, T(a=a, s=s).to_bytes(), want), 'written by ' + name)
        S.check(same_bytes(S, D(a=a, s=s, c=c).to_bytes(), want + [c]), 'written by derived ' + name)
        d = D.create_from_string(bytes(bytearray(want + [c])))
        S.check(S.and_(S.eq(d.a, a), S.eq(d.s, s), d.b == 3, S.eq(d.c, c)), 'read by ' + name)


def shared(S, cfg):
    """the same field objects in several structs, in different places"""
    kind = cfg
    if kind == 'bits':
        field, k = BitFields(BitPadding(1), BitField('p', 3), BitField('q', 4)), 1
        p, q = S.bits('p', 3), S.bits('q', 4)
        vs, part = dict(p=p, q=q), [(p << 1) | (q << 4)]
    elif kind == 'lazy':
        field, k = Lazy(UBInt16('p'), UBInt8('q')), 3
        p, q = S.bits('p', 16), S.bits('q', 8)
        vs, part = dict(p=p, q=q), be(p, 2) + [q]
    elif kind == 'string':
        field, k = VarSizeString('p', UBInt8), 3
        p = raw(S, 'p', 2)
        vs, part = dict(p=p), [2] + list(p)
    elif kind == 'array':
        field, k = FixedSizeArray('p', 2, UBInt16), 4
        p = [S.bits('p', 16), S.bits('q', 16)]
        vs, part = dict(p=p), be(p[0], 2) + be(p[1], 2)
    else:
        field, k = ConstField('p', 0x1234, UBInt16), 2
        vs, part = dict(), [0x12, 0x34]

    class A(Struct):
        _fields_ = [field, UBInt8('a')]

    class B(Struct):
        _fields_ = [UBInt16('b'), field]

    class C(Struct):
        _fields_ = [UBInt8('c'), Field('x', B), Field('y', A)]

    class D(A):
        _fields_ = A._fields_ + [UBInt8('d')]
    a, b, c = S.bits('a', 8), S.bits('b', 16), S.bits('c', 8)
    todo = [(A, lambda: dict(vs, a=a), part + [a]), (B, lambda: dict(vs, b=b), be(b, 2) + part),
            (C, lambda: dict(c=c, x=B(b=b, **vs), y=A(a=a, **vs)), [c] + be(b, 2) + part + part + [a]),
            (D, lambda: dict(vs, a=a, d=c), part + [a, c])]
    first = S.choice('first', range(4))
    for cls, values, want in todo[first:] + todo[:first]:
        o = cls(**values())
        S.check(same_bytes(S, o.to_bytes(), want), 'written by ' + cls.__name__)
        S.check(cls.sizeof(o) == len(want), 'size')
        t = cls.create_from_string(bytes(bytearray(want)))
        for u in ([t.x, t.y] if cls is C else [t]):
            S.check(S.and_(*[S.eq(getattr(u, n), vs[n]) for n in vs]), 'read by ' + cls.__name__)
        S.check(same_bytes(S, t.to_bytes(), want), 'writes what it read')


def composed(S, cfg):
    """two structs as fields of one, with a byte in between"""
    first, second, big = cfg
    a, b = first(Prefixed(S, 'p'), big), second(Prefixed(S, 'q'), big)

    class T(Struct):
        _fields_ = [Field('p', a.T), UBInt8('n'), Field('q', b.T)]
    n = S.bits('n', 8)
    o = T(p=a.object(), n=n, q=b.object())
    want = a.want + [n] + b.want
    data = o.to_bytes()
    S.check(same_bytes(S, data, want), 'written')
    S.check(T.sizeof(o) == len(want), 'size')
    t = T.create_from_string(bytes(data))
    S.check(t.n == n, 'between')
    a.check_values(S, t.p, 'first')
    b.check_values(S, t.q, 'second')
    S.check(T.sizeof(t) == len(want), 'size of what was read')


def arranged(S, cfg):
    """any kind of field next to any kind"""
    first, depth, hows = cfg
    c = compose.one_of(S, first, depth, hows)
    o = c.object()
    S.check(c.T.sizeof(o) == len(c.want), 'size')
    S.check(same_bytes(S, o.to_bytes(), c.want), 'written')
    s = io.BytesIO(b'ab' + bytes(bytearray(c.want)) + b'cd')
    s.seek(2)
    t = c.T.create_from_stream(s)
    S.check(s.tell() == 2 + len(c.want), 'consumed')
    S.check(c.T.sizeof(t) == len(c.want), 'size of what was read')
    c.check_values(S, t, 'read')
    S.check(same_bytes(S, t.to_bytes(), c.want), 'writes what it read')


class Prefixed(object):
    """inputs of a part of a composition"""

    def __init__(self, S, prefix):
        self.S, self.prefix = S, prefix

    def __getattr__(self, name):
        f = getattr(self.S, name)
        if name in ('int', 'bits', 'bool', 'choice', 'bytes', 'bytearray', 'str', 'f32', 'f64'):
            return lambda n, *a: f(self.prefix + n, *a)
        return f


def obligations(tier):
    full = tier == 'thorough'
    cases = structs.CASES
    obs = group('written', written, [(c, full) for c in cases], 2)
    obs += group('restored', restored, [(c, full) for c in cases], 2)
    obs += group('assigned', assigned, [(c, False) for c in cases], 2)
    obs += group('with-padding', with_padding, ['rl', 'pb', 'w'], 1)
    obs += group('derived', derived, [None], 1)
    obs += [Ob('named', named)] + group('shared', shared, ['bits', 'lazy', 'string', 'array', 'const'], 3)
    light = [c for c in cases if c not in (structs.nested, structs.selected, structs.array_of_arrays, structs.optionals, structs.struct_arrays,
                                           structs.nested_pointers)]
    n = len(light)
    pairs = [(light[i], light[(i * 5 + 3) % n], False) for i in range(n)]
    if full:
        pairs = [(a, b, False) for a in light for b in light]
    obs += group('arranged', arranged, [(k, 1, compose.HOWS if full else compose.HOWS[:4]) for k in compose.KINDS], 1)
    if full:
        obs += group('arranged-three', arranged, [(k, 2, compose.HOWS[:4]) for k in compose.KINDS], 1)
    obs += group('composed', composed, pairs, 4)
    return obs
