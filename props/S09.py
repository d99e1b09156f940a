"""Constant fields always write and demand their constant."""
from .lib import *
from .structs import *
from infi.instruct.struct.bit import BitMarshal
from infi.instruct.struct.const import ConstField as ConstFieldClass

BOUNDS = ('29 constants: 12 integer types, floats, strings, buffers, lists, mapped values, bit fields and structs (flat, nested, with strings, bits, arrays and optional fields); '
          'every content of the encoded bytes; every assigned integer of up to 66 bits, bytes of up to 5, and None, floats, strings, lists, structs')


class Deep(Struct):
    _fields_ = [Field('p', Pair), VarSizeString('s', UBInt8), VarSizeArray('l', UBInt8, Pair), BitFields(BitField('x', 3), BitField('y', 5)),
                OptionalField('o', UBInt8, lambda o, s, c: o.x > 3)]
    names = ('p', 's', 'l', 'x', 'y', 'o')


class Twin(Struct):
    _fields_ = [UBInt8('k'), UBInt16('v')]
    names = ('k', 'v')


def deep():
    return Deep(p=Pair(k=1, v=2), s=b'ab', l=[Pair(k=3, v=4)], x=5, y=6, o=9)


INTS = [(UBInt8, 0), (UBInt8, 255), (SBInt8, -1), (ULInt16, 0x1234), (UBInt16, 0x1234), (SLInt16, -2), (UBInt32, 1), (SLInt32, -(1 << 31)), (ULInt32, 0xdeadbeef),
        (UBInt64, (1 << 64) - 1), (SBInt64, -5), (ULInt64, 1 << 63)]
# (value, serializer, its bytes)
CONSTS = [(lambda v=v: v, m, m.write_to_string(v)) for m, v in INTS]
CONSTS += [(lambda: 1.5, BFloat32, b'\x3f\xc0\x00\x00'), (lambda: -2.0, LFloat64, b'\x00\x00\x00\x00\x00\x00\x00\xc0'),
           (lambda: b'ab', PaddedStringMarshal(2), b'ab'), (lambda: b'ab', PaddedStringMarshal(4), b'ab\0\0'), (lambda: b'', PaddedStringMarshal(2), b'\0\0'),
           (lambda: b'ab', PaddedStringMarshal(3, b' ', PADDING_DIRECTION_LEFT), b' ab'), (lambda: b'a\0', FixedSizeBufferMarshal(2), b'a\0'),
           (lambda: b'xy', VarSizeStringMarshal(UBInt8), b'\x02xy'), (lambda: b'', VarSizeBufferMarshal(UBInt8), b'\0'),
           (lambda: [1, 515], FixedSizeArrayMarshal(2, UBInt16), b'\0\1\2\3'), (lambda: [7], VarSizeArrayMarshal(UBInt8, UBInt8), b'\1\7'),
           (lambda: 'on', FixedSizeMappingMarshal({'on': 1, 'off': 0}, UBInt8), b'\1'),
           (lambda: Pair(k=1, v=0x203), None, b'\1\2\3'), (lambda: Named(name=b'n', n=4), None, b'\1n\4'), (lambda: KindA(a=5), None, b'\1\0\5'),
           (deep, None, b'\1\0\2\2ab\1\3\0\4\x35\x09')]


def const(name, c):
    value, m, data = c
    return ConstField(name, value(), m) if m is not None else ConstField(name, value())


def is_struct(c):
    return c[1] is None


def check_value(S, got, c, label):
    S.check(S.conc(same(S, got, c[0]())), label)


def some_value(S, c):
    """values to assign, and whether it's the constant"""
    value, m, data = c
    kind = S.choice('assigned', ('same', 'equal', 'int', 'bytes', 'none', 'float', 'str', 'list', 'struct', 'twin'))
    v = value()
    if kind == 'same':
        return v, True
    if kind == 'equal' and isinstance(v, Pair):
        k, w = S.bits('ak', 8), S.bits('aw', 16)
        return Pair(k=k, v=w), S.and_(k == 1, w == 0x203)
    if kind == 'equal' and isinstance(v, Deep):
        v.x, v.l[0].v = S.bits('ax', 3), S.bits('av', 16)
        S.assume(v.x != 5 if S.choice('other', (True, False)) else v.l[0].v != 4)
        return v, False
    if kind in ('int', 'equal'):
        x = S.int('av', -(1 << 65), 1 << 65)
        if isinstance(v, float):
            S.assume(S.and_(x > -(1 << 20), x < 1 << 20))
            x = S.conc(x) if S.conc(x == int(v)) else 77
        return x, (x == v) if isinstance(v, (int, float)) else False
    if kind == 'bytes':
        x = S.bytes('av', S.choice('an', range(5)))
        return x, S.eq(x, v) if isinstance(v, bytes) else False
    if kind == 'none':
        return None, False
    if kind == 'float':
        return 1.25, False
    if kind == 'str':
        return 'ab', False
    if kind == 'list':
        x = [S.bits('e%d' % i, 16) for i in range(S.choice('an', range(3)))]
        return x, S.eq(x, v) if isinstance(v, list) else False
    if kind == 'struct':
        return Named(name=b'n', n=S.conc(S.int('an', 3, 5))), None
    return Twin(k=1, v=0x203), False


def assigned(S, i):
    """whatever is assigned, the constant stays"""
    c = CONSTS[i]
    f = const('c', c)

    class T(Struct):
        _fields_ = [UBInt8('a'), f, UBInt8('b')]
    a, b = S.bits('a', 8), S.bits('b', 8)
    how = S.choice('how', ('new', 'read', 'kwarg', 'other'))
    if how == 'kwarg':
        t = T(a=a, b=b, c=c[0]())
    elif how == 'other':
        t = T(a=a, b=b, c=S.choice('given', (S.bits('given_number', 64), None, b'ab', c[2], [], Pair(k=7, v=8))))
        check_value(S, t.c, c, 'whatever is given')
    elif how == 'new':
        t = T(a=a, b=b)
    else:
        t = T.create_from_string(bytes(bytearray([a])) + c[2] + bytes(bytearray([b])))
    value, equal = some_value(S, c)
    if equal is None:
        equal = isinstance(c[0](), Named) and value.n == 4
    out = S.outcome(lambda: setattr(t, 'c', value))
    if S.conc(equal):
        S.check(out.ok, 'the same value is accepted')
    else:
        S.check(not out.ok, 'any other value is refused')
        S.check(isinstance(out.exc, InstructError), 'library error')
    check_value(S, t.c, c, 'the value stays')
    S.check(same_bytes(S, t.to_bytes(), [a] + list(bytearray(c[2])) + [b]), 'the constant is written')
    check_value(S, T(a=1).c, c, 'in other instances')


def read(S, i):
    """reading succeeds exactly when the bytes denote the constant"""
    c = CONSTS[i]
    n = len(c[2])

    class T(Struct):
        _fields_ = [UBInt8('a'), const('c', c), UBInt8('b')]
    data = list(S.bytes('data', n + 2))
    good = same_bytes(S, data[1:1 + n], list(bytearray(c[2])))
    if c[1] is not None and isinstance(c[1], VarSizeStringMarshal) and not isinstance(c[1], (PaddedStringMarshal, VarSizeBufferMarshal)):
        S.assume(S.eq(data[1], c[2][0]))        # longer strings with padding denote it too
    out = S.outcome(lambda: T.create_from_string(bytes(bytearray(data))))
    if S.conc(good):
        S.reach('good')
        S.check(out.ok, 'the constant is accepted')
        t = out.value
        S.check(S.and_(S.eq(t.a, data[0]), S.eq(t.b, data[n + 1])), 'around')
        check_value(S, t.c, c, 'its value')
        S.check(same_bytes(S, t.to_bytes(), data), 'written back')
    else:
        S.check(not out.ok, 'any other content is refused')
        mapped_value = isinstance(c[1], FixedSizeMappingMarshal)
        S.check(isinstance(out.exc, (InstructError, KeyError) if mapped_value else InstructError), 'library error')


def zero_float(S, cfg):
    """contents of a float constant, by their bits"""
    class T(Struct):
        _fields_ = [ConstField('c', 1.5, cfg)]
    size = 4 if cfg in (BFloat32, LFloat32) else 8
    x = S.f32('x') if size == 4 else S.f64('x')
    S.assume(S.not_(S.is_nan(x)))
    out = S.outcome(lambda: T.create_from_string(cfg.write_to_string(x)))
    bits = S.float_bits(x, size)
    S.check(S.eq(out.ok, S.conc(bits == (0x3fc00000 if size == 4 else 0x3ff8000000000000))), 'exactly that float')


def bit_consts(S, cfg):
    class T(Struct):
        _fields_ = [BitFields(BitField('a', 3), ConstFieldClass('k', BitMarshal(3), 5), BitField('b', 2))]
    a, b = S.bits('a', 3), S.bits('b', 2)
    t = T(a=a, b=b)
    v = S.int('v', -20, 20)
    out = S.outcome(lambda: setattr(t, 'k', v))
    S.check(S.eq(out.ok, S.conc(v == 5)), 'assigned')
    S.check(same_bytes(S, t.to_bytes(), [a | (5 << 3) | (b << 6)]), 'written')
    data = S.bytes('data', 1)
    out = S.outcome(lambda: T.create_from_string(bytes(data)))
    S.check(S.eq(out.ok, S.conc(((data[0] >> 3) & 7) == 5)), 'read')
    if out.ok:
        S.check(S.and_(S.eq(out.value.a, data[0] & 7), S.eq(out.value.b, data[0] >> 6), out.value.k == 5), 'values')


def several(S, cfg):
    """each constant is demanded, wherever it is"""
    class T(Struct):
        _fields_ = [ConstField('m', 0xab, UBInt8), UBInt8('x'), ConstField('n', b'OK', PaddedStringMarshal(2)), ConstField('p', Pair(k=1, v=2)), ConstField('z', 0, UBInt16)]

    class U(T):
        _fields_ = T._fields_ + [ConstField('q', -1, SBInt8)]

    class W(Struct):
        _fields_ = [VarSizeArray('l', UBInt8, U), OptionalField('o', T, lambda o, s, c: len(o.l) == 1)]
    base = lambda x: [0xab, x, 79, 75, 1, 0, 2, 0, 0]
    xs = [S.bits('x%d' % i, 8) for i in range(2)]
    where = S.choice('kind', ('base', 'derived', 'nested'))
    if where == 'base':
        X, t, want, free = T, T(x=xs[0]), base(xs[0]), (1,)
    elif where == 'derived':
        X, t, want, free = U, U(x=xs[0]), base(xs[0]) + [255], (1,)
    else:
        X, t, want, free = W, W(l=[U(x=xs[0])], o=T(x=xs[1])), [1] + base(xs[0]) + [255] + base(xs[1]), (0, 2, 12)
    S.check(same_bytes(S, t.to_bytes(), want), 'written')
    i = S.choice('changed', [j for j in range(len(want)) if j not in free])
    v = S.bits('v', 8)
    data = list(want)
    data[i] = v
    out = S.outcome(lambda: X.create_from_string(bytes(bytearray(data))))
    S.check(S.eq(out.ok, S.conc(v == want[i])), 'refused exactly when a constant differs')
    if not out.ok:
        S.check(isinstance(out.exc, InstructError), 'library error')


def declared(S, cfg):
    """what can be declared"""
    k = S.choice('kind', ('no serializer', 'struct', 'explicit'))
    v = S.bits('v', 8)
    if k == 'no serializer':
        out = S.outcome(lambda: ConstField('c', v))
        S.check(not out.ok and isinstance(out.exc, InstructError), 'refused')
        return
    f = ConstField('c', Pair(k=v, v=1)) if k == 'struct' else ConstField('c', Pair(k=v, v=1), Pair(k=0, v=0))

    class T(Struct):
        _fields_ = [f]
    S.check(same_bytes(S, T().to_bytes(), [v, 0, 1]), 'written')
    w = S.bits('w', 8)
    out = S.outcome(lambda: T.create_from_string(bytes(bytearray([w, 0, 1]))))
    S.check(S.eq(out.ok, S.conc(v == w)), 'read')


def inside_lazy(S, cfg):
    """in a lazy group: refused when it's read or first used"""
    class T(Struct):
        _fields_ = [Lazy(UBInt8('a'), ConstField('k', 0x102, ULInt16), UBInt8('b')), UBInt8('c')]
    data = list(S.bytes('data', 5))
    good = S.conc(S.and_(data[1] == 2, data[2] == 1))
    use = S.choice('use', ('a', 'b', 'to_bytes'))

    def both():
        t = T.create_from_string(bytes(bytearray(data)))
        x = t.to_bytes() if use == 'to_bytes' else getattr(t, use)
        return t
    out = S.outcome(both)
    S.check(out.ok == good, 'demanded')
    if good:
        S.check(same_bytes(S, out.value.to_bytes(), data), 'written')
    else:
        S.check(isinstance(out.exc, InstructError), 'library error')
    t = T(a=1, b=2, c=3)
    v = S.bits('v', 16)
    out = S.outcome(lambda: setattr(t, 'k', v))
    S.check(S.eq(out.ok, S.conc(v == 0x102)), 'assigned')
    S.check(same_bytes(S, t.to_bytes(), [1, 2, 1, 2, 3]), 'still written')


def obligations(tier):
    n = len(CONSTS)
    obs = group('assigned', assigned, range(n), 4)
    obs += group('read', read, range(n), 4)
    obs += group('float', zero_float, [BFloat32, LFloat64, LFloat32, BFloat64], 2)
    obs += group('bits', bit_consts, [None], 1)
    obs += group('several', several, [None], 1)
    obs += group('declared', declared, [None], 1)
    obs += group('lazy', inside_lazy, [None], 1)
    return obs
