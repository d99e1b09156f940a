"""Struct numeric types encode exactly and refuse out-of-range values."""
import io
from .lib import *
from infi.instruct import *
from infi.instruct import numeric_macros
from infi.instruct.errors import InstructError
from . import B19

BOUNDS = ('all 24 integer types; every value of 72 bits (written) and every content (read); as a field, as array element and prefix, '
          'as a serializer of its own, inside bit-free structs of 3 different types; streams that already hold 0..3 bytes; the 6 float types with every bit pattern, as fields, in arrays and alone')
NAMES = [a + b + 'Int%d' % n for a in 'US' for b in 'BLN' for n in (8, 16, 32, 64)]


def traits(name):
    """(bytes, little, signed)"""
    return int(name[5:]) // 8, name[1] != 'B', name[0] == 'S'


def limits(name):
    n, _, sign = traits(name)
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sign else (0, (1 << (8 * n)) - 1)


def marshal(name):
    return getattr(numeric_macros, name)


def writes(S, name):
    """exactly the encoding, or a library error and nothing"""
    n, little, sign = traits(name)
    lo, hi = limits(name)
    m = marshal(name)
    v = S.int('v', -(1 << 71), (1 << 71) - 1)
    k = S.choice('before', (0, 3))
    pre = S.bytes('pre', k)
    s = io.BytesIO()
    s.write(pre)
    out = S.outcome(m.write_to_stream, v, s)
    fits = S.conc(S.and_(v >= lo, v <= hi))
    S.check(out.ok == fits, 'writes exactly the values of its range')
    if fits:
        S.check(same_bytes(S, s.getvalue(), list(pre) + value_bytes(v, n, little)), 'encoding')
        S.check(m.sizeof(v) == n, 'size')
        back = m.create_from_string(m.write_to_string(v))
        S.observe('back', back)
        S.check(S.eq(back, v), 'round trip')
    else:
        S.check(isinstance(out.exc, InstructError), 'library error')
        S.check(S.eq(s.getvalue(), pre), 'nothing written')


def reads(S, name):
    """the value the bytes denote; exactly those bytes"""
    n, little, sign = traits(name)
    m = marshal(name)
    skip, rest = S.choice('skip', (0, 2)), S.choice('rest', (0, 1, 9))
    data = S.bytes('data', skip + n + rest)
    s = io.BytesIO(data)
    s.read(skip)
    v = m.create_from_stream(s)
    raw = bytes_value(data[skip:skip + n], little)
    S.observe('v', v)
    S.check(S.eq(v, signed(raw, 8 * n) if sign else raw), 'value')
    S.check(s.tell() == skip + n, 'consumed')
    S.check(S.eq(m.write_to_string(v), data[skip:skip + n]), 'writes the same bytes')
    mm = m.min_max_sizeof()
    S.check(mm.min == n and mm.max == n and m.is_fixed_size(), 'size bounds')


def short(S, name):
    n, little, sign = traits(name)
    m = marshal(name)
    k = S.choice('k', range(n))
    out = S.outcome(m.create_from_string, S.bytes('data', k))
    S.check(not out.ok and isinstance(out.exc, InstructError), 'refused')


def field(S, cfg):
    """fields of a struct"""
    names = cfg

    class T(Struct):
        _fields_ = [marshal(names[0])('a'), marshal(names[1])('b', 3), marshal(names[2])('c')]
    vs = [S.int(k, *limits(nm)) for k, nm in zip('abc', names)]
    t = T(a=vs[0], b=vs[1], c=vs[2])
    want = []
    for v, nm in zip(vs, names):
        n, little, _ = traits(nm)
        want += value_bytes(v, n, little)
    data = t.to_bytes()
    S.check(same_bytes(S, data, want), 'written')
    S.check(T.sizeof(t) == len(want), 'size')
    u = T.create_from_string(data)
    S.check(S.and_(*[S.eq(getattr(u, k), v) for k, v in zip('abc', vs)]), 'read back')
    which = S.choice('which', range(3))
    w = S.int('w', -(1 << 70), 1 << 70)
    setattr(u, 'abc'[which], w)
    lo, hi = limits(names[which])
    out = S.outcome(u.to_bytes)
    fits = S.conc(S.and_(w >= lo, w <= hi))
    S.check(out.ok == fits, 'assigned value written exactly when it fits')
    if not fits:
        S.check(isinstance(out.exc, InstructError), 'library error')
    S.check(T(a=0, c=0).b == 3, 'default')


def others(S, name):
    """values that are no integers"""
    m = marshal(name)
    for v in (None, 'x', b'x', 1.5, [], {}, 1j, object(), float('nan'), (1,)):
        s = io.BytesIO()
        out = S.outcome(m.write_to_stream, v, s)
        S.check(not out.ok and isinstance(out.exc, InstructError), 'refused: %s' % type(v).__name__)
        S.check(s.getvalue() == b'', 'nothing written')
    b = S.bool('b')
    S.check(S.eq(m.write_to_string(b), m.write_to_string(S.ite(b, 1, 0))), 'truth values')


def in_arrays(S, name):
    """elements and prefixes"""
    n, little, sign = traits(name)
    lo, hi = limits(name)

    class T(Struct):
        _fields_ = [VarSizeArray('a', marshal(name), marshal(name)), FixedSizeArray('f', 2, marshal(name)),
                    VarSizeBuffer('b', marshal(name)), UBInt8('end')]
    k = S.choice('k', range(3))
    v = [S.int('v%d' % i, lo, hi) for i in range(k + 2)]
    d = S.bytes('d', S.choice('dn', (0, 2)))
    e = S.bits('e', 8)
    t = T(a=v[:k], f=v[k:], b=d, end=e)
    enc = [value_bytes(x, n, little) for x in v]
    want = value_bytes(k, n, little) + sum(enc, []) + value_bytes(len(d), n, little) + list(d) + [e]
    data = t.to_bytes()
    S.check(same_bytes(S, data, want), 'written')
    S.check(T.sizeof(t) == len(want), 'size')
    u = T.create_from_string(data)
    S.check(S.and_(S.eq(u.a, v[:k]), S.eq(u.f, v[k:]), S.eq(bytes(u.b), bytes(d)), u.end == e), 'read back')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('write', writes, NAMES, 4)
    obs += group('read', reads, NAMES, 4)
    obs += group('short', short, NAMES, 8)
    obs += group('others', others, NAMES, 8)
    step = 1 if full else 2
    obs += group('field', field, [(NAMES[i], NAMES[(i + 7) % 24], NAMES[(i + 17) % 24]) for i in range(0, 24, step)], 4)
    obs += group('array', in_arrays, NAMES, 4)
    for f in (B19.struct_field, B19.struct_reads, B19.struct_array, B19.alone):
        obs += group('float-' + f.__name__.replace('_', '-'), f, B19.TYPES, 6)
    obs += group('float-rounding', B19.rounding, [(e, 'struct') for e in ('big', 'little')], 1)
    return obs
