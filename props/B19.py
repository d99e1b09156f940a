"""Float fields preserve values exactly at their precision."""
from .lib import *
from infi.instruct import *
from infi.instruct.buffer.macros import *
from infi.instruct.errors import InstructError

BOUNDS = ('every 32-bit and 64-bit pattern; every declared byte order; fields of buffers at whole-byte, bit-shifted, split and open '
          'positions; struct fields and arrays of 3; any double given to a 4-byte field; integers up to 2**24 / 2**53')
ENDIANS = ('native', 'big', 'little', 'unspecified')

POS4 = [[('B', 0, 4)], [('B', 3, 7)], [('b', 3, 35)], [('B', 4, 6), ('B', 1, 3)], [('l', ((0, 3), (5, 9)), 4, 36)]]
POS8 = [[('B', 0, 8)], [('B', 2, 10)], [('b', 5, 69)], [('B', 6, 9), ('B', 0, 5)], [('n', 9), ('B', 0, 7)]]


def little(endian):
    return endian != 'big'


def fval(S, name, n):
    return S.f32(name) if n == 4 else S.f64(name)


def encoded(S, v, n, endian):
    return value_bytes(S.float_bits(v, n), n, little(endian))


def same_float(S, a, b, n):
    """the same value, or both not numbers"""
    return S.or_(S.and_(S.is_nan(a), S.is_nan(b)), S.and_(S.not_(S.is_nan(b)), S.eq(S.float_bits(a, 8), S.float_bits(b, 8))))


def quiet(S, v):
    """on this path the value is a number"""
    S.assume(S.not_(S.is_nan(v)))


def nan_bytes(S, data, n, endian):
    v = bytes_value(data, little(endian))
    if n == 4:
        return S.and_((v >> 23) & 255 == 255, v & ((1 << 23) - 1) != 0)
    return S.and_((v >> 52) & 2047 == 2047, v & ((1 << 52) - 1) != 0)


def field_of(parts, endian):
    ref, pos = where(*parts)
    return make_buffer(dict(f=float_field(where=ref, endian=endian))), pos


def packs(S, cfg):
    """packed bytes are the encoding of the value in the byte order"""
    n, parts, endian = cfg
    T, pos = field_of(parts, endian)
    v = fval(S, 'v', n)
    quiet(S, v)
    data = T(f=v).pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, place([(pos, bit_list(encoded(S, v, n, endian)))], size_of(pos))), 'packed bytes')
    t = T()
    S.check(t.unpack(data) * 8 == max(pos) + 1, 'consumed size')
    S.check(same_float(S, t.f, v, n), 'same value back')


def unpacks(S, cfg):
    """every pattern unpacks to the value it encodes and packs to itself, unless it is no number"""
    n, parts, endian = cfg
    T, pos = field_of(parts, endian)
    data = S.bytes('data', size_of(pos))
    raw = [bits_value(pick(data, pos)[i:i + 8]) for i in range(0, 8 * n, 8)]
    t = T()
    t.unpack(data)
    isnan = nan_bytes(S, raw, n, endian)
    S.check(S.is_nan(t.f) == isnan, 'not a number exactly when the pattern is none')
    if not S.conc(isnan):
        S.observe('f', t.f)
        S.check(S.eq(S.float_bits(t.f, n), bytes_value(raw, little(endian))), 'the value of the pattern')
        again = t.pack()
        S.check(same_bytes(S, again, place([(pos, pick(data, pos))], size_of(pos))), 'packs to itself')
    else:
        again = t.pack()
        raw = [bits_value(pick(again, pos)[i:i + 8]) for i in range(0, 8 * n, 8)]
        S.check(nan_bytes(S, raw, n, endian), 'packs to a pattern that is no number')


def opened(S, cfg):
    """a size instead of an end; a default; the size of a float without one"""
    n, endian, sized = cfg
    kw = dict(byte_size=n) if sized else {}
    T = make_buffer(dict(a=uint_field(where=bytes_ref[0]), f=float_field(where=bytes_ref[1:] if sized or n == 4 else bytes_ref[1:1 + n],
                                                                        endian=endian, default=0.5, **kw)))
    t = T(a=7)
    S.check(same_bytes(S, t.pack(), [7] + value_bytes(0x3f000000 if n == 4 else 0x3fe0000000000000, n, little(endian))), 'default')
    v = fval(S, 'v', n)
    quiet(S, v)
    t.f = v
    data = t.pack()
    S.check(same_bytes(S, data, [7] + encoded(S, v, n, endian)), 'packed bytes')
    u = T()
    size = u.unpack(data)
    S.check(size == 1 + n, 'consumed size')
    S.check(same_float(S, u.f, v, n), 'same value back')
    S.check(not S.outcome(u.unpack, data[:-1]).ok, 'short input is refused')


def rounding(S, cfg):
    """a double given to a 4-byte field is stored as the nearest single, or refused when too large"""
    endian, way = cfg
    v = S.f64('v')
    S.assume(S.and_(v == v, v < 3.4e38, v > -3.4e38))
    if way == 'buffer':
        T, pos = field_of(POS4[0], endian)
        data = T(f=v).pack()
        t = T()
        t.unpack(data)
        got = t.f
    else:
        M = {'native': NFloat32, 'big': BFloat32, 'little': LFloat32}[endian]
        data = M.write_to_string(v)
        got = M.create_from_string(data)
    S.check(same_bytes(S, data, encoded(S, v, 4, endian)), 'nearest single')


def large(S, cfg):
    v = S.f64('v')
    S.assume(S.or_(S.and_(v > 3.5e38, v < 1e308), S.and_(v < -3.5e38, v > -1e308)))
    T, pos = field_of(POS4[0], cfg)
    S.check(not S.outcome(T(f=v).pack).ok, 'refused')


def integers(S, cfg):
    """whole numbers are stored exactly"""
    n, endian, way = cfg
    k = S.choice('k', (0, 1, -1, 2, 3, -7, 255, 256, 65537, -(1 << 24), (1 << 24) - 1) + ((1 << 53, -(1 << 53) + 1) if n == 8 else ()))
    want = encoded(S, float(k), n, endian)
    if way == 'buffer':
        T, pos = field_of((POS4 if n == 4 else POS8)[0], endian)
        S.check(same_bytes(S, T(f=k).pack(), want), 'packed bytes')
    else:
        M = getattr(__import__('infi.instruct').instruct, {'native': 'N', 'big': 'B', 'little': 'L'}[endian] + 'Float%d' % (8 * n))
        S.check(same_bytes(S, M.write_to_string(k), want), 'written bytes')


def refused(S, cfg):
    """other sizes and other values"""
    n = cfg
    T, pos = field_of([('B', 0, n)], 'big')
    data = S.bytes('data', n)
    if n not in (4, 8):
        S.check(not S.outcome(T(f=1.0).pack).ok, 'a float of another size is not packed')
        S.check(not S.outcome(T().unpack, data).ok, 'a float of another size is not unpacked')
    for v in ('1', b'1', None, [1.0]):
        S.check(not S.outcome(T(f=v).pack).ok, 'a value that is no number is refused')
    k = S.choice('short', range(n))
    S.check(not S.outcome(T().unpack, data[:k]).ok, 'short input is refused')


def marshal(name):
    endian = {'B': 'big', 'L': 'little', 'N': 'native'}[name[0]]
    return globals()[name], int(name[6:]) // 8, endian


def struct_field(S, name):
    M, n, endian = marshal(name)

    class T(Struct):
        _fields_ = [UBInt8('a'), M('f'), UBInt8('b')]
    v = fval(S, 'v', n)
    quiet(S, v)
    a, b = S.bits('a', 8), S.bits('b', 8)
    data = T.write_to_string(T(a=a, f=v, b=b))
    S.observe('data', data)
    S.check(same_bytes(S, data, [a] + encoded(S, v, n, endian) + [b]), 'written bytes')
    t = T.create_from_string(data)
    S.check(S.and_(t.a == a, t.b == b, same_float(S, t.f, v, n)), 'same values back')
    S.check(T.sizeof(t) == n + 2, 'size')


def struct_reads(S, name):
    M, n, endian = marshal(name)

    class T(Struct):
        _fields_ = [UBInt8('a'), M('f'), UBInt8('b')]
    data = S.bytes('data', n + 2)
    raw = list(data)[1:-1]
    t = T.create_from_string(data)
    isnan = nan_bytes(S, raw, n, endian)
    S.check(S.is_nan(t.f) == isnan, 'not a number exactly when the pattern is none')
    again = T.write_to_string(t)
    if not S.conc(isnan):
        S.observe('f', t.f)
        S.check(S.eq(S.float_bits(t.f, n), bytes_value(raw, little(endian))), 'the value of the pattern')
        S.check(same_bytes(S, again, list(data)), 'writes to itself')
    else:
        S.check(nan_bytes(S, list(again)[1:-1], n, endian), 'writes to a pattern that is no number')
    S.check(S.and_(t.a == data[0], t.b == data[-1]), 'neighbours')
    S.check(not S.outcome(T.create_from_string, data[:n]).ok, 'short input is refused')


def struct_array(S, name):
    M, n, endian = marshal(name)

    class T(Struct):
        _fields_ = [FixedSizeArray('x', 3, M)]
    vs = [fval(S, 'v%d' % k, n) for k in range(3)]
    for v in vs:
        quiet(S, v)
    data = T.write_to_string(T(x=vs))
    want = []
    for v in vs:
        want += encoded(S, v, n, endian)
    S.check(same_bytes(S, data, want), 'written bytes')
    t = T.create_from_string(data)
    S.check(len(t.x) == 3, 'count')
    for a, b in zip(t.x, vs):
        S.check(same_float(S, a, b, n), 'same values back')


def alone(S, name):
    """the type used by itself"""
    M, n, endian = marshal(name)
    v = fval(S, 'v', n)
    quiet(S, v)
    data = M.write_to_string(v)
    S.check(same_bytes(S, data, encoded(S, v, n, endian)), 'written bytes')
    S.check(same_float(S, M.create_from_string(data), v, n), 'same value back')
    S.check(M.sizeof(v) == n and M.min_max_sizeof().min == n and M.min_max_sizeof().max == n, 'size')
    for bad in ('1', b'1', None):
        S.check(isinstance(S.outcome(M.write_to_string, bad).exc, InstructError), 'a value that is no number is refused')


TYPES = ['%sFloat%d' % (e, n) for e in 'BLN' for n in (32, 64)]


def obligations(tier):
    full = tier == 'thorough'
    cfgs = [(n, p, e) for n, ps in ((4, POS4), (8, POS8)) for k, p in enumerate(ps) for e in (ENDIANS if full or k < 2 else ENDIANS[1:3])]
    obs = group('packs', packs, cfgs, 4) + group('unpacks', unpacks, cfgs, 4)
    obs += group('opened', opened, [(n, e, s) for n in (4, 8) for e in ('big', 'little') for s in (True, False)], 4)
    obs += group('rounding', rounding, [(e, w) for e in ('big', 'little') for w in ('buffer', 'struct')], 1)
    obs += group('large', large, ['big', 'native'], 1)
    obs += group('integers', integers, [(n, e, w) for n in (4, 8) for e in ('big', 'native') for w in ('buffer', 'struct')], 8)
    obs += group('refused', refused, [2, 3, 4, 5, 7, 8], 6)
    obs += group('struct-field', struct_field, TYPES, 3)
    obs += group('struct-reads', struct_reads, TYPES, 3)
    obs += group('struct-array', struct_array, TYPES, 3)
    obs += group('alone', alone, TYPES, 3)
    return obs
