"""Buffer numeric fields use the declared byte order and encoding."""
from infi.instruct.buffer import macros
from .lib import *

BOUNDS = 'integer fields of 1..8 whole bytes, every declared byte order and sign, every value / every byte string'


def make(cfg):
    parts, sign, endian = cfg
    ref, pos = where(*parts)
    return make_buffer(dict(f=int_field(where=ref, sign=sign, endian=endian))), pos


def packs(S, cfg):
    parts, sign, endian = cfg
    T, pos = make(cfg)
    v = S.int('v', *int_range(len(pos), sign))
    data = T(f=v).pack()
    S.observe('data', data)
    want = place([(pos, int_bits(v, len(pos), endian))], size_of(pos))
    S.check(same_bytes(S, data, want), 'packed bytes')


def unpacks(S, cfg):
    parts, sign, endian = cfg
    T, pos = make(cfg)
    data = S.bytes('data', size_of(pos) + S.choice('extra', (0, 2)))
    t = T()
    n = t.unpack(data)
    S.observe('f', t.f)
    S.check(S.eq(t.f, int_from_bits(pick(data, pos), endian, sign)), 'unpacked value')
    S.check(n * 8 == max(pos) + 1, 'consumed size')


NAMED = [('int_field', 'native', 'signed'), ('uint_field', 'native', 'unsigned'), ('be_int_field', 'big', 'signed'),
         ('le_int_field', 'little', 'signed'), ('be_uint_field', 'big', 'unsigned'), ('le_uint_field', 'little', 'unsigned')]


def named(S, cfg):
    name, endian, sign, n, sized = cfg
    kw = dict(where=bytes_ref[1:], byte_size=n) if sized else dict(where=bytes_ref[1:1 + n])
    T = make_buffer(dict(f=getattr(macros, name)(**kw)))
    pos = list(range(8, 8 + 8 * n))
    v = S.int('v', *int_range(8 * n, sign))
    data = T(f=v).pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, place([(pos, int_bits(v, 8 * n, endian))], n + 1)), 'packed bytes')
    data = S.bytes('data', n + 1)
    t = T()
    t.unpack(data)
    S.observe('f', t.f)
    S.check(S.eq(t.f, int_from_bits(pick(data, pos), endian, sign)), 'unpacked value')


def elements(S, name):
    """element types of lists"""
    n = int(name.split('int')[1]) // 8
    sign = 'unsigned' if 'uint' in name else 'signed'
    endian = {'b': 'big', 'l': 'little'}.get(name.split('_')[0], 'native')
    T = make_buffer(dict(f=list_field(type=getattr(macros, name), where=bytes_ref[0:2 * n])))
    vs = [S.int('v%d' % i, *int_range(8 * n, sign)) for i in range(2)]
    data = T(f=vs).pack()
    S.observe('data', data)
    want = []
    for v in vs:
        want += value_bytes(v, n, endian != 'big')
    S.check(same_bytes(S, data, want), 'packed bytes')
    data = S.bytes('data', 2 * n)
    t = T()
    t.unpack(data)
    S.observe('f', t.f)
    want = [int_from_bits(bit_list(data[i:i + n]), endian, sign) for i in (0, n)]
    S.check(S.eq(t.f, want), 'unpacked values')


def several(S, cfg):
    """fields of different byte order side by side, one of them sized by another field"""
    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0:2])
        a = le_uint_field(where=bytes_ref[2:5])
        b = be_uint_field(where=bytes_ref[5:8])
        c = le_int_field(where=bytes_ref[8:10])
        d = be_int_field(where=bytes_ref[10:14])
        e = be_uint_field(where=bytes_ref[14:14 + n])
    k = cfg
    lo, hi = int_range(8 * k, 'unsigned')
    e = S.int('e', lo, hi)
    t = T(n=k, a=S.bits('a', 24), b=S.bits('b', 24), c=S.int('c', -32768, 32767), d=S.int('d', -2 ** 31, 2 ** 31 - 1), e=e)
    data = t.pack()
    S.observe('data', data)
    want = (value_bytes(k, 2, False) + value_bytes(t.a, 3, True) + value_bytes(t.b, 3, False) + value_bytes(t.c, 2, True) +
            value_bytes(t.d, 4, False) + value_bytes(e, k, False))
    S.check(same_bytes(S, data, want), 'packed bytes')
    u = T()
    u.unpack(bytes(want))
    S.check(S.and_(*[S.eq(getattr(u, f), getattr(t, f)) for f in 'nabcde']), 'unpacked values')


def obligations(tier):
    ends = ('big', 'little', 'native', 'unspecified')
    signs = ('unsigned', 'signed')
    full = tier == 'thorough'
    shapes = [(('B', k, k + n),) for n in range(1, 9) for k in ((0, 1, 2, 5) if full else (1,))]
    shapes += [(('B', 3, 4), ('B', 0, 1)), (('B', 4, 6), ('B', 0, 1)), (('B', 2, 4), ('B', 6, 8)), (('B', 6, 8), ('B', 2, 4)),
               (('n', 2), ('n', 0)), (('B', 8, 12), ('B', 0, 4)), (('b', 4, 20),), (('b', 4, 12), ('b', 16, 24))]
    if full:
        shapes += [(('b', 3, 35),), (('b', 1, 65),), (('b', 5, 29),), (('n', 0), ('n', 3), ('n', 1), ('n', 2)),
                   (('l', ((0, 1), (2, 4)), 0, 24),)]
    cfgs = [(p, s, e) for p in shapes for s in signs for e in ends]
    obs = group('packs', packs, cfgs, 24) + group('unpacks', unpacks, cfgs, 24)
    obs += group('named', named, [f + (n, sized) for f in NAMED for n in (1, 2, 3, 4, 8) for sized in (False, True)
                                  if not (sized and n == 3)], 30)
    obs += group('elements', elements, [p + s + 'int' + w for p in ('', 'n_', 'b_', 'l_') for s in ('', 'u')
                                        for w in ('8', '16', '32', '64')], 32)
    obs += group('several', several, [1, 2, 3, 4, 5, 8], 6)
    return obs
