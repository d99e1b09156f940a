"""Bit-positioned fields occupy exactly the declared bits, least significant bit first."""
from .lib import *

BOUNDS = 'one to four ranges over at most 9 bytes, widths 1..64 bits, every value / every byte string; every bit and every slice of bits of lists of 2 to 4 byte ranges'


def make(cfg):
    parts, sign, endian = cfg
    ref, pos = where(*parts)
    assert len(pos) % 8 or endian != 'big'
    return make_buffer(dict(f=int_field(where=ref, sign=sign, endian=endian))), pos


def packs(S, cfg):
    T, pos = make(cfg)
    v = S.int('v', *int_range(len(pos), cfg[1]))
    data = T(f=v).pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, place([(pos, [(v >> i) & 1 for i in range(len(pos))])], size_of(pos))), 'packed bits')


def unpacks(S, cfg):
    T, pos = make(cfg)
    data = S.bytes('data', size_of(pos) + S.choice('extra', (0, 1)))
    t = T()
    t.unpack(data)
    S.observe('f', t.f)
    bits = pick(data, pos)
    v = bits_value(bits)
    if cfg[1] == 'signed' and len(bits) in (8, 16, 32, 64):
        v = signed(v, len(bits))
    S.check(S.eq(t.f, v), 'unpacked bits')


def dynamic(S, cfg):
    """bit positions given by other fields"""
    class T(Buffer):
        a = uint_field(where=bytes_ref[0].bits[0:5])
        b = uint_field(where=bytes_ref[0].bits[5:8])
        f = uint_field(where=bytes_ref[1:5].bits[a:a + b + 1])
    a, b = cfg, S.int('b', 0, 7)
    n = S.conc(b) + 1
    v = S.int('v', 0, (1 << n) - 1)
    data = T(a=a, b=b, f=v).pack()
    S.observe('data', data)
    pos = list(range(8 + a, 8 + a + n))
    want = place([(list(range(5)), [(a >> i) & 1 for i in range(5)]), ([5, 6, 7], [(b >> i) & 1 for i in range(3)]),
                  (pos, [(v >> i) & 1 for i in range(n)])], pos[-1] // 8 + 1)
    S.check(same_bytes(S, data, want), 'packed bits')
    data = bytes([a | (b << 5)]) + S.bytes('data', 4)
    t = T()
    t.unpack(data)
    S.observe('f', t.f)
    S.check(S.eq(t.f, bits_value(pick(data, pos))), 'unpacked bits')


def sub_bits(S, cfg):
    """open, single and nested bit positions within byte ranges"""
    class T(Buffer):
        a = uint_field(where=bytes_ref[0:2].bits[5:])
        b = uint_field(where=bytes_ref[0:2].bits[:4])
        c = uint_field(where=bytes_ref[0:2].bits[4])
        d = uint_field(where=bytes_ref[2].bits[7, 0, 3])
        e = uint_field(where=bytes_ref[2].bits[1:3, 4:7] + bytes_ref[3].bits[0])
        g = uint_field(where=bytes_ref[3, 4].bits[1:13])
    P = dict(a=list(range(5, 16)), b=[0, 1, 2, 3], c=[4], d=[23, 16, 19], e=[17, 18, 20, 21, 22, 24], g=list(range(25, 37)))
    vs = dict((k, S.bits(k, len(P[k]))) for k in sorted(P))
    data = T(**vs).pack()
    S.observe('data', data)
    want = place([(P[k], [(vs[k] >> i) & 1 for i in range(len(P[k]))]) for k in sorted(P)], 5)
    S.check(same_bytes(S, data, want), 'packed bits')
    data = S.bytes('data', 5)
    t = T()
    t.unpack(data)
    for k in sorted(P):
        S.observe(k, getattr(t, k))
        S.check(S.eq(getattr(t, k), bits_value(pick(data, P[k]))), 'unpacked bits of ' + k)


def anywhere(S, cfg):
    """any bit, or any bits one after the other, of several byte ranges"""
    parents, single = cfg
    allbits, key = [], []
    for br in parents:
        key.append(slice(*br) if isinstance(br, tuple) else br)
        br = br if isinstance(br, tuple) else (br, br + 1)
        allbits += range(8 * br[0], 8 * br[1])
    a = S.choice('a', range(len(allbits)))
    b = a + 1 if single else S.choice('b', range(a + 1, len(allbits) + 1))
    parent = bytes_ref[tuple(key)]
    if not single and b == len(allbits) and S.choice('open', (True, False)):
        where = parent.bits[a:]
    else:
        where = parent.bits[a] if single else parent.bits[a:b]
    T = make_buffer(dict(f=le_uint_field(where=where)))
    pos = allbits[a:b]
    v = S.bits('v', b - a)
    S.check(same_bytes(S, T(f=v).pack(), place([(pos, [(v >> i) & 1 for i in range(b - a)])], size_of(pos))), 'packed bits')
    data = S.bytes('data', size_of(pos))
    t = T()
    t.unpack(data)
    S.check(S.eq(t.f, bits_value(pick(data, pos))), 'unpacked bits')


def obligations(tier):
    full = tier == 'thorough'
    shapes = []
    if full:
        for n in range(1, 65):
            for off in range(8):
                if n + off <= 65:
                    shapes.append((('b', off, off + n),))
    else:
        for k, n in enumerate(list(range(1, 20)) + [23, 24, 28, 31, 32, 33, 40, 41, 56, 57, 63, 64]):
            for off in sorted(set([0, (5 * k + 2) % 8])):
                shapes.append((('b', off, off + n),))
    multi = [(('b', 4, 8), ('b', 0, 4)), (('b', 4, 12), ('b', 20, 23)), (('b', 20, 23), ('b', 4, 12)),
             (('x', 0, 7), ('x', 0, 0), ('x', 2, 3)), (('b', 3, 6), ('B', 1, 2), ('x', 2, 7)), (('B', 1, 3), ('b', 2, 7)),
             (('B', 3, 4), ('B', 0, 2)), (('b', 0, 9), ('b', 9, 18), ('b', 18, 27)), (('b', 30, 39), ('b', 11, 18)),
             (('l', ((0, 1), (3, 4)), 4, 13),), (('l', (0, 3, 1), 5, 19),), (('l', ((2, 4), 0), 3, 20),),
             (('l', (0, 2, 4, 6), 6, 27),), (('l', (5, 1), 0, 7),), (('l', (5, 1), 8, 15),), (('l', (5, 1, 3), 9, 23),),
             (('l', (0, 2), 3, 9), ('b', 8, 13)), (('n', 0), ('x', 1, 2)), (('n', 2), ('n', 1), ('n', 0)),
             (('b', 1, 2), ('b', 3, 4), ('b', 5, 6), ('b', 7, 10)), (('b', 2, 7), ('b', 9, 16), ('b', 17, 18))]
    shapes += multi
    signs, ends = ('unsigned', 'signed'), ('little', 'native', 'big')
    cfgs = []
    for k, p in enumerate(shapes):
        total = len(where(*p)[1])
        for e in (ends if full or p in multi else (ends[k % 3],)):
            if total % 8 == 0 and e == 'big':
                e = 'little'
            c = (p, signs[k % 2], e)
            if c not in cfgs:
                cfgs.append(c)
    obs = group('packs', packs, cfgs, 16) + group('unpacks', unpacks, cfgs, 32)
    obs += group('dynamic', dynamic, list(range(0, 25, 1 if full else 3)), 5)
    obs += [Ob('sub-bits', sub_bits)]
    parents = [(0, (2, 4), 6), ((2, 4), 0), ((1, 3), (5, 7)), (3, 2, 1, 0), ((0, 2), (2, 3)), ((4, 6), (0, 2), 8), ((1, 2), (4, 7), (2, 4))]
    obs += group('bit', anywhere, [(p, True) for p in parents], 4)
    obs += group('slice', anywhere, [(p, False) for p in (parents if full else parents[:1] + parents[5:6])], 1)
    return obs
