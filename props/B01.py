"""Buffer integer fields round-trip or refuse the value."""
from infi.instruct.buffer import macros
from .lib import *

BOUNDS = ('field widths 1..64 bits (all whole-byte widths 1..8, quick tier: a selection of bit widths and offsets), values '
          'symbolic over a range at least 8 times wider than the field on both sides')


def roundtrip(S, cfg):
    parts, sign, endian = cfg
    ref, pos = where(*parts)
    n = len(pos)
    lo, hi = int_range(n, sign)
    T = make_buffer(dict(f=int_field(where=ref, sign=sign, endian=endian)))
    v = S.int('v', -(1 << (n + 3)), (1 << (n + 3)) - 1)
    check(S, T, v, lo, hi)


def check(S, T, v, lo, hi):
    o = S.outcome(lambda: T(f=v).pack())
    inside = S.and_(v >= lo, v <= hi)
    S.observe('outcome', o.name())
    if o.ok:
        S.check(inside, 'a value outside the range is refused')
        S.observe('packed', o.value)
        t = T()
        t.unpack(o.value)
        S.observe('f', t.f)
        S.check(S.eq(t.f, v), 'round trip gives back the value')
    else:
        S.check(S.not_(inside), 'a representable value is accepted')


FACTORIES = [('int_field', {}, 'signed'), ('uint_field', {}, 'unsigned'), ('be_int_field', {}, 'signed'),
             ('le_int_field', {}, 'signed'), ('be_uint_field', {}, 'unsigned'), ('le_uint_field', {}, 'unsigned')]


def factory(S, cfg):
    name, n, sized = cfg
    kw = dict(where=bytes_ref[0:n])
    if sized:
        kw = dict(where=bytes_ref[0:], byte_size=n)
    T = make_buffer(dict(f=getattr(macros, name)(**kw)))
    sign = 'unsigned' if 'uint' in name else 'signed'
    lo, hi = int_range(8 * n, sign)
    v = S.int('v', -(1 << (8 * n + 3)), (1 << (8 * n + 3)) - 1)
    check(S, T, v, lo, hi)


def elements(S, name):
    """the element types used in lists"""
    n = int(name.split('int')[1]) // 8
    sign = 'unsigned' if 'uint' in name else 'signed'
    lo, hi = int_range(8 * n, sign)
    T = make_buffer(dict(f=list_field(type=getattr(macros, name), where=bytes_ref[0:2 * n])))
    v = S.int('v', -(1 << (8 * n + 3)), (1 << (8 * n + 3)) - 1)
    w = S.int('w', lo, hi)
    o = S.outcome(lambda: T(f=[v, w]).pack())
    S.observe('outcome', o.name())
    inside = S.and_(v >= lo, v <= hi)
    if o.ok:
        S.check(inside, 'a value outside the range is refused')
        S.check(len(o.value) == 2 * n, 'width')
        t = T()
        t.unpack(o.value)
        S.observe('f', t.f)
        S.check(S.eq(t.f, [v, w]), 'round trip gives back the values')
    else:
        S.check(S.not_(inside), 'a representable value is accepted')


def two(S, cfg):
    """two fields: neither value leaks into the other"""
    n, m, off, sign, endian = cfg
    r1, p1 = where(('b', off, off + n))
    r2, p2 = where(('b', off + n, off + n + m))
    T = make_buffer(dict(f=int_field(where=r1, sign=sign, endian=endian), g=int_field(where=r2, sign=sign, endian=endian)))
    v = S.int('v', -(1 << (n + 1)), (1 << (n + 1)) - 1)
    w = S.int('w', -(1 << (m + 1)), (1 << (m + 1)) - 1)
    (a, b), (c, d) = int_range(n, sign), int_range(m, sign)
    inside = S.and_(v >= a, v <= b, w >= c, w <= d)
    o = S.outcome(lambda: T(f=v, g=w).pack())
    S.observe('outcome', o.name())
    if o.ok:
        S.check(inside, 'a value outside the range is refused')
        t = T()
        t.unpack(o.value)
        S.check(S.and_(S.eq(t.f, v), S.eq(t.g, w)), 'round trip gives back both values')
    else:
        S.check(S.not_(inside), 'representable values are accepted')


def obligations(tier):
    full = tier == 'thorough'
    ends = ('big', 'little', 'native', 'unspecified')
    signs = ('unsigned', 'signed')
    cfgs = [((('B', 1, 1 + n),), s, e) for n in range(1, 9) for s in signs for e in ends]
    cfgs += [((('B', 3, 4), ('B', 0, 1)), s, e) for s in signs for e in ends]
    cfgs += [((('B', 3, 5), ('B', 0, 2)), s, e) for s in signs for e in ends]
    cfgs += [((('B', 0, 1), ('B', 2, 4)), s, e) for s in signs for e in ends]
    obs = group('whole-bytes', roundtrip, cfgs, 24)
    bits = []
    if full:
        for n in range(1, 65):
            for off in range(8):
                if n + off <= 64:
                    bits.append(((('b', off, off + n),), signs[n % 2], ends[off % 4]))
    else:
        for k, n in enumerate(list(range(1, 18)) + [20, 23, 25, 31, 33, 39, 47, 63]):
            for off in (0, (3 * k + 1) % 8):
                bits.append(((('b', off, off + n),), signs[k % 2], ends[k % 4]))
    bits += [((('x', 0, 3),), s, 'big') for s in signs]
    bits += [((('b', 0, 4), ('b', 12, 16)), s, e) for s in signs for e in ('little', 'big')]
    bits += [((('b', 3, 6), ('B', 1, 2), ('x', 2, 7)), s, 'little') for s in signs]
    bits += [((('b', 8, 19), ('b', 0, 2)), s, 'native') for s in signs]
    obs += group('bits', roundtrip, bits, 10 if not full else 16)
    obs += group('factories', factory, [(f[0], n, sized) for f in FACTORIES for n in (1, 2, 3, 4, 8)
                                        for sized in (False, True) if not (sized and n == 3)], 30)
    obs += group('elements', elements, [p + s + 'int' + w for p in ('', 'n_', 'b_', 'l_') for s in ('', 'u')
                                        for w in ('8', '16', '32', '64')], 32)
    obs += group('two', two, [(3, 5, 0, 'unsigned', 'little'), (5, 11, 2, 'signed', 'big'), (1, 1, 7, 'unsigned', 'native'),
                              (8, 8, 4, 'signed', 'little'), (12, 12, 0, 'unsigned', 'little'), (7, 9, 3, 'signed', 'big')]
                 + ([(17, 15, 1, 'unsigned', 'little'), (33, 7, 5, 'signed', 'little'), (8, 16, 1, 'signed', 'big')]
                    if full else []), 3)
    return obs
