"""Positional bit groups read and write exactly the named bits."""
from .lib import *
from .structs import *
from .S05 import encoded
from infi.instruct.struct.bit import PositionalBitMarshal, PositionalBitFieldListContainer

BOUNDS = ('30 stated layouts of 1..5 fields of 1..4 slices each (split, reversed, adjacent, single bits, byte-crossing, gaps) in 1..9 bytes; every field of one or two slices '
          'of 1..2 bytes; values up to 4 times too wide, or negative; every content; two groups in a struct')

# a layout: fields, each a list of (start, stop)
LAYOUTS = [
    [[(0, 8)]], [[(0, 4)], [(4, 8)]], [[(4, 8)], [(0, 4)]], [[(7, 8)], [(0, 1)], [(2, 5)]], [[(0, 3), (5, 8)], [(3, 5)]], [[(5, 8), (0, 3)], [(3, 5)]],
    [[(4, 8), (0, 4)]], [[(0, 16)]], [[(3, 13)], [(13, 16)], [(0, 3)]], [[(8, 16), (0, 8)]], [[(8, 16)], [(0, 8)]], [[(0, 1), (15, 16)]],
    [[(0, 2), (9, 12)], [(4, 8)], [(15, 16)], [(12, 15)]], [[(6, 10), (14, 16), (0, 2)], [(2, 6)], [(10, 14)]],
    [[(0, 1), (2, 3), (4, 5), (6, 7)], [(1, 2), (3, 4), (5, 6), (7, 8)]], [[(16, 24), (0, 8)], [(8, 16)]], [[(7, 17)], [(23, 24)]],
    [[(20, 24), (4, 8), (12, 16)], [(0, 4)], [(8, 12)], [(16, 20)]], [[(1, 23)], [(23, 24), (0, 1)]], [[(31, 32)]], [[(0, 64)]],
    [[(60, 64), (0, 60)]], [[(4, 16), (0, 4)]], [[(0, 12), (20, 24)], [(12, 20)]], [[(0, 17), (23, 32), (17, 23)]], [[(8, 19), (0, 2)], [(2, 8), (19, 32)]], [[(3, 67)], [(67, 72), (0, 3)]], [[(8, 10), (0, 8)], [(10, 16)]], [[(0, 8), (8, 16)]], [[(9, 16), (0, 9)]],
]


def flat(layout):
    """[(name, [bit positions])], total bits"""
    out = [('f%d' % i, [p for a, b in sl for p in range(a, b)]) for i, sl in enumerate(layout)]
    return out, max(b for sl in layout for a, b in sl)


def named(slices, form):
    if form == 'bits':
        if len(slices) == 1:
            a, b = slices[0]
            return Bits[a] if b == a + 1 else Bits[a:b]
        return Bits[tuple(a if b == a + 1 else slice(a, b) for a, b in slices)]
    if form == 'slice' and len(slices) == 1:
        return slice(*slices[0])
    return (tuple if form == 'tuple' else list)(slice(a, b) for a, b in slices)


def fields_of(layout, form='bits'):
    return [BitField('f%d' % i, named(sl, form)) for i, sl in enumerate(layout)]


def wide(S, fields, extra=2):
    return [S.int('v' + name, -(1 << (len(pos) + extra - 1)), (1 << (len(pos) + extra)) - 1) for name, pos in fields]


def placed(fields, total, values):
    bits = [0] * total
    for (name, pos), v in zip(fields, values):
        for i, p in enumerate(pos):
            bits[p] = (v >> i) & 1
    return [bits_value(bits[i:i + 8]) for i in range(0, total, 8)]


def check_bytes(S, data, want, label):
    S.check(len(data) == len(want), label + ': size')
    for i in range(min(len(data), len(want))):
        S.check(S.eq(data[i], want[i]), label + ': bits of byte %d' % i)


def written(S, cfg):
    layout, form = cfg
    fields, total = flat(layout)

    class T(Struct):
        _fields_ = [UBInt8('a'), BitFields(*fields_of(layout, form)), UBInt8('b')]
    a, b, values = S.bits('a', 8), S.bits('b', 8), wide(S, fields)
    t = T(a=a, b=b, **dict((f[0], v) for f, v in zip(fields, values)))
    data = t.to_bytes()
    S.observe('data', data)
    check_bytes(S, data, [a] + placed(fields, total, values) + [b], 'written')
    S.check(T.sizeof(t) == total // 8 + 2, 'size reported')
    r = T.create_from_string(bytes(data))
    for (name, pos), v in zip(fields, values):
        S.check(S.eq(getattr(r, name), v & ((1 << len(pos)) - 1)), 'read back')
        S.check(S.eq(getattr(t, name), v), 'writing leaves the value')


def read(S, cfg):
    layout, form = cfg
    fields, total = flat(layout)

    class T(Struct):
        _fields_ = [UBInt8('a'), BitFields(*fields_of(layout, form)), UBInt8('b')]
    data = S.bytes('data', total // 8 + 2)
    t = T.create_from_string(bytes(data))
    bits = bit_list(data)[8:]
    S.check(S.and_(S.eq(t.a, data[0]), S.eq(t.b, data[total // 8 + 1])), 'around')
    values = []
    for name, pos in fields:
        v = bits_value([bits[p] for p in pos])
        values.append(v)
        S.check(S.eq(getattr(t, name), v), 'exactly the named bits')
    check_bytes(S, t.to_bytes(), [data[0]] + placed(fields, total, values) + [data[total // 8 + 1]], 'written back')
    i = S.choice('changed', range(len(fields)))
    v = S.bits('new', len(fields[i][1]))
    setattr(t, fields[i][0], v)
    values[i] = v
    check_bytes(S, t.to_bytes(), [data[0]] + placed(fields, total, values) + [data[total // 8 + 1]], 'one field changed')


def pieces(S, cfg):
    """a field of any one or two slices"""
    n, k = cfg
    used = []
    slices = []
    for i in range(k):
        a = S.choice('a%d' % i, range(8 * n))
        b = S.choice('b%d' % i, range(a + 1, 8 * n + 1))
        S.assume(all(b <= c or d <= a for c, d in used))
        used.append((a, b))
        slices.append((a, b))
    top = 8 * n - 1
    free = not any(c <= top < d for c, d in used)
    layout = [slices] + ([[(top, top + 1)]] if free else [])
    fields, total = flat(layout)

    class T(Struct):
        _fields_ = [BitFields(*fields_of(layout))]
    values = wide(S, fields, 1)
    t = T(**dict((f[0], v) for f, v in zip(fields, values)))
    check_bytes(S, t.to_bytes(), placed(fields, total, values), 'written')
    data = S.bytes('data', n)
    r = T.create_from_string(bytes(data))
    bits = bit_list(data)
    for name, pos in fields:
        S.check(S.eq(getattr(r, name), bits_value([bits[p] for p in pos])), 'read')


def sized(S, cfg):
    """groups with a stated number of bits"""
    fields = [BitField('a', Bits[2:7]), BitField('b', Bits[9, 0])]
    n = S.choice('bits', (None, 0, 8, 9, 10, 12, 16, 20, 24, 32))
    out = S.outcome(lambda: PositionalBitFieldListContainer(n, fields))
    if n not in (16, 24, 32):
        S.check(not out.ok, 'too small or not whole bytes')
        return
    S.check(out.ok, 'accepted')

    class T(Struct):
        _fields_ = [out.value, UBInt8('e')]
    a, b, e = S.bits('a', 5), S.bits('b', 2), S.bits('e', 8)
    t = T(a=a, b=b, e=e)
    want = [0] * (n // 8)
    want[0] = (a << 2) | ((b >> 1) & 1)
    want[1] = (b & 1) << 1
    check_bytes(S, t.to_bytes(), want + [e], 'written')
    data = S.bytes('data', n // 8 + 1)
    r = T.create_from_string(bytes(data))
    S.check(S.and_(S.eq(r.a, (data[0] >> 2) & 31), S.eq(r.b, ((data[1] >> 1) & 1) | ((data[0] & 1) << 1)), S.eq(r.e, data[n // 8])), 'read')


def refused(S, cfg):
    """only whole bytes"""
    a = S.choice('a', range(20))
    b = S.choice('b', range(a + 1, 25))
    out = S.outcome(lambda: BitFields(BitField('x', Bits[a:b]), BitField('y', Bits[0])))
    S.check(out.ok == (b % 8 == 0), 'whole bytes only')
    if not out.ok:
        S.check(isinstance(out.exc, InstructError), 'library error')


def several(S, cfg):
    class T(Struct):
        _fields_ = [BitFields(BitField('a', Bits[4:8]), BitField('b', Bits[0:4], 5)), UBInt8('n'), BitFields(BitField('c', Bits[12:16, 0:3]), BitField('d', Bits[3]))]
    vs = dict((k, S.int(k, -(1 << w), (1 << (w + 1)) - 1)) for k, w in zip('abcd', (4, 4, 7, 1)))
    n = S.bits('n', 8)
    given = S.bool('given')
    t = T(n=n)
    if given:
        t.b = vs['b']
    for k in S.choice('order', ('acd', 'dca', 'cad')):
        setattr(t, k, vs[k])
    b = vs['b'] & 15 if given else 5
    c = vs['c'] & 127
    want = [((vs['a'] & 15) << 4) | b, n] + le(((c & 15) << 12) | (c >> 4) | ((vs['d'] & 1) << 3), 2)
    check_bytes(S, t.to_bytes(), want, 'written')
    check_bytes(S, t.to_bytes(), want, 'written again')


def truncated(S, layout):
    fields, total = flat(layout)

    class T(Struct):
        _fields_ = [BitFields(*fields_of(layout))]
    k = S.choice('cut', range(total // 8))
    out = S.outcome(lambda: T.create_from_string(bytes(S.bytes('data', k))))
    S.check(not out.ok and isinstance(out.exc, InstructError), 'cut off input')


def obligations(tier):
    full = tier == 'thorough'
    whole = [x for x in LAYOUTS if flat(x)[1] % 8 == 0]
    forms = ('bits', 'slice', 'tuple', 'list')
    cfgs = [(x, forms[i % 4]) for i, x in enumerate(whole)]
    if full:
        cfgs = [(x, f) for x in whole for f in forms]
    obs = group('written', written, cfgs, 5)
    obs += group('read', read, cfgs, 5)
    obs += group('pieces', pieces, [(1, 1), (2, 1), (1, 2)] + ([(3, 1), (2, 2)] if full else []), 1, cost=3)
    obs += group('sized', sized, [None], 1)
    obs += group('refused', refused, [None], 1)
    obs += group('several', several, [None], 1)
    obs += group('truncated', truncated, whole, 13)
    return obs
