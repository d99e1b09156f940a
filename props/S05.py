"""Sequential bit groups place each field in its own bits."""
import io
from .lib import *
from .structs import *
from infi.instruct.utils.bitstringio import BitStringIO

BOUNDS = ('groups of 1..8 fields and paddings of 0..70 bits (1..10 bytes), a stated set of width sequences, every two widths making 1..3 bytes and every three making '
          '1..2 bytes; values up to 4 times too wide, or negative; every content; up to 3 groups in a struct; sequences of up to 4 writes and reads '
          'of the bit stream')

# a negative width is padding
WIDTHS = [(8,), (16,), (24,), (64,), (1, 7), (7, 1), (3, 5), (1,) * 8, (4, 4, 8), (3, -2, 9, 1, 1), (-3, 5), (5, -3), (-8, 8), (8, -8), (1, 14, 1), (12, 4), (4, 12),
          (9, 7), (7, 9), (2, 3, 11), (17, 7), (3, 18, 3), (5, 30, 5), (-1, 22, 1), (1, -6, 1, -6, 2), (33, 31), (3, 64, 5), (8, 8), (5, -11), (-4, 4, -4, 4),
          (0, 8), (3, 0, 5), (8, 0, 16), (1, 70, 1), (-9, 2, -5), (6, 6, 6, 6), (10, 10, 4), (13, 13, 6), (2, 2, 2, 2), (23, -1)]


def spans(widths):
    out, pos = [], 0
    for i, w in enumerate(widths):
        if w >= 0:
            out.append(('f%d' % i, pos, w))
        pos += abs(w)
    return out, pos


def group_of(widths):
    return BitFields(*[(BitField('f%d' % i, w) if w != 1 else BitFlag('f%d' % i)) if w >= 0 else BitPadding(-w) for i, w in enumerate(widths)])


def encoded(S, fields, total, values):
    """every bit on its own"""
    bits = [0] * total
    for (name, pos, w), v in zip(fields, values):
        for i in range(w):
            bits[pos + i] = (v >> i) & 1
    return [bits_value(bits[i:i + 8]) for i in range(0, total, 8)]


def wide(S, fields, extra=2):
    return [S.int('v' + name, -(1 << (w + extra - 1)), (1 << (w + extra)) - 1) for name, pos, w in fields]


def written(S, widths):
    fields, total = spans(widths)

    class T(Struct):
        _fields_ = [UBInt8('a'), group_of(widths), UBInt8('b')]
    a, b, values = S.bits('a', 8), S.bits('b', 8), wide(S, fields)
    t = T(a=a, b=b, **dict((f[0], v) for f, v in zip(fields, values)))
    data = t.to_bytes()
    S.observe('data', data)
    S.check(len(data) == total // 8 + 2, 'size')
    S.check(T.sizeof(t) == total // 8 + 2, 'size reported')
    want = [a] + encoded(S, fields, total, values) + [b]
    for i in range(len(data)):
        S.check(S.eq(data[i], want[i]), 'bits of byte %d' % i)
    r = T.create_from_string(bytes(data))
    for (name, pos, w), v in zip(fields, values):
        S.check(S.eq(getattr(r, name), v & ((1 << w) - 1)), 'low bits read back')
    for (name, pos, w), v in zip(fields, values):
        S.check(S.eq(getattr(t, name), v), 'writing leaves the value')


def read(S, widths):
    fields, total = spans(widths)

    class T(Struct):
        _fields_ = [UBInt8('a'), group_of(widths), UBInt8('b')]
    data = S.bytes('data', total // 8 + 2)
    t = T.create_from_string(bytes(data))
    bits = bit_list(data)[8:]
    S.check(S.and_(S.eq(t.a, data[0]), S.eq(t.b, data[total // 8 + 1])), 'around')
    kept = [0] * total
    for name, pos, w in fields:
        S.check(S.eq(getattr(t, name), bits_value(bits[pos:pos + w])), 'exactly its bits')
        kept[pos:pos + w] = bits[pos:pos + w]
    out = t.to_bytes()
    S.check(len(out) == len(data), 'size')
    for i in range(total // 8):
        S.check(S.eq(out[i + 1], bits_value(kept[8 * i:8 * i + 8])), 'written back, padding bits zero')
    if fields:
        i = S.choice('changed', range(len(fields)))
        name, pos, w = fields[i]
        v = S.bits('new', max(w, 1))
        setattr(t, name, v)
        for j in range(w):
            kept[pos + j] = (v >> j) & 1
        out = t.to_bytes()
        for i in range(total // 8):
            S.check(S.eq(out[i + 1], bits_value(kept[8 * i:8 * i + 8])), 'one field changed')


def pairs(S, cfg):
    """every two widths that make whole bytes, and every three"""
    total, count = cfg
    n = total // 8
    first = S.choice('w', range(0, total + 1))
    ws = [first, total - first]
    if count == 3:
        second = S.choice('w2', range(0, total - first + 1))
        ws = [first, second, total - first - second]
    pad = S.choice('pad', range(-1, count))
    ws = [-w if i == pad and w else w for i, w in enumerate(ws)]
    fields, total = spans(ws)

    class T(Struct):
        _fields_ = [group_of(ws)]
    values = wide(S, fields, 1)
    t = T(**dict((f[0], v) for f, v in zip(fields, values)))
    data = t.to_bytes()
    S.check(same_bytes(S, data, encoded(S, fields, total, values)), 'written')
    src = S.bytes('data', n)
    r = T.create_from_string(bytes(src))
    bits = bit_list(src)
    for name, pos, w in fields:
        S.check(S.eq(getattr(r, name), bits_value(bits[pos:pos + w])), 'exactly its bits')


def refused(S, cfg):
    """whether widths are accepted at all"""
    ws = [S.choice('w%d' % i, range(-7, 12) if i == 0 else range(1, 10)) for i in range(cfg)]
    total = sum(abs(w) for w in ws)
    out = S.outcome(lambda: group_of(ws))
    S.check(out.ok == (total % 8 == 0), 'whole bytes only')
    if not out.ok:
        S.check(isinstance(out.exc, InstructError), 'library error')
    else:
        mm = out.value.min_max_sizeof()
        S.check(mm.min == total // 8 and mm.max == total // 8, 'bounds')


def several(S, cfg):
    """groups are independent"""
    class T(Struct):
        _fields_ = [BitFields(BitField('a', 3), BitField('b', 5)), BitFields(BitField('c', 11), BitPadding(2), BitField('d', 3)), UBInt16('n'),
                    BitFields(BitPadding(6), BitField('e', 2))]
    names, ws = 'abcde', (3, 5, 11, 3, 2)
    vs = [S.int(k, -(1 << w), (1 << (w + 1)) - 1) for k, w in zip(names, ws)]
    m = [v & ((1 << w) - 1) for v, w in zip(vs, ws)]
    n = S.bits('n', 16)
    t = T(n=n)
    order = S.choice('order', (names, names[::-1], 'caebd'))
    for k in order:
        setattr(t, k, vs[names.index(k)])
    S.check(same_bytes(S, t.to_bytes(), [m[0] | (m[1] << 3)] + le(m[2] | (m[3] << 13), 2) + be(n, 2) + [m[4] << 6]), 'written')
    S.check(same_bytes(S, t.to_bytes(), t.to_bytes()), 'the same twice')


def defaults(S, cfg):
    da, db = S.bits('da', 4), S.bits('db', 1)

    class T(Struct):
        _fields_ = [BitFields(BitField('a', 4, da), BitFlag('b', db), BitField('c', 3))]
    c, given = S.bits('c', 3), S.choice('given', ('', 'a', 'b', 'ab'))
    values = dict(a=S.bits('a', 4), b=S.bits('b', 1))
    t = T(c=c, **dict((k, values[k]) for k in given))
    want = dict(a=da, b=db)
    want.update((k, values[k]) for k in given)
    S.check(S.and_(S.eq(t.a, want['a']), S.eq(t.b, want['b'])), 'values')
    S.check(same_bytes(S, t.to_bytes(), [want['a'] | (want['b'] << 4) | (c << 5)]), 'written')


def flags(S, cfg):
    """booleans are bits"""
    class T(Struct):
        _fields_ = [BitFields(*[BitFlag('f%d' % i) for i in range(8)])]
    vs = [S.bool('b%d' % i) for i in range(8)]
    t = T(**dict(('f%d' % i, v) for i, v in enumerate(vs)))
    data = t.to_bytes()
    want = bits_value([S.ite(v, 1, 0) for v in vs])
    S.check(S.and_(len(data) == 1, S.eq(data[0], want)), 'written')
    r = T.create_from_string(bytes(data))
    for i, v in enumerate(vs):
        S.check(S.eq(getattr(r, 'f%d' % i), S.ite(v, 1, 0)), 'read')


def bit_stream(S, cfg):
    """the bit stream on its own"""
    n, k = cfg
    s = BitStringIO(n)
    bits, pos = [0] * (8 * n), 0
    sizes = []
    for i in range(k):
        w = S.choice('w%d' % i, (0, 1, 3, 7, 8, 9, 17))
        v = S.int('v%d' % i, -(1 << w), (1 << (w + 1)) - 1)
        out = S.outcome(lambda: s.write(v, w))
        S.check(out.ok == (pos + w <= 8 * n), 'writes up to its end')
        if out.ok:
            for j in range(w):
                bits[pos + j] = (v >> j) & 1
            pos += w
            sizes.append(w)
        else:
            S.check(isinstance(out.exc, IOError), 'refused')
    S.check(same_bytes(S, s.getvalue(), [bits_value(bits[i:i + 8]) for i in range(0, 8 * n, 8)]), 'bits written')
    r = BitStringIO(s.getvalue())
    at = 0
    for w in sizes:
        S.check(S.eq(r.read(w), bits_value(bits[at:at + w])), 'read back')
        at += w
    S.check(not S.outcome(lambda: r.read(8 * n - at + 1)).ok, 'reads up to its end')
    S.check(S.eq(r.read(8 * n - at), bits_value(bits[at:])), 'the rest')


def sought(S, cfg):
    n, k = cfg
    data = S.bytes('data', n)
    bits = bit_list(data)
    r = BitStringIO(bytes(data))
    for i in range(k):
        a = S.choice('at%d' % i, range(8 * n))
        w = S.choice('w%d' % i, [w for w in (0, 1, 5, 8, 12) if a + w <= 8 * n])
        r.seek(a)
        S.check(S.eq(r.read(w), bits_value(bits[a:a + w])), 'read at a position')
    S.check(same_bytes(S, r.getvalue(), data), 'content kept')


def truncated(S, widths):
    fields, total = spans(widths)

    class T(Struct):
        _fields_ = [group_of(widths)]
    k = S.choice('cut', range(total // 8))
    out = S.outcome(lambda: T.create_from_string(bytes(S.bytes('data', k))))
    S.check(not out.ok and isinstance(out.exc, InstructError), 'cut off input')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('written', written, WIDTHS, 5)
    obs += group('read', read, WIDTHS, 5)
    obs += group('pairs', pairs, [(8, 2), (16, 2)] + ([(24, 2), (32, 2), (8, 3)] if full else []), 1)
    if not full:
        obs += [Ob('triples', pairs, (8, 3))]
    else:
        obs += [Ob('triples', pairs, (16, 3))]
    obs += group('refused', refused, [1, 2] + ([3] if full else []), 1)
    obs += group('several', several, [None], 1)
    obs += group('defaults', defaults, [None], 1)
    obs += group('flags', flags, [None], 1)
    obs += group('stream', bit_stream, [(2, 2), (4, 3)] + ([(3, 4)] if full else []), 1)
    obs += group('sought', sought, [(3, 1), (1, 2)] + ([(2, 2), (3, 2)] if full else []), 1)
    obs += group('truncated', truncated, WIDTHS, 10)
    return obs
