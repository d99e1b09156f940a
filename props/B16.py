"""Bit views read the same bits as the underlying bytes."""
from .lib import *
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray

BOUNDS = ('underlying buffers of 0..3 bytes (4 in the thorough tier), every content; every view over them and every slice of a '
          'view with bounds at multiples of 1/8, negative, open and out of range included; slices of slices to depth 3')


def groups(bits):
    """the bits as bytes, the last one partial"""
    return [bits_value(bits[i:i + 8]) for i in range(0, len(bits), 8)]


def clip(i, n):
    """a bit bound as Python clips it"""
    return max(i + n, 0) if i < 0 else min(i, n)


def agrees(S, v, bits, label, full=True):
    """every way of reading the view gives exactly these bits"""
    want = groups(bits)
    S.check(v.length() * 8 == len(bits), label + ': length')
    S.check(len(v) == len(want), label + ': len')
    S.check(S.eq(list(v), want), label + ': iteration')
    if not full:
        return
    S.check(S.eq(bytes(v.to_bytearray()), bytes(bytearray(want))), label + ': to_bytearray')
    S.check(S.eq(v.to_bytes(), bytes(bytearray(want))), label + ': to_bytes')
    S.check(S.eq(list(reversed(v)), want[::-1]), label + ': reversed')
    S.check(S.eq([v[i] for i in range(len(want))], want), label + ': index')


def bitstring(S, v, bits, label):
    S.check(S.eq([ord(c) for c in v.to_bitstr()], [48 + b for b in reversed(bits)]), label + ': bit string')


def make(S, cls, n, a, b):
    x = S.bytes('x', n)
    bits = bit_list(x)[a:b]
    if cls is BitView:
        return x, bits, BitView(x, a / 8.0 if a % 8 else a // 8, b / 8.0 if b % 8 else b // 8)
    return x, bits, BitAwareByteArray(bytearray(x), a / 8.0, b / 8.0)


def view_bounds(n):
    return [(a, b) for a in range(0, 8 * n + 1) for b in range(a, 8 * n + 1)
            if a in (0, 1, 4, 7, 8, 11) and b in (8 * n, 8 * n - 3, 8 * n - 7, 8, 5, 12, a, a + 1)]


def whole(S, cfg):
    """a view as a whole"""
    cls, n, bounds = cfg
    a, b = S.choice('view', bounds)
    x, bits, v = make(S, cls, n, a, b)
    S.observe('list', list(v))
    agrees(S, v, bits, 'view')
    S.check(S.eq(bytes(bytearray(list(BitView(bytearray(x), a / 8.0, b / 8.0)))), bytes(bytearray(groups(bits)))), 'of a bytearray')
    S.check(S.eq(list(BitView(list(x), a / 8.0, b / 8.0)), groups(bits)), 'of a list')
    if len(bits) <= 6:
        bitstring(S, v, bits, 'view')


def slices(S, cfg):
    """every slice of a view"""
    cls, n, a, b, out = cfg
    x, bits, v = make(S, cls, n, a, b)
    m = len(bits)
    i = S.choice('i', [None] + list(range(-m - out, m + out + 1)))
    lo = clip(0 if i is None else i, m)
    j = S.choice('j', [None] + [k for k in range(-m - out, m + out + 1) if clip(k, m) >= lo])
    hi = clip(m if j is None else j, m)
    w = v[None if i is None else i / 8.0:None if j is None else j / 8.0]
    S.check(type(w) is cls, 'type')
    agrees(S, w, bits[lo:hi], 'slice', full=(lo + hi) % 3 == 0)
    S.check(S.eq(list(v), groups(bits)), 'the view itself is unchanged')


def indexes(S, cfg):
    """single indexes: eight bits, or fewer at the end"""
    cls, n, a, b = cfg
    x, bits, v = make(S, cls, n, a, b)
    m = len(bits)
    i = S.choice('i', range(-m - 9, m + 9))
    lo = clip(i, m)
    if i >= m or not m:
        out = S.outcome(lambda: v[i / 8.0])
        return S.check(out.name() == 'IndexError', 'an index outside the view is refused')
    S.check(S.eq(v[i / 8.0], bits_value(bits[lo:lo + 8])), 'index')
    if i % 8 == 0:
        S.check(S.eq(v[i // 8], bits_value(bits[lo:lo + 8])), 'whole index')
    w = v[lo / 8.0:]
    S.check(S.eq(w[0], bits_value(bits[lo:lo + 8])), 'first of a slice')


def searches(S, cfg):
    """searching and counting agree with the list of the items"""
    cls, n, a, b = cfg
    x, bits, v = make(S, cls, n, a, b)
    items = groups(bits)
    y = S.bits('y', 8)
    found = [S.conc(S.eq(i, y)) for i in items]
    S.check((y in v) == any(found), 'in')
    S.check(v.count(y) == len([f for f in found if f]), 'count')
    out = S.outcome(v.index, y)
    if any(found):
        S.check(out.ok and out.value == found.index(True), 'index of an item')
    else:
        S.check(out.name() == 'ValueError', 'no such item')
    S.check(S.eq(list(reversed(v)), items[::-1]), 'reversed')


def nested(S, cfg):
    """slices of slices"""
    cls, n, depth, starts = cfg
    x, bits, v = make(S, cls, n, 0, 8 * n)
    for d in range(depth):
        m = len(bits)
        lo = S.choice('lo%d' % d, [k for k in starts if k <= m])
        hi = S.choice('hi%d' % d, [k for k in (m, m - 1, m - 5, lo + 9, lo + 3) if lo <= k <= m])
        v, bits = v[lo / 8.0:hi / 8.0], bits[lo:hi]
    agrees(S, v, bits, 'slice of a slice')
    v = v[-1:] if len(bits) > 8 else v[:]
    agrees(S, v, bits[-8:] if len(bits) > 8 else bits, 'its end')


def bit_strings(S, cfg):
    """conversion to a string of bits, most significant first"""
    n, bounds = cfg
    a, b = S.choice('view', bounds)
    x = S.bytes('x', n)
    bitstring(S, BitView(x, a / 8.0, b / 8.0), bit_list(x)[a:b], 'view')
    bitstring(S, BitView(x)[a / 8.0:b / 8.0], bit_list(x)[a:b], 'slice')


def refused(S, cfg):
    """bounds that make no view"""
    x = S.bytes('x', 2)
    i, j = S.choice('i', range(-20, 21)), S.choice('j', (-30, -9, -3, 0, 3, 8, 15, 30))
    v = BitView(x)
    out = S.outcome(lambda: v[i / 8.0:j / 8.0])
    S.check(out.ok == (clip(i, 16) <= clip(j, 16)), 'a slice is refused exactly when its bounds are reversed')
    S.check(not S.outcome(lambda: v[0:2:2]).ok, 'steps are refused')
    S.check(not S.outcome(lambda: v['0']).ok, 'other keys are refused')
    for a, b in ((0, 3), (-0.5, 1), (1.5, 1), (0.125, 2.125)):
        S.check(not S.outcome(BitView, x, a, b).ok, 'views outside the buffer are refused')


def fields_see(S, cfg):
    """a bit view given to a buffer as input reads as its bits"""
    a, b = cfg

    class T(Buffer):
        p = uint_field(where=bytes_ref[0].bits[0:3])
        q = uint_field(where=bytes_ref[0:2].bits[3:13])
        r = bytearray_field(where=bytes_ref[2:4])
        s = be_uint_field(where=bytes_ref[1:3])
    x = S.bytes('x', 6)
    bits = bit_list(x)[a:b]
    t = T()
    t.unpack(BitView(x, a / 8.0, b / 8.0))
    S.check(S.and_(S.eq(t.p, bits_value(bits[0:3])), S.eq(t.q, bits_value(bits[3:13])),
                   S.eq(t.r, bytearray(groups(bits[16:32]))), S.eq(t.s, bytes_value(groups(bits[8:24]), False))), 'values')


def obligations(tier):
    full = tier == 'thorough'
    obs = []
    for cls in (BitView, BitAwareByteArray):
        c = cls.__name__[:7]
        for n in (0, 1, 2, 3) + ((4,) if full else ()):
            obs.append(Ob('whole-%s-%d' % (c, n), whole, (cls, n, view_bounds(n))))
        for n, a, b, out in ((1, 0, 8, 5), (2, 3, 14, 9)) + (((2, 0, 16, 17), (3, 0, 24, 9), (3, 7, 23, 3), (3, 4, 12, 2)) if full else
                                                             ((3, 5, 19, 1),) if cls is BitView else ()):
            obs.append(Ob('slices-%s-%d-%d-%d' % (c, n, a, b), slices, (cls, n, a, b, out), time=60 if not full else 600))
        obs += group('indexes-%s' % c, indexes, [(cls, 2, 0, 16), (cls, 3, 5, 22), (cls, 1, 2, 7)], 3)
        obs += group('searches-%s' % c, searches, [(cls, 2, 0, 16), (cls, 3, 5, 21), (cls, 1, 2, 7), (cls, 1, 4, 4)], 4)
        obs.append(Ob('nested-%s' % c, nested, (cls, 3, 2 if not full else 3, (0, 1, 5, 8, 11)), time=60 if not full else 800))
    obs += [Ob('bit-strings', bit_strings, (2, [(0, 16), (0, 8), (3, 13), (7, 9), (8, 16), (15, 16), (4, 4), (5, 8), (1, 2)]))]
    obs += [Ob('refused', refused)]
    obs += group('fields', fields_see, [(0, 48), (3, 35), (8, 40), (7, 47), (15, 48)], 5)
    return obs
