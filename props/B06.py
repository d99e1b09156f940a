"""Length-prefixed and following fields round-trip."""
from .dynamic import *
from . import composeb, anykind

BOUNDS = ('the %d dynamic layouts of props/dynamic.py; variable parts of 0..7 bytes or 0..4 elements, all contents symbolic, '
          '0..2 symbolic bytes of trailing junk' % len(CASES))
BOUNDS += '; buffers of any two of 32 kinds of part, each right after the one before, names in several orders (props/composeb.py; quick: fewer of them)'
BOUNDS += '; each of the 14 kinds of field, four bytes of any value: a place given apart for packing and for unpacking (props/anykind.py)'


def roundtrip(S, cfg):
    case, big = cfg
    c = case(S, big)
    o = c.object()
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, c.want), 'packed bytes')
    c.check_values(S, o, 'after packing')
    junk = S.bytes('junk', S.choice('extra', (0, 2) if not big else (0, 1, 2, 5)) if c.junk else 0)
    t = c.T()
    t.unpack(bytes(data) + junk)
    c.check_values(S, t, 'unpacked')
    S.check(same_bytes(S, t.pack(), c.want), 'packed again')


def opened(S, cfg):
    """a field that takes the rest, and closed ranges before it, in any declared order; another field right after it"""
    kind, order, follow = cfg
    parts = dict(c=bytes_ref[1:3], d=bytes_ref[4], o=bytes_ref[6:])
    room = dict(c=2, d=1)
    at = dict(c=[1, 2], d=[4])
    ref = None
    for p in order:
        ref = parts[p] if ref is None else ref + parts[p]
    closed = sum(room[p] for p in order if p != 'o')
    extra = S.choice('extra', (0, 1, 3))
    n = closed + extra

    class Two(Buffer):
        a = be_uint_field(where=bytes_ref[0])
        b = bytearray_field(where=bytes_ref[1:])
    raw = S.bytes('v', n)
    f, v = {
        'bytes': lambda: (bytearray_field, bytearray(raw)),
        'text': lambda: (lambda **k: str_field(encoding='latin-1', padding=b' ', strip=b'', **k), None),
        'list': lambda: (lambda **k: list_field(type=b_uint8, **k), list(raw)),
        'counted': lambda: (lambda **k: list_field(type=b_uint8, n=n, **k), list(raw)),
        'buffer': lambda: (lambda **k: buffer_field(Two, **k), Two(a=raw[0] if n else 0, b=bytearray(raw[1:])))}[kind]()
    if kind == 'text':
        for c in raw:
            S.assume(S.and_(c > 32, c < 127))
        v = raw.decode('latin-1')
    if not n and kind == 'buffer':
        return S.check(True, 'nothing')

    class T(Buffer):
        h = be_uint_field(where=bytes_ref[0])
        m = f(where=ref) if not follow else f(where_when_pack=ref, where_when_unpack=closing(order, parts))
        if follow:
            z = be_uint_field(where_when_pack=bytes_ref[after_ref(m)], where_when_unpack=bytes_ref[input_buffer_length - 1])
    h, z = S.bits('h', 8), S.bits('z', 8)
    data = T(h=h, m=v, z=z).pack() if follow else T(h=h, m=v).pack()
    S.observe('data', data)
    where_ = []
    for p in order:
        where_ += at[p] if p != 'o' else range(6, 6 + extra)
    size = max([1] + [i + 1 for i in where_])
    if 'o' in order:
        size = max(size, 6)
    want = [0] * size
    want[0] = h
    for i, x in zip(where_, raw):
        want[i] = x
    if follow:
        want.append(z)
    if not extra and not follow:
        # an empty open range at the end may or may not take the room up to where it starts
        S.check(same_bytes(S, list(data) + [0] * (6 - len(data)), want), 'packed bytes')
    else:
        S.check(same_bytes(S, data, want), 'packed bytes')
    t = T()
    t.unpack(bytes(bytearray(want)))
    S.check(S.eq(t.h, h), 'first')
    if follow:
        S.check(S.eq(t.z, z), 'last')
    if kind == 'buffer':
        S.check(S.and_(S.eq(t.m.a, raw[0]), S.eq(t.m.b, bytearray(raw[1:]))), 'nested object')
    else:
        S.check(S.eq(t.m, v), 'value')


def closing(order, parts):
    parts = dict(parts, o=bytes_ref[6:input_buffer_length - 1])
    ref = None
    for p in order:
        ref = parts[p] if ref is None else ref + parts[p]
    return ref


def limited(S, order):
    """a list of a given count in an open place: what follows it starts after the highest byte it took, or where its open range starts"""
    parts = dict(c=bytes_ref[1:3], d=bytes_ref[4], o=bytes_ref[6:])
    ref, at = None, []
    for p in order:
        ref = parts[p] if ref is None else ref + parts[p]
        at += {'c': [1, 2], 'd': [4], 'o': range(6, 11)}[p]

    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        m = list_field(type=b_uint8, n=n, where=ref)
        z = be_uint_field(where=bytes_ref[after_ref(m)])
    n = S.choice('n', (1, 2, 3, 4))
    x = S.bytes('x', 10)
    t = T()
    t.unpack(bytes(bytearray([n])) + x)
    x = [n] + list(x)
    S.check(S.eq(list(t.m), [x[i] for i in at[:n]]), 'elements')
    if n >= 3:      # shorter lists could not have been packed there
        S.check(S.eq(t.z, x[max(at[:n] + [5]) + 1]), 'the field after the list')
        if 'o' == order[-1]:
            back = T()
            back.unpack(t.pack())
            S.check(S.and_(S.eq(back.z, t.z), S.eq(list(back.m), list(t.m))), 'round trip')


def parse(S, cfg):
    """any input bytes whose lengths fit: the fields are the bytes they point at"""
    shape, n = cfg
    data = S.bytes('data', n)
    x = list(data)
    if shape == 'chain':
        class T(Buffer):
            b = bytearray_field(where=bytes_ref[1:1 + self_ref_n('b_len')])
            b_len = uint_field(where=bytes_ref[0].bits[0:3])
            a_len = uint_field(where=bytes_ref[0].bits[3:6])
            a = bytearray_field(where=bytes_ref[after_ref(b):after_ref(b) + a_len])
            c = be_int_field(where=bytes_ref[after_ref(a):after_ref(a) + 2])
        m, k = x[0] & 7, (x[0] >> 3) & 7
        S.assume(1 + m + k + 2 <= n)
        t = T()
        t.unpack(data)
        m, k = S.conc(m), S.conc(k)
        S.check(S.and_(S.eq(t.b, data[1:1 + m]), S.eq(t.a, data[1 + m:1 + m + k]), S.eq(t.b_len, m), S.eq(t.a_len, k),
                       S.eq(t.c, signed(bytes_value(data[1 + m + k:3 + m + k], False), 16))), 'fields')
    elif shape == 'size':
        class T(Buffer):
            size = le_uint_field(where=bytes_ref[0:2], set_before_pack=total_size)
            body = bytearray_field(where_when_pack=bytes_ref[3:], where_when_unpack=bytes_ref[3:size])
            kind = uint_field(where=bytes_ref[2])
        sz = bytes_value(x[0:2], True)
        S.assume(S.and_(sz >= 3, sz <= n))
        t = T()
        t.unpack(data)
        k = S.conc(sz)
        S.check(S.and_(S.eq(t.size, k), S.eq(t.kind, x[2]), S.eq(t.body, data[3:k])), 'fields')
        S.check(S.eq(t.pack(), data[:k]), 'packed again')
    elif shape == 'list':
        class E(Buffer):
            n = be_uint_field(where=bytes_ref[0])
            d = bytearray_field(where=bytes_ref[1:1 + n])

        class T(Buffer):
            count = be_uint_field(where=bytes_ref[0])
            es = list_field(type=E, n=count, where=bytes_ref[1:])
            z = be_uint_field(where=bytes_ref[after_ref(es):after_ref(es) + 1])
        S.assume(S.and_(x[0] >= 1, x[0] <= 2, x[1] <= 2))
        cnt, k = S.conc(x[0]), S.conc(x[1])
        want = [data[2:2 + k]]
        at = 2 + k
        if cnt == 2:
            S.assume(x[at] <= n - at - 2)
            j = S.conc(x[at])
            want.append(data[at + 1:at + 1 + j])
            at += 1 + j
        t = T()
        t.unpack(data)
        S.check(S.and_(len(t.es) == cnt, *[S.and_(S.eq(e.n, len(w)), S.eq(e.d, w)) for e, w in zip(t.es, want)]), 'elements')
        S.check(S.eq(t.z, x[at]), 'trailer')


def self_ref_n(name):
    return num_ref(getattr(self_ref, name))


def obligations(tier):
    full = tier == 'thorough'
    return [Ob(c.__name__.replace('_', '-'), roundtrip, (c, full), c.__doc__ or '') for c in CASES] + \
        group('arranged', roundtrip, [(c, False) for c in (composeb.cases() if full else composeb.some('backward'))], 1) + \
        group('opened', opened, [(k, o, f) for k in ('bytes', 'text', 'list', 'counted', 'buffer')
                                 for o in ('o', 'co', 'oc', 'ocd', 'doc', 'dco', 'odc') for f in (False, True)], 7) + \
        group('limited', limited, ['o', 'oc', 'co', 'doc', 'odc', 'dco'], 6) + \
        group('kinds', anykind.two_places, [(k, h) for k in anykind.KINDS for h in ('same', 'other')], 7) + \
        group('parse', parse, [(k, n) for k in ('chain', 'size', 'list') for n in ((7, 10) if full else (7,))], 1)
