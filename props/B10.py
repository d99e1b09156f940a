"""Buffer list fields keep order, count and element boundaries."""
from infi.instruct.buffer.macros import str_type_factory
from infi.instruct.buffer import macros as _m
from infi.instruct.buffer.serialize import pack_int, unpack_int
from infi.instruct.utils.kwargs import keep_kwargs_partial
from .dynamic import *

BOUNDS = 'lists of 0..5 elements of every predefined integer type, text, fixed and variable buffers; all contents symbolic'

TYPES = {}
for _e, _little in (('b', False), ('l', True), ('n', True)):
    for _w in (8, 16, 32, 64):
        TYPES['%s_int%d' % (_e, _w)] = (_w, 'signed', _little)
        TYPES['%s_uint%d' % (_e, _w)] = (_w, 'unsigned', _little)
for _w in (8, 16, 32, 64):
    TYPES['int%d' % _w] = (_w, 'signed', True)
    TYPES['uint%d' % _w] = (_w, 'unsigned', True)


def elem(data, w, sign, little):
    v = bytes_value(data, little)
    return signed(v, w) if sign == 'signed' else v


def ints(S, cfg):
    """closed range, exactly n elements, a neighbour on each side"""
    name, n = cfg
    w, sign, little = TYPES[name]
    k = w // 8

    class T(Buffer):
        before = be_uint_field(where=bytes_ref[0])
        items = list_field(type=getattr(_m, name), where=bytes_ref[1:1 + n * k])
        behind = be_uint_field(where=bytes_ref[1 + n * k])
    v = [S.int('v%d' % i, *int_range(w, sign)) for i in range(n)]
    a, b = S.bits('a', 8), S.bits('b', 8)
    data = T(items=v, before=a, behind=b).pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, [a] + sum([value_bytes(x, k, little) for x in v], []) + [b]), 'packed bytes')
    x = S.bytes('x', n * k + 2)
    t = T()
    t.unpack(x)
    S.observe('items', t.items)
    S.check(S.eq(t.items, [elem(x[1 + i * k:1 + i * k + k], w, sign, little) for i in range(n)]), 'elements')
    S.check(S.and_(S.eq(t.before, x[0]), S.eq(t.behind, x[n * k + 1])), 'neighbours')


def refuses(S, cfg):
    """an element that does not fit its type is refused, not stored as something else"""
    name, = cfg
    w, sign, little = TYPES[name]

    class T(Buffer):
        items = list_field(type=getattr(_m, name), where=bytes_ref[0:])
    lo, hi = int_range(w, sign)
    v = S.int('v', -(1 << w), 1 << w)
    i = S.choice('i', (0, 1, 2))
    xs = [1, 2, 3]
    xs[i] = v
    r = S.outcome(lambda: T(items=xs).pack())
    S.observe('outcome', r.name())
    S.check(r.ok == S.and_(v >= lo, v <= hi), 'refused exactly when it does not fit')
    if r.ok:
        S.check(same_bytes(S, r.value, sum([value_bytes(x, w // 8, little) for x in xs], [])), 'packed bytes')


def counted(S, cfg):
    """count less than, equal to and larger than what the bytes hold"""
    name, room = cfg
    w, sign, little = TYPES[name]
    k = w // 8

    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        items = list_field(type=getattr(_m, name), n=n, where=bytes_ref[1:] if room is None else bytes_ref[1:1 + room * k])
    have = 3 if room is None else room
    n = S.int('n', 0, have + 2)
    x = S.bytes('x', 3 * k)
    t = T()
    t.unpack(bytes(bytearray([n])) + x)
    m = min(S.conc(n), have)
    S.observe('items', t.items)
    S.check(len(t.items) == m, 'count')
    S.check(S.eq(t.items, [elem(x[i * k:i * k + k], w, sign, little) for i in range(m)]), 'elements')


def constant_count(S, cfg):
    n, have = cfg

    class T(Buffer):
        items = list_field(type=b_uint16, n=n, where=bytes_ref[0:])
        more = be_uint_field(where=bytes_ref[after_ref(items):after_ref(items) + 1])
    if n > have:
        class T(Buffer):
            items = list_field(type=b_uint16, n=n, where=bytes_ref[0:])
        x = S.bytes('x', 2 * have)
        t = T()
        S.check(t.unpack(x) == 2 * have, 'consumed size')
        S.check(S.eq(t.items, [elem(x[2 * i:2 * i + 2], 16, 'unsigned', False) for i in range(have)]), 'elements')
        return
    x = S.bytes('x', 2 * have + 1)
    t = T()
    used = t.unpack(x)
    m = n
    S.check(S.eq(t.items, [elem(x[2 * i:2 * i + 2], 16, 'unsigned', False) for i in range(m)]), 'elements')
    S.check(S.eq(t.more, x[2 * m]), 'next field starts where the list stopped')
    S.check(used == 2 * m + 1, 'consumed size')


def split(S, cfg):
    """a list over several ranges, elements crossing from one to the next"""
    parts, name = cfg
    w, sign, little = TYPES[name]
    k = w // 8
    ref, pos = where(*parts)
    n = len(pos) // w
    assert len(pos) % w == 0
    T = make_buffer(dict(items=list_field(type=getattr(_m, name), where=ref)))
    v = [S.int('v%d' % i, *int_range(w, sign)) for i in range(n)]
    data = T(items=v).pack()
    S.observe('data', data)
    bits = bit_list(sum([value_bytes(x, k, little) for x in v], []))
    S.check(same_bytes(S, data, place([(pos, bits)], size_of(pos))), 'packed bytes')
    x = S.bytes('x', size_of(pos) + 1)
    t = T()
    t.unpack(x)
    got = [bits_value(pick(x, pos)[8 * i:8 * i + 8]) for i in range(n * k)]
    S.check(S.eq(t.items, [elem(got[i * k:i * k + k], w, sign, little) for i in range(n)]), 'elements')


def partial(S, cfg):
    """bytes that end inside an element are refused"""
    name, extra = cfg
    w, sign, little = TYPES[name]

    class T(Buffer):
        items = list_field(type=getattr(_m, name), where=bytes_ref[0:])
    t = T()
    n = S.choice('n', (0, 1, 2))
    r = S.outcome(t.unpack, S.bytes('x', n * w // 8 + extra))
    S.observe('outcome', r.name())
    S.check(not r.ok, 'refused')


def texts(S, cfg):
    k, justify, n = cfg
    typ = str_type_factory(byte_size=k, justify=justify, padding=b'.', strip=b'')

    class T(Buffer):
        items = list_field(type=typ, where=bytes_ref[0:k * n])
        behind = be_uint_field(where=bytes_ref[k * n:k * n + 1])
    ls = [S.choice('l%d' % i, range(k + 1)) for i in range(n)]
    v = [S.str('s%d' % i, l, 48, 122) for i, l in enumerate(ls)]
    b = S.bits('b', 8)
    data = T(items=v, behind=b).pack()
    S.observe('data', data)
    want = []
    for s in v:
        pad = [46] * (k - len(s))
        want += codes(s) + pad if justify == 'left' else pad + codes(s)
    S.check(same_bytes(S, data, want + [b]), 'packed bytes')
    t = T()
    t.unpack(bytes(data))
    S.observe('items', t.items)
    S.check(S.and_(S.eq(t.items, v), S.eq(t.behind, b)), 'elements')


def fixed_buffers(S, cfg):
    n, size = cfg

    class E(Buffer):
        byte_size = size
        hi = uint_field(where=bytes_ref[0].bits[4:8])
        lo = uint_field(where=bytes_ref[0].bits[0:4] + bytes_ref[1])
        s = be_int_field(where=bytes_ref[2:4])

    class T(Buffer):
        es = list_field(type=E, where=bytes_ref[1:])
        a = be_uint_field(where=bytes_ref[0])
    x = S.bytes('x', 1 + n * size)
    t = T()
    t.unpack(x)
    S.check(len(t.es) == n, 'count')
    for i, e in enumerate(t.es):
        y = x[1 + i * size:1 + i * size + size]
        S.check(S.and_(S.eq(e.hi, y[0] >> 4), S.eq(e.lo, (y[0] & 15) | (y[1] << 4)),
                       S.eq(e.s, signed(bytes_value(y[2:4], False), 16))), 'element')
    again = t.pack()
    want = [x[0]]
    for i in range(n):
        want += list(x[1 + i * size:5 + i * size]) + [0] * (size - 4)
    S.check(same_bytes(S, again, want), 'packed again')


def variable_buffers(S, cfg):
    n, = cfg

    class E(Buffer):
        l = uint_field(where=bytes_ref[0].bits[0:2], set_before_pack=len_ref(self_ref.d))
        f = uint_field(where=bytes_ref[0].bits[2:8])
        d = bytearray_field(where=bytes_ref[1:1 + l])

    class T(Buffer):
        es = list_field(type=E, where=bytes_ref[0:])
    ls = [S.choice('l%d' % i, (0, 1, 3)) for i in range(n)]
    ds, fs = [S.bytearray('d%d' % i, l) for i, l in enumerate(ls)], [S.bits('f%d' % i, 6) for i in range(n)]
    want = sum([[l | (f << 2)] + list(d) for l, f, d in zip(ls, fs, ds)], [])
    data = T(es=[E(f=f, d=d) for f, d in zip(fs, ds)]).pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bytes')
    t = T()
    t.unpack(bytes(data))
    S.check(len(t.es) == n, 'count')
    for e, f, d in zip(t.es, fs, ds):
        S.check(S.and_(S.eq(e.l, len(d)), S.eq(e.f, f), S.eq(e.d, d)), 'element')


def two_lists(S, cfg):
    m, n = cfg

    class T(Buffer):
        nb = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.b))
        na = be_uint_field(where=bytes_ref[1], set_before_pack=len_ref(self_ref.a))
        b = list_field(type=l_int16, n=nb, where=bytes_ref[2:])
        a = list_field(type=b_uint8, n=na, where=bytes_ref[after_ref(b):])
        z = le_uint_field(where=bytes_ref[after_ref(a):after_ref(a) + 2])
    b = [S.int('b%d' % i, -(1 << 15), (1 << 15) - 1) for i in range(m)]
    a = [S.bits('a%d' % i, 8) for i in range(n)]
    z = S.bits('z', 16)
    data = T(a=a, b=b, z=z).pack()
    S.check(same_bytes(S, data, [m, n] + sum([le(x, 2) for x in b], []) + a + le(z, 2)), 'packed bytes')
    t = T()
    t.unpack(bytes(data) + S.bytes('junk', 2))
    S.check(S.and_(S.eq(t.a, a), S.eq(t.b, b), S.eq(t.z, z)), 'values')


def small(S, cfg):
    """elements smaller than a byte, and elements that end inside one"""
    bits, count, where_, counted_ = cfg
    t = (keep_kwargs_partial(pack_int, byte_size=bits / 8.0, sign='unsigned'), keep_kwargs_partial(unpack_int, byte_size=bits / 8.0, sign='unsigned'))
    total = bits * count
    if where_ == 'bytes':
        assert total % 8 == 0
        ref, at = bytes_ref[1:1 + total // 8], 8
    elif where_ == 'rest':
        ref, at = bytes_ref[1:], 8
    else:
        ref, at = bytes_ref[0:(total + 20) // 8 + 1].bits[10:10 + total], 10

    class T(Buffer):
        first = uint_field(where=bytes_ref[0].bits[0:3], default=5)
        items = list_field(type=t, where=ref, **(dict(n=count) if counted_ else {}))
    if where_ != 'bits':
        vs = [S.bits('v%d' % i, bits) for i in range(count)]
        whole = 0
        for i, v in enumerate(vs):
            whole = whole | (v << (i * bits))
        data = T(items=vs).pack()
        S.observe('data', data)
        S.check(same_bytes(S, data, [5] + le(whole, total // 8)), 'packed bytes')
    x = S.bytes('x', (total + at + 7) // 8)
    o = T()
    n = o.unpack(x)
    S.observe('items', o.items)
    y = bytes_value(x, True) >> at
    S.check(S.eq(list(o.items), [(y >> (i * bits)) & ((1 << bits) - 1) for i in range(count)]), 'elements')
    S.check(S.eq(o.first, x[0] & 7), 'other field')


def ends_inside(S, cfg):
    """nested buffers that end inside a byte: each element starts at a byte of its own"""
    bits, counted_ = cfg

    class E(Buffer):
        a = be_uint_field(where=bytes_ref[0])
        b = uint_field(where=bytes_ref[1].bits[0:bits])

    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.es))
        es = list_field(type=E, where=bytes_ref[1:], **(dict(n=n) if counted_ else {}))
    k = S.choice('k', range(4))
    vs = [(S.bits('a%d' % i, 8), S.bits('b%d' % i, bits)) for i in range(k)]
    data = T(es=[E(a=a, b=b) for a, b in vs]).pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, [k] + [x for p in vs for x in p]), 'packed bytes')
    t = T()
    used = t.unpack(bytes(data) + (S.bytes('junk', 2) if counted_ else b''))
    S.check(used == len(data), 'consumed size')
    S.check(len(t.es) == k, 'count')
    S.check(S.and_(True, *[S.and_(S.eq(e.a, a), S.eq(e.b, b)) for e, (a, b) in zip(t.es, vs)]), 'elements')


def indexed(S, cfg):
    """elements decoded by a selector that uses the index and the elements so far"""
    n, = cfg

    class T(Buffer):
        def pick_elem(self, buffer, index, container, **kwargs):
            assert len(container) == index
            l = self.sizes[index]
            return buffer[0:l].to_bytes(), l
        sizes = list_field(type=b_uint8, where=bytes_ref[0:n])
        items = list_field(type=b_uint8, n=n, where=bytes_ref[n:], unpack_selector=pick_elem, unpack_after=sizes)
    ls = [S.choice('l%d' % i, (1, 2, 3)) for i in range(n)]
    x = S.bytes('x', sum(ls) + 1)
    t = T()
    t.unpack(bytes(bytearray(ls)) + x)
    at, want = 0, []
    for l in ls:
        want.append(x[at:at + l])
        at += l
    S.check(S.eq(t.items, want), 'elements')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('ints', ints, [(k, n) for k in sorted(TYPES) for n in ((0, 1, 2, 5) if full else (0, 3))], 16)
    obs += group('refuses', refuses, [(k,) for k in sorted(TYPES) if k[1] == '_'], 8)
    obs += group('counted', counted, [(k, r) for k in ('b_uint8', 'l_int16', 'b_int32', 'l_uint64') for r in (None, 2)], 4)
    obs += group('constant-count', constant_count, [(n, h) for n in (0, 1, 2, 4) for h in (0, 2, 3)], 12)
    obs += group('split', split, [(p, t) for p in ((('B', 4, 7), ('B', 0, 1)), (('B', 1, 2), ('B', 3, 6)), (('b', 4, 36),),
                                                   (('n', 5), ('n', 3), ('n', 1), ('n', 0)))
                                  for t in ('b_uint16', 'l_int32', 'b_int8')], 6)
    obs += group('partial', partial, [('b_uint16', 1), ('l_int32', 1), ('l_int32', 3), ('b_uint64', 7)], 4)
    obs += group('texts', texts, [(k, j, n) for k, n in (((1, 2), (2, 3), (4, 2)) if full else ((1, 2), (3, 2)))
                                  for j in ('left', 'right')], 2)
    obs += group('fixed-buffers', fixed_buffers, [(n, s) for n in (0, 1, 3) for s in (4, 6)], 3)
    obs += group('variable-buffers', variable_buffers, [(n,) for n in ((0, 1, 2, 3) if full else (0, 1, 2))], 1)
    obs += group('two-lists', two_lists, [(m, n) for m in (1, 2) for n in (1, 3)], 4)
    obs += group('small', small, [(b, c, w, n) for b, c in ((4, 2), (4, 4), (2, 8), (1, 8), (6, 4), (12, 2)) for w, n in
                                  (('bytes', True), ('bytes', False), ('rest', False), ('bits', True), ('bits', False))]
                 + [(b, c, 'bits', n) for b, c in ((4, 3), (3, 3), (7, 2), (1, 5), (9, 2), (4, 0)) for n in (True, False)], 6)
    obs += group('ends-inside', ends_inside, [(b, n) for b in (1, 4, 7) for n in (True, False)], 3)
    obs += group('indexed', indexed, [(1,), (3,)], 2)
    return obs
