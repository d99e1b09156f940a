"""Packed length, computed size and consumed size agree."""
from .dynamic import *
from . import composeb
from .layouts import LAYOUTS, GAPS, build, total_bits, values

BOUNDS = ('fixed layouts of props/layouts.py, dynamic layouts of props/dynamic.py, declared sizes up to 12 bytes; '
          'all values symbolic, up to 3 symbolic bytes of trailing junk')
BOUNDS += '; buffers of any two of 32 kinds of part, each right after the one before, names in several orders (props/composeb.py; quick: fewer of them)'


def whole(x):
    """size in bits -> whole bytes"""
    return -(-x // 8)


def dynamic(S, cfg):
    case, big = cfg
    c = case(S, big)
    S.check(c.T.byte_size is None or hasattr(c, 'needed'), 'no static size')
    first = S.bool('size-first')
    o = c.object()
    n = len(c.want)
    if first:
        size = o.calc_byte_size()
        data = o.pack()
    else:
        data = o.pack()
        size = o.calc_byte_size()
    S.observe('size', size)
    S.check(len(data) == n, 'packed length')
    S.check(S.eq(whole(size * 8), n), 'computed size')
    junk = S.bytes('junk', S.choice('extra', (0, 1, 3)) if c.junk else 0)
    t = c.T()
    used = t.unpack(bytes(data) + junk)
    S.observe('used', used)
    S.check(S.eq(whole(used * 8), n), 'consumed size')
    S.check(S.eq(used, size), 'consumed size equals the computed one')
    S.check(S.eq(whole(t.calc_byte_size() * 8), n), 'computed size of the unpacked object')


def fixed(S, name):
    fields = ALL[name]
    T = build(fields)
    bits = total_bits(fields)
    S.check(T.byte_size * 8 == bits, 'static size')
    vs, want = values(S, fields)
    o = T(**vs)
    S.check(o.calc_byte_size() * 8 == bits, 'computed size')
    data = o.pack()
    S.check(len(data) == whole(bits), 'packed length')
    used = T().unpack(bytes(data) + S.bytes('junk', S.choice('extra', (0, 3))))
    S.check(used * 8 == bits, 'consumed size')


def declared(S, cfg):
    """a declared static size: zeros up to it, or refused"""
    size, n = cfg

    class T(Buffer):
        byte_size = size
        l = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.d))
        d = bytearray_field(where=bytes_ref[1:1 + l])
        tail = be_uint_field(where=bytes_ref[1 + l:3 + l])
    d, tail = S.bytearray('d', n), S.bits('tail', 16)
    o = T(d=d, tail=tail)
    r = S.outcome(o.pack)
    S.observe('outcome', r.name())
    if n + 3 > size:
        S.check(not r.ok, 'refuses content larger than the declared size')
        return
    if not r.ok:
        raise r.exc
    want = [n] + list(d) + be(tail, 2)
    S.check(same_bytes(S, r.value, want + [0] * (size - n - 3)), 'padded')
    S.check(o.calc_byte_size() == size and T.byte_size == size, 'computed size')
    t = T()
    used = t.unpack(bytes(r.value) + S.bytes('junk', 2))
    S.check(used == size, 'consumed size')
    S.check(S.and_(S.eq(t.d, d), S.eq(t.tail, tail)), 'values')


def declared_fixed(S, cfg):
    size, shape = cfg
    if shape == 'bits':
        class T(Buffer):
            byte_size = size
            a = uint_field(where=bytes_ref[0].bits[3:7])
            b = be_uint_field(where=bytes_ref[1:3])
            c = uint_field(where=bytes_ref[4].bits[0:5])
        vs = dict(a=S.bits('a', 4), b=S.bits('b', 16), c=S.bits('c', 5))
        want = [vs['a'] << 3] + be(vs['b'], 2) + [0, vs['c']]
    else:
        class T(Buffer):
            byte_size = size
            a = str_field(where=bytes_ref[0:3])
            b = le_int_field(where=bytes_ref[3:5])
        vs = dict(a=text(S, 'a', 3), b=S.int('b', -(1 << 15), (1 << 15) - 1))
        want = codes(vs['a']) + le(vs['b'], 2)
    r = S.outcome(lambda: T(**vs).pack())
    if size < len(want):
        S.check(not r.ok, 'refuses content larger than the declared size')
        return
    if not r.ok:
        raise r.exc
    S.check(same_bytes(S, r.value, want + [0] * (size - len(want))), 'padded')
    S.check(T.byte_size == size, 'static size')
    S.check(T(**vs).calc_byte_size() == size, 'computed size')
    t = T()
    S.check(t.unpack(bytes(r.value) + S.bytes('junk', S.choice('extra', (0, 2)))) == size, 'consumed size')


def nested_declared(S, cfg):
    """objects with a declared size inside others: lists step by it, followers come after it"""
    size, n = cfg

    class E(Buffer):
        byte_size = size
        a = be_uint_field(where=bytes_ref[0:2])

    class T(Buffer):
        count = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.es))
        es = list_field(type=E, n=count, where=bytes_ref[1:])
        one = buffer_field(type=E, where=bytes_ref[after_ref(es):])
        z = be_uint_field(where=bytes_ref[after_ref(one):after_ref(one) + 1])
    vs = [S.bits('v%d' % i, 16) for i in range(n + 1)]
    z = S.bits('z', 8)
    o = T(es=[E(a=v) for v in vs[:n]], one=E(a=vs[n]), z=z)
    pad = [0] * (size - 2)
    want = [n] + sum([be(v, 2) + pad for v in vs], []) + [z]
    data = o.pack()
    S.check(same_bytes(S, data, want), 'packed')
    S.check(o.calc_byte_size() == len(want), 'computed size')
    t = T()
    S.check(t.unpack(bytes(data) + S.bytes('junk', 3)) == len(want), 'consumed size')
    S.check(S.and_(S.eq([e.a for e in t.es], vs[:n]), S.eq(t.one.a, vs[n]), S.eq(t.z, z)), 'values')


def conditional(S, cfg):
    """fields that are not packed or not read do not count"""
    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        d = bytearray_field(where=bytes_ref[1:1 + n])
        flag = be_uint_field(where=bytes_ref[1 + n:2 + n])
        opt = be_uint_field(where=bytes_ref[2 + n:6 + n], pack_if=self_ref.flag, unpack_if=self_ref.flag)
    n, flag = S.choice('n', (0, 2)), S.bits('flag', 8)
    d, opt = S.bytearray('d', n), S.bits('opt', 32)
    o = T(n=n, d=d, flag=flag, opt=opt)
    data = o.pack()
    has = S.conc(flag != 0)
    want = [n] + list(d) + [flag] + (be(opt, 4) if has else [])
    S.check(same_bytes(S, data, want), 'packed')
    S.check(o.calc_byte_size() == len(want), 'computed size')
    t = T()
    S.check(t.unpack(bytes(data) + S.bytes('junk', S.choice('extra', (0, 5)))) == len(want), 'consumed size')


def absent(S, cfg):
    """a fixed layout has its size whichever of its fields are written, none included"""
    size, = cfg

    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0:2], pack_if=self_ref.on_a, unpack_if=self_ref.on_a)
        b = bytearray_field(where=bytes_ref[3:5], pack_if=self_ref.on_b, unpack_if=self_ref.on_b)
        c = uint_field(where=bytes_ref[2].bits[1:4], pack_if=self_ref.on_c, unpack_if=self_ref.on_c)
        d = list_field(type=uint8, where=bytes_ref[5:7], pack_if=self_ref.on_d, unpack_if=self_ref.on_d)
        if size > 7:
            byte_size = size
    a, b, c, d = S.bits('a', 16), S.bytearray('b', 2), S.bits('c', 3), [S.bits('d%d' % i, 8) for i in range(2)]
    on = dict((n, S.bool(n)) for n in ('on_a', 'on_b', 'on_c', 'on_d'))
    o = T(a=a, b=b, c=c, d=d)
    for n in on:
        setattr(o, n, on[n])
    data = o.pack()
    S.observe('data', data)
    want = []
    for n, bs in (('on_a', be(a, 2)), ('on_c', [c << 1]), ('on_b', list(b)), ('on_d', d)):
        want += [S.ite(on[n], x, 0) for x in bs]
    S.check(same_bytes(S, data, want + [0] * (size - 7)), 'packed')
    S.check(o.calc_byte_size() == size and T.byte_size == size, 'computed size')
    t = T()
    for n in on:
        setattr(t, n, on[n])
    S.check(t.unpack(bytes(data) + S.bytes('junk', S.choice('extra', (0, 2)))) == size, 'consumed size')


def inherited(S, cfg):
    """sizes take in inherited fields wherever they lie"""
    low, = cfg

    class P(Buffer):
        a = be_uint_field(where=bytes_ref[0:2] if low else bytes_ref[4:8])

    class C(P):
        b = uint_field(where=bytes_ref[2:4].bits[0:11])

    class D(C):
        pass
    vs = dict(a=S.bits('a', 16 if low else 32), b=S.bits('b', 11))
    bits = 27 if low else 64
    for T in (C, D):
        S.check(T.byte_size * 8 == bits, 'static size')
        o = T(**vs)
        data = o.pack()
        S.check(len(data) == whole(bits), 'packed length')
        S.check(T().unpack(bytes(data) + S.bytes('junk' + T.__name__, 1)) * 8 == bits, 'consumed size')
        S.check(o.calc_byte_size() * 8 == bits, 'computed size')


def overlapping(S, cfg):
    """fields that share bytes: the size is that of their union"""
    if cfg == 'fixed':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0:4])
            b = be_uint_field(where=bytes_ref[2:6])
            c = uint_field(where=bytes_ref[1].bits[2:4])
        size = 6
    elif cfg == 'union':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0:2])
            b = le_uint_field(where=bytes_ref[0:4])
            c = uint_field(where=bytes_ref[0:2].bits[3:11])
        size = 4
    else:
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0])
            b = bytearray_field(where=bytes_ref[1:1 + a])
            c = be_uint_field(where=bytes_ref[1:3])
        size = None
    S.check(T.byte_size == size, 'static size')
    if cfg == 'dynamic':
        n = S.choice('n', (0, 1, 2, 4))
        v = dict(a=n, b=S.bytearray('b', n), c=S.bits('c', 16))
        size = 1 + max(n, 2)
    else:
        v = dict(a=S.bits('a', 16), b=S.bits('b', 32), c=S.bits('c', 2))
    o = T(**v)
    S.check(o.calc_byte_size() == size, 'computed size')
    data = o.pack()
    S.check(len(data) == size, 'packed length')
    S.check(T().unpack(bytes(data) + S.bytes('junk', S.choice('extra', (0, 3)))) == size, 'consumed size')

    class In(Buffer):
        x = buffer_field(type=T, where=bytes_ref[0:])
        y = be_uint_field(where=bytes_ref[after_ref(x):after_ref(x) + 1])
    i = In(x=T(**v), y=3)
    S.check(i.calc_byte_size() == size + 1, 'computed size inside another')
    t = In()
    S.check(t.unpack(bytes(i.pack()) + b'x') == size + 1, 'consumed size inside another')
    S.check(t.y == 3, 'follower')


def text_open(S, cfg):
    """text fields of open or given size: consumed size is the room they take, not the text they return"""
    justify, = cfg

    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        s = str_field(where=bytes_ref[1:1 + n], justify=justify)
        z = be_uint_field(where=bytes_ref[after_ref(s):after_ref(s) + 1])
    n, k = S.choice('n', (3, 5)), S.choice('k', (0, 1, 3))
    s, z = text(S, 's', k), S.bits('z', 8)
    o = T(n=n, s=s, z=z)
    data = o.pack()
    S.check(len(data) == n + 2, 'packed length')
    S.check(o.calc_byte_size() == n + 2, 'computed size')
    t = T()
    S.check(t.unpack(bytes(data) + S.bytes('junk', 1)) == n + 2, 'consumed size')
    S.check(S.and_(S.eq(t.s, s), S.eq(t.z, z)), 'values')


ALL = dict(LAYOUTS)
ALL.update(GAPS)


def obligations(tier):
    full = tier == 'thorough'
    obs = [Ob('dynamic-' + c.__name__.replace('_', '-'), dynamic, (c, full), c.__doc__ or '') for c in CASES]
    obs += group('arranged', dynamic, [(c, full) for c in (composeb.cases() if full else composeb.some('mixed'))], 1)
    obs += group('fixed', fixed, sorted(ALL), 4)
    obs += group('declared', declared, [(s, n) for s in ((4, 5, 8, 12) if full else (4, 6)) for n in range(0, 5)], 5)
    obs += group('declared-fixed', declared_fixed, [(s, k) for s in (4, 5, 6, 9) for k in ('bits', 'text')], 4)
    obs += group('nested-declared', nested_declared, [(2, 1), (3, 2), (5, 1)] + ([(4, 3)] if full else []), 2)
    obs += [Ob('conditional', conditional)]
    obs += group('absent', absent, [(7,), (9,)], 1)
    obs += group('inherited', inherited, [(True,), (False,)])
    obs += group('overlapping', overlapping, ['fixed', 'union', 'dynamic'], 3)
    obs += group('text', text_open, [('left',), ('right',), ('center',)], 3)
    return obs
