"""Conditional buffer fields appear exactly when their condition holds."""
import operator
from .dynamic import *
from . import anykind

BOUNDS = ('one or two conditional fields of every kind among up to 6 fields; conditions over symbolic fields: truth, six '
          'comparisons, arithmetic, object methods, functions, input length; all values symbolic')
BOUNDS += '; each of the 14 kinds of field, four bytes of any value: different conditions for packing and unpacking, given in 4 ways (props/anykind.py)'

OPS = dict(eq=operator.eq, ne=operator.ne, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge)


def condition(kind, flag, k):
    """(reference over the field `flag`, function of its value)"""
    if kind in OPS:
        return OPS[kind](flag, k), lambda v: OPS[kind](v, k)
    if kind == 'truth':
        return flag, lambda v: v != 0
    if kind == 'name':
        return self_ref.flag, lambda v: v != 0
    if kind == 'method':
        return self_ref.is_on(), lambda v: (v & k) == k
    if kind == 'function':
        return member_func_ref(lambda self: (self.flag & k) == k), lambda v: (v & k) == k
    if kind == 'sum':
        return flag + 3 > k, lambda v: v + 3 > k
    if kind == 'minus':
        return -flag + k, lambda v: k - v != 0
    if kind == 'div':
        return flag // k == 2, lambda v: v // k == 2
    if kind == 'reflected':
        return k < flag, lambda v: k < v
    if kind == 'cast':
        return num_ref(self_ref.flag) * 2 >= k, lambda v: v * 2 >= k
    if kind == 'minmax':
        return min_ref(flag, k) == max_ref(flag, k), lambda v: v == k
    raise ValueError(kind)


def conditions(S, cfg):
    kind, k = cfg

    class T(Buffer):
        def is_on(self):
            return (self.flag & k) == k
        flag = be_uint_field(where=bytes_ref[0])
        n = be_uint_field(where=bytes_ref[1], set_before_pack=len_ref(self_ref.d))
        d = bytearray_field(where=bytes_ref[2:2 + n])
        opt = be_uint_field(where=bytes_ref[2 + n:4 + n], pack_if=condition(kind, flag, k)[0],
                            unpack_if=condition(kind, flag, k)[0], unpack_after=flag)
    m = S.choice('n', (0, 2))
    flag, d, opt = S.bits('flag', 8), S.bytearray('d', m), S.bits('opt', 16)
    has = S.conc(condition(kind, 0, k)[1](flag)) if kind not in ('truth', 'name') else S.conc(flag != 0)
    S.observe('has', bool(has))
    o = T(flag=flag, d=d, opt=opt)
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, [flag, m] + list(d) + (be(opt, 2) if has else [])), 'packed bytes')
    rest = S.bytes('rest', 3)
    t = T(opt=1234)
    used = t.unpack(bytes(bytearray([flag, m])) + bytes(d) + rest)
    S.check(used == 2 + m + (2 if has else 0), 'consumed size')
    if has:
        S.check(S.eq(t.opt, bytes_value(rest[0:2], False)), 'read when the condition holds')
    else:
        S.check(t.opt is None, 'None when the condition does not hold')
    S.check(S.and_(S.eq(t.flag, flag), S.eq(t.d, d)), 'other fields')


def make_opt(kind, **kw):
    class Inner(Buffer):
        a = le_uint_field(where=bytes_ref[0:2])
    if kind == 'int':
        return int_field(where=bytes_ref[2:4], sign='signed', endian='big', **kw)
    if kind == 'bits':
        return uint_field(where=bytes_ref[2:4].bits[3:14], **kw)
    if kind == 'three':
        return be_uint_field(where=bytes_ref[1:4], **kw)
    if kind == 'float':
        return float_field(where=bytes_ref[1:5], endian='big', **kw)
    if kind == 'str':
        return str_field(where=bytes_ref[2:4], encoding='latin-1', **kw)
    if kind == 'bytes':
        return bytearray_field(where=bytes_ref[2:4], **kw)
    if kind == 'list':
        return list_field(type=b_uint8, where=bytes_ref[2:4], **kw)
    if kind == 'buffer':
        return buffer_field(type=Inner, where=bytes_ref[2:4], **kw)


def sample(S, kind, T):
    """(value, its bytes 1..5, reader of bytes -> comparison with the value read)"""
    if kind == 'int':
        v = S.int('v', -(1 << 15), (1 << 15) - 1)
        return v, [0] + be(v, 2) + [0], lambda got, x: S.eq(got, signed(bytes_value(x[1:3], False), 16))
    if kind == 'bits':
        v = S.bits('v', 11)
        return v, [0] + le(v << 3, 2) + [0], lambda got, x: S.eq(got, (bytes_value(x[1:3], True) >> 3) & 2047)
    if kind == 'three':
        v = S.bits('v', 24)
        return v, be(v, 3) + [0], lambda got, x: S.eq(got, bytes_value(x[0:3], False))
    if kind == 'float':
        v = S.f32('v')
        S.assume(S.not_(S.is_nan(v)))
        return v, be(S.float_bits(v, 4), 4), lambda got, x: S.or_(S.is_nan(got), S.eq(S.float_bits(got, 4), bytes_value(x[0:4], False)))
    if kind == 'str':
        v = text(S, 'v', 2)
        return v, [0] + codes(v) + [0], lambda got, x: True
    if kind == 'bytes':
        v = S.bytearray('v', 2)
        return v, [0] + list(v) + [0], lambda got, x: S.eq(got, x[1:3])
    if kind == 'list':
        v = [S.bits('v0', 8), S.bits('v1', 8)]
        return v, [0] + v + [0], lambda got, x: S.eq(list(got), list(x[1:3]))
    if kind == 'buffer':
        a = S.bits('v', 16)
        return a, [0] + le(a, 2) + [0], lambda got, x: S.eq(got.a, bytes_value(x[1:3], True))


def kinds(S, kind):
    """every kind of field, fixed position, packing and unpacking conditions apart"""
    class T(Buffer):
        pk = uint_field(where=bytes_ref[0].bits[0:2])
        up = uint_field(where=bytes_ref[0].bits[2:5])
        opt = make_opt(kind, pack_if=num_ref(self_ref.pk) > 1, unpack_if=self_ref.up)
        last = be_uint_field(where=bytes_ref[5:7])
    pk, up, last = S.bits('pk', 2), S.bits('up', 3), S.bits('last', 16)
    v, raw, check = sample(S, kind, T)
    packs = S.conc(pk > 1)
    o = T(pk=pk, up=up, last=last)
    if kind == 'buffer':
        I = T_inner(kind)
        o.opt = I(a=v)
    else:
        o.opt = v
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, [pk | (up << 2)] + (raw if packs else [0] * 4) + be(last, 2)), 'packed bytes')
    rest = S.bytes('rest', 6)
    if kind == 'str':
        for c in rest:
            S.assume(S.and_(c > 32, c < 127))
    t = T()
    t.unpack(bytes(bytearray([pk | (up << 2)])) + rest)
    if S.conc(up != 0):
        S.check(check(t.opt, rest), 'value read')
        if kind == 'str':
            S.check(S.eq(t.opt, bytes(rest[1:3]).decode('latin-1')), 'text read')
    else:
        S.check(t.opt is None, 'None when the condition does not hold')
    S.check(S.and_(S.eq(t.pk, pk), S.eq(t.up, up), S.eq(t.last, bytes_value(rest[4:6], False))), 'other fields')


def T_inner(kind):
    class Inner(Buffer):
        a = le_uint_field(where=bytes_ref[0:2])
    return Inner


def two(S, cfg):
    """two conditional fields, all four combinations in one object"""
    class T(Buffer):
        z = uint_field(where=bytes_ref[0].bits[7])
        y = uint_field(where=bytes_ref[0].bits[6])
        low = uint_field(where=bytes_ref[0].bits[0:6])
        a = be_uint_field(where=bytes_ref[1:3], pack_if=z, unpack_if=z)
        b = be_uint_field(where=bytes_ref[1 + 2 * z:2 + 2 * z], pack_if=y == 0, unpack_if=y == 0)
        n = be_uint_field(where_when_pack=bytes_ref[1 + 2 * z + (1 - y):2 + 2 * z + (1 - y)],
                          where_when_unpack=bytes_ref[1 + 2 * z + (1 - y):2 + 2 * z + (1 - y)])
    z, y, low = S.bits('z', 1), S.bits('y', 1), S.bits('low', 6)
    a, b, n = S.bits('a', 16), S.bits('b', 8), S.bits('n', 8)
    data = T(z=z, y=y, low=low, a=a, b=b, n=n).pack()
    hz, hy = S.conc(z), S.conc(y)
    want = [low | (y << 6) | (z << 7)] + (be(a, 2) if hz else []) + ([b] if not hy else []) + [n]
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bytes')
    t = T(a=1, b=2)
    used = t.unpack(bytes(data) + S.bytes('junk', 3))
    S.check(used == len(want), 'consumed size')
    S.check(S.eq(t.a, a) if hz else t.a is None, 'first')
    S.check(S.eq(t.b, b) if not hy else t.b is None, 'second')
    S.check(S.and_(S.eq(t.n, n), S.eq(t.low, low)), 'others')


def by_length(S, cfg):
    """fields that are only there when the input is long enough"""
    n, = cfg

    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0:2])
        b = be_uint_field(where=bytes_ref[2:4], unpack_if=input_buffer_length >= 4, pack_if=member_func_ref(lambda self: self.b is not None))
        c = str_field(where=bytes_ref[4:6], unpack_if=input_buffer_length > 5, pack_if=member_func_ref(lambda self: self.c is not None))
    data = S.bytes('data', n)
    for x in data[4:6]:
        S.assume(S.and_(x > 32, x < 127))
    t = T(b=5, c='zz')
    t.unpack(data)
    S.observe('b', t.b)
    S.check(S.eq(t.b, bytes_value(data[2:4], False)) if n >= 4 else t.b is None, 'second')
    S.check(S.eq(t.c, data[4:6].decode('ascii')) if n >= 6 else t.c is None, 'third')
    again = t.pack()
    S.check(same_bytes(S, again, list(data[:2]) + (list(data[2:4]) if n >= 4 else [0, 0]) +
                       (list(data[4:6]) if n >= 6 else [0, 0])), 'packed again')


def constants(S, cfg):
    pk, up = cfg

    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0:2])
        b = le_uint_field(where=bytes_ref[2:4], pack_if=pk, unpack_if=up)
        c = be_uint_field(where=bytes_ref[4])
    a, b, c = S.bits('a', 16), S.bits('b', 16), S.bits('c', 8)
    data = T(a=a, b=b, c=c).pack()
    S.check(same_bytes(S, data, be(a, 2) + (le(b, 2) if pk else [0, 0]) + [c]), 'packed bytes')
    x = S.bytes('x', 5)
    t = T(b=77)
    t.unpack(x)
    S.check(S.eq(t.b, bytes_value(x[2:4], True)) if up else t.b is None, 'read or None')
    S.check(S.and_(S.eq(t.a, bytes_value(x[0:2], False)), S.eq(t.c, x[4])), 'others')


def short(S, cfg):
    """input that ends before absent fields, to which others refer in every way"""
    how, = cfg

    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        x = be_uint_field(where=bytes_ref[2:6], pack_if=n > 100, unpack_if=n > 100)
        if how == 'after':
            b = be_uint_field(where=bytes_ref[1], unpack_after=x)
        elif how == 'chain':
            y = str_field(where=bytes_ref[6:8], unpack_after=x, unpack_if=n > 200, pack_if=n > 200)
            b = be_uint_field(where=bytes_ref[1], unpack_after=[y, n])
        elif how == 'condition':
            b = be_uint_field(where=bytes_ref[1], unpack_if=n <= 100, unpack_after=x)
        elif how == 'value':
            b = be_uint_field(where=bytes_ref[1], unpack_after=x, set_after_unpack=lambda v: v + 1, set_before_pack=0)
    k = S.choice('k', (2, 4, 6, 8))
    data = S.bytes('data', k)
    for c in data[6:8]:
        S.assume(S.and_(c > 32, c < 127))
    t = T(x=3)
    r = S.outcome(lambda: t.unpack(data))
    n = data[0]
    need = 2
    if S.conc(n > 100):
        need = 8 if how == 'chain' and S.conc(n > 200) else 6
    S.check(r.ok == (k >= need), 'refused only if a present field is cut')
    if not r.ok:
        return
    S.check(S.eq(t.x, bytes_value(data[2:6], False)) if S.conc(n > 100) else t.x is None, 'conditional')
    want = data[1]
    if how == 'condition' and S.conc(n > 100):
        S.check(t.b is None, 'other')
    else:
        S.check(S.eq(t.b, want + 1 if how == 'value' else want), 'other')
    if how == 'chain' and need < 8:
        S.check(t.y is None, 'second conditional')


def no_value(S, cfg):
    """a field that is not packed needs no value"""
    class T(Buffer):
        flag = be_uint_field(where=bytes_ref[0])
        opt = be_uint_field(where=bytes_ref[1:3], pack_if=flag == 7, unpack_if=flag == 7)
        more = str_field(where=bytes_ref[3:5], pack_if=flag == 7, unpack_if=flag == 7)
    flag = S.bits('flag', 8)
    S.assume(flag != 7)
    data = T(flag=flag).pack()
    S.check(same_bytes(S, data, [flag, 0, 0, 0, 0]), 'packed bytes')
    t = T()
    t.unpack(bytes(bytearray([flag])))
    S.check(t.opt is None and t.more is None, 'None')
    # the same class when the condition holds
    v = S.bits('v', 16)
    s = text(S, 's', 2)
    data = T(flag=7, opt=v, more=s).pack()
    S.check(same_bytes(S, data, [7] + be(v, 2) + codes(s)), 'packed bytes when it holds')
    t.unpack(bytes(data))
    S.check(S.and_(S.eq(t.opt, v), S.eq(t.more, s)), 'read when it holds')


def defaulted(S, kind):
    """fields with a default: the condition alone decides, whether the value was given, defaulted or None"""
    I = T_inner(kind)
    d = dict(int=-2, bits=5, three=70000, float=1.5, str='ab', bytes=bytearray(b'\x01\x02'), list=[3, 4], buffer=None)[kind]
    raw_d = dict(int=[0, 255, 254, 0], bits=[0, 40, 0, 0], three=[1, 17, 112, 0], float=[63, 192, 0, 0], str=[0, 97, 98, 0], bytes=[0, 1, 2, 0],
                 list=[0, 3, 4, 0], buffer=[0, 9, 0, 0])[kind]
    if kind == 'buffer':
        d = I(a=9)

    class T(Buffer):
        flag = be_uint_field(where=bytes_ref[0])
        opt = make_opt(kind, pack_if=flag >= 128, unpack_if=flag < 128, default=d)
        last = be_uint_field(where=bytes_ref[5], default=6)
    flag = S.bits('flag', 8)
    how = S.choice('how', ('default', 'given', 'none'))
    packs = S.conc(flag >= 128)
    o = T(flag=flag)
    raw = raw_d
    if how == 'given':
        v, raw, check = sample(S, kind, T)
        o.opt = I(a=v) if kind == 'buffer' else v
    elif how == 'none':
        o.opt = None
        if packs:
            return S.check(o.opt is None, 'nothing to pack')
    S.check(same_bytes(S, o.pack(), [flag] + (raw if packs else [0] * 4) + [6]), 'packed bytes')
    rest = S.bytes('rest', 5)
    if kind == 'str':
        for c in rest:
            S.assume(S.and_(c > 32, c < 127))
    t = T()
    t.unpack(bytes(bytearray([flag])) + rest)
    S.check((t.opt is None) == packs, 'None exactly when the condition does not hold')


def differ(S, cfg):
    """conditions that differ between packing and unpacking each count for their own"""
    how = cfg

    class T(Buffer):
        a = uint_field(where=bytes_ref[0])
        n = uint_field(where=bytes_ref[1], set_before_pack=total_size)
        d = bytearray_field(where=bytes_ref[2:2 + a], **{'pack': dict(pack_if=a > 2), 'unpack': dict(unpack_if=a > 2), 'both': dict(pack_if=a > 2, unpack_if=a < 2)}[how])
        e = be_uint_field(where=bytes_ref[1 + 0 * a:2], pack_if=False, unpack_if=True)
        g = be_uint_field(where=bytes_ref[7 + 0 * a:9], pack_if=False, unpack_if=False)
    a = S.choice('a', range(5))
    d, data = S.bytearray('d', a), S.bytes('data', 8)
    o = T(a=a, d=d, e=99, g=1)
    packs, unpacks = how == 'unpack' or a > 2, how == 'pack' or (a > 2 if how == 'unpack' else a < 2)
    want = [a, 2 + a if packs else 2] + (list(d) if packs else [])
    S.check(o.calc_byte_size() == len(want), 'computed size')
    S.check(same_bytes(S, o.pack(), want), 'packed bytes')
    t = T()
    S.check(t.unpack(bytes(bytearray([a])) + data) == (2 + a if unpacks else 2), 'consumed size')
    S.check(S.eq(bytes(t.d), data[1:1 + a]) if unpacks else t.d is None, 'unpacked')
    S.check(S.and_(S.eq(t.e, data[0]), t.g is None), 'others')


def loose_end(S, cfg):
    """conditional fields at the end of a class of no fixed size: default or not, absent ones take no room"""
    class T(Buffer):
        flag = uint_field(where=bytes_ref[0].bits[0])
        has_e = uint_field(where=bytes_ref[0].bits[1])
        has_f = uint_field(where=bytes_ref[0].bits[2])
        d = bytearray_field(where=bytes_ref[1:2 + flag])
        e = be_uint_field(where=bytes_ref[2 + flag:4 + flag], default=258, pack_if=has_e, unpack_if=has_e)
        f = str_field(where=bytes_ref[4 + flag:6 + flag], default='xy', pack_if=has_f, unpack_if=has_f)
    flag, has_e, has_f = [S.choice(k, (0, 1)) for k in ('flag', 'e', 'f')]
    n = 1 + flag
    d = S.bytearray('d', n)
    o = T(flag=flag, d=d, has_e=has_e, has_f=has_f)
    want = [flag | (has_e << 1) | (has_f << 2)] + list(d)
    if has_e or has_f:
        want += [1, 2] if has_e else [0, 0]
    if has_f:
        want += [120, 121]
    S.check(same_bytes(S, o.pack(), want), 'packed bytes')
    S.check(o.calc_byte_size() == len(want), 'size')
    t = T()
    S.check(t.unpack(bytes(bytearray(want)) + S.bytes('junk', 2)) == len(want), 'consumed size')
    S.check(t.e == 258 if has_e else t.e is None, 'number')
    S.check(t.f == 'xy' if has_f else t.f is None, 'text')


def elements(S, cfg):
    """conditional fields inside list elements, decided for each element by itself"""
    class E(Buffer):
        ext = uint_field(where=bytes_ref[0].bits[7])
        v = uint_field(where=bytes_ref[0].bits[0:7])
        x = be_uint_field(where=bytes_ref[1:1 + 2 * ext], pack_if=ext, unpack_if=ext)

    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.es))
        es = list_field(type=E, n=n, where=bytes_ref[1:])
    k, = cfg
    vs = [(S.bits('e%d' % i, 1), S.bits('v%d' % i, 7), S.bits('x%d' % i, 16)) for i in range(k)]
    data = T(es=[E(ext=e, v=v, x=x) for e, v, x in vs]).pack()
    want = [k]
    for e, v, x in vs:
        want += [v | (e << 7)] + (be(x, 2) if S.conc(e) else [])
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bytes')
    t = T()
    t.unpack(bytes(data))
    S.check(len(t.es) == k, 'count')
    for got, (e, v, x) in zip(t.es, vs):
        S.check(S.and_(S.eq(got.ext, e), S.eq(got.v, v)), 'element')
        S.check(S.eq(got.x, x) if S.conc(e) else got.x is None, 'conditional part of the element')


def absent_open(S, cfg):
    """what follows a conditional field of open length is right after it, or in its place if it isn't there"""
    kind, style, split = cfg

    class Inner(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.z))
        z = bytearray_field(where=bytes_ref[1:1 + n])

    class T(Buffer):
        def is_on(self):
            return self.flag > 127
        flag = be_uint_field(where=bytes_ref[0])
        cond = dict(direct=flag > 127, name=num_ref(self_ref.flag) > 127, method=self_ref.is_on())[style]
        kw = dict(pack_if=cond, unpack_if=cond, unpack_after=flag)
        both = dict(kw, where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + (flag // 128) * 3])
        place = bytes_ref[1:2] + bytes_ref[3:] if split else bytes_ref[1:]
        if kind == 'buffer':
            opt = buffer_field(Inner, where=place, **kw)
        elif kind == 'list':
            opt = list_field(type=b_uint16, n=2, where=place, **kw)
        else:
            opt = (bytearray_field if kind == 'bytes' else str_field)(**both)
        then = be_uint_field(where=bytes_ref[after_ref(opt):after_ref(opt) + 2])
        end = be_uint_field(where=bytes_ref[after_ref(then)])
    flag, then, end = S.bits('flag', 8), S.bits('then', 16), S.bits('end', 8)
    has = S.conc(flag > 127)
    S.observe('has', bool(has))
    if kind == 'buffer':
        z = S.bytearray('z', S.choice('m', (0, 2)))
        value, body = Inner(z=z), [len(z)] + list(z)
    elif kind == 'list':
        value = [S.bits('e%d' % i, 16) for i in range(2)]
        body = be(value[0], 2) + be(value[1], 2)
    elif kind == 'bytes':
        value = S.bytearray('raw', 3)
        body = list(value)
    else:
        value = S.str('text', 3, 33, 126)
        body = [ord(c) for c in value]
    o = T(flag=flag, then=then, end=end)
    if has or S.choice('given', (False, True)):     # the value of a field that isn't there is ignored
        o.opt = value
    if split:       # the place is in two parts, with a byte between them
        body = body[:1] + [0] + body[1:]
    want = [flag] + (body if has else [0, 0] if split else []) + be(then, 2) + [end]
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bytes')
    S.check(o.calc_byte_size() == len(want), 'computed size')
    t = T(opt=5)
    S.check(t.unpack(bytes(bytearray(want)) + S.bytes('junk', 2)) == len(want), 'consumed size')
    S.check(S.and_(S.eq(t.then, then), S.eq(t.end, end), S.eq(t.flag, flag)), 'what follows')
    if not has:
        S.check(t.opt is None, 'absent')
    elif kind == 'buffer':
        S.check(S.and_(S.eq(t.opt.z, z), S.eq(t.opt.n, len(z))), 'object')
    else:
        S.check(S.eq(t.opt, value), 'value')


def obligations(tier):
    full = tier == 'thorough'
    cs = [(k, 5) for k in sorted(OPS)] + [('truth', 0), ('name', 0), ('method', 6), ('function', 3), ('sum', 9), ('minus', 4),
                                          ('div', 7), ('reflected', 200), ('cast', 31), ('minmax', 12)]
    obs = group('conditions', conditions, cs, 2)
    obs += [Ob('kinds-' + k, kinds, k) for k in ('int', 'bits', 'three', 'float', 'str', 'bytes', 'list', 'buffer')]
    obs += [Ob('default-' + k, defaulted, k) for k in ('int', 'bits', 'three', 'float', 'str', 'bytes', 'list', 'buffer')]
    obs += [Ob('loose-end', loose_end)]
    obs += [Ob('two', two, (0,)), Ob('no-value', no_value, (0,))]
    obs += group('short', short, [(h,) for h in ('after', 'chain', 'condition', 'value')], 4)
    obs += group('by-length', by_length, [(n,) for n in (2, 3, 4, 5, 6, 7)], 6)
    obs += group('constants', constants, [(p, u) for p in (True, False) for u in (True, False)])
    obs += group('elements', elements, [(1,), (2,)] + ([(3,)] if full else []), 1)
    obs += group('absent-open', absent_open, [(k, s, d) for d in (False, True) for k in ('buffer', 'list', 'bytes', 'str')[:2 if d else 4] for s in ('direct', 'name', 'method')], 6)
    obs += group('any-kind', anykind.conditional, [(k, h) for k in anykind.KINDS for h in ('reference', 'compare', 'attribute', 'function')], 14)
    obs += group('differ', differ, ['pack', 'unpack', 'both'], 3)
    return obs
