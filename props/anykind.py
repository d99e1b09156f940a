"""Every kind of buffer field in a place of four bytes, for what holds of all of them."""
from .lib import *
from infi.instruct.buffer import macros


class Pair(Buffer):
    x = be_uint_field(where=bytes_ref[0:2])
    y = uint_field(where=bytes_ref[2:4].bits[0:9])


MAKE = dict(int=macros.int_field, uint=macros.uint_field, be_int=macros.be_int_field, be_uint=macros.be_uint_field, le_int=macros.le_int_field,
            le_uint=macros.le_uint_field, float=macros.float_field, bytes=macros.bytearray_field, str=macros.str_field, json=macros.json_field,
            buffer=lambda **kw: macros.buffer_field(type=Pair, **kw), list=lambda **kw: macros.list_field(type=macros.b_uint16, **kw),
            buffers=lambda **kw: macros.list_field(type=Pair, **kw), selected=lambda **kw: macros.buffer_field(type=Buffer, unpack_selector=lambda *a, **k: Pair, **kw))
KINDS = sorted(MAKE)


def value(S, kind, name):
    """(value, its bytes)"""
    if kind in ('int', 'be_int', 'le_int'):
        v = S.int(name, -(1 << 31), (1 << 31) - 1)
        return v, value_bytes(v, 4, kind != 'be_int')
    if kind in ('uint', 'be_uint', 'le_uint'):
        v = S.bits(name, 32)
        return v, value_bytes(v, 4, kind != 'be_uint')
    if kind == 'float':
        v = S.f32(name)
        S.assume(S.not_(S.is_nan(v)))
        return v, value_bytes(S.float_bits(v, 4), 4, True)
    if kind == 'bytes':
        v = S.bytearray(name, 4)
        return v, list(v)
    if kind == 'str':
        v = S.str(name, 3, 97, 122)
        return v, [ord(c) for c in v] + [32]
    if kind == 'json':
        v, t = S.choice(name, ((12, '12  '), ([1], '[1] '), ('ab', '"ab"')))
        return v, [ord(c) for c in t]
    if kind == 'list':
        v = [S.bits(name + '0', 16), S.bits(name + '1', 16)]
        return v, value_bytes(v[0], 2, False) + value_bytes(v[1], 2, False)
    x, y = S.bits(name + 'x', 16), S.bits(name + 'y', 9)
    v = Pair(x=x, y=y)
    return [v] if kind == 'buffers' else v, value_bytes(x, 2, False) + value_bytes(y, 2, True)


def same(S, a, b):
    if isinstance(b, Buffer):
        return type(a) is type(b) and S.and_(S.eq(a.x, b.x), S.eq(a.y, b.y))
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and S.and_(*[same(S, x, y) for x, y in zip(a, b)])
    if isinstance(b, float):
        return S.eq(S.float_bits(a, 4), S.float_bits(b, 4))
    return S.eq(a, b)


def check_both(S, T, values, want, junk='junk'):
    """packs to these bytes, and back, whatever follows"""
    o = T(**values)
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bytes')
    S.check(o.calc_byte_size() == len(want), 'computed size')
    t = T()
    used = t.unpack(bytes(bytearray(want)) + S.bytes(junk, 2))
    S.check(used == len(want), 'consumed size')
    for k in sorted(values):
        S.check(same(S, getattr(t, k), values[k]), k)
    S.check(same_bytes(S, t.pack(), want), 'packed again')


def two_places(S, cfg):
    """a place given apart for packing and for unpacking"""
    kind, how = cfg

    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.d))
        d = bytearray_field(where=bytes_ref[1:1 + n])
        if how == 'same':
            v = MAKE[kind](where_when_pack=bytes_ref[1 + len_ref(self_ref.d):5 + len_ref(self_ref.d)], where_when_unpack=bytes_ref[1 + n:5 + n])
        else:
            v = MAKE[kind](where_when_pack=bytes_ref[1 + n:5 + n], where_when_unpack=bytes_ref[after_ref(d):after_ref(d) + 4])
        z = be_uint_field(where=bytes_ref[after_ref(v)])
    d, z = S.bytearray('d', S.choice('n', (0, 2))), S.bits('z', 8)
    v, raw = value(S, kind, 'v')
    check_both(S, T, dict(d=d, v=v, z=z), [len(d)] + list(d) + raw + [z])


def after_another(S, cfg):
    """a field the place and condition of which are found by methods that need a field unpacked before it"""
    kind, name = cfg

    def start(self):
        return self.n + 1
    n = be_uint_field(where=bytes_ref[0])
    at = num_ref(member_func_ref(start))
    kw = dict(where=bytes_ref[at:at + 4], unpack_after=n, unpack_if=member_func_ref(lambda self: self.n > 0), pack_if=member_func_ref(lambda self: self.n > 0))
    T = make_buffer({'n': n, name: MAKE[kind](**kw)})
    k = S.choice('n', (1, 3))
    v, raw = value(S, kind, 'v')
    check_both(S, T, {'n': k, name: v}, [k] + [0] * k + raw)
    t = T()
    t.unpack(b'\0' + S.bytes('other', 5))
    S.check(getattr(t, name) is None, 'not there')


def hooks(S, cfg):
    """a value computed before packing, and one after unpacking"""
    kind, how = cfg
    v, raw = value(S, kind, 'v')
    w, other = value(S, kind, 'w')

    hook = {'function': lambda self: self.plain, 'reference': self_ref.plain, 'method': member_func_ref(lambda self: self.plain), 'constant': v}[how]
    T = make_buffer(dict(a=be_uint_field(where=bytes_ref[0]), z=be_uint_field(where=bytes_ref[5]),
                         v=MAKE[kind](where=bytes_ref[1:5], set_before_pack=hook, set_after_unpack=lambda got: [got, 'seen'])))
    o = T(a=1, v=w, z=2)
    o.plain = v
    data = o.pack()
    S.check(same_bytes(S, data, [1] + raw + [2]), 'packed bytes')
    S.check(same(S, o.v, v), 'left on the object')
    t = T()
    t.unpack(bytes(bytearray([1] + other + [2])))
    S.check(type(t.v) is list and len(t.v) == 2 and t.v[1] == 'seen', 'the result of the function')
    S.check(same(S, t.v[0], w), 'for the decoded value')


def default(S, cfg):
    """a default used where no value is given, each object having its own"""
    kind, inherit = cfg
    v, raw = value(S, kind, 'v')
    w, other = value(S, kind, 'w')

    T = make_buffer(dict(v=MAKE[kind](where=bytes_ref[0:4], default=v), z=be_uint_field(where=bytes_ref[4])))
    if inherit:
        T = type(T)('Derived', (T,), dict(y=be_uint_field(where=bytes_ref[5], default=9)))
    end = [9] if inherit else []
    a, b, c = T(z=1), T(v=w, z=1), T(z=1)
    S.check(same(S, a.v, v), 'the default')
    S.check(a.v is not c.v or not isinstance(v, (list, bytearray, Buffer)), 'a copy of its own')
    S.check(same_bytes(S, a.pack(), raw + [1] + end), 'packed')
    S.check(same_bytes(S, b.pack(), other + [1] + end), 'a given value')
    a.v = w
    S.check(same_bytes(S, c.pack(), raw + [1] + end), 'another object')
    a.unpack(bytes(bytearray(other + [1] + end)))
    S.check(same_bytes(S, T(z=1).pack(), raw + [1] + end), 'a new object')


def conditional(S, cfg):
    """there or not, one condition for packing and another for unpacking"""
    kind, how = cfg
    first, second = uint_field(where=bytes_ref[0].bits[0]), uint_field(where=bytes_ref[0].bits[1])
    put, got = {'reference': (first, second), 'compare': (first > 0, second == 1), 'attribute': (self_ref.put, self_ref.got),
                'function': (member_func_ref(lambda self: self.a0), member_func_ref(lambda self: self.a1 == 1))}[how]
    T = make_buffer(dict(a0=first, a1=second, v=MAKE[kind](where=bytes_ref[2:6], pack_if=put, unpack_if=got), b=be_uint_field(where=bytes_ref[1]),
                         z=be_uint_field(where=bytes_ref[6]), put=property(lambda self: self.a0), got=property(lambda self: self.a1)))
    a, b, z = S.choice('flags', range(4)), S.bits('b', 8), S.bits('z', 8)
    v, raw = value(S, kind, 'v')
    w, other = value(S, kind, 'w')
    given = dict(a0=a & 1, a1=a >> 1, b=b, z=z)
    S.check(same_bytes(S, T(v=v, **given).pack(), [a, b] + (raw if a & 1 else [0] * 4) + [z]), 'packed bytes')
    if not a & 1:
        S.check(same_bytes(S, T(**given).pack(), [a, b] + [0] * 4 + [z]), 'packed without a value')
    t = T(v=v)
    used = t.unpack(bytes(bytearray([a, b] + other + [z])))
    S.check(used == 7, 'consumed size')
    S.check(same(S, t.v, w) if a & 2 else t.v is None, 'value')
    S.check(S.and_(t.a0 == (a & 1), t.a1 == a >> 1, t.b == b, t.z == z), 'neighbours')


def inside(S, cfg):
    """in a buffer within another, and in each element of a list"""
    kind, = cfg
    Inner = make_buffer(dict(a=be_uint_field(where=bytes_ref[0]), v=MAKE[kind](where=bytes_ref[1:5])))
    count = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.many))
    T = make_buffer(dict(n=count, one=macros.buffer_field(type=Inner, where=bytes_ref[1:6]), many=macros.list_field(type=Inner, n=count, where=bytes_ref[6:])))
    n = S.choice('n', (0, 1, 2))
    vs = [value(S, kind, 'v%d' % i) for i in range(n + 1)]
    marks = [S.bits('a%d' % i, 8) for i in range(n + 1)]
    want = [n]
    for a, (v, raw) in zip(marks, vs):
        want += [a] + raw
    inner = [Inner(a=a, v=v) for a, (v, raw) in zip(marks, vs)]
    S.check(same_bytes(S, T(one=inner[0], many=inner[1:]).pack(), want), 'packed bytes')
    t = T()
    t.unpack(bytes(bytearray(want)))
    got = [t.one] + t.many
    S.check(len(got) == n + 1, 'as many')
    for g, a, (v, raw) in zip(got, marks, vs):
        S.check(S.and_(type(g) is Inner, S.eq(g.a, a), same(S, g.v, v)), 'values')
    S.check(same_bytes(S, t.pack(), want), 'packed again')


def alike(S, cfg):
    """several fields of a kind, each with what was given for it"""
    kind, = cfg
    v, raw = value(S, kind, 'v')
    w, other = value(S, kind, 'w')
    x, more = value(S, kind, 'x')
    T = make_buffer(dict(a=MAKE[kind](where=bytes_ref[8:12], default=v), b=MAKE[kind](where=bytes_ref[0:4], default=w, set_after_unpack=lambda got: (got, 'b')),
                         c=MAKE[kind](where=bytes_ref[4:8], set_before_pack=lambda self: self.b, set_after_unpack=lambda got: (got, 'c'))))
    S.check(same_bytes(S, T().pack(), other + other + raw), 'packed bytes')
    S.check(same_bytes(S, T(a=x, b=v, c=w).pack(), raw + raw + more), 'packed bytes of given values')
    t = T()
    t.unpack(bytes(bytearray(more + raw + other)))
    S.check(same(S, t.a, w), 'as it is')
    S.check(t.b[1] == 'b' and t.c[1] == 'c', 'what each function gave')
    S.check(S.and_(same(S, t.b[0], x), same(S, t.c[0], v)), 'for its own value')
