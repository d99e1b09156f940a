"""Pre-pack and post-unpack hooks supply the value used and stored."""
import functools
from .lib import *
from . import anykind
from infi.instruct.buffer import macros

BOUNDS = ('fields of every kind with hooks given as constants, functions and references; every value of up to 16 bits, text and bytes '
          'of up to 4; several packs of one object; hooks feeding positions, sizes, conditions and other hooks')
BOUNDS += '; each of the 14 kinds of field, four bytes of any value: both hooks of them, in 4 forms, and of several fields of the same kind (props/anykind.py)'


class Pair(Buffer):
    x = be_uint_field(where=bytes_ref[0:2])
    y = uint_field(where=bytes_ref[2])


KINDS = ('int', 'bits', 'str', 'bytes', 'list', 'buffer', 'float')


def field(kind, **kw):
    """a field of 4 bytes (bits: of 9 bits) from byte 1"""
    if kind == 'bits':
        return uint_field(where=bytes_ref[1:4].bits[3:12], **kw)
    kw['where'] = bytes_ref[1:5]
    if kind == 'int':
        return be_uint_field(**kw)
    if kind == 'str':
        return str_field(**kw)
    if kind == 'bytes':
        return bytearray_field(**kw)
    if kind == 'list':
        return list_field(type=macros.l_uint16, **kw)
    if kind == 'float':
        return float_field(endian='big', **kw)
    kw['where'] = bytes_ref[1:]
    return buffer_field(type=Pair, **kw)


def value(S, kind, name, constant=False):
    """(value, its packed bytes)"""
    if kind == 'int':
        v = 0x01020304 if constant else S.bits(name, 32)
        return v, value_bytes(v, 4, False)
    if kind == 'bits':
        v = 300 if constant else S.bits(name, 9)
        return v, place([(list(range(3, 12)), int_bits(v, 9, 'native'))], 2)
    if kind == 'str':
        v = 'hey' if constant else S.str(name, 3, 97, 122)
        return v, [ord(c) for c in v] + [32]
    if kind == 'bytes':
        v = bytearray(b'\x00z\xff1') if constant else S.bytearray(name, 4)
        return v, list(v)
    if kind == 'list':
        v = [513, 4] if constant else [S.bits(name + '0', 16), S.bits(name + '1', 16)]
        return v, value_bytes(v[0], 2, True) + value_bytes(v[1], 2, True)
    if kind == 'float':
        v = 0.75 if constant else S.f32(name)
        if not constant:
            S.assume(S.not_(S.is_nan(v)))
        return v, value_bytes(S.float_bits(v, 4), 4, False)
    v = Pair(x=7, y=9) if constant else Pair(x=S.bits(name + 'x', 16), y=S.bits(name + 'y', 8))
    return v, value_bytes(v.x, 2, False) + [v.y]


def same(S, kind, a, b):
    if kind == 'buffer':
        return S.and_(a.x == b.x, a.y == b.y)
    if kind == 'bytes':
        return S.eq(bytes(a), bytes(b))
    if kind == 'float':
        return S.eq(S.float_bits(a, 4), S.float_bits(b, 4))
    return S.eq(a, b)


def before_constant(S, kind):
    """a constant is packed whatever the attribute holds, and is left on the object"""
    want, data = value(S, kind, 'c', True)
    T = make_buffer(dict(f=field(kind, set_before_pack=want), z=uint_field(where=bytes_ref[0])))
    z = S.bits('z', 8)
    for k, t in enumerate((T(z=z), T(z=z, f=value(S, kind, 'v')[0]))):
        S.check(same_bytes(S, t.pack(), [z] + data), 'packed bytes')
        S.check(same(S, kind, t.f, want), 'left on the object')
        t.f = value(S, kind, 'w%d' % k)[0]
        S.check(same_bytes(S, t.pack(), [z] + data), 'packed bytes again')
        S.check(same(S, kind, t.f, want), 'left on the object again')


def falsy(S, cfg):
    """values that are zero or empty are values"""
    kind, way = cfg
    v, f, data = {
        'zero': lambda: (0, lambda **kw: uint_field(where=bytes_ref[1:3], **kw), [0, 0]),
        'bits': lambda: (0, lambda **kw: uint_field(where=bytes_ref[1:3].bits[3:12], **kw), [0, 0]),
        'false': lambda: (False, lambda **kw: uint_field(where=bytes_ref[1:2].bits[3], **kw), [0]),
        'float': lambda: (0.0, lambda **kw: float_field(where=bytes_ref[1:5], **kw), [0] * 4),
        'text': lambda: ('', lambda **kw: str_field(where=bytes_ref[1:4], **kw), [32] * 3),
        'open text': lambda: ('', lambda **kw: str_field(where=bytes_ref[1:], **kw), []),
        'bytes': lambda: (bytearray(), lambda **kw: bytearray_field(where=bytes_ref[1:], **kw), []),
        'list': lambda: ([], lambda **kw: list_field(type=macros.uint8, where=bytes_ref[1:], **kw), []),
    }[kind]()
    hook = {'constant': v, 'function': lambda o: v, 'attribute': macros.self_ref.source, 'method': macros.member_func_ref(lambda o: v)}[way]
    # the field's own value is another one
    T = make_buffer(dict(f=f(set_before_pack=hook, default=S.choice('default', (None, 1)) if kind in ('zero', 'bits') else None),
                         z=uint_field(where=bytes_ref[0], set_before_pack=macros.len_ref(macros.self_ref.f) + 7 if len(data) == 0 else 7)))
    own = {'zero': 300, 'bits': 300, 'false': True, 'float': 2.5, 'text': 'abc', 'open text': 'abc', 'bytes': bytearray(b'abc'), 'list': [1, 2, 3]}[kind]
    for t in (T(), T(f=own), T(z=1, f=own)):
        t.source = v
        S.check(same_bytes(S, t.pack(), [7] + data), 'packed bytes')
        S.check(S.eq(t.f, v) and type(t.f) is type(v), 'left on the object')
        t.f = own
        S.check(same_bytes(S, t.pack(), [7] + data), 'packed bytes again')


def before_function(S, kind):
    """a function of the object gives the value, each time anew"""
    calls = []

    def hook(obj):
        calls.append(obj)
        return obj.source
    T = make_buffer(dict(f=field(kind, set_before_pack=hook), z=uint_field(where=bytes_ref[0])))
    t = T(z=S.bits('z', 8))
    for name in ('v', 'w'):
        t.source, data = value(S, kind, name)
        n = len(calls)
        S.check(same_bytes(S, t.pack(), [t.z] + data), 'packed bytes')
        S.check(same(S, kind, t.f, t.source), 'left on the object')
        S.check(len(calls) == n + 1 and calls[-1] is t, 'called once for the object')
    # unpacking is not affected
    u = T()
    v, data = value(S, kind, 'u')
    u.unpack(bytes(bytearray([5] + data)))
    S.check(same(S, kind, u.f, v), 'unpacked value')
    S.check(len(calls) == 2, 'not called when unpacking')


class Doubler(object):
    """not a function, but can be called"""
    def __init__(self):
        self.seen = []

    def __call__(self, x):
        self.seen.append(x)
        return self.of(x) * 2

    def of(self, x):
        return getattr(x, 'source', x)

    def bound(self, x):
        return self(x)

    @classmethod
    def shared(cls, x):
        return cls()(x)

    @staticmethod
    def alone(x):
        return Doubler()(x)


def twice(k, x):
    return Doubler()(x) * k


def callables(S, cfg):
    """hooks of every kind that can be called"""
    kind, = cfg
    d = Doubler()
    hook = {'object': d, 'bound': d.bound, 'class': Doubler.shared, 'static': Doubler.alone, 'partial': functools.partial(twice, 1),
            'keyword': functools.partial(lambda x, k: d.of(x) * k, k=2), 'varargs': lambda *a: d.of(a[0]) * 2, 'default': lambda x, k=2: d.of(x) * k}[kind]
    T = make_buffer(dict(f=be_uint_field(where=bytes_ref[1:3], set_before_pack=hook, set_after_unpack=hook),
                         g=uint_field(where=bytes_ref[3].bits[0:4], set_after_unpack=hook),
                         z=uint_field(where=bytes_ref[0], set_before_pack=macros.num_ref(macros.self_ref.f) // 2)))
    v, g = S.bits('v', 8), S.bits('g', 4)
    t = T(g=g)
    t.source = v
    S.check(same_bytes(S, t.pack(), [v] + value_bytes(v * 2, 2, False) + [g]), 'packed bytes')
    S.check(S.eq(t.f, v * 2), 'left on the object')
    w, x = S.bits('w', 16), S.bits('x', 4)
    u = T()
    u.unpack(bytes(bytearray([1] + value_bytes(w, 2, False) + [x])))
    S.check(S.and_(S.eq(u.f, w * 2), S.eq(u.g, x * 2), S.eq(u.z, 1)), 'stored')


def before_reference(S, kind):
    """the value of a reference: an attribute of the object, a method, another field"""
    T = make_buffer(dict(f=field(kind, set_before_pack=macros.self_ref.source), z=uint_field(where=bytes_ref[0])))
    t = T(z=1)
    for name in ('v', 'w'):
        t.source, data = value(S, kind, name)
        S.check(same_bytes(S, t.pack(), [1] + data), 'attribute: packed bytes')
        S.check(same(S, kind, t.f, t.source), 'attribute: left on the object')
    T = make_buffer(dict(f=field(kind, set_before_pack=macros.member_func_ref(lambda o: o.source)), z=uint_field(where=bytes_ref[0])))
    t = T(z=1, f=value(S, kind, 'x')[0])
    t.source, data = value(S, kind, 'y')
    S.check(same_bytes(S, t.pack(), [1] + data), 'method: packed bytes')
    S.check(same(S, kind, t.f, t.source), 'method: left on the object')


def after(S, kind):
    """the function gets the decoded value and its result is stored"""
    result = {'none': None, 'zero': 0, 'empty': '', 'list': [1], 'pair': (3, 4)}
    got = []
    way = S.choice('way', ('wrap', 'none', 'zero', 'empty', 'list', 'pair'))

    def hook(v):
        got.append(v)
        return ('seen', v) if way == 'wrap' else result[way]
    T = make_buffer(dict(f=field(kind, set_after_unpack=hook), z=uint_field(where=bytes_ref[0]),
                         e=uint_field(where=bytes_ref[5:6] if kind != 'buffer' else bytes_ref[0])))
    v, data = value(S, kind, 'v')
    t = T()
    t.f = 'old'
    t.unpack(bytes(bytearray([6] + data + [0] * (5 - len(data)) + [7])))
    S.check(len(got) == 1 and same(S, kind, got[0], v), 'given the decoded value, once')
    if way == 'wrap':
        S.check(type(t.f) is tuple and t.f[0] == 'seen' and t.f[1] is got[0], 'stored')
    else:
        S.check(t.f is result[way] or t.f == result[way], 'stored')
    S.check(t.z == 6, 'neighbour')
    # packing is not affected
    u = T(z=6, e=6, f=v)
    S.check(same_bytes(S, u.pack()[:1 + len(data)], [6] + data), 'packed bytes')
    S.check(len(got) == 1, 'not called when packing')


def after_same(S, cfg):
    """arithmetic on the decoded value"""
    class T(Buffer):
        a = uint_field(where=bytes_ref[0], set_after_unpack=lambda v: v * 3 - 1)
        b = be_int_field(where=bytes_ref[1:3], set_after_unpack=lambda v: -v)
        c = str_field(where=bytes_ref[3:6], set_after_unpack=lambda v: v + '!')
        d = list_field(type=macros.uint8, where=bytes_ref[6:9], set_after_unpack=lambda v: v[::-1])
        e = bytearray_field(where=bytes_ref[9:12], set_after_unpack=bytes)
        g = uint_field(where=bytes_ref[12].bits[2:5], set_after_unpack=lambda v: v == 5)
    data = S.bytes('data', 13)
    for k in range(3, 6):
        S.assume(S.and_(data[k] > 32, data[k] < 127))
    t = T()
    for _ in range(2):
        t.unpack(data)
        S.check(t.a == data[0] * 3 - 1, 'number')
        S.check(t.b == -signed(data[1] * 256 + data[2], 16), 'signed number')
        S.check(S.eq([ord(c) for c in t.c], list(data[3:6]) + [33]), 'text')
        S.check(S.eq(t.d, list(data[6:9])[::-1]), 'list')
        S.check(S.eq(t.e, data[9:12]), 'bytes')
        S.check(t.g == ((data[12] >> 2) & 7 == 5), 'flag')


def length_before(S, cfg):
    """a length field computed from a variable field places what follows"""
    kind, way = cfg
    f = {'str': lambda w: str_field(where=w), 'bytes': lambda w: bytearray_field(where=w),
         'list': lambda w: list_field(type=macros.uint8, where=w)}[kind]
    order = cfg[1]

    class Plain(Buffer):
        n = uint_field(where=bytes_ref[0], set_before_pack=macros.len_ref(macros.self_ref.text))
        text = f(bytes_ref[1:n + 1])
        end = be_uint_field(where=bytes_ref[n + 1:n + 3])

    class Func(Buffer):
        n = uint_field(where=bytes_ref[0], set_before_pack=lambda o: len(o.text))
        text = f(bytes_ref[1:n + 1])
        end = be_uint_field(where=bytes_ref[n + 1:n + 3])

    class Chain(Buffer):
        n = uint_field(where=bytes_ref[0], set_before_pack=macros.len_ref(macros.self_ref.text))
        m = uint_field(where=bytes_ref[1], set_before_pack=n + 2)
        text = f(bytes_ref[2:m])
        end = be_uint_field(where=bytes_ref[m:m + 2])
    T = {'plain': Plain, 'func': Func, 'chain': Chain}[order]
    k = S.choice('k', range(5))
    text = {'str': lambda: S.str('text', k, 97, 122), 'bytes': lambda: S.bytearray('text', k),
            'list': lambda: list(S.bytes('text', k))}[kind]()
    raw = [ord(c) for c in text] if kind == 'str' else list(text)
    end = S.bits('end', 16)
    t = T(text=text, end=end, n=99)
    want = [k] + ([k + 2] if order == 'chain' else []) + raw + value_bytes(end, 2, False)
    S.check(same_bytes(S, t.pack(), want), 'packed bytes')
    S.check(t.n == k, 'left on the object')
    if order == 'chain':
        S.check(t.m == k + 2, 'the second left on the object')
    u = T()
    S.check(u.unpack(bytes(bytearray(want))) == len(want), 'consumed size')
    S.check(S.and_(u.n == k, S.eq(list(u.text) if kind != 'str' else u.text, list(text) if kind != 'str' else text), u.end == end),
            'unpacked values')
    # a shorter one next time
    t.text = text[:k // 2]
    S.check(same_bytes(S, t.pack(), [k // 2] + ([k // 2 + 2] if order == 'chain' else []) + raw[:k // 2] + value_bytes(end, 2, False)),
            'packed bytes of a changed object')


def seen_by_others(S, cfg):
    """positions, conditions and hooks of other fields see the supplied value, whatever the names"""
    first, second, third = cfg
    flag = uint_field(where=bytes_ref[0], set_before_pack=macros.self_ref.source)
    attrs = {first: flag,
             second: uint_field(where=bytes_ref[1], pack_if=flag > 10, unpack_if=flag > 10),
             third: uint_field(where=bytes_ref[2:4], set_before_pack=flag * 2 + 1)}
    T = make_buffer(attrs)
    t = T(**{first: 0, second: S.bits('x', 8), third: 0})
    t.source = S.bits('source', 8)
    data = t.pack()
    on = S.conc(t.source > 10)
    S.check(same_bytes(S, data, [t.source, getattr(t, second) if on else 0] + value_bytes(t.source * 2 + 1, 2, True)), 'packed bytes')
    S.check(S.and_(getattr(t, first) == t.source, getattr(t, third) == t.source * 2 + 1), 'left on the object')


def after_seen(S, cfg):
    """other fields refer to the stored value"""
    first, second = cfg
    n = uint_field(where=bytes_ref[0], set_after_unpack=lambda v: v & 3)
    T = make_buffer({first: n, second: bytearray_field(where=bytes_ref[1:n + 1])})
    data = S.bytes('data', 5)
    t = T()
    t.unpack(data)
    k = S.conc(data[0] & 3)
    S.check(getattr(t, first) == k, 'stored')
    S.check(S.eq(bytes(getattr(t, second)), data[1:1 + k]), 'position')


def conditional(S, cfg):
    """hooks of a field that isn't there are left alone"""
    calls = []

    class T(Buffer):
        a = uint_field(where=bytes_ref[0])
        f = uint_field(where=bytes_ref[1], pack_if=a == 1, unpack_if=a == 1, set_before_pack=lambda o: 77,
                       set_after_unpack=lambda v: calls.append(v) or v + 1)
    a, f = S.int('a', 0, 2), S.bits('f', 8)
    t = T(a=a, f=5)
    there = S.conc(a == 1)
    S.check(same_bytes(S, t.pack(), [a, 77 if there else 0]), 'packed bytes')
    S.check(t.f == (77 if there else 5), 'value on the object')
    t.unpack(bytes(bytearray([a, f])))
    if there:
        S.check(t.f == f + 1, 'post-unpack value')
        S.check(len(calls) == 1, 'called once')
    else:
        S.check(t.f is None and not calls, 'not called')


def inherited(S, cfg):
    class Base(Buffer):
        n = uint_field(where=bytes_ref[0], set_before_pack=lambda o: o.source + 1, set_after_unpack=lambda v: v - 1)

    class T(Base):
        b = uint_field(where=bytes_ref[1], set_before_pack=macros.num_ref(macros.self_ref.n) * 2)

    class Outer(Buffer):
        k = uint_field(where=bytes_ref[0], set_before_pack=3)
        inner = buffer_field(type=T, where=bytes_ref[1:3])
        rest = list_field(type=T, where=bytes_ref[3:])
    ts = []
    want = [3]
    for i in range(3):
        t = T()
        t.source = S.int('s%d' % i, 0, 60)
        ts.append(t)
        want += [t.source + 1, t.source * 2 + 2]
    o = Outer(inner=ts[0], rest=ts[1:])
    S.check(same_bytes(S, o.pack(), want), 'packed bytes')
    for t in ts:
        S.check(S.and_(t.n == t.source + 1, t.b == t.source * 2 + 2), 'left on the objects')
    u = Outer()
    u.unpack(bytes(bytearray(want)))
    for t, v in zip(ts, [u.inner] + u.rest):
        S.check(S.and_(v.n == t.source, v.b == t.source * 2 + 2), 'unpacked values')


def failing(S, cfg):
    """a hook's bad value or error is reported for its field"""
    from infi.instruct.buffer.buffer import InstructBufferError

    def boom(x):
        raise KeyError('boom')
    way = S.choice('way', ('large', 'error', 'after'))
    hooks_ = {'large': dict(set_before_pack=lambda o: o.source), 'error': dict(set_before_pack=boom), 'after': dict(set_after_unpack=boom)}
    T = make_buffer(dict(f=uint_field(where=bytes_ref[1], **hooks_[way]), z=uint_field(where=bytes_ref[0])))
    t = T(z=1, f=2)
    t.source = S.int('source', -3, 300)
    out = S.outcome(t.unpack, b'ab') if way == 'after' else S.outcome(t.pack)
    fits = way == 'large' and S.conc(S.and_(t.source >= 0, t.source < 256))
    S.check(out.ok == bool(fits), 'refused exactly when unusable')
    if not out.ok:
        S.check(isinstance(out.exc, InstructBufferError) and out.exc.attr_name == 'f' and out.exc.clazz is T, 'naming the field')


def obligations(tier):
    obs = []
    obs += group('before-constant', before_constant, KINDS, 2)
    obs += group('falsy', falsy, [(k, w) for k in ('zero', 'bits', 'false', 'float', 'text', 'open text', 'bytes', 'list')
                                  for w in ('constant', 'function', 'attribute', 'method')], 8)
    obs += group('before-function', before_function, KINDS, 2)
    obs += group('callables', callables, [(k,) for k in ('object', 'bound', 'class', 'static', 'partial', 'keyword', 'varargs', 'default')], 4)
    obs += group('before-reference', before_reference, KINDS, 2)
    obs += group('after', after, KINDS, 2)
    obs += [Ob('after-same', after_same)]
    obs += group('length', length_before, [(k, o) for k in ('str', 'bytes', 'list') for o in ('plain', 'func', 'chain')], 3)
    obs += group('seen-by-others', seen_by_others, [('a', 'b', 'c'), ('c', 'b', 'a'), ('b', 'c', 'a'), ('b', 'a', 'c')], 4)
    obs += group('after-seen', after_seen, [('a', 'b'), ('b', 'a')], 2)
    obs += [Ob('conditional', conditional), Ob('inherited', inherited), Ob('failing', failing)]
    obs += group('any-kind', anykind.hooks, [(k, h) for k in anykind.KINDS for h in ('function', 'reference', 'method', 'constant')], 8)
    obs += group('alike', anykind.alike, [(k,) for k in anykind.KINDS], 7)
    return obs
