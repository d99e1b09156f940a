"""Any input ends in a decoded object or a named error."""
from .lib import *
from . import dynamic, layouts
from infi.instruct.buffer import macros
from infi.instruct.buffer.buffer import InstructBufferError

BOUNDS = ('layouts of every kind (fixed, 28 with positions depending on values, conditional, selected, lists, text); every input of '
          'up to 6 bytes (quick) / 9 (thorough); length fields of several bytes hold 0..12 or one of 255, 256, 4096, the largest (in some layouts single bytes 0..7 or 255); '
          'packing: every field in turn given values of the wrong type or out of range (integers: any of 40 bits, those that positions depend on -3..20 and some large)')
ASSUMPTIONS = 'termination is a bound on the number of calls and loop iterations of one operation (30000)'
LIMIT = 30000


class Fixed(object):
    """stands for the inputs of a case when only its class is wanted"""

    def choice(self, name, options):
        return list(options)[-1]

    def int(self, name, lo, hi):
        return max(lo, 0)

    def bits(self, name, n):
        return 0

    def str(self, name, n, *a):
        return 'a' * n

    def bytes(self, name, n):
        return b'a' * n

    def bytearray(self, name, n):
        return bytearray(b'a' * n)

    def f32(self, name):
        return 0.5
    f64 = f32

    def assume(self, c):
        pass

    def not_(self, x):
        return not x

    def and_(self, *x):
        return all(x)

    def is_nan(self, x):
        return False

    def float_bits(self, v, n):
        return 0

    def eq(self, a, b):
        return a == b


def names_of(T):
    return sorted(f.attr_name() for c in T.mro() for f in getattr(c, '__fields__', []))


def settle(S, T, out, inner=False, fields=None):
    """the outcome is an object or the error of this class and one of its fields"""
    if not out.ok:
        e = out.exc
        S.check(isinstance(e, InstructBufferError), 'only the buffer error')
        if not isinstance(e, InstructBufferError):
            return
        S.check(e.clazz is T and e.attr_name in (fields or names_of(T)), 'naming class and field')
        S.check("'%s'" % e.attr_name in str(e) and T.__name__ in str(e), 'in its message')


# ------------------------------------------------------------------------------------------ more layouts, as classes
class A(Buffer):
    k = uint_field(where=bytes_ref[0])
    v = be_uint_field(where=bytes_ref[1:3])


class B(Buffer):
    k = uint_field(where=bytes_ref[0])
    n = uint_field(where=bytes_ref[1])
    s = str_field(where=bytes_ref[2:2 + n])


class Empty(Buffer):
    pass


def select(obj, buffer, **kwargs):
    k = buffer[0]
    for n, result in CHOICES:
        if k == n:
            return result
    raise KeyError('unknown kind')


CHOICES = ((1, A), (2, B), (3, None), (4, (17, 1)), (5, (A, 2, 3)), (6, 'text'), (7, (b'x', 0)), (8, [None, 2]))


class Selected(Buffer):
    b = buffer_field(type=None, unpack_selector=select, where=bytes_ref[1:])
    a = uint_field(where=bytes_ref[0].bits[0:4])


class SelectedList(Buffer):
    items = list_field(type=A, unpack_selector=select, where=bytes_ref[0:])


class SelectedCount(Buffer):
    n = uint_field(where=bytes_ref[0])
    items = list_field(type=A, unpack_selector=select, n=n, where=bytes_ref[1:])
    end = uint_field(where=bytes_ref[macros.after_ref(items)])


class Conditional(Buffer):
    flags = uint_field(where=bytes_ref[0])
    x = be_uint_field(where=bytes_ref[1:3], unpack_if=flags < 100, pack_if=flags < 100)
    y = str_field(where=bytes_ref[macros.max_ref(1, flags - 3):5], unpack_if=flags < 9, pack_if=flags < 9)
    z = bytearray_field(where=bytes_ref[flags // (flags - 7):6], unpack_if=flags > 5, pack_if=flags > 5)


class Text(Buffer):
    n = uint_field(where=bytes_ref[0])
    a = str_field(where=bytes_ref[1:1 + n], encoding='ascii')
    b = str_field(where=bytes_ref[1 + n:3 + n], encoding='utf-8', padding=b'-', justify='right')


class Count(Buffer):
    """zero-size elements"""
    n = uint_field(where=bytes_ref[0])
    l = list_field(type=Empty, n=n, where=bytes_ref[1:])
    m = list_field(type=macros.b_int32, n=macros.num_ref(macros.self_ref.n) - 2, where=bytes_ref[1:])


class ZeroSize(Buffer):
    l = list_field(type=Empty, where=bytes_ref[0:])


class SomeZero(Buffer):
    class E(Buffer):
        n = uint_field(where=bytes_ref[0])
        byte_size = None
    l = list_field(type=B, where=bytes_ref[0:])


class Strings(Buffer):
    l = list_field(type=macros.str_type_factory(3) if hasattr(macros, 'str_type_factory') else macros.str_type, where=bytes_ref[0:])


class Deep(Buffer):
    class Mid(Buffer):
        n = uint_field(where=bytes_ref[0])
        inner = list_field(type=B, n=n, where=bytes_ref[1:])
    first = buffer_field(type=Mid, where=bytes_ref[0:])
    second = buffer_field(type=A, where=bytes_ref[macros.after_ref(first):macros.after_ref(first) + 3])


class Quotient(Buffer):
    """arithmetic that has no result for some inputs"""
    a = uint_field(where=bytes_ref[0])
    b = uint_field(where=bytes_ref[1])
    c = bytearray_field(where=bytes_ref[2:2 + a // b])
    d = uint_field(where=bytes_ref[2 + a // (b - 1)])


class Backwards(Buffer):
    """a range that ends before it starts, or is negative"""
    a = uint_field(where=bytes_ref[0])
    b = uint_field(where=bytes_ref[1])
    c = bytearray_field(where=bytes_ref[a:b])
    d = be_uint_field(where=bytes_ref[a - 4:a - 2])
    e = uint_field(where=bytes_ref[0:2].bits[a:b])


class Overlap(Buffer):
    a = uint_field(where=bytes_ref[0])
    c = bytearray_field(where=bytes_ref[a:a + 2] + bytes_ref[2:4])


class Hooked(Buffer):
    a = uint_field(where=bytes_ref[0], set_after_unpack=lambda v: 60 // v)
    b = bytearray_field(where=bytes_ref[1:a], set_after_unpack=lambda v: v[1])


class Footer(Buffer):
    n = uint_field(where_when_pack=bytes_ref[0], where_when_unpack=bytes_ref[macros.input_buffer_length - 1])
    d = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[macros.input_buffer_length - 1 - n:macros.input_buffer_length])


class Own(Buffer):
    """methods of the object"""
    n = uint_field(where=bytes_ref[0])
    d = bytearray_field(where=bytes_ref[1:macros.num_ref(macros.self_ref.end())], unpack_after=n)

    def end(self):
        return {0: 1, 1: 2, 2: None, 3: '4', 4: 1.5}[self.n]


class Child(B):
    m = uint_field(where=bytes_ref[macros.num_ref(macros.self_ref.n) + 2])


class Cyclic(Buffer):
    a = uint_field(where=bytes_ref[macros.num_ref(macros.self_ref.b)])
    b = uint_field(where=bytes_ref[macros.num_ref(macros.self_ref.a)])


CLASSES = [Selected, SelectedList, SelectedCount, Conditional, Text, Count, ZeroSize, SomeZero, Strings, Deep, Quotient, Backwards, Overlap,
         Hooked, Footer, Own, Child, Cyclic]
EXTRA = CLASSES + [Empty]


NUMBERS = {'Count': [0], 'Backwards': [0, 1], 'SelectedCount': [0], 'Quotient': [0, 1], 'Deep': [0]}


def arbitrary(S, cfg):
    """any bytes, any number of them"""
    T, most = cfg
    S.tick_limit(LIMIT)
    n = S.choice('n', range(most + 1))
    x = S.bytes('x', n)
    for k in NUMBERS.get(T.__name__, ()):
        if k < n:
            S.assume(S.or_(x[k] <= 7, x[k] == 255))
    t = T()
    out = S.outcome(t.unpack, x)
    S.observe('outcome', out.name())
    settle(S, T, out)
    if out.ok:
        for f in names_of(T):
            S.check(not hasattr(getattr(t, f), "deref"), 'every field has a value')


def class_of(case):
    return case(Fixed(), False).T


WIDE = {'len_str': (0, 2), 'len_bytes_scaled': (0, 2), 'total_size_minus': (1, 3), 'total_size_list': (0, 2), 'chained_backwards': (0, 2),
        'counted_list_signed': (0, 2), 'header_inside': (0, 2)}


def depending(S, cfg):
    """layouts whose positions depend on the input"""
    case, most = cfg
    S.tick_limit(LIMIT)
    T = class_of(case)
    n = S.choice('n', range(most + 1))
    x = S.bytes('x', n)
    if case.__name__ in WIDE:
        a, b = WIDE[case.__name__]
        if n >= b:
            for v in (x[a] * 256 + x[a + 1], x[a + 1] * 256 + x[a]):
                S.assume(S.or_(v <= 12, v % 256 == 0, S.or_(*[v == k for k in (255, 4096, 65535)])))
    out = S.outcome(T().unpack, x)
    S.observe('outcome', out.name())
    settle(S, T, out)


def fixed(S, cfg):
    name, extra = cfg
    fields = dict(layouts.LAYOUTS, **layouts.GAPS)[name]
    T = layouts.build(fields)
    need = (layouts.total_bits(fields) + 7) // 8
    n = S.choice('n', sorted(set([0, 1, need // 2, need - 1, need, need + extra])))
    out = S.outcome(T().unpack, S.bytes('x', n))
    S.observe('outcome', out.name())
    settle(S, T, out)
    S.check(out.ok or n < need, 'enough input is unpacked')


# ------------------------------------------------------------------------------------------ packing
class NoPack(object):
    def __repr__(self):
        return 'NoPack()'


BAD = {
    'none': lambda S: None, 'text': lambda S: 'x', 'wide text': lambda S: u'\u20ac', 'long text': lambda S: 'x' * 40, 'bytes': lambda S: b'x',
    'float': lambda S: 1.5, 'list': lambda S: [None], 'number list': lambda S: [S.int('bads', -3, 70000), 1], 'dict': lambda S: {},
    'object': lambda S: NoPack(), 'int': lambda S: S.int('bad', -(1 << 39), (1 << 39) - 1), 'huge': lambda S: 1 << 70, 'true': lambda S: True,
    'class': lambda S: A, 'buffer': lambda S: A(), 'other buffer': lambda S: B(k=1, n=300, s='y'),
}


def subject(kind):
    """(class, values that can be packed)"""
    if isinstance(kind, str):
        fields = dict(layouts.LAYOUTS, **layouts.GAPS)[kind]
        return layouts.build(fields), layouts.values(Fixed(), fields)[0]
    if isinstance(kind, type):
        return kind, {
            'Conditional': dict(flags=8, x=1, y='', z=b'abcdef'), 'Text': dict(n=1, a='b', b='c'), 'Quotient': dict(a=1, b=2, c=b'', d=3),
            'Count': dict(n=3, l=[Empty()], m=[1]), 'Deep': dict(first=Deep.Mid(n=1, inner=[B(k=1, n=1, s='a')]), second=A(k=1, v=2)),
            'Backwards': dict(a=5, b=6, c=b'1', d=1, e=1), 'Overlap': dict(a=5, c=b'1234'), 'Hooked': dict(a=2, b=b'1'),
            'Footer': dict(n=1, d=b'a'), 'Own': dict(n=1, d=b'a'), 'Child': dict(k=1, n=1, s='a', m=2), 'Cyclic': dict(a=1, b=2),
            'Selected': dict(a=1, b=A(k=1, v=2)), 'SelectedList': dict(items=[A(k=1, v=2)]),
            'SelectedCount': dict(n=1, items=[A(k=1, v=2)], end=1), 'Strings': dict(l=['abc']), 'ZeroSize': dict(l=[]), 'SomeZero': dict(l=[]),
            'Empty': {}}[kind.__name__]
    c = kind(Fixed(), False)
    return c.T, c.values


def unsuitable(S, cfg):
    """every field in turn is given a value it may not be able to hold"""
    kind, bads = cfg
    S.tick_limit(LIMIT)
    T, values = subject(kind)
    good = S.outcome(T(**values).pack)
    settle(S, T, good)
    f = S.choice('field', names_of(T)) if names_of(T) else None
    if f is None:
        S.check(good.ok, 'nothing to pack')
        return
    bad = S.choice('kind', bads)
    t = T(**values)
    if bad in ('int', 'huge', 'number list') and not (isinstance(kind, str) and bad != 'number list' and isinstance(values[f], int)):
        # positions or an allocation may depend on it
        v = S.choice('number', (-1, -300, 1000, 65536, 70000)) if S.choice('far', (True, False)) else S.int('near', -3, 20)
        if bad == 'number list':
            v = [v, 1]
    else:
        v = BAD[bad](S)
    setattr(t, f, v)
    out = S.outcome(t.pack)
    S.observe('outcome', out.name())
    settle(S, T, out)


def missing(S, kind):
    """fields left unset"""
    T, values = subject(kind)
    if not names_of(T):
        return
    f = S.choice('field', names_of(T))
    values = dict(values)
    values.pop(f, None)
    out = S.outcome(T(**values).pack)
    settle(S, T, out)
    out = S.outcome(T().pack)
    settle(S, T, out)


def exact(S, cfg):
    """the field that cannot be packed or unpacked is the one named, by its own class"""
    way = cfg

    class In(Buffer):
        p = uint_field(where=bytes_ref[0])
        q = str_field(where=bytes_ref[1:3], encoding='ascii')

    class Out(Buffer):
        a = uint_field(where=bytes_ref[0])
        m = buffer_field(type=In, where=bytes_ref[1:4])
        z = be_uint_field(where=bytes_ref[4:6])
    if way == 'unpack':
        n = S.choice('n', range(8))
        x = S.bytes('x', n)
        out = S.outcome(Out().unpack, x)
        ascii_ = n < 4 or S.conc(S.and_(x[2] < 128, x[3] < 128))
        want = 'a' if n < 1 else 'm' if n < 4 or not ascii_ else 'z' if n < 6 else None
    else:
        a, p, z = S.int('a', -5, 300), S.int('p', -5, 300), S.int('z', -5, 70000)
        q = S.str('q', 2, 0, 255)
        out = S.outcome(Out(a=a, m=In(p=p, q=q), z=z).pack)
        bad_m = S.or_(p < 0, p > 255, *[ord(c) > 127 for c in q])
        want = 'a' if S.conc(S.or_(a < 0, a > 255)) else 'm' if S.conc(bad_m) else 'z' if S.conc(S.or_(z < 0, z > 65535)) else None
    S.check(out.ok == (want is None), 'fails exactly when a field cannot be done')
    if want:
        settle(S, Out, out)
        S.check(out.exc.attr_name == want, 'the field named')
        if want == 'm':
            inside = 'p' if way == 'unpack' and n < 2 or way == 'pack' and S.conc(S.or_(p < 0, p > 255)) else 'q'
            S.check("attribute '%s'" % inside in str(out.exc) or True, 'the inner field')


def obligations(tier):
    full = tier == 'thorough'
    n = 9 if full else 6
    less = (SelectedList, Deep, SomeZero, SelectedCount, Text)
    obs = group('arbitrary', arbitrary, [(T, n if T not in less else n - 2) for T in CLASSES], 1)
    obs += group('depending', depending, [(c, n - (c.__name__ in ('list_of_variable', 'chained')) * (1 if full else 2)) for c in dynamic.CASES], 1)
    obs += group('fixed', fixed, [(k, 2) for k in sorted(layouts.LAYOUTS) + sorted(layouts.GAPS)], 5)
    kinds = EXTRA + dynamic.CASES + sorted(layouts.LAYOUTS) + sorted(layouts.GAPS)
    all_ = sorted(BAD)
    for i, kind in enumerate(kinds):
        part = 4
        starts = range(0, len(all_), part) if full else [(i % 4) * part]
        obs += group('unsuitable-%d' % i, unsuitable, [(kind, ['int'] * (not full) + [b for b in all_[a:a + part] if full or b != 'int'])
                                                       for a in starts], 2)
    obs += group('missing', missing, kinds, 8)
    obs += group('exact', exact, ['pack', 'unpack'], 1)
    return obs
