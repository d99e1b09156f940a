"""Buffers made of chosen sequences of parts: any kind of part right after any other, named in any order.

Each kind is a function (S, P): P.at is where the part starts (a number or a reference), P.field(suffix, field) declares a field and
returns it, P.ref(suffix) refers to a field by name. It returns where the part ends and the bytes it is packed as."""
from .dynamic import *
from .dynamic import Case, be, le, text, codes, size


class Part(object):
    """what is known while a part is declared"""

    def __init__(self, S, i, naming, at, inside):
        self.S, self.i, self.naming, self.at, self.inside, self.late = S, i, naming, at, inside, None
        self.strict = True  # how many of the bytes are numbers or text
        self.attrs, self.values, self.after, self.same = {}, {}, {}, {}

    def name(self, suffix):
        if self.naming == 'forward':
            return 'abcdefg'[self.i] + '_' + suffix
        if self.naming == 'backward':
            return 'zyxutsr'[self.i] + '_' + dict(n='w', v='b', a='z', b='c').get(suffix, suffix)
        return dict(n='w', v='b', a='z', b='c').get(suffix, suffix) + '_' + 'bcadfeg'[self.i]

    def input(self, suffix):
        return 'p%d%s' % (self.i, suffix)

    def field(self, suffix, field):
        self.attrs[self.name(suffix)] = field
        return field

    def ref(self, suffix):
        return getattr(self_ref, self.name(suffix))

    def value(self, suffix, v, same=None):
        self.values[self.name(suffix)] = v
        if same:
            self.same[self.name(suffix)] = same

    def computed(self, suffix, v):
        self.after[self.name(suffix)] = v

    def range(self, a, b=None):
        return bytes_ref[self.at + a:] if b is None else bytes_ref[self.at + a:self.at + b]


def number(S, P):
    v = S.bits(P.input('v'), 8)
    P.value('v', v)
    f = P.field('v', be_uint_field(where=bytes_ref[P.at]))
    return f, 1, [v]


def wide(S, P):
    v = S.int(P.input('v'), -(1 << 31), (1 << 31) - 1)
    P.value('v', v)
    f = P.field('v', le_int_field(where=P.range(0, 4)))
    return f, 4, le(v, 4)


def real(S, P):
    v = S.f64(P.input('v'))
    S.assume(S.not_(S.is_nan(v)))
    P.value('v', v, lambda S, got: S.eq(S.float_bits(got, 8), S.float_bits(v, 8)))
    f = P.field('v', float_field(where=P.range(0, 8), endian='big'))
    return f, 8, be(S.float_bits(v, 8), 8)


def flags(S, P):
    a, b = S.bits(P.input('a'), 3), S.bits(P.input('b'), 5)
    P.value('a', a)
    P.value('b', b)
    P.field('a', uint_field(where=bytes_ref[P.at].bits[0:3]))
    f = P.field('b', uint_field(where=bytes_ref[P.at].bits[3:8]))
    return f, 1, [a | (b << 3)]


def straddling(S, P):
    a, b = S.bits(P.input('a'), 6), S.bits(P.input('b'), 10)
    P.value('a', a)
    P.value('b', b)
    P.field('a', uint_field(where=P.range(0, 2).bits[10:16]))
    f = P.field('b', uint_field(where=P.range(0, 2).bits[0:10]))
    return None, 2, le((a << 10) | b, 2)


def swapped(S, P):
    """ranges that are not in increasing order"""
    v = S.bits(P.input('v'), 32)
    P.value('v', v)
    f = P.field('v', be_uint_field(where=P.range(2, 4) + P.range(0, 2)))
    x = be(v, 4)
    return f, 4, x[2:] + x[:2]


def padded(S, P):
    n = size(S, P.input('n'), 2, 1)
    v = text(S, P.input('v'), n)
    P.value('v', v)
    f = P.field('v', str_field(where=P.range(0, 2)))
    return f, 2, codes(v) + [32] * (2 - n)


def gap(S, P):
    """a byte nobody names, then a number"""
    v = S.bits(P.input('v'), 16)
    P.value('v', v)
    f = P.field('v', be_uint_field(where=P.range(1, 3)))
    return f, 3, [0] + be(v, 2)


def var_text(S, P):
    n = S.choice(P.input('n'), (0, 2))
    v = text(S, P.input('v'), n)
    P.value('v', v)
    P.computed('n', n)
    P.field('n', be_uint_field(where=bytes_ref[P.at], set_before_pack=len_ref(P.ref('v'))))
    f = P.field('v', str_field(where=bytes_ref[P.at + 1:P.at + 1 + num_ref(P.ref('n'))]))
    return f, 1 + num_ref(P.ref('n')), [n] + codes(v)


def var_bytes(S, P):
    P.strict = 2
    n = S.choice(P.input('n'), (0, 2))
    v = S.bytearray(P.input('v'), n)
    P.value('v', v)
    P.computed('n', n)
    f = P.field('n', le_uint_field(where=P.range(0, 2), set_before_pack=len_ref(P.ref('v'))))
    f = P.field('v', bytearray_field(where=bytes_ref[P.at + 2:P.at + 2 + f]))
    return f, 2 + num_ref(P.ref('n')), [n, 0] + list(v)


def fixed_list(S, P):
    P.strict = 0
    v = [S.bits(P.input('v%d' % i), 16) for i in range(2)]
    P.value('v', v)
    f = P.field('v', list_field(type=l_uint16, where=P.range(0, 4)))
    return f, 4, le(v[0], 2) + le(v[1], 2)


def counted_list(S, P):
    """an open range that ends at the count"""
    P.strict = 1
    n = S.choice(P.input('n'), (1, 2))
    v = [S.bits(P.input('v%d' % i), 8) for i in range(n)]
    P.value('v', v)
    P.computed('n', n)
    c = P.field('n', be_uint_field(where=bytes_ref[P.at], set_before_pack=len_ref(P.ref('v'))))
    f = P.field('v', list_field(type=b_uint8, n=c, where=P.range(1)))
    return f, None, [n] + v


def sized_list(S, P):
    P.strict = 1
    n = S.choice(P.input('n'), (0, 2))
    v = [S.int(P.input('v%d' % i), -(1 << 15), (1 << 15) - 1) for i in range(n)]
    P.value('v', v)
    P.computed('n', 2 * n)
    c = P.field('n', be_uint_field(where=bytes_ref[P.at], set_before_pack=len_ref(P.ref('v')) * 2))
    f = P.field('v', list_field(type=b_int16, where=bytes_ref[P.at + 1:P.at + 1 + c]))
    return f, 1 + num_ref(P.ref('n')), [2 * n] + sum([be(x, 2) for x in v], [])


class Inner(Buffer):
    n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.s))
    s = bytearray_field(where=bytes_ref[1:1 + n])


class Fixed(Buffer):
    byte_size = 3
    x = uint_field(where=bytes_ref[0].bits[0:4])
    y = le_uint_field(where=bytes_ref[1:3])


class Nibble(Buffer):
    v = uint_field(where=bytes_ref[0].bits[0:4])


class Tail(Buffer):
    """ends in the middle of a byte"""
    n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.s))
    s = bytearray_field(where=bytes_ref[1:1 + n])
    t = uint_field(where=bytes_ref[1 + n].bits[0:3])


def nested_bits(S, P):
    """a buffer in an open range that ends in the middle of a byte"""
    P.strict = 1
    n = S.choice(P.input('n'), (0, 1))
    s, t = S.bytearray(P.input('s'), n), S.bits(P.input('t'), 3)
    P.value('v', Tail(s=s, t=t), lambda S, got: S.and_(S.eq(got.n, n), S.eq(got.s, s), S.eq(got.t, t)))
    f = P.field('v', buffer_field(type=Tail, where=P.range(0)))
    return f, None, [n] + list(s) + [t]


def nibble_list(S, P):
    """a list of such buffers"""
    P.strict = 1
    n = S.choice(P.input('n'), (1, 2))
    v = [S.bits(P.input('v%d' % i), 4) for i in range(n)]
    P.value('v', [Nibble(v=x) for x in v], lambda S, got: S.and_(len(got) == n, *[S.eq(g.v, x) for g, x in zip(got, v)]))
    P.computed('n', n)
    P.field('n', be_uint_field(where=bytes_ref[P.at], set_before_pack=len_ref(P.ref('v'))))
    f = P.field('v', list_field(type=Nibble, n=P.ref('n'), where=P.range(1)))
    return f, None, [n] + v


def loose_bits(S, P):
    """bit fields of a declared size, each after the one before"""
    a, b = S.bits(P.input('a'), 3), S.bits(P.input('b'), 13)
    P.value('a', a)
    P.value('b', b)
    f = P.field('a', uint_field(byte_size=0.375, where=P.range(0)))
    f = P.field('b', uint_field(byte_size=1.625, where=bytes_ref[after_ref(f):]))
    return f, None, le(a | (b << 3), 2)


def nested(S, P):
    """a buffer of variable size in an open range"""
    P.strict = 1
    n = S.choice(P.input('n'), (0, 2))
    s = S.bytearray(P.input('s'), n)
    P.value('v', Inner(s=s), lambda S, got: S.and_(S.eq(got.n, n), S.eq(got.s, s)))
    f = P.field('v', buffer_field(type=Inner, where=P.range(0)))
    return f, None, [n] + list(s)


def nested_fixed(S, P):
    x, y = S.bits(P.input('x'), 4), S.bits(P.input('y'), 16)
    P.value('v', Fixed(x=x, y=y), lambda S, got: S.and_(S.eq(got.x, x), S.eq(got.y, y)))
    f = P.field('v', buffer_field(type=Fixed, where=P.range(0, 3)))
    return f, 3, [x] + le(y, 2)


def nested_list(S, P):
    P.strict = 1
    n = S.choice(P.input('n'), (1, 2))
    ss = [S.bytearray(P.input('s%d' % i), n - 1) for i in range(n)]
    P.value('v', [Inner(s=s) for s in ss], lambda S, got: S.and_(len(got) == n, *[S.and_(S.eq(g.n, len(s)), S.eq(g.s, s)) for g, s in zip(got, ss)]))
    P.computed('n', n)
    P.field('n', be_uint_field(where=bytes_ref[P.at], set_before_pack=len_ref(P.ref('v'))))
    f = P.field('v', list_field(type=Inner, n=P.ref('n'), where=P.range(1)))
    return f, None, [n] + sum([[len(s)] + list(s) for s in ss], [])


def maybe(S, P):
    """a field that is there when a bit is set"""
    has, v = S.choice(P.input('has'), (0, 1)), S.bits(P.input('v'), 16)
    on = has == 1
    P.strict = 3 if on else 1
    P.value('n', has)
    P.value('v', v, None if on else lambda S, got: True)
    c = P.field('n', be_uint_field(where=bytes_ref[P.at]))
    P.field('v', be_uint_field(where=P.range(1, 3), pack_if=c, unpack_if=c))
    return None, 1 + 2 * num_ref(P.ref('n')), [has] + (be(v, 2) if on else [])


def hooked(S, P):
    """a number computed from another before packing and changed after unpacking"""
    a = S.bits(P.input('a'), 7)
    P.value('a', a)
    P.computed('v', a + 1)
    P.field('a', be_uint_field(where=bytes_ref[P.at], set_after_unpack=lambda v: v))
    f = P.field('v', be_uint_field(where=bytes_ref[P.at + 1], set_before_pack=num_ref(P.ref('a')) + 1))
    return f, 2, [a, a + 1]


def total(S, P):
    """the size of the whole"""
    P.computed('n', None)
    f = P.field('n', be_uint_field(where=P.range(0, 2), set_before_pack=total_size))
    P.late = lambda n: be(n, 2)
    return f, 2, [0, 0]


def counted_words(S, P):
    """the size of the rest counted in halves"""
    P.computed('n', None)
    f = P.field('n', le_uint_field(where=P.range(0, 1), set_before_pack=total_size * 2 + 1))
    P.late = lambda n: [2 * n + 1]
    return f, 1, [0]


def inside(S, P):
    """another part in a buffer of its own"""
    c = inner_case(S, P)
    P.value('v', c.object(), lambda S, got: agrees(S, c, got))
    f = P.field('v', buffer_field(type=c.T, where=P.range(0)))
    return f, None, c.want


def inside_list(S, P):
    c = inner_case(S, P)
    n = S.choice(P.input('n'), (1, 2))
    P.value('v', [c.object() for _ in range(n)], lambda S, got: S.and_(len(got) == n, *[agrees(S, c, g) for g in got]))
    P.computed('n', n)
    P.field('n', be_uint_field(where=bytes_ref[P.at], set_before_pack=len_ref(P.ref('v'))))
    f = P.field('v', list_field(type=c.T, n=P.ref('n'), where=P.range(1)))
    return f, None, [n] + n * c.want


def inside_sized(S, P):
    """the same with the number of bytes before it"""
    c = inner_case(S, P)
    n = len(c.want)
    P.value('v', c.object(), lambda S, got: agrees(S, c, got))
    P.value('n', n)
    f = P.field('n', be_uint_field(where=bytes_ref[P.at]))
    f = P.field('v', buffer_field(type=c.T, where=bytes_ref[P.at + 1:P.at + 1 + f]))
    return f, 1 + num_ref(P.ref('n')), [n] + c.want


def inner_case(S, P):
    P.strict = 0
    kind = BY_NAME[S.choice(P.input('kind'), [k.__name__ for k in P.inside])]
    return sequence(S, [kind], P.naming, offset=P.i + 3)


def agrees(S, c, got):
    return S.and_(*[c.same_fn[k](S, getattr(got, k)) if k in c.same_fn else S.eq(getattr(got, k), c.after[k]) for k in sorted(c.after)])


# parts that can only be the last
def rest(S, P):
    P.strict = 0
    v = S.bytearray(P.input('v'), S.choice(P.input('n'), (0, 2)))
    P.value('v', v)
    P.field('v', bytearray_field(where=P.range(0)))
    return None, None, list(v)


def rest_text(S, P):
    P.strict = 0
    v = text(S, P.input('v'), S.choice(P.input('n'), (1, 2)))
    P.value('v', v)
    P.field('v', str_field(where=P.range(0)))
    return None, None, codes(v)


def rest_list(S, P):
    P.strict = 0
    v = [S.bits(P.input('v%d' % i), 16) for i in range(S.choice(P.input('n'), (0, 2)))]
    P.value('v', v)
    P.field('v', list_field(type=b_uint16, where=P.range(0)))
    return None, None, sum([be(x, 2) for x in v], [])


def rest_buffers(S, P):
    P.strict = 0
    ss = [S.bytearray(P.input('s%d' % i), i) for i in range(S.choice(P.input('n'), (1, 2)))]
    P.value('v', [Inner(s=s) for s in ss], lambda S, got: S.and_(len(got) == len(ss), *[S.and_(S.eq(g.n, len(s)), S.eq(g.s, s)) for g, s in zip(got, ss)]))
    P.field('v', list_field(type=Inner, where=P.range(0)))
    return None, None, sum([[len(s)] + list(s) for s in ss], [])


def rest_nibbles(S, P):
    P.strict = 0
    v = [S.bits(P.input('v%d' % i), 4) for i in range(S.choice(P.input('n'), (1, 2)))]
    P.value('v', [Nibble(v=x) for x in v], lambda S, got: S.and_(len(got) == len(v), *[S.eq(g.v, x) for g, x in zip(got, v)]))
    P.field('v', list_field(type=Nibble, where=P.range(0)))
    return None, None, v


def footer(S, P):
    P.strict = 0
    v, crc = S.bytearray(P.input('v'), S.choice(P.input('n'), (0, 2))), S.bits(P.input('crc'), 8)
    P.value('v', v)
    P.value('n', crc)
    f = P.field('v', bytearray_field(where_when_pack=P.range(0), where_when_unpack=bytes_ref[P.at:input_buffer_length - 1]))
    P.field('n', be_uint_field(where_when_pack=bytes_ref[after_ref(f):after_ref(f) + 1],
                               where_when_unpack=bytes_ref[input_buffer_length - 1:input_buffer_length]))
    return None, None, list(v) + [crc]


LAST = [rest, rest_text, rest_list, rest_buffers, rest_nibbles, footer]
KINDS = [number, wide, real, flags, straddling, swapped, padded, gap, var_text, var_bytes, fixed_list, counted_list, sized_list, nested,
         nested_fixed, nested_list, maybe, hooked, total, counted_words, nested_bits, nibble_list, loose_bits, inside, inside_list, inside_sized]
INSIDE = [number, flags, swapped, gap, var_text, counted_list, sized_list, nested, maybe, total, loose_bits]
FEW_INSIDE = [flags, var_text, maybe]
FEW = [wide, flags, swapped, var_text, counted_list, nested, maybe, total, inside]
STATIC = [total, counted_words, number, wide, real, flags, straddling, swapped, padded, gap, fixed_list, nested_fixed, maybe, hooked]
BY_NAME = dict((k.__name__, k) for k in KINDS + LAST)
NAMINGS = ('forward', 'backward', 'mixed')


def sequence(S, kinds, naming, base=0, offset=0, style='flat', inside=()):
    """a buffer of the parts one after the other; where each starts is either after the last field or a sum"""
    at, values, want, after, same = base, {}, [0] * base, {}, {}
    classes, late = [], []
    needed = 0  # the bytes up to the end of the last number or text
    for i, k in enumerate(kinds):
        P = Part(S, i + offset, naming, at, inside)
        field, length, part = k(S, P)
        classes.append(P.attrs)
        values.update(P.values)
        after.update(P.after)
        same.update(P.same)
        if P.late:
            late.append((P, len(want), len(part)))
        if len(part) and P.strict:
            needed = len(want) + (len(part) if P.strict is True else P.strict)
        want = want + part
        if i + 1 < len(kinds):
            if length is None or field is not None and S.choice('next%d' % (i + offset), ('after', 'sum')) == 'after':
                at = after_ref(field)
            else:
                at = at + length
    if isinstance(P.at, int) and all(k in STATIC for k in kinds) and kinds[-1] is maybe and not values[P.name('n')]:
        want = want + [0, 0]  # no position depends on a value: the size is the same whether the field is there or not
    for P, start, n in late:
        want[start:start + n] = P.late(len(want))
        after[P.name('n')] = bytes_value(want[start:start + n], n == 1)
    T = Buffer
    if style == 'flat':
        attrs = {}
        for x in classes:
            attrs.update(x)
        classes = [attrs]
    for x in classes if style != 'reversed' else reversed(classes):
        T = type(Buffer)('T', (T,), x)
    c = Case(T, values, want, after, junk=kinds[-1] not in LAST, same=same)
    c.needed = needed
    c.names = sorted(sum([list(x) for x in classes], []))
    return c


def cases(depth=1, namings=NAMINGS, kinds=None, among=None, styles=('flat',), inside=None, last=True):
    """cases as in dynamic.CASES: one for each first kind"""
    def case(k):
        def f(S, big):
            names = [x.__name__ for x in (among or KINDS)]
            ends = names + ([x.__name__ for x in LAST] if last else [])
            ks = [k] + [BY_NAME[S.choice('part%d' % i, ends if i == depth - 1 else names)] for i in range(depth)]
            return sequence(S, ks, S.choice('naming', namings) if len(namings) > 1 else namings[0],
                            style=S.choice('style', styles) if len(styles) > 1 else styles[0], inside=inside or INSIDE)
        f.__name__ = '%s then %s' % (k.__name__, ', '.join(['any'] * depth))
        return f
    return [case(k) for k in (kinds or KINDS)]


def some(naming, **opts):
    """fewer of them, for the quick checks"""
    return cases(1, (naming,), kinds=[k for k in KINDS if k not in (inside_list, inside_sized)], among=FEW, inside=FEW_INSIDE, **opts)
