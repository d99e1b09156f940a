"""Layouts whose positions depend on values, with reference encodings. Each case(S) returns
(class, values to set, packed bytes as a list of integers, values after unpacking, self-delimiting).

`values` holds the fields to set before packing, `after` those expected after packing or unpacking."""
from .lib import *


def text(S, name, n):
    """ASCII text without characters that are stripped as padding"""
    return S.str(name, n, 33, 126)


def codes(s):
    return [ord(c) for c in s]


def be(v, n):
    return value_bytes(v, n, False)


def le(v, n):
    return value_bytes(v, n, True)


class Case(object):
    def __init__(self, T, values, want, after=None, junk=True, same=None, nonempty=True):
        self.T, self.values, self.want = T, values, want
        self.after = dict(values)
        self.after.update(after or {})
        self.junk = junk
        self.same_fn = same or {}

    def object(self):
        return self.T(**self.values)

    def check_values(self, S, t, label):
        for k in sorted(self.after):
            got = getattr(t, k)
            if k in self.same_fn:
                ok = self.same_fn[k](S, got)
            else:
                S.observe(k, got)
                ok = S.eq(got, self.after[k])
            S.check(ok, '%s: %s' % (label, k))


def size(S, name, most, least=0):
    return S.choice(name, range(least, most + 1))


# ---------------------------------------------------------------------------------------------- length prefixed
def len_str(S, big):
    class T(Buffer):
        l = be_uint_field(where=bytes_ref[0:2], set_before_pack=len_ref(self_ref.s))
        s = str_field(where=bytes_ref[2:2 + l])
    n = size(S, 'n', 7 if big else 4)
    s = text(S, 's', n)
    return Case(T, dict(s=s), be(n, 2) + codes(s), dict(l=n))


def len_bytes_scaled(S, big):
    class T(Buffer):
        l = le_uint_field(where=bytes_ref[0:2], set_before_pack=len_ref(self_ref.data) * 2 + 3)
        data = bytearray_field(where=bytes_ref[2:2 + (l - 3) // 2])
    n = size(S, 'n', 7 if big else 4)
    d = S.bytearray('d', n)
    return Case(T, dict(data=d), le(2 * n + 3, 2) + list(d), dict(l=2 * n + 3))


def total_size_minus(S, big):
    class T(Buffer):
        a_len = be_uint_field(where=bytes_ref[1:3], set_before_pack=total_size - 3)
        tag = be_uint_field(where=bytes_ref[0:1])
        body = bytearray_field(where_when_pack=bytes_ref[3:], where_when_unpack=bytes_ref[3:3 + a_len])
    n = size(S, 'n', 7 if big else 4)
    d, tag = S.bytearray('d', n), S.bits('tag', 8)
    return Case(T, dict(body=d, tag=tag), [tag] + be(n, 2) + list(d), dict(a_len=n))


def total_size_list(S, big):
    class T(Buffer):
        size = be_uint_field(where=bytes_ref[0:2], set_before_pack=total_size)
        z_items = list_field(type=b_uint16, where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:size])
    n = size(S, 'n', 4 if big else 3)
    v = [S.bits('v%d' % i, 16) for i in range(n)]
    return Case(T, dict(z_items=v), be(2 + 2 * n, 2) + sum([be(x, 2) for x in v], []), dict(size=2 + 2 * n))


def nibble_length(S, big):
    class T(Buffer):
        n = uint_field(where=bytes_ref[0].bits[4:8], set_before_pack=len_ref(self_ref.s))
        flags = uint_field(where=bytes_ref[0].bits[0:4])
        s = str_field(where=bytes_ref[1:1 + n])
        tail = be_uint_field(where=bytes_ref[1 + n:3 + n])
    n = size(S, 'len', 5 if big else 3)
    s, flags, tail = text(S, 's', n), S.bits('flags', 4), S.bits('tail', 16)
    return Case(T, dict(s=s, flags=flags, tail=tail), [flags | (n << 4)] + codes(s) + be(tail, 2), dict(n=n))


def units_of_words(S, big):
    """length counted in units of four bytes, header included"""
    class T(Buffer):
        words = be_uint_field(where=bytes_ref[0], set_before_pack=total_size // 4)
        kind = be_uint_field(where=bytes_ref[1])
        data = bytearray_field(where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:words * 4])
    n = 4 * size(S, 'n', 2) + 2
    d, kind = S.bytearray('d', n), S.bits('kind', 8)
    return Case(T, dict(data=d, kind=kind), [(n + 2) // 4, kind] + list(d), dict(words=(n + 2) // 4))


def field_of_length(S, big):
    """an integer whose width is given by another field"""
    class T(Buffer):
        w = be_uint_field(where=bytes_ref[0])
        v = be_uint_field(where=bytes_ref[1:1 + w])
        t = le_uint_field(where=bytes_ref[1 + w:3 + w])
    w = size(S, 'w', 8, 1)
    v, t = S.bits('v', 8 * w), S.bits('t', 16)
    return Case(T, dict(w=w, v=v, t=t), [w] + be(v, w) + le(t, 2))


# ---------------------------------------------------------------------------------------------- after another field
def chained(S, big):
    class T(Buffer):
        la = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.a))
        lb = be_uint_field(where=bytes_ref[1], set_before_pack=len_ref(self_ref.b))
        a = str_field(where=bytes_ref[2:2 + la])
        b = str_field(where=bytes_ref[after_ref(a):after_ref(a) + lb])
        c = be_int_field(where=bytes_ref[after_ref(b):after_ref(b) + 2])
    m, n = size(S, 'm', 3 if big else 2), size(S, 'n', 3 if big else 2)
    a, b, c = text(S, 'a', m), text(S, 'b', n), S.int('c', -(1 << 15), (1 << 15) - 1)
    return Case(T, dict(a=a, b=b, c=c), [m, n] + codes(a) + codes(b) + be(c, 2), dict(la=m, lb=n))


def chained_backwards(S, big):
    """the same with names in the opposite order, each length right before its text"""
    class T(Buffer):
        z_len = le_uint_field(where=bytes_ref[0:2], set_before_pack=len_ref(self_ref.y))
        y = bytearray_field(where=bytes_ref[2:2 + z_len])
        x_len = le_uint_field(where=bytes_ref[after_ref(y):after_ref(y) + 2], set_before_pack=len_ref(self_ref.w))
        w = bytearray_field(where=bytes_ref[after_ref(x_len):after_ref(x_len) + x_len])
        a = be_uint_field(where=bytes_ref[after_ref(w):after_ref(w) + 1])
    m, n = size(S, 'm', 3 if big else 2), size(S, 'n', 3 if big else 2)
    y, w, a = S.bytearray('y', m), S.bytearray('w', n), S.bits('a', 8)
    return Case(T, dict(y=y, w=w, a=a), le(m, 2) + list(y) + le(n, 2) + list(w) + [a], dict(z_len=m, x_len=n))


def counted_list(S, big):
    """an open list that stops at its count, then a trailer placed after it"""
    class T(Buffer):
        count = be_uint_field(where=bytes_ref[0:1], set_before_pack=len_ref(self_ref.items))
        items = list_field(type=l_uint16, n=count, where=bytes_ref[1:])
        tail = be_uint_field(where=bytes_ref[after_ref(items):after_ref(items) + 2])
    n = size(S, 'n', 4 if big else 3, 1)
    v, tail = [S.bits('v%d' % i, 16) for i in range(n)], S.bits('tail', 16)
    return Case(T, dict(items=v, tail=tail), [n] + sum([le(x, 2) for x in v], []) + be(tail, 2), dict(count=n))


def counted_list_signed(S, big):
    """as above, other element types"""
    typ, n_bytes, little, sign = S.choice('type', ((b_int8, 1, False, 1), (l_int32, 4, True, 1), (b_uint64, 8, False, 0)))

    class T(Buffer):
        items = list_field(type=typ, n=self_ref.count, where=bytes_ref[2:])
        count = le_uint_field(where=bytes_ref[0:2], set_before_pack=len_ref(items))
    n = size(S, 'n', 3 if big else 2, 1)
    lo, hi = int_range(8 * n_bytes, 'signed' if sign else 'unsigned')
    v = [S.int('v%d' % i, lo, hi) for i in range(n)]
    return Case(T, dict(items=v), le(n, 2) + sum([value_bytes(x, n_bytes, little) for x in v], []), dict(count=n))


def open_nested(S, big):
    """a nested buffer of variable size in an open range, then fields after it"""
    class Inner(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.s))
        s = str_field(where=bytes_ref[1:1 + n])

    class T(Buffer):
        head = be_uint_field(where=bytes_ref[0:2])
        inner = buffer_field(type=Inner, where=bytes_ref[2:])
        tail = be_uint_field(where=bytes_ref[after_ref(inner):after_ref(inner) + 1])
    n = size(S, 'n', 4 if big else 2)
    s, head, tail = text(S, 's', n), S.bits('head', 16), S.bits('tail', 8)
    same = dict(inner=lambda S, got: S.and_(S.eq(got.n, n), S.eq(got.s, s)))
    return Case(T, dict(inner=Inner(s=s), head=head, tail=tail), be(head, 2) + [n] + codes(s) + [tail], same=same)


def two_nested(S, big):
    class Inner(Buffer):
        v = le_uint_field(where=bytes_ref[1:3])
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.d))
        d = bytearray_field(where=bytes_ref[3:3 + n])

    class T(Buffer):
        b = buffer_field(type=Inner, where=bytes_ref[1:])
        a = buffer_field(type=Inner, where=bytes_ref[after_ref(b):])
        k = be_uint_field(where=bytes_ref[0])
        z = be_uint_field(where=bytes_ref[after_ref(a):after_ref(a) + 2])
    m, n = size(S, 'm', 2 if big else 1), size(S, 'n', 2 if big else 1)
    d1, d2 = S.bytearray('d1', m), S.bytearray('d2', n)
    v1, v2, k, z = S.bits('v1', 16), S.bits('v2', 16), S.bits('k', 8), S.bits('z', 16)

    def same(v, d):
        return lambda S, got: S.and_(S.eq(got.n, len(d)), S.eq(got.d, d), S.eq(got.v, v))
    return Case(T, dict(b=Inner(v=v1, d=d1), a=Inner(v=v2, d=d2), k=k, z=z),
                [k, m] + le(v1, 2) + list(d1) + [n] + le(v2, 2) + list(d2) + be(z, 2),
                same=dict(a=same(v2, d2), b=same(v1, d1)))


def list_of_variable(S, big):
    """count-prefixed list of variable buffers, then a trailer"""
    class Inner(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.s))
        s = str_field(where=bytes_ref[1:1 + n])

    class T(Buffer):
        items = list_field(type=Inner, n=self_ref.count, where=bytes_ref[1:])
        count = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(items))
        end = be_uint_field(where=bytes_ref[after_ref(items):after_ref(items) + 1])
    n = size(S, 'n', 2, 1)
    ss = [text(S, 's%d' % i, size(S, 'l%d' % i, 2 if big else 1)) for i in range(n)]
    end = S.bits('end', 8)

    def same(S, got):
        return S.and_(len(got) == n, *[S.and_(S.eq(g.n, len(s)), S.eq(g.s, s)) for g, s in zip(got, ss)])
    return Case(T, dict(items=[Inner(s=s) for s in ss], end=end),
                [n] + sum([[len(s)] + codes(s) for s in ss], []) + [end], dict(count=n), same=dict(items=same))


def after_reordered(S, big):
    """after a field whose ranges are not in increasing order, and after bits"""
    class T(Buffer):
        a = be_uint_field(where=bytes_ref[3:5] + bytes_ref[0:2])
        b = uint_field(where=bytes_ref[2].bits[0:3])
        c = be_uint_field(where=bytes_ref[after_ref(a):after_ref(a) + 2])
        d = uint_field(where=bytes_ref[2].bits[3:8])
        e = bytearray_field(where=bytes_ref[after_ref(c):after_ref(c) + b])
    b = size(S, 'b', 3)
    a, c, d, e = S.bits('a', 32), S.bits('c', 16), S.bits('d', 5), S.bytearray('e', b)
    x = be(a, 4)
    return Case(T, dict(a=a, b=b, c=c, d=d, e=e), x[2:4] + [b | (d << 3)] + x[0:2] + be(c, 2) + list(e))


# ---------------------------------------------------------------------------------------------- offsets, arithmetic
def pointed(S, big):
    """the position itself is a value"""
    class T(Buffer):
        off = be_uint_field(where=bytes_ref[0])
        l = be_uint_field(where=bytes_ref[1])
        d = bytearray_field(where=bytes_ref[off:off + l])
    off, l = S.choice('off', (2, 3, 5, 6)), size(S, 'l', 3)
    if not l:
        off = 2
    d = S.bytearray('d', l)
    return Case(T, dict(off=off, l=l, d=d), [off, l] + [0] * (off - 2) + list(d))


def minimum(S, big):
    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        m = be_uint_field(where=bytes_ref[1])
        a = bytearray_field(where=bytes_ref[2:2 + min_ref(n, m, 3)])
        b = bytearray_field(where=bytes_ref[after_ref(a):after_ref(a) + max_ref(n - m, 0)])
        c = be_uint_field(where=bytes_ref[max_ref(after_ref(a), after_ref(b)):max_ref(after_ref(a), after_ref(b)) + 1])
    n, m = size(S, 'n', 4 if big else 3), size(S, 'm', 4 if big else 3)
    k, j = min(n, m, 3), max(n - m, 0)
    a, b, c = S.bytearray('a', k), S.bytearray('b', j), S.bits('c', 8)
    return Case(T, dict(n=n, m=m, a=a, b=b, c=c), [n, m] + list(a) + list(b) + [c])


def arithmetic(S, big):
    class T(Buffer):
        n = uint_field(where=bytes_ref[0].bits[0:4])
        k = uint_field(where=bytes_ref[0].bits[4:8])
        a = bytearray_field(where=bytes_ref[10 - k:10 - k + n])
        b = be_uint_field(where=bytes_ref[(2 * n + k) // 3 + 12:(k + n * 2) // 3 + 14])
    n, k = size(S, 'n', 2), S.choice('k', (0, 5, 9) if not big else (0, 1, 4, 5, 8, 9))
    a, b = S.bytearray('a', n), S.bits('b', 16)
    at = (2 * n + k) // 3 + 12
    want = [n | (k << 4)] + [0] * (at - 1) + be(b, 2)
    want[10 - k:10 - k + n] = list(a)
    return Case(T, dict(n=n, k=k, a=a, b=b), want)


def names_and_casts(S, big):
    """forward references by name, casts, methods of the object"""
    class T(Buffer):
        a = bytearray_field(where=bytes_ref[num_ref(self_ref.z):num_ref(self_ref.z) + num_ref(self_ref.y)])
        y = be_uint_field(where=bytes_ref[num_ref(self_ref.where_y()):num_ref(self_ref.where_y()) + 1],
                          set_before_pack=len_ref('a'))
        z = be_uint_field(where=bytes_ref[0])

        def where_y(self):
            return 1
    n, z = size(S, 'n', 3), S.choice('z', (2, 4))
    if not n:
        z = 2
    d = S.bytearray('d', n)
    return Case(T, dict(a=d, z=z), [z, n] + [0] * (z - 2) + list(d), dict(y=n))


def function_of_object(S, big):
    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=lambda self: len(self.d) + 1)
        d = bytearray_field(where_when_pack=bytes_ref[1:],
                            where_when_unpack=bytes_ref[1:num_ref(member_func_ref(lambda self: self.n))], unpack_after=n)
    n = size(S, 'n', 4)
    d = S.bytearray('d', n)
    return Case(T, dict(d=d), [n + 1] + list(d), dict(n=n + 1))


def split_payload(S, big):
    """variable data in two separate ranges"""
    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        mid = be_uint_field(where=bytes_ref[3:5])
        d = bytearray_field(where=bytes_ref[1:3] + bytes_ref[5:5 + n])
    n = size(S, 'n', 3)
    d, mid = S.bytearray('d', n + 2), S.bits('mid', 16)
    d = bytearray(d)
    return Case(T, dict(n=n, mid=mid, d=d), [n] + list(d)[:2] + be(mid, 2) + list(d)[2:])


def bit_chain(S, big):
    """bit fields that follow one another, widths given by the first"""
    class T(Buffer):
        w = uint_field(where=bytes_ref[0].bits[0:3])
        a = uint_field(where=bytes_ref[0:3].bits[3:w + 4])
        b = uint_field(where=bytes_ref[0:3].bits[w + 4:w + 9])
    w = size(S, 'w', 7) if big else S.choice('w', (1, 6))
    a, b = S.bits('a', w + 1), S.bits('b', 5)
    v = w | (a << 3) | (b << (w + 4))
    return Case(T, dict(w=w, a=a, b=b), le(v, (w + 9 + 7) // 8))


def conditional_chain(S, big):
    """an optional part, the rest follows it"""
    class T(Buffer):
        has = be_uint_field(where=bytes_ref[0])
        opt = be_uint_field(where=bytes_ref[1:1 + 2 * has])
        rest = be_uint_field(where=bytes_ref[1 + 2 * has:2 + 2 * has])
    has = S.choice('has', (1, 2, 3))
    opt, rest = S.bits('opt', 16 * has), S.bits('rest', 8)
    return Case(T, dict(has=has, opt=opt, rest=rest), [has] + be(opt, 2 * has) + [rest])


# ---------------------------------------------------------------------------------------------- up to the end of input
def rest_of_input(S, big):
    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0:2])
        rest = bytearray_field(where=bytes_ref[2:])
    n = size(S, 'n', 5)
    a, d = S.bits('a', 16), S.bytearray('d', n)
    return Case(T, dict(a=a, rest=d), be(a, 2) + list(d), junk=False)


def footer(S, big):
    """a trailer found from the end of the input"""
    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0])
        d = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:input_buffer_length - 2])
        crc = be_uint_field(where_when_pack=bytes_ref[after_ref(d):after_ref(d) + 2],
                            where_when_unpack=bytes_ref[input_buffer_length - 2:input_buffer_length])
    n = size(S, 'n', 4)
    a, d, crc = S.bits('a', 8), S.bytearray('d', n), S.bits('crc', 16)
    return Case(T, dict(a=a, d=d, crc=crc), [a] + list(d) + be(crc, 2), junk=False)


def open_list(S, big):
    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0:2])
        items = list_field(type=b_int16, where=bytes_ref[2:])
    n = size(S, 'n', 3)
    v = [S.int('v%d' % i, -(1 << 15), (1 << 15) - 1) for i in range(n)]
    a = S.bits('a', 16)
    return Case(T, dict(a=a, items=v), be(a, 2) + sum([be(x, 2) for x in v], []), junk=False)


def header_inside(S, big):
    """nested header in a sized range, payload sized by the header"""
    class H(Buffer):
        n = le_uint_field(where=bytes_ref[0:2])
        f = uint_field(where=bytes_ref[2].bits[0:5])
        g = uint_field(where=bytes_ref[2].bits[5:8])

    class T(Buffer):
        h = buffer_field(type=H, where=bytes_ref[0:3])
        d = bytearray_field(where_when_pack=bytes_ref[3:],
                            where_when_unpack=bytes_ref[3:3 + num_ref(member_func_ref(lambda self: self.h.n))], unpack_after=h)
    n = size(S, 'n', 4)
    f, g, d = S.bits('f', 5), S.bits('g', 3), S.bytearray('d', n)
    same = dict(h=lambda S, got: S.and_(S.eq(got.n, n), S.eq(got.f, f), S.eq(got.g, g)))
    return Case(T, dict(h=H(n=n, f=f, g=g), d=d), le(n, 2) + [f | (g << 5)] + list(d), same=same)


def strided_list(S, big):
    """descriptor list: header length, element count and element size all in the header"""
    class E(Buffer):
        byte_size = 4
        a = be_uint_field(where=bytes_ref[0:2])
        b = uint_field(where=bytes_ref[2].bits[0:6])

    class T(Buffer):
        hl = be_uint_field(where=bytes_ref[0])
        n = be_uint_field(where=bytes_ref[1], set_before_pack=len_ref(self_ref.es))
        es = list_field(type=E, where_when_pack=bytes_ref[hl:], where_when_unpack=bytes_ref[hl:hl + n * 4])
        t = be_uint_field(where=bytes_ref[hl + n * 4:hl + n * 4 + 2])
    hl, n = S.choice('hl', (2, 4)), size(S, 'count', 2, 1)
    ab = [(S.bits('a%d' % i, 16), S.bits('b%d' % i, 6)) for i in range(n)]
    t = S.bits('t', 16)

    def same(S, got):
        return S.and_(len(got) == n, *[S.and_(S.eq(g.a, a), S.eq(g.b, b)) for g, (a, b) in zip(got, ab)])
    return Case(T, dict(hl=hl, es=[E(a=a, b=b) for a, b in ab], t=t),
                [hl, n] + [0] * (hl - 2) + sum([be(a, 2) + [b, 0] for a, b in ab], []) + be(t, 2),
                dict(n=n), same=dict(es=same))


CASES = [len_str, len_bytes_scaled, total_size_minus, total_size_list, nibble_length, units_of_words, field_of_length,
         chained, chained_backwards, counted_list, counted_list_signed, open_nested, two_nested, list_of_variable,
         after_reordered, pointed, minimum, arithmetic, names_and_casts, function_of_object, split_payload, bit_chain,
         conditional_chain, rest_of_input, footer, open_list, header_inside, strided_list]
