"""Declaration order and cross references do not change the result."""
import itertools
from .dynamic import *
from . import composeb, anykind
from .B06 import roundtrip

BOUNDS = ('layouts of 3..5 fields under every assignment of names (hence every processing order) and some unusual names, and the same references given '
          'directly, by name or through methods; fields unpacked after up to three others in any of six forms; all values symbolic')
BOUNDS += '; buffers of any two of 32 kinds of part, each right after the one before, names in several orders (props/composeb.py; quick: fewer of them)'
BOUNDS += '; fields declared again in derived classes of up to 3 levels, or with several bases'
BOUNDS += '; each of the 14 kinds of field, four bytes of any value: placed and made conditional by methods that read a field unpacked before (props/anykind.py)'


def field(name):
    return num_ref(getattr(self_ref, name))


# Each layout gets the names of its fields and returns ({name: field}, values, bytes, values after); references by name.
def lengths(S, n):
    count, data, tail = n[:3]
    k = S.choice('k', (0, 2))
    d, t = S.bytearray('d', k), S.bits('t', 16)
    attrs = {count: be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(getattr(self_ref, data))),
             data: bytearray_field(where=bytes_ref[1:1 + field(count)]),
             tail: be_uint_field(where=bytes_ref[1 + field(count):3 + field(count)])}
    return attrs, {data: d, tail: t}, [k] + list(d) + be(t, 2), {count: k}


def three_lengths(S, n):
    a, b, c, d = n[:4]
    j, k = S.choice('j', (1, 2)), S.choice('k', (0, 2))
    x, y = S.bytearray('x', j), S.bytearray('y', k)
    attrs = {a: uint_field(where=bytes_ref[0].bits[0:4], set_before_pack=len_ref(getattr(self_ref, c))),
             b: uint_field(where=bytes_ref[0].bits[4:8], set_before_pack=lambda self: len(getattr(self, d))),
             c: bytearray_field(where=bytes_ref[1:1 + field(a)]),
             d: bytearray_field(where=bytes_ref[1 + field(a):1 + field(a) + field(b)])}
    return attrs, {c: x, d: y}, [j | (k << 4)] + list(x) + list(y), {a: j, b: k}


def afters(S, n):
    """after_ref of closed, open and conditional fields"""
    a, b, c, d = n[:4]
    k = S.choice('k', (0, 1, 3))
    fa = be_uint_field(where=bytes_ref[0])
    fb = list_field(type=b_uint8, where=bytes_ref[1:], n=fa)
    fc = le_uint_field(where=bytes_ref[after_ref(fb):after_ref(fb) + 2])
    fd = be_uint_field(where=bytes_ref[after_ref(fc):after_ref(fc) + 1])
    l = [S.bits('l%d' % i, 8) for i in range(k)]
    x, y = S.bits('x', 16), S.bits('y', 8)
    return {a: fa, b: fb, c: fc, d: fd}, {a: k, b: l, c: x, d: y}, [k] + l + le(x, 2) + [y], {}


def computed(S, n):
    """values computed one from another before packing, in both directions"""
    a, b, c, d = n[:4]
    v = S.int('v', 0, 100)
    attrs = {a: be_uint_field(where=bytes_ref[3], set_before_pack=field(b) + 1),
             b: be_uint_field(where=bytes_ref[1], set_before_pack=field(c) * 2),
             c: be_uint_field(where=bytes_ref[2]),
             d: be_uint_field(where=bytes_ref[0], set_before_pack=max_ref(field(a), field(b), field(c)))}
    return attrs, {c: v}, [2 * v + 1, 2 * v, v, 2 * v + 1], {a: 2 * v + 1, b: 2 * v, d: 2 * v + 1}


def conditions(S, n):
    """conditions on values that come before or after"""
    a, b, c, d = n[:4]
    f, g = S.bits('f', 1), S.bits('g', 7)
    x, y = S.bits('x', 16), S.bits('y', 8)
    attrs = {a: uint_field(where=bytes_ref[0].bits[0]),
             b: uint_field(where=bytes_ref[0].bits[1:8]),
             c: be_uint_field(where=bytes_ref[1:3], pack_if=field(a), unpack_if=field(a)),
             d: be_uint_field(where=bytes_ref[1 + 2 * field(a):2 + 2 * field(a)], pack_if=field(b) > 4, unpack_if=field(b) > 4)}
    hf, hg = S.conc(f != 0), S.conc(g > 4)
    return (attrs, {a: f, b: g, c: x, d: y}, [f | (g << 1)] + (be(x, 2) if hf else []) + ([y] if hg else []),
            {c: x if hf else None, d: y if hg else None})


def after_functions(S, n):
    """functions of the object see the fields they were declared to come after"""
    a, b, c, d = n[:4]
    k, on = S.choice('k', (0, 2)), S.choice('on', (0, 1))
    fa = be_uint_field(where=bytes_ref[0])
    fd = uint_field(where=bytes_ref[1].bits[0:2])
    fb = list_field(type=b_uint8, where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:],
                    n=num_ref(member_func_ref(lambda self: getattr(self, a))), unpack_after=fa)
    fc = le_uint_field(where=bytes_ref[after_ref(fb):after_ref(fb) + 2], unpack_after=[fd, fa],
                       unpack_if=member_func_ref(lambda self: getattr(self, d) > getattr(self, a) - getattr(self, a)),
                       pack_if=member_func_ref(lambda self: getattr(self, d) > 0))
    l = [S.bits('l%d' % i, 8) for i in range(k)]
    x = S.bits('x', 16)
    return ({a: fa, b: fb, c: fc, d: fd}, {a: k, b: l, c: x, d: on}, [k, on] + l + (le(x, 2) if on else []),
            {c: x if on else None})


class Short(Buffer):
    v = be_uint_field(where=bytes_ref[0])


class Long(Buffer):
    v = le_uint_field(where=bytes_ref[0:3])


def selections(S, n):
    a, b, c, d = n[:4]
    kind, k2 = S.choice('kind', (0, 1)), S.choice('kind2', (0, 1))
    v, w = S.bits('v', 24 if kind else 8), S.bits('w', 24 if k2 else 8)
    fa = uint_field(where=bytes_ref[0].bits[7])
    fb = uint_field(where=bytes_ref[0].bits[0])
    fc = buffer_field(type=Short, where=bytes_ref[1:], unpack_after=fa,
                      unpack_selector=lambda self, *args, **kw: Long if getattr(self, a) else Short)
    fd = buffer_field(type=Short, where=bytes_ref[after_ref(fc):], unpack_after=[fb],
                      unpack_selector=lambda self, *args, **kw: Long if getattr(self, b) else Short)
    one, two = (Long if kind else Short)(v=v), (Long if k2 else Short)(v=w)
    return ({a: fa, b: fb, c: fc, d: fd}, {a: kind, b: k2, c: one, d: two},
            [(kind << 7) | k2] + le(v, 3 if kind else 1) + le(w, 3 if k2 else 1),
            {c: lambda got: type(got) is type(one) and S.eq(got.v, v), d: lambda got: type(got) is type(two) and S.eq(got.v, w)})


def sizes(S, n):
    """total size, and a position that depends on two fields"""
    a, b, c, d = n[:4]
    p, k = S.choice('p', (3, 5)), S.choice('k', (1, 2))
    x = S.bytearray('x', k)
    attrs = {a: be_uint_field(where=bytes_ref[2], set_before_pack=total_size),
             b: be_uint_field(where=bytes_ref[0]),
             c: be_uint_field(where=bytes_ref[1], set_before_pack=len_ref(getattr(self_ref, d))),
             d: bytearray_field(where=bytes_ref[field(b):field(b) + field(c)])}
    return attrs, {b: p, d: x}, [p, k, p + k] + [0] * (p - 3) + list(x), {a: p + k, c: k}


def decoded(S, n):
    """values computed after unpacking, one from another"""
    a, b, c, d = n[:4]
    v, w = S.bits('v', 8), S.bits('w', 8)
    fa = be_uint_field(where=bytes_ref[0], set_before_pack=lambda self: v, set_after_unpack=lambda x: x + 300)
    fb = be_uint_field(where=bytes_ref[1], set_before_pack=lambda self: w, set_after_unpack=field(a) + 1)
    fc = be_uint_field(where=bytes_ref[2], set_before_pack=0, set_after_unpack=field(d) - field(b), unpack_if=field(a) > 310)
    fd = be_uint_field(where=bytes_ref[3], set_before_pack=9)
    has = S.conc(v > 10)
    return ({a: fa, b: fb, c: fc, d: fd}, {}, [v, w, 0, 9],
            {a: v + 300, b: v + 301, c: (9 - (v + 301)) if has else None, d: 9})


def absent(S, n):
    """fields that refer to one that is not there"""
    a, b, c = n[:3]
    x, y, z = S.bits('x', 8), S.bits('y', 8), S.bits('z', 8)
    f = S.choice('f', (0, 1))
    fa = uint_field(where=bytes_ref[0].bits[0])
    fb = be_uint_field(where=bytes_ref[1], unpack_if=fa, pack_if=fa)
    fc = be_uint_field(where=bytes_ref[2 + 0 * fb], unpack_after=[fb, fa])
    return {a: fa, b: fb, c: fc}, {a: f, b: x, c: z}, [f, x if f else 0, z], {b: x if f else None}


LAYOUTS = [lengths, three_lengths, afters, computed, conditions, after_functions, selections, sizes, decoded, absent]


def names_any(S, cfg):
    f, perm = cfg
    attrs, values, want, after = f(S, perm)
    split = S.choice('inherits', (0, 1, 2))
    if not split:
        T = make_buffer(attrs)
    else:
        # the same fields, some of them in a base class
        names = sorted(attrs)
        base = make_buffer(dict((k, attrs[k]) for k in (names[::2] if split == 1 else names[1::2])))
        T = type(base)('Derived', (base,), dict((k, attrs[k]) for k in (names[1::2] if split == 1 else names[::2])))
    o = T(**values)
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bytes')
    S.check(o.calc_byte_size() == len(want), 'computed size')
    expect = dict(values)
    expect.update(after)
    t = T()
    used = t.unpack(bytes(bytearray(want)) + S.bytes('junk', 4))
    S.check(used == len(want), 'consumed size')
    for k in sorted(expect):
        got, w = getattr(t, k), expect[k]
        if callable(w):
            S.check(w(got), 'unpacked value')
        elif w is None:
            S.check(got is None, 'absent value')
        else:
            S.check(S.eq(got, w), 'unpacked value')


def styles(S, cfg):
    """the same reference given in different ways"""
    style, = cfg

    def ref(name, fields):
        if style == 'direct':
            return fields[name]
        if style == 'name':
            return num_ref(getattr(self_ref, name))
        if style == 'method':
            return num_ref(getattr(self_ref, 'get_' + name)())
        if style == 'argument':
            return num_ref(self_ref.same(getattr(self_ref, name)))
        if style == 'function':
            return num_ref(member_func_ref(lambda self: getattr(self, name)))
        if style == 'mixed':
            return fields[name] + 0 * num_ref(getattr(self_ref, name))
    fields = {}
    fields['n'] = be_uint_field(where=bytes_ref[0])
    fields['m'] = uint_field(where=bytes_ref[1].bits[2:5])
    after = [fields['n'], fields['m']]
    fields['d'] = bytearray_field(where=bytes_ref[2:2 + ref('n', fields)], unpack_after=after)
    fields['e'] = be_uint_field(where=bytes_ref[2 + ref('n', fields):3 + ref('n', fields)], unpack_after=after,
                                pack_if=ref('m', fields) > 2, unpack_if=ref('m', fields) > 2)
    fields['z'] = be_uint_field(where=bytes_ref[6 + ref('m', fields):8 + ref('m', fields)], unpack_after=after)
    fields['get_n'] = lambda self: self.n
    fields['get_m'] = lambda self: self.m
    fields['same'] = lambda self, v: v
    # method and function styles read the object, so the fields they read are processed first
    if style in ('method', 'function'):
        fields['p'] = fields.pop('d')
        fields['q'] = fields.pop('e')
    T = make_buffer(fields)
    d, e = ('p', 'q') if style in ('method', 'function') else ('d', 'e')
    n, m = S.choice('n', (0, 2)), S.bits('m', 3)
    m = S.conc(m)
    x, y, z = S.bytearray('x', n), S.bits('y', 8), S.bits('z', 16)
    o = T(**{'n': n, 'm': m, d: x, e: y, 'z': z})
    want = [n, m << 2] + list(x) + ([y] if m > 2 else [])
    want += [0] * (6 + m - len(want)) + be(z, 2)
    S.check(same_bytes(S, o.pack(), want), 'packed bytes')
    t = T()
    used = t.unpack(bytes(bytearray(want)) + S.bytes('junk', 2))
    S.check(used == len(want), 'consumed size')
    S.check(S.and_(t.n == n, t.m == m, S.eq(getattr(t, d), x), S.eq(t.z, z)), 'values')
    S.check(S.eq(getattr(t, e), y) if m > 2 else getattr(t, e) is None, 'conditional value')


def first_those(S, cfg):
    """fields unpacked after others, however these are given, see all of them"""
    how, names = cfg
    x, y, z, a, b = names
    fields = {}
    fields[x] = be_uint_field(where=bytes_ref[0])
    fields[y] = be_uint_field(where=bytes_ref[1])
    fields[z] = be_uint_field(where=bytes_ref[2], unpack_after=fields[y] if how in ('chain', 'chained list') else None)
    three = [fields[x], fields[y], fields[z]]
    after = {'list': three, 'tuple': tuple(three), 'backward': (three[2], three[1], three[0]), 'repeated': [three[1]] + three + [three[0]],
             'chain': (three[0], three[2]), 'chained list': [three[2], three[0]]}[how]

    def total(self):
        return getattr(self, x) + getattr(self, y) * 2 + getattr(self, z) * 4
    fields[a] = bytearray_field(where=bytes_ref[3:3 + num_ref(member_func_ref(total))], unpack_after=after)
    fields[b] = be_uint_field(where=bytes_ref[10], unpack_if=member_func_ref(lambda self: total(self) > 3 and len(getattr(self, a)) > 5),
                              pack_if=member_func_ref(lambda self: total(self) > 3 and len(getattr(self, a)) > 5), unpack_after=(fields[a],))
    T = make_buffer(fields)
    v = [S.bits('v%d' % i, 1) for i in range(3)]
    data = S.bytes('data', 8)
    t = T()
    t.unpack(bytes(bytearray(v)) + data)
    n = S.conc(v[0] + v[1] * 2 + v[2] * 4)
    S.check(S.and_(*[S.eq(getattr(t, k), w) for k, w in zip(names, v)]), 'values')
    S.check(S.eq(bytes(getattr(t, a)), data[:n]), 'a place that depends on all of them')
    S.check(S.eq(getattr(t, b), data[7]) if n > 5 else getattr(t, b) is None, 'a condition that depends on all of them')
    S.check(same_bytes(S, t.pack(), v + list(data[:n]) + ([0] * (7 - n) + [data[7]] if n > 5 else [])), 'packed bytes')


def attributes(S, cfg):
    """references to plain attributes and properties of the object"""
    class T(Buffer):
        limit = 3
        # names that begin or end like those of the attributes
        limits = be_uint_field(where=bytes_ref[9])
        doubled = be_uint_field(where=bytes_ref[8])
        the_limit = be_uint_field(where=bytes_ref[10])
        z = be_uint_field(where=bytes_ref[0])
        a = bytearray_field(where=bytes_ref[1:1 + num_ref(self_ref.limit)])
        b = be_uint_field(where=bytes_ref[1 + num_ref(self_ref.limit):2 + num_ref(self_ref.limit)],
                          set_before_pack=self_ref.double)

        @property
        def double(self):
            return self.z // 2
    z, extra = S.bits('z', 8), S.choice('extra', (0, 2))
    d = S.bytearray('d', 3 + extra)
    more = list(S.bytes('more', 3))
    o = T(z=z, a=d, doubled=more[0], limits=more[1], the_limit=more[2])
    o.limit = 3 + extra
    S.check(same_bytes(S, o.pack(), [z] + list(d) + [z // 2] + [0] * (3 - extra) + more), 'packed bytes')
    x = S.bytes('x', 11)
    t = T()
    t.limit = 3 + extra
    t.unpack(x)
    S.check(S.and_(S.eq(t.z, x[0]), S.eq(t.a, x[1:4 + extra]), S.eq(t.b, x[4 + extra])), 'unpacked values')


def class_names(S, cfg):
    """a class may have any name, also that of the library's own classes"""
    for name in ('Buffer', 'BufferType', 'object', 'T', 'byte_size', '_'):
        T = type(Buffer)(name, (Buffer,), dict(a=be_uint_field(where=bytes_ref[0:2]), b=uint_field(where=bytes_ref[2], default=3)))
        D = type(Buffer)(name, (T,), dict(c=bytearray_field(where=bytes_ref[3:5])))
        a, c, x = S.bits('a' + name, 16), S.bytearray('c' + name, 2), S.bytes('x' + name, 5)
        S.check((T.byte_size, D.byte_size) == (3, 5), 'sizes of ' + name)
        S.check(same_bytes(S, T(a=a).pack(), be(a, 2) + [3]), 'packed bytes of ' + name)
        S.check(same_bytes(S, D(a=a, c=c).pack(), be(a, 2) + [3] + list(c)), 'packed bytes of derived ' + name)
        d = D()
        S.check(d.unpack(x) == 5, 'consumed size of ' + name)
        S.check(S.and_(S.eq(d.a, (x[0] << 8) | x[1]), S.eq(d.b, x[2]), S.eq(d.c, x[3:5])), 'values of ' + name)


def declared_again(S, cfg):
    """a field that a derived class declares again replaces the inherited one, also for the inherited fields that refer to it"""
    def base(names):
        n, s, t, u, w = names
        count = be_uint_field(where=bytes_ref[0])
        text = bytearray_field(where=bytes_ref[1:1 + count])
        tail = be_uint_field(where=bytes_ref[after_ref(text):after_ref(text) + 2], unpack_after=text)
        last = be_uint_field(where=bytes_ref[after_ref(tail)], default=5)
        # refers to the value only
        more = bytearray_field(where=bytes_ref[20:20 + count])
        return {n: count, s: text, t: tail, u: last, w: more}
    names, levels = cfg
    n, s, t, u, w = names
    C = make_buffer(base(names))
    size = be_uint_field(where=bytes_ref[0:2], set_before_pack=len_ref(getattr(self_ref, s)))
    again = {n: size, s: bytearray_field(where=bytes_ref[3:3 + size]), u: be_uint_field(where=bytes_ref[2], default=9)}
    if levels == 1:
        D = type(C)('D', (C,), again)
    elif levels == 2:
        M = type(C)('M', (C,), {n: be_uint_field(where=bytes_ref[1]), u: again.pop(u)})
        D = type(C)('D', (M,), again)
    else:
        M = type(C)('M', (C,), {s: again.pop(s)})
        L = type(C)('L', (C,), {s: bytearray_field(where=bytes_ref[7:9])})
        D = type(C)('D', (M, L), again)
    k = S.choice('k', (0, 1, 3))
    wv = S.bytearray('w', k)
    d, tv, uv, given = S.bytearray('d', k), S.bits('t', 16), S.bits('u', 8), S.bool('given')
    values = {s: d, t: tv, w: wv}
    if given:
        values[u] = uv
    o = D(**values)
    last = uv if given else 9
    S.check(same_bytes(S, o.pack()[:5 + k], [0, k, last] + list(d) + be(tv, 2)), 'packed bytes')
    S.check(same_bytes(S, o.pack()[20:], list(wv)), 'packed bytes of a field of the base class')
    S.check(o.calc_byte_size() == 20 + k, 'size')
    x = S.bytes('x', 23)
    S.assume(S.and_(S.eq(x[0], 0), x[1] <= 3))
    y = D()
    m = S.conc(x[1])
    S.check(y.unpack(x) == 20 + m, 'consumed size')
    S.check(S.and_(S.eq(getattr(y, n), m), S.eq(getattr(y, s), x[3:3 + m]), S.eq(getattr(y, u), x[2]),
                   S.eq(getattr(y, t), (x[3 + m] << 8) | x[4 + m]), S.eq(getattr(y, w), x[20:20 + m])), 'unpacked values')
    b = C(**{n: k, s: d, t: tv, w: wv})
    S.check(same_bytes(S, b.pack()[:4 + k], [k] + list(d) + be(tv, 2) + [5]), 'packed bytes of the base class')


def fixed_again(S, cfg):
    """the same where all places are known: the size is that of the fields that there are"""
    class C(Buffer):
        x = be_uint_field(where=bytes_ref[5:7])
        y = bytearray_field(where=bytes_ref[2:4])
    again = dict(x=be_uint_field(where=bytes_ref[0:2])) if cfg == 'x' else dict(x=le_uint_field(where=bytes_ref[0:2]), y=bytearray_field(where=bytes_ref[2:5]))
    D = type(Buffer)('D', (C,), again)
    size = 4 if cfg == 'x' else 5
    v, d, x = S.bits('v', 16), S.bytearray('d', size - 2), S.bytes('x', size)
    S.check((C.byte_size, D.byte_size) == (7, size), 'sizes')
    S.check(same_bytes(S, D(x=v, y=d).pack(), (be(v, 2) if cfg == 'x' else be(v, 2)[::-1]) + list(d)), 'packed bytes')
    o = D()
    S.check(o.unpack(x) == size, 'consumed size')
    S.check(S.and_(S.eq(o.x, (x[0] << 8) | x[1] if cfg == 'x' else (x[1] << 8) | x[0]), S.eq(o.y, x[2:])), 'unpacked values')


def obligations(tier):
    full = tier == 'thorough'
    obs = []
    for f in LAYOUTS:
        k = 3 if f in (lengths, absent) else 4
        perms = list(itertools.permutations('abcd'[:k] if not full else 'bdfh'[:k]))
        if not full and k == 4:
            perms = perms[::2] + perms[1::6]
        perms += [('aa', 'a', 'aaa', 'b'), ('b', 'ab', 'a', 'abb'), ('ab', 'b', 'bab', 'ba')][:1 + full + (f in (computed, conditions))]
        unusual = [('_a', '__c', '_', 'B'), ('obj', 'type', 'n', 'index'), ('z_', '_Z', 'a1', 'a10'), ('value', 'default', 'ctx', 'fields')]
        at = LAYOUTS.index(f)
        perms += unusual if full else [unusual[0][at % 3:] + unusual[0][:at % 3], unusual[1 + at % 3]]
        obs += group('%s' % f.__name__.replace('_', '-'), names_any, [(f, p) for p in perms], 12)
    obs += group('styles', styles, [(s,) for s in ('direct', 'name', 'method', 'argument', 'function', 'mixed')], 3)
    hows = ('list', 'tuple', 'backward', 'repeated', 'chain', 'chained list')
    obs += group('first-those', first_those, [(h, n) for h in hows for n in (('p', 'q', 'r', 'a', 'b'), ('c', 'b', 'd', 'a', 'e'), ('a', 'b', 'c', 'q', 'p'))], 6)
    obs += group('kinds', anykind.after_another, [(k, n) for k in anykind.KINDS for n in ('m', 'z')], 7)
    obs += group('declared-again', declared_again, [(n, l) for n in (('n', 's', 't', 'u', 'x'), ('z', 'c', 'b', 'a', 'd'), ('d', 'e', 'a', 'b', 'c')) for l in (1, 2, 3)], 3)
    obs += group('fixed-again', fixed_again, ['x', 'both'], 2)
    obs += [Ob('attributes', attributes), Ob('class-names', class_names)]
    obs += group('arranged', roundtrip, [(c, False) for c in composeb.cases(1, composeb.NAMINGS, None if full else composeb.FEW, composeb.FEW, inside=composeb.FEW_INSIDE, last=full)], 1)
    return obs
