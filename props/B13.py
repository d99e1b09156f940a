"""Inherited buffer fields behave as if declared together."""
from .dynamic import *
from . import composeb
from .B06 import roundtrip

BOUNDS = ('up to 7 fields over up to four classes (chains, two bases, empty subclasses), every way of distributing them '
          'that is listed; all values / all input bytes symbolic')
BOUNDS += '; buffers of any two of 32 kinds of part, each right after the one before, names in several orders (props/composeb.py; quick: fewer of them)'


def f_a():
    return be_uint_field(where=bytes_ref[0:2])


def f_b():
    return uint_field(where=bytes_ref[2].bits[0:5])


def f_c():
    return uint_field(where=bytes_ref[2].bits[5:8] + bytes_ref[3].bits[2:4])


def f_d():
    return int_field(where=bytes_ref[4:6], sign='signed', endian='little', default=-7)


def f_e():
    return bytearray_field(where=bytes_ref[6:9], default=bytearray(b'xyz'))


FIELDS = dict(a=f_a, b=f_b, c=f_c, d=f_d, e=f_e)
SPLITS = [('ab', 'cde'), ('cde', 'ab'), ('e', 'a', 'bcd'), ('bd', 'ace'), ('abcde', ''), ('', 'abcde'), ('ce', '', 'abd', ''),
          ('a', 'b', 'c', 'd', 'e'), ('e', 'd', 'c', 'b', 'a'), ('d', 'e', '', 'abc'), ('ace', 'd', 'b')]


def chain(split):
    cls = Buffer
    classes = []
    for i, names in enumerate(split):
        cls = type(Buffer)('L%d' % i, (cls,), dict((n, FIELDS[n]()) for n in names))
        classes.append(cls)
    return classes


def mixed(split):
    """two independent bases and a class deriving from both"""
    bases = [type(Buffer)('M%d' % i, (Buffer,), dict((n, FIELDS[n]()) for n in names)) for i, names in enumerate(split[:2])]
    rest = ''.join(split[2:])
    return bases + [type(Buffer)('MM', tuple(bases), dict((n, FIELDS[n]()) for n in rest))]


def sample(S):
    vs = dict(a=S.bits('a', 16), b=S.bits('b', 5), c=S.bits('c', 5), d=S.int('d', -(1 << 15), (1 << 15) - 1),
              e=S.bytearray('e', 3))
    want = be(vs['a'], 2) + [vs['b'] | ((vs['c'] & 7) << 5), (vs['c'] >> 3) << 2] + le(vs['d'], 2) + list(vs['e'])
    return vs, want


def static(S, cfg):
    split, kind = cfg
    classes = chain(split) if kind == 'chain' else mixed(split)
    T = classes[-1]
    vs, want = sample(S)
    S.check(T.byte_size == 9, 'static size')
    given = S.choice('given', ('all', 'none', 'some'))
    if given == 'all':
        o = T(**vs)
    elif given == 'some':
        o = T(a=vs['a'], e=vs['e'])
        S.check(o.b is None and o.c is None and o.d == -7, 'defaults')
        o.b, o.c, o.d = vs['b'], vs['c'], vs['d']
    else:
        o = T()
        S.check(o.a is None and o.d == -7 and o.e == b'xyz', 'defaults')
        for k in 'edcba':
            setattr(o, k, vs[k])
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bytes')
    S.check(o.calc_byte_size() == 9, 'computed size')
    x = S.bytes('x', 9)
    t = T()
    S.check(t.unpack(x) == 9, 'consumed size')
    S.check(S.and_(S.eq(t.a, bytes_value(x[0:2], False)), S.eq(t.b, x[2] & 31), S.eq(t.c, (x[2] >> 5) | (((x[3] >> 2) & 3) << 3)),
                   S.eq(t.d, signed(bytes_value(x[4:6], True), 16)), S.eq(t.e, x[6:9])), 'unpacked values')


def bases_too(S, cfg):
    """a class keeps working by itself after others were derived from it; short input is refused in any class"""
    split, = cfg
    classes = chain(split)
    vs, want = sample(S)
    ends = dict(a=2, b=3, c=4, d=6, e=9)
    have = ''
    x = S.bytes('x', 9)
    for i, cls in enumerate(classes):
        have += split[i]
        size = max([0] + [ends[n] for n in have])
        o = cls(**dict((n, vs[n]) for n in have))
        data = o.pack()
        own = dict(a=[0, 1], b=[2], c=[2, 3], d=[4, 5], e=[6, 7, 8])
        mask = [0] * 9
        for n in have:
            for p in own[n]:
                mask[p] = mask[p] | {'b': 31, 'c': 0xe0 if p == 2 else 12}.get(n, 255)
        S.check(same_bytes(S, data, [w & m for w, m in zip(want, mask)][:size]), 'packed bytes of ' + cls.__name__)
        t = cls()
        used = t.unpack(x)
        S.check(-(-used * 8 // 8) == size if 'e' in have or 'd' in have else used <= size, 'consumed size')
        for n in have:
            S.check(S.eq(getattr(t, n), dict(a=bytes_value(x[0:2], False), b=x[2] & 31,
                                             c=(x[2] >> 5) | (((x[3] >> 2) & 3) << 3),
                                             d=signed(bytes_value(x[4:6], True), 16), e=x[6:9])[n]), 'value ' + n)
        others = [n for n in 'abcde' if n not in have]
        S.check(not any(hasattr(t, n) for n in others), 'no other fields')
        for n in have:
            if n in 'ad':
                r = S.outcome(cls().unpack, x[:ends[n] - 1])
                S.check(not r.ok, 'short input refused')


def two_children(S, cfg):
    """siblings do not see each other's fields"""
    class Base(Buffer):
        kind = be_uint_field(where=bytes_ref[0])
        size = be_uint_field(where=bytes_ref[1], set_before_pack=total_size)

    class One(Base):
        v = be_uint_field(where=bytes_ref[2:4])

    class Two(Base):
        v = le_uint_field(where=bytes_ref[2:6])
        w = be_uint_field(where=bytes_ref[6])

    class Three(Two):
        u = be_uint_field(where=bytes_ref[7:9])
    k, v, w, u = S.bits('k', 8), S.bits('v', 16), S.bits('w', 8), S.bits('u', 16)
    first = S.choice('first', range(3))
    todo = [(One, dict(v=v), [k, 4] + be(v, 2)), (Two, dict(v=v, w=w), [k, 7] + le(v, 4) + [w]),
            (Three, dict(v=v, w=w, u=u), [k, 9] + le(v, 4) + [w] + be(u, 2))]
    for cls, vs, want in todo[first:] + todo[:first]:
        o = cls(kind=k, **vs)
        data = o.pack()
        S.check(same_bytes(S, data, want), 'packed bytes of ' + cls.__name__)
        t = cls()
        S.check(t.unpack(bytes(data) + S.bytes('junk' + cls.__name__, 1)) == len(want), 'consumed size')
        S.check(S.and_(S.eq(t.size, len(want)), S.eq(t.kind, k), *[S.eq(getattr(t, n), vs[n]) for n in vs]), 'values')
    b = Base()
    S.check(b.unpack(bytes(bytearray([k, 2]))) == 2, 'consumed size of the base')
    S.check(same_bytes(S, Base(kind=k).pack(), [k, 2]), 'packed bytes of the base')


def dynamic(S, cfg):
    """positions that refer to fields of the base class"""
    levels, = cfg

    class Base(Buffer):
        l = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.z_data))
        k = be_uint_field(where=bytes_ref[1])

    if levels == 1:
        class T(Base):
            z_data = bytearray_field(where=bytes_ref[2:2 + Base.l])
            a_end = le_uint_field(where=bytes_ref[after_ref(z_data):after_ref(z_data) + 2])
    elif levels == 2:
        class Mid(Base):
            z_data = bytearray_field(where=bytes_ref[2:2 + Base.l])

        class T(Mid):
            a_end = le_uint_field(where=bytes_ref[after_ref(Mid.z_data):after_ref(Mid.z_data) + 2])
    else:
        class Mid(Base):
            z_data = bytearray_field(where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:2 + Base.l])

        class Mid2(Mid):
            def helper(self):
                return self.l + 2

        class T(Mid2):
            a_end = le_uint_field(where=bytes_ref[2 + Base.l:4 + Base.l])
    n = S.choice('n', (0, 1, 3))
    d, k, e = S.bytearray('d', n), S.bits('k', 8), S.bits('e', 16)
    want = [n, k] + list(d) + le(e, 2)
    o = T(z_data=d, k=k, a_end=e)
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bytes')
    S.check(o.calc_byte_size() == len(want), 'computed size')
    t = T()
    S.check(t.unpack(bytes(data) + S.bytes('junk', 2)) == len(want), 'consumed size')
    S.check(S.and_(S.eq(t.z_data, d), S.eq(t.k, k), S.eq(t.a_end, e), S.eq(t.l, n)), 'values')
    S.check(T.byte_size is None, 'no static size')


def nested(S, cfg):
    """inherited classes as element and nested types"""
    class Base(Buffer):
        hi = be_uint_field(where=bytes_ref[2:4])

    class E(Base):
        lo = be_uint_field(where=bytes_ref[0:2])

    class F(E):
        pass

    class T(Buffer):
        es = list_field(type=F, where=bytes_ref[4:])
        one = buffer_field(type=E, where=bytes_ref[0:4])
    x = S.bytes('x', 12)
    t = T()
    S.check(t.unpack(x) == 12, 'consumed size')
    S.check(len(t.es) == 2, 'count')
    for e, y in zip([t.one] + t.es, (x[0:4], x[4:8], x[8:12])):
        S.check(S.and_(S.eq(e.lo, bytes_value(y[0:2], False)), S.eq(e.hi, bytes_value(y[2:4], False))), 'element')
    S.check(S.eq(bytes(t.pack()), x), 'packed again')


def constructors(S, cfg):
    """user-written constructors in base and subclass"""
    class Base(Buffer):
        a = be_uint_field(where=bytes_ref[0:2])
        b = be_uint_field(where=bytes_ref[2], default=9)

        def __init__(self, a, **kw):
            super(Base, self).__init__(**kw)
            self.a = a

    class T(Base):
        c = le_uint_field(where=bytes_ref[3:5])

        def __init__(self, a, c=0x102, **kw):
            super(T, self).__init__(a + 1, c=c, **kw)
    a, b, c = S.int('a', 0, 65534), S.bits('b', 8), S.bits('c', 16)
    S.check(same_bytes(S, T(a).pack(), be(a + 1, 2) + [9] + le(0x102, 2)), 'defaults')
    S.check(same_bytes(S, T(a, c).pack(), be(a + 1, 2) + [9] + le(c, 2)), 'given')
    S.check(same_bytes(S, T(a, c, b=b).pack(), be(a + 1, 2) + [b] + le(c, 2)), 'given for the base')
    S.check(same_bytes(S, Base(a, b=b).pack(), be(a, 2) + [b]), 'base')


def mixins(S, cfg):
    """fields declared in classes that are not buffers, by themselves or used by several buffers"""
    how = cfg

    class Head(object):
        a = be_uint_field(where=bytes_ref[0:2], default=7)
        n = be_uint_field(where=bytes_ref[2], set_before_pack=len_ref(self_ref.d))

    class Tail(object):
        d = bytearray_field(where=bytes_ref[3:3 + Head.n])
    if how == 'mixin':
        class One(Head, Tail, Buffer):
            x = be_uint_field(where=bytes_ref[after_ref(Tail.d)])

        class Two(Buffer, Tail, Head):
            w = le_uint_field(where=bytes_ref[after_ref(Tail.d):after_ref(Tail.d) + 2])
    elif how == 'derived':
        class Base(Head, Tail, Buffer):
            pass

        class One(Base):
            x = be_uint_field(where=bytes_ref[after_ref(Base.d)])

        class Other(Head, Buffer):
            pass

        class Two(Tail, Other):
            w = le_uint_field(where=bytes_ref[after_ref(Tail.d):after_ref(Tail.d) + 2])
    else:
        class One(Buffer):
            a, n, d = Head.a, Head.n, Tail.d
            x = be_uint_field(where=bytes_ref[after_ref(d)])

        class Two(Buffer):
            a, n, d = One.a, One.n, One.d
            w = le_uint_field(where=bytes_ref[after_ref(d):after_ref(d) + 2])
    a, x, w = S.bits('a', 16), S.bits('x', 8), S.bits('w', 16)
    d = S.bytearray('d', S.choice('n', (0, 1, 3)))
    todo = [(One, dict(x=x), [x]), (Two, dict(w=w), le(w, 2))]
    if S.choice('order', (0, 1)):
        todo.reverse()
    for cls, vs, end in todo:
        want = be(a, 2) + [len(d)] + list(d) + end
        o = cls(a=a, d=d, **vs)
        S.check(same_bytes(S, o.pack(), want), 'packed bytes of ' + cls.__name__)
        S.check(o.calc_byte_size() == len(want), 'computed size')
        S.check(cls().a == 7, 'default')
        t = cls()
        S.check(t.unpack(bytes(bytearray(want)) + S.bytes('junk' + cls.__name__, 1)) == len(want), 'consumed size')
        S.check(S.and_(S.eq(t.a, a), S.eq(t.n, len(d)), S.eq(t.d, d), *[S.eq(getattr(t, k), vs[k]) for k in vs]), 'values')
        S.check(repr(t).count('=') == 4, 'each field once')


def sized(S, cfg):
    """a class that adds no fields to a class of declared size has that size as well"""
    kind, size = cfg

    class Base(Buffer):
        byte_size = size
        a = be_uint_field(where=bytes_ref[0:2])
        if kind == 'dynamic':
            n = be_uint_field(where=bytes_ref[2], set_before_pack=len_ref(self_ref.d))
            d = bytearray_field(where=bytes_ref[3:3 + n])
        else:
            d = bytearray_field(where=bytes_ref[2:4])

    class Methods(object):
        def twice(self):
            return self.a * 2

    class One(Base):
        def half(self):
            return self.a // 2

    class Two(Methods, One):
        pass

    class Three(Two):
        byte_size = size + 1
    n = S.choice('n', (0, 2)) if kind == 'dynamic' else 2
    a, d = S.bits('a', 16), S.bytearray('d', n)
    body = be(a, 2) + ([n] if kind == 'dynamic' else []) + list(d)
    for cls in (Base, One, Two, Three):
        total = size + (cls is Three)
        S.check(cls.byte_size == total, 'size of ' + cls.__name__)
        o = cls(a=a, d=d)
        S.check(o.calc_byte_size() == total, 'computed size')
        S.check(same_bytes(S, o.pack(), body + [0] * (total - len(body))), 'packed bytes of ' + cls.__name__)
        t = cls()
        S.check(t.unpack(o.pack()) == total, 'consumed size')
        S.check(S.and_(S.eq(t.a, a), S.eq(t.d, d)), 'values')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('static', static, [(s, 'chain') for s in SPLITS] + [(s, 'mixed') for s in SPLITS if len(s) >= 2], 3)
    obs += group('bases-too', bases_too, [(s,) for s in SPLITS], 2)
    obs += [Ob('two-children', two_children)]
    obs += group('dynamic', dynamic, [(1,), (2,), (3,)], 1)
    obs += group('arranged', roundtrip, [(c, False) for c in composeb.cases(1, ('forward', 'backward') if full else ('forward',), None if full else composeb.FEW, composeb.FEW,
                                                                            ('inherited', 'reversed'), composeb.FEW_INSIDE)], 1)
    obs += [Ob('nested', nested), Ob('constructors', constructors)]
    obs += group('mixins', mixins, ['mixin', 'derived', 'alias'], 1)
    obs += group('sized', sized, [(k, n) for k in ('fixed', 'dynamic') for n in (5, 6, 8)], 3)
    return obs
