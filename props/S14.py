"""Constructing structs: given values, else private copies of the defaults; any inheritance, own constructors."""
from .lib import *
from .structs import *
from infi.instruct.array import VarSizeArrayMarshal, FixedSizeArrayMarshal
from infi.instruct.base import UNBOUNDED_MIN_MAX

BOUNDS = ('structs of 1..4 levels of inheritance with 8 kinds of fields (numbers, strings, bits, lists, lists of structs, structs, lazy and optional), any default and given numbers of up to 8 bits, '
          'every choice of which fields are given, 9 kinds of constructors; the default of each of 22 macros; histories of up to 3 instances and 3 changes (thorough: 4)')


def num(S, name):
    return S.bits(name, 8)


def make_classes(S):
    """three levels, each adding fields; the defaults are arbitrary values"""
    d = dict((n, num(S, 'default_' + n)) for n in ('a', 'c', 'e', 'g'))

    class Inner(Struct):
        _fields_ = [UBInt8('i', 4), Field('il', VarSizeArrayMarshal(UBInt8, UBInt8), [6])]

    class Base(Struct):
        _fields_ = [UBInt8('a', d['a']), UBInt8('b'), Field('l', VarSizeArrayMarshal(UBInt8, UBInt8), [1, d['c']])]

    class Same(Base):
        pass

    class Middle(Same):
        _fields_ = Base._fields_ + [Field('st', Inner, Inner(i=d['e'])), Lazy(UBInt16('z', d['g']), UBInt8('y', 2))]

    class Leaf(Middle):
        _fields_ = Middle._fields_ + [BitFields(BitField('p', 3, 5), BitFlag('q', 1), BitPadding(4)), OptionalField('o', UBInt8, lambda o, s, c: o.q == 1),
                                      Field('ss', VarSizeArrayMarshal(UBInt8, Inner), [Inner(), Inner(i=1)])]
    return d, Inner, Base, Same, Middle, Leaf


def inner_bytes(i, il):
    return [i, len(il)] + list(il)


def state(S, t):
    """what an instance holds, by field"""
    out = {}
    for n in ('a', 'b', 'z', 'y', 'p', 'q', 'o'):
        if hasattr(t, n):
            out[n] = getattr(t, n)
    if hasattr(t, 'l'):
        out['l'] = list(t.l)
    if hasattr(t, 'st'):
        out['st'] = (t.st.i, list(t.st.il))
    if hasattr(t, 'ss'):
        out['ss'] = [(x.i, list(x.il)) for x in t.ss]
    return out


def same_state(S, a, b):
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and S.and_(*[same_state(S, a[k], b[k]) for k in sorted(a)])
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and S.and_(*[same_state(S, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return S.eq(a, b)


def initial(S, d, level):
    want = dict(a=d['a'], b=None, l=[1, d['c']])
    if level > 1:
        want.update(st=(d['e'], [6]), z=d['g'], y=2)
    if level > 2:
        want.update(p=5, q=1, o=None, ss=[(4, [6]), (1, [6])])
    return want


def written(want):
    out = [want['a'], want['b'], len(want['l'])] + want['l']
    if 'st' in want:
        out += inner_bytes(*want['st']) + be(want['z'], 2) + [want['y']]
    if 'p' in want:
        out += [want['p'] + (want['q'] << 3)] + ([] if want['o'] is None else [want['o']]) + [len(want['ss'])]
        for i, il in want['ss']:
            out += inner_bytes(i, il)
    return out


def construct(S, cfg):
    """every choice of given and omitted fields"""
    level, groups, nones = cfg if len(cfg) == 3 else cfg + ('',)
    d, Inner, Base, Same, Middle, Leaf = make_classes(S)
    cls = (Base, Same, Middle, Leaf)[level]
    want = initial(S, d, level)
    kw = {}
    for n in groups:
        if n not in want:
            continue
        how = S.choice('give_' + n, (False, True, None) if n in nones else (False, True))
        if how is False:
            continue
        if how is None:
            want[n] = kw[n] = None
            continue
        if n == 'l':
            kw['l'] = [num(S, 'l%d' % i) for i in range(S.choice('n', range(3)))]
            want['l'] = list(kw['l'])
        elif n == 'st':
            i, j = num(S, 'st_i'), num(S, 'st_l')
            kw['st'] = Inner(i=i, il=[j, 2])
            want['st'] = (i, [j, 2])
        elif n == 'ss':
            i = num(S, 'ss_i')
            kw['ss'] = [Inner(i=i)]
            want['ss'] = [(i, [6])]
        elif n in 'pq':
            want[n] = kw[n] = S.bits(n, 3 if n == 'p' else 1)
        else:
            want[n] = kw[n] = num(S, n)
    given = dict(kw)
    t = cls(**kw)
    S.check(type(t) is cls, 'class')
    S.check(same_state(S, state(S, t), want), 'holds')
    S.check(sorted(kw) == sorted(given) and all(kw[k] is given[k] for k in given), "the caller's values are untouched")
    missing = [n for n in ('a', 'b', 'z', 'y', 'p', 'q') if n in want and want[n] is None]
    if missing:
        out = S.outcome(t.to_bytes)
        S.check(not out.ok and isinstance(out.exc, InstructError), 'numbers without a value are refused')
        S.check(same_state(S, state(S, t), want), 'still holds')
    for n, v in (('b', 3), ('a', 4), ('z', 5), ('y', 6), ('p', 7), ('q', 1)):
        if n in want and want[n] is None:
            setattr(t, n, v)
            want[n] = v
    S.check(same_bytes(S, t.to_bytes(), written(want)), 'written')
    S.check(cls.sizeof(t) == len(written(want)), 'size')
    u = cls(b=1)
    w = initial(S, d, level)
    w['b'] = 1
    S.check(same_state(S, state(S, u), w), 'next instance')


def change(S, t, k, op, v):
    """one change of an instance, its effect on the reference state k"""
    if op == 'attr':
        t.a = k['a'] = v
    elif op == 'append':
        t.l.append(v)
        k['l'] = k['l'] + [v]
    elif op == 'item':
        if len(t.l):
            t.l[0] = v
            k['l'] = [v] + k['l'][1:]
    elif op == 'clear':
        del t.l[:]
        k['l'] = []
    elif op == 'inner':
        t.st.i = v
        k['st'] = (v, k['st'][1])
    elif op == 'inner list':
        t.st.il.append(v)
        k['st'] = (k['st'][0], k['st'][1] + [v])
    elif op == 'lazy':
        t.z = k['z'] = v
    elif op == 'bits':
        t.p = k['p'] = v & 7
    elif op == 'element':
        t.ss[1].i = v
        k['ss'] = [k['ss'][0], (v, k['ss'][1][1])] + k['ss'][2:]
    elif op == 'element list':
        t.ss[0].il.append(v)
        k['ss'] = [(k['ss'][0][0], k['ss'][0][1] + [v])] + k['ss'][1:]
    elif op == 'elements':
        t.ss.append(type(t.ss[0])(i=v))
        k['ss'] = k['ss'] + [(v, [6])]


OPS = {1: ('attr', 'append', 'item', 'clear'), 2: ('append', 'inner', 'inner list', 'lazy'), 3: ('bits', 'element', 'element list', 'elements', 'inner list', 'clear')}


def history(S, cfg):
    """changes of one instance are seen in that instance only"""
    level, steps = cfg
    d, Inner, Base, Same, Middle, Leaf = make_classes(S)
    cls = (Base, Same, Middle, Leaf)[level]
    objs = [cls(), cls()]
    refs = [initial(S, d, level) for _ in objs]
    for i in range(steps):
        w = S.choice('which%d' % i, (0, 1))
        change(S, objs[w], refs[w], S.choice('op%d' % i, OPS[level]), num(S, 'v%d' % i))
        for t, k in zip(objs, refs):
            S.check(same_state(S, state(S, t), k), 'after a change')
    fresh = cls()
    S.check(same_state(S, state(S, fresh), initial(S, d, level)), 'new instance')
    for t, k in zip(objs, refs):
        t.b = k['b'] = 7
        if level > 2:
            t.o = k['o'] = 8
        S.check(same_bytes(S, t.to_bytes(), written(k)), 'written')
    sup = Base()
    S.check(same_state(S, state(S, sup), initial(S, d, 0)), 'instance of the base')


def reading(S, cfg):
    """instances that are read are separate from one another and from the defaults"""
    d, Inner, Base, Same, Middle, Leaf = make_classes(S)
    x, y, v = num(S, 'x'), num(S, 'y'), num(S, 'v')
    data = [x, y, 2, x, y] + inner_bytes(y, [x]) + [x, y, y]
    r = Middle.create_from_string(bytes(bytearray(data)))
    r2 = Middle.create_from_string(bytes(bytearray(data)))
    op = S.choice('op', OPS[2] + OPS[1])
    k = dict(a=x, b=y, l=[x, y], st=(y, [x]), z=x * 256 + y, y=y)
    k2 = dict(k)
    change(S, r, k, op, v)
    S.check(same_state(S, state(S, r), k), 'changed')
    S.check(same_state(S, state(S, r2), k2), 'the other')
    S.check(same_state(S, state(S, Middle()), initial(S, d, 2)), 'new instance')
    S.check(same_bytes(S, r.to_bytes(), written(k)), 'written')


def ctor_none(S, log):
    class A(Struct):
        _fields_ = [UBInt8('x', 7), UBInt8('y', 8)]
    return A, None


def ctor_plain(S, log):
    class A(Struct):
        _fields_ = [UBInt8('x', 7), UBInt8('y', 8)]

        def __init__(self, *args, **kwargs):
            super(A, self).__init__(*args, **kwargs)
            log.append((self.x, self.y))
    return A, None


def ctor_named(S, log):
    class A(Struct):
        _fields_ = [UBInt8('x', 7), UBInt8('y', 8)]

        def __init__(self, x=1, **kwargs):
            super(A, self).__init__(**kwargs)
            log.append(x)
    return A, 'x'


def ctor_named_passed(S, log):
    class A(Struct):
        _fields_ = [UBInt8('x', 7), UBInt8('y', 8)]

        def __init__(self, y=1, **kwargs):
            super(A, self).__init__(y=y, **kwargs)
            log.append(y)
    return A, 'y passed'


def ctor_keyword_only(S, log):
    class A(Struct):
        _fields_ = [UBInt8('x', 7), UBInt8('y', 8)]

        def __init__(self, *args, x=1, **kwargs):
            super(A, self).__init__(**kwargs)
            log.append(x)
    return A, 'x'


def ctor_inherited(S, log):
    base, kind = ctor_named(S, log)

    class B(base):
        pass
    return B, kind


def ctor_inherited_twice(S, log):
    base, kind = ctor_inherited(S, log)

    class C(base):
        _fields_ = base._fields_ + [UBInt8('w', 5)]
    return C, kind


def ctor_chained(S, log):
    base, kind = ctor_named(S, log)

    class C(base):
        def __init__(self, x=2, **kwargs):
            super(C, self).__init__(x=x, **kwargs)
    return C, 'x chained'


def ctor_sets(S, log):
    class A(Struct):
        _fields_ = [UBInt8('x', 7), UBInt8('y', 8)]

        def __init__(self, **kwargs):
            self.x = 99
            super(A, self).__init__(**kwargs)
            self.other = 5
    return A, 'sets'


CTORS = [ctor_none, ctor_plain, ctor_named, ctor_named_passed, ctor_keyword_only, ctor_inherited, ctor_inherited_twice, ctor_chained, ctor_sets]


def constructors(S, cfg):
    log = []
    cls, kind = CTORS[cfg](S, log)
    kw = {}
    for n in 'xy':
        if S.choice('give_' + n, (False, True)):
            kw[n] = num(S, n)
    t = cls(**kw)
    x, y = kw.get('x', 7), kw.get('y', 8)
    if kind == 'x':
        S.check(len(log) == 1 and S.eq(log[0], kw.get('x', 1)), 'constructor argument')
    elif kind == 'x chained':
        S.check(len(log) == 1 and S.eq(log[0], kw.get('x', 2)), 'constructor argument')
    elif kind == 'y passed':
        S.check(len(log) == 1 and S.eq(log[0], kw.get('y', 1)), 'constructor argument')
        y = kw.get('y', 1)
    elif kind == 'sets':
        x = 99
        S.check(t.other == 5, 'own attribute')
    if cfg == 1:
        S.check(len(log) == 1 and S.eq(log[0][0], x) and S.eq(log[0][1], y), 'fields are set before the constructor runs')
    S.check(S.and_(S.eq(t.x, x), S.eq(t.y, y)), 'fields')
    tail = [5] if hasattr(t, 'w') else []
    S.check(same_bytes(S, t.to_bytes(), [x, y] + tail), 'written')
    u = cls()
    S.check(S.eq(u.y, 1 if kind == 'y passed' else 8) and S.eq(u.x, 99 if kind == 'sets' else 7), 'next instance')
    data = S.bytes('data', 2 + len(tail))
    r = cls.create_from_string(bytes(data))
    S.check(same_bytes(S, [r.x, r.y], data[:2]), 'read')


def positional(S, cfg):
    """positional arguments of own constructors"""
    v = num(S, 'v')

    class A(Struct):
        _fields_ = [UBInt8('x'), UBInt8('y', 4)]

        def __init__(self, x, n=0):
            super(A, self).__init__(x=x)
            self.y += n
    n = S.choice('n', range(3))
    t = A(v, n) if S.choice('both', (False, True)) else A(v, n=n)
    S.check(S.and_(S.eq(t.x, v), t.y == 4 + n), 'fields')
    S.check(same_bytes(S, t.to_bytes(), [v, 4 + n]), 'written')

    class B(A):
        _fields_ = A._fields_ + [Field('l', VarSizeArrayMarshal(UBInt8, UBInt8), [v])]
    b = B(v)
    b.l.append(1)
    b2 = B(3, l=[v, v]) if cfg else B(3)
    S.check(same_bytes(S, b.to_bytes(), [v, 4, 2, v, 1]), 'derived')
    S.check(same_bytes(S, b2.to_bytes(), [3, 4, 2, v, v] if cfg else [3, 4, 1, v]), 'another')


class Elem(Struct):
    _fields_ = [UBInt8('i', 4)]
    names = ('i',)


class Elem2(Struct):
    _fields_ = [ConstField('c', 2, UBInt8), UBInt8('j', 5)]
    names = ('j',)


def every_macro(S, cfg):
    """the default of a field made by each macro, given by position or by name"""
    kind, named = cfg
    x, y = num(S, 'x'), num(S, 'y')

    def kw(d):
        return dict(default=d)

    def after(f, *given):
        """f(..., default) or f(..., default=default)"""
        return lambda d: f(*given, **kw(d)) if named else f(*(given + (d,)))
    string = lambda f, *given: lambda d: f(*given, **kw(d)) if named else f(*(given + (b'\0', PADDING_DIRECTION_RIGHT, d)))
    # the field, a default and its bytes, another value and its bytes
    make, d, raw, v, other = {
        'number': lambda: (after(ULInt16, 'f'), x, [x, 0], y, [y, 0]), 'float': lambda: (after(BFloat32, 'f'), 1.5, [0x3f, 0xc0, 0, 0], 0.0, [0] * 4),
        'bits': lambda: (lambda d: BitFields(after(BitField, 'f', 5)(d), BitPadding(3)), x & 31, [x & 31], y & 31, [y & 31]),
        'positional': lambda: (lambda d: BitFields(after(BitField, 'f', Bits[3:8])(d)), x & 31, [(x & 31) << 3], y & 31, [(y & 31) << 3]),
        'ranges': lambda: (lambda d: BitFields(after(BitField, 'f', Bits[4:8, 0:4])(d)), x, [((x & 15) << 4) | (x >> 4)], y, [((y & 15) << 4) | (y >> 4)]),
        'flag': lambda: (lambda d: BitFields(BitPadding(7), after(BitFlag, 'f')(d)), 1, [128], 0, [0]),
        'lazy bits': lambda: (lambda d: Lazy(BitFields(after(BitField, 'f', Bits[0:8])(d))), x, [x], y, [y]),
        'lazy': lambda: (lambda d: Lazy(UBInt8('g', 7), after(UBInt8, 'f')(d)), x, [7, x], y, [7, y]),
        'padded': lambda: (string(PaddedString, 'f', 2), b'a', [97, 0], b'', [0, 0]), 'old padded': lambda: (string(FixedSizeString, 'f', 2), b'a', [97, 0], b'', [0, 0]),
        'string': lambda: (string(VarSizeString, 'f', UBInt8), b'a', [1, 97], b'', [0]), 'buffer': lambda: (after(FixedSizeBuffer, 'f', 2), b'ab', [97, 98], b'\0\0', [0, 0]),
        'sized buffer': lambda: (after(VarSizeBuffer, 'f', UBInt16), b'ab', [0, 2, 97, 98], b'', [0, 0]),
        'array': lambda: (after(FixedSizeArray, 'f', 2, UBInt8), [x, 1], [x, 1], [y, 2], [y, 2]), 'counted': lambda: (after(VarSizeArray, 'f', UBInt8, UBInt8), [x], [1, x], [], [0]),
        'summed': lambda: (after(SumSizeArray, 'f', UBInt8, UBInt16), [x], [2, 0, x], [], [0]),
        'structs': lambda: (after(VarSizeArray, 'f', UBInt8, Elem), [Elem(i=x)], [1, x], [], [0]), 'struct': lambda: (after(Field, 'f', Elem), Elem(i=x), [x], Elem(), [4]),
        'mapped': lambda: (after(MappingField, 'f', UBInt8, {'p': 1, 'q': 0, 0: 5}), 'p', [1], 0, [5]),
        'chosen': lambda: (lambda d: Field('f', StructSelector(UBInt8, {2: Elem2}), d), Elem2(j=x), [2, x], Elem2(), [2, 5]),
        'by function': lambda: (lambda d: SelectStructByFunc('f', lambda o, s, c: Elem, default=d) if named else SelectStructByFunc('f', lambda o, s, c: Elem, UNBOUNDED_MIN_MAX, d), Elem(i=x), [x], Elem(), [4]),
        'optional': lambda: (after(OptionalField, 'f', UBInt8, lambda o, s, c: True), x, [x], y, [y])}[kind]()

    class T(Struct):
        _fields_ = [UBInt8('a', 1), make(d), UBInt8('e', 2)]
    first, second, third = T(), T(f=v), T()
    S.check(same_bytes(S, first.to_bytes(), [1] + raw + [2]), 'the default')
    S.check(same_bytes(S, second.to_bytes(), [1] + other + [2]), 'a given value')
    S.check(same(S, first.f, d) and same(S, second.f, v), 'held')
    if isinstance(d, list):
        first.f.append(first.f[0])
    elif isinstance(d, Elem):
        first.f.i = 9
    elif isinstance(d, Elem2):
        first.f.j = 9
    else:
        first.f = v
    S.check(same_bytes(S, third.to_bytes(), [1] + raw + [2]), 'another instance')
    S.check(same_bytes(S, T().to_bytes(), [1] + raw + [2]), 'a new instance')


MACROS = ('number', 'float', 'bits', 'positional', 'ranges', 'flag', 'lazy bits', 'lazy', 'padded', 'old padded', 'string', 'buffer', 'sized buffer', 'array', 'counted', 'summed', 'structs',
          'struct', 'mapped', 'chosen', 'by function', 'optional')


def bare(S, cfg):
    """a class without fields isn't a struct"""
    def declare():
        class A(Struct):
            pass
    out = S.outcome(declare)
    S.check(not out.ok and isinstance(out.exc, InstructError), 'refused')

    def containers():
        class A(Struct):
            _fields_ = (UBInt8('x', 1), UBInt8('y', 2))
        return A
    v = num(S, 'v')
    S.check(same_bytes(S, containers()(y=v).to_bytes(), [1, v]), 'fields in a tuple')


def obligations(tier):
    t = tier == 'thorough'
    obs = group('construct', construct, [(0, 'abl'), (1, 'abl'), (2, ('a', 'st', 'z')), (2, ('l', 'z', 'y')), (3, ('a', 'p', 'q', 'o')), (3, ('ss', 'st', 'o')), (0, 'ab', 'ab'), (3, ('z', 'p', 'q'), ('z', 'p', 'q')), (3, ('a', 'y', 'o'), ('a', 'y', 'o'))] +
                ([(2, ('a', 'b', 'l', 'st', 'z', 'y')), (3, ('a', 'b', 'l', 'st', 'z')), (3, ('l', 'y', 'p', 'q', 'o', 'ss'))] if t else []), 1)
    obs += group('history', history, [(1, 2), (2, 2), (3, 2)] + ([(1, 4), (2, 3), (3, 3)] if t else [(1, 3)]), 1)
    obs += group('reading', reading, [None], 1)
    obs += group('constructors', constructors, list(range(len(CTORS))), 3)
    obs += group('positional', positional, [False, True], 2)
    obs += group('bare', bare, [None], 1)
    obs += group('every-macro', every_macro, [(m, n) for m in MACROS for n in (False, True)], 11)
    return obs
