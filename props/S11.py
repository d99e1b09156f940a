"""Lazy groups are indistinguishable from eager ones."""
import copy
import io
from .lib import *
from .structs import *

BOUNDS = ('18 structs (numbers, floats, strings, buffers, padding, bit groups, positional bits, arrays, nested and derived structs, constants, several groups, groups inside groups), each with and '
          'without its lazy groups: every content of every length up to the whole encoding; histories of up to 3 (thorough 4) operations (read a field, assign any value, '
          'write, size, copy) after parsing or construction with any subset of fields given; two instances at once')


class Item(Struct):
    _fields_ = [UBInt8('k'), BitFields(BitField('x', 3), BitField('y', 5))]
    names = ('k', 'x', 'y')


class LazyItem(Item):
    _fields_ = [UBInt8('k'), Lazy(BitFields(BitField('x', 3), BitField('y', 5)))]


# name -> (function giving the field, how values are made)
FIELDS = dict(
    a=(lambda: UBInt8('a'), 'u8'), b=(lambda: SLInt16('b', -2), 's16'), c=(lambda: UBInt32('c', 77), 'u32'), d=(lambda: PaddedString('d', 2), 'str'),
    e=(lambda: FixedSizeBuffer('e', 2, b'ef'), 'buf'), f=(lambda: BytePadding(1), None), g=(lambda: BitFields(BitField('g', 3), BitField('h', 5, 4)), None),
    p=(lambda: BitFields(BitField('p', Bits[4:8]), BitField('q', Bits[0:2, 12:16]), BitField('r', Bits[2])), None), l=(lambda: FixedSizeArray('l', 2, UBInt8, [5, 6]), 'list'),
    i=(lambda: Field('i', Item, Item(k=1, x=2, y=3)), 'item'), k=(lambda: ConstField('k', 0x102, UBInt16), None), t=(lambda: BFloat32('t', 1.5), 'f32'),
    y=(lambda: Field('y', LazyItem, LazyItem(k=4, x=5, y=6)), 'lazyitem'), m=(lambda: Field('m', FixedSizeMappingMarshal(dict((str(v), v) for v in range(4)), UBInt8), '1'), 'map'), z=(lambda: ULInt64('z', 9), 'u64'))
KINDS = dict((n, k) for n, (f, k) in FIELDS.items() if k)
KINDS.update(g='b3', h='b5', p='b4', q='b6', r='b1', k='const')
EXTRA = dict(g='gh', p='pqr', f='')

# each word is a group (upper case: eager fields between them)
# (brackets: a group inside the group)
SHAPES = ['ab', 'a B c', 'ade', 'fb g A', 'gac', 'pb', 'l A d', 'i b', 'ti', 'kb', 'b kl', 'ag lz', 'mb e', 'a(bd)', 'A (b)', '(g)(a) f', 'k((e)a)', 'y A']


def names_of(word):
    return [n for ch in word.lower() if ch not in '()' for n in EXTRA.get(ch, ch)]


def fields_of(word, make_lazy):
    out = [[]]
    for ch in word:
        if ch == '(':
            out.append([])
        elif ch == ')':
            inner = out.pop()
            out[-1] += [Lazy(*inner)] if make_lazy else inner
        else:
            out[-1].append(FIELDS[ch.lower()][0]())
    return out[0]


def build(shape, make_lazy, base=Struct, own_init=None):
    fields = []
    for w in shape.split():
        fs = fields_of(w, make_lazy)
        if make_lazy and w.islower():
            fields.append(Lazy(*fs))
        else:
            fields += fs
    attrs = dict(_fields_=fields)
    if own_init is not None:
        attrs['__init__'] = own_init
    return type('T', (base,), attrs)


def both(shape, **k):
    return build(shape, True, **k), build(shape, False, **k), [n for w in shape.split() for n in names_of(w)]


def a_value(S, name, label):
    """a function making the value"""
    kind = KINDS[name]
    if kind[0] in 'us' and kind != 'str':
        bits = int(kind[1:])
        v = S.bits(label, bits) if kind[0] == 'u' else S.int(label, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    elif kind[0] == 'b' and kind != 'buf':
        v = S.bits(label, int(kind[1:]))
    elif kind == 'str':
        v = S.bytes(label, S.choice(label + 'n', (0, 2)))
    elif kind == 'buf':
        v = S.bytes(label, 2)
    elif kind == 'list':
        vs = [S.bits(label + str(j), 8) for j in range(2)]
        return lambda: list(vs)
    elif kind in ('item', 'lazyitem'):
        T = Item if kind == 'item' else LazyItem
        vs = S.bits(label + 'k', 8), S.bits(label + 'x', 3), S.bits(label + 'y', 5)
        return lambda: T(k=vs[0], x=vs[1], y=vs[2])
    elif kind == 'f32':
        v = S.f32(label)
        S.assume(S.not_(S.is_nan(v)))
    elif kind == 'map':
        v = str(S.choice(label, range(4)))
    elif kind == 'const':
        v = 0x102
    return lambda: v


def equal(S, a, b, label):
    if isinstance(b, Item):
        S.check(isinstance(a, Item), label)
        return S.check(S.and_(*[S.eq(getattr(a, n), getattr(b, n)) for n in Item.names]), label)
    if isinstance(b, float):
        return S.check(S.eq(S.float_bits(a, 4), S.float_bits(b, 4)), label)
    S.check(same(S, a, b), label)


def pair_of(S, shape, start):
    """the lazy and the eager instance in the same state"""
    L, E, names = both(shape)
    if start == 'read':
        n = E.min_max_sizeof().min
        data = S.bytes('data', n)
        e = S.outcome(lambda: E.create_from_string(bytes(data)))
        if not e.ok:
            S.assume(False)
        for x in names:
            if KINDS[x] == 'f32':
                S.assume(S.not_(S.is_nan(getattr(e.value, x))))
        return L.create_from_string(bytes(data)), e.value, names
    given = [x for x in names if KINDS[x] != 'const']
    some = S.choice('given', range(3))
    given = given if some == 2 else given[:0] if some == 0 else given[::2]
    vs = dict((x, a_value(S, x, 'init' + x)) for x in given)
    return L(**dict((x, v()) for x, v in vs.items())), E(**dict((x, v()) for x, v in vs.items())), names


def compare(S, l, e, names, label):
    for x in names:
        equal(S, getattr(l, x), getattr(e, x), label + ': value of a field')
    a, b = S.outcome(l.to_bytes), S.outcome(e.to_bytes)
    S.check(a.ok == b.ok, label + ': written or not')
    if b.ok:
        S.check(same_bytes(S, a.value, b.value), label + ': bytes')
        S.check(type(l).sizeof(l) == len(b.value), label + ': size')


def history(S, cfg):
    shape, start, steps = cfg
    l, e, names = pair_of(S, shape, start)
    for i in range(steps):
        op = S.choice('op%d' % i, range(2 * len(names) + 2))
        if op < len(names):
            equal(S, getattr(l, names[op]), getattr(e, names[op]), 'value of a field')
        elif op < 2 * len(names):
            x = names[op - len(names)]
            v = a_value(S, x, 'v%d' % i)
            setattr(l, x, v())
            setattr(e, x, v())
        elif op == 2 * len(names):
            a, b = S.outcome(l.to_bytes), S.outcome(e.to_bytes)
            S.check(a.ok == b.ok, 'written or not')
            if b.ok:
                S.check(same_bytes(S, a.value, b.value), 'bytes')
        else:
            S.check(type(l).sizeof(l) == type(e).sizeof(e), 'size')
    if S.choice('end', ('values first', 'bytes first')) == 'bytes first':
        a, b = S.outcome(l.to_bytes), S.outcome(e.to_bytes)
        S.check(a.ok == b.ok, 'written or not')
        if b.ok:
            S.check(same_bytes(S, a.value, b.value), 'bytes')
    compare(S, l, e, names, 'at the end')


def declared(S, shape):
    L, E, names = both(shape)
    a, b = L.min_max_sizeof(), E.min_max_sizeof()
    S.check(a.min == b.min and a.max == b.max, 'bounds')
    l, e = L(), E()
    S.check(L.sizeof(l) == E.sizeof(e), 'size')
    for x in names:
        equal(S, getattr(l, x), getattr(e, x), 'default')
    l2 = L()
    for x in names:
        if isinstance(getattr(l, x), list):
            getattr(l, x).append(1)
            getattr(l, x)[0] = 99
        if isinstance(getattr(l, x), Item):
            getattr(l, x).k = 200
    for y in (l2, L()):
        for x in names:
            equal(S, getattr(y, x), getattr(e, x), 'defaults are kept')


def truncated(S, shape):
    L, E, names = both(shape)
    n = E.min_max_sizeof().min
    k = S.choice('cut', range(n + 2))
    data = S.bytes('data', k)
    s, t = io.BytesIO(bytes(data)), io.BytesIO(bytes(data))
    a, b = S.outcome(lambda: L.create_from_stream(s)), S.outcome(lambda: E.create_from_stream(t))
    if 'k' in shape.lower() or 'm' in shape.lower():
        # contents are verified when they are used
        S.check(S.implies(b.ok, a.ok), 'whole input')
        S.check(not (a.ok and k < n), 'too short input')
        if a.ok and not b.ok:
            S.check(not S.outcome(lambda: [getattr(a.value, x) for x in names if x != 'k']).ok, 'wrong content')
            return
    S.check(a.ok == b.ok, 'fails on the same input')
    if b.ok:
        S.check(s.tell() == t.tell(), 'bytes consumed')
        for x in S.choice('order', (names, names[::-1])):
            if KINDS[x] == 'f32':
                S.assume(S.not_(S.is_nan(getattr(b.value, x))))
            equal(S, getattr(a.value, x), getattr(b.value, x), 'value of a field')


def two(S, cfg):
    """instances do not disturb each other, whenever they are first used"""
    shape, steps = cfg
    L, E, names = both(shape)
    n = E.min_max_sizeof().min
    data = [S.bytes('data%d' % i, n) for i in range(2)]
    if S.choice('how', ('apart', 'in a row')) == 'apart':
        ls = [L.create_from_string(bytes(d)) for d in data]
    else:
        s = io.BytesIO(bytes(data[0]) + bytes(data[1]))
        ls = [L.create_from_stream(s), L.create_from_stream(s)]
    es = [E.create_from_string(bytes(d)) for d in data]
    for i in range(steps):
        j = S.choice('which%d' % i, (0, 1))
        x = names[S.choice('name%d' % i, range(len(names)))]
        if S.choice('op%d' % i, ('get', 'set')) == 'set':
            v = a_value(S, x, 'v%d' % i)
            setattr(ls[j], x, v())
            setattr(es[j], x, v())
        else:
            equal(S, getattr(ls[j], x), getattr(es[j], x), 'value of a field')
    for j in S.choice('order', ((0, 1), (1, 0))):
        compare(S, ls[j], es[j], names, 'at the end')


def copied(S, shape):
    """copies made before or after the first use"""
    l, e, names = pair_of(S, shape, 'read')
    if S.choice('used', (True, False)):
        getattr(l, names[0])
    deep = S.choice('deep', (True, False))
    l2, e2 = (copy.deepcopy(l), copy.deepcopy(e)) if deep else (copy.copy(l), copy.copy(e))
    x = names[S.choice('name', range(len(names)))]
    v = a_value(S, x, 'v')
    side = S.choice('side', (0, 1))
    setattr((l, l2)[side], x, v())
    setattr((e, e2)[side], x, v())
    compare(S, l2, e2, names, 'copy')
    compare(S, l, e, names, 'original')


def inherited(S, cfg):
    """groups of base classes, constructors of one's own"""
    what = cfg

    def init(self, extra=3):
        Struct.__init__(self)
        self.extra = extra
        if what == 'sets':
            self.b = 5
        if what == 'reads':
            self.seen = self.c
    Ls = build('a bc', True, own_init=init)
    Es = build('a bc', False, own_init=init)
    if what == 'derived':
        Ls, Es = [type('D', (X,), dict(_fields_=X._fields_ + [UBInt8('n'), Lazy(UBInt8('o')) if X is Ls else UBInt8('o')])) for X in (Ls, Es)]
    names = list('abc') + (['n', 'o'] if what == 'derived' else [])
    KINDS.update(n='u8', o='u8')
    vs = dict((x, a_value(S, x, x)()) for x in S.choice('given', ('', 'b', 'abc', 'c')))
    l, e = Ls(**vs), Es(**vs)
    if what != 'derived':
        S.check(l.extra == e.extra, 'extra attribute')
    if what == 'reads':
        S.check(S.eq(l.seen, e.seen), 'read in the constructor')
    compare(S, l, e, [x for x in names if getattr(e, x) is not None], 'constructed')
    data = S.bytes('data', Es.min_max_sizeof().min)
    l, e = Ls.create_from_string(bytes(data)), Es.create_from_string(bytes(data))
    x = S.choice('x', names)
    if S.choice('set', (True, False)):
        v = a_value(S, x, 'v')()
        setattr(l, x, v)
        setattr(e, x, v)
    compare(S, l, e, names, 'read')


def around(S, cfg):
    """inside other structs, lists, optional fields and after a choice by key"""
    Ls, Es = [build('b c', lazy) for lazy in (True, False)]
    X = []
    for T in (Ls, Es):
        class K(Struct):
            _fields_ = [UBInt8('key'), Lazy(UBInt16('v'), PaddedString('s', 1)) if T is Ls else UBInt16('v')] + ([] if T is Ls else [PaddedString('s', 1)])

        class O(Struct):
            _fields_ = [UBInt8('h'), Field('x', T), VarSizeArray('l', UBInt8, T), OptionalField('o', T, lambda o, s, c: o.h > 9), SumSizeArray('m', UBInt8, K),
                        Field('q', StructSelectorMarshal(UBInt8, {1: K}, K)), UBInt8('e')]
        X.append((O, T, K))
    h, e = S.bits('h', 8), S.bits('e', 8)
    has = S.conc(h > 9)
    n = S.choice('n', range(2))
    vs = [(S.int('b%d' % i, -(1 << 15), (1 << 15) - 1), S.bits('c%d' % i, 32)) for i in range(3)]
    k, w = S.bits('k', 8), S.bits('w', 16)
    got = []
    for O, T, K in X:
        t = [T(b=b, c=c) for b, c in vs]
        o = O(h=h, x=t[0], l=[t[1]] * n, o=t[2] if has else None, m=[K(key=k, v=w, s=b'x')] * n, q=K(key=k, v=w, s=b''), e=e)
        got.append(o)
    data = got[1].to_bytes()
    S.check(same_bytes(S, got[0].to_bytes(), data), 'written')
    S.check(X[0][0].sizeof(got[0]) == len(data), 'size')
    l, r = [O.create_from_string(bytes(data)) for O, T, K in X]
    if S.choice('bytes', (True, False)):
        S.check(same_bytes(S, l.to_bytes(), data), 'written before use')
    for i in range(n):
        S.check(S.and_(S.eq(l.l[i].c, r.l[i].c), S.eq(l.l[i].b, r.l[i].b), S.eq(l.m[i].v, w), S.eq(l.m[i].s, b'x')), 'in lists')
    S.check(S.and_(S.eq(l.x.b, vs[0][0]), S.eq(l.x.c, vs[0][1]), S.eq(l.q.v, w), S.eq(l.q.s, b''), S.eq(l.e, e)), 'in fields')
    S.check((l.o is None) == (not has), 'optional')
    l.x.c = r.x.c = S.bits('new', 32)
    S.check(same_bytes(S, l.to_bytes(), r.to_bytes()), 'changed')


def refused(S, cfg):
    """only fields of a fixed size"""
    out = S.outcome(lambda: Lazy(UBInt8('a'), {'string': VarSizeString('s', UBInt8), 'list': VarSizeArray('l', UBInt8, UBInt8), 'optional': OptionalField('o', UBInt8, flagged),
                                               'fixed': FixedSizeArray('f', 2, UBInt8), 'named': Field('n', Named)}[cfg]))
    S.check(out.ok == (cfg == 'fixed'), 'fixed-size fields only')


def flagged(o, s, c):
    return True


def obligations(tier):
    full = tier == 'thorough'
    obs = []
    for s in SHAPES:
        k = sum(len(names_of(w)) for w in s.split())
        steps = (4 if k <= 2 else 3 if s in ('a B c', 'fb g A', 'ti') else 2) if full else 2 if k <= 2 or s == 'a B c' else 1
        for start in ('read', 'new'):
            obs += [Ob('history-%s-%s' % (s.replace(' ', '_'), start), history, (s, start, steps), cost=k)]
    obs += group('declared', declared, SHAPES, 13)
    obs += group('truncated', truncated, SHAPES, 5)
    obs += group('two', two, [('ab', 3), ('a B c', 2), ('pb', 2), ('gac', 2)] if full else [('ab', 2), ('ga', 1)], 1, cost=4)
    obs += group('copied', copied, [s for s in SHAPES if 't' not in s], 4)
    obs += group('inherited', inherited, ['plain', 'sets', 'reads', 'derived'], 2)
    obs += group('around', around, [None], 1)
    obs += group('refused', refused, ['string', 'list', 'optional', 'fixed', 'named'], 5)
    return obs
