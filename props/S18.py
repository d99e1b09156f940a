"""Contexts and constructor arguments reach every nested serializer."""
from .structs import *
from infi.instruct.base import Marshal, FixedSizer, WritableContext, ReadOnlyContext, EMPTY_CONTEXT, ConstReader, CallableReader
from infi.instruct.struct import AnonymousField

BOUNDS = ('a user-defined serializer that encodes with a byte of the context (any value) in 20 places: fields, anonymous fields, elements, counts, sizes, keys, codes, '
          'constants, optional, lazy, selected and nested fields up to three levels; the byte given, declared by the outer or an inner struct or its base, or '
          'several of these; functions of the user in 5 places; positional and named constructor arguments with 9 kinds of fields')


class Keyed(FixedSizer, Marshal):
    """a byte, encoded with the key of the context"""
    size = 1

    def __init__(self, key='key'):
        self.key = key

    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        stream.write(bytes(bytearray([obj ^ context.get(self.key, 0)])))

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        data = stream.read(1)
        if len(data) < 1:
            raise InstructError('too short')
        return bytearray(data)[0] ^ context.get(self.key, 0)

    def to_repr(self, obj, context=EMPTY_CONTEXT):
        LOG.append(context.get(self.key, 0))
        return 'keyed'


class Mark(Keyed):
    """a byte of no value, encoded with the key of the context"""
    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
        super(Mark, self).write_to_stream(9 if obj is None else 8, stream, context)

    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
        if super(Mark, self).create_from_stream(stream, context) != 9:
            raise InstructError('not a mark')


LOG = []


class Marked(Struct):
    _fields_ = [AnonymousField(Mark()), UBInt8('b'), AnonymousField(Mark())]
    names = ('b',)


def by_key(obj, stream, context):
    return Leaf if Keyed().create_from_stream(stream, context) == 1 else Deep


class Leaf(Struct):
    _fields_ = [Field('a', Keyed()), UBInt8('b')]
    names = ('a', 'b')


class Deep(Struct):
    _fields_ = [Field('t', Keyed()), Field('leaf', Leaf), VarSizeArray('l', UBInt8, Leaf)]
    names = ('t', 'leaf', 'l')


def leaf(S, p, a=None):
    a, b = S.bits(p + 'a', 8) if a is None else a, S.bits(p + 'b', 8)
    return lambda: Leaf(a=a, b=b), lambda k: [a ^ k, b]


def deep(S, p, a=None):
    t, x, y = S.bits(p + 't', 8) if a is None else a, leaf(S, p + 'x'), leaf(S, p + 'y')
    return lambda: Deep(t=t, leaf=x[0](), l=[y[0]()]), lambda k: [t ^ k] + x[1](k) + [1] + y[1](k)


def keyed(S, p):
    a = S.bits(p, 8)
    return lambda: a, lambda k: [a ^ k]


# name -> (field, S -> (make value, key -> bytes))
def two(S, p):
    return leaf(S, p + '0'), leaf(S, p + '1')


def p_list(S, p):
    a, b = two(S, p)
    return lambda: [a[0](), b[0]()], lambda k: a[1](k) + b[1](k)


def p_counted(S, p):
    a, b = two(S, p)
    return lambda: [a[0](), b[0]()], lambda k: [2 ^ k] + a[1](k) + b[1](k)


def p_summed(S, p):
    a, b = two(S, p)
    return lambda: [a[0](), b[0]()], lambda k: [4 ^ k] + a[1](k) + b[1](k)


def p_bytes(S, p):
    a = S.bytes(p, 2)
    return lambda: a, lambda k: [2 ^ k] + list(a)


def p_const(S, p):
    return None, lambda k: [5 ^ k]


def p_mapped(S, p):
    v = S.choice(p, 'ab')
    return lambda: v, lambda k: [{'a': 1, 'b': 2}[v] ^ k]


def p_selected(S, p):
    if S.choice(p, (True, False)):
        return leaf(S, p, 1)
    return deep(S, p, 2)


def p_marked(S, p):
    b = S.bits(p, 8)
    return lambda: Marked(b=b), lambda k: [9 ^ k, b, 9 ^ k]


def p_maybe(S, p):
    if S.choice(p, (True, False)):
        return leaf(S, p)
    return lambda: None, lambda k: []


PLACES = dict(
    field=(lambda n: Field(n, Keyed()), keyed),
    array=(lambda n: FixedSizeArray(n, 2, Leaf), p_list),
    counted=(lambda n: VarSizeArray(n, Keyed(), Leaf), p_counted),
    summed=(lambda n: SumSizeArray(n, Keyed(), Leaf), p_summed),
    string=(lambda n: VarSizeString(n, Keyed(), padding_direction=PADDING_DIRECTION_NONE), p_bytes),
    data=(lambda n: VarSizeBuffer(n, Keyed()), p_bytes),
    const=(lambda n: ConstField(n, 5, Keyed()), p_const),
    mapped=(lambda n: Field(n, FixedSizeMappingMarshal({'a': 1, 'b': 2}, Keyed())), p_mapped),
    nested=(lambda n: Field(n, Deep), deep),
    lazy=(lambda n: Lazy(Field(n, Keyed())), keyed),
    lazy_nested=(lambda n: Lazy(Field(n, Leaf)), leaf),
    lazy_array=(lambda n: Lazy(FixedSizeArray(n, 2, Leaf)), p_list),
    by_func=(lambda n: SelectStructByFunc(n, by_key), p_selected),
    by_map=(lambda n: Field(n, StructSelectorMarshal(Keyed(), {1: Leaf, 2: Deep})), p_selected),
    by_default=(lambda n: Field(n, StructSelectorMarshal(Keyed(), {1: Leaf}, Deep)), p_selected),
    optional=(lambda n: OptionalField(n, Leaf, lambda o, s, c: c.get('present', 1)), leaf),
    anonymous=(lambda n: Field(n, Marked), p_marked),
    lazy_anonymous=(lambda n: Lazy(Field(n, Marked)), p_marked),
    matrix=(lambda n: FixedSizeArray(n, 1, VarSizeArrayMarshal(Keyed(), Leaf)), lambda S, p: (lambda f: (lambda: [f[0]()], f[1]))(p_counted(S, p))),
    selected_list=(lambda n: FixedSizeArray(n, 1, StructSelectorMarshal(Keyed(), {1: Leaf, 2: Deep})), lambda S, p: (lambda f: (lambda: [f[0]()], f[1]))(p_selected(S, p))),
)


def build(S, place, attrs=None, base=None, p='v'):
    """(class, values, key -> bytes)"""
    make, values = PLACES[place]
    d = dict(attrs or {})
    d['_fields_'] = [UBInt8('h'), make('f'), Field('z', Keyed())]
    T = type('T', (base or Struct,), d)
    T.names = ('h', 'f', 'z')
    h, z = S.bits(p + 'h', 8), S.bits(p + 'z', 8)
    v, enc = values(S, p)

    def obj():
        kw = dict(h=h, z=z)
        if v is not None:
            kw['f'] = v()
        return T(**kw)
    return T, obj, lambda k: [h] + enc(k) + [z ^ k]


def check_roundtrip(S, T, o, want, context, label):
    out = T.write_to_string(o, context) if context is not None else o.to_bytes()
    S.check(same_bytes(S, out, want), '%s: written' % label)
    t = T.create_from_string(bytes(bytearray(want)), context) if context is not None else T.create_from_string(bytes(bytearray(want)))
    S.check(same_all(S, t, o), '%s: read' % label)
    return t


def same_all(S, t, o):
    return S.and_(S.eq(t.h, o.h), S.eq(t.z, o.z), same(S, t.f, o.f))


def given(S, cfg):
    """a context given to an operation"""
    place = cfg
    T, obj, want = build(S, place)
    k = S.bits('key', 8)
    o = obj()
    d = dict(key=k, other=[1])
    for C in (WritableContext, ReadOnlyContext):
        context = C(d)
        check_roundtrip(S, T, o, want(k), context, 'given')
        S.check(sorted(d) == ['key', 'other'] and d['other'] == [1] and d['key'] is k, 'the context is not changed')
    check_roundtrip(S, T, o, want(0), None, 'none given')
    del LOG[:]
    T.to_repr(o, WritableContext(d))
    S.check(len(LOG) >= 1 and S.conc(S.and_(*[S.eq(x, k) for x in LOG])), 'in the text')


def declared(S, cfg):
    """contexts declared by structs are the defaults of whatever is in them"""
    place = cfg
    k, j = S.bits('key', 8), S.bits('outer', 8)
    c = dict(key=k)
    how = S.choice('how', ('own', 'base'))
    base = type('Base', (Struct,), dict(_fields_=[], _context_=c)) if how == 'base' else None
    T, obj, want = build(S, place, dict(_context_=c) if how == 'own' else None, base)
    o = obj()
    check_roundtrip(S, T, o, want(k), None, 'declared')
    check_roundtrip(S, T, o, want(j), WritableContext(dict(key=j)), 'given over declared')
    check_roundtrip(S, T, o, want(k), WritableContext(dict(unrelated=j)), 'something else given')
    S.check(sorted(c) == ['key'] and c['key'] is k, 'the declared context is not changed')
    U, uobj, uwant = build(S, place, None, None, 'u')
    check_roundtrip(S, U, uobj(), uwant(0), None, 'another struct')


def around(S, cfg):
    """a struct with a context of its own inside one with another, and next to one without"""
    place = cfg
    k, j, g = S.bits('key', 8), S.bits('outer', 8), S.bits('given', 8)
    In, obj, want = build(S, place, dict(_context_=dict(key=k)))
    has = S.choice('outer declares', (True, False))
    give = S.choice('give', (True, False))
    d = dict(_fields_=[Field('a', Keyed()), Field('i', In), Field('b', Keyed()), VarSizeArray('l', Keyed(), In)])
    if has:
        d['_context_'] = dict(key=j)
    Out = type('Out', (Struct,), d)
    a, b = S.bits('a', 8), S.bits('b', 8)
    o = Out(a=a, i=obj(), b=b, l=[obj()])
    outer = g if give else j if has else 0
    inner = outer if give or has else k
    data = [a ^ outer] + want(inner) + [b ^ outer, 1 ^ outer] + want(inner)
    context = WritableContext(dict(key=g)) if give else EMPTY_CONTEXT
    S.check(same_bytes(S, Out.write_to_string(o, context), data), 'written')
    t = Out.create_from_string(bytes(bytearray(data)), context)
    S.check(S.and_(S.eq(t.a, a), S.eq(t.b, b), same_all(S, t.i, o.i), same_all(S, t.l[0], o.l[0])), 'read')
    if S.choice('later', (True, False)):
        S.check(same_bytes(S, Out.write_to_string(t, context), data), 'written again')
    S.check(EMPTY_CONTEXT.get_dict() == {}, 'the empty context is empty')


def functions(S, cfg):
    """functions of the user get the context, and the struct that declares them in it"""
    g = S.int('given', 1, 3)
    seen = []

    def look(name, c, struct=None):
        seen.append((name, c.get('n', None), c.get('struct', None)))

    def predicate(o, s, c):
        look('predicate', c)
        return c.get('n', 0) > 1

    def choose(o, s, c):
        look('choose', c)
        return Leaf

    class Reader(CallableReader):
        def __init__(self):
            super(Reader, self).__init__(lambda s, c: (look('reader', c), c.get('n', 0))[1])

    class In(Struct):
        _fields_ = [OptionalField('o', UBInt8, predicate), VarSizeArray('l', Reader(), UBInt8), SelectStructByFunc('s', choose),
                    VarSizeBuffer('d', Reader())]

    class Out(Struct):
        _fields_ = [OptionalField('o', UBInt8, predicate), Field('i', In), OptionalField('p', UBInt8, predicate), VarSizeArray('l', Reader(), UBInt8)]
    n = S.conc(g)
    size = (n > 1) * 3 + 2 + 3 * n
    x = S.bytes('x', size)
    context = WritableContext(dict(n=g))
    t = Out.create_from_string(x, context)
    S.check(all(S.conc(S.eq(v[1], g)) for v in seen), 'the given context')
    want = [('predicate', t), ('predicate', t.i), ('reader', t.i), ('choose', t.i), ('reader', t.i), ('predicate', t), ('reader', t)]
    S.check([v[0] for v in seen] == [w[0] for w in want], 'each once, in order')
    S.check(all(v[2] is w[1] for v, w in zip(seen, want)), 'the struct that declares the field')
    S.check(len(t.l) == n and len(t.i.l) == n and len(t.i.d) == n and (t.o is None) == (n == 1), 'what they return')
    S.check(S.eq(Out.write_to_string(t, context), x), 'written')


def copies(S, cfg):
    """contexts made from others are of their own"""
    a, b, c, x = [S.bits(n, 8) for n in 'abcx']
    d, more = dict(k=a, l=b), dict(l=c, m=x)
    given = (ReadOnlyContext if cfg else WritableContext)(d)
    k1, k2 = given.writable_copy(more), given.writable_copy()
    got = given.get_dict()
    k2.put('k', x)
    k2.update(dict(n=c))
    k1.remove('m')
    k1.put('k', b)
    got['k'] = c
    S.check(S.and_(sorted(d) == ['k', 'l'], S.eq(d['k'], a), S.eq(d['l'], b)), 'the dictionary given')
    S.check(S.and_(sorted(more) == ['l', 'm'], S.eq(more['l'], c), S.eq(more['m'], x)), 'the additions given')
    S.check(S.and_(S.eq(given.get('k', None), a), S.eq(given.get('l', None), b), given.get('m', None) is None), 'the context')
    S.check(S.and_(S.eq(k1.get('k', None), b), S.eq(k1.get('l', None), c), S.eq(k1.get('m', 5), 5), k1.get('n', None) is None), 'copy with additions')
    S.check(S.and_(S.eq(k2.get('k', None), x), S.eq(k2.get('l', None), b), S.eq(k2.get('n', None), c)), 'copy')
    e = WritableContext()
    e.put('k', a)
    S.check(S.and_(WritableContext().get('k', None) is None, EMPTY_CONTEXT.get_dict() == {}, ReadOnlyContext().get_dict() == {}), 'new contexts')


def pointers_in_context(S, cfg):
    """a struct given in the context by the user does not replace the declaring one"""
    where = cfg

    class In(Struct):
        _fields_ = [UBInt8('n'), VarSizeArray('a', ReadPointer('n'), UBInt8)]

    class Out(Struct):
        _fields_ = [UBInt8('n'), Lazy(Field('k', Keyed())), Field('i', In), VarSizeArray('l', ReadPointer('n'), In), VarSizeBuffer('d', ReadPointer('n'))]
    n, m, p = S.choice('n', range(2)), S.choice('m', range(3)), S.choice('p', range(2))
    inner = [p] + [S.bits('e%d' % i, 8) for i in range(p)]
    d = [n, 0, m] + [S.bits('a%d' % i, 8) for i in range(m)] + inner * n + [S.bits('d%d' % i, 8) for i in range(n)]
    data = bytes(bytearray(d))
    context = {'none': EMPTY_CONTEXT, 'other': WritableContext(dict(struct=In(n=7))), 'object': ReadOnlyContext(dict(struct=None))}[where]
    t = Out.create_from_string(data, context)
    S.check(len(t.i.a) == m and len(t.l) == n and len(t.d) == n and all(len(x.a) == p for x in t.l), 'counts')
    S.check(S.eq(Out.write_to_string(t, context), data), 'written')
    S.check(S.eq(t.to_bytes(), data), 'written without a context')


# --------------------------------------------------------------------------------------------- constructor arguments
def arguments(S, cfg):
    """arguments given after the context reach the constructor, also of structs inside"""
    kind, how = cfg
    v, w = S.bits('extra', 8), S.bits('more', 8)
    made = []

    class In(Struct):
        _fields_ = [UBInt8('a')]

        def __init__(self, extra=None, more=None):
            self.extra, self.more = extra, more
            made.append(self)
    inner = {'plain': [UBInt8('b'), BFloat32('f')], 'string': [PaddedString('b', 2), VarSizeString('c', UBInt8)], 'nested': [Field('b', In)], 'array': [VarSizeArray('b', UBInt8, In)],
             'sum': [SumSizeArray('b', UBInt8, In)], 'fixed': [FixedSizeArray('b', 1, In)], 'lazy': [Lazy(UBInt8('c'), Field('b', In))],
             'bits': [BitFields(BitField('b', 3), BitField('c', 5)), BitFields(BitField('d', Bits[0:8]))], 'optional': [OptionalField('b', In, lambda o, s, c: True)],
             'by_func': [SelectStructByFunc('b', lambda o, s, c: In)], 'by_map': [Field('b', StructSelectorMarshal(UBInt8, {}, In))],
             'other': [ConstField('b', 1, UBInt8), BytePadding(1), Padding(1), FixedSizeBuffer('c', 1), VarSizeBuffer('d', UBInt8), Field('m', FixedSizeMappingMarshal({'a': 1}, UBInt8))]}[kind]

    class T(Struct):
        _fields_ = [UBInt16('h')] + inner + [UBInt8('z')]

        def __init__(self, extra, more=9):
            self.extra, self.more = extra, more
    x = S.bits('x', 8)
    body = {'plain': [x, 0x3f, 0x80, 0, 0], 'string': [97, 98, 1, 99], 'nested': [x], 'array': [1, x], 'sum': [1, x], 'fixed': [x], 'lazy': [7, x], 'bits': [x, x], 'optional': [x],
            'by_func': [x], 'by_map': [x], 'other': [1, 0, 0, x, 1, x, 1]}[kind]
    data = bytes(bytearray([1, 2] + body + [x]))
    args, kwargs = {'positional': ((v,), {}), 'both': ((v,), dict(more=w)), 'named': ((), dict(extra=v, more=w)), 'two': ((v, w), {})}[how]
    more = 9 if how == 'positional' else w
    t = T.create_from_string(data, EMPTY_CONTEXT, *args, **kwargs)
    S.check(S.and_(S.eq(t.extra, v), S.eq(t.more, more)), 'the arguments reach the constructor')
    S.check(S.and_(S.eq(t.h, 258), S.eq(t.z, x)), 'the fields are read')
    if kind in ('nested', 'array', 'sum', 'fixed', 'lazy', 'optional', 'by_func', 'by_map'):
        b = t.b[0] if kind in ('array', 'sum', 'fixed') else t.b
        S.check(S.eq(b.a, x), 'the inner struct is read')
        S.check(S.and_(S.eq(b.extra, v), True if how == 'positional' else S.eq(b.more, w)) and (how != 'positional' or b.more is None), 'the arguments reach the inner constructor')
        S.check(len(made) == 1 and made[0] is b, 'constructed once')
    S.check(S.eq(t.to_bytes(), data), 'written')


def named_fields(S, cfg):
    """arguments that name fields do not stay: what was read does"""
    class In(Struct):
        _fields_ = [UBInt8('a', 3), UBInt8('c')]

    class T(Struct):
        _fields_ = [UBInt8('a'), Field('i', In), OptionalField('o', UBInt8, lambda o, s, c: o.a > 9), Lazy(UBInt8('l'))]
    a, i, c, v = [S.bits(k, 8) for k in ('a', 'i', 'c', 'v')]
    has = S.conc(a > 9)
    l = S.bits('l', 8)
    data = [a, i, c] + ([l] if has else []) + [l]
    name = S.choice('name', ('a', 'i', 'c', 'o', 'l'))
    t = T.create_from_string(bytes(bytearray(data)), EMPTY_CONTEXT, **{name: v})
    S.check(S.and_(S.eq(t.a, a), S.eq(t.i.a, i), S.eq(t.i.c, c), S.eq(t.l, l)), 'what was read')
    S.check(S.eq(t.o, l) if has else S.eq(t.o, v) if name == 'o' else t.o is None, 'an optional field that is not there')


def obligations(tier):
    full = tier == 'thorough'
    names = sorted(PLACES)
    obs = group('given', given, names, 6)
    obs += group('declared', declared, names, 6)
    obs += group('around', around, names if full else [n for n in names if n not in ('by_default', 'matrix', 'data')], 4)
    obs += [Ob('functions', functions)]
    obs += group('copies', copies, [False, True], 2)
    obs += group('pointers', pointers_in_context, ['none', 'other', 'object'], 3)
    kinds = ['plain', 'string', 'nested', 'array', 'sum', 'fixed', 'lazy', 'bits', 'optional', 'by_func', 'by_map', 'other']
    obs += group('arguments', arguments, [(k, h) for k in kinds for h in ('positional', 'both', 'named', 'two')], 12)
    obs += [Ob('named', named_fields)]
    return obs
