"""Struct arrays keep their elements, counts and byte sums."""
import io
from .lib import *
from .structs import *
from .S04 import OneWay

BOUNDS = ('arrays with fixed counts 0..5, count prefixes and byte-size prefixes of 10 integer types; elements: integers, floats, strings, buffers, structs of fixed and variable '
          'size, arrays, structs chosen by key or function, optional and bit fields; 0..3 (thorough 0..5) elements of any value; lengths around 127, 255, 32767 and 65535; pointers to 9 kinds of attribute; '
          'every content of up to 8 bytes; streams with and without tell')


class Bitty(Struct):
    _fields_ = [BitFields(BitField('a', 3), BitField('b', 5)), OptionalField('o', UBInt8, lambda o, s, c: o.a > 3)]
    names = ('a', 'b', 'o')


class Zero(Struct):
    _fields_ = [ConstField('k', 7, UBInt8)]
    names = ('k',)


# element kinds: (serializer, make(S, prefix) -> (function making the value, bytes))
def e_int(m, lo, hi, enc):
    def make(S, p):
        v = S.int(p + 'v', lo, hi)
        return (lambda: v), enc(v)
    return m, make


def e_string(S, p):
    v = raw(S, p + 's', S.choice(p + 'n', range(3)))
    return (lambda: v), [len(v)] + list(v)


def e_padded(S, p):
    v = raw(S, p + 's', S.choice(p + 'n', range(3)))
    return (lambda: v), list(v) + [0] * (2 - len(v))


def e_buffer(S, p):
    v = S.bytes(p + 's', S.choice(p + 'n', range(3)))
    return (lambda: v), be(len(v), 2) + list(v)


def e_pair(S, p):
    k, v = pair(S, p)
    return (lambda: Pair(k=k, v=v)), pair_bytes((k, v))


def e_named(S, p):
    s, n = named(S, p)
    return (lambda: Named(name=s, n=n)), named_bytes((s, n))


def e_kind(S, p):
    return kind(S, p)


def e_bitty(S, p):
    a, b, o = S.bits(p + 'a', 3), S.bits(p + 'b', 5), S.bits(p + 'o', 8)
    has = S.conc(a > 3)
    return (lambda: Bitty(a=a, b=b, o=o if has else None)), [a | (b << 3)] + ([o] if has else [])


def e_zero(S, p):
    return (lambda: Zero()), [7]


def e_list(S, p):
    n = S.choice(p + 'n', range(3))
    vs = [S.bits(p + 'e%d' % i, 16) for i in range(n)]
    return (lambda: list(vs)), [n] + sum([be(v, 2) for v in vs], [])


def e_fixed(S, p):
    vs = [S.bits(p + 'e%d' % i, 8) for i in range(2)]
    return (lambda: list(vs)), list(vs)


def e_sum(S, p):
    n = S.choice(p + 'n', range(3))
    parts = [raw(S, p + 's%d' % i, 1) for i in range(n)]
    return (lambda: list(parts)), [2 * n] + sum([[1] + list(x) for x in parts], [])


def e_code(S, p):
    v = S.choice(p + 'm', 'ab')
    return (lambda: v), [1 if v == 'a' else 200]


ELEMENTS = [e_int(UBInt8, 0, 255, lambda v: be(v, 1)), e_int(SLInt16, -(1 << 15), (1 << 15) - 1, lambda v: le(v, 2)), e_int(UBInt64, 0, (1 << 64) - 1, lambda v: be(v, 8)),
            (VarSizeStringMarshal(UBInt8), e_string), (PaddedStringMarshal(2), e_padded), (VarSizeBufferMarshal(UBInt16), e_buffer), (Pair, e_pair), (Named, e_named),
            (StructSelectorMarshal(UBInt8, {1: KindA, 2: KindB}, KindC), e_kind), (FuncStructSelectorMarshal(StructFunc(choose)), e_kind), (Bitty, e_bitty), (Zero, e_zero),
            (VarSizeArrayMarshal(UBInt8, UBInt16), e_list), (FixedSizeArrayMarshal(2, UBInt8), e_fixed),
            (SumSizeArrayMarshal(UBInt8, VarSizeStringMarshal(UBInt8)), e_sum), (FixedSizeMappingMarshal({'a': 1, 'b': 200}, UBInt8), e_code)]

PREFIXES = [(UBInt8, lambda n: be(n, 1)), (ULInt16, lambda n: le(n, 2)), (UBInt32, lambda n: be(n, 4)), (SLInt32, lambda n: le(n, 4)), (SBInt8, lambda n: be(n, 1)),
            (UBInt64, lambda n: be(n, 8))]


def items(S, make, n):
    return [make(S, 'x%d' % i) for i in range(n)]


def kept(S, cfg):
    """lists in a struct, between other fields"""
    (em, make), (pm, penc), most = cfg
    n = S.choice('n', range(most + 1))
    how = S.choice('how', ('fixed', 'count', 'bytes'))
    m = {'fixed': lambda: FixedSizeArrayMarshal(n, em), 'count': lambda: VarSizeArrayMarshal(pm, em), 'bytes': lambda: SumSizeArrayMarshal(pm, em)}[how]()
    xs = items(S, make, n)
    a, b = S.bits('a', 8), S.bits('b', 8)

    class T(Struct):
        _fields_ = [UBInt8('a'), Field('l', m), UBInt8('b')]
    body = sum([x[1] for x in xs], [])
    prefix = [] if how == 'fixed' else penc(n if how == 'count' else len(body))
    want = [a] + prefix + body + [b]
    values = [x[0]() for x in xs]
    t = T(a=a, l=values, b=b)
    data = t.to_bytes()
    S.check(same_bytes(S, data, want), 'prefix and elements in order')
    S.check(T.sizeof(t) == len(want), 'size')
    S.check(same(S, t.l, [x[0]() for x in xs]), 'writing leaves the list')
    if S.choice('stream', ('file', 'one way')) == 'file':
        r = T.create_from_string(bytes(data))
    else:
        r = T.create_from_stream(OneWay(bytes(data)))
    S.check(isinstance(r.l, list) and len(r.l) == n, 'number of elements')
    S.check(same(S, r.l, [x[0]() for x in xs]), 'the same list')
    S.check(S.and_(S.eq(r.a, a), S.eq(r.b, b)), 'around')


def changed(S, cfg):
    """the list is changed after the instance was made or read"""
    how, = cfg
    m = VarSizeArrayMarshal(UBInt8, UBInt16) if how == 'count' else SumSizeArrayMarshal(UBInt8, UBInt16)

    class T(Struct):
        _fields_ = [Field('l', m), VarSizeArray('k', UBInt8, UBInt8)]
    xs = [S.bits('x%d' % i, 16) for i in range(3)]
    unit = 1 if how == 'count' else 2
    t = T(l=[xs[0]], k=[])
    if S.choice('read', (True, False)):
        t = T.create_from_string(t.to_bytes())
    t.l.append(xs[1])
    S.check(same_bytes(S, t.to_bytes(), [2 * unit] + be(xs[0], 2) + be(xs[1], 2) + [0]), 'appended')
    t.l[0] = xs[2]
    t.k.extend([1, 2])
    S.check(same_bytes(S, t.to_bytes(), [2 * unit] + be(xs[2], 2) + be(xs[1], 2) + [2, 1, 2]), 'replaced')
    del t.l[1]
    S.check(same_bytes(S, t.to_bytes(), [1 * unit] + be(xs[2], 2) + [2, 1, 2]), 'deleted')
    S.check(T.sizeof(t) == 6, 'size')


def wrong_count(S, cfg):
    em, make = cfg
    want = S.choice('count', range(4))
    n = S.choice('n', range(5))
    xs = items(S, make, n)

    class T(Struct):
        _fields_ = [FixedSizeArray('l', want, em), UBInt8('e')]
    t = T(l=[x[0]() for x in xs], e=1)
    out = S.outcome(t.to_bytes)
    S.check(out.ok == (n == want), 'only lists of the fixed count')
    if out.ok:
        S.check(same_bytes(S, out.value, sum([x[1] for x in xs], []) + [1]), 'written')
    else:
        S.check(isinstance(out.exc, InstructError), 'library error')


LIMITS = [(UBInt8, 255), (ULInt8, 255), (SBInt8, 127), (SLInt8, 127), (UBInt16, 65535), (ULInt16, 65535), (SBInt16, 32767), (SLInt16, 32767)]


def too_many(S, cfg):
    """counts that do and don't fit the prefix"""
    pm, top = cfg
    n = S.choice('n', [top - 1, top, top + 1, top + 2] + ([2 * top + 2] if top < 300 else []))
    v = S.bits('v', 8)
    kind = S.choice('kind', ('count', 'bytes', 'string') if top < 300 else ('count', 'string'))
    if kind == 'count':
        m, value, size = VarSizeArrayMarshal(pm, PaddedStringMarshal(0)), [b''] * n, 0
        if top < 300:
            m, value, size = VarSizeArrayMarshal(pm, UBInt8), [v] * n, n
    elif kind == 'bytes':
        m, value, size = SumSizeArrayMarshal(pm, UBInt8), [v] * n, n
    else:
        m, value, size = SumSizeArrayMarshal(pm, FixedSizeBufferMarshal(n)), [b'x' * n], n
    out = S.outcome(lambda: m.write_to_string(value))
    S.check(out.ok == (n <= top), 'refused exactly when the prefix cannot hold it')
    if not out.ok:
        S.check(isinstance(out.exc, InstructError), 'library error')
        return
    width = len(UBInt8.write_to_string(0)) if top < 300 else 2
    S.check(len(out.value) == size + width, 'size written')
    S.check(m.sizeof(value) == len(out.value), 'size')
    back = m.create_from_string(bytes(out.value))
    S.check(len(back) == len(value), 'read back')
    if kind != 'string' and size:
        S.check(S.and_(S.eq(back[0], v), S.eq(back[n - 1], v)), 'elements')


def parsed(S, cfg):
    """any prefix and content, against a plain reading of it"""
    how, element, n = cfg
    em = {'two': UBInt16, 'three': Pair, 'string': VarSizeBufferMarshal(UBInt8)}[element]
    m = VarSizeArrayMarshal(UBInt8, em) if how == 'count' else SumSizeArrayMarshal(UBInt8, em)
    data = list(S.bytes('data', n))
    s = io.BytesIO(bytes(bytearray(data))) if S.choice('stream', ('file', 'one way')) == 'file' else OneWay(bytes(bytearray(data)))
    size = S.conc(data[0]) if S.conc(data[0] <= n + 1) else n + 2
    pos, want = 1, []
    good = True

    def more():
        return len(want) < size if how == 'count' else pos - 1 < size
    while good and more():
        if element == 'string':
            if pos >= n:
                good = False
                break
            k = S.conc(data[pos]) if S.conc(data[pos] <= n) else n + 1
            step = 1 + k
        else:
            step = 2 if element == 'two' else 3
        if pos + step > n:
            good = False
            break
        want.append((pos, step))
        pos += step
    if how == 'bytes' and pos - 1 != size:
        good = False
    out = S.outcome(lambda: m.create_from_stream(s))
    S.check(out.ok == good, 'refused exactly when it does not end at the end of an element')
    if not out.ok:
        return
    S.check(len(out.value) == len(want), 'number of elements')
    for v, (p, k) in zip(out.value, want):
        part = data[p:p + k]
        if element == 'two':
            S.check(S.eq(v, bytes_value(part, False)), 'element')
        elif element == 'three':
            S.check(S.and_(S.eq(v.k, part[0]), S.eq(v.v, bytes_value(part[1:], False))), 'element')
        else:
            S.check(same_bytes(S, v, part[1:]), 'element')
    rest = s.read(99)
    S.check(same_bytes(S, rest, data[pos:]), 'the rest is left')


def pointed(S, cfg):
    """counts and byte sizes taken from other fields"""
    how, = cfg
    p = ReadPointer('n')

    class T(Struct):
        _fields_ = [ULInt16('n'), UBInt8('x'), VarSizeArray('l', p, UBInt16) if how == 'count' else SumSizeArray('l', p, UBInt16), UBInt8('e')]
    data = list(S.bytes('data', 4 + 4))
    k = S.conc(bytes_value(data[0:2], True)) if S.conc(bytes_value(data[0:2], True) <= 6) else 7
    used = k * 2 if how == 'count' else k
    out = S.outcome(lambda: T.create_from_string(bytes(bytearray(data))))
    S.check(out.ok == (used <= 4 and used % 2 == 0), 'refused exactly when it does not fit')
    if out.ok:
        t = out.value
        S.check(len(t.l) == used // 2, 'number of elements')
        for i, v in enumerate(t.l):
            S.check(S.eq(v, bytes_value(data[3 + 2 * i:5 + 2 * i], False)), 'element')
        S.check(S.eq(t.e, data[3 + used]), 'what follows')
        S.check(same_bytes(S, t.to_bytes(), data[:4 + used]), 'written back')


def pointed_to(S, cfg):
    """whatever kind of attribute the pointer names"""
    what, how = cfg
    k = S.choice('k', (0, 1, 3))
    p = ReadPointer('n')
    first, raw = {
        'number': lambda: ([UBInt8('n')], [k]), 'const': lambda: ([ConstField('n', k, UBInt8)], [k]), 'bits': lambda: ([BitFields(BitField('m', 3), BitField('n', 5))], [5 | k << 3]),
        'positional': lambda: ([BitFields(BitField('n', Bits[6:8, 0:2]), BitField('m', Bits[2:6]))], [(k & 3) << 6 | 0x14]),
        'lazy': lambda: ([Lazy(UBInt8('m'), UBInt16('n'))], [9, 0, k]), 'mapped': lambda: ([Field('n', FixedSizeMappingMarshal({0: 7, 1: 8, 3: 4}, UBInt8))], [{0: 7, 1: 8, 3: 4}[k]]),
        'optional': lambda: ([OptionalField('n', UBInt8, lambda o, s, c: True)], [k]), 'property': lambda: ([UBInt8('m')], [k ^ 1]),
        'attribute': lambda: ([UBInt8('m')], [7])}[what]()

    class T(Struct):
        _fields_ = first + {'count': lambda: [VarSizeArray('l', p, UBInt8)], 'bytes': lambda: [SumSizeArray('l', p, UBInt8)], 'buffer': lambda: [VarSizeBuffer('l', p)],
                            'string': lambda: [VarSizeString('l', p)], 'lists': lambda: [FixedSizeArray('l', 1, VarSizeArrayMarshal(p, UBInt8))]}[how]() + [UBInt8('e')]
        if what == 'property':
            n = property(lambda self: self.m ^ 1)
        if what == 'attribute':
            n = k
    body = list(S.bytes('body', k))
    if how == 'string':
        for x in body:
            S.assume(x != 0)
    e = S.bits('e', 8)
    raw = raw + body + [e]
    t = T.create_from_string(bytes(bytearray(raw)) + b'rest')
    got = t.l[0] if how == 'lists' else t.l
    S.check(len(got) == k and same_bytes(S, got, body), 'as many')
    S.check(S.eq(t.e, e), 'what follows')
    S.check(same_bytes(S, t.to_bytes(), raw), 'written back')
    S.check(T.sizeof(t) == len(raw), 'size')


def defaults(S, cfg):
    n, k = S.choice('n', range(4)), S.choice('k', range(4))
    d = [S.bits('d%d' % i, 8) for i in range(k)]
    out = S.outcome(lambda: FixedSizeArray('f', n, UBInt8, d))
    S.check(out.ok == (n == k), 'a default has the fixed count')

    class T(Struct):
        _fields_ = [VarSizeArray('v', UBInt8, UBInt8, d), SumSizeArray('s', UBInt8, UBInt8, d)] + ([out.value] if out.ok else [])
    t = T()
    want = [k] + d + [k] + d + (d if out.ok else [])
    S.check(same_bytes(S, t.to_bytes(), want), 'defaults written')
    t.v.append(1)
    S.check(same_bytes(S, T().to_bytes(), want), 'defaults kept')


def negative(S, cfg):
    """a count or byte size that is negative is refused, and nothing after it is read"""
    prefix, size, little, how = cfg
    m = VarSizeArrayMarshal(prefix, UBInt8Marshal) if how == 'count' else SumSizeArrayMarshal(prefix, UBInt8Marshal)
    n = S.int('n', -(1 << (8 * size - 1)), 2)
    rest = S.bytes('rest', 3)
    stream = io.BytesIO(bytes(bytearray((le if little else be)(n, size))) + rest)
    out = S.outcome(lambda: m.create_from_stream(stream))
    k = S.conc(n) if S.conc(n >= 0) else -1
    S.check(out.ok == (k >= 0), 'refused exactly when negative')
    S.check(stream.tell() == size + max(k, 0), 'position')
    if out.ok:
        S.check(same_bytes(S, out.value, rest[:k]), 'elements')


class Nothing(Struct):
    _fields_ = []


class One(Struct):
    _fields_ = [UBInt8('v')]


def sizeless(S, cfg):
    """elements that take no bytes never fill a byte size: refused, rather than read forever"""
    kind, n = cfg
    if kind == 'string':
        em = PaddedStringMarshal(0)
    elif kind == 'struct':
        em = Nothing
    elif kind == 'array':
        em = FixedSizeArrayMarshal(0, UBInt8Marshal)
    else:
        em = FuncStructSelectorMarshal(lambda stream, context: One if stream.read(1) == b'\x01' else Nothing)
    data = S.bytes('data', n)
    size = S.choice('size', range(n + 1))
    m = SumSizeArrayMarshal(UBInt8Marshal, em)
    stream = io.BytesIO(bytes(bytearray([size])) + data)
    out = S.outcome(lambda: m.create_from_stream(stream))
    ones = 0
    if kind == 'peek':
        while ones < size and S.conc(data[ones] == 1):
            ones += 1
    else:
        S.check(same(S, m.write_to_string([] if kind != 'struct' else [Nothing()]), b'\x00'), 'written size')
    S.check(out.ok == (ones == size), 'refused exactly when an element takes nothing')
    if out.ok:
        S.check(len(out.value) == size, 'elements')
    else:
        S.check(isinstance(out.exc, InstructError), 'library error')


def obligations(tier):
    full = tier == 'thorough'
    most = 3 if full else 2
    obs = []
    for i, e in enumerate(ELEMENTS):
        prefixes = PREFIXES if full and i < 3 else [PREFIXES[i % len(PREFIXES)], PREFIXES[0]] if full else [PREFIXES[i % len(PREFIXES)]]
        heavy = e[1] in (e_kind, e_list, e_sum, e_named, e_bitty, e_string, e_buffer)
        obs += group('kept-%d' % i, kept, [(e, p, (most if heavy else most + 2 if full else 3)) for p in prefixes], 1, cost=3 if heavy else 1)
    obs += group('changed', changed, [('count',), ('bytes',)], 2)
    obs += group('wrong_count', wrong_count, [ELEMENTS[i] for i in (0, 4, 6, 11)], 2)
    obs += group('too_many', too_many, LIMITS, 1, steps=3000000)
    obs += group('parsed', parsed, [(h, e, (7 if full else 6)) for h in ('count', 'bytes') for e in ('two', 'three', 'string')], 1)
    obs += group('pointed', pointed, [('count',), ('bytes',)], 2)
    obs += group('defaults', defaults, [None], 1)
    obs += group('negative', negative, [(m, s, l, h) for m, s, l in ((SBInt8Marshal, 1, False), (SLInt16Marshal, 2, True), (SBInt32Marshal, 4, False)) for h in ('count', 'bytes')], 3)
    obs += group('sizeless', sizeless, [('string', 2), ('struct', 2), ('array', 2), ('peek', 4)], 4)
    obs += group('pointed-to', pointed_to, [(w, h) for w in ('number', 'const', 'bits', 'positional', 'lazy', 'mapped', 'optional', 'property', 'attribute') for h in ('count', 'bytes', 'buffer', 'string', 'lists')], 15)
    return obs
