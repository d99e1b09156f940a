"""Mapped fields translate values one-to-one."""
from .lib import *
from .structs import *
from infi.instruct.mapping_macros import *

BOUNDS = ('10 mappings of 1..6 values (strings, integers, None, tuples, swapped integers, gaps, the limits of the type, text and struct-free codes) over 9 underlying types; '
          'every content of the field; every integer of up to 34 bits, every string of up to 2 characters and other values assigned; declared mappings of up to 3 values (thorough: 4) with any codes of 2 bits (thorough: up to 8 bits)')

# (mapping, underlying type, its size)
MAPPINGS = [
    ({'a': 0, 'b': 1, 'c': 255}, UBInt8, 1), ({'a': -128, 'b': -1, 'c': 0, 'd': 127}, SBInt8, 1), ({'lo': 0x0102, 'hi': 0x0201}, ULInt16, 2),
    ({0: 1, 1: 2, 2: 0}, UBInt8, 1), ({1: 1000, 1000: 1, 5: 5}, UBInt16, 2), ({None: 0, 'x': 3, (1, 2): 4}, UBInt8, 1),
    ({'max': (1 << 32) - 1, 'min': 0, 'mid': 1 << 31}, UBInt32, 4), ({True: 7, False: 9}, UBInt8, 1), ({'only': 42}, ULInt64, 8),
    ({'one': b'ab', 'two': b'a', 'none': b''}, PaddedStringMarshal(2), 2),
]


def enc(m, v):
    return list(bytearray(m.write_to_string(v)))


def same_key(S, got, key):
    return type(got) is type(key) and got == key


def read(S, cfg):
    """codes of any content"""
    mapping, um, n = cfg
    m = FixedSizeMappingMarshal(mapping, um)

    class T(Struct):
        _fields_ = [UBInt8('x'), Field('m', m), UBInt8('y')]
    data = list(S.bytes('data', n + 2))
    out = S.outcome(lambda: T.create_from_string(bytes(bytearray(data))))
    for key in sorted(mapping, key=repr):
        if S.conc(same_bytes(S, data[1:1 + n], enc(um, mapping[key]))):
            S.check(out.ok, 'a code is read')
            t = out.value
            S.check(same_key(S, t.m, key), 'as its value')
            S.check(S.and_(S.eq(t.x, data[0]), S.eq(t.y, data[n + 1])), 'around')
            S.check(same_bytes(S, t.to_bytes(), data), 'written back')
            S.check(T.sizeof(t) == n + 2, 'size')
            return
    S.check(not out.ok, 'codes without a value are errors')
    S.check(isinstance(out.exc, (InstructError, LookupError, ValueError)), 'kind of error')


def written(S, cfg):
    """values that are and aren't mapped"""
    mapping, um, n = cfg
    m = FixedSizeMappingMarshal(mapping, um)

    class T(Struct):
        _fields_ = [UBInt8('x'), Field('m', m), UBInt8('y')]
    keys = sorted(mapping, key=repr)
    kind = S.choice('kind', ('mapped', 'int', 'str', 'code', 'unset', 'float'))
    if kind == 'mapped':
        v = keys[S.choice('key', range(len(keys)))]
        code = mapping[v]
    else:
        if kind == 'int':
            v = S.int('v', -(1 << 33), 1 << 33)
        elif kind == 'str':
            v = S.str('v', S.choice('n', range(3)))
        elif kind == 'code':
            v = mapping[keys[S.choice('key', range(len(keys)))]]
        elif kind == 'float':
            v = 0.5
        else:
            v = None
        code = None
        for key in keys:
            if kind in ('int', 'code') and isinstance(key, int) and isinstance(v, int):
                if S.conc(v == key):
                    code, v = mapping[key], key
            elif kind == 'str' and isinstance(key, str):
                if S.conc(S.eq(v, key)):
                    code, v = mapping[key], key
            elif kind == 'unset' and key is None:
                code = mapping[key]
    x = S.bits('x', 8)
    t = T(x=x, y=3) if kind == 'unset' else T(x=x, m=v, y=3)
    out = S.outcome(t.to_bytes)
    S.check(T.sizeof(t) == n + 2, 'size')
    if code is None:
        S.check(not out.ok, 'values without a code are errors')
        S.check(isinstance(out.exc, (InstructError, LookupError, TypeError, ValueError)), 'kind of error')
        return
    S.check(out.ok, 'written')
    S.check(same_bytes(S, out.value, [x] + enc(um, code) + [3]), 'as its code')
    r = T.create_from_string(bytes(out.value))
    S.check(r.m == v, 'round trip')


def declared(S, cfg):
    """codes of a mapping are distinct"""
    k, width = cfg
    codes = [S.bits('c%d' % i, width) for i in range(k)]
    keys = S.choice('keys', (('k0', 'k1', 'k2', 'k3', 'k4'), (0, '', None, (), 0.5), (None, (), 1, '', False)))
    mapping = dict(zip(keys, codes))
    out = S.outcome(lambda: FixedSizeMappingMarshal(mapping, UBInt8))
    distinct = all(S.conc(codes[i] != codes[j]) for i in range(k) for j in range(i))
    S.check(out.ok == distinct, 'refused exactly when two values have the same code')
    if not out.ok:
        return
    m = out.value
    mm = m.min_max_sizeof()
    S.check(mm.min == 1 and mm.max == 1, 'bounds')
    for i, c in enumerate(codes):
        S.check(same_bytes(S, m.write_to_string(keys[i]), [c]), 'code of a value')
        S.check(S.eq(m.create_from_string(bytes(bytearray([c]))), keys[i]), 'value of a code')
    d = S.bits('d', width + 1)
    known = any(S.conc(d == c) for c in codes)
    S.check(S.outcome(lambda: m.create_from_string(bytes(bytearray([d])))).ok == known, 'other codes')


def variable(S, cfg):
    """the underlying type has a fixed size"""
    um = {'string': VarSizeStringMarshal(UBInt8), 'fixed': PaddedStringMarshal(2), 'list': VarSizeArrayMarshal(UBInt8, UBInt8)}[cfg]
    out = S.outcome(lambda: FixedSizeMappingMarshal({'a': b'x'}, um))
    S.check(out.ok == (cfg == 'fixed'), 'fixed-size types only')


def lists(S, cfg):
    """in lists, optional and lazy fields"""
    m = FixedSizeMappingMarshal({'r': 1, 'w': 2, 'x': 4}, ULInt16)
    codes = {'r': 1, 'w': 2, 'x': 4}

    class T(Struct):
        _fields_ = [VarSizeArray('l', UBInt8, m), OptionalField('o', m, lambda o, s, c: len(o.l) > 1), Lazy(Field('z', m), FixedSizeArray('f', 2, m))]
    n = S.choice('n', cfg)
    l = [S.choice('l%d' % i, 'rx') for i in range(n)]
    o, z = S.choice('o', 'rw') if n > 1 else None, S.choice('z', 'wx')
    f = [S.choice('f%d' % i, 'rx') for i in range(2)]
    t = T(l=l, o=o, z=z, f=f)
    want = [n] + sum([le(codes[v], 2) for v in l + ([o] if o else []) + [z] + f], [])
    data = t.to_bytes()
    S.check(same_bytes(S, data, want), 'written')
    r = T.create_from_string(bytes(data))
    S.check(r.l == l and r.o == o and r.z == z and r.f == f, 'round trip')
    i = S.choice('byte', range(1, len(want)))
    v = S.bits('v', 8)
    bad = list(want)
    bad[i] = v
    ok = S.conc(v == 0) if i % 2 == 0 else S.conc(S.or_(v == 1, v == 2, v == 4))

    def use():
        x = T.create_from_string(bytes(bytearray(bad)))
        return x.z, x.f, x.to_bytes()
    S.check(S.outcome(use).ok == ok, 'one code changed')


def defaults(S, cfg):
    m = FixedSizeMappingMarshal({'a': 10, 'b': 20}, UBInt8)

    class T(Struct):
        _fields_ = [Field('m', m, 'b'), UBInt8('x')]
    x = S.bits('x', 8)
    given = S.choice('given', (None, 'a', 'b'))
    t = T(x=x) if given is None else T(x=x, m=given)
    S.check(same_bytes(S, t.to_bytes(), [10 if given == 'a' else 20, x]), 'written')
    mapping = {'a': 10, 'b': 20}
    m2 = FixedSizeMappingMarshal(mapping, UBInt8)
    S.check(m2.sizeof('a') == 1 and m2.is_fixed_size(), 'size')


def obligations(tier):
    obs = group('read', read, MAPPINGS, 2)
    obs += group('written', written, MAPPINGS, 2)
    obs += group('declared', declared, [(1, 4), (2, 2), (3, 2)] + ([(1, 8), (2, 4), (4, 2), (3, 3)] if tier == 'thorough' else []), 1)
    obs += group('variable', variable, ['string', 'fixed', 'list'], 3)
    obs += group('lists', lists, [(0, 1)] + ([(2,)] if tier == 'thorough' else []), 1)
    obs += group('defaults', defaults, [None], 1)
    return obs
