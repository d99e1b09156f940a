"""Optional fields follow their predicate and their value."""
from .lib import *
from .structs import *
from .S07 import ELEMENTS

BOUNDS = ('optional fields of 16 kinds of content (integers, strings, buffers, structs, lists, chosen structs, mapped values) with every value, zeros and empty contents included; '
          'every controlling byte; chains of up to 4 optional fields; every content of up to 8 bytes; lists of up to 2 structs with optional fields; '
          'fields with a default are out of scope')


def flag(bit):
    return lambda o, s, c: o.flags & (1 << bit)


def one(S, cfg):
    """written exactly when it has a value, read exactly when the predicate holds"""
    em, make = cfg

    class T(Struct):
        _fields_ = [UBInt8('flags'), OptionalField('o', em, lambda o, s, c: o.flags > 99), UBInt8('e')]
    flags, e = S.bits('flags', 8), S.bits('e', 8)
    x, enc = make(S, 'x')
    has = S.choice('has', ('given', 'not given', 'none', 'set', 'removed'))
    t = T(flags=flags, e=e, o=x()) if has in ('given', 'removed') else T(flags=flags, e=e, o=None) if has == 'none' else T(flags=flags, e=e)
    if has == 'removed':
        t.o = None
    if has == 'set':
        t.o = x()
    present = has in ('given', 'set')
    want = [flags] + (enc if present else []) + [e]
    data = t.to_bytes()
    S.check(same_bytes(S, data, want), 'written exactly when it has a value')
    S.check(T.sizeof(t) == len(want), 'size')
    S.check(same(S, t.o, x() if present else None), 'writing leaves the value')
    holds = S.conc(flags > 99)
    # now with the predicate deciding
    data = [flags] + (enc if holds else []) + [e]
    r = T.create_from_string(bytes(bytearray(data)))
    S.check(same(S, r.o, x() if holds else None), 'read exactly when its predicate holds')
    S.check(S.and_(S.eq(r.flags, flags), S.eq(r.e, e)), 'around')
    S.check(same_bytes(S, r.to_bytes(), data), 'round trip')
    S.check(T.sizeof(r) == len(data), 'size of what was read')
    r.o = x()
    S.check(same_bytes(S, r.to_bytes(), [flags] + enc + [e]), 'given a value after reading')
    r.o = None
    S.check(same_bytes(S, r.to_bytes(), [flags, e]), 'and none')
    S.check(T.sizeof(r) == 2, 'size without')


class Chain(Struct):
    _fields_ = [UBInt8('flags'), OptionalField('a', UBInt8, flag(0)), OptionalField('b', ULInt16, lambda o, s, c: o.a is not None and o.a > 7),
                OptionalField('c', VarSizeBufferMarshal(UBInt8), lambda o, s, c: o.b is None), OptionalField('d', Pair, lambda o, s, c: o.c is not None and len(o.c) == 1),
                OptionalField('z', UBInt8, lambda o, s, c: False), OptionalField('y', UBInt8, lambda o, s, c: True)]


def chain(S, n):
    """predicates over the fields read so far"""
    data = list(S.bytes('data', n))
    pos = [1]
    want = dict(flags=data[0], a=None, b=None, c=None, d=None, z=None)

    def take(k):
        if pos[0] + k > n:
            raise EOFError()
        r = data[pos[0]:pos[0] + k]
        pos[0] += k
        return r
    try:
        if S.conc((data[0] & 1) != 0):
            want['a'] = take(1)[0]
        if want['a'] is not None and S.conc(want['a'] > 7):
            want['b'] = bytes_value(take(2), True)
        if want['b'] is None:
            k = take(1)[0]
            k = S.conc(k) if S.conc(k < n) else n
            want['c'] = take(k)
        if want['c'] is not None and len(want['c']) == 1:
            want['d'] = take(3)
        want['y'] = take(1)[0]
        good = True
    except EOFError:
        good = False
    out = S.outcome(lambda: Chain.create_from_string(bytes(bytearray(data))))
    S.check(out.ok == good, 'read exactly the fields whose predicate holds')
    if not good:
        return
    t = out.value
    for k in ('flags', 'a', 'b', 'y', 'z'):
        S.check(same(S, getattr(t, k), want[k]), 'value of %s' % k)
    S.check(t.c is None if want['c'] is None else same_bytes(S, t.c, want['c']), 'value of c')
    S.check((t.d is None) == (want['d'] is None), 'presence of d')
    if want['d'] is not None:
        S.check(S.and_(S.eq(t.d.k, want['d'][0]), S.eq(t.d.v, bytes_value(want['d'][1:], False))), 'value of d')
    S.check(same_bytes(S, t.to_bytes(), data[:pos[0]]), 'round trip')
    S.check(Chain.sizeof(t) == pos[0], 'size')


def presence(S, cfg):
    """any combination of present fields, whatever the flags say"""
    class T(Struct):
        _fields_ = [OptionalField('a', UBInt8, flag(0)), UBInt8('flags'), OptionalField('b', PaddedStringMarshal(2), flag(1)),
                    OptionalField('c', VarSizeArrayMarshal(UBInt8, UBInt8), flag(2)), OptionalField('d', SLInt32, flag(3))]
    vs = dict(a=S.bits('a', 8), b=raw(S, 'b', S.choice('bn', range(3))), c=[S.bits('c0', 8)][:S.choice('cn', range(2))], d=S.int('d', -(1 << 31), (1 << 31) - 1))
    enc = dict(a=[vs['a']], b=list(vs['b']) + [0] * (2 - len(vs['b'])), c=[len(vs['c'])] + vs['c'], d=le(vs['d'], 4))
    flags = S.bits('flags', 8)
    given = [k for k in 'abcd' if S.choice('has' + k, (True, False))]
    t = T(flags=flags, **dict((k, vs[k]) for k in given))
    want = sum([enc[k] for k in 'a' if k in given], []) + [flags] + sum([enc[k] for k in 'bcd' if k in given], [])
    S.check(same_bytes(S, t.to_bytes(), want), 'written')
    S.check(T.sizeof(t) == len(want), 'size')
    mm = T.min_max_sizeof()
    S.check(mm.min <= len(want) and len(want) <= mm.max, 'bounds')


def nested(S, cfg):
    """optional fields of structs in lists, in optional fields; the predicates see their own struct"""
    class Item(Struct):
        _fields_ = [UBInt8('flags'), OptionalField('v', UBInt16, flag(0))]
        names = ('flags', 'v')

    class Sub(Struct):
        _fields_ = [UBInt8('flags'), VarSizeArray('l', UBInt8, Item), OptionalField('i', Item, flag(1))]
        names = ('flags', 'l', 'i')

    class T(Struct):
        _fields_ = [UBInt8('flags'), OptionalField('s', Sub, flag(7)), OptionalField('e', UBInt8, flag(0))]
    fs = dict((k, S.bits(k, 8)) for k in ('t', 's', 'x0', 'x1', 'i'))
    vs = dict((k, S.bits('v' + k, 16)) for k in ('x0', 'x1', 'i'))

    def item(k):
        has = S.conc((fs[k] & 1) != 0)
        return (lambda: Item(flags=fs[k], v=vs[k] if has else None)), [fs[k]] + (be(vs[k], 2) if has else [])
    n = S.choice('n', range(3 if cfg else 2))
    xs = [item('x%d' % j) for j in range(n)]
    e = S.bits('e', 8)
    has_e, has_s = S.conc((fs['t'] & 1) != 0), S.conc(fs['t'] > 127)
    want = [fs['t']]
    i = None
    if has_s:
        i = item('i') if S.conc((fs['s'] & 2) != 0) else None
        want += [fs['s'], n] + sum([x[1] for x in xs], []) + (i[1] if i else [])
    want += [e] if has_e else []

    def make():
        s = Sub(flags=fs['s'], l=[x[0]() for x in xs], i=i[0]() if i else None) if has_s else None
        return T(flags=fs['t'], s=s, e=e if has_e else None)
    t = make()
    S.check(same_bytes(S, t.to_bytes(), want), 'written')
    S.check(T.sizeof(t) == len(want), 'size')
    r = T.create_from_string(bytes(bytearray(want)))
    S.check(same(S, r.s, t.s), 'nested')
    S.check(same(S, r.e, t.e), 'own')
    S.check(T.sizeof(r) == len(want), 'size of what was read')


def predicate_values(S, cfg):
    """what a predicate is given, and anything it may return"""
    seen = []

    def pred(o, s, c):
        seen.append((type(o) is T, o.flags, s.read(0) == b'', c.get('struct', None) is o))
        return {'bool': S.conc(o.flags == 3), 'int': S.conc(o.flags), 'list': [0] if S.conc(o.flags > 200) else [], 'none': None, 'text': 'no'}[kind]
    kind = S.choice('kind', ('bool', 'int', 'list', 'none', 'text'))

    class T(Struct):
        _fields_ = [UBInt8('flags'), OptionalField('o', UBInt8, pred)]
    flags, o = (S.int('flags', 198, 203) if kind == 'list' else S.int('flags', 0, 4)), S.bits('o', 8)
    holds = {'bool': flags == 3, 'int': flags != 0, 'list': flags > 200, 'none': False, 'text': True}[kind]
    t = T.create_from_string(bytes(bytearray([flags, o])))
    S.check(len(seen) > 0, 'asked')
    S.check(S.and_(seen[0][0], S.eq(seen[0][1], flags), seen[0][2], seen[0][3]), 'given the object read so far, the stream and the context')
    if S.conc(holds):
        S.check(S.eq(t.o, o), 'read')
    else:
        S.check(t.o is None, 'not read')
    del seen[:]
    t.to_bytes()
    T.sizeof(t)
    S.check(same(S, t.flags, flags), 'kept')


def stream_predicate(S, cfg):
    """a predicate looking at what is left in the stream"""
    class T(Struct):
        _fields_ = [UBInt8('a'), OptionalField('o', UBInt16, left)]

    def rest(s):
        p = s.tell()
        n = len(s.read(9))
        s.seek(p)
        return n
    n = S.choice('n', range(1, 5))
    data = list(S.bytes('data', n))
    out = S.outcome(lambda: T.create_from_string(bytes(bytearray(data))))
    S.check(out.ok, 'read')
    S.check(same(S, out.value.o, bytes_value(data[1:3], False) if n >= 3 else None), 'depends on what is left')


def left(o, s, c):
    p = s.tell()
    n = len(s.read(9))
    s.seek(p)
    return n >= 2


def obligations(tier):
    full = tier == 'thorough'
    obs = group('one', one, ELEMENTS, 2)
    obs += group('chain', chain, [6] + ([9] if full else []), 1)
    obs += group('presence', presence, [None], 1)
    obs += group('nested', nested, [full], 1)
    obs += group('predicate', predicate_values, [None], 1)
    obs += group('stream', stream_predicate, [None], 1)
    return obs
