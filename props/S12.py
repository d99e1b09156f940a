"""Selected structs see every byte exactly once."""
import io
from .lib import *
from .structs import *
from infi.instruct.utils.read_ahead_stream import ReadAheadStream
from .S04 import OneWay

BOUNDS = ('up to 3 peeks and 4 reads of 0..5 bytes over streams of 0..8 bytes; key-selected structs with 5 kinds of keys and every content of up to 8 bytes; function-selected '
          'structs with look-aheads of 0..5 bytes in up to 2 steps; selection nested in selection, lists, optional fields and selection functions, up to 3 levels; '
          'streams with and without tell')

SIZES = (0, 1, 2, 5)


def peeks(S, cfg):
    """look-ahead stream on its own: peek, then read"""
    n, np, nr = cfg
    total = S.choice('total', (0, n - 3, n))
    data = S.bytes('data', total)
    base = OneWay(bytes(data))
    s = ReadAheadStream(base)
    S.check(s.is_read_ahead_empty(), 'empty at first')
    if S.choice('before', (False, True)):
        S.check(same_bytes(S, s.read(1), list(data)[:1]), 'read before peeking')
    start = at = min(base.position, total)
    s.set_read_ahead(True)
    for i in range(np):
        k = S.choice('p%d' % i, SIZES)
        S.check(same_bytes(S, s.read(k), list(data)[at:at + k]), 'peeked in order')
        at = min(at + k, total)
    s.set_read_ahead(False)
    S.check(bool(s.is_read_ahead_empty()) == (at == start), 'empty exactly when nothing was peeked')
    pos = start
    for i in range(nr):
        k = S.choice('r%d' % i, SIZES)
        S.check(same_bytes(S, s.read(k), list(data)[pos:pos + k]), 'every byte once, in order')
        pos = min(pos + k, total)
        S.check(bool(s.is_read_ahead_empty()) == (pos >= at), 'empty exactly when all that was peeked is read')
        S.check(base.position == max(at, pos), 'nothing is read too early')


# ------------------------------------------------------------------------------------------------ by key
class A1(Struct):
    _fields_ = [UBInt8('k'), UBInt16('v')]
    names = ('k', 'v')


class B1(Struct):
    _fields_ = [UBInt8('k'), VarSizeBuffer('b', UBInt8), UBInt8('e')]
    names = ('k', 'b', 'e')


class C1(Struct):
    _fields_ = [Lazy(UBInt8('k'), UBInt8('x'))]
    names = ('k', 'x')


class D1(Struct):
    _fields_ = [UBInt32('w'), SumSizeArray('l', UBInt8, Named)]
    names = ('w', 'l')


class E1(Struct):
    _fields_ = [BitFields(BitField('x', 3), BitField('y', 5)), UBInt8('z'), OptionalField('o', UBInt8, lambda o, s, c: o.z > 3)]
    names = ('x', 'y', 'z', 'o')


class F1(Struct):
    _fields_ = [PaddedString('s', 3), VarSizeString('t', UBInt8)]
    names = ('s', 't')


class Tiny(Struct):
    _fields_ = [UBInt8('k')]
    names = ('k',)


class Nothing(Struct):
    _fields_ = []
    names = ()


def key_of(S, kind, data):
    """(serializer, key of the content or None when cut off, mapping)"""
    if kind == 'byte':
        return UBInt8, (lambda: data[0]), 1, {0: A1, 1: B1, 2: C1, 200: D1}
    if kind == 'signed':
        return SBInt8, (lambda: signed(data[0], 8)), 1, {-1: A1, 3: E1, -128: F1}
    if kind == 'word':
        return ULInt16, (lambda: bytes_value(data[:2], True)), 2, {0: A1, 256: B1, 515: C1, 65535: E1, 1: Tiny, 2: Nothing}
    if kind == 'text':
        return PaddedStringMarshal(2), None, 2, {b'ab': A1, b'a': B1, b'': E1}
    return FixedSizeMappingMarshal({'x': 7, 'y': 300}, UBInt16), None, 2, {'x': A1, 'y': D1}


def opened(S, data):
    raw_data = bytes(bytearray(data))
    if S.choice('stream', ('file', 'one way')) == 'file':
        s = io.BytesIO(raw_data)
        return s, s.tell
    s = OneWay(raw_data)
    return s, lambda: s.position


def chosen(S, kind, data, mapping, key, width, default):
    """the class for the content, 'refused', or 'short'"""
    if len(data) < width:
        return 'short'
    if key is not None:
        k = key()
        for x in sorted(mapping):
            if S.conc(k == x):
                return mapping[x]
        return default or 'refused'
    if kind == 'text':
        z0, z1 = S.conc(data[0] == 0), S.conc(data[1] == 0)
        for x in sorted(mapping):
            y = list(bytearray(x)) + [0] * (2 - len(x))
            if S.conc(S.and_(data[0] == y[0], data[1] == y[1])):
                return mapping[x]
        return default or 'refused'
    v = bytes_value(data[:2], False)
    return mapping['x'] if S.conc(v == 7) else mapping['y'] if S.conc(v == 300) else 'refused'


def agree(S, T, content, width, out, tell, s, label):
    """out is what reading a T from the start of the content gives"""
    direct = io.BytesIO(bytes(bytearray(content)))
    want = S.outcome(lambda: T.create_from_stream(direct))
    if not want.ok:
        S.check(not out.ok, label + ': refused like the chosen struct')
        return
    if direct.tell() < width:
        S.check(not out.ok and isinstance(out.exc, InstructError), label + ': bytes looked at are left')
        return
    S.check(out.ok, label + ': read')
    if out.ok:
        S.check(type(out.value) is T, label + ': type')
        S.check(same(S, out.value, want.value), label + ': the same struct')
        S.check(tell() == direct.tell(), label + ': bytes consumed')
        S.check(same_bytes(S, s.read(99), list(content)[direct.tell():]), label + ': what follows')


def by_key(S, cfg):
    kind, with_default, n = cfg
    total = S.choice('total', (1, 2, n) if n > 2 else (n,))
    data = list(S.bytes('data', total))
    km, key, width, mapping = key_of(S, kind, data)
    default = {'none': None, 'some': E1, 'tiny': Tiny}[with_default]
    m = StructSelector(km, mapping, default)
    T = chosen(S, kind, data, mapping, key, width, default)
    s, tell = opened(S, data)
    out = S.outcome(lambda: m.create_from_stream(s))
    if T == 'short':
        S.check(not out.ok, 'a cut off key is refused')
    elif T == 'refused':
        S.check(not out.ok, 'unmapped keys are refused')
        S.check(isinstance(out.exc, (InstructError, KeyError) if kind == 'mapped' else InstructError), 'library error')
    else:
        agree(S, T, data, width, out, tell, s, 'chosen by key')


def declared(S, cfg):
    """what can be mapped"""
    bad = S.choice('bad', (5, 'A1', None, UBInt8, int))
    at = S.choice('at', (0, 1))
    S.check(not S.outcome(lambda: StructSelector(UBInt8, {0: A1, 1: bad} if at else {0: bad})).ok, 'only structs')
    m = StructSelector(UBInt8, {}, A1 if at else None)
    data = list(S.bytes('data', 3))
    out = S.outcome(lambda: m.create_from_string(bytes(bytearray(data))))
    S.check(out.ok == bool(at), 'the default takes every key')
    if at:
        S.check(S.and_(S.eq(out.value.k, data[0]), S.eq(out.value.v, bytes_value(data[1:], False))), 'read')


# ------------------------------------------------------------------------------------------------ by function
CLASSES = [A1, B1, C1, D1, E1, F1, Tiny, Nothing]


def by_function(S, cfg):
    """the function looks at any number of bytes, then chooses"""
    n, classes = cfg
    data = list(S.bytes('data', n))
    p, q = S.choice('p', (0, 1, 3, n)), S.choice('q', (0, 2))
    T = classes[S.choice('class', range(len(classes)))]
    seen = []

    def func(stream, context):
        seen.append(stream.read(p))
        seen.append(stream.read(q))
        return T
    s, tell = opened(S, data)
    out = S.outcome(lambda: FuncStructSelectorMarshal(func).create_from_stream(s))
    S.check(len(seen) == 2 and len(seen[0]) == min(p, n), 'asked')
    S.check(S.and_(same_bytes(S, seen[0], data[:p]), same_bytes(S, seen[1], data[p:p + q])), 'sees the bytes in order')
    agree(S, T, data, min(n, p + q), out, tell, s, 'chosen by function')


def in_struct(S, cfg):
    """the function sees the struct read so far; fields before and after"""
    seen = []

    def func(obj, stream, context):
        seen.append(obj.a)
        x = Tiny.create_from_stream(stream, context)
        return A1 if obj.a < 9 else B1 if S.conc(x.k == obj.a) else C1

    class T(Struct):
        _fields_ = [UBInt8('a'), SelectStructByFunc('s', func), UBInt8('z')]
    data = list(S.bytes('data', cfg))
    X = A1 if S.conc(data[0] < 9) else B1 if S.conc(data[1] == data[0]) else C1

    class U(Struct):
        _fields_ = [UBInt8('a'), Field('s', X), UBInt8('z')]
    out = S.outcome(lambda: T.create_from_string(bytes(bytearray(data))))
    want = S.outcome(lambda: U.create_from_string(bytes(bytearray(data))))
    S.check(out.ok == want.ok, 'read or refused like the chosen struct')
    S.check(len(seen) > 0 and S.conc(S.eq(seen[0], data[0])), 'given the struct read so far')
    if out.ok:
        a, b = out.value, want.value
        S.check(type(a.s) is X, 'type')
        S.check(S.and_(S.eq(a.a, b.a), same(S, a.s, b.s), S.eq(a.z, b.z)), 'the same values')
        S.check(same_bytes(S, a.to_bytes(), b.to_bytes()), 'written')
        S.check(T.sizeof(a) == U.sizeof(b), 'size')


class Inner1(Struct):
    _fields_ = [UBInt8('k'), Field('s', StructSelectorMarshal(UBInt8, {1: A1, 2: C1})), UBInt8('e')]
    names = ('k', 's', 'e')


class Inner2(Struct):
    _fields_ = [UBInt8('k'), SelectStructByFunc('s', lambda o, s, c: Inner1 if s.read(2)[1:2] == b'\x01' else C1)]
    names = ('k', 's')


class Peeker(Struct):
    """looks ahead with a struct that itself is chosen by looking ahead"""
    _fields_ = [Field('s', StructSelectorMarshal(UBInt8, {7: A1}, C1))]


def by_peeker(stream, context):
    x = Peeker.create_from_stream(stream, context).s
    return A1 if isinstance(x, A1) else C1


def nested(S, cfg):
    """against plain reading of the same bytes"""
    shape, n = cfg
    data = list(S.bytes('data', n))
    pos = [0]

    def take(k):
        if pos[0] + k > n:
            raise EOFError()
        r = data[pos[0]:pos[0] + k]
        pos[0] += k
        return r

    def a1():
        x = take(3)
        return A1(k=x[0], v=bytes_value(x[1:], False))

    def c1():
        x = take(2)
        return C1(k=x[0], x=x[1])

    def inner1():
        k = take(1)[0]
        if pos[0] >= n:
            raise EOFError()
        if S.conc(data[pos[0]] == 1):
            s = a1()
        elif S.conc(data[pos[0]] == 2):
            s = c1()
        else:
            raise EOFError()
        return Inner1(k=k, s=s, e=take(1)[0])

    def inner2():
        k = take(1)[0]
        if pos[0] + 1 < n and S.conc(data[pos[0] + 1] == 1):
            return Inner2(k=k, s=inner1())
        return Inner2(k=k, s=c1())

    def three():
        if pos[0] >= n:
            raise EOFError()
        if S.conc(data[pos[0]] == 1):
            return inner1()
        if S.conc(data[pos[0]] == 2):
            return inner2()
        return c1()

    def peeker():
        if pos[0] >= n:
            raise EOFError()
        return a1() if S.conc(data[pos[0]] == 7) else c1()
    sel = StructSelectorMarshal(UBInt8, {1: Inner1, 2: Inner2}, C1)
    if shape == 'deep':
        m, plain = sel, three
    elif shape == 'list':
        m, plain = FixedSizeArrayMarshal(2, sel), lambda: [three(), three()]
    elif shape == 'peeker':
        m, plain = FuncStructSelectorMarshal(by_peeker), peeker
    else:
        m, plain = VarSizeArrayMarshal(UBInt8, FuncStructSelectorMarshal(by_peeker)), lambda: [peeker() for i in range(min(S.conc(take(1)[0]), n))]
        S.assume(data[0] <= 3)
    try:
        want, good = plain(), True
    except EOFError:
        want, good = None, False
    s, tell = opened(S, data)
    out = S.outcome(lambda: m.create_from_stream(s))
    S.check(out.ok == good, 'read exactly when the chosen structs are there')
    if good and out.ok:
        S.check(same(S, out.value, want), 'the same structs')
        S.check(tell() == pos[0], 'bytes consumed')
        S.check(same_bytes(S, m.write_to_string(out.value), data[:pos[0]]), 'written back')
        S.check(m.sizeof(out.value) == pos[0], 'size')


def padded_inside(S, cfg):
    """lists counted by their bytes after a look-ahead"""
    m = StructSelectorMarshal(UBInt32, {}, D1) if cfg == 'key' else FuncStructSelectorMarshal(lambda s, c: (s.read(4), D1)[1])
    data = list(S.bytes('data', 9))
    want = S.outcome(lambda: D1.create_from_string(bytes(bytearray(data))))
    s, tell = opened(S, data)
    out = S.outcome(lambda: m.create_from_stream(s))
    S.check(out.ok == want.ok, 'read or refused like the struct itself')
    if out.ok:
        S.check(same(S, out.value, want.value), 'the same struct')


class Nil(Struct):
    _fields_ = []


class Link(Struct):
    """a struct that may hold another of its kind"""
    _fields_ = [UBInt8('tag'), SelectStructByFunc('rest', lambda obj, stream, context: Link if obj.tag >= 200 else Nil)]


class Tree(Struct):
    """a struct that holds a list of its kind"""
    _fields_ = [UBInt8('value'), VarSizeArray('items', UBInt8Marshal, FuncStructSelectorMarshal(lambda stream, context: Tree))]


def chain(S, cfg):
    """structs that hold structs of their own class"""
    k = S.choice('k', range(4))
    tags = [S.bits('t%d' % i, 8) for i in range(k + 1)]
    o = Nil()
    for t in tags[::-1]:
        o = Link(tag=t, rest=o)
    S.check(same_bytes(S, Link.write_to_string(o), tags), 'written bytes')
    S.check(Link.sizeof(o) == k + 1, 'size')
    data = S.bytes('data', 5)
    S.assume(data[4] < 200)
    stream, tell = opened(S, data)
    x = Link.create_from_stream(stream)
    n = 0
    while isinstance(x, Link):
        S.check(S.eq(x.tag, data[n]), 'tags')
        S.check(S.eq(data[n] >= 200, isinstance(x.rest, Link)), 'goes on')
        n, x = n + 1, x.rest
    S.check(isinstance(x, Nil), 'ends')
    S.check(tell() == n, 'what was read')


def tree(S, cfg):
    """and lists of them: against a parser written here"""
    data = S.bytes('data', cfg)

    def parse(at, left):
        if at + 2 > len(data) or data[at + 1] > left:
            return None
        n = S.conc(data[at + 1])
        node, at = [n, data[at], []], at + 2
        for i in range(n):
            sub = parse(at, left)
            if sub is None:
                return None
            node[2].append(sub[0])
            at = sub[1]
        return node, at

    def same(o, node):
        return S.and_(len(o.items) == node[0], S.eq(o.value, node[1]), *[same(a, b) for a, b in zip(o.items, node[2])])

    def built(node):
        return Tree(value=node[1], items=[built(x) for x in node[2]])
    want = parse(0, 2)
    S.assume(want is not None)
    stream, tell = opened(S, data)
    t = Tree.create_from_stream(stream)
    S.check(tell() == want[1], 'what was read')
    S.check(same(t, want[0]), 'values')
    for x in (t, built(want[0])):
        S.check(same_bytes(S, Tree.write_to_string(x), list(data[:want[1]])), 'written again')
        S.check(Tree.sizeof(x) == want[1], 'size')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('peeks', peeks, [(8, 1, 2), (8, 2, 2)] + ([(8, 3, 3), (8, 2, 4)] if full else []), 1)
    n = 8 if full else 6
    obs += group('by_key', by_key, [(k, d, n) for k in ('byte', 'signed', 'word', 'text', 'mapped') for d in ('none', 'some')] + [('word', 'tiny', n), ('text', 'tiny', n)], 2)
    obs += group('declared', declared, [None], 1)
    obs += group('by_function', by_function, [(n, CLASSES[:3]), (n, CLASSES[3:6]), (n, CLASSES[6:])], 1)
    obs += group('in_struct', in_struct, [6] + ([8] if full else []), 1)
    obs += group('nested', nested, [('deep', 7), ('list', 6 if not full else 8), ('peeker', 4), ('peekers', 7 if not full else 9)], 1)
    obs += group('padded', padded_inside, ['key', 'function'], 2)
    obs += [Ob('chain', chain), Ob('tree', tree, cfg=6 if not full else 8)]
    return obs
