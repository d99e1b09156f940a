"""Reading a struct consumes exactly its own bytes from the stream."""
import io
from .lib import *
from . import structs, compose
from .structs import *
from .S03 import MARSHALS
from array import array as bytes_array

BOUNDS = ('24 structs and 57 serializers of every kind with every value within the bounds of S02; 0..2 bytes before and 0..3 arbitrary bytes after; '
          'two or three reads in a row (the same type, or any of a set of pairs of types); streams with and without tell')
BOUNDS += '; structs of any two of 20 kinds of field side by side or the second in a nested struct, list, lazy group, optional field (props/compose.py; quick: fewer arrangements)'


class OneWay(object):
    """A stream that can only be read."""

    def __init__(self, data):
        self.data, self.position = data, 0

    def read(self, n):
        part = self.data[self.position:self.position + n]
        self.position += len(part)
        return part


class Sink(object):
    """A stream that can only be written."""

    def __init__(self):
        self.parts = []

    def write(self, data):
        self.parts += list(bytearray(data))


def opened(S, data):
    """a stream in the state in which it's to be read, and a function giving its position"""
    if S.choice('stream', ('file', 'one way')) == 'file':
        s = io.BytesIO(data)
        return s, s.tell
    s = OneWay(data)
    return s, lambda: s.position


def exact(S, cfg):
    case, big = cfg
    c = case(S, big)
    before, after = S.bytes('before_', 2 if big else 1), S.bytes('after_', S.choice('tail', (0, 3)))
    data = before + bytes(bytearray(c.want)) + after
    s, tell = opened(S, data)
    s.read(len(before))
    t = c.T.create_from_stream(s)
    S.check(tell() == len(before) + len(c.want), 'bytes consumed')
    S.check(same_bytes(S, s.read(100), after), 'what follows is left')
    c.check_values(S, t, 'read')
    S.check(tell() == len(data), 'using the fields reads no more')


def again(S, cfg):
    """instances one after the other"""
    case, big = cfg
    c = case(S, big)
    k = 3 if big else 2
    after = S.bytes('after_', 1)
    s, tell = opened(S, bytes(bytearray(c.want * k)) + after)
    got = []
    for i in range(k):
        got.append(c.T.create_from_stream(s))
        S.check(tell() == len(c.want) * (i + 1), 'bytes consumed by %d' % (i + 1))
    S.check(same_bytes(S, s.read(9), after), 'what follows is left')
    for i in S.choice('use', (list(range(k)), list(range(k))[::-1])):
        c.check_values(S, got[i], 'instance %d' % i)
    out = Sink()
    for t in got:
        c.T.write_to_stream(t, out)
    S.check(same_bytes(S, out.parts, c.want * k), 'written one after the other')


def mixed(S, cfg):
    """instances of two types one after the other, used after both were read"""
    first, second, big = cfg
    from .S02 import Prefixed
    a, b = first(Prefixed(S, 'p'), big), second(Prefixed(S, 'q'), big)
    s = io.BytesIO()
    a.T.write_to_stream(a.object(), s)
    S.check(s.tell() == len(a.want), 'first written')
    b.T.write_to_stream(b.object(), s)
    a.T.write_to_stream(a.object(), s)
    S.check(same_bytes(S, s.getvalue(), a.want + b.want + a.want), 'written')
    s.seek(0)
    x = a.T.create_from_stream(s)
    S.check(s.tell() == len(a.want), 'first')
    y = b.T.create_from_stream(s)
    S.check(s.tell() == len(a.want + b.want), 'second')
    z = a.T.create_from_stream(s)
    S.check(s.tell() == len(a.want + b.want + a.want), 'third')
    b.check_values(S, y, 'second')
    a.check_values(S, x, 'first')
    a.check_values(S, z, 'third')


def part(S, cfg):
    """values of every kind of serializer on their own"""
    i, big = cfg
    m, gen = MARSHALS[i]
    v = gen(S, big)
    sink = Sink()
    m.write_to_stream(v, sink)
    data = m.write_to_string(v)
    S.check(same_bytes(S, data, sink.parts), 'written to a stream')
    after = S.bytes('after_', S.choice('tail', (0, 2)))
    s, tell = opened(S, bytes(data) + bytes(data) + after)
    got = m.create_from_stream(s)
    S.check(tell() == len(data), 'bytes consumed')
    other = m.create_from_stream(s)
    S.check(tell() == 2 * len(data), 'bytes consumed by the next')
    S.check(same_bytes(S, s.read(9), after), 'what follows is left')
    S.check(same(S, got, other) if isinstance(got, Struct) and hasattr(got, 'names') else True, 'the same twice')


def content(S, cfg):
    """any bytes: the size of what was read is what was consumed, whatever follows"""
    T, n, fixed = cfg
    data = S.bytes('data', n)
    s, tell = opened(S, bytes(data))
    out = S.outcome(lambda: T.create_from_stream(s))
    if not out.ok:
        S.observe('refused', out.name())
        return
    used = tell()
    S.reach('read')
    S.check(used <= n, 'no more than there is')
    if fixed:
        S.check(used == T.min_max_sizeof().min, 'bytes consumed')
    tail = s.read(99)
    S.check(same_bytes(S, tail, list(data)[used:]), 'the rest follows')
    more = S.choice('more', (0, 2))
    s2 = OneWay(bytes(data[:used]) + b'\xff' * more)
    T.create_from_stream(s2)
    S.check(s2.position == used, 'whatever follows')


class Strings(Struct):
    _fields_ = [PaddedString('a', 2), VarSizeString('b', UBInt8), UBInt8('c')]


class Counted(Struct):
    _fields_ = [VarSizeArray('a', UBInt8, UBInt16), SumSizeArray('b', UBInt8, Named)]


class Bitty(Struct):
    _fields_ = [BitFields(BitField('n', 2), BitPadding(6)), VarSizeArray('l', ReadPointer('n'), UBInt8), BytePadding(1)]


class Chosen(Struct):
    _fields_ = [Field('s', StructSelectorMarshal(UBInt8, {1: KindA, 2: KindB}, KindC)), UBInt8('e')]


class Waiting(Struct):
    _fields_ = [Lazy(UBInt16('a'), PaddedString('s', 1)), OptionalField('o', UBInt16, lambda o, s, c: o.a > 7), UBInt8('e')]


def from_array(S, cfg):
    """an array of bytes is read as those bytes"""
    x = S.choice('data', (b'\x02abz', b'\x00\xff', b'\x01\x00\x00', b'\x03ab'))

    class T(Struct):
        _fields_ = [VarSizeBuffer('d', UBInt8), UBInt8('e')]
    out, want = S.outcome(lambda: T.create_from_string(bytes_array('B', x))), S.outcome(lambda: T.create_from_string(x))
    S.check(out.ok == want.ok, 'the same outcome')
    if want.ok:
        S.check(bytes(out.value.d) == want.value.d and out.value.e == want.value.e, 'the same values')
        S.check(out.value.to_bytes() == x, 'written back')


def obligations(tier):
    full = tier == 'thorough'
    cases = structs.CASES
    obs = group('exact', exact, [(c, full) for c in cases], 2)
    obs += group('again', again, [(c, full) for c in cases], 2)
    obs += group('arranged', exact, [(c, False) for c in compose.cases(1, compose.HOWS if full else ('flat', 'list'))], 1)
    obs += group('part', part, [(i, full) for i in range(len(MARSHALS))], 8)
    obs += group('content', content, [(Strings, 6, False), (Counted, 6, False), (Bitty, 5, False), (Chosen, 6, False), (Waiting, 6, False), (Pair, 5, True)], 2)
    light = [structs.numbers, structs.var_strings, structs.arrays, structs.bit_groups, structs.constants, structs.lazy, structs.mapped, structs.inherited,
             structs.pointers]
    pairs = [(light[i], light[(i * 2 + 1) % len(light)], False) for i in range(len(light))]
    if full:
        pairs = [(a, b, False) for a in light + [structs.optionals, structs.selected_lists] for b in light]
    obs += group('mixed', mixed, pairs, 3)
    obs += [Ob('from-array', from_array, None)]
    return obs
