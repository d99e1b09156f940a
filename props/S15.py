"""Struct reading refuses truncated input."""
import io
from .lib import *
from . import structs, compose
from .structs import *
from .S03 import MARSHALS
from .S04 import OneWay, Strings, Counted, Bitty, Chosen, Waiting

BOUNDS = ('every cut of every encoding of 24 structs and 57 serializers of every kind with every value within the bounds of S02, read from bytes, files and streams that '
          'can only be read; every cut of every accepted content of up to 6 bytes of 11 structs')
BOUNDS += '; structs of any two of 20 kinds of field side by side or the second in a nested struct, list, lazy group, optional field (props/compose.py; quick: fewer arrangements)'


def read_cut(S, T, data):
    how = S.choice('how', ('bytes', 'file', 'one way'))
    if how == 'bytes':
        return S.outcome(lambda: T.create_from_string(data))
    s = io.BytesIO(data) if how == 'file' else OneWay(data)
    return S.outcome(lambda: T.create_from_stream(s))


def refused(S, out, label):
    S.check(not out.ok, label)
    S.check(isinstance(out.exc, Exception), label + ', with an error')


def cut(S, cfg):
    case, big = cfg
    c = case(S, big)
    if not c.want:
        S.check(True, 'nothing to cut')
        return
    k = S.choice('cut', range(len(c.want)))
    refused(S, read_cut(S, c.T, bytes(bytearray(c.want[:k]))), 'cut encoding')
    S.reach('cut')


def cut_last(S, cfg):
    """the last struct of a row"""
    case, big = cfg
    c = case(S, big)
    if not c.want:
        S.check(True, 'nothing to cut')
        return
    k = S.choice('missing', range(1, min(4, len(c.want)) + 1))
    s = io.BytesIO(bytes(bytearray((c.want + c.want)[:-k])))
    c.T.create_from_stream(s)
    refused(S, S.outcome(lambda: c.T.create_from_stream(s)), 'cut in a row')


def inside(S, cfg):
    """inside other structs, arrays and optional fields"""
    case, big = cfg
    c = case(S, big)
    if not c.want:
        S.check(True, 'nothing to cut')
        return
    kind = S.choice('kind', ('array', 'optional', 'field'))

    class T(Struct):
        _fields_ = [UBInt8('n'), {'array': VarSizeArray('x', UBInt8, c.T), 'optional': OptionalField('x', c.T, lambda o, s, ctx: o.n == 1),
                                  'field': Field('x', c.T)}[kind]]
    want = [1] + ([2] + c.want + c.want if kind == 'array' else c.want)
    whole = S.outcome(lambda: T.create_from_string(bytes(bytearray(want))))
    S.check(whole.ok, 'whole')
    k = S.choice('missing', (1, 2, len(c.want)))
    refused(S, S.outcome(lambda: T.create_from_string(bytes(bytearray(want[:-k])))), 'cut inside')


def part(S, cfg):
    i, big = cfg
    m, gen = MARSHALS[i]
    v = gen(S, big)
    data = bytes(m.write_to_string(v))
    if not data:
        return
    k = S.choice('cut', range(len(data)))
    refused(S, read_cut(S, m, data[:k]), 'cut encoding')


def content(S, cfg):
    """whatever bytes were accepted, fewer of them are not"""
    T, n = cfg
    data = S.bytes('data', n)
    s = OneWay(bytes(data))
    out = S.outcome(lambda: T.create_from_stream(s))
    if not out.ok or s.position == 0:
        return
    S.reach('read')
    k = S.choice('cut', range(s.position))
    refused(S, read_cut(S, T, bytes(data[:k])), 'cut content')


class Numbers(Struct):
    _fields_ = [UBInt8('a'), SLInt32('b'), UBInt8('c')]


class Bits16(Struct):
    _fields_ = [BitFields(BitField('a', 3), BitField('b', 10), BitPadding(3)), BitFields(BitField('c', Bits[0:2, 12:16]))]


class Odd(Struct):
    _fields_ = [BytePadding(2, b'\xff'), FixedSizeBuffer('b', 2), PaddedString('c', 2, b' ', PADDING_DIRECTION_LEFT)]


class Many(Struct):
    _fields_ = [FixedSizeArray('a', 2, UBInt16), VarSizeBuffer('b', UBInt8)]


class Slow(Struct):
    _fields_ = [Lazy(UBInt8('a'), BitFields(BitField('b', 4), BitField('c', 4)), FixedSizeArray('d', 2, UBInt8), BytePadding(1))]


class Real(Struct):
    _fields_ = [BFloat32('a'), UBInt16('b')]


def obligations(tier):
    full = tier == 'thorough'
    cases = structs.CASES
    light = [c for c in cases if c not in (structs.nested, structs.selected, structs.array_of_arrays, structs.optionals, structs.struct_arrays,
                                           structs.nested_pointers)]
    obs = group('cut', cut, [(c, full) for c in cases], 2)
    obs += group('arranged', cut, [(c, False) for c in compose.cases(1, compose.HOWS if full else ('flat',), among=None if full else compose.SOME)], 1)
    obs += group('row', cut_last, [(c, False) for c in (cases if full else light)], 3)
    obs += group('inside', inside, [(c, False) for c in (cases if full else light)], 3)
    obs += group('part', part, [(i, full) for i in range(len(MARSHALS))], 8)
    obs += group('content', content, [(Numbers, 6), (Strings, 6), (Counted, 6), (Bitty, 5), (Chosen, 6), (Waiting, 6), (Bits16, 5), (Odd, 6), (Many, 6), (Slow, 5),
                                      (Real, 6)], 2)
    return obs
