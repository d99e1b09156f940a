"""Struct strings and buffers keep their content and never overrun."""
import io
from .lib import *
from .structs import *
from infi.instruct.string import PADDING_DIRECTION_BOTH
from .S04 import OneWay

BOUNDS = ('fixed sizes 0..4 (thorough 0..9) with every content of 0..2 bytes more; prefixed strings and buffers of 0..4 (thorough 0..9) bytes with prefixes of 10 integer types, '
          'and of lengths around 127, 255, 32767 and 65535; paddings 0, space, 0xff and two characters, on the right, left, both sides or refused; every content of the encoded bytes')

PADS = [b'\x00', b' ', b'\xff']
R, L, B, N = PADDING_DIRECTION_RIGHT, PADDING_DIRECTION_LEFT, PADDING_DIRECTION_BOTH, PADDING_DIRECTION_NONE


def stripped(S, v, side, pad):
    """elements of v without padding, forking on where it ends"""
    v, chars = list(v), list(bytearray(pad))
    a, b = 0, len(v)

    def is_pad(x):
        return S.conc(S.or_(*[x == c for c in chars]))
    if side in (R, B):
        while b > a and is_pad(v[b - 1]):
            b -= 1
    if side in (L, B):
        while a < b and is_pad(v[a]):
            a += 1
    return v[a:b]


def filled(v, size, side, pad):
    fill = [bytearray(pad)[0]] * (size - len(v))
    return fill + v if side == L else v + fill


def fixed(S, cfg):
    n, side, pad, extra = cfg
    k = S.choice('k', range(n + extra + 1))
    v = S.bytes('v', k)
    a, b = S.bits('a', 8), S.bits('b', 8)

    class T(Struct):
        _fields_ = [UBInt8('a'), PaddedString('s', n, pad, side), UBInt8('b')]
    t = T(a=a, s=v, b=b)
    core = stripped(S, v, side, pad)
    out = S.outcome(t.to_bytes)
    good = len(core) == n if side == N else len(core) <= n
    S.check(out.ok == good, 'accepted exactly when it fits')
    S.check(S.eq(t.s, v), 'writing leaves the value')
    if not out.ok:
        S.check(isinstance(out.exc, InstructError), 'library error')
        return
    S.check(same_bytes(S, out.value, [a] + filled(core, n, side, pad) + [b]), 'content and padding')
    S.check(T.sizeof(t) == n + 2, 'size')
    r = T.create_from_string(bytes(out.value))
    S.check(same_bytes(S, r.s, core), 'content read back')
    S.check(S.and_(S.eq(r.a, a), S.eq(r.b, b)), 'around')


def fixed_read(S, cfg):
    n, side, pad = cfg

    class T(Struct):
        _fields_ = [PaddedString('s', n, pad, side), UBInt8('b')]
    data = S.bytes('data', n + 1)
    t = T.create_from_string(bytes(data))
    S.check(same_bytes(S, t.s, stripped(S, list(data)[:n], side, pad)), 'content without padding')
    S.check(S.eq(t.b, data[n]), 'what follows')
    if len(t.s):
        back = t.to_bytes()
        S.check(len(back) == n + 1, 'size written back')
        S.check(same_bytes(S, T.create_from_string(bytes(back)).s, t.s), 'and the same content')


def buffers(S, cfg):
    """exactly the size, verbatim"""
    n = cfg
    k = S.choice('k', range(n + 3))
    v = S.bytes('v', k)

    class T(Struct):
        _fields_ = [FixedSizeBuffer('s', n), UBInt8('b')]
    t = T(s=v, b=7)
    out = S.outcome(t.to_bytes)
    S.check(out.ok == (k == n), 'exactly its size')
    if out.ok:
        S.check(same_bytes(S, out.value, list(v) + [7]), 'verbatim')
        S.check(same_bytes(S, T.create_from_string(bytes(out.value)).s, v), 'read back')
    else:
        S.check(isinstance(out.exc, InstructError), 'library error')


PREFIXES = [(UBInt8, 1, False), (ULInt8, 1, True), (SBInt8, 1, False), (UBInt16, 2, False), (ULInt16, 2, True), (SLInt16, 2, True), (UBInt32, 4, False), (ULInt32, 4, True),
            (UBInt64, 8, False), (SLInt64, 8, True)]


def prefixed(S, cfg):
    (pm, w, little), side, pad, most = cfg
    k = S.choice('k', range(most + 1))
    v = S.bytes('v', k)
    a, b = S.bits('a', 8), S.bits('b', 8)

    class T(Struct):
        _fields_ = [UBInt8('a'), VarSizeString('s', pm, pad, side) if pad is not None else VarSizeBuffer('s', pm), UBInt8('b')]
    t = T(a=a, s=v, b=b)
    core = stripped(S, v, side, pad) if pad is not None else list(v)
    data = t.to_bytes()
    S.check(same_bytes(S, data, [a] + value_bytes(len(core), w, little) + core + [b]), 'prefix matching the bytes that follow')
    S.check(T.sizeof(t) == len(data), 'size')
    S.check(S.eq(t.s, v), 'writing leaves the value')
    r = T.create_from_string(bytes(data))
    S.check(same_bytes(S, r.s, core), 'content read back')
    S.check(S.and_(S.eq(r.a, a), S.eq(r.b, b)), 'around')


def prefixed_read(S, cfg):
    side, pad, n = cfg

    class T(Struct):
        _fields_ = [VarSizeString('s', UBInt8, pad, side) if pad is not None else VarSizeBuffer('s', UBInt8)]
    data = list(S.bytes('data', n))
    s = io.BytesIO(bytes(bytearray(data))) if S.choice('stream', ('file', 'one way')) == 'file' else OneWay(bytes(bytearray(data)))
    k = S.conc(data[0]) if S.conc(data[0] < n) else n
    out = S.outcome(lambda: T.create_from_stream(s))
    S.check(out.ok == (k < n), 'refused exactly when there are fewer bytes')
    if not out.ok:
        S.check(isinstance(out.exc, InstructError), 'library error')
        return
    part = data[1:1 + k]
    S.check(same_bytes(S, out.value.s, stripped(S, part, side, pad) if pad is not None else part), 'content without padding')
    S.check(same_bytes(S, s.read(99), data[1 + k:]), 'the rest is left')


def too_long(S, cfg):
    pm, top, w = cfg
    n = S.choice('n', [top - 1, top, top + 1, 2 * top + 2])
    v = S.bits('v', 8)
    S.assume(v != 0)
    value = bytes(bytearray([1] * (n - 1) + [v]))
    m = S.choice('kind', (VarSizeStringMarshal, VarSizeBufferMarshal))(pm)
    out = S.outcome(lambda: m.write_to_string(value))
    S.check(out.ok == (n <= top), 'refused exactly when the prefix cannot hold it')
    if not out.ok:
        S.check(isinstance(out.exc, InstructError), 'library error')
        return
    S.check(len(out.value) == n + w and m.sizeof(value) == n + w, 'size')
    S.check(S.eq(out.value[n + w - 1], v), 'last byte')
    back = m.create_from_string(bytes(out.value))
    S.check(S.and_(len(back) == n, S.eq(back[n - 1], v)), 'read back')


def overlong(S, cfg):
    """contents much longer than a fixed size"""
    n, side = cfg
    k = S.choice('k', (n, n + 1, 2 * n, 300))
    v = S.bits('v', 8)
    S.assume(S.and_(v != 0, v != 32))
    value = bytes(bytearray([v] * k))
    m = PaddedStringMarshal(n, S.choice('pad', (b'\x00', b' ')), side)
    out = S.outcome(lambda: m.write_to_string(value))
    S.check(out.ok == (k == n), 'content that does not fit is refused')
    if out.ok:
        S.check(same_bytes(S, out.value, [v] * n), 'written')


def pointed(S, cfg):
    """length in another field"""
    kind = cfg

    class T(Struct):
        _fields_ = [UBInt8('n'), UBInt8('x'), VarSizeBuffer('s', ReadPointer('n')) if kind == 'buffer' else VarSizeString('s', ReadPointer('n')), UBInt8('b')]
    data = list(S.bytes('data', 6))
    k = S.conc(data[0]) if S.conc(data[0] <= 4) else 5
    out = S.outcome(lambda: T.create_from_string(bytes(bytearray(data))))
    S.check(out.ok == (k <= 3), 'refused exactly when there are fewer bytes')
    if out.ok:
        part = data[2:2 + k]
        S.check(same_bytes(S, out.value.s, part if kind == 'buffer' else stripped(S, part, R, b'\x00')), 'content')
        S.check(S.eq(out.value.b, data[2 + k]), 'what follows')
        if kind == 'buffer':
            S.check(same_bytes(S, out.value.to_bytes(), data[:3 + k]), 'written back')


def defaults(S, cfg):
    n, k = S.choice('n', range(4)), S.choice('k', range(6))
    d = raw(S, 'd', k)
    p = S.outcome(lambda: PaddedString('p', n, default=d))
    q = S.outcome(lambda: FixedSizeBuffer('q', n, default=d))
    S.check(p.ok == (k <= n), 'a default string fits')
    S.check(q.ok == (k == n), 'a default buffer has the size')

    class T(Struct):
        _fields_ = [VarSizeString('v', UBInt8, default=d), VarSizeBuffer('w', ULInt16, default=d)] + [f.value for f in (p, q) if f.ok]
    want = [k] + list(d) + [k, 0] + list(d) + (list(d) + [0] * (n - k) if p.ok else []) + (list(d) if q.ok else [])
    S.check(same_bytes(S, T().to_bytes(), want), 'defaults written')


def many(S, cfg):
    """strings one after the other do not overrun each other"""
    class T(Struct):
        _fields_ = [PaddedString('a', 2), PaddedString('b', 3, b' ', L), VarSizeString('c', UBInt8), FixedSizeString('d', 1), VarSizeBuffer('e', ULInt16)]
    ks = [S.choice('n' + c, range(m + 1)) for c, m in zip('abcde', cfg)]
    vs = [S.bytes(c, k) for c, k in zip('abcde', ks)]
    cores = [stripped(S, vs[0], R, b'\x00'), stripped(S, vs[1], L, b' '), stripped(S, vs[2], R, b'\x00'), stripped(S, vs[3], R, b'\x00'), list(vs[4])]
    t = T(**dict(zip('abcde', vs)))
    data = t.to_bytes()
    S.check(same_bytes(S, data, filled(cores[0], 2, R, b'\x00') + filled(cores[1], 3, L, b' ') + [len(cores[2])] + cores[2] + filled(cores[3], 1, R, b'\x00') +
                       [len(cores[4]), 0] + cores[4]), 'written')
    r = T.create_from_string(bytes(data))
    for c, want in zip('abcde', cores):
        S.check(same_bytes(S, getattr(r, c), want), 'read back')


def negative(S, cfg):
    """a length that is negative is refused, and nothing after it is read"""
    prefix, size, little, kind = cfg
    bits = 8 * size
    m = VarSizeStringMarshal(prefix) if kind == 'string' else VarSizeBufferMarshal(prefix)
    n = S.int('n', -(1 << (bits - 1)), 2)
    rest = S.bytes('rest', 3)
    stream = io.BytesIO(bytes(bytearray((le if little else be)(n, size))) + rest)
    out = S.outcome(lambda: m.create_from_stream(stream))
    k = S.conc(n) if S.conc(n >= 0) else -1
    S.check(out.ok == (k >= 0), 'refused exactly when negative')
    if out.ok:
        part = rest[:k]
        S.check(same_bytes(S, out.value, part if kind == 'buffer' else stripped(S, part, R, b'\x00')), 'content')
        S.check(stream.tell() == size + k, 'position')
    else:
        S.check(isinstance(out.exc, InstructError), 'library error')
        S.check(stream.tell() == size, 'nothing more is read')


def negative_pointed(S, cfg):
    class T(Struct):
        _fields_ = [SBInt16('n'), UBInt8('x'), VarSizeBuffer('s', ReadPointer('n')), UBInt8('b')]
    data = S.bytes('data', 6)
    n = signed(bytes_value(data[0:2], False), 16)
    S.assume(n <= 2)
    out = S.outcome(lambda: T.create_from_string(data))
    S.check(out.ok == S.conc(n >= 0), 'refused exactly when negative')
    if out.ok:
        S.check(same_bytes(S, out.value.to_bytes(), data[:4 + S.conc(n)]), 'written back')
    else:
        S.check(isinstance(out.exc, InstructError), 'library error')


def obligations(tier):
    full = tier == 'thorough'
    top = 9 if full else 4
    sides = [(R, b'\x00'), (R, b' '), (L, b'\x00'), (L, b'\xff'), (B, b' '), (N, b'\x00'), (R, b' \x00'), (L, b' \x00')]
    obs = group('fixed', fixed, [(n, s, p, 2) for n in range(top + 1) for s, p in sides], 5)
    obs += group('fixed_read', fixed_read, [(n, s, p) for n in range(top + 1) for s, p in sides], 10)
    obs += group('buffers', buffers, range(6), 6)
    forms = [(R, b'\x00'), (L, b' '), (N, b'\x00'), (None, None), (B, b'\xff')]
    obs += group('prefixed', prefixed, [(p, s, pad, top if i < 2 or full else 3) for i, p in enumerate(PREFIXES) for s, pad in forms], 6)
    obs += group('prefixed_read', prefixed_read, [(s, p, 10 if full else 5) for s, p in forms], 2)
    obs += group('too_long', too_long, [(UBInt8, 255, 1), (SBInt8, 127, 1), (UBInt16, 65535, 2), (SLInt16, 32767, 2), (ULInt16, 65535, 2)], 1, steps=3000000)
    obs += group('overlong', overlong, [(n, s) for n in (0, 1, 3) for s in (R, L, B, N)], 12)
    obs += group('pointed', pointed, ['buffer', 'string'], 2)
    obs += group('defaults', defaults, [None], 1)
    obs += group('negative', negative, [(m, s, l, k) for m, s, l in ((SBInt8Marshal, 1, False), (SLInt16Marshal, 2, True), (SBInt32Marshal, 4, False)) for k in ('string', 'buffer')], 3)
    obs += [Ob('negative-pointed', negative_pointed)]
    obs += group('many', many, [(2, 3, 2, 1, 2)] if full else [(1, 3, 1, 0, 1), (2, 1, 1, 1, 0)], 1)
    return obs
