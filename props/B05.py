"""Unpacking then packing a fully covered buffer reproduces the bytes."""
from .layouts import *

BOUNDS = 'fully covering layouts of props/layouts.py (at most 14 bytes), every byte string of the right length'


def bytes_roundtrip(S, name):
    fields = FULL[name]
    T = build(fields)
    n = total_bits(fields)
    assert n % 8 == 0 and sorted(p for f in fields for p in f.pos) == list(range(n))
    data = S.bytes('data', n // 8)
    t = T()
    t.unpack(data)
    again = t.pack()
    S.observe('again', again)
    S.check(S.eq(again, data), 'same bytes')
    u = T()
    u.unpack(again)
    S.check(S.eq(u.pack(), data), 'same bytes after a second round')


def text(S, k):
    """text fields: bytes that do not look like padding at the stripped end"""
    class T(Buffer):
        b = str_field(where=bytes_ref[0:k])
        a = str_field(where=bytes_ref[k:k + 3], justify='right', padding=b'.')
        c = str_field(where=bytes_ref[k + 3:k + 6], justify='center', padding=b'_', strip=b'\x01')
        d = be_uint_field(where=bytes_ref[k + 6:k + 8])
    data = S.bytes('data', k + 8)
    for x in data:
        S.assume(x < 128)
    for x in (data[0:k], data[k:k + 3], data[k + 3:k + 6]):
        for y in (x[0], x[-1]):
            S.assume(S.and_(y != 0, y != 1, y != 32, y != 46, y != 95))
    e = S.bytes('e', 2)
    t = T()
    t.unpack(data[0:k + 6] + e)
    again = t.pack()
    S.observe('again', again)
    S.check(S.eq(again, data[0:k + 6] + e), 'same bytes')


def floats(S, cfg):
    endian, = cfg

    class T(Buffer):
        a = float_field(where=bytes_ref[8:12], endian=endian)
        b = float_field(where=bytes_ref[0:8], endian=endian)
    data = S.bytes('data', 12)
    t = T()
    t.unpack(data)
    S.assume(S.and_(S.not_(S.is_nan(t.a)), S.not_(S.is_nan(t.b))))
    again = t.pack()
    S.check(S.eq(again, data), 'same bytes')


def whole_buffer(S, cfg):
    """fields that take everything up to the end"""
    n, kind = cfg
    if kind == 'bytes':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0:2])
            b = bytearray_field(where=bytes_ref[2:])
    elif kind == 'list':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0:2])
            b = list_field(type=l_uint16, where=bytes_ref[2:])
    elif kind == 'buffers':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0:2])
            b = list_field(type=inner(), where=bytes_ref[2:])
    else:
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0:2])
            b = buffer_field(type=inner(), where=bytes_ref[2:])
    data = S.bytes('data', n)
    t = T()
    t.unpack(data)
    again = t.pack()
    S.observe('again', again)
    S.check(S.eq(again, data), 'same bytes')


def moving(S, cfg):
    """fields of several ranges, some of them empty for some of the contents"""
    kind, names = cfg
    n, d, e, g = names
    fn = uint_field(where=bytes_ref[0].bits[0:2])
    # bytes 1..6 belong to d and e: how many of the first three is told by n
    dpos = {0: bytes_ref[1:1 + fn] + bytes_ref[4:6], 1: bytes_ref[4:6] + bytes_ref[1:1 + fn], 2: bytes_ref[4:5] + bytes_ref[1:1 + fn] + bytes_ref[5:6]}
    epos = {0: bytes_ref[1 + fn:4], 1: bytes_ref[1 + fn:4] + bytes_ref[6:6], 2: bytes_ref[2:2] + bytes_ref[1 + fn:4]}
    way = S.choice('way', (0, 1, 2))
    f = {'bytes': bytearray_field, 'int': be_uint_field, 'le': le_uint_field, 'list': lambda where: list_field(type=uint8, where=where)}[kind]
    T = make_buffer({n: fn, d: f(where=dpos[way]), e: f(where=epos[way]), g: uint_field(where=bytes_ref[0].bits[2:8])})
    k = S.choice('k', range(4))
    data = S.bytes('data', 6)
    data = bytes(bytearray([(data[0] & 252) | k])) + data[1:]
    t = T()
    t.unpack(data)
    again = t.pack()
    S.observe('again', again)
    S.check(S.eq(again, data), 'same bytes')


def mixed_numbers(S, cfg):
    """every mix of sign, byte order and width that tiles k bytes"""
    widths, = cfg
    attrs, at = {}, 0
    ends = ('big', 'little', 'native')
    for i, w in enumerate(widths):
        attrs['f%d' % ((7 * i) % 10)] = int_field(where=bytes_ref[at:at + w], sign=('signed', 'unsigned')[i % 2],
                                                  endian=ends[(i + w) % 3])
        at += w
    T = make_buffer(attrs)
    data = S.bytes('data', at)
    t = T()
    t.unpack(data)
    again = t.pack()
    S.observe('again', again)
    S.check(S.eq(again, data), 'same bytes')


FULL = dict((k, v) for k, v in LAYOUTS.items())
BIG = {
    'bits-24': [I('f%d' % (23 - i), ('x', i // 8, (3 * i) % 8)) for i in range(24)],
    'threes': [I('g%d' % ((5 * i) % 8), ('b', 3 * i, 3 * i + 3)) for i in range(8)],
    'fives': [I('g%d' % ((3 * i) % 8), ('b', 5 * i, 5 * i + 5)) for i in range(8)],
    'sevens': [I('g%d' % ((3 * i) % 8), ('b', 7 * i, 7 * i + 7)) for i in range(8)],
    'eleven': [I('a', ('b', 77, 88)), I('b', ('b', 0, 11), ('b', 66, 77)), I('c', ('b', 11, 33)), I('d', ('b', 33, 66))],
}


def obligations(tier):
    full = tier == 'thorough'
    FULL.update(BIG)
    names = sorted(FULL)
    obs = []
    for n in names:
        obs.append(Ob('layout-' + n, bytes_roundtrip, n, cost=2))
    obs += group('text', text, [2, 3] + ([4, 5] if full else []), 2)
    obs += group('floats', floats, [('big',), ('little',), ('native',)], 3)
    obs += group('whole-buffer', whole_buffer, [(n, k) for k in ('bytes', 'list', 'buffers', 'buffer')
                                                for n in ((2, 4, 6, 8) if full else (4, 6))
                                                if k != 'buffer' or n == 4], 4)
    obs += group('moving', moving, [(k, tuple(n)) for k in ('bytes', 'int', 'le', 'list') for n in (('abcd', 'dcba') if not full else ('abcd', 'dcba', 'bacd', 'cdab'))], 4)
    obs += group('numbers', mixed_numbers, [((1, 2, 4, 8),), ((8, 4, 2, 1),), ((2, 2, 1, 4),), ((4, 8, 1),), ((1, 1, 2, 2),),
                                            ((3,),), ((5, 1),), ((6, 2),), ((7,),)] +
                 ([((3, 3),), ((5, 3),), ((7, 5),)] if full else []), 5)
    return obs
