"""The struct adapter of a buffer type is transparent."""
import io
from .lib import *
from . import dynamic, layouts
from infi.instruct import Struct, UBInt8, ULInt16, UBInt16
from infi.instruct.struct import Field
from infi.instruct.array import FixedSizeArrayMarshal, VarSizeArrayMarshal
from infi.instruct.numeric_macros import UBInt8 as Count
from infi.instruct.buffer.compat import buffer_to_struct_adapter

BOUNDS = ('every value and content of 20 fixed layouts (whole bytes and fractional, with gaps, text, nested) and of 28 layouts without a '
          'fixed size (contents up to 4 / thorough 7 bytes); streams that hold 0..3 bytes before, up to 3 after, consecutive reads of 2; '
          'adapters as struct fields between numbers and as elements of fixed and counted arrays')

ALL = dict(layouts.LAYOUTS, **layouts.GAPS)
ALL.update(layouts.STR)


class Own(Buffer):
    """a size larger than its fields"""
    byte_size = 5
    a = uint_field(where=bytes_ref[0])
    b = be_uint_field(where=bytes_ref[2:4])


class Tiny(Buffer):
    byte_size = 0


def nbytes(fields):
    return (layouts.total_bits(fields) + 7) // 8


def whole(adapter, x):
    return bytes(adapter.write_to_string(x))


def fixed_write(S, name):
    fields = ALL[name]
    T = layouts.build(fields)
    values, want = layouts.values(S, fields)
    ad = buffer_to_struct_adapter(T)
    n = S.choice('before', (0, 3))
    s = io.BytesIO()
    before = S.bytes('pre', n)
    s.write(before)
    ad.write_to_stream(T(**values), s)
    ad.write_to_stream(T(**values), s, None)
    S.check(same_bytes(S, s.getvalue(), list(before) + want + want), 'appends the packed bytes')
    S.check(s.tell() == n + 2 * len(want), 'position')
    S.check(same_bytes(S, ad.write_to_string(T(**values)), want), 'write_to_string')
    S.check(ad.sizeof(T(**values)) == len(want), 'sizeof')
    S.check(same_bytes(S, T(**values).pack(), want), 'same as pack()')


def fields_as(S, T, x, data, label):
    t = T()
    t.unpack(data)
    S.check(type(x) is T, label + ': type')
    for f in sorted(n for n in dir(t) if len(n) <= 2):
        a, b = getattr(x, f), getattr(t, f)
        if isinstance(a, Buffer):
            S.check(S.and_(S.eq(a.a, b.a), S.eq(a.b, b.b)), label + ': ' + f)
        elif isinstance(a, float):
            S.check(S.eq(S.float_bits(a, 8), S.float_bits(b, 8)), label + ': ' + f)
        else:
            S.check(S.eq(a, b), label + ': ' + f)


def no_padding(S, fields, data):
    """text is not padded (B10 and B11 are about padding)"""
    if any(f.kind == 'str' for f in fields):
        S.assume(S.and_(*[b != 0 for b in data]))


def fixed_read(S, name):
    fields = ALL[name]
    T = layouts.build(fields)
    n = nbytes(fields)
    ad = buffer_to_struct_adapter(T)
    skip, rest = S.choice('skip', (0, 2)), S.choice('rest', (0, 3))
    data = S.bytes('data', skip + 2 * n + rest)
    no_padding(S, fields, data)
    s = io.BytesIO(data)
    s.read(skip)
    a = ad.create_from_stream(s)
    S.check(s.tell() == skip + n, 'reads exactly its size')
    b = ad.create_from_stream(s, None)
    S.check(s.tell() == skip + 2 * n, 'and again')
    fields_as(S, T, a, data[skip:skip + n], 'first')
    fields_as(S, T, b, data[skip + n:skip + 2 * n], 'second')
    S.check(S.eq(s.read(), data[skip + 2 * n:]), 'the rest is left')
    fields_as(S, T, ad.create_from_string(data[:n]), data[:n], 'from a string')
    S.check(not S.outcome(ad.create_from_string, 'x' * n).ok, 'text is refused')


def numbers(fields):
    return all(f.kind != 'float' for f in fields)


def in_struct(S, name):
    """between numbers of a struct"""
    fields = ALL[name]
    T = layouts.build(fields)
    n = nbytes(fields)

    class Outer(Struct):
        _fields_ = [UBInt8('a'), Field('b', buffer_to_struct_adapter(T)), ULInt16('c')]
    values, want = layouts.values(S, fields)
    a, c = S.bits('oa', 8), S.bits('oc', 16)
    o = Outer(a=a, b=T(**values), c=c)
    data = Outer.write_to_string(o)
    S.observe('data', data)
    S.check(same_bytes(S, data, [a] + want + value_bytes(c, 2, True)), 'written')
    S.check(Outer.sizeof(o) == n + 3, 'size')
    rest = S.bytes('rest', 2)
    s = io.BytesIO(bytes(data) + rest)
    r = Outer.create_from_stream(s)
    S.check(s.tell() == n + 3, 'consumed')
    S.check(S.and_(r.a == a, r.c == c), 'its neighbours')
    for f in fields:
        S.check(f.same(S, getattr(r.b, f.name), values[f.name]), 'read back: ' + f.name)


def cut(S, name):
    """a stream that ends inside"""
    fields = ALL[name]
    T = layouts.build(fields)
    n = nbytes(fields)
    k = S.choice('k', range(n))
    out = S.outcome(buffer_to_struct_adapter(T).create_from_stream, io.BytesIO(S.bytes('data', k)))
    S.check(not out.ok and isinstance(out.exc, InstructError), 'refused')


def unsized(S, cfg):
    """types without a fixed size"""
    case, big = cfg
    c = case(S, big)
    ad = buffer_to_struct_adapter(c.T)
    S.check(same_bytes(S, ad.write_to_string(c.object()), c.want), 'write_to_string')
    s = io.BytesIO()
    s.write(b'ab')
    ad.write_to_stream(c.object(), s)
    S.check(same_bytes(S, s.getvalue(), [97, 98] + c.want), 'write_to_stream')
    S.check(ad.sizeof(c.object()) == len(c.want), 'sizeof')
    s = io.BytesIO(bytes(bytearray(c.want)) + S.bytes('behind', S.choice('behind_n', (0, 3))))
    if c.T.byte_size is None:
        out = S.outcome(ad.create_from_stream, s)
        S.check(not out.ok and isinstance(out.exc, ValueError), 'reading is refused')
        S.check(s.tell() == 0, 'without reading')
    c.check_values(S, ad.create_from_string(bytes(bytearray(c.want))), 'from a string')


def arrays(S, cfg):
    """elements of struct arrays"""
    kind, name, n = cfg
    fields = ALL[name]
    T = layouts.build(fields)
    size = nbytes(fields)
    ad = buffer_to_struct_adapter(T)
    f = Field('l', FixedSizeArrayMarshal(n, ad) if kind == 'fixed' else VarSizeArrayMarshal(Count, ad))

    class Outer(Struct):
        _fields_ = [f, UBInt16('c')]
    data = S.bytes('data', size * n)
    no_padding(S, fields, data)
    head = [] if kind == 'fixed' else [n]
    x = bytes(bytearray(head)) + data + S.bytes('tail', 2 + 1)
    s = io.BytesIO(x)
    o = Outer.create_from_stream(s)
    S.check(s.tell() == len(x) - 1, 'consumed')
    S.check(len(o.l) == n, 'elements')
    for i in range(n):
        fields_as(S, T, o.l[i], data[i * size:(i + 1) * size], str(i))
    S.check(o.c == bytes_value(x[-3:-1], False), 'what follows')
    out = Outer.write_to_string(o)
    want = head[:]
    for i in range(n):
        want += list(ad.write_to_string(o.l[i]))
    S.check(same_bytes(S, out, want + list(x[-3:-1])), 'written')
    S.check(Outer.sizeof(o) == len(want) + 2, 'size')


def own_size(S, cfg):
    """declared sizes"""
    for T, n in ((Own, 5), (Tiny, 0)):
        ad = buffer_to_struct_adapter(T)
        data = S.bytes(T.__name__, 2 * n + 1)
        s = io.BytesIO(data)
        x = [ad.create_from_stream(s), ad.create_from_stream(s)]
        S.check(s.tell() == 2 * n, 'reads its size')
        for i in (0, 1):
            if n:
                S.check(S.and_(x[i].a == data[5 * i], x[i].b == bytes_value(data[5 * i + 2:5 * i + 4], False)), 'values')
                S.check(same_bytes(S, ad.write_to_string(x[i]), [data[5 * i], 0, data[5 * i + 2], data[5 * i + 3], 0]), 'writes its size')
            S.check(ad.sizeof(x[i]) == n, 'size')


def obligations(tier):
    full = tier == 'thorough'
    names = sorted(ALL)
    obs = group('write', fixed_write, names, 4)
    obs += group('read', fixed_read, names, 4)
    obs += group('struct', in_struct, [k for k in names if numbers(ALL[k])], 4)
    obs += group('cut', cut, [k for k in names if all(f.kind == 'int' for f in ALL[k])], 8)
    obs += group('unsized', unsized, [(c, full) for c in dynamic.CASES], 4)
    obs += group('array', arrays, [(k, name, n) for k in ('fixed', 'counted') for name, n in
                                   (('gap-bits', 3), ('gap-start', 2), ('nibbles', 0), ('mixed', 2), ('text', 2), ('across', 2))], 4)
    obs += group('own', own_size, [None], 4)
    return obs
