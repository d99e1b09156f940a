"""Fixed layouts of buffer fields with a bit-exact reference encoding, shared by several properties.

A field is (name, kind, parts, opts); positions come from lib.where, values and encodings from here."""
from .lib import *


class Field(object):
    def __init__(self, name, kind, *parts, **opts):
        self.name, self.kind, self.parts, self.opts = name, kind, parts, opts

    def build(self):
        ref, self.pos = where(*self.parts)
        n = len(self.pos)
        if self.kind == 'int':
            f = int_field(where=ref, sign=self.opts.get('sign', 'unsigned'), endian=self.opts.get('endian', 'little'))
        elif self.kind == 'bytes':
            f = bytearray_field(where=ref)
        elif self.kind == 'str':
            f = str_field(where=ref, padding=b'\x00', encoding='latin-1')
        elif self.kind == 'float':
            f = float_field(where=ref, endian=self.opts.get('endian', 'little'))
        elif self.kind == 'list':
            f = list_field(type=b_uint16, where=ref)
        elif self.kind == 'buffer':
            f = buffer_field(type=inner(), where=ref)
        else:
            raise ValueError(self.kind)
        return f

    def value(self, S):
        """A symbolic value and its bits in storage order."""
        n = len(self.pos)
        if self.kind == 'int':
            sign, endian = self.opts.get('sign', 'unsigned'), self.opts.get('endian', 'little')
            v = S.int(self.name, *int_range(n, sign))
            return v, int_bits(v, n, endian)
        if self.kind == 'bytes':
            v = S.bytearray(self.name, n // 8)
            return v, bit_list(bytes(v))
        if self.kind == 'str':
            v = S.str(self.name, n // 8, 1, 255)
            return v, bit_list([ord(c) for c in v])
        if self.kind == 'float':
            v = S.f32(self.name) if n == 32 else S.f64(self.name)
            S.assume(S.not_(S.is_nan(v)))
            return v, bit_list(value_bytes(S.float_bits(v, n // 8), n // 8, self.opts.get('endian', 'little') == 'little'))
        if self.kind == 'list':
            v = [S.bits('%s%d' % (self.name, i), 16) for i in range(n // 16)]
            return v, bit_list([b for x in v for b in value_bytes(x, 2, False)])
        if self.kind == 'buffer':
            a, b = S.bits(self.name + 'a', 12), S.bits(self.name + 'b', 4)
            I = inner()
            v = I(a=a, b=b)
            return v, [(a >> i) & 1 for i in range(12)] + [(b >> i) & 1 for i in range(4)]

    def same(self, S, got, want):
        if self.kind == 'buffer':
            return S.and_(S.eq(got.a, want.a), S.eq(got.b, want.b))
        return S.eq(got, want)


_inner = []


def inner():
    if not _inner:
        class Inner(Buffer):
            a = uint_field(where=bytes_ref[0:2].bits[0:12])
            b = uint_field(where=bytes_ref[0:2].bits[12:16])
        _inner.append(Inner)
    return _inner[0]


def I(name, *parts, **opts):
    return Field(name, 'int', *parts, **opts)


LAYOUTS = {
    # fields cover every bit exactly once
    'nibbles': [I('a', ('b', 4, 8)), I('b', ('b', 0, 4)), I('c', ('b', 12, 16)), I('d', ('b', 8, 12))],
    'interleaved': [I('a', ('b', 0, 3), ('b', 9, 13)), I('b', ('b', 13, 16), ('b', 3, 9)), I('c', ('B', 2, 3), sign='signed')],
    'reverse-order': [I('a', ('B', 6, 8), endian='big'), I('b', ('B', 4, 6), sign='signed', endian='big'),
                      I('c', ('b', 20, 32)), I('d', ('b', 0, 20))],
    'every-bit': [I('f%d' % i, ('x', 0, 7 - i)) for i in range(8)],
    'split-bytes': [I('a', ('B', 3, 4), ('B', 0, 1), endian='big'), I('b', ('B', 1, 3), endian='little', sign='signed')],
    'mixed': [I('z', ('b', 0, 5)), I('y', ('b', 5, 12)), I('x', ('b', 12, 16)), Field('w', 'bytes', ('B', 4, 6)),
              Field('v', 'list', ('B', 6, 10)), Field('u', 'buffer', ('B', 2, 4))],
    'three-bytes': [I('b', ('B', 0, 3), endian='big'), I('a', ('B', 3, 6), endian='little'), I('c', ('B', 6, 11), endian='big')],
    'split-bytearray': [Field('a', 'bytes', ('B', 4, 5), ('B', 0, 2)), I('b', ('B', 2, 4), endian='big', sign='signed')],
    'wide': [I('a', ('B', 0, 8), endian='big', sign='signed'), I('b', ('B', 8, 12), endian='little', sign='signed'),
             I('c', ('b', 96, 99)), I('d', ('b', 99, 112))],
    'odd-bits': [I('e', ('b', 0, 1)), I('d', ('b', 1, 10)), I('c', ('b', 10, 27)), I('b', ('b', 27, 31)), I('a', ('b', 31, 32))],
    'open-bits': [I('a', ('l', (0, 2), 4, None)), I('b', ('b', 0, 4)), I('c', ('n', 1)),
                  I('e', ('l', ((5, 7), 3, (7, 8)), 11, None)), I('d', ('l', ((5, 7), 3), 0, 11)), I('f', ('n', 4))],
    'ends-in-bits': [I('a', ('b', 12, 16)), Field('b', 'bytes', ('B', 0, 1)), I('c', ('b', 8, 12))],
}
GAPS = {
    # some bits belong to no field
    'gap-bits': [I('a', ('b', 1, 4)), I('b', ('b', 6, 11)), I('c', ('b', 14, 15))],
    'gap-bytes': [I('b', ('B', 1, 3), endian='big'), I('a', ('B', 6, 7), sign='signed'), I('c', ('x', 4, 5))],
    'gap-start': [I('a', ('b', 29, 33)), I('b', ('b', 18, 22))],
    'gap-multi': [I('a', ('b', 2, 4), ('b', 17, 20)), I('b', ('b', 6, 9), ('b', 12, 15)), I('c', ('B', 4, 6), endian='big')],
    'gap-data': [Field('a', 'bytes', ('B', 5, 7)), Field('b', 'str', ('B', 1, 4)), I('c', ('b', 34, 37))],
    'gap-nested': [Field('b', 'buffer', ('B', 5, 7)), Field('a', 'buffer', ('B', 1, 3)), I('c', ('b', 26, 30)),
                   Field('d', 'list', ('B', 8, 12))],
    'gap-float': [Field('b', 'float', ('B', 2, 6)), Field('a', 'float', ('B', 8, 16), endian='big'), I('c', ('b', 3, 13))],
    'one-late-bit': [I('a', ('x', 3, 6))],
    'across': [I('a', ('b', 4, 12)), I('b', ('b', 20, 28)), I('c', ('b', 13, 19)), I('d', ('b', 36, 52))],
}
STR = {
    'text': [Field('b', 'str', ('B', 0, 3)), Field('a', 'str', ('B', 3, 5)), I('c', ('b', 40, 43)), I('d', ('b', 43, 48))],
}


def build(fields):
    return make_buffer(dict((f.name, f.build()) for f in fields))


def total_bits(fields):
    return max(max(f.pos) + 1 for f in fields)


def values(S, fields):
    vs, pairs = {}, []
    for f in fields:
        v, bits = f.value(S)
        vs[f.name] = v
        pairs.append((f.pos, bits))
    return vs, place(pairs, (total_bits(fields) + 7) // 8)
