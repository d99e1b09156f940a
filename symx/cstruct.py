"""The struct module over symbolic values (contract model of CPython's C implementation)."""
import struct
import sys
import z3
from . import core, seq
from .core import SymInt, SymBool, SymNum, SymFloat, b_and, conc

_cache = {}
INT = dict(b=(1, True), B=(1, False), h=(2, True), H=(2, False), i=(4, True), I=(4, False), l=(4, True), L=(4, False),
           q=(8, True), Q=(8, False))


def parse(fmt):
    if isinstance(fmt, bytes):
        fmt = bytes(fmt).decode('ascii')
    fmt = str(fmt)
    r = _cache.get(fmt)
    if r is not None:
        return r
    total = struct.calcsize(fmt)   # raises struct.error for a bad format
    body, order = fmt, '@'
    if fmt[:1] and fmt[0] in '@=<>!':
        order, body = fmt[0], fmt[1:]
    big = order in '>!' or (order in '@=' and sys.byteorder == 'big')
    items, num, prefix = [], '', ''
    for c in body:
        if c.isspace():
            continue
        if c.isdigit():
            num += c
            continue
        n = int(num) if num else 1
        if c in 'sp':
            size = n
            off = struct.calcsize(order + prefix + num + c) - size
            items.append((c, off, size))
        elif c == 'x':
            pass
        else:
            for k in range(n):
                size = struct.calcsize(order + c)
                off = struct.calcsize(order + prefix + str(k + 1) + c) - size
                items.append((c, off, size))
        prefix += num + c
        num = ''
    r = _cache[fmt] = (total, big, items)
    return r


def _pack_int(v, size, signed, code):
    if type(v) is SymBool:
        v = v.as_int()
    if type(v) is not SymInt:
        if not hasattr(type(v), '__index__'):
            raise struct.error("required argument is not an integer")
        v = v.__index__()
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
    if not bool(b_and(v >= lo, v <= hi)):
        if size == 8 and not signed and bool(v < 0):
            # as PyPy, which the repository's tests run with (CPython: struct.error)
            raise ValueError("cannot convert negative integer to unsigned")
        raise struct.error("'%s' format requires %d <= number <= %d" % (code, lo, hi))
    return seq.int_to_bytes(v, size)


def _pack_float(v, size):
    if type(v) is SymFloat:
        if size == 8:
            t = v.bits64()
        elif v.f32 is not None:
            # packing a single again: NaNs become quiet
            t = z3.If(core.is_nan32(v.f32), v.f32 | z3.BitVecVal(1 << 22, 32), v.f32)
        else:
            t = v.bits32()
            if bool(core.mkb(z3.simplify(z3.And(z3.Extract(30, 0, t) == 0x7f800000,
                                               z3.Extract(62, 52, v.b64) != 0x7ff)))):
                raise OverflowError("float too large to pack with f format")
        return [seq.byte_of(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(size)]
    if not isinstance(v, (int, float)) and not hasattr(type(v), '__float__') and not hasattr(type(v), '__index__'):
        raise struct.error("required argument is not a float")
    return list(struct.pack('<f' if size == 4 else '<d', conc(v)))


def pack_elems(fmt, args):
    total, big, items = parse(fmt)
    if len(args) != len(items):
        raise struct.error("pack expected %d items for packing (got %d)" % (len(items), len(args)))
    out = [0] * total
    for (c, off, size), v in zip(items, args):
        if c in INT:
            e = _pack_int(v, size, INT[c][1], c)
        elif c in 'nN':
            e = _pack_int(v, size, c == 'n', c)
        elif c in 'fd':
            e = _pack_float(v, size)
        elif c == '?':
            e = [core._coerce(v) if type(v) is SymBool else (1 if v else 0)]
            e = [seq.norm8(e[0])]
        elif c == 's':
            b = seq.elems(v)
            if b is None:
                raise struct.error("argument for 's' must be a bytes object")
            b = (b + [0] * size)[:size]
            out[off:off + size] = b
            continue
        elif c == 'c':
            b = seq.elems(v)
            if b is None or len(b) != 1:
                raise struct.error("char format requires a bytes object of length 1")
            e = list(b)
        else:
            e = list(struct.pack('<' + c, conc(v)))
        if big:
            e = e[::-1]
        out[off:off + size] = e
    return out


def unpack_elems(fmt, e):
    total, big, items = parse(fmt)
    if len(e) != total:
        raise struct.error("unpack requires a buffer of %d bytes" % total)
    r = []
    for c, off, size in items:
        b = e[off:off + size]
        if c in 'sc':
            r.append(seq.mk_bytes(b))
            continue
        if big:
            b = b[::-1]
        if c in INT or c in 'nN':
            r.append(seq.bytes_to_int(b, INT[c][1] if c in INT else c == 'n'))
        elif c in 'fd':
            if all(type(x) is int for x in b):
                r.append(struct.unpack('<' + c, bytes(b))[0])
            else:
                t = z3.simplify(z3.Concat(*[seq.raw8(x) for x in reversed(b)]))
                r.append(SymFloat(None, t) if c == 'f' else SymFloat(t))
        elif c == '?':
            r.append(b[0] != 0)
        else:
            r.append(struct.unpack('<' + c, bytes(conc(x) for x in b))[0])
    return tuple(r)


def _elems(x):
    e = seq.elems(x)
    if e is None:
        raise TypeError("a bytes-like object is required, not '%s'" % x.__class__.__name__)
    return e


def pack(fmt, *args):
    return seq.mk_bytes(pack_elems(fmt, args))


def unpack(fmt, data):
    return unpack_elems(fmt, _elems(data))


def unpack_from(fmt, buffer, offset=0):
    e = _elems(buffer)
    n = parse(fmt)[0]
    offset = conc(offset)
    if offset < 0:
        offset += len(e)
    if offset < 0 or len(e) - offset < n:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % (n + offset))
    return unpack_elems(fmt, e[offset:offset + n])


def pack_into(fmt, buffer, offset, *args):
    e = pack_elems(fmt, args)
    offset = conc(offset)
    if offset < 0:
        offset += len(buffer)
    if offset < 0 or len(buffer) - offset < len(e):
        raise struct.error("pack_into requires a buffer of at least %d bytes" % (len(e) + offset))
    buffer[offset:offset + len(e)] = seq.mk_bytes(e)


def iter_unpack(fmt, data):
    e = _elems(data)
    n = parse(fmt)[0]
    if n == 0 or len(e) % n:
        raise struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    return iter([unpack_elems(fmt, e[i:i + n]) for i in range(0, len(e), n)])


class SymStruct(object):
    def __init__(self, fmt):
        self.format = fmt if isinstance(fmt, str) else fmt.decode('ascii')
        self.size = parse(fmt)[0]

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, d):
        return unpack(self.format, d)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)

    def pack_into(self, b, o, *a):
        return pack_into(self.format, b, o, *a)

    def iter_unpack(self, d):
        return iter_unpack(self.format, d)
