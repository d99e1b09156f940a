"""Shared parts of the harnesses (also run by Python 3.9: no symx import, plain code)."""
from infi.instruct.buffer import Buffer
from infi.instruct.buffer.macros import *
from infi.instruct.errors import InstructError


class Ob(object):
    """One obligation: fn(S, cfg) is explored symbolically and replayed concretely."""

    def __init__(self, name, fn, cfg=None, about='', **opts):
        self.name, self.fn, self.cfg, self.about, self.opts = name, fn, cfg, about, opts


def bytes_value(data, little):
    """Unsigned value of the bytes (a sequence of integers)."""
    r = 0
    for b in (reversed(list(data)) if little else data):
        r = (r << 8) | b
    return r


def signed(v, bits):
    return v - ((v >> (bits - 1)) << bits)


def value_bytes(v, n, little):
    """n bytes of the (possibly negative) integer v in two's complement."""
    out = [(v >> (8 * i)) & 255 for i in range(n)]
    return out if little else out[::-1]


def bit_list(data):
    """Bits of a byte sequence, least significant bit of each byte first."""
    return [(b >> i) & 1 for b in data for i in range(8)]


def bits_value(bits):
    r = 0
    for i, b in enumerate(bits):
        r = r | (b << i)
    return r


def group(name, fn, cfgs, size=16, about='', **opts):
    """Obligations that each choose one of up to `size` configurations by a symbolic index."""
    obs = []
    cfgs = list(cfgs)
    for k in range(0, len(cfgs), size):
        part = cfgs[k:k + size]

        def run(S, part):
            i = S.choice('case', range(len(part))) if len(part) > 1 else 0
            S.observe('case', case_name(part[i]))
            fn(S, part[i])
        n = name if len(cfgs) <= size else '%s-%d' % (name, k // size)
        obs.append(Ob(n, run, part, about or '; '.join(map(case_name, part))[:400], **opts))
    return obs


# ------------------------------------------------------------------------------------- positions of buffer fields
def where(*parts):
    """(range reference, absolute bit positions in declaration order).
    parts: ('B', a, b) bytes a..b; ('b', a, b) absolute bits a..b; ('n', i) byte i; ('x', i, j) bit j of byte i;
    ('l', (byte ranges...), a, b) bits a..b of the concatenation of byte ranges."""
    ref, pos = None, []
    for p in parts:
        if p[0] == 'B':
            r, q = bytes_ref[p[1]:p[2]], list(range(8 * p[1], 8 * p[2]))
        elif p[0] == 'n':
            r, q = bytes_ref[p[1]], list(range(8 * p[1], 8 * p[1] + 8))
        elif p[0] == 'b':
            r, q = bytes_ref[0:(p[2] + 7) // 8].bits[p[1]:p[2]], list(range(p[1], p[2]))
        elif p[0] == 'x':
            r, q = bytes_ref[p[1]].bits[p[2]], [8 * p[1] + p[2]]
        elif p[0] == 'l':
            allbits, key = [], []
            for br in p[1]:
                if isinstance(br, tuple):
                    key.append(slice(*br))
                    allbits += range(8 * br[0], 8 * br[1])
                else:
                    key.append(br)
                    allbits += range(8 * br, 8 * br + 8)
            r, q = bytes_ref[tuple(key)].bits[p[2]:p[3]], allbits[p[2]:p[3]]
        ref = r if ref is None else ref + r
        pos += q
    return ref, pos


def int_bits(v, n, endian, host_little=True):
    """Bits of an n-bit integer field in storage order."""
    little = endian == 'little' or (endian in ('native', 'unspecified') and host_little) or n % 8
    if little:
        return [(v >> i) & 1 for i in range(n)]
    return bit_list(value_bytes(v, n // 8, False))


def int_from_bits(bits, endian, sign, host_little=True):
    n = len(bits)
    little = endian == 'little' or (endian in ('native', 'unspecified') and host_little) or n % 8
    if not little:
        bits = [b for k in range(n - 8, -1, -8) for b in bits[k:k + 8]]
    v = bits_value(bits)
    return signed(v, n) if sign == 'signed' and n in (8, 16, 32, 64) else v


def int_range(n, sign):
    """Values an n-bit integer field represents."""
    if sign == 'signed' and n in (8, 16, 32, 64):
        return -(1 << (n - 1)), (1 << (n - 1)) - 1
    return 0, (1 << n) - 1


def place(pairs, nbytes):
    """bytes (as list of integers) with bits placed: pairs of (positions, bits)."""
    out = [0] * nbytes
    for pos, bits in pairs:
        assert len(pos) == len(bits)
        for p, b in zip(pos, bits):
            out[p // 8] = out[p // 8] | (b << (p % 8))
    return out


def pick(data, pos):
    return [(data[p // 8] >> (p % 8)) & 1 for p in pos]


def size_of(*positions):
    return max([0] + [p // 8 + 1 for pos in positions for p in pos])


def same_bytes(S, got, want):
    """got (bytes-like) equals the list of integers want."""
    if len(got) != len(want):
        return False
    got = list(bytes(got))
    return S.and_(*[g == w for g, w in zip(got, want)])


def make_buffer(attrs, bases=(), name='T'):
    return type(Buffer)(name, bases or (Buffer,), dict(attrs))


def case_name(c):
    if isinstance(c, (tuple, list)):
        return '(%s)' % ', '.join(map(case_name, c))
    return getattr(c, '__name__', None) or str(c).split(' object at ')[0]
