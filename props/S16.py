"""repr() of structs and buffers: never fails, shows every field by name with its value."""
from .lib import *
from .structs import *
from . import compose
from infi.instruct.numeric_macros import *
from infi.instruct.base import ReadOnlyContext

BOUNDS = ('the 24 structs of props/structs.py and 4 more, built, read, unset and changed; buffers of 3 classes (inherited, nested, lists, conditions, text, JSON); '
          'any numbers of up to 64 bits and floats, strings and lists of up to 2..3 elements, any value changed afterwards')
BOUNDS += '; structs of any two of 20 kinds of field side by side or the second in a nested struct, list, lazy group, optional field (props/compose.py; quick: fewer arrangements)'
ASSUMPTIONS = ['formatting one value in the interpreter (%d, %f, repr of numbers, bytes and text) does not fail and depends on the value only: '
               'the rendering of a symbolic value is an uninterpreted function (symx/text.py)']


def shown(v):
    """the text of a value"""
    if v is None:
        return '<none>'
    if isinstance(v, Struct):
        return None
    if isinstance(v, list):
        parts = [shown(x) for x in v]
        return None if None in parts else '[ ' + ', '.join(parts) + ' ]'
    if isinstance(v, float):
        return '%f' % v
    if isinstance(v, int):
        return '%d' % v
    return repr(v)


def structs_in(v):
    if isinstance(v, Struct):
        return [v]
    if isinstance(v, (list, tuple)):
        return sum([structs_in(x) for x in v], [])
    return []


def check_shows(S, text, values, label):
    """values: (name, value)"""
    for k, v in values:
        S.check((k + '=') in text, '%s: name' % label)
        s = shown(v)
        if s is not None:
            S.check((k + '=' + s) in text, '%s: value' % label)
        for x in structs_in(v):
            S.check(repr(x) in text, '%s: struct' % label)
            check_shows(S, repr(x), [(n, getattr(x, n)) for n in getattr(x, 'names', ())], label)


HEAVY = []


def touch(v):
    """uses every field, so that lazy ones are read"""
    for x in structs_in(v):
        for n in getattr(x, 'names', ()):
            touch(getattr(x, n))


def represent(S, cfg):
    S.text_mode()
    case, big = cfg
    c = case(S, big)
    t = c.object()
    text = repr(t)
    S.observe('text', text)
    S.check(isinstance(text, str), 'text')
    S.check(type(t).__name__ in text, 'class')
    values = sorted(c.expected().items()) if c.after else sorted(c.make().items())
    check_shows(S, text, [(k, getattr(t, k)) for k, _ in values], 'built')
    r = type(t).create_from_string(bytes(t.to_bytes()))
    before = repr(r)
    S.check(type(t).__name__ in before, 'class')
    values = [(k, getattr(r, k)) for k, _ in values]
    touch([v for _, v in values])
    check_shows(S, repr(r), values, 'read')


def unset(S, case):
    """instances without values"""
    S.text_mode()
    c = case(S, False)
    T = c.T
    t = T()
    text = repr(t)
    for k in sorted(c.make()):
        S.check((k + '=') in text, 'name')
        v = getattr(t, k)
        s = shown(v)
        if s is not None:
            S.check((k + '=' + s) in text, 'value')
    names = sorted(c.make())
    S.check(isinstance(text, str), 'text')
    if not names:
        return
    k = names[S.choice('field', range(len(names)))]
    t = c.object()
    setattr(t, k, None)
    S.check((k + '=<none>') in repr(t), 'no value')
    for n in names:
        S.check((n + '=') in repr(t), 'others')


def changed(S, cfg):
    """the current values"""
    S.text_mode()

    class T(Struct):
        _fields_ = [UBInt8('a', 3), SBInt64('b'), BitFields(BitField('p', 4), BitField('q', 4)), VarSizeArray('l', UBInt8, SBInt16), PaddedString('s', 4),
                    Lazy(UBInt32('z'), FixedSizeBuffer('f', 2)), OptionalField('o', BFloat32Marshal, lambda o, s, c: True)]
    t = T(b=1, p=2, q=3, l=[], s=b'ab', z=5, f=b'xy', o=None)
    repr(t)
    want = dict(a=3, b=1, p=2, q=3, l=[], s=b'ab', z=5, f=b'xy', o=None)
    for i in range(2):
        op = S.choice('op%d' % i, cfg)
        if op in 'az':
            want[op] = S.bits('%s%d' % (op, i), 8 if op == 'a' else 32)
        elif op == 'b':
            want[op] = S.int('b%d' % i, -(1 << 63), (1 << 63) - 1)
        elif op in 'pq':
            want[op] = S.bits('%s%d' % (op, i), 4)
        elif op in 'sf':
            want[op] = S.bytes('%s%d' % (op, i), 2)
        elif op == 'o':
            want[op] = S.f32('o%d' % i)
        else:
            x = S.int('x%d' % i, -100, 100)
            want['l'] = want['l'] + [x]
            t.l.append(x)
        if op != 'l':
            setattr(t, op, want[op])
    text = repr(t)
    for k in sorted(want):
        S.check((k + '=' + shown(want[k])) in text, 'current value')


def long_values(S, cfg):
    """values of many elements and long strings are shown whole"""
    S.text_mode()
    n = S.choice('n', (9, 17, 33, 65))
    at = S.choice('at', (0, 1, 2))
    l = [1] * n
    l[(0, n // 2, n - 1)[at]] = x = S.bits('x', 8)

    class T(Struct):
        _fields_ = [VarSizeArray('l', UBInt8, UBInt8), VarSizeString('s', UBInt8), VarSizeArray('k', UBInt8, Small2)] + [UBInt8('f%d' % i) for i in range(n)]
    s = b'q' * n
    t = T(l=l, s=s, k=[Small2(v=i) for i in range(n)], **dict(('f%d' % i, v) for i, v in enumerate(l)))
    text = repr(t)
    S.check(('l=' + shown(l)) in text, 'list')
    S.check(('s=' + shown(s)) in text, 'string')
    for i in range(n):
        S.check(('f%d=%s' % (i, shown(l[i]))) in text, 'field')
    for k in t.k:
        S.check(repr(k) in text, 'struct in a list')
    u = dict(('g%d' % i, uint_field(where=bytes_ref[i])) for i in range(n))
    B = type(Buffer)('B', (Buffer,), dict(u, m=list_field(type=Small, where=bytes_ref[n:])))
    b = B(m=[Small(x=i, y=i) for i in range(n)], **dict(('g%d' % i, v) for i, v in enumerate(l)))
    text = repr(b)
    for i in range(n):
        S.check(('g%d=%s' % (i, shown(l[i]))) in text, 'buffer field')
    S.check(('m=' + repr(b.m)) in text, 'buffer list')


def formats(S, cfg):
    """the number formats of a struct's own context"""
    S.text_mode()

    class T(Struct):
        _context_ = dict(int_repr_format=cfg, float_repr_format='%.2f')
        _fields_ = [UBInt16('a'), BFloat64('b'), VarSizeArray('l', UBInt8, UBInt8), BitFields(BitField('p', 4), BitPadding(4)),
                    BitFields(BitField('q', Bits[4:8]), BitField('r', Bits[0:2, 2:4])), OptionalField('o', UBInt8, lambda o, s, c: True), Lazy(SLInt16('z')), ConstField('k', 300, UBInt16),
                    Field('i', Small2), Field('e', StructSelectorMarshal(UBInt8, {7: Seven}))]
    a, b, p, x = S.bits('a', 16), S.f64('b'), S.bits('p', 4), S.bits('x', 8)
    q, r, o, z = S.bits('q', 4), S.bits('r', 4), S.bits('o', 8), S.int('z', -9, 9)
    text = repr(T(a=a, b=b, l=[x], p=p, q=q, r=r, o=o, z=z, i=Small2(v=x), e=Seven(w=o)))
    for part in ('a=' + cfg % a, 'b=' + '%.2f' % b, 'l=[ ' + cfg % x + ' ]', 'p=' + cfg % p, 'q=' + cfg % q, 'r=' + cfg % r, 'o=' + cfg % o, 'z=' + cfg % z, 'k=' + cfg % 300, 'i=Small2(v=' + cfg % x + ')', 'w=' + cfg % o):
        S.check(part in text, 'format')


class Small2(Struct):
    _fields_ = [UBInt8('v')]
    names = ('v',)


class Seven(Struct):
    _fields_ = [ConstField('k', 7, UBInt8), UBInt8('w')]


class Small(Buffer):
    x = uint_field(where=bytes_ref[0])
    y = int_field(where=bytes_ref[1:3])


class Base(Buffer):
    n = uint_field(where=bytes_ref[0])
    d = bytearray_field(where=bytes_ref[1:3])


class Big(Base):
    s = str_field(where=bytes_ref[3:5])
    b = buffer_field(Small, where=bytes_ref[5:8])
    o = uint_field(where=bytes_ref[8], unpack_if=Base.n > 100, pack_if=Base.n > 100)
    l = list_field(type=uint_field, where=bytes_ref[9:11], unpack_selector=None) if False else list_field(type=Small, n=1, where=bytes_ref[9:12])


class Reals(Buffer):
    byte_size = 13
    f = float_field(where=bytes_ref[0:4])
    j = json_field(where=bytes_ref[4:8])
    p = uint_field(where=bytes_ref[8].bits[0:4] + bytes_ref[9])
    e = bytearray_field(where=bytes_ref[10:10])
    z = uint_field(where=bytes_ref[11:13], default=7)


def is_subbuffer(v):
    return isinstance(v, Buffer)


def check_buffer(S, o, names, label):
    text = repr(o)
    S.check(type(o).__name__ in text, '%s: class' % label)
    for k in names:
        v = getattr(o, k)
        S.check((k + '=') in text, '%s: name' % label)
        S.check((k + '=' + repr(v)) in text, '%s: value' % label)
        if is_subbuffer(v):
            check_buffer(S, v, ('x', 'y'), label)


def buffers(S, cfg):
    S.text_mode()
    if cfg == 'small':
        cls, names = Small, ('x', 'y')
        values = lambda: dict(x=S.bits('x', 8), y=S.int('y', -(1 << 15), (1 << 15) - 1))
    elif cfg == 'big':
        cls, names = Big, ('n', 'd', 's', 'b', 'o', 'l')
        values = lambda: dict(n=S.bits('n', 8), d=S.bytearray('d', 2), s=S.str('s', 2), b=Small(x=S.bits('x', 8), y=S.bits('y', 8)), o=S.bits('o', 8), l=[Small(x=1, y=S.bits('ly', 8))])
    else:
        cls, names = Reals, ('f', 'j', 'p', 'e', 'z')
        values = lambda: dict(f=S.f32('f'), j=[1], p=S.bits('p', 12), e=b'', z=S.bits('z', 16))
    check_buffer(S, cls(), names, 'unset')
    v = values()
    o = cls(**v)
    check_buffer(S, o, names, 'built')
    text = repr(o)
    S.observe('text', text)
    for k in sorted(v):
        S.check((k + '=' + repr(v[k])) in text, 'given value')
    k = names[S.choice('field', range(len(names)))]
    w = S.bits('w', 8)
    setattr(o, k, w)
    S.check((k + '=' + '%d' % w) in repr(o), 'changed')


def unpacked(S, cfg):
    S.text_mode()
    if cfg == 'big':
        o = Big()
        data = S.bytes('data', 12)
        S.assume(S.and_(*[x < 128 for x in data[3:5]]))
        o.unpack(data)
        check_buffer(S, o, ('n', 'd', 's', 'b', 'o', 'l'), 'unpacked')
    else:
        o = Small()
        data = S.bytes('data', 3)
        o.unpack(data)
        check_buffer(S, o, ('x', 'y'), 'unpacked')


def obligations(tier):
    t = tier == 'thorough'
    obs = group('represent', represent, [(c, False) for c in CASES] + ([(c, True) for c in CASES if c not in HEAVY] if t else []), 3)
    obs += group('arranged', represent, [(c, False) for c in compose.cases(1, compose.HOWS if t else ('flat', 'list'))], 1)
    obs += group('unset', unset, CASES, 3)
    obs += group('changed', changed, ['abl', 'pqs', 'zfo'] + (['abpqlszfo'] if t else []), 1)
    obs += group('long', long_values, [None], 1)
    obs += group('formats', formats, ['%d', '%02X', '0x%x', '%5d'], 4)
    obs += group('buffers', buffers, ['small', 'big', 'reals'], 3)
    obs += group('unpacked', unpacked, ['big', 'small'], 2)
    return obs
