"""Buffer text fields pad, justify and strip consistently."""
from infi.instruct.buffer.macros import str_type_factory
from .dynamic import *

BOUNDS = 'text of 0..7 characters in fields of 0..8 bytes, symbolic characters and bytes; paddings and strips listed; lists of two text elements of two bytes each'


def field(cfg, ref):
    return str_field(where=ref, justify=cfg[1], padding=cfg[2], strip=cfg[3], encoding=cfg[4])


def chars(S, name, n, cfg):
    enc = cfg[4]
    return S.str(name, n, 1 if enc != 'utf-8' else 1, 255 if enc == 'latin-1' else 127)


def padded_ok(S, data, body, justify, pad):
    """data is body plus padding on the side(s) the justification leaves"""
    k, n = len(data), len(body)
    if justify == 'left':
        return S.and_(*[data[i] == (body[i] if i < n else pad) for i in range(k)])
    if justify == 'right':
        return S.and_(*[data[i] == (pad if i < k - n else body[i - (k - n)]) for i in range(k)])
    at = [(k - n) // 2, (k - n + 1) // 2]  # both sides; which one gets an odd byte is not fixed
    return S.or_(*[S.and_(*[data[i] == (body[i - a] if a <= i < a + n else pad) for i in range(k)]) for a in at])


def packs(S, cfg):
    """padded text between two neighbours, and back"""
    size, justify, pad, strip, enc = cfg

    class T(Buffer):
        lead = be_uint_field(where=bytes_ref[0])
        s = field(cfg, bytes_ref[1:1 + size])
        rest = be_uint_field(where=bytes_ref[1 + size])
    n = S.choice('n', range(size + 1))
    s = chars(S, 's', n, cfg)
    a, b = S.bits('a', 8), S.bits('b', 8)
    o = T(lead=a, s=s, rest=b)
    data = o.pack()
    S.observe('data', data)
    S.check(len(data) == size + 2, 'packed length')
    body = codes(s)
    S.check(S.and_(data[0] == a, data[size + 1] == b), 'neighbours')
    S.check(padded_ok(S, list(data)[1:1 + size], body, justify, pad[0]), 'padded text')
    S.check(S.eq(o.s, s), 'value untouched')
    # a text whose padded ends have no padding or strip characters comes back
    ends = []
    if n:
        if justify in ('left', 'center'):
            ends.append(body[-1])
        if justify in ('right', 'center'):
            ends.append(body[0])
    clean = S.and_(*[x != c for x in ends for c in list(pad) + list(strip)])
    t = T(s='?')
    t.unpack(bytes(data))
    S.check(S.implies(clean, S.eq(t.s, s)), 'round trip')


def unpacks(S, cfg):
    """any bytes: the text is what remains without the padding, and only padding is removed"""
    size, justify, pad, strip, enc = cfg

    class T(Buffer):
        lead = be_uint_field(where=bytes_ref[0])
        s = field(cfg, bytes_ref[1:1 + size])
    x = S.bytes('x', size)
    if enc != 'latin-1':
        for c in x:
            S.assume(c < 128)
    t = T()
    t.unpack(S.bytes('lead', 1) + x + S.bytes('junk', S.choice('extra', (0, 2))))
    S.observe('s', t.s)
    got = codes(t.s)
    n = len(got)
    S.check(n <= size, 'not longer than the field')
    S.check(S.and_(*[S.implies(cond, S.eq(got, list(x)[p:q])) for cond, p, q in stripped(S, list(x), justify, [strip, pad])]),
            'strip characters removed at the padded ends, then padding, and nothing else')


def runs(S, x, chars, justify):
    """[(condition, start, stop)]: what remains of x without these characters at the padded ends"""
    n = len(x)
    isp = lambda c: S.or_(*[c == p for p in list(chars)])
    out = []
    for p in (range(n + 1) if justify != 'left' else [0]):
        for q in (range(p, n + 1) if justify != 'right' else [n]):
            if p == q and p != (0 if justify == 'left' else n):
                continue  # all removed: one case
            cond = [isp(c) for c in x[:p]] + [isp(c) for c in x[q:]]
            if p < q and justify != 'left':
                cond.append(S.not_(isp(x[p])))
            if p < q and justify != 'right':
                cond.append(S.not_(isp(x[q - 1])))
            out.append((S.and_(*cond), p, q))
    return out


def stripped(S, x, justify, steps):
    out = [(True, 0, len(x))]
    for chars in steps:
        out = [(S.and_(c, d), p + i, p + j) for c, p, q in out for d, i, j in runs(S, x[p:q], chars, justify)]
    return out


def elements(S, cfg):
    """text elements of a list are as text fields of their size"""
    how, justify, pad, strip, enc = cfg
    k = 2
    typ = (str_type_factory(enc, pad, strip, justify, k) if how == 'positional' else
           str_type_factory(byte_size=k, justify=justify, strip=strip, padding=pad, encoding=enc))

    class T(Buffer):
        lead = be_uint_field(where=bytes_ref[0])
        l = list_field(type=typ, where=bytes_ref[1:1 + 2 * k])
        rest = be_uint_field(where=bytes_ref[1 + 2 * k])
    size = (k, justify, pad, strip, enc)
    texts = [chars(S, 's', S.choice('sn', range(k + 1)), size), chars(S, 't', S.choice('tn', (0, k)), size)]
    a, b = S.bits('a', 8), S.bits('b', 8)
    data = T(lead=a, l=list(texts), rest=b).pack()
    S.check(S.and_(len(data) == 2 + 2 * k, data[0] == a, data[1 + 2 * k] == b), 'neighbours')
    for i, s in enumerate(texts):
        S.check(padded_ok(S, list(data)[1 + k * i:1 + k * i + k], codes(s), justify, pad[0]), 'padded element')
    x = S.bytes('x', 2 * k)
    if enc != 'latin-1':
        for c in x:
            S.assume(c < 128)
    t = T()
    t.unpack(bytes(bytearray([a])) + x + bytes(bytearray([b])))
    S.check(len(t.l) == 2, 'elements')
    for i, s in enumerate(t.l):
        S.check(S.and_(*[S.implies(cond, S.eq(codes(s), list(x)[k * i + p:k * i + q]))
                         for cond, p, q in stripped(S, list(x)[k * i:k * i + k], justify, [strip, pad])]), 'an element without its padding')


def trailing(S, cfg):
    """text, then padding, then strip characters: both go"""
    justify, i, j = cfg
    n = S.choice('n', (0, 1, 3))
    s = text(S, 's', n)
    raw = codes(s)
    size = n + i + j
    if justify == 'left':
        raw = raw + [32] * i + [0] * j
    elif justify == 'right':
        raw = [0] * j + [32] * i + raw
    else:
        k, l = S.choice('others', ((0, 0), (1, 1), (0, 2), (2, 0)))
        size += k + l
        raw = [0] * j + [32] * i + raw + [32] * k + [0] * l

    class T(Buffer):
        s = str_field(where=bytes_ref[0:size], justify=justify)
    t = T()
    t.unpack(bytes(bytearray(raw)))
    S.observe('s', t.s)
    S.check(S.eq(t.s, s), 'stripped')


def too_long(S, cfg):
    """a text longer than the field never reaches other fields"""
    justify, extra = cfg

    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0:2])
        s = str_field(where=bytes_ref[2:5], justify=justify)
        b = be_uint_field(where=bytes_ref[5:7])
        c = uint_field(where=bytes_ref[8].bits[1:5])
    s = text(S, 's', 3 + extra)
    a, b, c = S.bits('a', 16), S.bits('b', 16), S.bits('c', 4)
    r = S.outcome(lambda: T(a=a, s=s, b=b, c=c).pack())
    S.observe('outcome', r.name())
    if not r.ok:
        return
    data = list(r.value)
    S.check(len(data) == 9, 'length')
    S.check(S.and_(S.eq(data[0:2], be(a, 2)), S.eq(data[5:7], be(b, 2)), data[7] == 0, data[8] == c << 1), 'other fields')


def placed(S, cfg):
    """text in other kinds of positions"""
    kind, = cfg
    if kind == 'split':
        parts, size = (('B', 4, 6), ('B', 0, 2)), 4
    elif kind == 'bits':
        parts, size = (('b', 4, 28),), 3
    elif kind == 'bytewise':
        parts, size = (('n', 3), ('n', 1), ('n', 0)), 3
    else:
        parts, size = (('b', 3, 11), ('b', 12, 20)), 2
    ref, pos = where(*parts)
    justify = S.choice('justify', ('left', 'right'))
    T = make_buffer(dict(s=str_field(where=ref, justify=justify)))
    n = S.choice('n', range(size + 1))
    s = text(S, 's', n)
    data = T(s=s).pack()
    S.observe('data', data)
    body = codes(s) + [32] * (size - n) if justify == 'left' else [32] * (size - n) + codes(s)
    S.check(same_bytes(S, data, place([(pos, bit_list(body))], size_of(pos))), 'packed bytes')
    t = T()
    t.unpack(bytes(data) + S.bytes('junk', 1))
    S.check(S.eq(t.s, s), 'round trip')


def open_text(S, cfg):
    """a text that takes the rest: nothing is padded"""
    n, = cfg

    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0])
        s = str_field(where=bytes_ref[1:])
    a, s = S.bits('a', 8), text(S, 's', n)
    data = T(a=a, s=s).pack()
    S.check(same_bytes(S, data, [a] + codes(s)), 'packed bytes')
    t = T()
    S.check(t.unpack(bytes(data)) == n + 1, 'consumed')
    S.check(S.eq(t.s, s), 'round trip')


def two_fields(S, cfg):
    """settings of one field do not leak into another"""
    class T(Buffer):
        a = str_field(where=bytes_ref[0:3], justify='right', padding=b'0', strip=b'')
        b = str_field(where=bytes_ref[3:6])
        c = str_field(where=bytes_ref[6:9], padding=b'*', strip=b'!', encoding='latin-1')
        d = str_field(where=bytes_ref[9:12], justify='center', padding=b'-')
    n = S.choice('n', (0, 1, 2, 3))
    v = dict((k, S.str(k, n, 65, 90)) for k in 'abcd')
    data = list(T(**v).pack())
    S.check(len(data) == 12, 'length')
    for i, (k, j, p) in enumerate((('a', 'right', 48), ('b', 'left', 32), ('c', 'left', 42), ('d', 'center', 45))):
        S.check(padded_ok(S, data[3 * i:3 * i + 3], codes(v[k]), j, p), 'padded ' + k)
    t = T()
    t.unpack(bytes(bytearray(data)))
    for k in 'abcd':
        S.check(S.eq(getattr(t, k), v[k]), 'round trip of ' + k)


def characters(S, cfg):
    """characters of several bytes: the padding counts bytes"""
    enc, size = cfg
    s = S.choice('s', (u'', u'\xe9', u'a\xe9', u'\u20ac', u'\xe9\u20ac')) if enc == 'utf-8' else S.choice('s', (u'', u'a', u'\u20ac'))
    tail = S.str('t', 1, 97, 122)
    s = s + tail if len((s + 'x').encode(enc)) <= size else s
    raw = list(bytearray(s.encode(enc)))

    class T(Buffer):
        s = str_field(where=bytes_ref[0:size], encoding=enc, padding=b' ')
        b = be_uint_field(where=bytes_ref[size])
    b = S.bits('b', 8)
    data = T(s=s, b=b).pack()
    S.check(same_bytes(S, data, raw + [32] * (size - len(raw)) + [b]), 'packed bytes')
    if enc == 'utf-8':
        t = T()
        t.unpack(bytes(data))
        S.check(S.eq(t.s, s), 'round trip')


PADS = [(b' ', b'\x00'), (b'\x00', b''), (b'.', b'*'), (b'x', b'xy'), (b'\x00', b'\x00')]


class Word(object):
    def __str__(self):
        return 'word'


def other_values(S, cfg):
    """values that are not text are packed as the text they print as"""
    justify, value = cfg
    text = str(value)
    T = make_buffer(dict(a=be_uint_field(where=bytes_ref[0]), s=str_field(where=bytes_ref[1:9], justify=justify), e=str_field(where=bytes_ref[9:])))
    a = S.bits('a', 8)
    pad = 8 - len(text)
    # (a centered text has the odd byte of padding where the interpreter puts it)
    body = [ord(c) for c in {'left': text.ljust, 'right': text.rjust, 'center': lambda n: bytearray(text.encode('ascii')).center(n, b' ').decode('ascii')}[justify](8)]
    S.check(same_bytes(S, T(a=a, s=value, e=value).pack(), [a] + body + [ord(c) for c in text]), 'packed bytes')


def obligations(tier):
    full = tier == 'thorough'
    sizes = (1, 2, 3, 5, 8) if full else (1, 4)
    cfgs = []
    for i, justify in enumerate(('left', 'right', 'center')):
        for j, (p, st) in enumerate(PADS):
            for size in sizes:
                cfgs.append((size, justify, p, st, ('ascii', 'latin-1', 'utf-8')[(i + j) % 3]))
    obs = group('packs', packs, cfgs, 6)
    obs += group('unpacks', unpacks, [(min(c[0], 4),) + c[1:] for c in cfgs], 3)
    obs += group('trailing', trailing, [(j, a, b) for j in ('left', 'right', 'center') for a in (0, 1, 2) for b in (0, 1, 2)], 9)
    obs += group('too-long', too_long, [(j, e) for j in ('left', 'right', 'center') for e in (1, 4)])
    obs += group('placed', placed, [(k,) for k in ('split', 'bits', 'bytewise', 'cross')], 2)
    obs += group('open', open_text, [(n,) for n in (0, 1, 2, 5)])
    obs += [Ob('two-fields', two_fields)]
    obs += group('elements', elements, [('named' if i % 2 else 'positional', j, p, st, e) for i, (j, p, st, e) in
                                        enumerate([('left', b' ', b'\x00', 'ascii'), ('right', b' ', b'\x00', 'latin-1'), ('center', b'.', b'', 'ascii'),
                                                   ('left', b'-', b'xy', 'latin-1'), ('right', b'0', b' ', 'ascii'), ('left', b'.', b' ', 'utf-8')])], 2)
    obs += group('characters', characters, [('utf-8', 5), ('utf-8', 6), ('utf-16-le', 6)], 1)
    obs += group('other-values', other_values, [(j, v) for j in ('left', 'right', 'center') for v in (0, 12, -7, 2.5, True, None, Word(), [1])], 8)
    return obs
