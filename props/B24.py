"""JSON fields carry their document unchanged."""
import json
from .lib import *
from . import jsonmodel
from infi.instruct.buffer.buffer import InstructBufferError

BOUNDS = ('documents: every integer -999..1500 (-9999..99999), every text of up to 1 (thorough 2) characters, of 2 with a class of first characters, and ASCII text of up to 4 (6), null, booleans, '
          'some floats, lists of up to 3, objects of up to 2 members, nested; fields with 0..3 spaces after the text at closed, shifted, '
          'split, reversed and open positions; reading: every content of printable or non-ASCII bytes of up to 2 (3) bytes, of 4 (5..6) bytes with a restricted alphabet, one of them with control characters')
ASSUMPTIONS = ('json.dumps and json.loads (standard library, default arguments) are replaced by the model in props/jsonmodel.py while exploring; replays use '
               'the real ones. Documents fit their field')
MODEL = jsonmodel.Model()


def doc_int(S, full):
    return S.int('v', -9999 if full else -999, 99999 if full else 1500)


def doc_text(S, full):
    n = S.choice('len', range(3))
    s = S.str('v', n, 0, 0x10ffff)
    if n == 2 and not full:
        o = ord(s[0])
        S.assume(S.or_(o < 5, o == 10, o == 34, o >= 96))
    return s


def doc_ascii(S, full):
    """plain characters, quotes and escapes"""
    n = S.choice('len', range(7 if full else 5))
    s = S.str('v', n, 32, 126)
    S.assume(S.and_(*[S.not_(S.or_(ord(c) == 34, ord(c) == 92)) for c in s[:-1]]))
    return s


def doc_constant(S, full):
    return S.choice('v', (None, True, False, {}, [], [[]], '', [{}], 1.5, -0.0, 1e300, 5e-324, float('inf'), 12345678901234567890))


def doc_bool(S, full):
    return S.bool('v')


def doc_list(S, full):
    n = S.choice('len', range(4 if full else 3))
    return [S.int('v%d' % i, -12, 101) for i in range(n)]


def doc_object(S, full):
    v = {}
    for i in range(S.choice('len', range(3 if full else 2))):
        v['ab'[i] + '"\u20ac '[i]] = S.int('v%d' % i, -12, 101)
    return v


def doc_nested(S, full):
    return {'k': [S.int('a', 0, 99), {'x y': S.bool('b')}, None], '': {'n': [[S.str('s', 1, 0, 255)], []]}}


DOCS = [doc_int, doc_text, doc_ascii, doc_constant, doc_bool, doc_list, doc_object, doc_nested]


def positions(kind, n):
    """(range, bit positions, bytes before, bytes after)"""
    if kind == 'closed':
        return where(('B', 2, 2 + n))
    if kind == 'shifted':
        return where(('b', 12, 12 + 8 * n))
    if kind == 'split':
        return where(('B', 1, 1 + n // 2), ('B', 3 + n // 2, 3 + n))
    if kind == 'reversed':
        return where(('B', 2 + n - n // 2, 2 + n), ('B', 1, 1 + n - n // 2))


def same_doc(S, a, b):
    """equal, of the same types"""
    if isinstance(a, bool) or isinstance(b, bool):
        return S.and_(isinstance(a, bool), isinstance(b, bool), S.eq(S.ite(a, 1, 0), S.ite(b, 1, 0)))
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        return S.and_(*[S.or_(*[S.and_(S.eq(k, j), same_doc(S, a[k], b[j])) for j in b]) for k in a])
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and S.and_(*[same_doc(S, x, y) for x, y in zip(a, b)])
    if isinstance(a, float):
        return isinstance(b, float) and repr(a) == repr(b)
    return type(a) is type(b) and S.eq(a, b)


def carries(S, cfg):
    """text, then spaces; the same document back"""
    doc, kind, full = cfg
    S.json_model(MODEL)
    v = doc(S, full)
    text = [ord(c) for c in json.dumps(v)]
    n = len(text) + S.choice('spaces', (0, 3))
    if n < 2:
        n = 2
    ref, pos = positions(kind, n)
    T = make_buffer(dict(j=json_field(where=ref), h=uint_field(where=bytes_ref[0])))
    h = S.bits('h', 8)
    data = T(h=h, j=v).pack()
    S.observe('data', data)
    want = text + [32] * (n - len(text))
    S.check(same_bytes(S, data, place([(range(8), bit_list([h])), (pos, bit_list(want))], size_of(pos, range(8)))), 'packed bytes')
    t = T()
    t.unpack(data)
    S.check(t.h == h, 'what precedes')
    S.check(same_doc(S, v, t.j), 'the same document')
    S.check(same_bytes(S, t.pack(), list(data)), 'packs to the same bytes')


def last(S, cfg):
    """a field up to the end, or a size given by another field"""
    doc, kind, full = cfg
    S.json_model(MODEL)
    v = doc(S, full)
    text = [ord(c) for c in json.dumps(v)]
    n = len(text)
    if kind == 'open':
        class T(Buffer):
            h = uint_field(where=bytes_ref[0])
            j = json_field(where=bytes_ref[1:])
        head, tail = [0], []
        t = T(h=0, j=v)
    elif kind == 'counted':
        class T(Buffer):
            h = uint_field(where=bytes_ref[0])
            j = json_field(where=bytes_ref[1:1 + h])
            z = be_uint_field(where=bytes_ref[1 + h:3 + h])
        n += S.choice('spaces', (0, 3))
        z = S.bits('z', 16)
        head, tail = [n], be2(z)
        t = T(h=n, j=v, z=z)
    else:
        class T(Buffer):
            h = be_uint_field(where=bytes_ref[0:2], set_before_pack=total_size)
            j = json_field(where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:h])
        head, tail = be2(2 + n), []
        t = T(j=v)
    data = t.pack()
    want = head + text + [32] * (n - len(text)) + tail
    S.check(same_bytes(S, data, want), 'packed bytes')
    u = T()
    more = S.choice('more', (0, 2)) if kind != 'open' else 0
    spaces = S.choice('blank', (0, 1, 3)) if kind == 'open' else 0
    used = u.unpack(bytes(data) + b' ' * spaces + S.bytes('rest', more))
    S.check(used == len(want) + spaces, 'consumed')
    S.check(same_doc(S, v, u.j), 'the same document')


def be2(v):
    return value_bytes(v, 2, False)


def reads(S, cfg):
    """any content: the document it spells, or an error"""
    n, kind = cfg
    S.json_model(MODEL)
    x = S.bytes('x', n)
    if kind == 'control':  # control characters anywhere but at the end, where fillers are
        S.assume(S.and_(*[S.or_(b == 0, b == 10, b == 1, b == 34, b == 49, b == 91, b == 93) for b in x]))
        S.assume(S.or_(x[-1] == 34, x[-1] == 49, x[-1] == 93))
    else:
        S.assume(S.and_(*[b >= 32 for b in x]))
    if kind == 'digits':
        S.assume(S.and_(*[S.or_(*[b == k for k in b' -+.017e']) for b in x]))
    elif kind == 'text':
        S.assume(S.and_(x[0] == 34, *[S.or_(b == 34, b == 32, b == 92, b == 117, b == 110, b >= 126) for b in x[1:]]))
    elif kind == 'brackets':
        S.assume(S.and_(*[S.or_(b == 32, b == 49, b == 44, b == 91, b == 93, b == 123, b == 125, b == 58, b == 34) for b in x]))

    class T(Buffer):
        a = uint_field(where=bytes_ref[0])
        j = json_field(where=bytes_ref[1:1 + n])
    t = T()
    out = S.outcome(t.unpack, b'\x07' + x)
    ascii_ = S.conc(S.and_(*[b < 128 for b in x]))
    want = S.outcome(json.loads, ''.join([chr(b) for b in x])) if ascii_ else None
    ok = ascii_ and want.ok
    S.check(out.ok == ok, 'accepted exactly when it is a document')
    if ok:
        S.observe('j', t.j)
        S.check(same_doc(S, want.value, t.j), 'the document')
        S.check(out.value == n + 1, 'consumed')
    else:
        S.check(isinstance(out.exc, InstructBufferError), 'named error')
        S.check(out.exc.attr_name == 'j' and out.exc.clazz is T, 'of the field')


def unfit(S, cfg):
    """values that are no documents"""
    class T(Buffer):
        a = uint_field(where=bytes_ref[0])
        j = json_field(where=bytes_ref[1:20])
    for v in (b'x', object(), {(1, 2): 3}, [set()], {'a': b''}, 1j, bytearray(b'1')):
        out = S.outcome(T(a=S.once(('a', str(type(v))), lambda: 1), j=v).pack)
        S.check(not out.ok and isinstance(out.exc, InstructBufferError) and out.exc.attr_name == 'j', 'refused: %s' % type(v).__name__)


def several(S, cfg):
    """defaults, conditions, two fields, objects reused"""
    S.json_model(MODEL)

    class T(Buffer):
        a = uint_field(where=bytes_ref[0])
        j = json_field(where=bytes_ref[1:7], default=[1])
        k = json_field(where=bytes_ref[7:13], pack_if=a > 3, unpack_if=a > 3)
    a, v, w = S.bits('a', 8), S.int('v', -99, 999), S.int('w', -99, 999)
    t = T(a=a, k=w)
    t.j.append(v) if S.choice('append', (True, False)) else None
    has = S.conc(a > 3)
    want = [ord(c) for c in json.dumps([1, v] if len(t.j) == 2 else [1])]
    S.assume(len(want) <= 6)
    want += [32] * (6 - len(want))
    wtext = [ord(c) for c in json.dumps(w)]
    data = t.pack()
    S.check(same_bytes(S, data, [a] + want + (wtext + [32] * (6 - len(wtext)) if has else [0] * 6)), 'packed bytes')
    u = T()
    u.unpack(data)
    S.check(same_doc(S, t.j, u.j), 'first')
    S.check(same_doc(S, w, u.k) if has else u.k is None, 'second')
    S.check(T().j == [1], 'default')
    second = bytes(data[:1]) + b'null  ' + bytes(data[7:])
    u.unpack(second)
    S.check(u.j is None, 'unpacked again')


def obligations(tier):
    full = tier == 'thorough'
    kinds = ('closed', 'shifted', 'split', 'reversed')
    obs = []
    for i, d in enumerate(DOCS):
        obs += group('carries-' + d.__name__[4:], carries, [(d, k, full) for k in (kinds if full else [kinds[i % 4], kinds[(i + 1) % 4]][:1 if i == 1 else 2])],
                     1 if d in (doc_text, doc_ascii, doc_int) else 4)
        obs += group('last-' + d.__name__[4:], last, [(d, k, full) for k in ('open', 'counted', 'total')[i == 1 and not full:]], 1)
    obs += group('reads-any', reads, [(n, 'any') for n in range(4 if full else 3)], 1)
    obs += group('reads-digits', reads, [(5 if full else 4, 'digits')], 1)
    obs += group('reads-text', reads, [(6 if full else 5, 'text')], 1)
    obs += group('reads-control', reads, [(k, 'control') for k in ((3, 4, 5) if full else (3, 4))], 1)
    obs += group('reads-brackets', reads, [(6 if full else 4, 'brackets')], 1)
    obs += group('unfit', unfit, [None], 1)
    obs += group('several', several, [None], 1)
    return obs
