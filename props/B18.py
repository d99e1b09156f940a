"""Range arithmetic agrees with sets of bit positions."""
from .lib import *
from infi.instruct.buffer.buffer import InstructBufferError
from infi.instruct.buffer.range import SequentialRange, SequentialRangeList
from infi.instruct.buffer.reference import Context

BOUNDS = ('lists of up to 3 ranges (4 in the thorough tier) in any order, bounds any multiple of 1/8 up to 512 bits, empty ranges '
          'and one open range included; probe points any multiple of 1/8 up to 600 bits; for class declarations bounds up to 6 bytes; '
          'bit ranges inside symbolic byte ranges: bounds up to 20 bits')
ASSUMPTIONS = 'the highest position of a list with empty ranges counts where the empty ranges end'
TOP = 512


def ranges(S, n, open_at=None, top=TOP):
    """n symbolic ranges (in bits; the end of an open one is None)"""
    out = []
    for k in range(n):
        a = S.int('a%d' % k, 0, top)
        b = None
        if k != open_at:
            b = S.int('b%d' % k, 0, top)
            S.assume(a <= b)
        out.append((a, b))
    return out


def make(rs):
    return SequentialRangeList([SequentialRange(a / 8.0, None if b is None else b / 8.0) for a, b in rs])


def within(S, r, p):
    """bit p belongs to the range"""
    a, b = r
    return S.and_(a <= p, True if b is None else p < b)


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i)]


def overlap(S, rs):
    """two of the ranges share a bit: where one starts inside the other and both have bits"""
    def share(r, s):
        (a, b), (c, d) = r, s
        some = S.and_(True if b is None else a < b, True if d is None else c < d)
        return S.and_(some, S.or_(within(S, s, a), within(S, r, c)))
    return S.or_(False, *[share(rs[i], rs[j]) for i, j in pairs(len(rs))])


def same_number(S, x, bits):
    """a number of bytes (or None) is that many bits"""
    if x is None or bits is None:
        return x is None and bits is None
    return x * 8 == bits


def single(S, cfg):
    """one range"""
    r = ranges(S, 1, 0 if cfg else None)[0]
    q = make([r])[0]
    p = S.int('p', 0, TOP + 88)
    S.check(q.contains(p / 8.0) == within(S, r, p), 'contains a point exactly when the bit is in the range')
    S.check(q.is_open() == (r[1] is None), 'open')
    S.check(same_number(S, q.byte_length(), None if cfg else r[1] - r[0]), 'length')
    S.check(same_number(S, q.max_stop(), r[1]), 'highest position')
    out = S.outcome(q.to_closed, p / 8.0)
    if S.conc(p >= r[0]):
        S.check(out.ok, 'closed')
        c = out.value
        S.check(S.and_(same_number(S, c.start, r[0]), same_number(S, c.stop, p if cfg else r[1])), 'closed bounds')
        S.check(not c.is_open(), 'closed is not open')
        S.check(same_number(S, c.byte_length(), (p if cfg else r[1]) - r[0]), 'closed length')
    elif cfg:
        S.check(not out.ok, 'closing before the start is refused')
    S.check(S.and_(same_number(S, q.start, r[0]), same_number(S, q.stop, r[1])), 'unchanged')
    sl = q.to_slice()
    S.check(S.and_(same_number(S, sl.start, r[0]), same_number(S, sl.stop, r[1]), sl.step in (1, None)), 'slice')


def two(S, cfg):
    """overlap and equality of two ranges"""
    r, s = ranges(S, 2, cfg)
    x, y = make([r, s])
    p = S.int('p', 0, TOP + 88)
    S.check(x.overlaps(y) == overlap(S, [r, s]), 'overlap exactly when a bit is in both')
    S.check(y.overlaps(x) == overlap(S, [r, s]), 'overlap either way')
    if not S.conc(x.overlaps(y)):
        S.check(S.not_(S.and_(within(S, r, p), within(S, s, p))), 'no overlap, no common bit')
    same = S.and_(r[0] == s[0], (r[1] is s[1]) if r[1] is None or s[1] is None else r[1] == s[1])
    S.check((x == y) == same, 'equal exactly when the bounds are')
    S.check((x != y) == S.not_(same), 'different exactly when the bounds are')
    x1 = make([r])[0]
    S.check(x == x1, 'equal to another of the same bounds')


def many(S, cfg):
    """overlaps in a list, whatever the order"""
    n, open_at = cfg
    rs = ranges(S, n, open_at)
    l = make(rs)
    p = S.int('p', 0, TOP + 88)
    found = S.conc(l.has_overlaps())
    S.check(found == overlap(S, rs), 'overlaps exactly when two ranges share a bit')
    if not found:
        S.check(S.not_(S.or_(False, *[S.and_(within(S, rs[i], p), within(S, rs[j], p)) for i, j in pairs(n)])),
                'no overlaps, no bit is in two ranges')
    S.check(S.eq([(r.start * 8) for r in l], [a for a, b in rs]), 'the list keeps its order')


def totals(S, cfg):
    """length and highest position of a list"""
    n, open_at = cfg
    rs = ranges(S, n, open_at)
    l = make(rs)
    S.check(l.is_open() == (open_at is not None), 'open')
    if open_at is not None:
        S.check(l.byte_length() is None, 'an open list has no length')
        S.check(l.max_stop() is None, 'an open list has no highest position')
    else:
        S.check(same_number(S, l.byte_length(), sum([b - a for a, b in rs])), 'length')
        m = l.max_stop() * 8
        for a, b in rs:
            S.check(m >= b, 'nothing beyond the highest position')
        S.check(S.or_(*[m == b for a, b in rs]), 'the highest position is the end of a range')


def closing(S, cfg):
    """an open list closed at the end of the input"""
    n, open_at = cfg
    rs = ranges(S, n, open_at)
    t = S.int('t', 0, TOP + 88)
    out = S.outcome(make(rs).to_closed, t / 8.0)
    if S.conc(S.and_(*[a <= t for a, b in rs])):
        S.check(out.ok, 'closed')
        c = out.value
        S.check(type(c) is SequentialRangeList and not c.is_open(), 'a closed list')
        S.check(len(c) == n, 'count')
        for (a, b), q in zip(rs, c):
            S.check(S.and_(q.start * 8 == a, q.stop * 8 == (t if b is None else b)), 'bounds')
        S.check(c.has_overlaps() == overlap(S, [(a, t if b is None else b) for a, b in rs]), 'overlaps of the closed list')
    elif S.conc(rs[open_at][0] > t):
        S.check(not out.ok, 'closing before the open range starts is refused')


def offsets(S, cfg):
    """where a number of bytes of the concatenation end"""
    n, open_at = cfg
    rs = ranges(S, n, open_at)
    t = S.int('t', 1, TOP * 2)
    out = S.outcome(make(rs).byte_offset, t / 8.0)
    left, where_, done = t, None, False
    for a, b in rs:
        if b is None or S.conc(left <= b - a):
            where_ = a + left
            break
        left = left - (b - a)
    S.check(out.ok == (where_ is not None), 'refused exactly when beyond the list')
    if out.ok:
        S.check(out.value * 8 == where_, 'the offset after the last of these bits')


def containers(S, cfg):
    """which range of the concatenation a point is in"""
    n, open_at = cfg
    rs = ranges(S, n, open_at)
    p = S.int('p', 0, TOP * 2)
    found = make(rs).find_relative_container_index(p / 8.0)
    before, want = 0, None
    for k, (a, b) in enumerate(rs):
        if b is None or S.conc(p < before + b - a):
            want = k
            break
        before = before + (b - a)
    S.check((found is None) == (want is None), 'found exactly when inside the list')
    if want is not None:
        S.check(found[0] == want, 'the range')
        S.check(found[1] * 8 == before, 'the length before it')


def sorting(S, cfg):
    """sorting separate ranges"""
    n, open_at = cfg
    rs = ranges(S, n, open_at)
    for a, b in rs:
        S.assume(True if b is None else a < b)
    S.assume(S.not_(overlap(S, rs)))
    l = make(rs)
    s = l.sorted()
    S.check(type(s) is SequentialRangeList and len(s) == n, 'a list of as many ranges')
    for x, y in zip(s[:-1], s[1:]):
        S.check(S.and_(not x.is_open(), x.stop <= y.start), 'in order of position')
    for q in s:
        S.check(S.or_(*[S.and_(q.start * 8 == a, same_number(S, q.stop, b)) for a, b in rs]), 'one of the ranges')
    S.check(S.eq([q.start * 8 for q in l], [a for a, b in rs]), 'the list itself is unchanged')
    x, y = l[0], l[1]
    S.check((x < y) == (rs[0][0] < rs[1][0]), 'less')
    S.check((x > y) == (rs[0][0] > rs[1][0]), 'greater')
    S.check((x <= y) == (rs[0][0] <= rs[1][0]), 'less or equal')
    S.check((x >= y) == (rs[0][0] >= rs[1][0]), 'greater or equal')


def joining(S, cfg):
    rs = ranges(S, 3)
    a, b = make(rs[:1]), make(rs[1:])
    for l, want in ((a + b, rs), (b + a, rs[1:] + rs[:1]), (a + list(b), rs), (sum([a, b], SequentialRangeList()), rs)):
        S.check(type(l) is SequentialRangeList, 'a range list')
        S.check(S.eq([q.start * 8 for q in l], [x for x, y in want]), 'starts')
        S.check(S.eq([q.stop * 8 for q in l], [y for x, y in want]), 'stops')
        S.check(same_number(S, l.byte_length(), sum([y - x for x, y in want])), 'length')
    S.check(len(a) == 1 and len(b) == 2, 'operands unchanged')


def invalid(S, cfg):
    """a range has non-negative bounds, in order"""
    a, b = S.int('a', -20, 20), S.int('b', -20, 20)
    out = S.outcome(SequentialRange, a / 8.0, b / 8.0)
    S.check(out.ok == S.and_(a >= 0, b >= a), 'made exactly when 0 <= start <= stop')
    out = S.outcome(SequentialRange, a / 8.0, None)
    S.check(out.ok == (a >= 0), 'open: made exactly when start is not negative')
    r = SequentialRange(None, S.int('c', 0, 9))
    S.check(r.start == 0, 'starts at 0 if not said')


def declared(S, cfg):
    """a field in these byte ranges is refused exactly if they overlap; otherwise the class has their size"""
    n, open_at, kind = cfg
    rs = ranges(S, n, open_at, 6)
    if kind == 'list':
        ref = bytes_ref[tuple([slice(a, b) for a, b in rs])]
    elif kind == 'sum':
        ref = bytes_ref[rs[0][0]:rs[0][1]]
        for a, b in rs[1:]:
            ref = ref + bytes_ref[a:b]
    else:
        ref = bytes_ref[0:6].bits[tuple([slice(a, b) for a, b in rs])]
    out = S.outcome(lambda: type(Buffer)('T', (Buffer,), {'f': bytearray_field(where=ref) if kind != 'bits' else
                                                          uint_field(where=ref)}))
    wrong = overlap(S, rs)
    if open_at is None:
        S.check(out.ok == S.not_(wrong), 'refused exactly when the ranges overlap')
        if out.ok:
            t = 1 if kind != 'bits' else 8
            m = out.value.byte_size * t
            S.check(S.and_(*[m >= b for a, b in rs]), 'nothing beyond the size')
            S.check(S.or_(*[m == b for a, b in rs]), 'the size is the end of a range')
        else:
            S.check(isinstance(out.exc, InstructBufferError), 'a buffer error')
            S.check('f' in str(out.exc) and 'T' in str(out.exc), 'naming the field and the class')
    else:
        x = S.bytes('x', 6)
        if out.ok:
            obj = out.value()
            out = S.outcome(obj.unpack, x)
        if S.conc(wrong):
            S.check(not out.ok and isinstance(out.exc, InstructBufferError), 'refused when the ranges overlap')
        elif out.ok:
            want = []
            for a, b in rs:
                want += list(x[a:b])
            S.check(S.eq(bytes(obj.f), bytes(bytearray(want))), 'bytes in order')
        else:
            S.check(S.or_(*[a > 6 for a, b in rs]), 'refused without reason')


def referred(S, cfg):
    """positions that depend on other fields: refused exactly when they overlap, when packing and when unpacking"""
    mode = cfg

    class T(Buffer):
        a = uint_field(where=bytes_ref[0])
        b = uint_field(where=bytes_ref[1])
        f = bytearray_field(where=bytes_ref[a:a + 2] + bytes_ref[b:b + 1])
    va, vb = S.int('va', 2, 6), S.int('vb', 2, 6)
    wrong = S.or_(va == vb, va + 1 == vb)
    if mode == 'pack':
        y = S.bytes('y', 3)
        t = T(a=va, b=vb, f=bytearray(y))
        out = S.outcome(t.pack)
        S.check(out.ok == S.not_(wrong), 'refused exactly when the ranges overlap')
        if out.ok:
            x = out.value
            S.check(S.eq([x[S.conc(va)], x[S.conc(va) + 1], x[S.conc(vb)]], list(y)), 'bytes in their places')
    else:
        x = S.bytes('x', 8)
        S.assume(S.and_(x[0] == va, x[1] == vb))
        t = T()
        out = S.outcome(t.unpack, x)
        S.check(out.ok == S.not_(wrong), 'refused exactly when the ranges overlap')
        if out.ok:
            k, m = S.conc(va), S.conc(vb)
            S.check(S.eq(bytes(t.f), x[k:k + 2] + x[m:m + 1]), 'bytes from their places')
    if not out.ok:
        S.check(isinstance(out.exc, InstructBufferError) and out.exc.attr_name == 'f', 'a buffer error naming the field')


def bits_inside(S, cfg):
    """bits i..j of a sequence of byte ranges, however the ranges divide it"""
    n, open_at, single_bit = cfg
    parent = []
    for k in range(n):
        a = S.int('a%d' % k, 0, 3)
        parent.append((a, None if k == open_at else a + S.int('l%d' % k, 0, 2)))
    i = S.int('i', 0, 20)
    total = sum([(b - a) * 8 for a, b in parent if b is not None])
    if single_bit == 'open':
        j = None
    else:
        j = i + 1 if single_bit else S.int('j', 0, 20)
        S.assume(i <= j)
    ref = bytes_ref[tuple([slice(a, b) for a, b in parent])]
    if single_bit == 'open':
        ref = ref.bits[i:]
    else:
        ref = ref.bits[i] if single_bit else ref.bits[i:j]
    out = S.outcome(ref.deref, Context())
    if j is None and open_at is None:
        if S.conc(i >= total):
            S.check(not out.ok or S.eq(out.value.byte_length() * 8, 0), 'refused or empty when beyond the bytes')
            return
        j = total
    # the k-th bit of the parent
    p = S.int('p', 0, 24)
    if j is not None:
        S.assume(p < j - i)
    total = 0
    at = None
    for a, b in parent:
        if b is None or S.conc(i + p < total + (b - a) * 8):
            at = a * 8 + (i + p - total)
            break
        total = total + (b - a) * 8
    if out.ok:
        S.check(at is not None, 'refused when beyond the bytes')
        q = out.value
        if j is None:
            S.check(len(q) > 0 and q[len(q) - 1].stop is None, 'open')
        else:
            S.check(same_number(S, q.byte_length(), j - i), 'length')
        left, found = p, None
        for r in q:
            if r.stop is None:
                found = r.start * 8 + left
                break
            n8 = r.byte_length() * 8
            if S.conc(left < n8):
                found = r.start * 8 + left
                break
            left = left - n8
        S.check(found is not None and (found == at), 'the bit at its place')
    else:
        tot = sum([(b - a) * 8 for a, b in parent if b is not None])
        S.check(open_at is None and j > tot, 'refused without reason')


def obligations(tier):
    full = tier == 'thorough'
    obs = [Ob('single', single, False), Ob('single-open', single, True)]
    obs += group('two', two, [None, 0, 1], 1)
    n3 = [(1, None), (1, 0), (2, None), (2, 0), (2, 1), (3, None), (3, 0), (3, 1), (3, 2)]
    n4 = n3 + [(4, None), (4, 1), (4, 3)]
    obs += group('overlaps', many, n4 if full else n3, 1)
    obs += group('totals', totals, n4 if full else n3, 1)
    obs += group('closing', closing, [c for c in n3 if c[1] is not None], 1)
    obs += group('byte-offset', offsets, [(1, None), (2, None), (3, None), (2, 1), (3, 2)], 1)
    obs += group('container', containers, [(1, None), (2, None), (3, None), (2, 1), (3, 2)], 1)
    obs += group('sorting', sorting, [(2, None), (3, None), (3, 1), (2, 0)], 1)
    obs += [Ob('joining', joining), Ob('invalid', invalid)]
    obs += group('declared', declared, [(n, None, k) for n in (1, 2) for k in ('list', 'sum', 'bits')] +
                 ([(3, None, 'list'), (3, None, 'bits')] if full else []), 1)
    obs += group('declared-open', declared, [(1, 0, 'list'), (2, 1, 'list'), (2, 0, 'sum')], 1)
    obs += group('referred', referred, ['pack', 'unpack'], 1)
    obs += group('bits-inside', bits_inside, [(1, None, False), (2, None, False), (1, None, True), (2, None, True), (2, 1, False), (1, None, 'open'), (2, None, 'open'), (2, 1, 'open')] +
                 ([(3, None, False), (3, 2, True), (3, None, 'open'), (1, 0, 'open'), (3, 2, 'open')] if full else []), 1)
    return obs
