"""Bit array edits equal the same edits on a list of bits."""
from .lib import *
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray

BOUNDS = ('arrays of up to 3 bytes over any part of their buffer (spare buffer bits included), every content; edits at every '
          'offset and length in eighths; values: bit views of 0..17 bits, integers, bytes, lists; histories of up to 3 edits')


def groups(bits):
    return [bits_value(bits[i:i + 8]) for i in range(0, len(bits), 8)]


def clip(i, n):
    return max(i + n, 0) if i < 0 else min(i, n)


def array(S, name, n, a, b):
    """(array over bits a..b of n symbolic bytes, its bits)"""
    x = S.bytes(name, n)
    return BitAwareByteArray(bytearray(x), a / 8.0, b / 8.0), bit_list(x)[a:b]


def view(S, name, n, a, b):
    x = S.bytes(name, n)
    return BitView(x, a / 8.0, b / 8.0), bit_list(x)[a:b]


def agrees(S, v, bits, label):
    S.check(v.length() * 8 == len(bits), label + ': length')
    S.check(S.eq(list(v), groups(bits)), label + ': bits')
    S.check(S.eq(bytes(v.to_bytearray()), bytes(bytearray(groups(bits)))), label + ': bytes')


def then_grow(S, v, bits, label):
    """what follows the end later starts as zeros, and other edits still fit"""
    agrees(S, v, bits, label)
    n = len(bits) + 11
    v.zfill(n / 8.0)
    bits = bits + [0] * 11
    agrees(S, v, bits, label + ', then zero-filled')


VIEWS = [(2, 0, 16), (2, 3, 14), (3, 0, 19), (1, 2, 5), (3, 5, 24), (1, 0, 0)]


def offsets(m):
    return [k for k in (0, 1, 3, 7, 8, 9, 12, m - 9, m - 8, m - 4, m - 1, m) if 0 <= k <= m]


def pick_range(S, m):
    i = S.choice('i', sorted(set(offsets(m))))
    j = S.choice('j', sorted(set(k for k in [i, i + 1, i + 3, i + 8, i + 11] + offsets(m)[-2:] if i <= k <= m)))
    return i, j


def assign_view(S, cfg):
    """replace a range by another number of bits"""
    (n, a, b), lengths = cfg
    v, bits = array(S, 'x', n, a, b)
    i, j = pick_range(S, len(bits))
    l, at = S.choice('value', lengths)
    w, wbits = view(S, 'y', (l + at + 7) // 8, at, at + l)
    v[i / 8.0:j / 8.0] = w
    bits[i:j] = wbits
    then_grow(S, v, bits, 'assigned')
    S.check(S.eq(list(w), groups(wbits)), 'assigned value unchanged')


def assign_int(S, cfg):
    """an integer fills the range, most significant bits zero, or is refused"""
    n, a, b = cfg
    v, bits = array(S, 'x', n, a, b)
    i = S.choice('i', offsets(len(bits))[::2])
    j = S.choice('j', sorted(set(k for k in (i, i + 1, i + 3, i + 8, i + 9) if i <= k <= len(bits))))
    y = S.int('y', -2, 1023)
    out = S.outcome(v.__setitem__, slice(i / 8.0, j / 8.0), y)
    fits = S.conc(S.and_(y >= 0, y < (1 << (j - i))))
    S.check(out.ok == fits, 'refused exactly when it does not fit')
    if fits:
        bits[i:j] = [(y >> k) & 1 for k in range(j - i)]
    then_grow(S, v, bits, 'assigned')


def assign_bytes(S, cfg):
    """whole bytes of any kind"""
    (n, a, b), kind = cfg
    v, bits = array(S, 'x', n, a, b)
    i, j = pick_range(S, len(bits))
    k = S.choice('k', (0, 1, 2))
    y = S.bytes('y', k)
    v[i / 8.0:j / 8.0] = {'bytes': bytes, 'bytearray': bytearray, 'list': list, 'tuple': tuple, 'view': BitView}[kind](y)
    bits[i:j] = bit_list(y)
    then_grow(S, v, bits, 'assigned')


def assign_index(S, cfg):
    n, a, b = cfg
    v, bits = array(S, 'x', n, a, b)
    m = len(bits)
    i = S.choice('i', range(-m, m - 7))
    y = S.bits('y', 8)
    at = clip(i, m)
    S.assume(at + 8 <= m)
    v[i / 8.0] = y
    bits[at:at + 8] = [(y >> k) & 1 for k in range(8)]
    then_grow(S, v, bits, 'assigned')


def delete(S, cfg):
    n, a, b, signs = cfg
    v, bits = array(S, 'x', n, a, b)
    m = len(bits)
    i = S.choice('i', range(-m - 1, m + 2) if signs else range(0, m + 1))
    j = S.choice('j', [k for k in (list(range(-m - 1, m + 2, 3)) + [m] if signs else range(0, m + 3)) if clip(k, m) >= clip(i, m)])
    del v[i / 8.0:j / 8.0]
    del bits[clip(i, m):clip(j, m)]
    then_grow(S, v, bits, 'deleted')


def delete_index(S, cfg):
    n, a, b = cfg
    v, bits = array(S, 'x', n, a, b)
    m = len(bits)
    i = S.choice('i', range(0, m - 7))
    how = S.choice('how', ('del', 'pop', 'negative'))
    if how == 'del':
        del v[i / 8.0]
    elif how == 'negative':
        if i < m:
            del v[(i - m) / 8.0]
    else:
        S.check(S.eq(v.pop(i / 8.0), bits_value(bits[i:i + 8])), 'popped value')
    del bits[i:i + 8]
    then_grow(S, v, bits, 'deleted')


def insert(S, cfg):
    (n, a, b), kind = cfg
    v, bits = array(S, 'x', n, a, b)
    m = len(bits)
    i = S.choice('i', list(range(0, m + 1)) + [m + 5, -1, -m, -m - 3])
    if kind == 'int':
        y = S.bits('y', 8)
        v.insert(i / 8.0, y)
        new = [(y >> k) & 1 for k in range(8)]
    elif kind == 'bytes':
        y = S.bytes('y', 2)
        v.insert(i / 8.0, y)
        new = bit_list(y)
    else:
        l, at = S.choice('value', ((3, 2), (8, 0), (13, 1), (0, 0), (8, 5), (16, 0)))
        y, new = view(S, 'y', (l + at + 7) // 8, at, at + l)
        v.insert(i / 8.0, y)
    at = clip(i, m)
    bits[at:at] = new
    then_grow(S, v, bits, 'inserted')


def grow(S, cfg):
    """append, extend, add, in-place add, zero-fill at the end"""
    (n, a, b), how = cfg
    v, bits = array(S, 'x', n, a, b)
    kept, before = v, list(bits)
    if how == 'append':
        y = S.bits('y', 8)
        v.append(y)
        bits += [(y >> k) & 1 for k in range(8)]
    elif how == 'extend-bytes':
        y = S.bytes('y', 2)
        v.extend(bytearray(y))
        bits += bit_list(y)
    elif how == 'extend-list':
        y = S.bytes('y', 3)
        v.extend(list(y))
        bits += bit_list(y)
    elif how == 'iadd-bytes':
        y = S.bytes('y', 2)
        v += bytearray(y)
        bits += bit_list(y)
    elif how == 'zfill':
        k = S.choice('k', range(0, len(bits) + 18))
        v.zfill(k / 8.0)
        bits += [0] * (k - len(bits))
    else:
        l, at = S.choice('value', ((3, 2), (8, 0), (13, 1), (0, 0), (8, 5), (16, 0), (1, 7)))
        y, new = view(S, 'y', (l + at + 7) // 8, at, at + l)
        if how == 'extend':
            v.extend(y)
        elif how == 'iadd':
            v += y
            S.check(v is kept, 'added in place')
        elif how == 'add':
            w = v + y
            agrees(S, v, bits, 'left operand unchanged')
            S.check(type(w) is BitAwareByteArray, 'type')
            v = w
        elif how == 'radd':
            w = y + v
            agrees(S, v, bits, 'right operand unchanged')
            v, bits, new = w, list(new), bits
        S.check(S.eq(list(y), groups(new if how != 'radd' else bits)), 'other operand unchanged')
        bits = bits + new
    then_grow(S, v, bits, 'grown')
    if how in ('add', 'radd'):
        v[0:0.25] = 0 if len(bits) >= 2 else b''
        agrees(S, kept, before, 'operand unchanged by changing the sum')


def itself(S, cfg):
    """the value is (a view of) the array itself"""
    (n, a, b), how = cfg
    v, bits = array(S, 'x', n, a, b)
    m = len(bits)
    i = S.choice('i', sorted(set(k for k in (0, 3, 8, m) if k <= m)))
    if how == 'extend':
        v.extend(v)
        bits = bits + bits
    elif how == 'iadd':
        w = v
        v += v
        S.check(w is v, 'in place')
        bits = bits + bits
    elif how == 'add':
        v = v + v
        bits = bits + bits
    elif how == 'insert':
        v.insert(i / 8.0, v)
        bits = bits[:i] + bits + bits[i:]
    elif how == 'assign':
        j = S.choice('j', sorted(set(k for k in (i, i + 5, i + 8, m) if i <= k <= m)))
        v[i / 8.0:j / 8.0] = v
        bits = bits[:i] + bits + bits[j:]
    elif how == 'view':
        w = BitView(v.buffer, v.start, v.stop)
        v.insert(i / 8.0, w)
        bits = bits[:i] + bits + bits[i:]
    elif how == 'view-of-array':
        w = BitView(v)
        if m % 8:
            w = BitView(v, 0, m // 8)
        v.extend(w)
        bits = bits + bits[:m // 8 * 8]
    elif how == 'clear':
        v.clear()
        bits = []
    then_grow(S, v, bits, 'itself')


def history(S, cfg):
    """several edits one after another, with slices read in between"""
    (n, a, b), kinds, at = cfg
    v, bits = array(S, 'x', n, a, b)
    for s, kind in enumerate(kinds):
        m = len(bits)
        i = S.choice('i%d' % s, sorted(set(min(k, m) for k in at)))
        j = S.choice('j%d' % s, sorted(set(min(k, m) for k in (i, i + 3, i + 9))))
        if kind == 'del':
            del v[i / 8.0:j / 8.0]
            del bits[i:j]
        elif kind == 'set':
            y, new = view(S, 'y%d' % s, 2, 3, 9)
            v[i / 8.0:j / 8.0] = y
            bits[i:j] = new
        elif kind == 'ins':
            y = S.bytes('y%d' % s, 1)
            v.insert(i / 8.0, y)
            bits[i:i] = bit_list(y)
        elif kind == 'zfill':
            v.zfill((m + j - i) / 8.0)
            bits += [0] * (j - i)
        elif kind == 'self':
            w = v[i / 8.0:j / 8.0]
            v.extend(w)
            bits += bits[i:j]
        elif kind == 'slice':
            # a slice is a copy: changing it leaves the array alone
            w = v[i / 8.0:j / 8.0]
            w.append(255)
            w[0:0.125] = 1
            S.check(w.length() * 8 == j - i + 8, 'slice grown')
        agrees(S, v, bits, 'after edit %d' % s)
    then_grow(S, v, bits, 'at the end')


def placed(S, cfg):
    """an output filled in any order by positions holds exactly what was put there"""
    from infi.instruct.buffer.io_buffer import OutputBuffer
    from infi.instruct.buffer.range import SequentialRange, SequentialRangeList
    parts, order = cfg
    out = OutputBuffer()
    size = max(b for p in parts for a, b in p)
    want = [0] * (8 * ((size + 7) // 8))
    for k in order:
        p = parts[k]
        n = sum(b - a for a, b in p)
        w, bits = view(S, 'y%d' % k, (n + 7) // 8, 0, n)
        out.set(w, SequentialRangeList([SequentialRange(a / 8.0, b / 8.0) for a, b in p]))
        for a, b in p:
            want[a:b] = bits[:b - a]
            bits = bits[b - a:]
    S.check(S.eq(bytes(bytearray(out.get())), bytes(bytearray(groups(want)))), 'bytes')


def refused(S, cfg):
    v, bits = array(S, 'x', 2, 3, 14)
    y = S.int('y', -300, -1)
    for out in (S.outcome(v.__setitem__, slice(0, 1), y), S.outcome(v.insert, 0, y), S.outcome(v.append, y),
                S.outcome(v.insert, 0, 256), S.outcome(v.__setitem__, slice(0, 0.5), 16), S.outcome(v.__setitem__, slice(0, 1), None),
                S.outcome(v.__setitem__, slice(0, 1), 1.5), S.outcome(v.__setitem__, slice(1, 0.5), b'')):
        S.check(not out.ok, 'refused')
    agrees(S, v, bits, 'unchanged after refusals')


def obligations(tier):
    full = tier == 'thorough'
    lengths = [(0, 0), (1, 0), (3, 5), (8, 0), (8, 3), (11, 2), (17, 0)]
    obs = []
    for n, w in enumerate(VIEWS):
        part = [lengths] if full or n > 3 else [lengths[::2], lengths[1::2]] if n == 0 else [lengths[n % 2::2]]
        for k, l in enumerate(part):
            obs.append(Ob('assign-view-%d-%d' % (n, k), assign_view, (w, l)))
    obs += group('assign-int', assign_int, VIEWS[:5], 2)
    obs += group('assign-bytes', assign_bytes, [(w, k) for w, k in zip(VIEWS * 2, ('bytes', 'bytearray', 'list', 'tuple', 'view',
                                                                                  'bytes', 'list', 'view', 'tuple', 'bytearray'))]
                 [:10 if full else 5], 2)
    obs += group('assign-index', assign_index, VIEWS[:3] + VIEWS[4:5], 4)
    obs += group('delete', delete, [w + (False,) for w in VIEWS[:2] + VIEWS[4:5]] + [VIEWS[3] + (True,)] +
                 ([w + (True,) for w in VIEWS] if full else []), 1)
    obs += group('delete-index', delete_index, VIEWS[:3] + VIEWS[4:5], 4)
    obs += group('insert', insert, [(w, k) for w in (VIEWS if full else VIEWS[1:4]) for k in ('int', 'bytes', 'view')], 2)
    obs += group('grow', grow, [(w, k) for w in VIEWS for k in ('append', 'extend-bytes', 'extend-list', 'iadd-bytes', 'zfill',
                                                                'extend', 'iadd', 'add', 'radd')], 14)
    obs += group('itself', itself, [(w, k) for w in VIEWS for k in ('extend', 'iadd', 'add', 'insert', 'assign', 'view', 'view-of-array', 'clear')], 8)
    hist = [('del', 'set', 'zfill'), ('set', 'del', 'ins'), ('ins', 'zfill', 'del'), ('zfill', 'set', 'self'), ('self', 'del', 'slice'),
            ('slice', 'ins', 'set')]
    obs += group('history', history, [(VIEWS[k % 5], h if full else h[:2] if k % 2 else h[1:], (0, 3, 8, 13)) for k, h in enumerate(hist)] +
                 ([(VIEWS[(k + 2) % 5], h, (1, 9, 16)) for k, h in enumerate(hist)] if full else []), 1 if full else 2)
    sets = [[[(0, 3)], [(3, 9)], [(12, 16)]], [[(5, 8), (16, 21)], [(8, 12)], [(0, 5)]], [[(40, 48)], [(8, 24)], [(3, 4)]],
            [[(20, 28), (2, 9)], [(9, 20)], [(33, 34)]]]
    obs += group('placed', placed, [(p, o) for p in sets for o in ((0, 1, 2), (2, 1, 0), (1, 2, 0))], 12)
    obs += [Ob('refused', refused)]
    return obs
