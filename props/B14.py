"""References evaluate to the arithmetic they denote, once, and cycles are errors."""
import operator
import itertools
from .dynamic import *
from infi.instruct.buffer.reference import CyclicReferenceError

BOUNDS = ('all expression shapes of up to two binary operators (+ - * // and comparisons, reflected and with unary minus), '
          'min/max of up to four, over fields, constants, names, methods, lengths and ends of fields; every value of an 8-bit '
          'unsigned and a 16-bit signed field; chains of up to 4 dependent fields for cycles')

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv}
CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
ALL = dict(OPS, **CMP)


def evaluate(e, leaf, mins, maxs):
    """the expression over leaves: references, or values"""
    if isinstance(e, int):
        return e
    if isinstance(e, str):
        return leaf(e)
    op, args = e[0], [evaluate(a, leaf, mins, maxs) for a in e[1:]]
    if op == 'neg':
        return -args[0]
    if op == 'min':
        return mins(*args)
    if op == 'max':
        return maxs(*args)
    return ALL[op](*args)


def expressions(S, e):
    class T(Buffer):
        def method(self):
            return self.x + self.x + 1

        def plus(self, v, w=5):
            return v * w + self.y
        x = be_uint_field(where=bytes_ref[0])
        y = le_int_field(where=bytes_ref[1:3])
        d = bytearray_field(where=bytes_ref[3:3 + 0 * x + 2])
        refs = dict(x=lambda x=x: x, y=lambda y=y: y, n=lambda: num_ref(self_ref.x), m=lambda: num_ref(self_ref.method()),
                    k=lambda x=x: num_ref(self_ref.plus(x, w=x - 3)), l=lambda d=d: len_ref(d), L=lambda: len_ref('d'),
                    a=lambda d=d: after_ref(d), f=lambda: num_ref(member_func_ref(lambda self: 7 * self.y)))
        expr = evaluate(e, lambda s, refs=refs: refs[s](), min_ref, max_ref)
        r = be_int_field(where=bytes_ref[8:16], set_before_pack=expr)
        s = be_int_field(where=bytes_ref[16:24], set_before_pack=lambda self: 0, set_after_unpack=expr, unpack_after=[x, y, d])
        del expr, refs
    x, y, d = S.bits('x', 8), S.int('y', -(1 << 15), (1 << 15) - 1), S.bytearray('d', 2)
    values = dict(x=x, y=y, n=x, m=x + x + 1, k=x * (x - 3) + y, l=2, L=2, a=5, f=7 * y)

    def value():
        return evaluate(e, lambda s: values[s], min, max)
    ref = S.outcome(value)
    bad = not ref.ok
    o = T(x=x, y=y, d=d)
    out = S.outcome(o.pack)
    S.observe('packed', out.name())
    t = T()
    back = S.outcome(t.unpack, bytes(bytearray([x] + le(y, 2) + list(d) + [0] * 19)))
    S.observe('unpacked', back.name())
    if bad:
        S.check(not out.ok and isinstance(out.exc, InstructError), 'division by zero is an error when packing')
        S.check(not back.ok and isinstance(back.exc, InstructError), 'division by zero is an error when unpacking')
        return
    want = ref.value
    S.check(out.ok and back.ok, 'evaluates')
    S.check(S.eq(out.value[8:16], bytearray(be(want, 8))), 'value used when packing')
    S.check(S.eq(o.r, want), 'value stored when packing')
    S.check(S.eq(t.s, want), 'value used when unpacking')
    S.check(S.and_(S.eq(t.x, x), S.eq(t.y, y), S.eq(t.d, d)), 'operands unchanged')


def shapes():
    leaves = itertools.cycle(('x', 'y', 3, 'n', 'm', 'l', 'y', 'x', -2, 'k', 'a', 'f', 'L', 'y', 5))

    def leaf():
        return next(leaves)

    def pair():
        a, b = leaf(), leaf()
        return ('y', b) if isinstance(a, int) and isinstance(b, int) else (a, b)
    out = []
    for op in sorted(ALL):
        out += [(op, 'x', 'y'), (op, 'y', 7), (op, 9, 'y'), (op, 'n', 'm')]
    for a in sorted(OPS):
        for b in sorted(OPS):
            p, q = pair(), pair()
            out += [(b, (a,) + p, leaf()), (b, leaf(), (a,) + q)]
    for a in sorted(OPS):
        out += [('neg', (a, 'x', 'y')), (a, ('neg', 'y'), 'x'), (a, 'l', ('neg', 'x'))]
    for c in sorted(CMP):
        out += [(c, ('+', 'x', 3), ('*', 'y', 2)), ('+', (c, 'x', 'y'), 'm'), ('neg', (c, 'm', 200))]
    out += [('min', 'x', 'y'), ('max', 'x', 'y'), ('min', 'x', 7), ('max', 7, 'y'), ('min', 'x', 'y', 'm'), ('max', 'k', 'x', 'y'),
            ('min', ('max', 'x', 'y'), ('neg', 'y')), ('max', ('-', 'x', 'y'), 0), ('min', ('+', 'x', 1), ('//', 'y', 3), 100, 'l'),
            ('-', ('max', 'x', 'y'), ('min', 'x', 'y')), ('*', ('min', 'a', 'y'), 'x'), ('neg', ('neg', 'y')), ('neg', 'k')]
    return out


def true_division(S, cfg):
    class T(Buffer):
        x = be_uint_field(where=bytes_ref[0])
        y = be_uint_field(where=bytes_ref[1:1 + x / 2])
        z = be_uint_field(where=bytes_ref[(x + 4) / 2:(x + 6) / 2])
        q = float_field(where=bytes_ref[20:28], set_before_pack=x / 4 - 3, endian='big')
    n = S.choice('n', (2, 4, 8))
    y, z = S.bits('y', 4 * n), S.bits('z', 8)
    o = T(x=n, y=y, z=z)
    data = o.pack()
    S.check(same_bytes(S, data[:n // 2 + 3], [n] + be(y, n // 2) + [0, z]), 'positions computed by division')
    S.check(o.q == n / 4.0 - 3, 'fraction')
    t = T()
    t.unpack(bytes(data))
    S.check(S.and_(S.eq(t.y, y), S.eq(t.z, z), t.q == n / 4.0 - 3), 'unpacked')


def fractions(S, cfg):
    """numeric references to attributes and methods that are fractions"""
    class T(Buffer):
        share = 0.5
        a = float_field(where=bytes_ref[0:8], endian='big', set_before_pack=num_ref(self_ref.share))
        b = float_field(where=bytes_ref[8:16], endian='big', set_before_pack=num_ref(self_ref.share) * 3 + 1)
        c = float_field(where=bytes_ref[16:24], endian='big', set_before_pack=1 - num_ref(member_func_ref(lambda self: self.share / 2)))
        d = bytearray_field(where=bytes_ref[24:24 + num_ref(self_ref.share) * 4])
        e = be_uint_field(where=bytes_ref[24 + num_ref(self_ref.share) * 4])
        f = be_uint_field(where=bytes_ref[40], pack_if=num_ref(self_ref.share) > 0.3, unpack_if=num_ref(self_ref.share) > 0.3)
    share = S.choice('share', (0.25, 0.5, 1.75, 2))
    n = int(share * 4)
    d, e, f = S.bytearray('d', n), S.bits('e', 8), S.bits('f', 8)
    o = T(d=d, e=e, f=f)
    o.share = share
    data = o.pack()
    want = value_bytes_of(share) + value_bytes_of(share * 3 + 1) + value_bytes_of(1 - share / 2.0) + list(d) + [e]
    S.check(same_bytes(S, data, want + ([0] * (40 - len(want)) + [f] if share > 0.3 else [])), 'packed bytes')
    t = T()
    t.share = share
    t.unpack(bytes(data))
    S.check(S.and_(t.a == share, t.b == share * 3 + 1, t.c == 1 - share / 2.0, S.eq(t.d, d), S.eq(t.e, e)), 'unpacked')
    S.check(S.eq(t.f, f) if share > 0.3 else t.f is None, 'condition')


def value_bytes_of(v):
    import struct
    return list(struct.pack('>d', v))


def once(S, cfg):
    """however often it is used, a reference is evaluated once per pack or unpack and every use sees the same result"""
    calls, results = [], []

    def f(self):
        calls.append(self)
        return results[len(calls) - 1]
    ref = num_ref(member_func_ref(f))

    class T(Buffer):
        a = be_uint_field(where=bytes_ref[0:2], set_before_pack=ref, set_after_unpack=ref)
        b = be_uint_field(where=bytes_ref[2:4], set_before_pack=ref + 1, set_after_unpack=ref + 1)
        c = be_uint_field(where=bytes_ref[4:6], set_before_pack=ref + ref, set_after_unpack=min_ref(ref, ref) * 2)
        d = be_uint_field(where=bytes_ref[6:8], set_before_pack=max_ref(a, ref, b - 1), set_after_unpack=max_ref(a, ref, b - 1))
        e = be_uint_field(where=bytes_ref[8:10], pack_if=ref > 100, unpack_if=ref > 100)
    results[:] = [S.int('r%d' % i, 0, 30000) for i in range(4)]
    e, raw = S.bits('e', 16), S.bytes('raw', 10)

    def want(r, now, stored):
        return S.and_(S.eq(now.a, r), S.eq(now.b, r + 1), S.eq(now.c, 2 * r), S.eq(now.d, r))
    for i in (0, 1):
        o = T(e=e)
        data = o.pack()
        r = results[i]
        S.check(len(calls) == i + 1, 'evaluated once by one pack')
        S.check(want(r, o, e), 'every use sees the result (pack)')
        S.check(same_bytes(S, data, be(r, 2) + be(r + 1, 2) + be(2 * r, 2) + be(r, 2) +
                           (be(e, 2) if S.conc(r > 100) else [0, 0])), 'packed bytes')
    for i in (2, 3):
        t = T()
        t.unpack(raw)
        r = results[i]
        S.check(len(calls) == i + 1, 'evaluated once by one unpack')
        S.check(want(r, t, e), 'every use sees the result (unpack)')
        if S.conc(r > 100):
            S.check(S.eq(t.e, bytes_value(raw[8:10], False)), 'condition sees the result')
        else:
            S.check(t.e is None, 'condition sees the result')


def once_whatever(S, cfg):
    """a reference is evaluated once even if its value is none, zero or empty"""
    calls = []
    value = S.choice('value', (None, 0, False, '', (), 0.0, b'', []))

    class T(Buffer):
        def f(self):
            calls.append(self)
            return value
        ref = self_ref.f() if cfg == 'method' else member_func_ref(f)
        a = be_uint_field(where=bytes_ref[0:2], pack_if=ref, unpack_if=ref)
        b = be_uint_field(where=bytes_ref[2:4], pack_if=ref, unpack_if=ref, unpack_after=a)
        c = be_uint_field(where=bytes_ref[4:6], set_after_unpack=ref)
        e = be_uint_field(where=bytes_ref[6:8], set_after_unpack=ref)
        del ref
    x = S.bits('x', 16)
    data = T(a=1, b=2, c=x, e=3).pack()
    S.check(len(calls) == 1, 'evaluated once by one pack')
    S.check(same_bytes(S, data, [0] * 4 + be(x, 2) + [0, 3]), 'packed bytes')
    t = T()
    t.unpack(bytes(data))
    S.check(len(calls) == 2, 'evaluated once by one unpack')
    S.check(t.a is None and t.b is None and t.c is value and t.e is value, 'values')


def once_everywhere(S, cfg):
    """functions in positions, lists, conditions and lengths"""
    where_, = cfg
    calls = []

    def f(self):
        calls.append(1)
        return self.n
    ref = num_ref(member_func_ref(f))

    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        if where_ == 'position':
            d = bytearray_field(where=bytes_ref[1:1 + ref], unpack_after=n)
            e = be_uint_field(where=bytes_ref[1 + ref:2 + ref])
            f = be_uint_field(where=bytes_ref[after_ref(d) + 1:after_ref(d) + 2])
        elif where_ == 'list':
            d = list_field(type=b_uint8, n=ref, where=bytes_ref[1:4], unpack_after=n)
            e = be_uint_field(where=bytes_ref[4])
            f = be_uint_field(where=bytes_ref[5:6 + 0 * ref])
        elif where_ == 'condition':
            d = bytearray_field(where=bytes_ref[1:4], unpack_after=n, unpack_if=ref > 1, pack_if=ref > 1)
            e = be_uint_field(where=bytes_ref[4:5], unpack_if=ref, pack_if=ref)
            f = be_uint_field(where=bytes_ref[5], unpack_if=ref < 9, pack_if=ref < 9)
        elif where_ == 'open':
            d = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + ref], unpack_after=n)
            e = be_uint_field(where=bytes_ref[after_ref(d):after_ref(d) + 1])
            f = be_uint_field(where=bytes_ref[after_ref(e):after_ref(e) + 1 + 0 * ref])
    x = S.bytes('x', 2)
    raw = bytes(bytearray([3])) + S.bytes('raw', 3) + x
    t = T()
    t.unpack(raw)
    S.check(len(calls) == 1, 'evaluated once by one unpack')
    S.check(S.and_(S.eq(bytes(bytearray(t.d)), raw[1:4]), S.eq(t.e, x[0]), S.eq(t.f, x[1])), 'values')
    del calls[:]
    S.check(S.eq(bytes(t.pack()), raw), 'packed again')
    S.check(len(calls) == 1, 'evaluated once by one pack')
    t.calc_byte_size()
    S.check(len(calls) <= 2, 'evaluated once when computing the size')


def shared(S, cfg):
    """a deep expression in which everything is shared is evaluated without repetition"""
    depth, = cfg
    calls = []

    class T(Buffer):
        def step(self, v):
            calls.append(1)
            return v
        x = be_uint_field(where=bytes_ref[0])
        e = x
        for _i in range(depth):
            e = num_ref(self_ref.step(e + e - e))
        r = be_uint_field(where=bytes_ref[1], set_before_pack=e, set_after_unpack=e + 1)
        q = be_uint_field(where=bytes_ref[2], set_before_pack=e)
        del e
    x = S.int('x', 0, 254)
    o = T(x=x)
    data = o.pack()
    S.check(same_bytes(S, data, [x, x, x]), 'packed')
    S.check(len(calls) == depth, 'each step evaluated once')
    t = T()
    t.unpack(bytes(data))
    S.check(S.eq(t.r, x + 1), 'unpacked')
    S.check(len(calls) == 2 * depth, 'each step evaluated once')


def self_dependent(S, cfg):
    """references that depend on themselves are reported"""
    kind, = cfg
    if kind == 'own-position':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0])
            b = be_uint_field(where=bytes_ref[1:1 + num_ref(self_ref.b)])
        fields, pack_ok = ('b',), True
    elif kind == 'mutual-length':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0])
            b = bytearray_field(where=bytes_ref[1:1 + num_ref(len_ref(self_ref.c))])
            c = bytearray_field(where=bytes_ref[5:5 + len_ref(b)])
        fields, pack_ok = ('b', 'c'), True
    elif kind == 'after':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0:num_ref(self_ref.c)])
            b = be_uint_field(where=bytes_ref[after_ref(a):after_ref(a) + 1])
            c = be_uint_field(where=bytes_ref[after_ref(b):after_ref(b) + 1])
        fields, pack_ok = ('a', 'b', 'c'), True
    elif kind == 'set-before-pack':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0], set_before_pack=self_ref.b)
            b = be_uint_field(where=bytes_ref[1], set_before_pack=num_ref(self_ref.c) + 1)
            c = be_uint_field(where=bytes_ref[2], set_before_pack=a - 1)
        fields, pack_ok = ('a', 'b', 'c'), False
    elif kind == 'total-size':
        class T(Buffer):
            a = be_uint_field(where=bytes_ref[0:total_size - 3])
            b = be_uint_field(where=bytes_ref[4:4 + a])
        fields, pack_ok = ('a', 'b'), False
    elif kind == 'count':
        class T(Buffer):
            l = list_field(type=b_uint8, n=len_ref(self_ref.l), where=bytes_ref[0:])
        fields, pack_ok = ('l',), True
    x = S.bytes('x', 8)
    t = T()
    out = S.outcome(t.unpack, x)
    S.observe('unpack', out.name())
    if kind != 'set-before-pack':
        S.check(not out.ok and isinstance(out.exc, InstructError), 'cycle reported when unpacking')
        S.check(getattr(out.exc, 'attr_name', None) in fields, 'field named')
        S.check('Cyclic' in str(out.exc) or isinstance(out.exc, CyclicReferenceError) or _cyclic_cause(out.exc), 'reported as a cycle')
    else:
        S.check(out.ok, 'no cycle when unpacking')
    if not pack_ok:
        o = T(**dict((k, 1) for k in fields))
        out = S.outcome(o.pack)
        S.observe('pack', out.name())
        S.check(not out.ok and isinstance(out.exc, InstructError), 'cycle reported when packing')
        S.check(getattr(out.exc, 'attr_name', None) in fields, 'field named')


def _cyclic_cause(e):
    for _ in range(20):
        if e is None:
            return False
        if isinstance(e, CyclicReferenceError):
            return True
        e = e.__cause__ or e.__context__


def graph(S, cfg):
    """each of n computed fields refers to any other field, or to none: an error exactly when a field reaches itself"""
    n, when = cfg
    deps = [S.choice('dep%d' % i, range(-1, n)) for i in range(n)]
    names = ['f%d' % i for i in range(n)]
    own = [S.int('v%d' % i, 0, 50) for i in range(n)]

    def make():
        attrs = {}
        for i in range(n):
            kw = {}
            if deps[i] >= 0:
                other = num_ref(getattr(self_ref, names[deps[i]]))
                kw['set_before_pack' if when == 'pack' else 'set_after_unpack'] = other + 1
            attrs[names[i]] = be_uint_field(where=bytes_ref[i], **kw)
        return make_buffer(attrs)
    T = make()

    def reach(i):
        seen = []
        while i >= 0 and i not in seen:
            seen.append(i)
            i = deps[i]
        return i, seen
    cyclic = any(reach(i)[0] >= 0 for i in range(n))
    S.observe('cyclic', cyclic)
    want = []
    if not cyclic:
        for i in range(n):
            last, seen = reach(i)
            want.append(own[seen[-1]] + len(seen) - 1)
    if when == 'pack':
        o = T(**dict(zip(names, own)))
        out = S.outcome(o.pack)
        S.check(out.ok == (not cyclic), 'cycle reported exactly when there is one')
        if out.ok:
            S.check(same_bytes(S, out.value, want), 'packed values')
        else:
            S.check(isinstance(out.exc, InstructError), 'reported as an error of the library')
    else:
        t = T()
        out = S.outcome(t.unpack, bytes(bytearray(own)))
        S.check(out.ok == (not cyclic), 'cycle reported exactly when there is one')
        if out.ok:
            S.check(S.eq([getattr(t, k) for k in names], want), 'unpacked values')
        else:
            S.check(isinstance(out.exc, InstructError), 'reported as an error of the library')
        again = S.outcome(t.unpack, bytes(bytearray(own)))
        S.check(again.ok == out.ok, 'the same the second time')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('expressions', expressions, shapes(), 12)
    obs += [Ob('true-division', true_division), Ob('fractions', fractions), Ob('once', once)]
    obs += group('once-whatever', once_whatever, ['method', 'function'], 2)
    obs += group('once-everywhere', once_everywhere, [(k,) for k in ('position', 'list', 'condition', 'open')], 4)
    obs += group('shared', shared, [(3,), (30 if not full else 60,)], 2)
    obs += group('cycle', self_dependent, [(k,) for k in ('own-position', 'mutual-length', 'after', 'set-before-pack',
                                                          'total-size', 'count')], 6)
    obs += group('graph', graph, [(3 if not full else 4, w) for w in ('pack', 'unpack')], 1)
    return obs
