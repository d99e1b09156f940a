"""A failed buffer operation leaves no trace."""
import struct
from .dynamic import *
from . import composeb
from .B15 import snapshot, same, freeze
from infi.instruct.buffer.buffer import InstructBufferError

BOUNDS = ('28 layouts with positions depending on values: every field in turn given an unsuitable value (7 kinds), every input cut at every '
          'position and arbitrary inputs of up to 3 bytes (thorough 4), one failure (thorough: two) before the operation that is compared; '
          'failing user functions in 8 places, raising for any of the values of a symbolic byte; failing inner buffers, sizes, declarations')
BOUNDS += '; buffers of any two of 32 kinds of part, each right after the one before, names in several orders (props/composeb.py; quick: fewer of them)'
UNSUITABLE = ('object', 'none', 'negative', 'huge', 'text', 'list', 'fraction')
EVERY = [(k, how) for how in ('pack', 'size') for k in UNSUITABLE]
QUICK = [('object', 'pack'), ('negative', 'pack'), ('none', 'size')]


def unsuitable(kind):
    return {'object': object(), 'none': None, 'negative': -1, 'huge': 70000, 'text': u'\u1234' * 3, 'list': [1, None, 'x'], 'fraction': 0.5}[kind]


class Few(object):
    """the inputs of a case with fewer sizes: the largest ones"""
    def __init__(self, S, most):
        self.S, self.most, self.chosen = S, most, {}

    def choice(self, name, options):
        options = list(options)
        self.chosen[name] = self.S.choice(name, options[-self.most:] if isinstance(options[0], int) else options)
        return self.chosen[name]

    def __getattr__(self, name):
        return getattr(self.S, name)


def failure(out):
    """what a failed operation tells"""
    e = out.exc
    return (type(e).__name__, getattr(e, 'clazz', None), getattr(e, 'attr_name', None))


def pack_fails(S, cfg):
    """an object is packed with an unsuitable value, then with the right one"""
    f, steps, kinds, sizes = cfg
    few = Few(S, sizes)
    c = f(few, False)
    other = c.object()
    # the values the object has while it cannot be packed are others, of other sizes
    o = c.T(**f(Fixed(few.chosen), False).values)
    keys = sorted(c.values)
    for step in range(steps if keys else 0):
        before = snapshot(o)
        k = keys[S.choice('field%d' % step, range(len(keys)))]
        kind, how = S.choice('kind%d' % step, kinds)
        setattr(o, k, unsuitable(kind))
        first = S.outcome(o.pack if how == 'pack' else o.calc_byte_size)
        again = S.outcome(o.pack if how == 'pack' else o.calc_byte_size)
        S.check(first.ok == again.ok, 'the same outcome again')
        if not first.ok:
            S.reach('failed')
            S.check(failure(first) == failure(again), 'the same error again')
            for n in keys:
                S.check(n == k or n in c.same_fn or same(S, freeze(getattr(o, n)), before[n]), 'other fields are as they were')
        for n in keys:
            setattr(o, n, c.object().__dict__[n])
    S.check(same_bytes(S, o.pack(), c.want), 'packs as if nothing had failed')
    S.check(o.calc_byte_size() == other.calc_byte_size(), 'size as if nothing had failed')
    S.check(same_bytes(S, other.pack(), c.want), 'another object packs as before')
    S.check(same_bytes(S, c.object().pack(), c.want), 'a new object packs as before')


def unpack_fails(S, cfg):
    """an object is unpacked from a part of the input, then from all of it"""
    f, steps, sizes = cfg
    c = f(Few(S, sizes), False)
    raw = bytes(bytearray(c.want))
    fresh = c.T()
    n = fresh.unpack(raw)
    want = snapshot(fresh)
    t = c.T() if S.choice('new', (True, False)) else c.object()
    for step in range(steps):
        cut = S.choice('cut%d' % step, range(len(raw) + 1))
        source = bytearray(raw[:cut])
        out = S.outcome(t.unpack, source)
        S.check(S.eq(bytes(source), raw[:cut]), 'the input is not changed')
        again = S.outcome(t.unpack, raw[:cut])
        S.check(out.ok == again.ok and (out.ok or failure(out) == failure(again)), 'the same outcome again')
        other = S.outcome(c.T().unpack, raw[:cut])
        S.check(out.ok == other.ok and (out.ok or failure(out) == failure(other)), 'the same outcome for a new object')
        if not out.ok:
            S.reach('failed')
    S.check(t.unpack(raw) == n, 'size as if nothing had failed')
    S.check(same(S, snapshot(t), want), 'values as if nothing had failed')
    S.check(same(S, snapshot(fresh), want), 'another object is as it was')
    u = c.T()
    S.check(u.unpack(raw) == n, 'size for a new object')
    S.check(same(S, snapshot(u), want), 'values of a new object')
    S.check(same_bytes(S, c.object().pack(), c.want), 'packing is as before')


def garbage(S, cfg):
    """any input, then a good one"""
    f, size = cfg
    c = f(Fixed(), False)
    raw = bytes(bytearray(c.want))
    fresh = c.T()
    n = fresh.unpack(raw)
    want = snapshot(fresh)
    x = S.bytes('garbage', S.choice('size', range(size + 1)))
    t = c.T()
    S.outcome(t.unpack, x)
    S.check(t.unpack(raw) == n, 'size as if nothing had been unpacked')
    S.check(same(S, snapshot(t), want), 'values as if nothing had been unpacked')
    u = c.T()
    u.unpack(raw)
    S.check(same(S, snapshot(u), want), 'a new object')
    S.check(same_bytes(S, c.object().pack(), c.want), 'packing is as before')


class Fixed(object):
    """one value for every input; `chosen` holds choices of names to repeat"""
    def __init__(self, chosen=None):
        self.chosen = chosen or {}

    def choice(self, name, options):
        options = list(options)
        if self.chosen.get(name) in options and isinstance(options[0], str):
            return self.chosen[name]
        return options[-1]

    def int(self, name, lo, hi):
        return max(lo, min(hi, 3))

    def bits(self, name, n):
        return 1

    def str(self, name, n, *a):
        return 'a' * n

    def bytes(self, name, n):
        return b'a' * n

    def bytearray(self, name, n):
        return bytearray(b'a' * n)

    def f32(self, name):
        return 0.5
    f64 = f32

    def assume(self, c):
        assert c

    def not_(self, x):
        return not x

    def and_(self, *x):
        return all(x)

    def or_(self, *x):
        return any(x)

    def conc(self, x):
        return x

    def is_nan(self, x):
        return False

    def float_bits(self, x, n):
        return bytes_value(struct.pack('<d' if n == 8 else '<f', x), True)

    def eq(self, a, b):
        return a == b



class Refused(Exception):
    pass


PLACES = ('set_before_pack', 'set_after_unpack', 'where', 'pack_if', 'unpack_if', 'count', 'selector', 'reference')


def functions(S, cfg):
    """functions of the user that fail for some values"""
    place = cfg
    bad = S.bits('bad', 8)
    calls = []

    def guard(obj, result):
        calls.append(1)
        if obj.aa == bad:
            raise Refused()
        return result

    def checked(v):
        if v == bad:
            raise Refused()
        return v ^ 255

    class Item(Buffer):
        v = be_uint_field(where=bytes_ref[0:2])

    def select(obj, buffer, **kw):
        return guard(obj, Item)
    no = 2
    first = num_ref(member_func_ref(lambda o: guard(o, 2)))
    opts = dict((p, {}) for p in PLACES)
    if place in ('set_before_pack',):
        opts[place] = dict(set_before_pack=lambda o: guard(o, o.a))
    if place == 'set_after_unpack':
        opts[place] = dict(set_after_unpack=checked)
    if place == 'where':
        no = first
    if place in ('pack_if', 'unpack_if'):
        opts[place] = {place: num_ref(member_func_ref(lambda o: guard(o, True)))}
    if place == 'count':
        opts[place] = dict(n=num_ref(member_func_ref(lambda o: guard(o, 2))))
    if place == 'selector':
        opts[place] = dict(unpack_selector=select)
    if place == 'reference':
        no = (first + 1) - 1

    class T(Buffer):
        aa = be_uint_field(where=bytes_ref[0], **opts['set_after_unpack'])
        a = be_uint_field(where=bytes_ref[1])
        d = bytearray_field(where=bytes_ref[2:2 + no])
        l = list_field(type=b_uint8, where=bytes_ref[2 + no:4 + no], **opts['count'])
        p = be_uint_field(where=bytes_ref[4 + no], **dict(opts['pack_if'], **opts['unpack_if']))
        s = be_uint_field(where=bytes_ref[5 + no], **opts['set_before_pack'])
        i = buffer_field(type=Item, where=bytes_ref[6 + no:8 + no], **opts['selector'])
    k, good = S.bits('k', 8), S.bits('good', 8)
    S.assume(good != bad)
    a, d, l, p, s, i = S.bits('a', 8), S.bytearray('d', 2), [S.bits('l0', 8), S.bits('l1', 8)], S.bits('p', 8), S.bits('s', 8), S.bits('i', 16)

    def obj(k):
        return T(aa=k, a=a, d=bytearray(d), l=list(l), p=p, s=s, i=Item(v=i))
    packed = [a] + list(d) + l + [p, a if place == 'set_before_pack' else s] + be(i, 2)
    o = obj(k)
    out = S.outcome(o.pack)
    packs = place in ('set_before_pack', 'where', 'pack_if', 'reference')
    fails = packs and S.conc(k == bad)
    S.check(out.ok != fails, 'packing fails exactly when the function does')
    if not out.ok:
        S.check(isinstance(out.exc, InstructBufferError), 'the buffer error')
        S.check(failure(S.outcome(o.pack)) == failure(out), 'and again')
        S.check(S.and_(S.eq(o.a, a), S.eq(o.d, d), S.eq(o.l, l), S.eq(o.p, p), S.eq(o.aa, k), S.eq(o.i.v, i)), 'values are as they were')
        S.check(S.eq(o.s, s), 'the computed field was not computed')
        o.aa = good
        S.check(same_bytes(S, o.pack(), [good] + packed), 'packs after a failure')
        S.check(o.calc_byte_size() == 10, 'size after a failure')
    else:
        S.check(same_bytes(S, out.value, [k] + packed), 'packed')
    S.check(same_bytes(S, obj(good).pack(), [good] + packed), 'another object packs')
    raw = bytes(bytearray(packed))
    t = T()
    out = S.outcome(t.unpack, bytes(bytearray([k])) + raw)
    unpacks = place in ('set_after_unpack', 'where', 'unpack_if', 'count', 'selector', 'reference')
    S.check(out.ok != (unpacks and S.conc(k == bad)), 'unpacking fails exactly when the function does')
    for t in (t, T()):
        t.unpack(bytes(bytearray([good])) + raw)
        S.check(S.and_(S.eq(t.aa, good ^ 255 if place == 'set_after_unpack' else good), S.eq(t.a, a), S.eq(t.d, d), S.eq(t.l, l), S.eq(t.p, p), S.eq(t.i.v, i)), 'unpacks after a failure')
        S.check(S.eq(t.s, a if place == 'set_before_pack' else s), 'computed after a failure')


def inner(S, cfg):
    """inner buffers that cannot be packed or unpacked"""
    class In(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.d))
        d = bytearray_field(where=bytes_ref[1:1 + n])
        v = be_uint_field(where=bytes_ref[1 + n])

    class Out(Buffer):
        h = be_uint_field(where=bytes_ref[0])
        i = buffer_field(type=In, where=bytes_ref[1:])
        l = list_field(type=In, where=bytes_ref[after_ref(i):])
        z = be_uint_field(where=bytes_ref[after_ref(l)])

    class Other(Buffer):
        i = buffer_field(type=In, where=bytes_ref[0:])
    h, z, e = S.bits('h', 8), S.bits('z', 8), S.bytearray('d', 2)
    vs = [S.bits('v%d' % j, 8) for j in range(3)]
    bad = S.int('bad', 0, 600)
    which = S.choice('which', range(3))
    ins = [In(d=bytearray(e), v=v) for v in vs]
    ins[which].v = bad
    want = [h] + sum([[2] + list(e) + [v] for v in vs], []) + [z]
    o = Out(h=h, i=ins[0], l=ins[1:], z=z)
    out = S.outcome(o.pack)
    S.check(out.ok == S.conc(bad < 256), 'fails exactly when an inner buffer does')
    S.check(S.outcome(ins[which].pack).ok == out.ok, 'alone as well')
    q = Other(i=ins[which])
    S.check(S.outcome(q.pack).ok == out.ok, 'in another buffer as well')
    ins[which].v = vs[which]
    S.check(same_bytes(S, ins[which].pack(), [2] + list(e) + [vs[which]]), 'the inner buffer packs')
    S.check(same_bytes(S, q.pack(), [2] + list(e) + [vs[which]]), 'the other buffer packs')
    S.check(same_bytes(S, o.pack(), want), 'packs once the inner buffer can')


def sizes(S, cfg):
    """values that don't fit a declared size"""
    class T(Buffer):
        byte_size = 5
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.d))
        d = bytearray_field(where=bytes_ref[1:1 + n])
    n, m = S.choice('n', range(8)), S.choice('m', range(5))
    d, e = S.bytearray('d', n), S.bytearray('e', m)
    o = T(d=bytearray(d))
    out = S.outcome(o.pack)
    S.check(out.ok == (n <= 4), 'fits')
    o.d = bytearray(e)
    S.check(same_bytes(S, o.pack(), [m] + list(e) + [0] * (4 - m)), 'packs what fits')
    S.check(T.byte_size == 5, 'the declared size is as it was')


def declarations(S, cfg):
    """a class that cannot be declared changes nothing in its bases"""
    class Base(Buffer):
        a = be_uint_field(where=bytes_ref[0])
        n = be_uint_field(where=bytes_ref[1], set_before_pack=len_ref(self_ref.d))
        d = bytearray_field(where=bytes_ref[2:2 + n])

    class Flat(Buffer):
        x = be_uint_field(where=bytes_ref[0:2])
    a, d, x = S.bits('a', 8), S.bytearray('d', 2), S.bits('x', 16)
    o, f = Base(a=a, d=bytearray(d)), Flat(x=x)

    def bad():
        class D(Flat):
            y = be_uint_field(where=bytes_ref[3:2])
            z = list_field(type=b_uint8, where=bytes_ref[-1:-5])
        return D

    def overlapping():
        class D(Flat):
            y = be_uint_field(where=bytes_ref[1:3])
        return D

    def failing():
        class D(Base):
            y = be_uint_field(where=bytes_ref[num_ref(5) // 0])
        return D
    for make in (bad, overlapping, failing):
        S.outcome(make)
    S.check(same_bytes(S, o.pack(), [a, 2] + list(d)), 'the object packs')
    S.check(same_bytes(S, f.pack(), be(x, 2)), 'the flat object packs')
    S.check(Flat.byte_size == 2 and Base.byte_size is None, 'sizes as before')
    S.check(same_bytes(S, Base(a=a, d=bytearray(d)).pack(), [a, 2] + list(d)), 'a new object packs')
    t = Flat()
    S.check(t.unpack(bytes(bytearray(be(x, 2)))) == 2 and S.conc(S.eq(t.x, x)), 'and unpacks')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('pack', pack_fails, [(f, 1, EVERY if full else QUICK, 3) for f in CASES], 2)
    if full:
        obs += group('pack-again', pack_fails, [(f, 2, QUICK[:2], 3) for f in CASES], 2)
    obs += group('unpack', unpack_fails, [(f, 2 if full else 1, 3) for f in CASES], 4)
    arranged = composeb.cases(1, ('forward', 'backward')) if full else composeb.some('backward')
    obs += group('arranged-pack', pack_fails, [(f, 1, QUICK if full else QUICK[:1], 1) for f in arranged], 1)
    obs += group('arranged-unpack', unpack_fails, [(f, 1, 1) for f in (arranged if full else composeb.cases(1, ('backward',), composeb.FEW, composeb.FEW, inside=composeb.FEW_INSIDE))], 1)
    obs += group('garbage', garbage, [(f, 4 if full else 3) for f in CASES], 4)
    obs += group('functions', functions, PLACES, 4)
    obs += [Ob('inner', inner), Ob('sizes', sizes), Ob('declarations', declarations)]
    return obs
