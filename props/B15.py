"""Buffer operations are repeatable and instances are independent."""
from .dynamic import *
from . import composeb, anykind
from .layouts import LAYOUTS, GAPS, STR, build, total_bits, values
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray

BOUNDS = ('every layout of the fixed and dynamic kits; two instances, two inputs, up to three operations in every order; all '
          'values and bytes symbolic; defaults of every mutable kind')
BOUNDS += '; buffers of any two of 32 kinds of part, each right after the one before, names in several orders (props/composeb.py; quick: fewer of them)'
BOUNDS += '; each of the 14 kinds of field, four bytes of any value: defaults of them, in a class and in one derived from it (props/anykind.py)'
ALL = dict(list(LAYOUTS.items()) + list(GAPS.items()) + list(STR.items()))


def snapshot(t):
    out = {}
    for c in type(t).mro():
        for f in c.__dict__.get('__fields__', []):
            out[f.attr_name()] = freeze(getattr(t, f.attr_name()))
    return out


def freeze(v):
    if isinstance(v, Buffer):
        return ('buffer', sorted(snapshot(v).items()))
    if isinstance(v, bytearray):
        return ('bytearray', bytes(v))
    if isinstance(v, (list, tuple)):
        return ['list'] + [freeze(x) for x in v]
    if isinstance(v, dict):
        return ['dict'] + [[k, freeze(v[k])] for k in sorted(v)]
    return v


def same(S, a, b):
    if isinstance(a, dict):
        return S.and_(sorted(a) == sorted(b), *[same(S, a[k], b[k]) for k in sorted(a) if k in b])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and S.and_(*[same(S, x, y) for x, y in zip(a, b)])
    return S.eq(a, b)


def pack_twice(S, f):
    """packing again gives the same bytes, and changes only computed fields"""
    c = f(S, False)
    o = c.object()
    before = snapshot(o)
    first = o.pack()
    S.observe('packed', first)
    S.check(same_bytes(S, first, c.want), 'packed bytes')
    middle = snapshot(o)
    for k in c.values:
        S.check(k in c.same_fn or same(S, before[k], middle[k]), 'packing changes no field that was set')
    second = o.pack()
    S.check(S.eq(bytes(first), bytes(second)), 'packing again gives the same bytes')
    S.check(first is not second, 'a new result')
    S.check(same(S, middle, snapshot(o)), 'packing again changes nothing')
    n = o.calc_byte_size()
    S.check(same(S, middle, snapshot(o)), 'computing the size changes nothing')
    second[:] = bytearray(len(second))
    S.check(same_bytes(S, first, c.want), 'results are independent')
    S.check(same_bytes(S, o.pack(), c.want), 'changing a result does not change the object')
    S.check(n == o.calc_byte_size(), 'the size is repeatable')


def unpack_again(S, f):
    """what the object held before does not matter, and the input stays as it was"""
    c = f(S, False)
    raw = bytes(bytearray(c.want))
    tail = S.bytes('after_it', 2) if c.junk else b''
    source = bytearray(raw + tail)
    kept = bytes(source)
    t = c.T()
    n = t.unpack(source)
    S.check(S.eq(bytes(source), kept), 'input unchanged by unpacking')
    first = snapshot(t)
    c.check_values(S, t, 'unpacked')
    S.check(t.unpack(bytes(source)) == n, 'same size')
    S.check(same(S, first, snapshot(t)), 'unpacking again gives the same')
    dirty = c.object()
    dirty.pack()
    for k in snapshot(dirty):
        setattr(dirty, k, None)
    dirty.unpack(bytes(source))
    S.check(same(S, first, snapshot(dirty)), 'does not depend on what the object held')
    source[:] = bytearray([x ^ 255 for x in bytes(source)])
    S.check(same(S, first, snapshot(t)), 'changing the input afterwards changes nothing')
    S.check(S.eq(kept, raw + tail), 'input bytes unchanged')
    t.pack()
    S.check(same(S, first, snapshot(t)), 'packing an unpacked object changes nothing')


def fixed_layouts(S, name):
    fields = ALL[name]
    T = build(fields)
    n = (total_bits(fields) + 7) // 8
    x = S.bytes('x', n)
    # integers of three bytes or more in bit ranges fork on their length: one symbolic input there
    y = S.bytes('y', n) if name not in ('three-bytes', 'odd-bits') else bytes(bytearray(range(1, n + 1)))
    if any(f.kind == 'str' for f in fields):
        for f in fields:
            if f.kind == 'str':
                for p in f.pos[::8]:
                    S.assume(S.and_(x[p // 8] > 32, y[p // 8] > 32))
    if any(f.kind == 'float' for f in fields):
        for v in (x, y):
            t = T()
            t.unpack(v)
            for f in fields:
                if f.kind == 'float':
                    S.assume(S.not_(S.is_nan(getattr(t, f.name))))
    source = bytearray(x)
    t = T()
    t.unpack(source)
    first = snapshot(t)
    S.check(S.eq(bytes(source), x), 'input unchanged by unpacking')
    source[:] = bytearray(y)
    S.check(same(S, first, snapshot(t)), 'changing the input afterwards changes nothing')
    a = t.pack()
    S.check(same(S, first, snapshot(t)), 'packing changes nothing')
    u = T()
    u.unpack(y)
    fresh = snapshot(u)
    S.check(same(S, first, snapshot(t)), 'unpacking another instance changes nothing')
    packed = bytes(a)
    t.unpack(y)
    S.check(same(S, fresh, snapshot(t)), 'depends only on the given bytes')
    S.check(S.eq(bytes(u.pack()), bytes(t.pack())), 'packed the same')
    S.check(S.eq(bytes(a), packed), 'earlier results unchanged')
    t.unpack(x)
    S.check(S.eq(bytes(t.pack()), packed), 'the same bytes after other operations')


def results(S, cfg):
    """values taken from an object stay what they were"""
    kind, = cfg

    class Inner(Buffer):
        a = be_uint_field(where=bytes_ref[0:2])
        l = list_field(type=b_uint8, where=bytes_ref[2:4])

    class T(Buffer):
        k = uint_field(where=bytes_ref[0].bits[0:4])
        d = bytearray_field(where=bytes_ref[1:3])
        l = list_field(type=l_uint16, where=bytes_ref[3:7])
        b = buffer_field(type=Inner, where=bytes_ref[7:11])
        bs = list_field(type=Inner, where=bytes_ref[11:19])
        s = str_field(where=bytes_ref[19:21], encoding='latin-1')
    x, y = S.bytes('x', 21), S.bytes('y', 21)
    t = T()
    t.unpack(x)
    d, l, b, bs, s, k = t.d, t.l, t.b, t.bs, t.s, t.k
    frozen = [freeze(v) for v in (d, l, b, bs, s, k)]
    if kind == 'unpack':
        t.unpack(y)
        S.check(same(S, frozen, [freeze(v) for v in (d, l, b, bs, s, k)]), 'earlier values unchanged by unpacking again')
    elif kind == 'pack':
        p = t.pack()
        p[:] = y[:len(p)]
        S.check(same(S, frozen, [freeze(v) for v in (d, l, b, bs, s, k)]), 'values unchanged by changing a packed result')
    elif kind == 'other':
        u = T()
        u.unpack(x)
        u.d[:] = bytearray(y[0:2])
        u.l[0] = u.l[0] ^ 1
        u.l.append(5)
        u.b.a = u.b.a ^ 3
        u.b.l[:] = [1]
        u.bs[0].a = u.bs[0].a ^ 3
        del u.bs[1:]
        S.check(same(S, frozen, [freeze(v) for v in (d, l, b, bs, s, k)]), 'values unchanged by changing another object')
        S.check(same(S, frozen, [freeze(v) for v in (t.d, t.l, t.b, t.bs, t.s, t.k)]), 'object unchanged')
    elif kind == 'elements':
        t.bs[0].a = t.bs[0].a ^ 3
        S.check(same(S, frozen[3][2], freeze(t.bs[1])), 'elements are independent')
        t.bs[0].l.append(1)
        S.check(same(S, frozen[3][2], freeze(t.bs[1])), 'elements are independent')
        S.check(same(S, frozen[2], freeze(t.b)), 'nested object independent')


def inputs(S, cfg):
    """every input type gives the same, and none is changed"""
    class T(Buffer):
        k = uint_field(where=bytes_ref[0].bits[0:4])
        m = uint_field(where=bytes_ref[0:2].bits[4:13])
        d = bytearray_field(where=bytes_ref[2:4])
        r = bytearray_field(where=bytes_ref[4:])
    x = S.bytes('x', 6)
    ref = T()
    n = ref.unpack(x)
    for kind in ('bytearray', 'bit view', 'bit view of bytearray', 'bit array', 'memory', 'list', 'tuple'):
        source = bytearray(x)
        arg = {'bytearray': lambda: source, 'bit view': lambda: BitView(x), 'bit view of bytearray': lambda: BitView(source),
               'bit array': lambda: BitAwareByteArray(source), 'memory': lambda: memoryview(source),
               'list': lambda: list(source), 'tuple': lambda: tuple(source)}[kind]()
        t = T()
        S.check(t.unpack(arg) == n, 'size')
        S.check(same(S, snapshot(ref), snapshot(t)), 'the same values from a ' + kind)
        S.check(S.eq(bytes(source), x), 'input unchanged')
        t.r.extend(b'12')
        t.d[0:1] = b''
        S.check(S.eq(bytes(source), x), 'input unchanged by changing the values')
    S.check(S.eq(ref.r, x[4:6]), 'value')


def covering(S, cfg):
    """a single field that holds the whole input: still a copy"""
    kind, = cfg

    class Inner(Buffer):
        r = bytearray_field(where=bytes_ref[0:4])

    class T(Buffer):
        d = {'rest': lambda: bytearray_field(where=bytes_ref[0:]), 'fixed': lambda: bytearray_field(where=bytes_ref[0:4]),
             'ranges': lambda: bytearray_field(where=bytes_ref[0:2] + bytes_ref[2:4]),
             'bits': lambda: bytearray_field(where=bytes_ref[0:4].bits[0:32]),
             'nested': lambda: buffer_field(Inner, where=bytes_ref[0:]), 'list': lambda: list_field(type=Inner, where=bytes_ref[0:])}[kind]()

    def inner(t):
        d = t.d.r if kind == 'nested' else t.d[0].r if kind == 'list' else t.d
        S.check(isinstance(d, bytearray), 'a value of its own')
        return d

    def argument(form, source):
        return (memoryview(source) if form == 'memory' else BitView(source) if form == 'view' else
                BitAwareByteArray(source) if form == 'array' else source)
    x = S.bytes('x', 4)
    for form in ('bytearray', 'view', 'array', 'memory', 'list'):
        source = list(bytearray(x)) if form == 'list' else bytearray(x)
        t = T()
        t.unpack(argument(form, source))
        v = inner(t)
        S.check(S.eq(bytes(v), x), 'value')
        v[0] = v[0] ^ 1
        v[3:] = b''
        S.check(S.eq(bytes(source), x), 'changing the value leaves the input')
        t.unpack(argument(form, source))
        source[1] = source[1] ^ 255
        if form != 'memory':
            del source[2:]  # bytes with a view of them can't be removed
        S.check(S.eq(bytes(inner(t)), x), 'changing the input leaves the value')
        p = t.pack()
        p[0] = p[0] ^ 1
        S.check(S.eq(bytes(inner(t)), x), 'changing the packed bytes leaves the value')
        w = inner(t)
        q = t.pack()
        w[0] = w[0] ^ 1
        S.check(S.eq(bytes(q), x), 'changing the value leaves the packed bytes')


def defaults(S, cfg):
    """instances never share defaults"""
    kind, = cfg
    v, w = S.bits('v', 8), S.bits('w', 8)

    class Inner(Buffer):
        a = be_uint_field(where=bytes_ref[0], default=7)
    if kind == 'list':
        default = [v, 2]
        f = list_field(type=b_uint8, where=bytes_ref[1:], default=default)
    elif kind == 'bytearray':
        default = bytearray(bytes(bytearray([v, 2])))
        f = bytearray_field(where=bytes_ref[1:], default=default)
    elif kind == 'buffer':
        default = Inner(a=v)
        f = buffer_field(type=Inner, where=bytes_ref[1:], default=default)
    elif kind == 'json':
        f = json_field(where=bytes_ref[1:], default={'a': 1})

    class T(Buffer):
        k = be_uint_field(where=bytes_ref[0], default=3)
        data = f

    def encoded(o):
        if kind == 'json':
            return dict(o.data)
        return o.pack()
    want = [3, v] + ([] if kind == 'buffer' else [2])
    one, two = T(), T()
    before = freeze(two.data)
    if kind == 'list':
        one.data.append(w)
        one.data[0] = w
    elif kind == 'bytearray':
        one.data.append(9)
        one.data[0:1] = bytearray([w])
    elif kind == 'buffer':
        one.data.a = w
    elif kind == 'json':
        one.data['b'] = 4
        one.data.pop('a')
    one.k = w
    three = T()
    for o in (two, three):
        S.check(o.k == 3, 'default of another instance')
        S.check(same(S, before, freeze(o.data)), 'default of another instance unchanged')
        if kind != 'json':
            S.check(same_bytes(S, o.pack(), want), 'packed bytes of another instance')
        else:
            S.check(o.data == {'a': 1}, 'default document')
    S.check(S.eq(one.k, w), 'own value kept')

    class Sub(T):
        last = be_uint_field(where=bytes_ref[9], default=1)
    four = Sub()
    S.check(same(S, before, freeze(four.data)), 'default in a subclass unchanged')


def nested_defaults(S, cfg):
    """nor what is inside their defaults"""
    kind = cfg
    v, w = S.bits('v', 8), S.bits('w', 8)

    class Inner(Buffer):
        a = be_uint_field(where=bytes_ref[0], default=7)
        d = bytearray_field(where=bytes_ref[1:], default=bytearray(b'xy'))

    class Middle(Buffer):
        x = be_uint_field(where=bytes_ref[0])
        i = buffer_field(Inner, where=bytes_ref[1:], default=Inner(a=3))
    inner = [120, 121]
    if kind == 'list-of-buffers':
        f = list_field(type=Inner, where=bytes_ref[1:], default=[Inner(a=v), Inner()])
        want = [v] + inner + [7] + inner
    elif kind == 'buffer-of-bytes':
        f = buffer_field(Inner, where=bytes_ref[1:], default=Inner(a=v, d=bytearray(b'pq')))
        want = [v, 112, 113]
    elif kind == 'buffer-of-buffer':
        f = buffer_field(Middle, where=bytes_ref[1:], default=Middle(x=v))
        want = [v, 3] + inner
    else:
        f = json_field(where=bytes_ref[1:], default={'a': [1, {'b': 2}]})

    class T(Buffer):
        k = be_uint_field(where=bytes_ref[0], default=3)
        data = f
    one, two = T(), T()
    if kind == 'list-of-buffers':
        one.data[0].a = w
        one.data[1].d.append(9)
    elif kind == 'buffer-of-bytes':
        one.data.d[0:1] = bytearray([w])
    elif kind == 'buffer-of-buffer':
        one.data.i.a = w
        one.data.i.d.append(1)
    else:
        one.data['a'].append(3)
        one.data['a'][1]['c'] = 4
    for o in (two, T()):
        if kind == 'json':
            S.check(o.data == {'a': [1, {'b': 2}]}, 'default document')
        else:
            S.check(same_bytes(S, o.pack(), [3] + want), 'packed bytes of another instance')


def two_instances(S, f):
    """operations on one instance never change another of the same class"""
    c = f(S, False)
    a, b = c.object(), c.T()
    raw = bytes(bytearray(c.want))
    packed = a.pack()
    mid = snapshot(a)
    b.unpack(raw)
    S.check(same(S, mid, snapshot(a)), 'unchanged by unpacking another')
    theirs = snapshot(b)
    a.pack()
    for k in snapshot(a):
        setattr(a, k, None)
    S.check(same(S, theirs, snapshot(b)), 'unchanged by changing another')
    S.check(same_bytes(S, b.pack(), c.want), 'packs its own values')
    S.check(same_bytes(S, packed, c.want), 'earlier result unchanged')


def failures(S, cfg):
    """a failed operation leaves no trace in later ones"""
    class T(Buffer):
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.d))
        d = bytearray_field(where=bytes_ref[1:1 + n])
        v = be_uint_field(where=bytes_ref[1 + n:3 + n])
        z = uint_field(where=bytes_ref[3 + n].bits[0:3])
    d, v, z = S.bytearray('d', 2), S.int('v', 0, 70000), S.int('z', 0, 9)
    o = T(d=d, v=v, z=z)
    good = S.conc(S.and_(v < 65536, z < 8))
    first, second = S.outcome(o.pack), S.outcome(o.pack)
    S.check(first.ok == second.ok == good, 'the same outcome twice')
    S.check(S.and_(S.eq(o.d, d), S.eq(o.v, v), S.eq(o.z, z)), 'values unchanged')
    o.v, o.z = 5, 6
    S.check(same_bytes(S, o.pack(), [2] + list(d) + [0, 5, 6]), 'packs after a failure')
    x = S.bytes('x', 3)
    S.assume(x[0] > 0)
    t = T()
    out = S.outcome(t.unpack, x)
    S.check(not out.ok, 'too short')
    t.unpack(bytes(bytearray([2])) + bytes(d) + x[0:2] + b'\x04')
    S.check(S.and_(S.eq(t.d, d), S.eq(t.v, bytes_value(x[0:2], False)), t.z == 4), 'unpacks after a failure')


def obligations(tier):
    full = tier == 'thorough'
    obs = group('pack-twice', pack_twice, CASES, 5)
    obs += group('unpack-again', unpack_again, CASES, 5)
    obs += group('arranged-pack', pack_twice, composeb.cases() if full else composeb.some('backward'), 1)
    obs += group('arranged-unpack', unpack_again, composeb.cases() if full else composeb.some('mixed'), 1)
    obs += group('two', two_instances, CASES, 5)
    obs += group('layout', fixed_layouts, sorted(ALL), 5)
    obs += group('values', results, [(k,) for k in ('unpack', 'pack', 'other', 'elements')], 4)
    obs += [Ob('inputs', inputs), Ob('failures', failures)]
    obs += group('covering', covering, [(k,) for k in ('rest', 'fixed', 'ranges', 'bits', 'nested', 'list')], 3)
    obs += group('defaults', defaults, [(k,) for k in ('list', 'bytearray', 'buffer', 'json')], 4)
    obs += group('nested-defaults', nested_defaults, ['list-of-buffers', 'buffer-of-bytes', 'buffer-of-buffer', 'json'], 4)
    obs += group('kind-defaults', anykind.default, [(k, i) for k in anykind.KINDS for i in (False, True)], 8)
    return obs
