"""Nested buffers and selected types are packed and parsed in place."""
from .dynamic import *
from . import composeb, anykind
from .B06 import roundtrip

BOUNDS = 'up to three levels of nesting, inner objects of 1..8 bytes, all values / all input bytes symbolic'
BOUNDS += '; buffers of any two of 32 kinds of part, each right after the one before, names in several orders (props/composeb.py; quick: fewer of them)'
BOUNDS += '; each of the 14 kinds of field, four bytes of any value: inside a buffer and inside each of up to 2 list elements (props/anykind.py)'


def make_inner(kind):
    if kind == 'fixed':
        class Inner(Buffer):
            p = be_int_field(where=bytes_ref[0:2])
            q = uint_field(where=bytes_ref[2].bits[3:8])
            r = uint_field(where=bytes_ref[2].bits[0:3])
    elif kind == 'padded':
        class Inner(Buffer):
            byte_size = 5
            p = be_int_field(where=bytes_ref[1:3])
            q = uint_field(where=bytes_ref[0].bits[1:6])
            r = uint_field(where=bytes_ref[3].bits[4:7])
    elif kind == 'variable':
        class Inner(Buffer):
            n = uint_field(where=bytes_ref[0].bits[0:2], set_before_pack=len_ref(self_ref.d))
            q = uint_field(where=bytes_ref[0].bits[2:7])
            p = be_int_field(where=bytes_ref[1:3])
            d = bytearray_field(where=bytes_ref[3:3 + n])
            r = uint_field(where=bytes_ref[3 + n].bits[5:8])
    elif kind == 'computed':
        class Inner(Buffer):
            p = be_int_field(where=bytes_ref[0:2])
            q = uint_field(where=bytes_ref[2].bits[0:5])
            r = uint_field(where=bytes_ref[2].bits[5:8], set_before_pack=lambda self: self.q % 8)
    return Inner


def fields_of(S, kind, tag=''):
    v = dict(p=S.int(tag + 'p', -(1 << 15), (1 << 15) - 1), q=S.bits(tag + 'q', 5), r=S.bits(tag + 'r', 3))
    if kind == 'variable':
        v['d'] = S.bytearray(tag + 'd', S.choice(tag + 'dn', (0, 2)))
    if kind == 'computed':
        del v['r']
    return v


def same(S, got, want, names):
    return S.and_(*[S.eq(getattr(got, k), getattr(want, k)) for k in names])


def names_of(kind):
    return ('p', 'q', 'r') + (('d', 'n') if kind == 'variable' else ())


def in_place(S, cfg):
    """the nested field holds exactly the bytes of its object, at its position"""
    kind, at, how = cfg
    Inner = make_inner(kind)
    vs = fields_of(S, kind)
    alone = list(Inner(**vs).pack())
    n = len(alone)
    where_ = bytes_ref[at:] if how == 'open' else bytes_ref[at:at + n]

    class T(Buffer):
        z_inner = buffer_field(type=Inner, where=where_)
        before = uint_field(where=bytes_ref[0].bits[2:7])
        behind = be_uint_field(where=bytes_ref[at + n:at + n + 1])
    before, behind = S.bits('before', 5), S.bits('behind', 8)
    o = T(z_inner=Inner(**vs), before=before, behind=behind)
    data = o.pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, [before << 2] + [0] * (at - 1) + alone + [behind]), 'packed bytes')
    x = S.bytes('x', 1) + S.bytes('fill', at - 1) + bytes(bytearray(alone)) + S.bytes('y', 3)
    t = T()
    t.unpack(x)
    ref = Inner()
    ref.unpack(bytes(bytearray(alone)))
    S.check(isinstance(t.z_inner, Inner), 'type')
    S.check(same(S, t.z_inner, ref, names_of(kind)), 'equal to the object unpacked alone')
    S.check(same(S, t.z_inner, Inner(**vs) if kind not in ('variable', 'computed') else o.z_inner, names_of(kind)), 'restored')
    S.check(S.and_(S.eq(t.before, (x[0] >> 2) & 31), S.eq(t.behind, x[at + n])), 'neighbours')


def any_bytes(S, cfg):
    """parsing arbitrary bytes: the same as parsing the part alone"""
    kind, at, split = cfg
    Inner = make_inner(kind)
    n = int(Inner.byte_size or 6)
    if split:
        parts = (('B', at + 1, at + n - 1), ('B', 0, 2))
        pos_bytes = list(range(at + 1, at + n - 1)) + [0, 1]
        ref, pos = where(*parts)
    else:
        ref, pos_bytes = bytes_ref[at:at + n], list(range(at, at + n))

    class T(Buffer):
        inner = buffer_field(type=Inner, where=ref)
    x = S.bytes('x', at + n + 1)
    part = bytes(bytearray([x[i] for i in pos_bytes]))
    t, i = T(), Inner()
    a, b = S.outcome(t.unpack, x), S.outcome(i.unpack, part)
    S.check(a.ok == b.ok, 'accepted exactly when the part alone is')
    S.observe('ok', a.ok)
    if a.ok:
        S.check(same(S, t.inner, i, names_of(kind)), 'equal to the object unpacked alone')
        if kind == 'fixed':
            S.check(S.eq(bytes(t.inner.pack()), part), 'packs to its bytes')


def three_levels(S, cfg):
    class A(Buffer):
        v = le_uint_field(where=bytes_ref[0:2])
        w = uint_field(where=bytes_ref[2].bits[0:4])

    class B(Buffer):
        a2 = buffer_field(type=A, where=bytes_ref[4:7])
        a1 = buffer_field(type=A, where=bytes_ref[0:3])
        k = be_uint_field(where=bytes_ref[3])

    class C(Buffer):
        head = be_uint_field(where=bytes_ref[0])
        b = buffer_field(type=B, where=bytes_ref[2:9])
        bs = list_field(type=B, where=bytes_ref[9:23])
    x = S.bytes('x', 23)
    t = C()
    t.unpack(x)

    def check(b, y):
        S.check(S.and_(S.eq(b.a1.v, bytes_value(y[0:2], True)), S.eq(b.a1.w, y[2] & 15), S.eq(b.k, y[3]),
                       S.eq(b.a2.v, bytes_value(y[4:6], True)), S.eq(b.a2.w, y[6] & 15)), 'values')
    check(t.b, x[2:9])
    S.check(len(t.bs) == 2, 'count')
    check(t.bs[0], x[9:16])
    check(t.bs[1], x[16:23])
    data = list(t.pack())
    want = list(x)
    want[1] = 0
    for base in (2, 9, 16):
        for k in (2, 6):
            want[base + k] = want[base + k] & 15
    S.check(same_bytes(S, bytearray(data), want), 'packed again')
    # changing one nested object changes only its own bytes
    v = S.bits('v', 16)
    t.bs[1].a2.v = v
    want[20:22] = le(v, 2)
    S.check(same_bytes(S, t.pack(), want), 'packed after a change')


ODD = [('none', 0), ['', 2], (None, 1), (0, 0), ([], 4)]


def selected(S, cfg):
    """the type is chosen from values already parsed"""
    order, = cfg

    class Small(Buffer):
        s = be_uint_field(where=bytes_ref[0:2])

    class Wide(Buffer):
        w = le_uint_field(where=bytes_ref[0:4])

    class Var(Buffer):
        n = be_uint_field(where=bytes_ref[0])
        d = bytearray_field(where=bytes_ref[1:1 + n])

    def choose(self, buffer, **kwargs):
        kind = self.kind if order == 'a' else self.z_kind
        if kind == 0:
            return Small
        if kind == 1:
            return Wide
        if kind == 2:
            return Var
        if kind == 3:
            return None
        if kind == 4:
            return ('text', 3)
        if kind == 5:
            return [buffer[1:3].to_bytes(), 3]
        return ODD[kind - 6]
    if order == 'a':
        class T(Buffer):
            kind = be_uint_field(where=bytes_ref[0])
            m_obj = buffer_field(type=Small, where=bytes_ref[1:], unpack_selector=choose, unpack_after=kind)
            z = be_uint_field(where=bytes_ref[after_ref(m_obj):after_ref(m_obj) + 1])
    else:
        class T(Buffer):
            z_kind = be_uint_field(where=bytes_ref[0])
            m_obj = buffer_field(type=Small, where=bytes_ref[1:], unpack_selector=choose, unpack_after=[z_kind])
            z = be_uint_field(where=bytes_ref[after_ref(m_obj):after_ref(m_obj) + 1])
    kind = S.choice('kind', range(6 + len(ODD)))
    x = S.bytes('x', 6)
    if kind == 2:
        S.assume(x[0] <= 3)
    t = T()
    used = t.unpack(bytes(bytearray([kind])) + x)
    S.observe('used', used)
    if kind == 0:
        n = 2
        S.check(isinstance(t.m_obj, Small) and S.eq(t.m_obj.s, bytes_value(x[0:2], False)), 'first type')
    elif kind == 1:
        n = 4
        S.check(isinstance(t.m_obj, Wide) and S.eq(t.m_obj.w, bytes_value(x[0:4], True)), 'second type')
    elif kind == 2:
        n = 1 + S.conc(x[0])
        S.check(isinstance(t.m_obj, Var) and S.eq(t.m_obj.d, x[1:n]), 'third type')
    elif kind == 3:
        n = 0
        S.check(t.m_obj is None, 'nothing')
    elif kind == 4:
        n = 3
        S.check(t.m_obj == 'text', 'object and size')
    elif kind == 5:
        n = 3
        S.check(S.eq(t.m_obj, x[1:3]), 'object and size')
    else:
        n = ODD[kind - 6][1]
        S.check(t.m_obj is ODD[kind - 6][0], 'object and size, whatever they are')
    S.check(S.eq(t.z, x[n]), 'next field follows the chosen size')
    S.check(used == n + 2, 'consumed size')
    if kind < 3:
        data = t.pack()
        S.check(same_bytes(S, data, [kind] + list(x[:n + 1])), 'packed again')


def selected_list(S, cfg):
    """each element selected on its own, sizes respected"""
    n, = cfg

    class Even(Buffer):
        tag = be_uint_field(where=bytes_ref[0])
        v = be_uint_field(where=bytes_ref[1:3])

    class Odd(Buffer):
        tag = be_uint_field(where=bytes_ref[0])

    class T(Buffer):
        def choose(self, buffer, **kwargs):
            return Odd if buffer[0] & 1 else Even
        es = list_field(type=Even, where=bytes_ref[1:], n=self_ref.n, unpack_selector=choose)
        n = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(es))
        z = be_uint_field(where=bytes_ref[after_ref(es):after_ref(es) + 1])
    odd = [S.choice('odd%d' % i, (0, 1)) for i in range(n)]
    tags = [S.bits('t%d' % i, 7) for i in range(n)]
    vs = [S.bits('v%d' % i, 16) for i in range(n)]
    z = S.bits('z', 8)
    raw, objs = [], []
    for o, t, v in zip(odd, tags, vs):
        tag = (t << 1) | o
        raw += [tag] if o else [tag] + be(v, 2)
        objs.append(Odd(tag=tag) if o else Even(tag=tag, v=v))
    S.check(same_bytes(S, T(es=objs, z=z).pack(), [n] + raw + [z]), 'packed bytes')
    t = T()
    used = t.unpack(bytes(bytearray([n] + raw + [z])))
    S.check(used == len(raw) + 2, 'consumed size')
    S.check(len(t.es) == n, 'count')
    for e, o, g, v in zip(t.es, odd, tags, vs):
        S.check(type(e) is (Odd if o else Even), 'element type')
        S.check(S.eq(e.tag, (g << 1) | o), 'element tag')
        if not o:
            S.check(S.eq(e.v, v), 'element value')
    S.check(S.eq(t.z, z), 'trailer')


def bounded(S, cfg):
    """the chosen type sees only the bytes of the field"""
    class Rest(Buffer):
        a = be_uint_field(where=bytes_ref[0])
        rest = bytearray_field(where=bytes_ref[1:])

    class Words(Buffer):
        ws = list_field(type=b_uint16, where=bytes_ref[0:])

    class T(Buffer):
        def choose(self, buffer, **kwargs):
            return Words if self.words else Rest
        l = uint_field(where=bytes_ref[0].bits[0:3])
        words = uint_field(where=bytes_ref[0].bits[7])
        obj = buffer_field(type=Rest, where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + l],
                           unpack_selector=choose, unpack_after=words)
        z = be_uint_field(where=bytes_ref[1 + l:2 + l])
    l, words = S.choice('l', (2, 4)), S.choice('words', (0, 1))
    x = S.bytes('x', 6)
    t = T()
    used = t.unpack(bytes(bytearray([l | (words << 7)])) + x)
    if words:
        S.check(S.eq(t.obj.ws, [bytes_value(x[i:i + 2], False) for i in range(0, l, 2)]), 'bytes of the field')
    else:
        S.check(S.and_(S.eq(t.obj.a, x[0]), S.eq(t.obj.rest, x[1:l])), 'bytes of the field')
    S.check(S.eq(t.z, x[l]), 'next field')
    S.check(used == l + 2, 'consumed size')
    S.check(same_bytes(S, t.pack(), [l | (words << 7)] + list(x[:l + 1])), 'packed again')


def replaced(S, cfg):
    """packing uses the nested object held at that time"""
    Inner = make_inner('fixed')

    class T(Buffer):
        i = buffer_field(type=Inner, where=bytes_ref[1:4])
        k = be_uint_field(where=bytes_ref[0])
    x = S.bytes('x', 4)
    t = T()
    t.unpack(x)
    q = S.bits('q', 5)
    t.i.q = q
    S.check(same_bytes(S, t.pack(), [x[0], x[1], x[2], (x[3] & 7) | (q << 3)]), 'field of the nested object changed')
    vs = fields_of(S, 'fixed', 'new')
    t.i = Inner(**vs)
    S.check(same_bytes(S, t.pack(), [x[0]] + be(vs['p'], 2) + [vs['r'] | (vs['q'] << 3)]), 'nested object replaced')
    S.check(S.eq(t.k, x[0]), 'other field')


class Link(Buffer):
    """a buffer that may hold another of its kind"""
    tag = be_uint_field(where=bytes_ref[0])
    rest = buffer_field(type=None, where=bytes_ref[1:], unpack_selector=lambda self, buffer, **kw: Link if self.tag >= 200 else None,
                        unpack_after=tag, pack_if=member_func_ref(lambda self: self.rest is not None))


class Tree(Buffer):
    """a buffer that holds a list of its kind"""
    count = be_uint_field(where=bytes_ref[0], set_before_pack=len_ref(self_ref.items))
    value = be_uint_field(where=bytes_ref[1])
    items = list_field(type=Buffer, unpack_selector=lambda self, buffer, **kw: Tree, n=count, where=bytes_ref[2:])


def chain(S, cfg):
    """buffers that hold buffers of their own class"""
    k = S.choice('k', range(4))
    tags = [S.bits('t%d' % i, 8) for i in range(k + 1)]
    o = None
    for t in tags[::-1]:
        o = Link(tag=t, rest=o)
    S.check(same_bytes(S, o.pack(), tags), 'packed bytes')
    S.check(o.calc_byte_size() == k + 1, 'size')
    data = S.bytes('data', 5)
    x = Link()
    S.assume(data[4] < 200)
    used = x.unpack(data)
    n = 0
    while x is not None:
        S.check(S.eq(x.tag, data[n]), 'tags')
        S.check(S.eq(data[n] >= 200, x.rest is not None), 'goes on')
        n, x = n + 1, x.rest
    S.check(used == n, 'consumed size')


def tree(S, cfg):
    """and lists of them: against a parser written here"""
    data = S.bytes('data', cfg)

    def parse(at, left):
        if at + 2 > len(data):
            return None
        if data[at] > left:
            return None
        n = S.conc(data[at])
        node, at = [n, data[at + 1], []], at + 2
        for i in range(n):
            sub = parse(at, left)
            if sub is None:
                return None
            node[2].append(sub[0])
            at = sub[1]
        return node, at

    def same(o, node):
        return S.and_(o.count == node[0], S.eq(o.value, node[1]), len(o.items) == node[0],
                      *[same(a, b) for a, b in zip(o.items, node[2])])

    def built(node):
        return Tree(value=node[1], items=[built(x) for x in node[2]])
    want = parse(0, 2)
    S.assume(want is not None)
    t = Tree()
    S.check(t.unpack(data) == want[1], 'consumed size')
    S.check(same(t, want[0]), 'values')
    S.check(same_bytes(S, t.pack(), list(data[:want[1]])), 'packed again')
    S.check(same_bytes(S, built(want[0]).pack(), list(data[:want[1]])), 'packed')


def obligations(tier):
    full = tier == 'thorough'
    kinds = ('fixed', 'padded', 'variable', 'computed')
    obs = group('in-place', in_place, [(k, at, how) for k in kinds for at in (1, 3) for how in ('closed', 'open')], 4)
    obs += group('any-bytes', any_bytes, [(k, at, sp) for k in kinds for at in (0, 2) for sp in (False, True)
                                          if not sp or at], 3)
    parts = [composeb.inside, composeb.inside_list, composeb.inside_sized]
    obs += group('arranged', roundtrip, [(c, False) for c in (composeb.cases(1, ('forward', 'mixed'), parts, None, ('flat', 'inherited')) if full else
                                                              composeb.cases(1, ('forward',), parts, [composeb.number, composeb.maybe, composeb.inside],
                                                                             inside=composeb.FEW_INSIDE + [composeb.nested, composeb.total]))], 1)
    obs += [Ob('three-levels', three_levels)]
    obs += group('selected', selected, [('a',), ('z',)], 1)
    obs += group('selected-list', selected_list, [(1,), (2,)] + ([(3,)] if full else []), 1)
    obs += [Ob('chain', chain), Ob('tree', tree, cfg=6 if not full else 8)]
    obs += [Ob('replaced', replaced), Ob('bounded', bounded)]
    obs += group('any-kind', anykind.inside, [(k,) for k in anykind.KINDS], 5)
    return obs
