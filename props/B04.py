"""Non-overlapping buffer fields do not disturb each other."""
from .layouts import *

BOUNDS = 'layouts of 1..8 non-overlapping fields over at most 16 bytes (listed in props/layouts.py), all values symbolic'


def whole(S, name):
    """every bit of the packed result is the one its field gives it, all others are zero"""
    fields = ALL[name]
    T = build(fields)
    vs, want = values(S, fields)
    data = T(**vs).pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bits')


def change(S, cfg):
    """assigning one field after packing changes only its own bits"""
    name, k = cfg
    fields = ALL[name]
    T = build(fields)
    vs, want = values(S, fields)
    t = T(**vs)
    one = bytes(t.pack())
    f = fields[k]
    f2 = Field(f.name + '_new', f.kind, *f.parts, **f.opts)
    f2.pos = f.pos
    v, bits = f2.value(S)
    setattr(t, f.name, v)
    two = bytes(t.pack())
    S.observe('before', one)
    S.observe('after', two)
    S.check(len(one) == len(two), 'same length')
    mine = set(f.pos)
    S.check(S.and_(*[((one[p // 8] >> (p % 8)) & 1) == ((two[p // 8] >> (p % 8)) & 1)
                     for p in range(8 * len(one)) if p not in mine]), 'bits outside the field stay')
    S.check(S.and_(*[((two[p // 8] >> (p % 8)) & 1) == b for p, b in zip(f.pos, bits)]), 'bits of the field change')


def reads(S, name):
    """unpacking: a field is read from its own bits only"""
    fields = ALL[name]
    T = build(fields)
    n = (total_bits(fields) + 7) // 8
    vs, want = values(S, fields)
    noise = list(S.bytes('noise', n))
    own = set(p for f in fields for p in f.pos)
    data = []
    for i in range(n):
        mask = sum(1 << (p % 8) for p in own if p // 8 == i)
        data.append(want[i] | (noise[i] & (255 ^ mask)))
    t = T()
    t.unpack(bytes(data))
    for f in fields:
        S.observe(f.name, getattr(t, f.name) if f.kind != 'buffer' else None)
        S.check(f.same(S, getattr(t, f.name), vs[f.name]), 'field read from its own bits')


def renamed(S, cfg):
    """the names (and so the internal order) of the fields do not matter"""
    name, = cfg
    fields = ALL[name]
    T = build(fields)
    vs, want = values(S, fields)
    n = len(fields)
    other = [Field('n%02d' % (n - i), f.kind, *f.parts, **f.opts) for i, f in enumerate(fields)]
    U = build(other)
    data = U(**dict((g.name, vs[f.name]) for f, g in zip(fields, other))).pack()
    S.observe('data', data)
    S.check(same_bytes(S, data, want), 'packed bits')


PLACES = dict(one=(('B', 3, 6),), two=(('B', 3, 4), ('B', 5, 7)), backward=(('B', 5, 7), ('B', 2, 3)), shifted=(('b', 19, 35),),
              wide=(('b', 17, 45),), loose=(('b', 20, 23), ('b', 27, 40)), bytewise=(('n', 6), ('n', 2), ('n', 4)))


def fits(S, cfg):
    """content of any length: refused, or nothing outside the field's place changes"""
    place_name, kind = cfg
    ref, pos = where(*PLACES[place_name])
    room = len(pos) // 8
    n = S.choice('n', range(room + 3))
    d = S.bytearray('v', n) if kind != 'text' else S.str('v', n, 33, 126)

    class Two(Buffer):
        a = be_uint_field(where=bytes_ref[0])
        b = bytearray_field(where=bytes_ref[1:1 + len_ref(self_ref.b)])
    f = {'bytes': lambda: bytearray_field(where=ref), 'text': lambda: str_field(where=ref), 'list': lambda: list_field(type=b_uint8, where=ref),
         'buffer': lambda: buffer_field(Two, where=ref)}[kind]()
    last = max(pos) // 8 + 1
    mine = set(pos)
    around = [p for p in range(8 * last + 16) if p not in mine]
    before, behind = [p for p in around if p < pos[0]], [p for p in around if p > pos[0]]
    refs = {}
    for name, ps in (('a', before), ('z', behind)):
        r = None
        for p in ps:
            one = bytes_ref[p // 8].bits[p % 8]
            r = one if r is None else r + one
        refs[name] = r
    # the neighbours bracket the field on both sides, packed before or after it
    names = S.choice('order', ('amz', 'abm', 'maz'))  # the order of packing is that of the names
    na, nz = {'amz': 'az', 'abm': 'ab', 'maz': 'yz'}[names]
    T = make_buffer({na: uint_field(where=refs['a']), 'm': f, nz: uint_field(where=refs['z'])})
    a, z = S.bits('a', len(before)), S.bits('z', len(behind))
    v = d if kind in ('bytes', 'text') else list(d) if kind == 'list' else Two(a=d[0] if n else 0, b=d[1:])
    r = S.outcome(lambda: T(**{na: a, 'm': v, nz: z}).pack())
    S.observe('outcome', r.name())
    if len(pos) % 8 == 0:
        S.check(r.ok if n == room and (n or kind != 'buffer') else True, 'content that fits is packed')
    if not r.ok:
        return
    data = list(r.value)
    S.check(len(data) == last + 2, 'length')
    S.check(S.and_(*[((data[p // 8] >> (p % 8)) & 1) == ((a >> i) & 1) for i, p in enumerate(before)] +
                   [((data[p // 8] >> (p % 8)) & 1) == ((z >> i) & 1) for i, p in enumerate(behind)]), 'bits outside the field')


ALL = dict(LAYOUTS)
ALL.update(GAPS)


def obligations(tier):
    full = tier == 'thorough'
    names = sorted(ALL)
    obs = [Ob('whole-' + n, whole, n, cost=2) for n in names]
    obs += group('reads', reads, names, 5)
    obs += group('renamed', renamed, [(n,) for n in names], 4)
    obs += group('fits', fits, [(p, k) for p in sorted(PLACES) for k in ('bytes', 'text', 'list', 'buffer')], 2)
    ch = [(n, k) for n in names for k in (range(len(ALL[n])) if full else [len(ALL[n]) // 2])]
    obs += group('change', change, ch, 3)
    return obs
