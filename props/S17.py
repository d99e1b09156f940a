"""A failed struct operation leaves no trace."""
from .structs import *
from . import compose
from .B25 import Fixed, Few, failure
from infi.instruct.errors import InstructError

BOUNDS = ('24 structs of every field kind: every field in turn given an unsuitable value (6 kinds), every input cut at every position and '
          'arbitrary inputs of up to 3 bytes (thorough 4) before the operation that is compared; lazy groups of five shapes with wrong bytes '
          'used by any two (thorough three) operations; functions of the user failing for any of the values of a symbolic byte in 5 places')
BOUNDS += '; structs of any two of 20 kinds of field side by side or the second in a nested struct, list, lazy group, optional field (props/compose.py; quick: fewer arrangements)'
UNSUITABLE = ('object', 'none', 'negative', 'huge', 'text', 'list')


def unsuitable(kind):
    return {'object': object(), 'none': None, 'negative': -1, 'huge': 1 << 70, 'text': u'\u1234', 'list': [object()]}[kind]


def write_fails(S, cfg):
    f, steps, kinds, sizes = cfg
    few = Few(S, sizes)
    c = f(few, False)
    other, want = c.object(), c.want
    # the values the object has while it cannot be written are others, of other sizes
    o = c.T(**f(Fixed(few.chosen), False).make())
    keys = sorted(c.make())
    for step in range(steps if keys else 0):
        k = keys[S.choice('field%d' % step, range(len(keys)))]
        kind, how = S.choice('kind%d' % step, kinds)
        before = dict((n, getattr(o, n)) for n in keys)
        if not S.outcome(setattr, o, k, unsuitable(kind)).ok:
            S.reach('refused')
        op = dict(write=lambda: type(o).write_to_string(o), size=lambda: type(o).sizeof(o), text=lambda: repr(o))[how]
        first, again = S.outcome(op), S.outcome(op)
        S.check(first.ok == again.ok, 'the same outcome again')
        if not first.ok:
            S.reach('failed')
            S.check(failure(first) == failure(again), 'the same error again')
        for n in keys:
            S.check(n == k or getattr(o, n) is before[n] or S.conc(S.eq(getattr(o, n), before[n])), 'other fields are as they were')
        for n in keys:
            S.outcome(setattr, o, n, c.make()[n])
    S.check(same_bytes(S, o.to_bytes(), want), 'written as if nothing had failed')
    S.check(c.T.sizeof(o) == len(want), 'size as if nothing had failed')
    S.check(same_bytes(S, other.to_bytes(), want), 'another object is written as before')
    S.check(same_bytes(S, c.object().to_bytes(), want), 'a new object is written as before')
    c.check_values(S, c.T.create_from_string(bytes(bytearray(want))), 'read')


def read_fails(S, cfg):
    f, steps, sizes = cfg
    c = f(Few(S, sizes), False)
    raw = bytes(bytearray(c.want))
    o = c.object()
    for step in range(steps if raw else 0):
        cut = S.choice('cut%d' % step, range(len(raw)))
        out = S.outcome(c.T.create_from_string, raw[:cut])
        again = S.outcome(c.T.create_from_string, raw[:cut])
        S.check(not out.ok and not again.ok and failure(out) == failure(again), 'the same error again')
        S.reach('failed')
    t = c.T.create_from_string(raw)
    c.check_values(S, t, 'read as if nothing had failed')
    S.check(same_bytes(S, t.to_bytes(), c.want), 'and written')
    S.check(same_bytes(S, o.to_bytes(), c.want), 'an object made before is as it was')
    n = c.object()
    S.check(same_bytes(S, n.to_bytes(), c.want), 'a new object is written as before')


def garbage(S, cfg):
    f, size = cfg
    c = f(Fixed(), False)
    raw = bytes(bytearray(c.want))
    x = S.bytes('garbage', S.choice('size', range(size + 1)))
    S.outcome(c.T.create_from_string, x)
    t = c.T.create_from_string(raw)
    S.check(same_bytes(S, t.to_bytes(), c.want), 'read as if nothing had been read')
    S.check(same_bytes(S, c.object().to_bytes(), c.want), 'written as before')


# ------------------------------------------------------------------------------------------------------- lazy groups
class Coded(Struct):
    _fields_ = [ConstField('magic', 9, UBInt8), UBInt8('w')]
    names = ('magic', 'w')


LAZY = dict(
    const=lambda: ([UBInt8('x', 1), ConstField('c', 7, UBInt8), UBInt8('y', 2)], 3, 1, (7,)),
    first=lambda: ([ConstField('c', 7, UBInt8), UBInt8('x', 1), UBInt8('y', 2)], 3, 0, (7,)),
    mapped=lambda: ([UBInt8('x', 1), Field('m', FixedSizeMappingMarshal({'a': 3, 'b': 4}, UBInt8), 'a'), UBInt8('y', 2)], 3, 1, (3, 4)),
    nested=lambda: ([UBInt8('x', 1), Field('s', Coded), UBInt8('y', 2)], 4, 1, (9,)),
    bits=lambda: ([BitFields(BitField('x', 4, 1), BitField('v', 4, 2)), ConstField('c', 7, UBInt8), UBInt8('y', 2)], 3, 1, (7,)),
)


def lazy_fails(S, cfg):
    """a lazy group with bytes that cannot be decoded fails whenever it is used, and never gives anything"""
    shape, steps = cfg
    fields, n, at, good = LAZY[shape]()

    class T(Struct):
        _fields_ = [UBInt8('h'), Lazy(*fields), UBInt8('e')]
    x = S.bytes('x', n + 2)
    fine = S.or_(*[x[1 + at] == g for g in good])
    t = T.create_from_string(x)
    other = T.create_from_string(x)
    S.check(S.and_(S.eq(t.h, x[0]), S.eq(t.e, x[n + 1])), 'other fields are read')
    fine = S.conc(fine)
    for i in range(steps):
        op = S.choice('op%d' % i, ('x', 'y', 'write', 'set', 'text', 'size'))
        if op == 'text':
            S.check('h=' in repr(t) and 'e=' in repr(t), 'the text shows the fields that could be read')
            continue
        if op == 'size':
            S.check(T.sizeof(t) == n + 2, 'the size is known')
            continue
        out = S.outcome(dict(x=lambda: t.x, y=lambda: t.y, write=t.to_bytes, set=lambda: setattr(t, 'y', 5))[op])
        S.check(out.ok == fine, 'using the group fails exactly when its bytes are wrong, every time')
        if fine and op == 'write' and shape != 'bits':
            S.check(out.value[:1] == x[:1], 'written')
    if not fine:
        S.reach('wrong')
        S.check(not S.outcome(other.to_bytes).ok, 'another object fails as well')
        S.check(not S.outcome(t.to_bytes).ok, 'never written')
        S.check(S.and_(S.eq(t.h, x[0]), S.eq(t.e, x[n + 1])), 'other fields keep their values')
    else:
        S.check(S.eq(other.to_bytes(), x), 'another object has its own bytes')
    y = bytes(bytearray(list(x[:1 + at]) + [good[0]] + list(x[2 + at:])))
    S.check(S.eq(T.create_from_string(y).to_bytes(), y), 'other bytes are read as before')


class Refused(Exception):
    pass


PLACES = ('predicate', 'selector', 'read', 'write', 'constructor')


def functions(S, cfg):
    """functions of the user that fail for some values"""
    place = cfg
    bad = S.bits('bad', 8)

    def guard(v, result):
        if v == bad:
            raise Refused()
        return result

    class Checked(type(UBInt8('q').marshal)):
        def create_from_stream(self, stream, context, *args, **kwargs):
            v = super(Checked, self).create_from_stream(stream, context, *args, **kwargs)
            return guard(v, v) if place == 'read' else v

        def write_to_stream(self, obj, stream, context):
            if place == 'write':
                guard(obj, obj)
            super(Checked, self).write_to_stream(obj, stream, context)
    base = UBInt8('q').marshal
    checked = Checked('>B', int) if place in ('read', 'write') else base

    class In(Struct):
        _fields_ = [Field('a', checked), UBInt8('b')]

        def __init__(self):
            if place == 'constructor':
                FAIL and guard(bad, None)

    def choose(obj, stream, context):
        return guard(obj.k, In) if place == 'selector' else In

    class T(Struct):
        _fields_ = [UBInt8('k'), OptionalField('o', UBInt8, lambda o, s, c: guard(o.k, True) if place == 'predicate' else True),
                    SelectStructByFunc('s', choose), VarSizeArray('l', UBInt8, In), UBInt8('z')]
    FAIL = []
    x = S.bytes('x', 8)
    S.assume(x[4] == 1)
    if place == 'constructor':
        FAIL.append(1)
        S.check(not S.outcome(T.create_from_string, x).ok, 'fails')
        del FAIL[:]
        fails = False
    else:
        fails = S.conc(S.or_(x[2] == bad, x[5] == bad) if place in ('read',) else False if place == 'write' else x[0] == bad)
    out = S.outcome(T.create_from_string, x)
    S.check(out.ok == (not fails), 'reading fails exactly when the function does')
    g = S.bits('good', 8)
    S.assume(g != bad)
    y = bytes(bytearray([g, x[1], g, x[3], 1, g, x[6], x[7]]))
    t = T.create_from_string(y)
    S.check(S.and_(S.eq(t.k, g), S.eq(t.o, x[1]), S.eq(t.s.a, g), S.eq(t.s.b, x[3]), S.eq(t.l[0].a, g), S.eq(t.l[0].b, x[6]), S.eq(t.z, x[7])), 'reads after a failure')
    S.check(S.eq(t.to_bytes(), y), 'and writes')
    if place == 'write':
        t.l[0].a = x[5]
        out = S.outcome(t.to_bytes)
        S.check(out.ok == S.conc(x[5] != bad), 'writing fails exactly when the function does')
        S.check(T.sizeof(t) == 8, 'size')
        t.l[0].a = g
        S.check(S.eq(t.to_bytes(), y), 'writes after a failure')


def assigned(S, cfg):
    """a constant that refuses a value keeps its own, and so do the other fields"""
    c = constants(S, False)
    o, t = c.object(), c.T.create_from_string(bytes(bytearray(c.want)))
    k = S.choice('field', ('a', 's', 'p'))
    v = {'a': S.int('v', 0, 70000), 's': S.bytes('w', S.choice('n', range(4))), 'p': Pair(k=S.bits('pk', 8), v=2)}[k]
    for x in (o, t):
        S.outcome(setattr, x, k, v)
        S.check(same_bytes(S, x.to_bytes(), c.want), 'written as before')
        c.check_values(S, x, 'values')


def obligations(tier):
    full = tier == 'thorough'
    ops = [(k, how) for how in ('write', 'size', 'text') for k in UNSUITABLE]
    some = [('object', 'write'), ('negative', 'write'), ('none', 'size'), ('list', 'text')]
    cases = [f for f in CASES if f is not floats]
    obs = group('write', write_fails, [(f, 1, ops if full else some, 2 if full else 1) for f in cases], 1)
    obs += group('read', read_fails, [(f, 1, 2 if full else 1) for f in cases], 2)
    arranged = compose.cases(1, compose.HOWS[:4]) if full else compose.cases(1, ('flat', 'list'), among=compose.SOME)
    obs += group('arranged-write', write_fails, [(f, 1, some if full else some[:1], 1) for f in arranged], 1)
    obs += group('arranged-read', read_fails, [(f, 1, 1) for f in arranged], 1)
    if full:
        obs += group('read-again', read_fails, [(f, 2, 1) for f in cases], 2)
    obs += group('garbage', garbage, [(f, 4 if full else 3) for f in cases], 4)
    obs += group('lazy', lazy_fails, [(s, 3 if full else 2) for s in sorted(LAZY)], 1)
    obs += group('functions', functions, PLACES, 5)
    obs += [Ob('assigned', assigned)]
    return obs
