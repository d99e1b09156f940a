"""Buffers refuse input too short for their numeric and text fields."""
from .lib import *
from . import composeb
from .layouts import Field, I, where as _where

BOUNDS = ('fields of 1..11 bytes at offsets 0..6, one to four ranges, up to 6 fields; every input of 0 bytes up to two more '
          'than needed, all bytes symbolic')
BOUNDS += '; buffers of any two of 32 kinds of part, each right after the one before, names in several orders (props/composeb.py; quick: fewer of them)'


def names(S, e, T, fields):
    """the error is the library's and names the class and one of the fields"""
    if not isinstance(e, InstructError):
        return False
    msg = str(e)
    attr = getattr(e, 'attr_name', None)
    return T.__name__ in msg and any(f in msg for f in fields) and (attr is None or attr in fields)


def decide(S, T, ends, n, data, values=None):
    """ends: field -> bytes needed"""
    t = T()
    short = [f for f in ends if ends[f] > n]
    r = S.outcome(t.unpack, data)
    S.observe('outcome', r.name())
    if short:
        S.check(not r.ok, 'short input is refused')
        if not r.ok:
            S.check(names(S, r.exc, T, short), 'error names the class and a field that is cut')
    else:
        if not r.ok:
            raise r.exc
        for f in sorted(values or {}):
            S.observe(f, getattr(t, f))
            S.check(S.eq(getattr(t, f), values[f](data)), 'value of ' + f)


def single(S, cfg):
    kind, parts, opts = cfg
    ref, pos = where(*parts)
    if kind == 'int':
        f = int_field(where=ref, **opts)
    elif kind == 'float':
        f = float_field(where=ref, **opts)
    else:
        f = str_field(where=ref, encoding='latin-1', **opts)
    T = make_buffer(dict(the_field=f), name='SomeClass')
    need = size_of(pos)
    n = S.choice('n', range(need + 2))
    decide(S, T, dict(the_field=need), n, S.bytes('data', n))


def several(S, cfg):
    name, ks = cfg
    fields = MULTI[name]
    attrs, ends = {}, {}
    for f in fields:
        attrs[f.name] = f.build()
        ends[f.name] = size_of(f.pos)
    T = make_buffer(attrs, name='SomeClass')
    n = S.choice('n', range(max(ends.values()) + 3))
    data = S.bytes('data', n)
    values = {}
    for f in fields:
        if f.kind == 'int':
            values[f.name] = lambda d, f=f: int_from_bits(pick(d, f.pos), f.opts.get('endian', 'little'),
                                                          f.opts.get('sign', 'unsigned'))
    decide(S, T, ends, n, S.choice('as', (bytes, bytearray))(data), values)


def nested(S, cfg):
    start, = cfg

    class Inside(Buffer):
        lo = be_uint_field(where=bytes_ref[0:2])
        hi = uint_field(where=bytes_ref[2].bits[4:7])

    class SomeClass(Buffer):
        first = be_uint_field(where=bytes_ref[0])
        nest = buffer_field(type=Inside, where=bytes_ref[start:start + 3])
    need = start + 3
    n = S.choice('n', range(need + 2))
    data = S.bytes('data', n)
    t = SomeClass()
    r = S.outcome(t.unpack, data)
    S.observe('outcome', r.name())
    if n < need:
        S.check(not r.ok, 'short input is refused')
        if not r.ok:
            S.check(isinstance(r.exc, InstructError) and 'SomeClass' in str(r.exc) and
                    any(x in str(r.exc) for x in (('first', 'nest') if n == 0 else ('nest',))),
                    'error names the class and field')
    else:
        if not r.ok:
            raise r.exc
        S.check(S.and_(S.eq(t.nest.lo, bytes_value(data[start:start + 2], False)),
                       S.eq(t.nest.hi, (data[start + 2] >> 4) & 7)), 'values')


def reused(S, cfg):
    """an object that was unpacked before does not keep old values for missing bytes"""
    n, = cfg

    class SomeClass(Buffer):
        a = le_uint_field(where=bytes_ref[0:3])
        b = uint_field(where=bytes_ref[3].bits[0:5])
        s = str_field(where=bytes_ref[4:7])
    t = SomeClass()
    t.unpack(S.bytes('full', 4) + b'abc')
    decide_again = S.outcome(t.unpack, S.bytes('data', 4)[:n] + b'xyz'[:max(n - 4, 0)])
    S.observe('outcome', decide_again.name())
    S.check(decide_again.ok == (n >= 7), 'short input is refused')


def inherited(S, cfg):
    n, = cfg

    class Base(Buffer):
        low = be_uint_field(where=bytes_ref[4:6])

    class SomeClass(Base):
        high = float_field(where=bytes_ref[0:4], endian='big')
    decide(S, SomeClass, dict(low=6, high=4), n, S.bytes('data', n))


def padded(S, cfg):
    """a declared size beyond the fields does not make long enough input too short"""
    n, = cfg

    class SomeClass(Buffer):
        byte_size = 9
        one = be_uint_field(where=bytes_ref[1:3])
        two = uint_field(where=bytes_ref[0].bits[2:7])
    decide(S, SomeClass, dict(one=3, two=1), n, S.bytes('data', n),
           dict(one=lambda d: bytes_value(d[1:3], False), two=lambda d: (d[0] >> 2) & 31))


def open_ended(S, cfg):
    """a field up to the end of the input needs the input to reach its place"""
    kind, at, how = cfg
    lead = uint_field(where=bytes_ref[0])
    ref = {'number': bytes_ref[at:], 'field': bytes_ref[lead:], 'sum': bytes_ref[lead * 1 + 0:], 'second': bytes_ref[1] + bytes_ref[at:],
           'first': bytes_ref[at:] + bytes_ref[1]}[how]
    more = how in ('second', 'first')
    f = {'int': lambda: be_uint_field(where=ref), 'float': lambda: float_field(where=ref, endian='big'),
         'str': lambda: str_field(where=ref, encoding='latin-1', strip=b'', padding=b'\0'), 'bytes': lambda: bytearray_field(where=ref),
         'list': lambda: list_field(type=uint8, where=ref)}[kind]()
    T = make_buffer(dict(lead=lead, the_field=f), name='SomeClass')
    n = S.choice('n', range(at + 6))
    data = [at] + list(S.bytes('data', at + 5))
    data = bytes(bytearray(data[:n]))
    t = T()
    r = S.outcome(t.unpack, data)
    S.observe('outcome', r.name())
    size = n - at + more
    needed = at + (4 - more if kind == 'float' else 0)
    if n < needed:
        S.check(not r.ok, 'short input is refused')
        S.check(not r.ok and names(S, r.exc, T, ['the_field', 'lead'] if n == 0 or more else ['the_field']), 'error names the class and a field that is cut')
        return
    if kind == 'float' and n > needed:
        return      # no such float
    if not r.ok:
        raise r.exc
    part = list(data[at:])
    if more:
        part = [data[1]] + part if how == 'second' else part + [data[1]]
    if kind == 'int':
        S.check(S.eq(t.the_field, bytes_value(part, False)), 'number')
    elif kind == 'float':
        S.check(S.or_(S.is_nan(t.the_field), S.eq(S.float_bits(t.the_field, 4), bytes_value(part, False))), 'number')
    elif kind != 'str':
        S.check(same_bytes(S, bytes(bytearray(t.the_field)), part), 'content')
    else:
        while part and S.conc(part[-1] == 0):
            part.pop()
        S.check(S.eq([ord(c) for c in t.the_field], part), 'content')


MULTI = {
    'bits': [I('aa', ('b', 0, 3)), I('bb', ('b', 3, 12)), I('cc', ('b', 30, 35)), I('dd', ('b', 20, 22))],
    'sizes': [I('aa', ('B', 0, 1)), I('bb', ('B', 1, 3), endian='big'), I('cc', ('B', 3, 6), endian='big'),
              I('dd', ('B', 6, 10), sign='signed')],
    'reverse': [I('dd', ('B', 0, 2)), I('cc', ('b', 16, 23)), I('bb', ('B', 4, 6), endian='big'), I('aa', ('B', 6, 7))],
    'multi': [I('aa', ('B', 4, 5), ('B', 0, 1), endian='big'), I('bb', ('b', 10, 14), ('b', 26, 29)), I('cc', ('x', 6, 7))],
    'text': [Field('aa', 'str', ('B', 3, 6)), I('bb', ('b', 2, 9)), Field('cc', 'float', ('B', 6, 10))],
    'gap': [I('aa', ('x', 5, 0)), I('bb', ('B', 0, 1))],
}


def arranged(S, case):
    """fields whose positions depend on others"""
    c = case(S, False)
    n = S.choice('length', range(len(c.want) + 2))
    data = bytes(bytearray(c.want))[:n] + (S.bytes('more', 1) if n > len(c.want) else b'')
    t = c.T()
    r = S.outcome(t.unpack, data)
    if n >= len(c.want):
        S.check(r.ok, 'long enough')
        c.check_values(S, t, 'unpacked')
    elif n < c.needed:
        S.reach('short')
        S.check(not r.ok, 'short input is refused')
        S.check(not r.ok and names(S, r.exc, c.T, c.names), 'error names the class and a field')
    else:
        S.check(r.ok or isinstance(r.exc, Exception), 'an error, or the fields that are there')



def obligations(tier):
    full = tier == 'thorough'
    cfgs = []
    for w in range(1, 9):
        for k, endian in enumerate(('big', 'little', 'native')):
            for at in ((0, 2) if full else ((w + k) % 3,)):
                cfgs.append(('int', (('B', at, at + w),), dict(endian=endian, sign=('signed', 'unsigned')[(w + k) % 2])))
    for i, p in enumerate([(('b', 0, 1),), (('b', 7, 8),), (('b', 3, 10),), (('b', 8, 12),), (('b', 17, 31),), (('b', 5, 30),),
                           (('x', 3, 2),), (('b', 4, 8), ('b', 20, 22)), (('b', 20, 22), ('b', 4, 8)), (('B', 2, 4), ('B', 0, 1)),
                           (('B', 0, 1), ('B', 4, 6)), (('n', 3), ('x', 1, 0)), (('b', 0, 12), ('b', 44, 48)),
                           (('l', (0, 3), 4, 9),), (('l', (3, 0), 4, 12),), (('x', 0, 1), ('x', 2, 1), ('x', 4, 1)),
                           (('b', 0, 57),), (('b', 1, 65),)]):
        cfgs.append(('int', p, dict(endian=('little', 'big')[i % 2], sign='unsigned')))
    for at in (0, 3):
        for endian in ('big', 'little', 'native'):
            cfgs.append(('float', (('B', at, at + 4),), dict(endian=endian)))
            cfgs.append(('float', (('B', at, at + 8),), dict(endian=endian)))
    cfgs.append(('float', (('B', 3, 5), ('B', 0, 2)), dict(endian='big')))
    for justify in ('left', 'right', 'center'):
        for a, b in ((0, 1), (0, 4), (2, 5)):
            cfgs.append(('str', (('B', a, b),), dict(justify=justify)))
    cfgs.append(('str', (('B', 3, 5), ('B', 0, 2)), {}))
    cfgs.append(('str', (('B', 1, 4),), dict(padding=b'\0', strip=b'')))
    obs = group('single', single, cfgs, 16)
    obs += group('arranged', arranged, composeb.cases(last=False) if full else composeb.some('forward', last=False), 1)
    obs += group('open-ended', open_ended, [(k, at, how) for how in ('number', 'field', 'sum', 'second', 'first') for k in ('int', 'float', 'str', 'bytes', 'list')
                                            for at in ((2, 4) if full else (3,))], 5)
    obs += group('several', several, [(n, None) for n in sorted(MULTI)], 2)
    obs += group('nested', nested, [(1,), (2,), (4,)])
    obs += group('reused', reused, [(n,) for n in range(8)])
    obs += group('inherited', inherited, [(n,) for n in range(8)])
    obs += group('padded', padded, [(n,) for n in range(0, 11)])
    return obs
