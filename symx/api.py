"""The harness interface in symbolic mode (symx/concrete.py is its concrete twin)."""
import struct
import z3
from . import core, hooks, seq, text
from .core import SymInt, SymBool, SymNum, SymFloat, b_and, b_or, b_not, ite, mkb, conc
from .seq import SymBytes, SymByteArray, SymStr


class Outcome(object):
    """Result of S.outcome: ok/value or exc."""

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def name(self):
        return 'ok' if self.ok else type(self.exc).__name__


class SymAPI(object):
    symbolic = True

    def __init__(self, engine, once):
        self.E = engine
        self._once = once

    # -- inputs
    def _decl(self, name, dec):
        E = self.E
        if name in E.vars:
            raise RuntimeError('input %s declared twice' % name)
        E.vars[name] = dec

    def int(self, name, lo, hi):
        if lo == hi:
            self._decl(name, lambda m: lo)
            return lo
        w = core._width(lo, hi)
        if lo >= 0:
            v = z3.BitVec(name, w - 1)
            x = SymInt(z3.ZeroExt(1, v), lo, hi)
            full = lo == 0 and hi == (1 << (w - 1)) - 1
            self._decl(name, lambda m: m.eval(v, model_completion=True).as_long())
            if not full:
                self.E.assume(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
        else:
            v = z3.BitVec(name, w)
            x = SymInt(v, lo, hi)
            self._decl(name, lambda m: m.eval(v, model_completion=True).as_signed_long())
            if not (lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1):
                self.E.assume(z3.And(v >= lo, v <= hi))
        return x

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def bool(self, name):
        v = z3.Bool(name)
        self._decl(name, lambda m: z3.is_true(m.eval(v, model_completion=True)))
        return SymBool(v)

    def choice(self, name, options):
        options = list(options)
        assert options, 'no options for %s' % name
        return options[conc(self.int(name, 0, len(options) - 1))]

    def bytes(self, name, n):
        vs = [z3.BitVec('%s_%d' % (name, i), 8) for i in range(n)]
        self._decl(name, lambda m: bytes(m.eval(v, model_completion=True).as_long() for v in vs).hex())
        return seq.mk_bytes([SymInt(z3.ZeroExt(1, v), 0, 255) for v in vs])

    def bytearray(self, name, n):
        return SymByteArray(list(seq.elems(self.bytes(name, n))))

    def str(self, name, n, lo=0, hi=127):
        out, vs = [], []
        w = hi.bit_length()
        for i in range(n):
            v = z3.BitVec('%s_%d' % (name, i), w)
            vs.append(v)
            out.append(SymInt(z3.ZeroExt(1, v), lo, hi))
        self._decl(name, lambda m: [m.eval(v, model_completion=True).as_long() for v in vs])
        if lo > 0 or hi != (1 << w) - 1:
            for v in vs:
                self.E.assume(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
        if hi >= 0xd800:
            for v in vs:
                self.E.assume(z3.Or(z3.ULT(v, 0xd800), z3.UGT(v, 0xdfff)))
        return seq.mk_str(out)

    def f64(self, name):
        v = z3.BitVec(name, 64)
        self._decl(name, lambda m: m.eval(v, model_completion=True).as_long())
        return SymFloat(v)

    def f32(self, name):
        v = z3.BitVec(name, 32)
        self._decl(name, lambda m: m.eval(v, model_completion=True).as_long())
        return SymFloat(None, v)

    # -- logic
    def assume(self, cond):
        c = core.zb(cond)
        if c is True:
            return
        if c is False:
            raise core.Infeasible()
        self.E.assume(c)

    def check(self, cond, label):
        c = core.zb(cond) if not isinstance(cond, bool) or core.is_sym(cond) else cond
        self.E.nchecks += 1
        self.E.check(c, label)
        return True

    def fail(self, label):
        self.E.nchecks += 1
        self.E.check(False, label)

    def and_(self, *xs):
        return b_and(*xs)

    def or_(self, *xs):
        return b_or(*xs)

    def not_(self, x):
        return b_not(x if type(x) is SymBool else bool(x))

    def implies(self, a, b):
        return b_or(self.not_(a), b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def conc(self, x):
        return conc(x)

    def eq(self, a, b):
        return deep_eq(a, b)

    def is_nan(self, x):
        return x.isnan() if type(x) is SymFloat else mkb(conc(x) != conc(x))

    def float_bits(self, x, size):
        """IEEE bits of a float (size 4: of the single it widens from)."""
        if type(x) is SymFloat:
            return core.from_unsigned(x.bits32() if size == 4 else x.bits64())
        return struct.unpack('<I' if size == 4 else '<Q', struct.pack('<f' if size == 4 else '<d', conc(x)))[0]

    # -- running
    def outcome(self, fn, *a, **k):
        try:
            return Outcome(True, hooks.sx_call(fn, *a, **k), None)
        except Exception as e:
            self.E.engine_ok()
            return Outcome(False, None, e)

    def observe(self, label, value):
        self.E.observations.append((label, value))

    def reach(self, label):
        self.E.reached[label] = self.E.reached.get(label, 0) + 1

    def once(self, key, fn, *a):
        if self._once is None:
            return fn(*a)
        if key not in self._once:
            self._once[key] = fn(*a)
        return self._once[key]

    def json_model(self, model):
        hooks._JSON.model = model

    def text_mode(self):
        """From here on the textual form of a symbolic value is uninterpreted (symx/text.py)."""
        self.E.text = True

    def tick_limit(self, n):
        self.E.step_limit = n


def deep_eq(a, b):
    ta, tb = a.__class__, b.__class__
    if a is None or b is None:
        return a is b
    if issubclass(ta, float) or issubclass(tb, float):
        if type(a) is SymFloat or type(b) is SymFloat:
            return mkb(z3.simplify(_b64(a) == _b64(b)))
        return a == b
    if issubclass(ta, int) and issubclass(tb, int):
        r = a == b
        return r
    if issubclass(ta, (bytes, bytearray)) and issubclass(tb, (bytes, bytearray)):
        return seq.eq_elems(seq.elems(a), seq.elems(b))
    if issubclass(ta, str) and issubclass(tb, str):
        return a == b
    if issubclass(ta, (list, tuple)) and issubclass(tb, (list, tuple)):
        if len(a) != len(b):
            return False
        return b_and(*[deep_eq(x, y) for x, y in zip(a, b)])
    if issubclass(ta, dict) and issubclass(tb, dict):
        if set(a) != set(b):
            return False
        return b_and(*[deep_eq(a[k], b[k]) for k in a])
    if ta is not tb:
        return False
    return a == b


def _b64(x):
    if type(x) is SymFloat:
        return x.bits64()
    return z3.BitVecVal(struct.unpack('<Q', struct.pack('<d', float(conc(x))))[0], 64)


def _model_value(x, E):
    c = canon(x, E)
    kind, v = c[0], c[1]
    if kind == 'i':
        return int(v)
    if kind == 'f':
        return float('nan') if v == 'nan' else struct.unpack('>d', bytes.fromhex(v))[0]
    if kind == 'y':
        b = bytes.fromhex(v)
        return bytearray(b) if x.__class__ is bytearray else b
    if kind == 's':
        return ''.join(map(chr, v))
    return v


def canon(x, E):
    """Model value of an observation, JSON-able; same form as concrete.canon."""
    t = type(x)
    if t is SymInt:
        return ['i', str(E.eval_int(x.t))]
    if t is SymBool:
        return ['b', bool(E.eval_bool(x.c))]
    if t is SymNum:
        n = E.eval_int(x.n.t) if type(x.n) is SymInt else x.n
        return canon(n / (1 << x.k), E)
    if t is SymFloat:
        b = E.model.eval(x.bits64(), model_completion=True)
        b = z3.simplify(b).as_long()
        return canon(struct.unpack('<d', struct.pack('<Q', b))[0], E)
    if t in (SymBytes, SymByteArray, seq.SymMemoryView):
        return ['y', bytes(e if type(e) is int else E.eval_int(e.t) for e in x.e).hex()]
    if t is SymStr:
        return ['s', [e if type(e) is int else E.eval_int(e.t) for e in x.e]]
    if t is text.SymText:
        return ['s', [ord(c) for c in ''.join(h.render(_model_value(h.v, E)) if type(h) is text.Hole else chr(h if type(h) is int else E.eval_int(h.t))
                                              for h in x.e)]]
    if x is None:
        return ['n']
    if isinstance(x, bool):
        return ['b', x]
    if isinstance(x, int):
        return ['i', str(int(x))]
    if isinstance(x, float):
        return ['f', 'nan' if x != x else struct.pack('>d', x).hex()]
    if isinstance(x, (bytes, bytearray)):
        return ['y', bytes(x).hex()]
    if isinstance(x, str):
        return ['s', [ord(c) for c in x]]
    if isinstance(x, (list, tuple)):
        return ['l', [canon(y, E) for y in x]]
    if isinstance(x, dict):
        return ['d', sorted([[canon(k, E), canon(v, E)] for k, v in x.items()])]
    if isinstance(x, BaseException):
        return ['x', type(x).__name__]
    return ['o', type(x).__name__]
