"""Path exploration and symbolic scalars.

The engine re-executes a harness once per feasible path (depth first).  Branch decisions are kept on a trace with one
solver push per decision, so a re-execution only follows its prefix and never re-asserts it.  A model of the current
path condition is kept at all times: the side the model takes is followed without a query, the other side is asked for
when backtracking.
"""
import sys
import time
import z3

z3.set_param('smt.random_seed', 0)
z3.set_param('sat.random_seed', 0)


class Abort(BaseException):
    """Engine control flow; must never be swallowed by the code under test."""


class Infeasible(Abort):
    pass


class PathCut(Abort):
    """This path cannot be continued (budget); the obligation is reported as incomplete."""


class Diverged(Abort):
    """Re-execution took a different course than the recorded prefix (state kept between runs)."""


class StopObligation(Abort):
    pass


E = None  # the current engine


def set_engine(e):
    global E
    E = e


def engine():
    return E


class Entry(object):
    __slots__ = ('kind', 'cond', 'choice', 'pending', 'data')

    def __init__(self, kind, cond, choice, pending, data=None):
        self.kind, self.cond, self.choice, self.pending, self.data = kind, cond, choice, pending, data


class Engine(object):
    def __init__(self, max_paths=100000, deadline=None, query_timeout_ms=60000, conc_limit=300, step_limit=2000000):
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', query_timeout_ms)
        self.max_paths, self.deadline = max_paths, deadline
        self.conc_limit = conc_limit
        self.step_limit = step_limit
        self.trace = []
        self.pos = 0
        self.model = None
        self.paths = 0            # completed paths
        self.infeasible = 0
        self.cut = 0
        self.branches = 0         # decisions taken for the first time
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0           # assertion queries decided (unsat or model-refuted)
        self.check_instances = 0
        self.cexs = []            # (label, model values)
        self.unknowns = []
        self.incomplete = set()
        self.approx = set()
        self.peek = 0
        self.text = False
        self.vars = {}            # name -> (z3 term, decoder)
        self.reached = {}
        self.notes = set()
        self.stop_at_cex = 12
        self.on_cex = None
        self.known = {}
        self.steps = 0
        self.observations = []
        self.nchecks = 0
        self.evaluated = 0
        self.engine_error = None
        self.checked_paths = 0
        self.approx_path = False

    # -- solver helpers
    def _check(self):
        self.queries += 1
        t = time.time()
        r = self.solver.check()
        self.solver_s += time.time() - t
        return r

    def eval_bool(self, cond):
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def eval_int(self, term):
        v = self.model.eval(term, model_completion=True)
        if not z3.is_bv_value(v):
            v = z3.simplify(v)
        return v.as_signed_long()

    def _time(self):
        if self.deadline is not None and time.time() > self.deadline:
            self.incomplete.add('time budget')
            raise StopObligation()

    # -- decisions
    def branch(self, cond, data=None, pending=True):
        """Decides a z3 Bool on this path."""
        if self.peek:
            r = self.eval_bool(cond)
            return bool(r)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        if z3.is_not(cond):
            cond, neg = cond.arg(0), True
        k = self.known.get(cond.get_id())
        if k is not None:
            return k != neg
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'b' or not e.cond.eq(cond):
                raise Diverged()
            self.pos += 1
            self.known[cond.get_id()] = e.choice
            return e.choice != neg
        self._time()
        c = self.eval_bool(cond)
        if c is None:
            raise PathCut('model evaluation')
        self.branches += 1
        self.solver.push()
        self.solver.add(cond if c else z3.Not(cond))
        self.trace.append(Entry('b', cond, c, pending, (data, neg)))
        self.pos += 1
        self.known[cond.get_id()] = c
        if len(self.trace) > 20000:
            self.incomplete.add('path length')
            raise PathCut('path length')
        return c != neg

    def assume(self, cond):
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'a':
                raise Diverged()
            self.pos += 1
            if e.choice is False:
                raise Infeasible()
            return
        self._time()
        c = self.eval_bool(cond)
        self.solver.push()
        self.solver.add(cond)
        e = Entry('a', cond, True, False)
        self.trace.append(e)
        self.pos += 1
        if c is not True:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                e.choice = False
                raise Infeasible()
            else:
                self.unknowns.append('assume')
                e.choice = False
                raise Infeasible()

    def check(self, cond, label):
        """cond: z3 Bool or bool that has to hold on every value of this path."""
        self.check_instances += 1
        if cond is True:
            return
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'c' or e.data != label:
                raise Diverged()
            self.pos += 1
            return
        self._time()
        self.trace.append(Entry('c', None, True, False, label))
        self.solver.push()
        self.pos += 1
        self.checks += 1
        if cond is not False:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return
        bad_model = None
        if cond is False or z3.is_false(cond) or self.eval_bool(cond) is False:
            bad_model = self.model
        else:
            self.solver.push()
            self.solver.add(z3.Not(cond))
            r = self._check()
            if r == z3.sat:
                bad_model = self.solver.model()
            elif r != z3.unsat:
                self.unknowns.append(label)
            self.solver.pop()
        if bad_model is not None:
            self.add_cex(label, bad_model)

    def add_cex(self, label, model):
        values = self.values(model)
        self.cexs.append((label, values))
        if self.on_cex is not None and self.on_cex(label, values):
            raise StopObligation()
        if len(self.cexs) >= self.stop_at_cex:
            self.incomplete.add('stopped after %d counterexamples' % self.stop_at_cex)
            raise StopObligation()

    def fail(self, label):
        """An assertion that is false on every value of this path."""
        self.check(False, label)

    def values(self, model=None):
        model = model if model is not None else self.model
        return dict((n, dec(model)) for n, dec in self.vars.items())

    # -- concretisation: one path per feasible value
    def concretize(self, term, what=''):
        if self.peek:
            return self.eval_int(term)
        n = 0
        while True:
            # on a replay the value is the trace entry's, where that entry was left by this very use (a use
            # that was decided by what the path already knows left none)
            v = self.eval_int(term)
            if self.pos < len(self.trace):
                e = self.trace[self.pos]
                if e.kind == 'b' and e.data[0] is not None and e.data[0][1].eq(term):
                    v = e.data[0][0]
            c = term == z3.BitVecVal(v, term.size())
            pending = True
            n += 1
            if n > self.conc_limit:
                self.incomplete.add('more than %d values at one use' % self.conc_limit)
                pending = False
            if n > 20 * self.conc_limit:
                raise PathCut('no value')
            if self.branch(c, data=(v, term), pending=pending):
                return v

    def engine_ok(self):
        """Errors of the solver's own interface must not be taken for errors of the code under test."""
        if self.engine_error is not None:
            e, self.engine_error = self.engine_error, None
            raise PathCut('engine: %s' % (e,))

    def approximate(self, what):
        self.approx.add(what)
        self.approx_path = True

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.step_limit:
            self.incomplete.add('step budget')
            raise StepBudget()

    # -- exploration
    def backtrack(self):
        while self.trace:
            e = self.trace.pop()
            self.solver.pop()
            if e.kind == 'b' and e.pending:
                self._time()
                self.solver.push()
                self.solver.add(z3.Not(e.cond) if e.choice else e.cond)
                r = self._check()
                if r == z3.sat:
                    self.model = self.solver.model()
                    self.trace.append(Entry('b', e.cond, not e.choice, False, e.data))
                    return True
                if r != z3.unsat:
                    self.unknowns.append('branch')
                self.solver.pop()
        return False

    def explore(self, fn, on_path=None):
        set_engine(self)
        try:
            if self._check() != z3.sat:
                raise RuntimeError('empty problem is not satisfiable')
            self.model = self.solver.model()
            while True:
                self.pos = 0
                self.peek = 0
                self.text = False
                self.steps = 0
                self.known = {}
                self.observations = []
                self.vars = {}
                self.nchecks = 0
                self.engine_error = None
                self.approx_path = False
                try:
                    try:
                        fn()
                    except Exception as e:
                        self.engine_ok()
                        self.nchecks += 1
                        self.last_exception = e
                        self.check(False, 'unexpected exception %s' % type(e).__name__)
                    self.engine_ok()
                    if self.pos < len(self.trace):
                        raise Diverged()
                    self.paths += 1
                    self.evaluated += self.nchecks
                    if self.nchecks:
                        self.checked_paths += 1
                    if on_path is not None:
                        on_path(self)
                except Infeasible:
                    self.infeasible += 1
                except StepBudget:
                    self.cut += 1
                    self.add_cex(TERMINATION, self.model)
                except PathCut as e:
                    self.cut += 1
                    self.incomplete.add('path cut: %s' % (e,))
                if self.paths + self.cut >= self.max_paths:
                    self.incomplete.add('path budget')
                    break
                if not self.backtrack():
                    break
        except StopObligation:
            pass
        finally:
            set_engine(None)


class StepBudget(PathCut):
    pass


TERMINATION = 'terminates'


def _z3_error(self, value):
    self.value = value
    if E is not None:
        E.engine_error = value


z3.z3types.Z3Exception.__init__ = _z3_error


# ---------------------------------------------------------------------------------------------------- integers
def _width(lo, hi):
    return max((lo if lo >= 0 else ~lo).bit_length(), (hi if hi >= 0 else ~hi).bit_length()) + 1


def _fit(t, w, lo):
    s = t.size()
    if s == w:
        return t
    if s > w:
        return z3.Extract(w - 1, 0, t)
    return z3.ZeroExt(w - s, t) if lo >= 0 else z3.SignExt(w - s, t)


def mk(t, lo, hi):
    """SymInt (or int) for a signed bit-vector term t whose value is known to lie in [lo, hi]."""
    if lo == hi:
        return lo
    w = _width(lo, hi)
    if t.size() != w:
        t = z3.Extract(w - 1, 0, t) if t.size() > w else (z3.ZeroExt(w - t.size(), t) if lo >= 0 else
                                                        z3.SignExt(w - t.size(), t))
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t, lo, hi)


def from_unsigned(t):
    """SymInt for an unsigned bit-vector term."""
    n = t.size()
    if z3.is_bv_value(t):
        return t.as_long()
    return SymInt(z3.ZeroExt(1, t), 0, (1 << n) - 1)


def from_signed(t):
    n = t.size()
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)


def low_bits(x, n):
    """The n low bits of an int-like as a bit-vector term (two's complement)."""
    if type(x) is SymInt:
        s = x.t.size()
        if s == n:
            return x.t
        if s > n:
            return z3.simplify(z3.Extract(n - 1, 0, x.t))
        return _fit(x.t, n, x.lo)
    return z3.BitVecVal(int(x), n)


def is_sym(x):
    return type(x) in SYM_TYPES


SYM_TYPES = set()


def _coerce(o):
    """int-like operand -> int or SymInt, None when it is not one."""
    t = type(o)
    if t is int or t is SymInt:
        return o
    if t is bool:
        return int(o)
    if t is SymBool:
        return o.as_int()
    if isinstance(o, int) and not is_sym(o):
        return int(o)
    return None


def _lohi(x):
    return (x.lo, x.hi) if type(x) is SymInt else (x, x)


def _term(x, w, signed_lo=None):
    if type(x) is SymInt:
        return _fit(x.t, w, x.lo)
    return z3.BitVecVal(x, w)


def i_add(a, b):
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    lo, hi = al + bl, ah + bh
    w = _width(min(lo, al, bl), max(hi, ah, bh))
    return mk(_term(a, w) + _term(b, w), lo, hi)


def i_sub(a, b):
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    lo, hi = al - bh, ah - bl
    w = _width(min(lo, al, bl), max(hi, ah, bh))
    return mk(_term(a, w) - _term(b, w), lo, hi)


def i_mul(a, b):
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    if type(b) is int and type(a) is SymInt:
        if b == 0:
            return 0
        if b > 0 and b & (b - 1) == 0:
            return i_shl(a, b.bit_length() - 1)
    if type(a) is int and type(b) is SymInt:
        return i_mul(b, a)
    ps = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(ps), max(ps)
    w = _width(min(lo, al, bl), max(hi, ah, bh))
    return mk(_term(a, w) * _term(b, w), lo, hi)


def i_shl(a, n):
    if type(n) is SymInt:
        if n.lo < 0:
            if E.branch(n.t < 0):
                raise ValueError("negative shift count")
        if n.hi > 4096:
            n = E.concretize(n.t)
        else:
            (al, ah) = _lohi(a)
            lo = min(al << n.hi, al << max(n.lo, 0), al)
            hi = max(ah << n.hi, ah << max(n.lo, 0), ah)
            w = max(_width(lo, hi), _width(0, n.hi))
            return mk(_term(a, w) << _term(n, w), lo, hi)
    if n < 0:
        raise ValueError("negative shift count")
    if type(a) is int:
        return a << n
    lo, hi = a.lo << n, a.hi << n
    w = _width(min(lo, 0), max(hi, 0))
    t = _fit(a.t, max(1, w - n), a.lo)
    if t.size() != w - n:
        t = _fit(a.t, w - n, a.lo)
    return mk(z3.Concat(t, z3.BitVecVal(0, n)) if n else t, lo, hi)


def i_shr(a, n):
    if type(n) is SymInt:
        if n.lo < 0:
            if E.branch(n.t < 0):
                raise ValueError("negative shift count")
        al, ah = _lohi(a)
        w = max(_width(al, ah), _width(0, n.hi))
        lo = min(al >> max(n.lo, 0), al >> n.hi, 0 if al >= 0 else al)
        hi = max(ah >> max(n.lo, 0), ah >> n.hi, -1 if ah < 0 else 0)
        return mk(_term(a, w) >> _term(n, w), lo, hi)
    if n < 0:
        raise ValueError("negative shift count")
    if type(a) is int:
        return a >> n
    lo, hi = a.lo >> n, a.hi >> n
    s = a.t.size()
    if n >= s - 1:
        return mk(z3.Extract(s - 1, s - 1, a.t), -1 if a.lo < 0 else 0, 0 if a.hi >= 0 else -1) if a.lo < 0 else 0
    return mk(z3.Extract(s - 1, n, a.t), lo, hi)


def i_and(a, b):
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    if type(a) is int:
        a, b, al, ah, bl, bh = b, a, bl, bh, al, ah
    if type(b) is int and b >= 0:
        if b == 0:
            return 0
        n = b.bit_length()
        if b & (b + 1) == 0 and al >= 0 and ah <= b:
            return a
        t = _term(a, max(n, a.t.size()))
        t = z3.Extract(n - 1, 0, t) if t.size() > n else t
        if b & (b + 1) != 0:
            t = t & z3.BitVecVal(b, n)
        hi = b if al < 0 else min(b, (1 << ah.bit_length()) - 1)
        r = z3.ZeroExt(1, t)
        return mk(r, 0, hi)
    w = max(_width(al, ah), _width(bl, bh))
    if al >= 0 and bl >= 0:
        lo, hi = 0, min(ah, bh)
    elif al >= 0:
        lo, hi = 0, ah
    elif bl >= 0:
        lo, hi = 0, bh
    else:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk(_term(a, w) & _term(b, w), lo, hi)


def _orxor_range(al, ah, bl, bh):
    w = max(_width(al, ah), _width(bl, bh))
    if al >= 0 and bl >= 0:
        return w, 0, (1 << (w - 1)) - 1
    return w, -(1 << (w - 1)), (1 << (w - 1)) - 1


def i_or(a, b):
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    w, lo, hi = _orxor_range(al, ah, bl, bh)
    if al >= 0 and bl >= 0:
        lo = max(al, bl)
    return mk(_term(a, w) | _term(b, w), lo, hi)


def i_xor(a, b):
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    w, lo, hi = _orxor_range(al, ah, bl, bh)
    return mk(_term(a, w) ^ _term(b, w), lo, hi)


def i_neg(a):
    if type(a) is int:
        return -a
    w = _width(min(-a.hi, a.lo), max(-a.lo, a.hi))
    return mk(-_term(a, w), -a.hi, -a.lo)


def i_inv(a):
    return mk(~a.t, ~a.hi, ~a.lo)


def _symbolic_divmod(a, b):
    """Floor division by a symbolic divisor known not to be zero on this path."""
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    w = max(_width(al, ah), _width(bl, bh)) + 1
    ta, tb = _term(a, w), _term(b, w)
    m = max(abs(al), abs(ah))
    if al >= 0 and bl >= 0:
        return mk(z3.UDiv(ta, tb), 0, ah // max(bl, 1)), mk(z3.URem(ta, tb), 0, max(bh - 1, 0))
    q0, r0 = ta / tb, z3.SRem(ta, tb)
    down = z3.And(r0 != 0, (r0 < 0) != (tb < 0))
    return (mk(z3.If(down, q0 - 1, q0), -m, m),
            mk(z3.If(down, r0 + tb, r0), min(bl + 1, 0), max(bh - 1, 0)))


def i_floordivmod(a, b):
    if type(b) is SymInt:
        if b.lo <= 0 <= b.hi and E.branch(b.t == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if b.hi - b.lo > 16:
            return _symbolic_divmod(a, b)
        b = E.concretize(b.t)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if type(a) is int:
        return divmod(a, b)
    if b > 0 and b & (b - 1) == 0:
        n = b.bit_length() - 1
        return i_shr(a, n), i_and(a, b - 1)
    if b < 0:
        q, r = i_floordivmod(i_neg(a), -b)
        return q, i_neg(r)
    w = max(_width(a.lo, a.hi), _width(0, b))
    ta, tb = _term(a, w), z3.BitVecVal(b, w)
    lo, hi = a.lo // b, a.hi // b
    if a.lo >= 0:
        q = z3.UDiv(ta, tb)
        r = z3.URem(ta, tb)
    else:
        w += 1
        ta, tb = _term(a, w), z3.BitVecVal(b, w)
        q0 = ta / tb
        r0 = z3.SRem(ta, tb)
        q = z3.If(r0 < 0, q0 - 1, q0)
        r = z3.If(r0 < 0, r0 + tb, r0)
    return mk(q, lo, hi), mk(r, 0, min(b - 1, a.hi) if a.lo >= 0 else b - 1)


def i_cmp(op, a, b):
    """op in lt le eq ne; returns bool or SymBool."""
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    if op == 'lt':
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == 'le':
        if ah <= bl:
            return True
        if al > bh:
            return False
    else:
        if ah < bl or al > bh:
            return op == 'ne'
        if al == ah == bl == bh:
            return op == 'eq'
    w = max(_width(al, ah), _width(bl, bh))
    ta, tb = _term(a, w), _term(b, w)
    if op == 'lt':
        c = ta < tb
    elif op == 'le':
        c = ta <= tb
    elif op == 'eq':
        c = ta == tb
    else:
        c = ta != tb
    return mkb(c)


def mkb(c):
    if c is True or c is False:
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


def zb(x):
    """bool-like -> z3 Bool (or Python bool)"""
    if type(x) is SymBool:
        return x.c
    if type(x) is SymInt:
        return x.t != 0
    return bool(x)


def ite(c, a, b):
    """If over int-likes / SymBool condition."""
    if type(c) is not SymBool:
        return a if c else b
    a, b = _coerce(a), _coerce(b)
    (al, ah), (bl, bh) = _lohi(a), _lohi(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = _width(lo, hi)
    return mk(z3.If(c.c, _term(a, w), _term(b, w)), lo, hi)


def _defop(name, fn, rev=False):
    def op(self, other):
        o = _coerce(other)
        if o is None:
            if type(other) is float or type(other) is SymNum:
                a, b = (to_num(self), other)
                return getattr(a, name)(b)
            return NotImplemented
        return fn(o, self) if rev else fn(self, o)
    op.__name__ = name
    return op


class SymInt(object):
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    @property
    def __class__(self):
        return int

    __add__ = _defop('__add__', i_add)
    __radd__ = _defop('__radd__', i_add, True)
    __sub__ = _defop('__sub__', i_sub)
    __rsub__ = _defop('__rsub__', i_sub, True)
    __and__ = _defop('__and__', i_and)
    __rand__ = _defop('__rand__', i_and, True)
    __or__ = _defop('__or__', i_or)
    __ror__ = _defop('__ror__', i_or, True)
    __xor__ = _defop('__xor__', i_xor)
    __rxor__ = _defop('__rxor__', i_xor, True)
    __lshift__ = _defop('__lshift__', i_shl)
    __rlshift__ = _defop('__rlshift__', i_shl, True)
    __rshift__ = _defop('__rshift__', i_shr)
    __rrshift__ = _defop('__rrshift__', i_shr, True)
    __floordiv__ = _defop('__floordiv__', lambda a, b: i_floordivmod(a, b)[0])
    __rfloordiv__ = _defop('__rfloordiv__', lambda a, b: i_floordivmod(a, b)[0], True)
    __mod__ = _defop('__mod__', lambda a, b: i_floordivmod(a, b)[1])
    __rmod__ = _defop('__rmod__', lambda a, b: i_floordivmod(a, b)[1], True)
    __divmod__ = _defop('__divmod__', i_floordivmod)
    __rdivmod__ = _defop('__rdivmod__', i_floordivmod, True)

    def __mul__(self, other):
        o = _coerce(other)
        if o is not None:
            return i_mul(self, o)
        if type(other) is float or type(other) is SymNum:
            return to_num(self) * other
        if hasattr(type(other), '__len__'):
            return other * E.concretize(self.t)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, other):
        if _coerce(other) is None and type(other) not in (float, SymNum):
            return NotImplemented
        return to_num(self) / other

    def __rtruediv__(self, other):
        if _coerce(other) is None and type(other) not in (float, SymNum):
            return NotImplemented
        return to_num(other) / self

    def __pow__(self, other, mod=None):
        o = _coerce(other)
        if o is None:
            return NotImplemented
        if type(o) is int and mod is None and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = i_mul(r, self)
            return r
        a, b = conc(self), conc(o)
        return pow(a, b) if mod is None else pow(a, b, mod)

    def __rpow__(self, other):
        o = _coerce(other)
        if o is None:
            return NotImplemented
        if type(o) is int and o == 2 and self.lo >= 0:
            return i_shl(1, self)
        return conc(o) ** conc(self)

    def __neg__(self):
        return i_neg(self)

    def __pos__(self):
        return self

    def __invert__(self):
        return i_inv(self)

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(i_cmp('lt', self, 0), i_neg(self), self)

    def _cmp(name, swap, op):
        def f(self, other):
            o = _coerce(other)
            if o is None:
                if type(other) is float or type(other) is SymNum:
                    return getattr(to_num(self), name)(other)
                return NotImplemented
            return i_cmp(op, o, self) if swap else i_cmp(op, self, o)
        return f
    __lt__ = _cmp('__lt__', False, 'lt')
    __le__ = _cmp('__le__', False, 'le')
    __gt__ = _cmp('__gt__', True, 'lt')
    __ge__ = _cmp('__ge__', True, 'le')

    def __eq__(self, other):
        o = _coerce(other)
        if o is None:
            if type(other) is float or type(other) is SymNum:
                return to_num(self) == other
            return NotImplemented
        return i_cmp('eq', self, o)

    def __ne__(self, other):
        o = _coerce(other)
        if o is None:
            if type(other) is float or type(other) is SymNum:
                return to_num(self) != other
            return NotImplemented
        return i_cmp('ne', self, o)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return E.branch(self.t != 0)

    def __index__(self):
        return E.concretize(self.t)

    def __int__(self):
        return E.concretize(self.t)

    def __float__(self):
        return float(E.concretize(self.t))

    def __hash__(self):
        return hash(E.concretize(self.t))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(conc(self), n)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _text(self):
        if E is None:
            return '<symbolic int>'
        if not E.peek and self.hi - self.lo > 256:
            E.approximate('formatting of a wide symbolic integer')
            return str(E.eval_int(self.t))
        return str(E.concretize(self.t))

    def __str__(self):
        return self._text()

    __repr__ = __str__

    def __format__(self, spec):
        return format(int(self._text()), spec)

    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        n = a.hi.bit_length()
        w = n.bit_length() + 1
        r = z3.BitVecVal(0, w)
        s = a.t.size()
        for i in range(n):
            # highest set bit wins: nest from low to high
            r = z3.If(z3.Extract(i, i, a.t) == 1, z3.BitVecVal(i + 1, w), r)
        return mk(r, max(0, a.lo).bit_length(), n)

    def bit_count(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_count()
        n = a.hi.bit_length()
        r = 0
        for i in range(n):
            r = r + ((a >> i) & 1)
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import seq
        length = conc(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if length == 0:
            lo, hi = 0, 0
        if self.lo < 0 and not signed and bool(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not bool(self >= lo) or not bool(self <= hi):
            raise OverflowError("int too big to convert")
        e = seq.int_to_bytes(self, length)
        if byteorder == 'big':
            e.reverse()
        return seq.mk_bytes(e)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)


class SymBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.branch(self.c)

    def as_int(self):
        return mk(z3.If(self.c, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return b_and(self, o)
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return b_or(self, o)
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is bool:
            return b_not(self) if o else self
        if type(o) is SymBool:
            return mkb(z3.Xor(self.c, o.c))
        return self.as_int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is bool:
            return self if o else b_not(self)
        if type(o) is SymBool:
            return mkb(self.c == o.c)
        if _coerce(o) is None and type(o) not in (float, SymNum):
            return NotImplemented
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def _arith(name):
        def f(self, *o):
            return getattr(self.as_int(), name)(*o)
        return f
    for _n in ('add radd sub rsub mul rmul floordiv rfloordiv mod rmod truediv rtruediv lshift rlshift rshift rrshift '
               'lt le gt ge neg pos invert abs pow rpow divmod rdivmod').split():
        locals()['__%s__' % _n] = _arith('__%s__' % _n)
    del _n

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def bit_length(self):
        return self.as_int()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def b_not(a):
    if type(a) is SymBool:
        return mkb(z3.Not(a.c))
    return not a


def b_and(*xs):
    cs = []
    for x in xs:
        c = zb(x)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    if not cs:
        return True
    return mkb(z3.And(*cs) if len(cs) > 1 else cs[0])


def b_or(*xs):
    cs = []
    for x in xs:
        c = zb(x)
        if c is True:
            return True
        if c is not False:
            cs.append(c)
    if not cs:
        return False
    return mkb(z3.Or(*cs) if len(cs) > 1 else cs[0])


def conc(x):
    """Concretises scalars (one path per value)."""
    t = type(x)
    if t is SymInt:
        return E.concretize(x.t)
    if t is SymBool:
        return bool(x)
    if t is SymNum:
        return x.concrete()
    if hasattr(x, '_sx_concrete'):
        return x._sx_concrete()
    return x


# ---------------------------------------------------------------------------------------------------- dyadic floats
def _dyadic(f):
    n, d = f.as_integer_ratio()
    return n, d.bit_length() - 1


def to_num(x):
    if type(x) is SymNum:
        return x
    if type(x) is float:
        n, k = _dyadic(x)
        return SymNum(n, k)
    x = _coerce(x)
    return SymNum(x, 0)


def mknum(n, k):
    if type(n) is int:
        return n / (1 << k)
    if max(abs(n.lo), abs(n.hi)).bit_length() > 53:
        return E.concretize(n.t) / (1 << k)
    return SymNum(n, k)


def _align(a, b):
    k = max(a.k, b.k)
    return (a.n if a.k == k else a.n << (k - a.k)), (b.n if b.k == k else b.n << (k - b.k)), k


def _numop(fn, rev=False):
    def op(self, other):
        if type(other) not in (float, SymNum):
            if _coerce(other) is None:
                return NotImplemented
        if type(other) is float and (other != other or other in (float('inf'), float('-inf'))):
            # every finite number compares alike with these
            return fn_float(fn, 0.0 if fn in (_n_lt, _n_le, _n_eq, _n_ne, _n_add, _n_sub) else self.concrete(), other, rev)
        o = to_num(other)
        return fn(o, self) if rev else fn(self, o)
    return op


def fn_float(fn, a, b, rev):
    if rev:
        a, b = b, a
    return {'_n_add': lambda: a + b, '_n_sub': lambda: a - b, '_n_mul': lambda: a * b, '_n_div': lambda: a / b,
            '_n_lt': lambda: a < b, '_n_le': lambda: a <= b, '_n_eq': lambda: a == b, '_n_ne': lambda: a != b,
            '_n_floordiv': lambda: a // b, '_n_mod': lambda: a % b}[fn.__name__]()


def _n_add(a, b):
    x, y, k = _align(a, b)
    return mknum(x + y, k)


def _n_sub(a, b):
    x, y, k = _align(a, b)
    return mknum(x - y, k)


def _n_mul(a, b):
    return mknum(a.n * b.n, a.k + b.k)


def _n_div(a, b):
    if type(b.n) is not int:
        c = conc(b.n)
        b = SymNum(c, b.k)
    if b.n == 0:
        raise ZeroDivisionError("float division by zero")
    if type(a.n) is int:
        return (a.n / (1 << a.k)) / (b.n / (1 << b.k))
    m = abs(b.n)
    tz = (m & -m).bit_length() - 1
    if m >> tz == 1:
        n = a.n if b.n > 0 else -a.n
        k = a.k + tz - b.k
        if k < 0:
            n, k = n << -k, 0
        return mknum(n, k)
    return a.concrete() / (b.n / (1 << b.k))


def _n_floordiv(a, b):
    if type(b.n) is not int:
        b = SymNum(conc(b.n), b.k)
    if b.n == 0:
        raise ZeroDivisionError("float floor division by zero")
    x, y, k = _align(a, b)
    return mknum(x // y, 0)


def _n_mod(a, b):
    if type(b.n) is not int:
        b = SymNum(conc(b.n), b.k)
    if b.n == 0:
        raise ZeroDivisionError("float modulo")
    x, y, k = _align(a, b)
    return mknum(x % y, k)


def _n_lt(a, b):
    x, y, k = _align(a, b)
    return x < y


def _n_le(a, b):
    x, y, k = _align(a, b)
    return x <= y


def _n_eq(a, b):
    x, y, k = _align(a, b)
    return x == y


def _n_ne(a, b):
    x, y, k = _align(a, b)
    return x != y


class SymNum(object):
    """A Python float of the form n / 2**k with a symbolic integer n (exact: |n| < 2**53)."""
    __slots__ = ('n', 'k')

    def __init__(self, n, k):
        self.n, self.k = n, k

    @property
    def __class__(self):
        return float

    __add__ = _numop(_n_add)
    __radd__ = _numop(_n_add, True)
    __sub__ = _numop(_n_sub)
    __rsub__ = _numop(_n_sub, True)
    __mul__ = _numop(_n_mul)
    __rmul__ = _numop(_n_mul, True)
    __truediv__ = _numop(_n_div)
    __rtruediv__ = _numop(_n_div, True)
    __floordiv__ = _numop(_n_floordiv)
    __rfloordiv__ = _numop(_n_floordiv, True)
    __mod__ = _numop(_n_mod)
    __rmod__ = _numop(_n_mod, True)
    __lt__ = _numop(_n_lt)
    __le__ = _numop(_n_le)
    __gt__ = _numop(_n_lt, True)
    __ge__ = _numop(_n_le, True)
    __eq__ = _numop(_n_eq)
    __ne__ = _numop(_n_ne)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mknum(-self.n, self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(abs(self.n), self.k)

    def concrete(self):
        return conc(self.n) / (1 << self.k)

    def __trunc__(self):
        n = self.n
        if type(n) is int:
            return int(n / (1 << self.k))
        if n.lo >= 0:
            return n >> self.k
        return ite(n < 0, -((-n) >> self.k), n >> self.k)

    def __floor__(self):
        return self.n >> self.k

    def __ceil__(self):
        return -((-self.n) >> self.k)

    def is_integer(self):
        return (self.n & ((1 << self.k) - 1)) == 0

    def as_integer_ratio(self):
        return self.concrete().as_integer_ratio()

    def __round__(self, n=None):
        return round(self.concrete()) if n is None else round(self.concrete(), n)

    def __bool__(self):
        return bool(self.n)

    def __float__(self):
        return self.concrete()

    def __int__(self):
        return int(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        if E is not None and type(self.n) is SymInt and not E.peek and self.n.hi - self.n.lo > 256:
            E.approximate('formatting of a wide symbolic number')
            return str(E.eval_int(self.n.t) / (1 << self.k))
        return str(self.concrete())
    __repr__ = __str__

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------------------------------------------- IEEE floats
RNE = z3.RNE()
F32, F64 = z3.Float32(), z3.Float64()


class SymFloat(object):
    """A Python float given by its 64 IEEE bits; f32 holds 32 bits when the value is an exactly widened single."""
    __slots__ = ('b64', 'f32')

    def __init__(self, b64, f32=None):
        self.b64, self.f32 = b64, f32

    @property
    def __class__(self):
        return float

    def fp(self):
        if self.b64 is not None:
            return z3.fpBVToFP(self.b64, F64)
        return z3.fpToFP(RNE, z3.fpBVToFP(self.f32, F32), F64)

    def bits64(self):
        """(bits, side condition free) -- widening is expressed on the bits."""
        if self.b64 is not None:
            return self.b64
        return widen_bits(self.f32)

    def bits32(self):
        if self.f32 is not None:
            return self.f32
        return z3.fpToIEEEBV(z3.fpToFP(RNE, z3.fpBVToFP(self.b64, F64), F32))

    def _o(self, o):
        if type(o) is SymFloat:
            return o.fp()
        if type(o) is float:
            return z3.FPVal(o, F64)
        if type(o) is int and abs(o) < 2 ** 53:
            return z3.FPVal(float(o), F64)
        return None

    def _c(fn):
        def f(self, o):
            x = self._o(o)
            return NotImplemented if x is None else mkb(z3.simplify(fn(self.fp(), x)))
        return f
    __eq__ = _c(lambda a, b: z3.fpEQ(a, b))
    __ne__ = _c(lambda a, b: z3.Not(z3.fpEQ(a, b)))
    __lt__ = _c(lambda a, b: z3.fpLT(a, b))
    __le__ = _c(lambda a, b: z3.fpLEQ(a, b))
    __gt__ = _c(lambda a, b: z3.fpGT(a, b))
    __ge__ = _c(lambda a, b: z3.fpGEQ(a, b))

    def _a(fn, rev=False):
        def f(self, o):
            x = self._o(o)
            if x is None:
                return NotImplemented
            r = fn(x, self.fp()) if rev else fn(self.fp(), x)
            return SymFloat(z3.fpToIEEEBV(r))
        return f
    __add__ = _a(lambda a, b: z3.fpAdd(RNE, a, b))
    __radd__ = _a(lambda a, b: z3.fpAdd(RNE, a, b), True)
    __sub__ = _a(lambda a, b: z3.fpSub(RNE, a, b))
    __rsub__ = _a(lambda a, b: z3.fpSub(RNE, a, b), True)
    __mul__ = _a(lambda a, b: z3.fpMul(RNE, a, b))
    __rmul__ = _a(lambda a, b: z3.fpMul(RNE, a, b), True)
    __truediv__ = _a(lambda a, b: z3.fpDiv(RNE, a, b))

    def __neg__(self):
        if self.f32 is not None and self.b64 is None:
            return SymFloat(None, self.f32 ^ z3.BitVecVal(1 << 31, 32))
        return SymFloat(self.b64 ^ z3.BitVecVal(1 << 63, 64))

    def __abs__(self):
        if self.f32 is not None and self.b64 is None:
            return SymFloat(None, self.f32 & z3.BitVecVal((1 << 31) - 1, 32))
        return SymFloat(self.b64 & z3.BitVecVal((1 << 63) - 1, 64))

    def isnan(self):
        if self.f32 is not None:
            return mkb(z3.simplify(is_nan32(self.f32)))
        return mkb(z3.simplify(is_nan64(self.b64)))

    def isinf(self):
        if self.f32 is not None:
            return mkb(z3.simplify(z3.Extract(30, 0, self.f32) == 0x7f800000))
        return mkb(z3.simplify(z3.Extract(62, 0, self.b64) == 0x7ff0000000000000))

    def __bool__(self):
        b, n = (self.f32, 32) if self.f32 is not None else (self.b64, 64)
        return E.branch(z3.Extract(n - 2, 0, b) != 0)

    def _sx_concrete(self):
        import struct
        if self.f32 is not None:
            return struct.unpack('<f', struct.pack('<I', E.concretize(z3.ZeroExt(1, self.f32))))[0]
        return struct.unpack('<d', struct.pack('<Q', E.concretize(z3.ZeroExt(1, self.b64))))[0]

    __float__ = _sx_concrete

    def __int__(self):
        return int(self._sx_concrete())
    __trunc__ = __int__

    def __hash__(self):
        return hash(self._sx_concrete())

    def __str__(self):
        if not E.peek:
            E.approximate('formatting of a symbolic float')
        E.peek += 1
        try:
            return str(self._sx_concrete())
        finally:
            E.peek -= 1
    __repr__ = __str__

    def __format__(self, spec):
        return format(float(str(self)), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return self._sx_concrete().is_integer()


def is_nan32(b):
    return z3.And(z3.Extract(30, 23, b) == 0xff, z3.Extract(22, 0, b) != 0)


def is_nan64(b):
    return z3.And(z3.Extract(62, 52, b) == 0x7ff, z3.Extract(51, 0, b) != 0)


def widen_bits(b):
    """IEEE single bits -> double bits (exact), written on bit-vectors."""
    s, e, m = z3.Extract(31, 31, b), z3.Extract(30, 23, b), z3.Extract(22, 0, b)
    z29 = z3.BitVecVal(0, 29)
    normal = z3.Concat(s, z3.ZeroExt(3, e) + z3.BitVecVal(1023 - 127, 11), m, z29)
    special = z3.Concat(s, z3.BitVecVal(0x7ff, 11), m, z29)
    zero = z3.Concat(s, z3.BitVecVal(0, 63))
    # subnormal single: value m * 2**-149, normalised in double
    sub = zero
    for i in range(23):  # highest set bit i of m
        frac = z3.Extract(51, 0, z3.ZeroExt(52 - 23, m) << z3.BitVecVal(52 - i, 52))
        sub = z3.If(z3.Extract(i, i, m) == 1, z3.Concat(s, z3.BitVecVal(i - 149 + 1023, 11), frac), sub)
    return z3.If(e == 0xff, special, z3.If(e == 0, sub, normal))


SYM_TYPES.update((SymInt, SymBool, SymNum, SymFloat))
