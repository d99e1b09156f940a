"""Translator self-check: the repository's tests under the rewritten modules, and the symbolic operators against Python's."""
import contextlib
import io
import operator
import os
import random
import sys
import types
import unittest
import z3
from . import core, loader, seq, cstruct, hooks
from .core import SymInt, SymBool


def repo_tests():
    loader.install()
    tests = os.path.join(loader.REPO, 'tests')
    sys.path.insert(0, tests)
    if not hasattr(unittest.TestCase, 'assertEquals'):
        unittest.TestCase.assertEquals = unittest.TestCase.assertEqual   # the name older interpreters have
    suite = unittest.TestSuite()
    bad_import = []
    for f in sorted(os.listdir(tests)):
        if f.startswith('test_') and f.endswith('.py'):
            try:
                suite.addTests(unittest.defaultTestLoader.loadTestsFromName(f[:-3]))
                for n, fn in sorted(vars(sys.modules[f[:-3]]).items()):
                    if n.startswith('test') and isinstance(fn, types.FunctionType) and not fn.__code__.co_argcount:
                        suite.addTest(unittest.FunctionTestCase(fn))
            except Exception as e:
                bad_import.append((f, repr(e)))
    with contextlib.redirect_stdout(io.StringIO()):
        r = unittest.TextTestRunner(stream=io.StringIO(), verbosity=0).run(suite)
    for t, tb in r.failures + r.errors:
        print('  rewritten code, test %s: %s' % (t, tb.strip().split('\n')[-1]))
    print('repository tests under the rewritten modules: %d run, %d failed, %d not importable %s'
          % (r.testsRun, len(r.failures) + len(r.errors), len(bad_import), bad_import or ''))
    return len(r.failures) + len(r.errors)


OPS = ['add', 'sub', 'mul', 'and_', 'or_', 'xor', 'floordiv', 'mod', 'lshift', 'rshift', 'lt', 'le', 'gt', 'ge', 'eq', 'ne',
       'truediv']


def operators():
    rnd = random.Random(7)
    bad = n = 0
    spans = [(0, 1), (0, 255), (-128, 127), (0, 65535), (-5, 3), (3, 9), (0, (1 << 64) - 1)]
    for _ in range(4000):
        op = rnd.choice(OPS)
        (al, ah), (bl, bh) = rnd.choice(spans), rnd.choice(spans)
        if op in ('lshift', 'rshift'):
            bl, bh = 0, 9
        mode = rnd.choice(('ss', 'si', 'is'))
        a, b = rnd.randint(al, ah), rnd.randint(bl, bh)
        if op == 'truediv' and (b == 0 or b & (b - 1) or abs(a) >= 1 << 53 or b < 0):
            b = 8
            mode = 'si'
            al, ah = 0, 65535
            a = rnd.randint(al, ah)
        eng = core.Engine()
        eng.solver.check()
        out = []

        def one():
            E = core.E

            def sym(name, v, lo, hi):
                x = z3.BitVec(name, core._width(lo, hi))
                E.assume(x == v)
                return SymInt(x, lo, hi)
            x = sym('a', a, al, ah) if mode[0] == 's' else a
            y = sym('b', b, bl, bh) if mode[1] == 's' else b
            try:
                r = getattr(operator, op)(x, y)
                if type(r) is SymInt:
                    v = E.eval_int(r.t)
                    out.append((v, r.lo <= v <= r.hi))
                elif type(r) is SymBool:
                    out.append((E.eval_bool(r.c), True))
                elif type(r) is core.SymNum:
                    out.append((E.eval_int(r.n.t) / (1 << r.k) if type(r.n) is SymInt else r.n / (1 << r.k), True))
                else:
                    out.append((r, True))
            except (ZeroDivisionError, ValueError) as e:
                out.append((type(e), True))
        eng.explore(one)
        try:
            want = getattr(operator, op)(a, b)
        except (ZeroDivisionError, ValueError) as e:
            want = type(e)
        n += 1
        if len(out) != 1 or out[0] != (want, True):
            bad += 1
            print('  operator %s %r %r (%s): model %r, Python %r' % (op, a, b, mode, out, want))
    print('symbolic operators against Python: %d compared, %d differ' % (n, bad))
    return bad


def methods():
    """str/bytes/bytearray models against Python on random arguments."""
    rnd = random.Random(11)
    bad = n = 0

    def both(name, real, model, *args, **kw):
        nonlocal bad, n
        n += 1
        try:
            a = getattr(real, name)(*args, **kw)
        except Exception as e:
            a = type(e)
        try:
            b = getattr(model, name)(*args, **kw)
        except Exception as e:
            b = type(e)

        def flat(x):
            if hasattr(x, '_sx_concrete'):
                return x._sx_concrete()
            if isinstance(x, (list, tuple)):
                return type(x)(flat(y) for y in x)
            return x
        a2, b2 = flat(a), flat(b)
        if a2 != b2 or (not isinstance(a2, type) and type(a2) is not type(b2) and
                        not (isinstance(a2, int) and isinstance(b2, int))):
            bad += 1
            print('  %s.%s%r %r: model %r, Python %r' % (type(real).__name__, name, args, real, b2, a2))
    letters = ' ab\x00c '
    for _ in range(3000):
        t = ''.join(rnd.choice(letters) for _ in range(rnd.randrange(6)))
        b = t.encode('latin-1')
        sub = ''.join(rnd.choice(letters) for _ in range(rnd.randrange(3)))
        kind = rnd.randrange(3)
        real = (t, b, bytearray(b))[kind]
        e = [ord(c) for c in t]
        model = (seq.SymStr, seq.SymBytes, seq.SymByteArray)[kind](list(e))
        arg = sub if kind == 0 else sub.encode('latin-1')
        name = rnd.choice(['strip', 'lstrip', 'rstrip', 'find', 'rfind', 'index', 'count', 'startswith', 'endswith',
                           'replace', 'split', 'ljust', 'rjust', 'center', 'upper', 'lower', 'partition', 'join',
                           'zfill', '__add__', '__mul__', '__getitem__', '__contains__', '__len__', 'isdigit'])
        if name in ('ljust', 'rjust', 'center'):
            both(name, real, model, rnd.randrange(8), (arg + arg[:0] + (b'.' if kind else '.'))[:1])
        elif name == 'zfill':
            both(name, real, model, rnd.randrange(8))
        elif name in ('upper', 'lower', '__len__', 'isdigit'):
            both(name, real, model)
        elif name == 'replace':
            both(name, real, model, arg, arg + arg)
        elif name == 'join':
            both(name, real, model, [arg, arg])
        elif name == '__mul__':
            both(name, real, model, rnd.randrange(-1, 3))
        elif name == '__getitem__':
            both(name, real, model, rnd.choice([rnd.randrange(-7, 7), slice(rnd.randrange(-7, 7), rnd.randrange(-7, 7),
                                                                            rnd.choice([None, 1, 2, -1]))]))
        elif name in ('strip', 'lstrip', 'rstrip') and rnd.random() < .5:
            both(name, real, model)
        else:
            both(name, real, model, arg)
        if kind == 2:
            # mutations
            r2, m2 = bytearray(b), seq.SymByteArray(list(e))
            i, j = rnd.randrange(-7, 8), rnd.randrange(-7, 8)
            what = rnd.randrange(7)
            new = bytes(rnd.randrange(256) for _ in range(rnd.randrange(4)))

            def mutate(x):
                if what == 0:
                    x[i:j] = new
                elif what == 1:
                    del x[i:j]
                elif what == 2:
                    x.insert(i, 7)
                elif what == 3:
                    x.extend(new)
                elif what == 4:
                    x += new
                elif what == 5:
                    x[i] = 9
                else:
                    x.pop(i)
                return x
            n += 1
            try:
                w = bytes(mutate(r2))
            except Exception as ex:
                w = type(ex)
            try:
                g = bytes(x if type(x) is int else -1 for x in mutate(m2).e)
            except Exception as ex:
                g = type(ex)
            if w != g:
                bad += 1
                print('  bytearray mutation %d: model %r, Python %r' % (what, g, w))
    print('text and byte models against Python: %d compared, %d differ' % (n, bad))
    return bad


def digits():
    """Numbers as text in bases 2, 8 and 16 and back, on the rewritten source of small functions."""
    src = """
def f0(x): return '{:08b}'.format(x)
def f1(x): return '{0:b}{1:02x}'.format(x, x)
def f2(x): return bin(x)
def f3(x): return bin(x)[2:].zfill(8)
def f4(x): return len(bin(x)) - 2
def f5(x): return format(x, '04X')
def f6(x): return f'{x:03o}|{x:x}'
def f7(x): return int(bin(x)[2:].rjust(12, '0')[::-1], 2)
def f8(x): return int('{:08b}'.format(x & 255)[2:6], 2)
def f9(x): return hex(x) + oct(x)
def f10(x): return int('{:04x}'.format(x)[1:], 16) + int(hex(x), 16)
def f11(x): return bin(x).count('1')
def f12(x): return ''.join(reversed('{:010b}'.format(x)))
def f13(x): return str.zfill(format(x, 'b'), 9)
def f14(x): return int(bin(x), 2)
def f15(x): return '{:b}'.format(x - 3)
def f16(x): return int(format(x, 'x'), 2)
"""
    plain, rewritten = {}, loader.load_source(src, 'infi.instruct._selftest')
    exec(compile(src, 'plain', 'exec'), plain)
    rnd = random.Random(3)
    n = bad = 0
    for name in sorted(k for k in plain if k[0] == 'f' and k[1:].isdigit()):
        for lo, hi in ((0, 255), (0, 1000), (-9, 70)):
            for v in [lo, hi] + [rnd.randint(lo, hi) for _ in range(4)]:
                eng = core.Engine()
                eng.solver.check()
                out = []

                def one():
                    x = z3.BitVec('x', core._width(lo, hi))
                    core.E.assume(x == v)
                    try:
                        r = rewritten[name](SymInt(x, lo, hi))
                        out.append(r._sx_concrete() if type(r) is seq.SymStr else core.conc(r))
                    except ValueError as e:
                        out.append(type(e))
                eng.explore(one)
                try:
                    want = plain[name](v)
                except ValueError as e:
                    want = type(e)
                n += 1
                if out != [want]:
                    bad += 1
                    print('  digits %s(%d) of %d..%d: model %r, Python %r' % (name, v, lo, hi, out, want))
    print('numbers as text against Python: %d compared, %d differ' % (n, bad))
    return bad


def json_model():
    """props/jsonmodel.py against the standard library"""
    import json
    import os
    import random
    import sys
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props'))
    import jsonmodel
    rnd = random.Random(5)
    n = bad = 0

    def doc(d):
        k = rnd.randrange(8 if d else 5)
        if k == 0:
            return rnd.choice([None, True, False, 1.5, -0.0])
        if k in (1, 2):
            return rnd.randrange(-10 ** rnd.randrange(12), 10 ** rnd.randrange(12))
        if k in (3, 4):
            return ''.join(chr(rnd.choice([rnd.randrange(128), rnd.randrange(0xd000), rnd.randrange(0x10000, 0x110000), 34, 92]))
                           for _ in range(rnd.randrange(6)))
        if k == 5:
            return [doc(d - 1) for _ in range(rnd.randrange(3))]
        return dict((doc(0) if rnd.random() < 0 else 'k%d"' % i, doc(d - 1)) for i in range(rnd.randrange(3)))

    def run(f, x):
        try:
            return repr(f(x))
        except ValueError:
            return 'ValueError'
    for _ in range(1500):
        d = doc(3)
        t = json.dumps(d)
        n += 2
        if jsonmodel.dumps(d) != t or run(jsonmodel.loads, t) != run(json.loads, t):
            bad += 1
            print('  json: %r' % (d,))
        c = list(t)
        for _ in range(rnd.randrange(3)):
            c[rnd.randrange(len(c)):rnd.randrange(len(c) + 1)] = [rnd.choice('0123 -+.eE\\u"[]{},:ntf\n\t/x')]
        t = ''.join(c)
        if run(jsonmodel.loads, t) != run(json.loads, t):
            bad += 1
            print('  json text: %r' % (t,), run(jsonmodel.loads, t), run(json.loads, t))
    print('json model against the standard library: %d compared, %d differ' % (2 * n, bad))
    return bad


def main():
    bad = operators() + methods() + digits() + json_model()
    bad += repo_tests()
    # a mismatch is reported, not fatal: every verdict is confirmed on the real code anyway
    print('selftest: %s' % ('ok' if not bad else '%d differences' % bad))
    return 0
