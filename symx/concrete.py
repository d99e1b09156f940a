"""Runs harnesses on concrete values against the real, unmodified code (PyPy or CPython; no dependencies).

usage: concrete.py JOBS.json OUT.json     JOBS: {"verif":..., "cases": [{"prop","tier","ob","values","timeout"}]}
   or: concrete.py REPLAY.json            prints what happened; exit 1 if the violation shows.
"""
import importlib
import json
import os
import signal
import struct
import sys
import traceback


class Outcome(object):
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def name(self):
        return 'ok' if self.ok else type(self.exc).__name__


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class TimedOut(BaseException):
    pass


def bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def deep_eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a == b or bits(a) == bits(b)
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(deep_eq(a[k], b[k]) for k in a)
    if type(a) is not type(b):
        return False
    return bool(a == b)


def canon(x):
    if x is None:
        return ['n']
    if isinstance(x, bool):
        return ['b', x]
    if isinstance(x, int):
        return ['i', str(int(x))]
    if isinstance(x, float):
        return ['f', 'nan' if x != x else struct.pack('>d', x).hex()]
    if isinstance(x, (bytes, bytearray)):
        return ['y', bytes(x).hex()]
    if isinstance(x, str):
        return ['s', [ord(c) for c in x]]
    if isinstance(x, (list, tuple)):
        return ['l', [canon(y) for y in x]]
    if isinstance(x, dict):
        return ['d', sorted([[canon(k), canon(v)] for k, v in x.items()])]
    if isinstance(x, BaseException):
        return ['x', type(x).__name__]
    return ['o', type(x).__name__]


class ConcreteAPI(object):
    symbolic = False

    def __init__(self, values, verbose=False):
        self.values = values
        self.failed = []
        self.passed = 0
        self.observations = []
        self.verbose = verbose
        self.once_cache = {}

    def _get(self, name, default):
        v = self.values.get(name, default)
        if self.verbose:
            print('  input %s = %r' % (name, v))
        return v

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        return int(v)

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return list(options)[self.int(name, 0, 0)]

    def bytes(self, name, n):
        return bytes(bytearray.fromhex(self._get(name, '00' * n)))

    def bytearray(self, name, n):
        return bytearray(self.bytes(name, n))

    def str(self, name, n, lo=0, hi=127):
        return ''.join(map(chr, self._get(name, [lo] * n)))

    def f64(self, name):
        return struct.unpack('<d', struct.pack('<Q', self._get(name, 0)))[0]

    def f32(self, name):
        return struct.unpack('<f', struct.pack('<I', self._get(name, 0)))[0]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label):
        if cond:
            self.passed += 1
        else:
            self.failed.append(label)
            if self.verbose:
                print('  FAILED: %s' % label)
        return bool(cond)

    def fail(self, label):
        self.check(False, label)

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return bool((not a) or b)

    def ite(self, c, a, b):
        return a if c else b

    def conc(self, x):
        return x

    def eq(self, a, b):
        return deep_eq(a, b)

    def is_nan(self, x):
        return x != x

    def float_bits(self, x, size):
        return struct.unpack('<I' if size == 4 else '<Q', struct.pack('<f' if size == 4 else '<d', x))[0]

    def outcome(self, fn, *a, **k):
        try:
            return Outcome(True, fn(*a, **k), None)
        except Exception as e:
            if self.verbose:
                print('  raised: %s: %s' % (type(e).__name__, str(e).strip().split('\n')[0][:300]))
            return Outcome(False, None, e)

    def observe(self, label, value):
        self.observations.append([label, canon(value)])
        if self.verbose:
            print('  %s: %r' % (label, value))

    def reach(self, label):
        pass

    def once(self, key, fn, *a):
        if key not in self.once_cache:
            self.once_cache[key] = fn(*a)
        return self.once_cache[key]

    def json_model(self, model):
        pass

    def text_mode(self):
        pass

    def tick_limit(self, n):
        pass


def find(prop, tier, ob):
    mod = importlib.import_module('props.' + prop)
    for t in (tier, 'quick', 'thorough'):
        for o in mod.obligations(t):
            if o.name == ob:
                return o
    raise SystemExit('no obligation %s in %s' % (ob, prop))


def _alarm(sig, frame):
    raise TimedOut()


def run_load(case, verbose=False):
    """Do the declarations of a harness raise inside the code under test?"""
    r = dict(status='ok', failed=[], passed=[], observations=[])
    try:
        importlib.import_module('props.' + case['prop']).obligations(case['tier'])
    except (ImportError, NameError, SyntaxError):
        r['status'] = 'error'
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        inside = (os.sep + os.path.join('infi', 'instruct') + os.sep) in tb.tb_frame.f_code.co_filename
        renamed = isinstance(e, (AttributeError, TypeError)) and not inside
        r.update(status='exception' if inside and not renamed else 'error', exception=type(e).__name__, traceback=traceback.format_exc()[-3000:])
        if verbose:
            traceback.print_exc()
    return r


def run_case(case, verbose=False):
    if case.get('load'):
        return run_load(case, verbose)
    o = find(case['prop'], case['tier'], case['ob'])
    S = ConcreteAPI(case['values'], verbose)
    r = dict(status='ok')
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(case.get('timeout', 20)))
    try:
        o.fn(S, o.cfg)
    except AssumeFailed:
        r['status'] = 'assume'
    except TimedOut:
        r['status'] = 'timeout'
    except Exception as e:
        r['status'] = 'exception'
        r['exception'] = type(e).__name__
        r['traceback'] = traceback.format_exc()[-3000:]
        if verbose:
            traceback.print_exc()
    finally:
        signal.alarm(0)
    if S.failed and r['status'] in ('ok', 'exception', 'assume'):
        r['status'] = 'fail'
    r['failed'] = S.failed
    r['passed'] = S.passed
    r['observations'] = S.observations
    return r


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, verif)
    repo = os.environ.get('REPO', '/repo')
    if repo != '/repo':
        sys.path[:] = [repo + '/src'] + [p for p in sys.path if os.path.realpath(p) != '/repo/src']
        import infi
        infi.__path__ = [repo + '/src/infi'] + [p for p in infi.__path__ if not p.startswith('/repo/')]
        import infi.instruct.buffer.buffer as b
        assert b.__file__.startswith(repo), b.__file__
    sys.setrecursionlimit(3000)
    if 'cases' not in job:
        print('replaying %s / %s on the real code in %s' % (job['prop'], job.get('ob', 'declarations'), repo))
        r = run_case(job, True)
        print('result: %s %s' % (r['status'], r.get('failed') or ''))
        return 1 if r['status'] in ('fail', 'exception', 'timeout') else 0
    out = []
    for c in job['cases']:
        try:
            out.append(run_case(c))
        except SystemExit:
            raise
        except BaseException:
            out.append(dict(status='error', traceback=traceback.format_exc()[-3000:]))
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    return 0


if __name__ == '__main__':
    sys.exit(main())
