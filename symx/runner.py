"""Runs the obligations of one property: symbolic exploration in worker processes, replay of every counterexample on the
unmodified code, evidence and verdict."""
import json
import multiprocessing
import os
import random
import resource
import subprocess
import sys
import threading
import time
import traceback
from . import core, hooks, loader
from .api import SymAPI, canon

VERIF = loader.VERIF
PYPY = '/opt/venv-pypy/bin/python'
CPY = '/opt/venv/bin/python'
OUT = os.environ.get('SYMX_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
WORKERS = int(os.environ.get('SYMX_WORKERS', '8'))


def real_python():
    for p in (PYPY, CPY):
        if os.path.exists(p):
            return p
    return sys.executable


def real_env():
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', REPO=loader.REPO)
    env.pop('PYTHONPATH', None)
    return env


def replay_cases(cases, timeout=120):
    """Runs cases (dicts) on the real code in one fresh interpreter; list of results or None."""
    import tempfile
    d = tempfile.mkdtemp(prefix='symx')
    a, b = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
    try:
        with open(a, 'w') as f:
            json.dump(dict(cases=cases), f)
        try:
            subprocess.run([real_python(), '-W', 'ignore', os.path.join(VERIF, 'symx', 'concrete.py'), a, b],
                           env=real_env(), cwd=VERIF, timeout=timeout, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            return None
        if not os.path.exists(b):
            return None
        with open(b) as f:
            return json.load(f)
    finally:
        for p in (a, b):
            if os.path.exists(p):
                os.unlink(p)
        os.rmdir(d)


def not_loaded(prop, tier, t0):
    """The declarations of the harness (valid classes and fields) were refused: by the real code too?"""
    r = replay_cases([dict(prop=prop, tier=tier, load=True)], 60)
    if not r or r[0]['status'] != 'exception':
        print('INCONCLUSIVE property=%s the harness could not be loaded' % prop)
        return 2
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, 'replay-%s-load.json' % prop)
    with open(path, 'w') as f:
        json.dump(dict(prop=prop, tier=tier, load=True, label='valid declarations are refused', replay=r[0],
                       how='%s -W ignore symx/concrete.py %s' % (PYPY, os.path.relpath(path, VERIF))), f, indent=1)
    with open(os.path.join(OUT, prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
                       coverage=dict(states=1, transitions=1, traces_validated_against_impl=1,
                                     samples=[dict(declarations=r[0]['exception'])],
                                     rule='only the declarations of the harness were run: the code refuses them'),
                       assumptions=BASE_ASSUMPTIONS, violations=1, wall_s=round(time.time() - t0, 2)), f, indent=1)
    print('  valid declarations are refused: %s' % r[0]['exception'])
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def find(prop, tier, name):
    for o in loader.load('props.' + prop).obligations(tier):
        if o.name == name:
            return o
    raise RuntimeError('no obligation %s' % name)


def violates(r):
    return r['status'] in ('fail', 'exception')


class Job(object):
    """One obligation, explored in this process."""

    def __init__(self, prop, tier, name, budget):
        self.prop, self.tier, self.name, self.budget = prop, tier, name, budget
        self.known = load_known(prop)
        self.res = dict(name=name, violations=[], known=[], mismatches=[], witnesses=[])
        self.replays = 0

    def case(self, values, timeout=20):
        return dict(prop=self.prop, tier=self.tier, ob=self.name, values=values, timeout=timeout)

    def on_cex(self, label, values):
        if self.replays >= 6:
            self.res['mismatches'].append(dict(label=label, values=values, why='not replayed'))
            return True
        self.replays += 1
        r = replay_cases([self.case(values)], 60)
        r = r[0] if r else dict(status='error')
        item = dict(label=label, values=values, replay=dict((k, r.get(k)) for k in
                                                            ('status', 'failed', 'exception', 'traceback')))
        if label == core.TERMINATION and not violates(r):
            if r['status'] != 'timeout':
                return self.replays >= 3
            self.res['violations'].append(item)
            return True
        if violates(r):
            for ob, lab in self.known:
                if ob == self.name and lab in (r.get('failed') or ['unexpected exception %s' % r.get('exception')]):
                    if not any(k['label'] == lab for k in self.res['known']):
                        self.res['known'].append(dict(item, label=lab))
                    rest = [f for f in r.get('failed') or [] if (ob, f) not in self.known]
                    if not rest:
                        return False
            self.res['violations'].append(item)
            return True
        self.res['mismatches'].append(item)
        return False

    def run(self, fresh, budget):
        opts = find(self.prop, self.tier, self.name).opts
        eng = core.Engine(max_paths=opts.get('max_paths', 200000), deadline=time.time() + budget,
                          query_timeout_ms=int(1000 * opts.get('query_s', 20)),
                          conc_limit=opts.get('conc', 300), step_limit=opts.get('steps', 200000))
        eng.on_cex = self.on_cex
        ob = find(self.prop, self.tier, self.name)
        once = None if fresh else {}
        S = SymAPI(eng, once)
        hooks.FUNCS.clear()
        hooks._JSON.model = None
        cur = [ob]
        rnd = random.Random(1)
        wit, seen = self.res['witnesses'], [0]
        nwit = opts.get('witnesses', 4)

        def body():
            if fresh:
                loader.forget()
                cur[0] = find(self.prop, self.tier, self.name)
            cur[0].fn(S, cur[0].cfg)

        def on_path(e):
            seen[0] += 1
            if e.approx_path:
                return
            w = None
            if len(wit) < nwit:
                wit.append(w)
                k = len(wit) - 1
            else:
                k = rnd.randrange(seen[0])
                if k >= nwit:
                    return
            wit[k] = dict(values=e.values(), observations=[[l, canon(v, e)] for l, v in e.observations])

        wit[:] = []
        diverged = None
        try:
            eng.explore(body, on_path)
        except core.Diverged:
            diverged = 'diverged'
            core.set_engine(None)
        return eng, diverged

    def go(self):
        t0 = time.time()
        res = self.res
        eng, div = self.run(False, self.budget)
        if div or (res['mismatches'] and not res['violations']):
            first = list(res['mismatches'])
            res['mismatches'][:] = []
            self.replays = 0
            left = max(5, self.budget - (time.time() - t0))
            eng, div = self.run(True, left)
            res['fresh'] = True
            if first and not res['mismatches'] and not res['violations']:
                res['retried'] = [m['label'] for m in first]
        if div:
            res['diverged'] = True
        # paths re-run on the real code
        res['validated'] = 0
        wits = [w for w in res['witnesses'] if w]
        if wits and not res['violations']:
            out = replay_cases([self.case(w['values'], 20) for w in wits], 90)
            for w, r in zip(wits, out or []):
                if r['status'] != 'ok' or r['observations'] != w['observations']:
                    if violates(r) and not self._is_known(r):
                        # the real code breaks the property on an input the model thought fine
                        res['violations'].append(dict(label=(r.get('failed') or [r.get('exception')])[0],
                                                      values=w['values'], replay=r))
                    elif not violates(r):
                        res['mismatches'].append(dict(label='path witness', values=w['values'], status=r['status'],
                                                      model=w['observations'], real=r['observations']))
                else:
                    res['validated'] += 1
            if out is None:
                res['mismatches'].append(dict(label='replay did not run'))
        res.update(paths=eng.paths, branches=eng.branches, queries=eng.queries, solver_s=round(eng.solver_s, 3),
                   assertions=eng.checks, evaluated=eng.evaluated, checked_paths=eng.checked_paths, infeasible=eng.infeasible, cut=eng.cut,
                   unknowns=eng.unknowns[:20], incomplete=sorted(eng.incomplete), approx=sorted(eng.approx),
                   reached=eng.reached, wall_s=round(time.time() - t0, 2), functions=dict(hooks.FUNCS),
                   sample=wits[:1])
        return res

    def _is_known(self, r):
        labs = r.get('failed') or ['unexpected exception %s' % r.get('exception')]
        return all((self.name, l) in self.known for l in labs)


def _work(conn, prop, tier, name, budget, mem_gb):
    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    sys.setrecursionlimit(20000)
    threading.stack_size(512 << 20)
    box = []

    def run():
        try:
            box.append(Job(prop, tier, name, budget).go())
        except BaseException:
            box.append(dict(name=name, error=traceback.format_exc()[-3000:]))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    conn.send(json.dumps(box[0], default=str))
    conn.close()
    os._exit(0)


def load_known(prop):
    """known_findings.txt: lines 'known: property=<id> obligation=<name> label=<assertion>  # what fails'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('known: '):
                import re
                m = re.match(r'known: property=(\S+) obligation=(\S+) label="([^"]*)"', line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    return out


def run_property(prop, tier, only=None, verbose=False):
    t0 = time.time()
    loader.install()
    try:
        mod = loader.load('props.' + prop)
        obs = [o for o in mod.obligations(tier) if only is None or only in o.name]
    except Exception:
        # the code under test does not even import: the tests would notice; nothing can be decided
        traceback.print_exc()
        return not_loaded(prop, tier, t0)
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), 'obligation names must be unique'
    limit = getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 700)
    per = getattr(mod, 'PER', {}).get(tier, 90 if tier == 'quick' else 400)
    stop_at = t0 + limit
    order = sorted(range(len(obs)), key=lambda i: -obs[i].opts.get('cost', 1))
    todo = [obs[i].name for i in order]
    budget = dict((o.name, o.opts.get('time', per)) for o in obs)
    ctx = multiprocessing.get_context('fork')
    running, results = [], {}
    sys.stdout.flush()
    violated = False
    while todo or running:
        while todo and len(running) < WORKERS and not violated:
            n = todo.pop(0)
            left = stop_at - time.time()
            if left < 1:
                results[n] = dict(name=n, skipped=True)
                continue
            b = min(budget[n], max(left, 3))
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(w, prop, tier, n, b, 10 if tier == 'thorough' else 6))
            p.start()
            w.close()
            running.append((n, p, r, time.time() + b + 60))
        if violated:
            todo = []
        ready = multiprocessing.connection.wait([r for _, _, r, _ in running], 0.5) if running else []
        for it in list(running):
            n, p, r, kill_at = it
            if r in ready:
                try:
                    results[n] = json.loads(r.recv())
                except (EOFError, OSError):
                    results[n] = dict(name=n, error='worker died')
                p.join()
                running.remove(it)
                if verbose:
                    show(results[n])
                if results[n].get('violations'):
                    violated = True
            elif time.time() > kill_at or (violated and time.time() > t0 + 5):
                p.terminate()
                p.join()
                running.remove(it)
                results[n] = dict(name=n, error='killed (time)') if not violated else dict(name=n, skipped=True)
    return report(prop, tier, mod, obs, results, t0)


def show(r):
    print('  %-44s %s' % (r['name'], r.get('error') or (
        'skipped' if r.get('skipped') else 'paths %(paths)d checks %(assertions)d q %(queries)d solver %(solver_s).1f '
        'wall %(wall_s).1f validated %(validated)d' % r)))
    for k in ('violations', 'mismatches', 'known', 'unknowns', 'incomplete', 'approx', 'diverged', 'fresh', 'retried'):
        if r.get(k):
            print('      %s: %s' % (k, str(r[k])[:1500]))
    if 'paths' in r and not r['checked_paths'] and not r['violations']:
        print('      VACUOUS')
    sys.stdout.flush()


def report(prop, tier, mod, obs, results, t0):
    os.makedirs(OUT, exist_ok=True)
    rs = [results[o.name] for o in obs if o.name in results]
    done = [r for r in rs if 'paths' in r]
    problems = []
    for r in rs:
        if r.get('error'):
            problems.append((r['name'], 'error: ' + r['error'].strip().split('\n')[-1]))
        elif r.get('skipped'):
            problems.append((r['name'], 'not explored (time budget of this run)'))
        else:
            if r['mismatches']:
                problems.append((r['name'], 'model and real code disagree: %s' % r['mismatches'][0]['label']))
            if r.get('diverged'):
                problems.append((r['name'], 'execution is not a function of the inputs'))
            if not r['checked_paths'] and not r['violations']:
                problems.append((r['name'], 'no path reached an assertion'))
            for u in r['unknowns'][:1]:
                problems.append((r['name'], 'solver gave no answer for: %s' % u))
            for i in r['incomplete']:
                problems.append((r['name'], i))
    opts = dict((o.name, o) for o in obs)
    violations = [(r['name'], v) for r in done for v in r['violations']]
    known = [(r['name'], k) for r in done for k in r['known']]
    funcs = {}
    for r in done:
        for k, v in r['functions'].items():
            if k.startswith('infi.instruct'):
                funcs[k] = funcs.get(k, 0) + v
    samples = []
    for r in done:
        for s in r['sample']:
            samples.append(dict(obligation=r['name'], inputs=s['values'], observed=s['observations']))
        if len(samples) >= 6:
            break
    if not samples:
        samples = [dict(obligation=r['name'], paths=r['paths']) for r in done[:4]]
    rep = []
    for n, v in violations:
        path = os.path.join(OUT, 'replay-%s-%s.json' % (prop, ''.join(c if c.isalnum() or c in '-_.' else '_'
                                                                       for c in n)[:80]))
        with open(path, 'w') as f:
            json.dump(dict(prop=prop, tier=tier, ob=n, values=v['values'], timeout=30, label=v['label'],
                           replay=v['replay'],
                           how='%s -W ignore symx/concrete.py %s' % (PYPY, os.path.relpath(path, VERIF))), f, indent=1)
        rep.append((n, v, path))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=sum(r['paths'] for r in done), transitions=sum(r['branches'] for r in done),
                            traces_validated_against_impl=sum(r['validated'] for r in done), samples=samples,
                            rule='state = completed symbolic path of the real functions; transition = branch decided '
                                 'over the symbolic inputs',
                            obligations=len(obs),
                            discharged=sum(1 for r in done if r['checked_paths'] and not r['violations'] and
                                           not r['unknowns'] and not r['incomplete'] and not r['mismatches']),
                            assertions_decided=sum(r['evaluated'] for r in done),
                            assertions_needing_the_solver=sum(r['assertions'] for r in done),
                            paths_with_assertions=sum(r['checked_paths'] for r in done),
                            solver_queries=sum(r['queries'] for r in done),
                            solver_s=round(sum(r['solver_s'] for r in done), 2),
                            functions_encoded=sorted(funcs), bounds=getattr(mod, 'BOUNDS', ''),
                            per_obligation=[dict(name=r['name'], paths=r['paths'], assertions=r['evaluated'],
                                                 solver_assertions=r['assertions'], queries=r['queries'], solver_s=r['solver_s'], wall_s=r['wall_s'],
                                                 validated=r['validated'], approx=r['approx'],
                                                 incomplete=r['incomplete'], about=opts[r['name']].about)
                                            for r in done],
                            inconclusive=['%s: %s' % p for p in problems], exhaustive=not problems),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + BASE_ASSUMPTIONS,
              violations=len(violations), wall_s=round(time.time() - t0, 2))
    with open(os.path.join(OUT, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, k in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, n, k['label']))
    for n, w in problems[:20]:
        print('INCONCLUSIVE property=%s %s: %s' % (prop, n, w))
    print('%s %s: %d obligations, %d paths, %d assertions decided (%d by a query), %d queries (%.1f s solver), %d paths re-run on the '
          'real code, %.1f s' % (prop, tier, len(obs), ev['coverage']['states'], ev['coverage']['assertions_decided'],
                                 ev['coverage']['assertions_needing_the_solver'],
                                 ev['coverage']['solver_queries'], ev['coverage']['solver_s'],
                                 ev['coverage']['traces_validated_against_impl'], ev['wall_s']))
    for n, v, path in rep:
        print('  %s: %s  inputs %s' % (n, v['label'], json.dumps(v['values'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if rep:
        return 1
    bad = set(n for n, w in problems)
    if obs and len(bad) * 2 > len(obs):
        return 2
    return 0


BASE_ASSUMPTIONS = [
    'CPython 3.12 semantics of the interpreter running the rewritten modules stand for those of the interpreter in use '
    '(path witnesses are re-run on PyPy 3.9)',
    'struct, json, io.BytesIO, bytes, bytearray, str and int are replaced by models in symx/ where they meet symbolic '
    'values; infi.exceptools and six run as they are',
]
