"""Runner: explores every harness of a property, decides its obligations,
replays counterexamples and path witnesses on unpatched flavio, writes evidence."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
from .adapt import interface_changed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')    # the variable is for development only


class Harness:
    def __init__(self, fn, name, tier='quick', time=60, max_paths=300, objects=True, points=2, branch_ms=1500,
                 z3_ms=3000, replay_paths=40, bounds='', crosscheck=True):
        self.fn = fn
        self.name = name
        self.tier = tier
        self.time = time
        self.max_paths = max_paths
        self.objects = objects
        self.points = points
        self.branch_ms = branch_ms
        self.z3_ms = z3_ms
        self.replay_paths = replay_paths
        self.bounds = bounds
        self.doc = (fn.__doc__ or '').strip()


_registry = {}


def harness(name=None, **kw):
    def dec(fn):
        h = Harness(fn, name or fn.__name__, **kw)
        _registry.setdefault(fn.__module__, []).append(h)
        return fn
    return dec


def add_harness(module, fn, name, **kw):
    h = Harness(fn, name, **kw)
    _registry.setdefault(module, []).append(h)


# ---------------------------------------------------------------- replay child

class Replayer:
    """forked before the numeric names are replaced: runs plain flavio"""

    def __init__(self, fn, seed):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self._serve(fn, seed, os.fdopen(r1, 'r'), os.fdopen(w2, 'w'))
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.w = os.fdopen(w1, 'w')
        self.r = os.fdopen(r2, 'r')

    def _serve(self, fn, seed, inp, out):
        import numpy as np
        from .concrete import run_concrete
        for line in inp:
            job = json.loads(line)
            try:
                random.seed(seed)
                np.random.seed(seed)
            except Exception:
                pass
            res = run_concrete(fn, job['values'], job['choices'], seed, job.get('tol', 1e-6))
            res['results'] = [list(x) for x in res['results']]
            out.write(json.dumps(res, default=str) + '\n')
            out.flush()

    def run(self, values, choices, tol=1e-6):
        self.w.write(json.dumps({'values': values, 'choices': choices, 'tol': tol}) + '\n')
        self.w.flush()
        line = self.r.readline()
        if not line:
            return {'dead': True, 'results': [], 'exc': None, 'assume': False}
        return json.loads(line)

    def close(self):
        try:
            self.w.close()
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except Exception:
            pass


# ---------------------------------------------------------------- one harness

def watch_functions(seen):
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'vfuncs')
    except ValueError:
        pass

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + '/'):
            seen.add('%s:%s' % (f[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def run_harness(h, seed, tier, budget):
    from . import symnp, solver
    from .explore import Explorer, Decider
    from . import expr as E
    t0 = time.time()
    deadline = t0 + budget
    rep = Replayer(h.fn, seed)
    funcs = set()
    watch_functions(funcs)
    undo = symnp.install()
    out = {'harness': h.name, 'doc': h.doc, 'bounds': h.bounds, 'violations': [], 'inconclusive': [],
           'obligations': 0, 'discharged': 0, 'how': {}, 'paths': 0, 'unsupported_paths': 0, 'replays': 0,
           'replayed_checks': 0, 'samples': [], 'encoding_mismatch': [], 'points_off_path': 0}
    ex = Explorer(h.fn, seed=seed, max_paths=h.max_paths * (4 if tier == 'thorough' else 1), deadline=t0 + budget * 0.55,
                  branch_ms=h.branch_ms)
    ex.objects = h.objects
    paths = ex.run()
    sys.monitoring.set_events(3, 0)
    out['explore_s'] = round(time.time() - t0, 2)
    z3_ms = h.z3_ms * (8 if tier == 'thorough' else 1)
    dec = Decider(ex, deadline=deadline, z3_ms=z3_ms, crosscheck=tier == 'thorough')
    out['paths'] = len(paths)
    out['forks'] = ex.forks
    if ex.incomplete:
        out['inconclusive'].append('exploration incomplete: ' + ex.incomplete)
    viol = []
    npts = h.points + (3 if tier == 'thorough' else 0)
    nrep = 0
    reached = False
    seen_cex = {}

    def add_violation(label, p, path, detail, kind):
        key = (label, json.dumps(path.choices, sort_keys=True))
        if key in seen_cex:
            return
        seen_cex[key] = 1
        viol.append({'label': label, 'values': {k: p[k] for k in sorted(p)}, 'choices': path.choices,
                     'detail': detail[:600], 'kind': kind})

    def replay(p, path, tol=1e-6):
        out['replays'] += 1
        return rep.run(p, path.choices, tol)

    for path in paths:
        if time.time() > deadline:
            out['inconclusive'].append('time: %d paths not decided' % (len(paths) - paths.index(path)))
            break
        path.points = dec.find_points(path.conds, n=npts)
        if path.points:
            reached = True
        if path.unsupported:
            out['unsupported_paths'] += 1
            out['inconclusive'].append('path not encodable: ' + path.unsupported)
        if path.exc is not None:
            out['obligations'] += 1
            pts = path.points or dec.find_points(path.conds, n=1)
            hit = False
            for p in pts:
                r = replay(p, path)
                if r.get('exc') and r.get('assume', True):
                    add_violation('exception', p, path, r['exc'] + ' | ' + r.get('tb', '')[-400:], 'unexpected exception')
                    hit = True
                    break
            if not hit:
                from . import solver as S
                if S.check(path.conds, z3_ms, 'path') == 'unsat':
                    out['discharged'] += 1
                else:
                    out['inconclusive'].append('exception on a path, not reproduced: %r' % (path.exc,))
        # obligations
        for o in path.obls:
            out['obligations'] += 1
            if time.time() > deadline:
                o.status, o.how = 'unknown', 'time'
            else:
                dec.decide(o)
            out['how'][o.how] = out['how'].get(o.how, 0) + 1
            if o.status == 'proved':
                out['discharged'] += 1
            elif o.status == 'cex':
                r = replay(o.point, path)
                bad = [x for x in r['results'] if not x[1]]
                same = [x for x in bad if x[0] == o.label or x[0] + '.im' == o.label]
                if (same or bad) and r.get('assume', True):
                    x = (same or bad)[0]
                    add_violation(x[0], o.point, path, x[2], 'solver counterexample')
                elif r.get('exc') and r.get('assume', True):
                    add_violation(o.label, o.point, path, r['exc'] + ' | ' + r.get('tb', '')[-400:], 'exception on a counterexample')
                else:
                    out['inconclusive'].append('counterexample not reproduced: %s %s' % (o.label, {k: v for k, v in list(o.point.items())[:6]}))
                    out['encoding_mismatch'].append(o.label)
            else:
                out['inconclusive'].append('undecided: %s (%s)' % (o.label, o.how))
        if len(out['samples']) < 2 and path.obls:
            o = path.obls[-1]
            out['samples'].append({'path_condition': [E.to_str(c, 4)[:160] for c in path.conds[:6]], 'choices': path.choices,
                                   'obligation': o.label, 'lhs': E.to_str(o.a, 4)[:200] if o.a is not None else (E.to_str(o.cond, 4)[:200] if o.cond is not None else ''),
                                   'decided': o.how})
        # witnesses of the path, on the real code (validates the encoding)
        doubtful = path.unsupported or path.exc is not None or any(o.status == 'unknown' for o in path.obls)
        if nrep < h.replay_paths * (5 if tier == 'thorough' else 3 if doubtful else 1) and time.time() < deadline:
            nrep += 1
            for p in path.points:
                r = replay(p, path)
                if r.get('dead'):
                    out['inconclusive'].append('replayer died')
                    break
                if not r.get('assume', True):
                    out['points_off_path'] += 1
                    continue
                out['replayed_checks'] += len(r['results'])
                bad = [x for x in r['results'] if not x[1]]
                if r.get('exc') or bad:
                    lab = bad[0][0] if bad else 'exception'
                    if (lab, json.dumps(path.choices, sort_keys=True)) in seen_cex:
                        break
                    # confirm at neighbouring points of the same path, with a wider tolerance
                    conf = 0
                    for q in [p] + [perturb(p, dec) for _ in range(3)]:
                        if q is not p and not dec.holds(path.conds, q):
                            continue
                        r2 = replay(q, path, 1e-5)
                        if not r2.get('assume', True):
                            continue
                        b2 = [x for x in r2['results'] if not x[1] and x[0] == lab]
                        if b2 or (not bad and r2.get('exc')):
                            conf += 1
                    if conf >= 2 or (conf == 1 and not p):
                        d = bad[0][2] if bad else r['exc'] + ' | ' + r.get('tb', '')[-400:]
                        add_violation(lab, p, path, d, 'witness replay')
                    else:
                        out['encoding_mismatch'].append(lab)
                        out['inconclusive'].append('witness replay differs once: ' + lab)
                    break
    out['reached'] = reached
    if not reached and not viol:
        out['inconclusive'].append('vacuous: no path witness')
    out['violations'] = viol
    out['functions'] = sorted(funcs)
    out['nonzero'] = sorted(ex.assumed_nonzero)[:12]
    out['inconclusive'] = compress(out['inconclusive'])
    out['solver'] = {'queries': solver.STATS.queries, 'time_s': round(solver.STATS.time, 3), 'results': solver.STATS.by,
                     'kinds': solver.STATS.kinds}
    out['vars'] = len(ex.vars)
    out['wall_s'] = round(time.time() - t0, 2)
    rep.close()
    return out


def perturb(p, dec):
    q = {}
    for k, v in p.items():
        lo, hi, s = dec.ex.vars.get(k, (None, None, None))
        w = v * (1 + dec.rng.uniform(-1e-3, 1e-3))
        if lo is not None and w < lo:
            w = v
        if hi is not None and w > hi:
            w = v
        q[k] = w
    return q


def compress(l):
    d = {}
    for x in l:
        d[x] = d.get(x, 0) + 1
    r = [x if n == 1 else '%s (x%d)' % (x, n) for x, n in d.items()]
    return r if len(r) <= 30 else r[:30] + ['... %d more' % (len(r) - 30)]


# ---------------------------------------------------------------- property

def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == pid]


def matches(k, h, v):
    import re
    if not re.fullmatch(k['harness'], h):
        return False
    if not re.fullmatch(k['label'], v['label']):
        return False
    for n, val in k.get('choices', {}).items():
        if v['choices'].get(n) != val:
            return False
    return True


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '7')))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, VERIF)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import flavio
    # modules which are not part of the package's own import: names of numerical libraries are replaced in loaded modules only
    for name in ('flavio.statistics.likelihood', 'flavio.io.instanceio', 'flavio.util', 'flavio.physics.ddecays.rge', 'flavio.physics.bdecays.lambdablambdagamma') + (('flavio.plots',) if a.pid == 'S14' else ()):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    try:
        mod = importlib.import_module('checks.' + a.pid)
    except (ImportError, AttributeError) as e:
        if not isinstance(e, ImportError) and not interface_changed(e):
            raise
        # names that the harnesses use to reach the code have moved
        print('inconclusive: %s cannot be encoded: %s' % (a.pid, e))
        mod = sys.modules[__name__]
        _registry['checks.' + a.pid] = []
    if not os.path.abspath(flavio.__file__).startswith(REPO + '/'):
        print('flavio is not imported from /repo')
        return 2
    hs = [h for h in _registry.get('checks.' + a.pid, []) if a.tier == 'thorough' or h.tier == 'quick']
    if a.replay:
        j = json.load(open(a.replay))
        from .concrete import run_concrete
        h = [x for x in _registry['checks.' + a.pid] if x.name == j['harness']][0]
        r = run_concrete(h.fn, j['values'], j['choices'], seed)
        bad = [x for x in r['results'] if not x[1]]
        print('harness %s values %s choices %s' % (j['harness'], j['values'], j['choices']))
        for x in bad:
            print('FAILS', x[0], x[2])
        if r['exc']:
            print('EXCEPTION', r['exc'], r.get('tb', ''))
        return 1 if bad or r['exc'] else 0
    if a.only:
        hs = [h for h in hs if any(o in h.name for o in a.only.split(','))]
    # import z3 before forking
    from . import solver  # noqa
    results = []
    running = {}
    queue = list(hs)
    total_budget = 780 if a.tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_S', '2400'))
    import tempfile
    tmpd = tempfile.mkdtemp(prefix='vchk')
    while queue or running:
        while queue and len(running) < a.j:
            h = queue.pop(0)
            left = total_budget - (time.time() - t0)
            budget = min(h.time * (6 if a.tier == 'thorough' else 1), max(left - 20, 5))
            path = os.path.join(tmpd, '%d.json' % len(results + list(running)) + str(h.name).replace('/', '_')[:60])
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    if not a.v:
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 2)
                        os.dup2(dn, 1)
                    r = run_harness(h, seed, a.tier, budget)
                    with open(path, 'w') as f:
                        json.dump(r, f, default=str)
                except BaseException:
                    with open(path, 'w') as f:
                        json.dump({'harness': h.name, 'crash': traceback.format_exc()[-3000:]}, f)
                finally:
                    os._exit(code)
            running[pid] = (h, path, time.time() + budget * 1.5 + 20)
        time.sleep(0.03)
        for pid in list(running):
            h, path, dl = running[pid]
            try:
                p, st = os.waitpid(pid, os.WNOHANG)
            except ChildProcessError:
                p, st = pid, 0
            if p == 0:
                if time.time() > dl:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except Exception:
                        os.kill(pid, signal.SIGKILL)
                continue
            try:
                os.killpg(pid, signal.SIGKILL)
            except Exception:
                pass
            del running[pid]
            if os.path.exists(path):
                results.append(json.load(open(path)))
                os.unlink(path)
            else:
                results.append({'harness': h.name, 'crash': 'killed (time or memory)'})
    os.rmdir(tmpd)
    order = {h.name: i for i, h in enumerate(hs)}
    results.sort(key=lambda r: order[r['harness']])
    return report(a, mod, results, seed, t0, hs)


def report(a, mod, results, seed, t0, hs):
    pid = a.pid
    known = known_findings(pid)
    nviol = 0
    code = 0
    good = [r for r in results if 'crash' not in r]
    tot = {k: sum(r.get(k, 0) for r in good) for k in ('obligations', 'discharged', 'paths', 'unsupported_paths', 'replays', 'replayed_checks')}
    funcs = sorted(set(f for r in good for f in r['functions']))
    nq = sum(r['solver']['queries'] for r in good)
    st = sum(r['solver']['time_s'] for r in good)
    rd = os.path.join(VERIF, 'evidence', 'replays')
    lines = []
    for r in good:
        for i, v in enumerate(r['violations']):
            k = [k for k in known if matches(k, r['harness'], v)]
            if k:
                line = 'KNOWN-FINDING: property=%s %s' % (pid, k[0]['what'])
                if line not in lines:
                    lines.append(line)
                continue
            nviol += 1
            os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, '%s-%s-%d.json' % (pid, r['harness'].replace('/', '_')[:60], i))
            json.dump(dict(v, property=pid, harness=r['harness'],
                           how_to='VERIF_SEED=%d /verif/check %s --replay %s' % (seed, pid, f)), open(f, 'w'), indent=1)
            if nviol <= 10:
                print('counterexample [%s] %s: %s (%s)' % (r['harness'], v['label'], v['detail'][:300], v['kind']))
                print('VIOLATION property=%s replay=%s' % (pid, f))
    for l in lines:
        print(l)
    for r in results:
        if 'crash' in r:
            print('harness %s: no answer: %s' % (r['harness'], r['crash'].strip().splitlines()[-1]))
            if a.v:
                print(r['crash'])
    if nviol:
        code = 1
    elif tot['discharged'] == 0:
        code = 2
    ev = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', '') or (mod.__doc__ or '').strip(),
            'harnesses': len(results), 'paths': tot['paths'], 'obligations': tot['obligations'], 'discharged': tot['discharged'],
            'queries': nq, 'solver_time_s': round(st, 3),
            'paths_not_encodable': tot['unsupported_paths'], 'replays_on_real_code': tot['replays'],
            'checks_evaluated_in_replays': tot['replayed_checks'],
            'functions_encoded': funcs,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'per_harness': [{k: r.get(k) for k in ('harness', 'doc', 'bounds', 'paths', 'forks', 'vars', 'obligations', 'discharged', 'how', 'inconclusive',
                                                   'replays', 'points_off_path', 'nonzero', 'solver', 'wall_s', 'explore_s', 'samples', 'crash') if k in r} for r in results],
            'trusted_base': ['CPython executing the bytecode of /repo on symbolic values', '/verif/engine', 'z3 5.3'],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d harnesses, %d paths, %d/%d obligations discharged, %d queries %.1fs solver, %d replays, %d functions, %.1fs'
          % (pid, a.tier, len(results), tot['paths'], tot['discharged'], tot['obligations'], nq, st, tot['replays'], len(funcs), time.time() - t0))
    if a.v:
        for r in good:
            print(' ', r['harness'], 'paths', r['paths'], 'obl', '%d/%d' % (r['discharged'], r['obligations']), r['how'], 'wall', r['wall_s'], 'off', r['points_off_path'])
            for x in r['inconclusive']:
                print('      inconclusive:', x)
    return code
