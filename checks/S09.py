"""Covariances of predictions and measurements belong to the observables they are labelled with, and the fast likelihood is the Gaussian with their sum."""
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
from engine.run import harness, add_harness
from engine import num
from checks.S03 import logdens

EXPLANATION = (
    'Saved covariances with symbolic entries are loaded for every selection and order of observables and compared entry by entry with the labels. The SM covariance is computed by the real code from '
    'symbolic parameter draws and arbitrary prediction functions and compared with the sample covariance, parameters not varied staying at their central values. The experimental covariance is compared with '
    'the inverse-covariance weighted average of the sample moments of each measurement, and the fast likelihood with the density of the Gaussian with the sum of both covariances.')
BOUNDS = 'up to 3 observables and 3 saved ones, 3 draws, up to 3 measurements; entries in [-3, 3], variances in [0.2, 4]; correlations such that the matrices are positive definite'
ASSUMPTIONS = ['random numbers are arbitrary symbolic values', 'floats treated as reals']
D = ('d', 1.5)


def scratch(ctx):
    import flavio
    from flavio.classes import Observable, Measurement, Parameter
    ctx.patch(Observable, 'instances', {})
    ctx.patch(Measurement, 'instances', {})
    ctx.patch(Parameter, 'instances', {})
    for n in 'abc':
        Observable(n)
    Observable('d', arguments=['q2'])


def symmetric(ctx, n, name='v'):
    m = [[None] * n for _ in range(n)]
    for i in range(n):
        m[i][i] = ctx.real('%s%d%d' % (name, i, i), 0.2, 4)
        for j in range(i):
            m[i][j] = m[j][i] = ctx.real('%s%d%d' % (name, j, i), -0.09, 0.09)
    return m


SAVED = ['a', D, 'b']
SELS = [list(p) for k in (1, 2, 3) for p in itertools.permutations(SAVED, k)]


def same(ctx, label, got, m, ks):
    g = np.asarray(got, dtype=object)
    if len(ks) == 1:
        ctx.check(label + ' is a number', g.ndim == 0)
        ctx.check_eq(label, g.ravel()[0], m[ks[0]][ks[0]])
        return
    ctx.check(label + ' shape', g.shape == (len(ks), len(ks)))
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            ctx.check_eq('%s %d%d' % (label, i, j), g[i, j], m[a][b])


@harness(name='load/sm')
def loadsm(ctx):
    import flavio.statistics.likelihood as l
    sel = ctx.choice('observables', SELS)
    m = symmetric(ctx, 3)
    conv = ctx.choice('as', [np.array, list])
    c = l.SMCovariance(list(sel))
    c.load_dict({'observables': list(SAVED), 'covariance': conv(m)})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        same(ctx, 'covariance', c.get(N=7, force=False), m, [SAVED.index(q) for q in sel])


@harness(name='load/single')
def loadone(ctx):
    """a single number saved for a single observable"""
    import flavio.statistics.likelihood as l
    v, c = ctx.real('v', 0.2, 4), ctx.real('c', -3, 3)
    s = l.SMCovariance([D])
    form = ctx.choice('form', [lambda x: x, lambda x: np.array(x), lambda x: np.array([[x]]), lambda x: [[x]]])
    s.load_dict({'observables': [D], 'covariance': form(v)})
    same(ctx, 'covariance', s.get(force=False), [[v]], [0])
    ml = stub(['c'])
    e = l.MeasurementCovariance(ml)
    cen = ctx.choice('central', [lambda x: x, lambda x: np.array(x), lambda x: np.array([x]), lambda x: [x]])
    e.load_dict({'observables': ['c'], 'central': cen(c), 'covariance': form(v)})
    got = e.get(force=False)
    if np.ndim(cen(1.0)) == 1:
        same(ctx, 'experimental covariance', got[1], [[v]], [0])
    else:
        ctx.check_eq('experimental covariance', np.asarray(got[1], dtype=object).ravel()[0], v)
    ctx.check_eq('central', np.asarray(got[0], dtype=object).ravel()[0], c)


class stub:
    def __init__(self, observables):
        self.observables = observables


@harness(name='load/exp')
def loadexp(ctx):
    import flavio.statistics.likelihood as l
    sel = ctx.choice('observables', SELS)
    m = symmetric(ctx, 3)
    cen = [ctx.real('c%d' % i, -3, 3) for i in range(3)]
    conv = ctx.choice('as', [np.array, list])
    e = l.MeasurementCovariance(stub(list(sel)))
    e.load_dict({'observables': list(SAVED), 'central': conv(cen), 'covariance': conv(m)})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = e.get(N=7, force=False)
    ks = [SAVED.index(q) for q in sel]
    same(ctx, 'covariance', got[1], m, ks)
    ctx.check_eq('central', list(np.asarray(got[0], dtype=object).ravel()), [cen[k] for k in ks])
    bad = l.MeasurementCovariance(stub(['a', 'c']))
    ctx.raises('missing entry', ValueError, bad.load_dict, {'observables': list(SAVED), 'central': conv(cen), 'covariance': conv(m)})
    ctx.raises('missing entry sm', ValueError, l.SMCovariance(['c']).load_dict, {'observables': list(SAVED), 'covariance': conv(m)})


class Box:
    """pickle replaced by a store: symbolic values cannot be written to disk"""

    def dump(self, data, f):
        self.data = dict(data)

    def load(self, f):
        return dict(self.data)


@harness(name='save')
def save(ctx):
    """what is saved for one order of the observables is found again by another one"""
    import flavio.statistics.likelihood as l
    ctx.patch(l, 'pickle', Box())
    first = ctx.choice('saved', SELS[-6:] + SELS[3:5])
    sel = ctx.choice('loaded', [s for s in SELS if set(s) <= set(first)])
    n = len(first)
    m = symmetric(ctx, n)
    cen = [ctx.real('c%d' % i, -3, 3) for i in range(n)]
    tmp = tempfile.mkdtemp()
    try:
        f = os.path.join(tmp, 'cov')
        a, b = l.SMCovariance(list(first)), l.SMCovariance(list(sel))
        ctx.raises('nothing to save', ValueError, a.save, f)
        calls = []
        ctx.patch(a, 'compute', lambda N, threads: calls.append(N) or np.array(m))
        a.get(N=5)
        a.get(force=False)
        ctx.check('computed once', calls == [5])
        a.save(f)
        b.load(f)
        ks = [first.index(q) for q in sel]
        same(ctx, 'covariance', b.get(force=False), m, ks)
        a, b = l.MeasurementCovariance(stub(list(first))), l.MeasurementCovariance(stub(list(sel)))
        ctx.raises('nothing to save', ValueError, a.save, f)
        ctx.patch(a, 'compute', lambda N: calls.append(N) or (np.array(cen), np.array(m)))
        a.get(N=6)
        a.get(force=False)
        ctx.check('computed once', calls == [5, 6])
        a.get()
        ctx.check('computed again', len(calls) == 3)
        a.save(f)
        b.load(f)
        c, v = b.get(force=False)
        same(ctx, 'covariance', v, m, ks)
        ctx.check_eq('central', list(np.asarray(c, dtype=object).ravel()), [cen[k] for k in ks])
    finally:
        shutil.rmtree(tmp)


def cov(x, y):
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    return sum((a - mx) * (b - my) for a, b in zip(x, y)) / (n - 1)


class Par:
    """a parameter collection with arbitrary central values and draws"""
    names = ['x', 'y', 'xy']

    def __init__(self, ctx, N):
        self.N = N
        self.central = {n: ctx.real('c' + n, -2, 2) for n in self.names}
        self.draws = {n: [ctx.real('r%s%d' % (n, i), -2, 2) for i in range(N)] for n in self.names}
        self.all_parameters = list(self.names)

    def get_central_all(self):
        return dict(self.central)

    def get_random_all(self, size=None):
        assert size == self.N
        return {n: np.array(v) for n, v in self.draws.items()}


@harness(name='sm/covariance', time=120)
def smcov(ctx):
    import flavio
    from flavio.classes import Prediction
    import flavio.statistics.likelihood as l
    scratch(ctx)
    N = 3
    par = Par(ctx, N)
    f = {n: ctx.ufun('f' + n, -2, 2) for n in 'abd'}
    Prediction('a', lambda wc, p: f['a'](p['x'], p['y'], p['xy']))
    Prediction('b', lambda wc, p: f['b'](p['xy'], p['y']))
    Prediction('d', lambda wc, p, q2: f['d'](p['x'], q2))
    obs = ctx.choice('observables', [['a'], ['b', 'a'], [D, 'b'], [('d', 2.5), D]])
    vary = ctx.choice('vary', ['all', ['x'], ['xy'], ['y', 'x'], []])
    how = ctx.choice('through', ['sm_covariance', 'SMCovariance'])
    if how == 'sm_covariance':
        if ctx.choice('default', [True, False]):
            ctx.patch(flavio, 'default_parameters', par)
            got = flavio.sm_covariance(obs, N=N, par_vary=vary)
        else:
            got = flavio.sm_covariance(obs, N=N, par_vary=vary, par_obj=par)
    else:
        got = l.SMCovariance(obs, vary_parameters=vary, par_obj=par).get(N=N)
    pts = [{n: (par.draws[n][i] if vary == 'all' or n in vary else par.central[n]) for n in par.names} for i in range(N)]

    def pred(o, p):
        return {'a': lambda: f['a'](p['x'], p['y'], p['xy']), 'b': lambda: f['b'](p['xy'], p['y'])}[o]() if isinstance(o, str) else f['d'](p['x'], o[1])
    s = {o: [pred(o, p) for p in pts] for o in obs}
    g = np.asarray(got, dtype=object)
    for i, a in enumerate(obs):
        for j, b in enumerate(obs):
            ctx.check_eq('cov %d%d' % (i, j), g.ravel()[0] if len(obs) == 1 else g[i, j], cov(s[a], s[b]), scale=1.)


def draws(ctx, meas, N):
    """every measurement gets arbitrary draws for the observables it constrains"""
    from flavio.classes import Measurement
    from flavio.statistics.probability import NormalDistribution
    out = {}
    for k, (name, obs) in enumerate(meas.items()):
        m = Measurement(name)
        for o in obs:
            m.add_constraint([o], NormalDistribution(0., 1.))
        d = {o: [ctx.real('d%d%s%d' % (k, o if isinstance(o, str) else 'd', i), -2, 2) for i in range(N)] for o in obs}
        ctx.patch(m, 'get_random_all', lambda size=None, d=d: {o: np.array(v) for o, v in d.items()})
        out[name] = d
    return out


def inv2(m):
    d = m[0][0] * m[1][1] - m[0][1] ** 2
    return [[m[1][1] / d, -m[0][1] / d], [-m[0][1] / d, m[0][0] / d]]


CONF = {'1obs-1meas': (['a'], {'A': ['a', 'b']}),
        '1obs-2meas': ([D], {'A': [D], 'B': ['a', D]}),
        '1obs-3meas': (['a'], {'A': ['a'], 'B': ['a', 'b'], 'C': ['b', 'a'], 'X': ['c']}),
        '2obs-1meas': (['b', 'a'], {'A': ['a', 'b'], 'X': ['c']}),
        '2obs-separate': (['b', 'a'], {'A': ['a'], 'B': ['b', 'c']}),
        '2obs-partial': (['a', D], {'A': ['a', D], 'B': ['a']}),
        '2obs-overlap': (['a', 'b'], {'A': ['a', 'b'], 'B': ['b', 'a']})}


def expcov(conf, N):
    def h(ctx):
        import flavio.statistics.likelihood as l
        scratch(ctx)
        obs, meas = CONF[conf]
        d = draws(ctx, meas, N)
        ml = l.MeasurementLikelihood(list(obs))
        S = {}
        for name, v in d.items():
            con = [o for o in obs if o in v]
            if not con:
                continue
            C = [[cov(v[a], v[b]) for b in con] for a in con]
            ctx.assume(all_([C[i][i] > 0.01 for i in range(len(con))]))
            if len(con) == 2:
                ctx.assume(C[0][0] * C[1][1] - C[0][1] ** 2 > 0.01)
            S[name] = (con, [sum(v[o]) / N for o in con], C)
        cen, c = l.MeasurementCovariance(ml).get(N=N)
        n = len(obs)
        cen, c = np.asarray(cen, dtype=object).ravel(), np.asarray(c, dtype=object).reshape(n, n)
        if len(S) == 1:
            con, mean, C = next(iter(S.values()))
            for i in range(n):
                ctx.check_eq('mean %d' % i, cen[i], mean[i], scale=1.)
                for j in range(n):
                    ctx.check_eq('cov %d%d' % (i, j), c[i, j], C[i][j], scale=1.)
            return
        W = [[0.] * n for _ in range(n)]
        u = [0.] * n
        for con, mean, C in S.values():
            Ci = [[1 / C[0][0]]] if len(con) == 1 else inv2(C)
            for i, a in enumerate(con):
                for j, b in enumerate(con):
                    ia, jb = obs.index(a), obs.index(b)
                    W[ia][jb] = W[ia][jb] + Ci[i][j]
                    u[ia] = u[ia] + Ci[i][j] * mean[j]
        for i in range(n):
            # W cen = sum of W_i x_i and W cov = 1
            ctx.check_eq('weighted mean %d' % i, sum(W[i][k] * cen[k] for k in range(n)), u[i], scale=1.)
            for j in range(n):
                ctx.check_eq('weighted covariance %d%d' % (i, j), sum(W[i][k] * c[k, j] for k in range(n)), 1.0 if i == j else 0.0, scale=1.)
    return h


def all_(l):
    return list(l)


for _c in CONF:
    add_harness(__name__, expcov(_c, 3 if _c in ('1obs-1meas', '2obs-1meas', '2obs-separate', '2obs-partial', '2obs-overlap') else 2), 'exp/' + _c, time=120)
add_harness(__name__, expcov('1obs-3meas', 3), 'exp3/1obs-3meas', tier='thorough', time=300)


FITS = {'1': ['a'], '1arg': [D], '2': ['a', D], '2rev': [D, 'a'], '3': ['b', 'a', D]}


def fast(conf):
    def h(ctx):
        import flavio
        from flavio.classes import Prediction, Measurement
        from flavio.statistics.probability import NormalDistribution
        import flavio.statistics.likelihood as l
        scratch(ctx)
        ctx.patch(l.FastLikelihood, 'instances', {})
        fit = FITS[conf]
        n = len(fit)
        m = Measurement('M')
        for o in ['a', 'b', D, 'c']:
            m.add_constraint([o], NormalDistribution(0., 1.))
        par = Par(ctx, 2)
        f = {q: ctx.ufun('f' + q, -2, 2) for q in 'abd'}
        Prediction('a', lambda wc, p: f['a'](p['x']))
        Prediction('b', lambda wc, p: f['b'](p['x']))
        Prediction('d', lambda wc, p, q2: f['d'](p['x'], q2))
        L = l.FastLikelihood('f', par_obj=par, observables=list(fit), nuisance_parameters=['y'])
        ctx.raises('not made yet', ValueError, L.log_likelihood, {'x': 1.0}, None)
        v, e = symmetric(ctx, n), symmetric(ctx, n, 'e')
        cen = [ctx.real('m%d' % i, -2, 2) for i in range(n)]
        which = ctx.choice('from', ['computed', 'loaded'])
        a0 = (lambda q: np.asarray(q, dtype=object))
        if which == 'loaded':
            perm = list(range(n))[::-1]
            L.sm_covariance.load_dict({'observables': [fit[k] for k in perm], 'covariance': np.array([[v[i][j] for j in perm] for i in perm])})
            L.exp_covariance.load_dict({'observables': [fit[k] for k in perm], 'central': np.array([cen[k] for k in perm]),
                                        'covariance': np.array([[e[i][j] for j in perm] for i in perm])})
        else:
            seen = []
            ctx.patch(L.sm_covariance, 'compute', lambda N, threads: seen.append((N, threads)) or (np.array(v) if n > 1 else v[0][0]))
            ctx.patch(L.exp_covariance, 'compute', lambda N: seen.append(N) or ((np.array(cen), np.array(e)) if n > 1 else (cen[0], e[0][0])))
            ctx.check('setup', L.sm_covariance.vary_parameters == ['y'] and L.sm_covariance.par_obj is par and L.exp_covariance.measurement_likelihood is L.full_measurement_likelihood)
        kw = {}
        L.make_measurement(N=100, Nexp=5000)
        if which == 'computed':
            ctx.check('computed', seen == [5000, (100, 1)])
            L.make_measurement()
            ctx.check('kept', len(seen) == 2)
            L.make_measurement(force=True)
            ctx.check('SM computed again', seen[2:] == [(100, 1)])
            L.make_measurement(force_exp=True, Nexp=70)
            ctx.check('experiment computed again', seen[3:] == [70])
        ctx.check('only the pseudo-measurement', L.likelihood.measurement_likelihood.get_measurements == [L.pseudo_measurement.name])
        ctx.check('pseudo-measurements stay out of other likelihoods', l.MeasurementLikelihood(list(fit)).get_measurements == ['M'])
        C = [[v[i][j] + e[i][j] for j in range(n)] for i in range(n)]
        p = {'x': ctx.real('px', -2, 2), 'y': 0.5, 'xy': 0.5}
        x = [f['d'](p['x'], o[1]) if isinstance(o, tuple) else f[o](p['x']) for o in fit]
        full = logdens(x, cen, C)
        got = L.log_likelihood(dict(p), None)
        ctx.check('a number', np.ndim(got) == 0)
        ctx.check_eq('log likelihood', np.ravel(got)[0], full, scale=1.)
        if n > 1:
            part = logdens([x[1]], [cen[1]], [[C[1][1]]]) if n == 2 else logdens(x[1:], cen[1:], [r[1:] for r in C[1:]])
            ctx.check_eq('without the first observable', np.ravel(L.log_likelihood(dict(p), None, exclude_observables=[fit[0]]))[0], part, scale=1.)
        ctx.check_eq('relative to the maximum', np.ravel(L.log_likelihood(dict(p), None, delta=True))[0], full - logdens(cen, cen, C), scale=1.)
    return h


for _c in FITS:
    add_harness(__name__, fast(_c), 'fast/' + _c, time=120)
