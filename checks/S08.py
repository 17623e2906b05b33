"""The likelihood is the sum over the included measurements of their log probability at the predictions for the given arguments."""
import warnings
import numpy as np
from engine.run import harness, add_harness
from checks.S05 import Obj, logp

EXPLANATION = (
    'The likelihood classes are executed on four measurements (normal, correlated pair, several constraints in one measurement, pseudo-measurement) with symbolic central values, errors, '
    'correlations, predictions and parameters; the result for every choice of fit observables, included / excluded measurements and excluded observables is compared with the closed-form '
    'sum of Gaussian log densities over the included (measurement, observable) pairs. Predictions are arbitrary functions of the parameters and Wilson coefficients; sequences of calls '
    'are compared with fresh evaluations.')
BOUNDS = ('four measurements, four observables (one with an argument), normal distributions with errors in [0.1, 3] and correlations in [-0.9, 0.9]; '
          'sequences of up to three evaluations; all subsets of the stated choices')
ASSUMPTIONS = ['constraint collections are decided by S05', 'floats treated as reals']

D = ('d', 1.5)
OBS = ['a', 'b', 'c', D]


def flat(v):
    return np.ravel(v)[0] if isinstance(v, np.ndarray) else v


class World:
    def __init__(self, ctx, predictions=True):
        import flavio
        from flavio.classes import Observable, Measurement, Prediction
        import flavio.statistics.probability as p
        self.ctx, self.p = ctx, p
        ctx.patch(Observable, 'instances', {})
        ctx.patch(Measurement, 'instances', {})
        for n in 'abc':
            Observable(n)
        Observable('d', arguments=['q2'])
        self.ref = {}
        self.k = 0
        self.meas('M1', [['a']])
        self.meas('M2', [['a', 'b']])
        self.meas('M3', [['c'], [D]])
        self.meas('Pseudo-measurement for x', [['a']])
        self.meas('other', [[('d', 2.5)]])
        self.meas('M1 update', [['b']])
        self.meas('New M1', [['b']])
        if predictions:
            self.f = {n: ctx.ufun('f' + n, -2, 2) for n in 'abcd'}
            for n in 'abc':
                Prediction(n, lambda wc, par, n=n: self.f[n](par['x'], par['y'], self.np(wc)))
            Prediction('d', lambda wc, par, q2: self.f['d'](par['x'], q2, self.np(wc)))

    @staticmethod
    def np(wc):
        return 0.0 if wc is None or wc.wc is None else wc.wc.dict.get('C9_bsmumu', 0.0)

    def pred(self, n, par, c):
        return self.f['d'](par['x'], n[1], c) if isinstance(n, tuple) else self.f[n](par['x'], par['y'], c)

    def dist(self, pars, store):
        r = self.ctx.real
        i = self.k = self.k + 1
        if len(pars) == 1:
            o = Obj(pars, None, [r('c%d' % i, -3, 3)], [r('s%d' % i, 0.1, 3)], 0.)
            store.add_constraint(pars, self.p.NormalDistribution(o.mean[0], o.sd[0]))
        else:
            m, s, rho = [r('m%d' % i, -3, 3), r('w%d' % i, -3, 3)], [r('e%d' % i, 0.1, 3), r('g%d' % i, 0.1, 3)], r('r%d' % i, -0.9, 0.9)
            self.ctx.assume(rho != 0)
            o = Obj(pars, None, m, s, rho)
            store.add_constraint(pars, self.p.MultivariateNormalDistribution(m, standard_deviation=s, correlation=[[1, rho], [rho, 1]]))
        return o

    def meas(self, name, groups):
        from flavio.classes import Measurement
        m = Measurement(name)
        self.ref[name] = [self.dist(g, m) for g in groups]

    def included(self, fit, include, exclude, pseudo=False):
        out = []
        for n, os in self.ref.items():
            if n.startswith('Pseudo') and not pseudo:
                continue
            if include and n not in include or exclude and n in exclude:
                continue
            if any(q in fit for o in os for q in o.pars):
                out.append(n)
        return out

    def total(self, names, fit, x, without=(), delta=False):
        tot = 0.
        for n in names:
            for o in self.ref[n]:
                ks = [k for k, q in enumerate(o.pars) if q in fit and q not in without]
                if ks:
                    tot = tot + logp(o, ks, {k: x[o.pars[k]] for k in ks}, delta)
        return tot


def missing(w, names, fit):
    con = {q for n in names for o in w.ref[n] for q in o.pars}
    return not set(fit) <= con


FITS = [['a'], ['b'], ['a', 'b'], ['c', D], ['b', 'a', D], ['a', 'b', 'c', D]]
SEL = [(None, None), (['M1', 'M3'], None), (['M2', 'M3'], None), (None, ['M1']), (None, ['M2']), (['M1', 'M2', 'M3'], []), (None, ['M1', 'nonexistent']), (None, ['M1 update']), (['M1 update'], None), (None, ['New M1', 'M'])]


def sums(fit):
    def h(ctx):
        import flavio.statistics.likelihood as l
        w = World(ctx, False)
        include, exclude = ctx.choice('selection', SEL)
        pseudo = ctx.choice('pseudo', [False, True]) if include is None and not exclude else False
        names = w.included(fit, include, exclude, pseudo)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if missing(w, names, fit):
                return ctx.raises('an observable without measurement is an error', AssertionError, l.MeasurementLikelihood, list(fit), include_measurements=include, exclude_measurements=exclude)
            L = l.MeasurementLikelihood(list(fit), include_measurements=include, exclude_measurements=exclude, include_pseudo_measurements=pseudo)
        ctx.check('measurements', sorted(L.get_measurements) == sorted(names))
        x = {n: ctx.real('x%d' % i, -4, 4) for i, n in enumerate(OBS)}
        pred = {n: x[n] for n in fit}
        for delta in (False, True):
            for without in (None, ['a'], ['b', 'zz'], ['c', D]):
                ctx.check_eq('log likelihood without %s%s' % (without, ' delta' if delta else ''), flat(L.log_likelihood_pred(dict(pred), exclude_observables=without, delta=delta)),
                             w.total(names, fit, x, without or (), delta), scale=1.)
        for without in (None, ['a'], ['c', D]):
            ctx.check('number of observations', L.get_number_observations(exclude_observables=without) ==
                      sum(1 for n in names for o in w.ref[n] for q in o.pars if q in fit and q not in (without or ())))
    return h


for _f in FITS:
    add_harness(__name__, sums(_f), 'sum/%d%s' % (len(_f), ''.join(q if isinstance(q, str) else 'd' for q in _f)), time=120)


def wc_objects():
    import flavio
    import wilson
    out = []
    for v in (0.0, 0.5, -1.0, -2.0):
        if v == 0.0:
            out.append((flavio.WilsonCoefficients(), 0.0))
            continue
        w = flavio.WilsonCoefficients()
        w.set_initial({'C9_bsmumu': v}, 160)
        out.append((w, v))
    out.append((None, 0.0))
    return out


@harness(name='par/sum', time=120)
def parsum(ctx):
    import flavio.statistics.likelihood as l
    w = World(ctx)
    fit = ctx.choice('fit', [['a', 'b'], ['b', 'c', D]])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        L = l.MeasurementLikelihood(fit)
    wc, c = ctx.choice('wc', wc_objects())
    par = {'x': ctx.real('x', -3, 3), 'y': ctx.real('y', -3, 3)}
    names = w.included(fit, None, None)
    x = {n: w.pred(n, par, c) for n in fit}
    ctx.check_eq('predictions', L.get_predictions_par(dict(par), wc), x)
    for delta in (False, True):
        for without in (None, ['b']):
            ctx.check_eq('log likelihood', flat(L.log_likelihood_par(dict(par), wc, exclude_observables=without, delta=delta)), w.total(names, fit, x, without or (), delta), scale=1.)


VALS = [-1.0, -2.0, 0.0, 1.0, 2.0 ** 61 - 1]


@harness(name='history/parameters', time=120)
def hist(ctx):
    """every evaluation is that of its own arguments, whatever was evaluated before"""
    import flavio.statistics.likelihood as l
    w = World(ctx)
    L = l.MeasurementLikelihood(['a', D])
    wcs = wc_objects()
    x, y = ctx.real('x', -3, 3), ctx.real('y', -3, 3)
    seq = ctx.choice('sequence', ['xy', 'yx', 'xx', 'const', 'other parameter', 'in place'])
    if seq == 'const':
        pars = [{'x': v, 'y': 1.0} for v in (ctx.choice('v0', VALS), ctx.choice('v1', VALS), ctx.choice('v2', VALS[:2]))]
    elif seq == 'other parameter':
        pars = [{'x': x, 'y': 1.0}, {'x': x, 'y': y}, {'x': 1.0, 'y': x}]
    elif seq == 'in place':
        par = {'x': x, 'y': 1.0}
        L.get_predictions_par(par, None)
        par['x'] = y
        pars = [par, par]
    else:
        pars = [{'x': {'x': x, 'y': y}[q], 'y': 1.0} for q in seq] + [{'x': x, 'y': 1.0}]
    for i, par in enumerate(pars):
        got = L.get_predictions_par(par, None)
        ctx.check_eq('evaluation %d' % i, got, {n: w.pred(n, par, 0.0) for n in ('a', D)})
        got['a'] = 17.


@harness(name='history/wilson', time=120)
def histwc(ctx):
    import flavio.statistics.likelihood as l
    w = World(ctx)
    L = l.MeasurementLikelihood(['a', 'c'])
    wcs = wc_objects()
    par = {'x': ctx.real('x', -3, 3), 'y': ctx.real('y', -3, 3)}
    for i in range(3):
        how = ctx.choice('how%d' % i, list(range(len(wcs))) + ['modify'])
        if how == 'modify':
            wc = wcs[0][0]
            c = 0.25 * (i + 1)
            wc.set_initial({'C9_bsmumu': c}, 160)
            wcs[0] = (wc, c)
        else:
            wc, c = wcs[how]
        got = L.get_predictions_par(par, wc)
        ctx.check_eq('evaluation %d' % i, got, {n: w.pred(n, par, c) for n in ('a', 'c')})


class PWorld(World):
    """with parameters x (normal), y, z (correlated)"""

    def __init__(self, ctx, predictions=True):
        super().__init__(ctx, predictions)
        import flavio
        from flavio.classes import Parameter
        ctx.patch(Parameter, 'instances', {})
        self.par = flavio.ParameterConstraints()
        for n in 'xyz':
            Parameter(n)
        self.pobj = [self.dist(['x'], self.par), self.dist(['y', 'z'], self.par)]

    def prior(self, names, x, delta):
        tot = 0.
        for o in self.pobj:
            ks = [k for k, q in enumerate(o.pars) if q in names]
            if ks:
                tot = tot + logp(o, ks, {k: x[o.pars[k]] for k in ks}, delta)
        return tot


PARS = [['x'], ['y'], ['z', 'x'], ['y', 'z'], ['x', 'y', 'z'], ['z', 'y']]


@harness(name='parameters', time=120)
def pars(ctx):
    import flavio.statistics.likelihood as l
    w = PWorld(ctx, False)
    names = ctx.choice('names', PARS)
    P = l.ParameterLikelihood(par_obj=w.par, parameters=list(names))
    x = {n: ctx.real('v' + n, -4, 4) for n in 'xyz'}
    for delta in (False, True):
        ctx.check_eq('prior', flat(P.log_likelihood_par(dict(x), delta=delta)), w.prior(names, x, delta), scale=1.)
    cen = {q: o.mean[k] for o in w.pobj for k, q in enumerate(o.pars)}
    ctx.check_eq('central', list(P.get_central), [cen[n] for n in names])
    draw = {n: ctx.real('r' + n, -4, 4) for n in 'xyz'}
    ctx.patch(w.par, 'get_random_all', lambda *a, **k: dict(draw))
    ctx.check_eq('random', list(P.get_random), [draw[n] for n in names])


@harness(name='total', time=120)
def total(ctx):
    import flavio.statistics.likelihood as l
    w = PWorld(ctx)
    fit = ctx.choice('fit', [['a', 'b'], ['c', D]])
    names = ctx.choice('names', [None, [], ['x'], ['z', 'x']])
    sel = ctx.choice('selection', [{}, {'include_measurements': ['M2', 'M3']}, {'exclude_measurements': ['M1']}])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        L = l.Likelihood(par_obj=w.par, fit_parameters=names, observables=fit, **sel)
    wc, c = ctx.choice('wc', wc_objects()[1:3])
    par = {n: ctx.real('v' + n, -3, 3) for n in 'xyz'}
    x = {n: w.pred(n, par, c) for n in fit}
    meas = w.included(fit, sel.get('include_measurements'), sel.get('exclude_measurements'))
    for delta in (False, True):
        for without in (None, ['a'], ['c']):
            ex = w.total(meas, fit, x, without or (), delta)
            pr = w.prior(names or [], par, delta)
            ctx.check_eq('experiment', flat(L.log_likelihood_exp(dict(par), wc, exclude_observables=without, delta=delta)), ex, scale=1.)
            ctx.check_eq('prior', flat(L.log_prior_fit_parameters(dict(par), delta=delta)), pr, scale=1.)
            ctx.check_eq('total', flat(L.log_likelihood(dict(par), wc, exclude_observables=without, delta=delta)), ex + pr, scale=1.)


@harness(name='warning', time=60)
def warning(ctx):
    """several correlated measurements of an observable left out of the fit are reported"""
    import flavio.statistics.likelihood as l
    w = World(ctx, False)
    n = ctx.choice('correlated measurements', [1, 2, 3])
    for i in range(n - 1):
        w.meas('N%d' % i, [['a', 'b']])
    fit = ctx.choice('fit', [['a'], ['a', 'b']])
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        L = l.MeasurementLikelihood(fit)
    ctx.check('warned', any('inconsistent' in str(r.message) for r in rec) == (n > 1 and len(fit) == 1))
    x = {q: ctx.real('x' + q, -3, 3) for q in fit}
    ctx.check_eq('sum', flat(L.log_likelihood_pred(dict(x))), w.total(w.included(fit, None, None), fit, x), scale=1.)


@harness(name='conflict')
def conflict(ctx):
    import flavio.statistics.likelihood as l
    World(ctx, False)
    ctx.raises('both selections', ValueError, l.MeasurementLikelihood, ['a'], include_measurements=['M1'], exclude_measurements=['M2'])
    ctx.raises('unmeasured', AssertionError, l.MeasurementLikelihood, ['a', ('d', 7.)])


def small_default(ctx):
    """a small default parameter collection, as YAML holds numbers"""
    import flavio
    from flavio.classes import Parameter
    ctx.patch(Parameter, 'instances', {})
    d = flavio.ParameterConstraints()
    for n in 'xyz':
        Parameter(n)
        d.set_constraint(n, '1.0(5)')
    ctx.patch(flavio, 'default_parameters', d)
    return d


KINDS = ['MeasurementLikelihood', 'Likelihood', 'ParameterLikelihood', 'FastLikelihood']


@harness(name='yaml', time=120)
def yaml(ctx):
    """dumping and loading gives an instance with the same likelihood"""
    import flavio
    import flavio.statistics.likelihood as l
    w = World(ctx)
    default = small_default(ctx)
    par = default.copy()
    change = ctx.choice('change', [('y',), ('x', 'z')])
    for n in change:
        par.set_constraint(n, '-0.5(2)')
    kind = ctx.choice('kind', KINDS)
    fit = ctx.choice('fit', [['a', 'b'], ['c', D]])
    sel = ctx.choice('selection', [{}, {'include_measurements': ['M2', 'M3']}, {'exclude_measurements': ['M1']}])
    names = ctx.choice('names', [['x'], ['z', 'y']])
    kw = {}
    if kind != 'ParameterLikelihood':
        kw.update(observables=list(fit), **sel)
    if kind in ('Likelihood', 'FastLikelihood'):
        kw.update(par_obj=par, fit_parameters=list(names))
    if kind == 'ParameterLikelihood':
        kw.update(par_obj=par, parameters=list(names))
    if kind == 'FastLikelihood':
        ctx.patch(l.FastLikelihood, 'instances', {})
        kw.update(name='fast')
        kw.update(nuisance_parameters=['x', 'y'])
    cls = getattr(l, kind)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        L = cls(**kw)
        text = L.dump()
        if kind == 'FastLikelihood':
            cls.instances.clear()
        R = cls.load(text)
    ctx.check('same text', R.dump() == text)
    p = {n: ctx.real('v' + n, -3, 3) for n in 'xyz'}
    if kind == 'ParameterLikelihood':
        ctx.check('parameters', list(R.parameters) == names)
        ctx.check_eq('prior', flat(R.log_likelihood_par(p)), flat(L.log_likelihood_par(p)), scale=1.)
        return
    ctx.check('observables', list(R.observables) == fit)
    if kind == 'FastLikelihood':
        ctx.check('names', R.name == 'fast' and R.fit_parameters == names and R.nuisance_parameters == ['x', 'y'])
        A, B = L.full_measurement_likelihood, R.full_measurement_likelihood
        ctx.check('covariance setup', R.sm_covariance.vary_parameters == ['x', 'y'] and list(R.sm_covariance.observables) == fit and R.exp_covariance.measurement_likelihood is B)
    else:
        A, B = (L, R) if kind == 'MeasurementLikelihood' else (L.measurement_likelihood, R.measurement_likelihood)
    ctx.check('measurements', sorted(A.get_measurements) == sorted(B.get_measurements))
    ctx.check_eq('likelihood', flat(B.log_likelihood_par(p, None)), flat(A.log_likelihood_par(p, None)), scale=1.)
    if kind == 'Likelihood':
        ctx.check_eq('total', flat(R.log_likelihood(p, None)), flat(L.log_likelihood(p, None)), scale=1.)
    if kind != 'MeasurementLikelihood':
        ctx.check_eq('central', R.par_obj.get_central_all(), par.get_central_all())


@harness(name='yaml/empty-selection')
def yamlempty(ctx):
    """an empty or missing selection in a file does not disable the other one"""
    import flavio
    import flavio.statistics.likelihood as l
    w = World(ctx)
    small_default(ctx)
    empty = ctx.choice('empty', ['', 'exclude_measurements: null\n', 'exclude_measurements: []\n'])
    kind = ctx.choice('kind', ['Likelihood', 'MeasurementLikelihood', 'FastLikelihood'])
    if kind == 'FastLikelihood':
        ctx.patch(l.FastLikelihood, 'instances', {})
    L = getattr(l, kind).load(('name: n\n' if kind == 'FastLikelihood' else '') + 'observables: [a, a, b]\n%sinclude_measurements: [M2]\n%s' %
                              (empty, 'par_obj: []\n' if kind != 'MeasurementLikelihood' else ''))
    B = {'Likelihood': 'measurement_likelihood', 'FastLikelihood': 'full_measurement_likelihood'}.get(kind)
    B = getattr(L, B) if B else L
    ctx.check('measurements', list(B.get_measurements) == ['M2'])
    ctx.check('observables', list(L.observables) == ['a', 'b'])
    x = {q: ctx.real('x' + q, -3, 3) for q in 'ab'}
    ctx.check_eq('sum', flat(B.log_likelihood_pred(dict(x))), w.total(['M2'], ['a', 'b'], x), scale=1.)
