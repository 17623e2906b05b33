"""Uncertainties and error budgets are the spread of the predictions under the parameter variations they are named after."""
import itertools
import warnings
import numpy as np
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'The top-level functions are executed on arbitrary prediction functions and symbolic parameter draws: uncertainties and error budgets are compared with the population standard deviation over the draws of '
    'exactly the named parameters (correlated ones together, the others at their central value), dependent parameters with the set the prediction function really reads on the path taken, '
    'and combinations of measurements with the inverse-variance weighted average of the selected ones.')
BOUNDS = '2 draws (uncertainties: 3), up to 4 parameters of which 2 correlated, up to 3 measurements of an observable with 0 or 2 arguments'
ASSUMPTIONS = ['random numbers are arbitrary symbolic values', 'parallel execution with a pool is represented by its sequential map', 'floats treated as reals']


def std2(v):
    n = len(v)
    m = sum(v) / n
    return sum((x - m) ** 2 for x in v) / n


class Pool:
    made = []

    def __init__(self, n=None):
        Pool.made.append(n)

    def map(self, f, it):
        return [f(x) for x in it]

    def close(self):
        pass

    join = close


class Params:
    """default parameters with arbitrary central values and draws"""

    def __init__(self, ctx, N):
        from flavio.classes import ParameterConstraints, Parameter
        from flavio.statistics.probability import NormalDistribution, MultivariateNormalDistribution
        ctx.patch(Parameter, 'instances', {})
        self.c = {n: ctx.real('c' + n, -2, 2) for n in 'wxyz'}
        self.obj = ParameterConstraints()
        for n in 'wxyz':
            Parameter(n)
        self.obj.add_constraint(['w'], NormalDistribution(self.c['w'], 1.))
        self.obj.add_constraint(['x'], NormalDistribution(self.c['x'], 1.))
        self.obj.add_constraint(['y', 'z'], MultivariateNormalDistribution([self.c['y'], self.c['z']], standard_deviation=[1., 1.], correlation=0.5))
        self.N = N
        self.r = [{n: ctx.real('r%s%d' % (n, i), -2, 2) for n in 'wxyz'} for i in range(N)]
        self.k = 0
        ctx.patch(self.obj, 'get_random_all', self.random)

    def random(self, size=None):
        if size is None:
            self.k += 1
            return dict(self.r[(self.k - 1) % self.N])
        assert size == self.N
        return {n: np.array([p[n] for p in self.r]) for n in 'wxyz'}


def world(ctx, N):
    import flavio
    from flavio.classes import Observable
    ctx.patch(Observable, 'instances', {})
    P = Params(ctx, N)
    ctx.patch(flavio, 'default_parameters', P.obj)
    return P


def wilson():
    import flavio
    w = flavio.WilsonCoefficients()
    w.set_initial({'C9_bsmumu': 0.5}, 160)
    return w


def npc(wc):
    return 0.0 if wc is None or wc.wc is None else wc.wc.dict.get('C9_bsmumu', 0.0)


@harness(name='uncertainty', time=60)
def uncertainty(ctx):
    import flavio
    import flavio.functions as m
    from flavio.classes import Observable, Prediction
    N = 3
    P = world(ctx, N)
    args = ctx.choice('arguments', [None, ['a'], ['a', 'b']])
    Observable('o', arguments=args)
    f = ctx.ufun('f', -2, 2)

    def fct(wc, par, *a, **k):
        v = dict(zip(args or [], a), **k)
        return f(par['w'], par['y'], npc(wc), *[v[q] for q in args or []])
    Prediction('o', fct)
    vals = [ctx.real('v%d' % i, -2, 2) for i in range(len(args or []))]
    k = ctx.choice('positional', list(range(len(vals) + 1)))
    a, kw = vals[:k], dict(zip((args or [])[k:], vals[k:]))
    threads = ctx.choice('threads', [1, 2])
    ctx.patch(m, 'Pool', Pool)
    w = wilson()
    for sm in (True, False):
        got = flavio.sm_uncertainty('o', *a, N=N, threads=threads, **kw) if sm else flavio.np_uncertainty('o', w, *a, N=N, threads=threads, **kw)
        ctx.check_eq('%s uncertainty squared' % ('SM' if sm else 'NP'), got ** 2, std2([f(p['w'], p['y'], 0.0 if sm else 0.5, *vals) for p in P.r]), scale=1e-3)
        ctx.check('not negative', got >= 0)


READS = {'w': ['w'], 'none': [], 'wx': ['w', 'x'], 'y': ['y'], 'yz': ['y', 'z'], 'xyz': ['x', 'y', 'z'], 'wxyz': ['w', 'x', 'y', 'z']}


@harness(name='budget', time=120, points=3)
def budget(ctx):
    import flavio
    from flavio.classes import Observable, Prediction
    N = 2
    P = world(ctx, N)
    reads = READS[ctx.choice('reads', sorted(READS))]
    Observable('o', arguments=['q2'])
    f = ctx.ufun('f', -2, 2)
    Prediction('o', lambda wc, par, q2: f(*[par[n] for n in reads], q2) + 0. * npc(wc))
    q2 = ctx.real('q2', 0, 5)
    cen = f(*[P.c[n] for n in reads], q2)
    ctx.assume((cen > 0.1) | (cen < -0.1))
    ctx.check('dependent parameters', flavio.functions.get_dependent_parameters_sm('o', q2=q2) == set(reads))
    kw = ctx.choice('call', [True, False])
    got = flavio.sm_error_budget('o', q2=q2, N=N) if kw else flavio.sm_error_budget('o', q2, N=N)
    groups = [[n for n in g if n in reads] for g in ('w', 'x', 'yz')]
    groups = [g for g in groups if g]
    ctx.check('groups', sorted(sorted([k] if isinstance(k, str) else k) for k in got) == sorted(groups))
    for key, val in got.items():
        g = [key] if isinstance(key, str) else list(key)
        pts = [{n: (r[n] if n in g else P.c[n]) for n in reads} for r in P.r]
        ctx.check_eq('relative error of ' + '+'.join(sorted(g)), val ** 2 * cen ** 2, std2([f(*[p[n] for n in reads], q2) for p in pts]), scale=1e-3)
        ctx.check('not negative', val >= 0)


@harness(name='dependent', time=60)
def dependent(ctx):
    """parameters read directly, with a default, through copies or after modifications, on the path taken"""
    import flavio
    from flavio.functions import AwareDict, get_dependent_parameters_sm
    from flavio.classes import Observable, Prediction
    P = world(ctx, 1)
    Observable('o')
    seen = []
    how = ctx.choice('how', ['direct', 'default', 'copy', 'modified copy', 'branch', 'foreign'])

    def fct(wc, par):
        seen.clear()
        if how == 'default':
            seen.append('x')
            return par.get('x', 1.) + par.get('absent', 2.)
        if how == 'copy':
            p = par.copy()
            seen.append('y')
            return p['y']
        if how == 'modified copy':
            par['x'] = 3.
            p = par.copy()
            seen.extend(['x', 'z'])
            ctx.check_eq('modification kept', p['x'], 3.)
            return p['x'] * p['z']
        if how == 'branch':
            seen.append('w')
            if par['w'] > 0.5:
                seen.append('x')
                return par['x']
            return 1.
        if how == 'foreign':
            par['mine'] = 2.
            seen.append('z')
            return par['mine'] * par['z']
        seen.append('w')
        return par['w']
    Prediction('o', fct)
    got = get_dependent_parameters_sm('o')
    ctx.check('parameters', got == set(seen))
    ctx.check_eq('defaults untouched', flavio.default_parameters.get_central_all(), P.c)
    d = AwareDict({'a': ctx.real('a', -1, 1), 'b': 2.})
    e = d.copy()
    e['b']
    ctx.check('shared record', d.akeys == {'b'} and e.akeys == {'b'})
    ctx.check('missing key', ctx.raises('missing', KeyError, d.__getitem__, 'zz') is None or True)


@harness(name='dependent-wcs')
def wcs(ctx):
    import flavio
    from flavio.classes import Observable, Prediction
    P = world(ctx, 1)
    Observable('o', arguments=['q2'])
    import wilson as wl
    calls = []
    ctx.patch(wl.Wilson, 'match_run', lambda self, scale, eft, basis, sectors='all': calls.append(1) or self.wc)
    two = ctx.choice('second', [None, ('bsee', 3.0), ('bsmumu', 4.8), ('sdsd', 2.0)])

    def fct(wc, par, q2):
        wc.get_wcxf(sector='bsmumu', scale=4.8, par=par)
        if two:
            wc.get_wcxf(sector=two[0], scale=two[1], par=par, eft='WET-3' if two[0] == 'sdsd' else 'WET')
        return q2
    Prediction('o', fct)
    exp = {(4.8, 'WET', 'flavio', ('sb',))}
    if two:
        exp.add((two[1], 'WET-3' if two[0] == 'sdsd' else 'WET', 'flavio', ({'bsee': 'sb', 'bsmumu': 'sb', 'sdsd': 'sdsd'}[two[0]],)))
    ctx.check('tuples', flavio.functions.get_dependent_wcs('o', ctx.real('q2', 0, 1)) == exp)


MEAS = {'A': 'single', 'B': 'pair', 'C': 'single', 'Pseudo-measurement z': 'single', 'D': 'other'}


@harness(name='combine', time=120)
def combine(ctx):
    import flavio
    from flavio.classes import Measurement, Observable
    from flavio.statistics.probability import NormalDistribution, MultivariateNormalDistribution
    ctx.patch(Measurement, 'instances', {})
    ctx.patch(Observable, 'instances', {})
    args = ctx.choice('arguments', [None, ['lo', 'hi']])
    Observable('o', arguments=args)
    Observable('p', arguments=args)
    key, other = ('o', 'p') if args is None else (('o', 1., 6.), ('o', 6., 8.))
    second = ctx.choice('second component', [False, True])
    ref = {}
    for i, (n, kind) in enumerate(MEAS.items()):
        m = Measurement(n)
        c, s = ctx.real('c%d' % i, -2, 2), ctx.real('s%d' % i, 0.2, 2)
        d, t = ctx.real('d%d' % i, -2, 2), ctx.real('t%d' % i, 0.2, 2)
        if kind == 'single':
            m.add_constraint([key], NormalDistribution(c, s))
        elif kind == 'pair':
            M = MultivariateNormalDistribution([d, c] if second else [c, d], standard_deviation=[t, s] if second else [s, t], correlation=0.3)
            m.add_constraint([other, key] if second else [key, other], M)
        else:
            m.add_constraint([other], NormalDistribution(c, s))
        if kind != 'other' and not n.startswith('Pseudo'):
            ref[n] = (c, s)
    sel = ctx.choice('include', [None, ['A'], ['B'], ['A', 'C'], ['B', 'C', 'D'], ['D']])
    kw = {} if args is None else {'hi': 6., 'lo': 1.}
    use = [v for n, v in ref.items() if sel is None or n in sel]
    if not use:
        return ctx.raises('nothing to combine', ValueError, flavio.combine_measurements, 'o', include_measurements=sel, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = flavio.combine_measurements('o', include_measurements=sel, **kw)
    W = sum(1 / s ** 2 for c, s in use)
    ctx.check_eq('central value', got.central_value * W, sum(c / s ** 2 for c, s in use), scale=1.)
    ctx.check_eq('error', got.standard_deviation ** 2 * W, 1., scale=1.)
    x = ctx.real('x', -2, 2)
    ctx.check_eq('density', np.ravel(got.logpdf(x) - got.logpdf(0.))[0], sum(-((x - c) ** 2 - c ** 2) / (2 * s ** 2) for c, s in use), scale=1.)


@harness(name='combine/warning')
def combwarn(ctx):
    import flavio
    from flavio.classes import Measurement, Observable
    from flavio.statistics.probability import MultivariateNormalDistribution
    ctx.patch(Measurement, 'instances', {})
    ctx.patch(Observable, 'instances', {})
    Observable('o')
    Observable('p')
    n = ctx.choice('multivariate', [1, 2])
    cs = []
    for i in range(n):
        c, s = ctx.real('c%d' % i, -2, 2), ctx.real('s%d' % i, 0.2, 2)
        cs.append((c, s))
        Measurement('M%d' % i).add_constraint(['p', 'o'], MultivariateNormalDistribution([0.5, c], standard_deviation=[1., s], correlation=0.3))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        got = flavio.combine_measurements('o')
    ctx.check('warned', any('multivariate' in str(r.message) for r in rec) == (n > 1))
    W = sum(1 / s ** 2 for c, s in cs)
    ctx.check_eq('central value', got.central_value * W, sum(c / s ** 2 for c, s in cs), scale=1.)
