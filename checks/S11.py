"""Conversions between significances, confidence levels, Δχ² and p-values are consistent; integration and optimisation helpers return what they are named after."""
import math
import numpy as np
import scipy.integrate
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'The conversion functions are executed on symbolic significances with the normal and chi-squared cumulative distributions uninterpreted (only known to be inverse to their quantile functions): '
    'the compositions must be the identity for every value and number of degrees of freedom. The quadrature helpers are executed with scipy.integrate replaced by an arbitrary linear functional, '
    'the robust optimiser with an arbitrary sequence of optimisation results.')
BOUNDS = '1 to 6 degrees of freedom, significances in [0, 5.5]; complex integrands; optimiser: 2 methods, 3 tries, arbitrary outcomes'
ASSUMPTIONS = ['cdf and ppf of scipy.stats.norm and chi2 are inverse to each other', 'floats treated as reals']


@harness(name='conversions', time=60)
def conversions(ctx):
    import scipy.stats
    from flavio.statistics.functions import confidence_level, delta_chi2, pull, pvalue
    n = ctx.real('n', 0, 5.5)
    dof = ctx.choice('dof', [1, 2, 3, 4, 5, 6])
    d = delta_chi2(n, dof)
    ctx.check_eq('pull inverts delta_chi2', pull(d, dof), n, tol=1e-5)
    if dof == 1:
        ctx.check_eq('squared significance', d, n * n)
    else:
        ctx.check_eq('probability content', scipy_cdf(d, dof), confidence_level(n), tol=1e-5)
        ctx.check_eq('p-value of a significance', pvalue(d, dof), 1 - confidence_level(n), scale=1.)
    x = ctx.real('x', 0, 30)
    ctx.check_eq('p-value', pvalue(x, dof) + scipy_cdf(x, dof), 1., scale=1.)
    if dof > 1:
        ctx.check_eq('same confidence', confidence_level(pull(x, dof)), scipy_cdf(x, dof), scale=1.)
    ctx.check_eq('two-sided', confidence_level(n), 2 * norm_cdf(n) - 1, scale=1.)


def scipy_cdf(x, dof):
    from engine import symnp
    from engine.sym import is_sym
    import scipy.stats
    return symnp._chi2('cdf')(x, dof) if is_sym(x) else scipy.stats.chi2.cdf(x, dof)


def norm_cdf(x):
    from engine import symnp
    return symnp.normcdf(x)


@harness(name='conversions/array')
def convarr(ctx):
    """the p-value of an array is the array of the p-values; the confidence level may be given twice"""
    from flavio.statistics.functions import confidence_level, pvalue
    a, b = ctx.real('a', 0, 8), ctx.real('b', 0, 8)
    ctx.check_eq('first', confidence_level(a), 2 * norm_cdf(a) - 1, scale=1.)
    ctx.check_eq('second', confidence_level(b), 2 * norm_cdf(b) - 1, scale=1.)
    ctx.check_eq('first again', confidence_level(a), 2 * norm_cdf(a) - 1, scale=1.)
    p = pvalue(np.array([a, b]), 3)
    ctx.check_eq('array', list(np.ravel(p)), [1 - scipy_cdf(a, 3), 1 - scipy_cdf(b, 3)], scale=1.)


class Rule:
    """scipy.integrate replaced by an arbitrary linear functional with nodes in [a, b]"""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []
        self.w = [ctx.real('w%d' % i, 0, 2) for i in range(3)]
        self.t = [ctx.real('t%d' % i, 0, 1) for i in range(3)]

    def nodes(self, a, b):
        return [a + (b - a) * t for t in self.t]

    def __call__(self, f, a, b, *args, **kw):
        self.calls.append(kw)
        return sum(w * f(x) for w, x in zip(self.w, self.nodes(a, b))), 0.

    def value(self, f, a, b):
        return sum(w * f(x) for w, x in zip(self.w, self.nodes(a, b)))


@harness(name='integrate')
def integrate(ctx):
    import flavio.math.integrate as m
    r = Rule(ctx)
    name = ctx.choice('function', ['nintegrate', 'nintegrate_complex', 'nintegrate_quadrature'])
    ctx.patch(scipy.integrate, 'quadrature' if name == 'nintegrate_quadrature' else 'quad', r)
    a, b = ctx.real('a', -2, 2), ctx.real('b', -2, 2)
    re, im = ctx.ufun('re', -3, 3), ctx.ufun('im', -3, 3)
    if name == 'nintegrate_complex' and ctx.choice('imaginary part', ['general', 'in a part of the range']) != 'general':
        c, slope = ctx.real('c', -2, 2), ctx.real('slope', .5, 2.)
        im = lambda x: slope * (x - c) if x > c else 0. * x
    f = (lambda x: num.cplx(re(x), im(x))) if name == 'nintegrate_complex' else re
    got = getattr(m, name)(f, a, b)
    ex = r.value(f, a, b)
    ctx.check_eq('integral', got, ex, scale=1.)
    k = r.calls[0]
    ctx.check('relative accuracy', (k.get('epsrel', k.get('rtol')), k.get('epsabs', k.get('tol'))) == (0.005, 0))
    getattr(m, name)(f, a, b, epsrel=0.02)
    k = r.calls[-1]
    ctx.check('requested accuracy', k.get('epsrel', k.get('rtol')) == 0.02)


@harness(name='integrate/fast', max_paths=20)
def fast(ctx):
    """linear in the integrand; a cubic polynomial is integrated to the accuracy of the trapezoidal rule on the refined grid"""
    import flavio.math.integrate as m
    a, b = ctx.choice('range', [(0., 2.), (1., 6.), (-1., .5)])
    c = [ctx.real('c%d' % i, .1, 3.) for i in range(4)]
    N = ctx.choice('N', [5, 7])
    seen = []
    got = m.nintegrate_fast(lambda x: seen.append(x) or sum(k * (x - a) ** i for i, k in enumerate(c)), a, b, N=N)
    ctx.check('number of evaluations', len(seen) == N)
    ref = sum(k * (b - a) ** (i + 1) / (i + 1) for i, k in enumerate(c))
    # all terms positive and convex: the trapezoidal rule overestimates
    ctx.check_le('below', ref, got * (1 + 1e-9))
    ctx.check_le('above', got, ref * 1.003)
    default = m.nintegrate_fast(lambda x: seen.append(x) or c[0], a, b)
    ctx.check_eq('constant', default, c[0] * (b - a))


class Opt(dict):
    __getattr__ = dict.__getitem__

    def __setattr__(self, k, v):
        self[k] = v


@harness(name='optimize', time=60)
def optimize(ctx):
    import flavio.math.optimize as m
    methods = ['A', 'B']
    tries = ctx.choice('tries', [1, 2])
    sign = ctx.choice('sign', [1, -1])
    x0 = [ctx.real('x0', -2, 2)]
    f0 = ctx.real('f0', -2, 2)
    f = ctx.ufun('f', -5, 5)
    calls, outcomes = [], []

    def minimize(fun, x, args=(), method=None, options=None, **k):
        i = len(calls)
        ok = ctx.choice('success%d' % i, [False, True])
        xi = ctx.real('x%d' % (i + 1), -2, 2)
        calls.append((list(x), method, fun([xi], *args), options))
        outcomes.append(Opt(success=ok, fun=fun([xi], *args), x=[xi]))
        return outcomes[-1]
    ctx.patch(m, 'minimize', minimize)
    g = lambda x, p: f(x[0], p)
    par = ctx.real('p', -1, 1)
    fct = m.minimize_robust if sign == 1 else m.maximize_robust
    res = fct(g, list(x0), args=(par,), methods=tuple(methods), tries=tries)
    n = len(calls)
    last = outcomes[-1]
    ctx.check('stops at the first success', all(not o.success for o in outcomes[:-1]) and (last.success or n == tries * len(methods)))
    ctx.check('methods in turn', [c[1] for c in calls] == (methods * tries)[:n])
    ctx.check('returned', res is last)
    ctx.check_eq('value', res.fun, f(res.x[0], par))
    # starting points: the best point so far
    best, val = x0[0], sign * f(x0[0], par)
    for i, (x, _, _, _) in enumerate(calls):
        ctx.check_eq('start %d' % i, x[0], best)
        xi = outcomes[i].x[0]
        fi = sign * f(xi, par)
        if fi < val:
            best, val = xi, fi


@harness(name='optimize/MIGRAD', max_paths=60)
def migrad(ctx):
    import flavio.math.optimize as m
    import sys
    import types
    sign = ctx.choice('sign', [1, -1])
    valid = [ctx.choice('valid', [True, False]), ctx.choice('success', [True, False])]
    x0, x1, x2, p = [ctx.real(n, -2, 2) for n in ('x0', 'x1', 'x2', 'p')]
    f = ctx.ufun('f', -5, 5)
    starts = []

    class Minuit:
        LEAST_SQUARES = 1

        def __init__(self, fcn, x):
            self.fcn, self.x = fcn, list(x)
            starts.append(self.x[0])

        def migrad(self):
            self.values = [x1]
            self.fmin = types.SimpleNamespace(is_valid=valid[0], fval=self.fcn([x1]), nfcn=7)
            return self
    fake = types.ModuleType('iminuit')
    fake.Minuit = Minuit
    fake.util = types.SimpleNamespace(make_func_code=lambda *a: None)

    def minimize(fun, x, args=(), method=None, options=None, **k):
        starts.append(x[0])
        return Opt(success=valid[1], fun=fun([x2], *args), x=[x2])
    ctx.patch(m, 'minimize', minimize)
    g = lambda x, q: f(x[0], q)
    saved = sys.modules.get('iminuit')
    sys.modules['iminuit'] = fake
    try:
        res = (m.minimize_robust if sign == 1 else m.maximize_robust)(g, [x0], args=(p,), methods=('MIGRAD', 'B'), tries=1)
    finally:
        if saved is None:
            del sys.modules['iminuit']
        else:
            sys.modules['iminuit'] = saved
    ctx.check('stops at success', len(starts) == (1 if valid[0] else 2))
    ctx.check_eq('start', starts[0], x0)
    x = x1 if valid[0] else x2
    ctx.check_eq('point', res.x[0], x)
    ctx.check_eq('value', res.fun, f(x, p))
    ctx.check('success', bool(res.success) == (valid[0] or valid[1]))
    if not valid[0]:
        ctx.check_eq('restart', starts[1], x1 if sign * f(x1, p) < sign * f(x0, p) else x0)


@harness(name='normal')
def normal(ctx):
    """the fast normal density is the normal density"""
    import flavio.math.functions as m
    x, mu, s = ctx.real('x', -3, 3), ctx.real('mu', -3, 3), ctx.real('s', 0.1, 3)
    ref = -(x - mu) ** 2 / (2 * s * s) - num.log(s) - math.log(2 * math.pi) / 2
    ctx.check_eq('log', m.normal_logpdf(x, mu, s), ref, scale=1.)
    ctx.check_eq('density', m.normal_pdf(x, mu, s), num.exp(ref), scale=1.)
    y = ctx.real('y', -3, 3)
    arr = m.normal_logpdf(np.array([x, y]), mu, s)
    ctx.check_eq('array', list(arr), [ref, -(y - mu) ** 2 / (2 * s * s) - num.log(s) - math.log(2 * math.pi) / 2], scale=1.)
    ctx.check_eq('array density', m.normal_pdf(np.array([x, y]), mu, s)[0], num.exp(ref), scale=1.)


@harness(name='special functions')
def special(ctx):
    """the dilogarithm is Spence's function of 1-x; the zeta function is Hurwitz' at 1; the exponential integral is the principal value"""
    import flavio.math.functions as m
    import scipy.special
    from engine import symnp
    from engine.sym import is_sym
    fn = lambda n: lambda x: getattr(symnp.SPECIAL if is_sym(x) else scipy.special, n)(x)
    S, Ei = fn('spence'), fn('expi')
    Z = ctx.ufun('zeta', 1., 2.)
    ctx.patch(scipy.special, 'zeta', lambda x, q=1: Z(x, q))
    x = ctx.real('x', -1., 1.)
    ctx.check_eq('dilogarithm', m.li2(x), S(1 - x), scale=1.)
    y = ctx.real('y', 1.5, 4.)
    ctx.check_eq('zeta', m.zeta(y), Z(y, 1), scale=1.)
    ctx.check_eq('Ei', m.ei(y), Ei(y), scale=1.)


@harness(name='units')
def units(ctx):
    """natural units: c = hbar = 1 and the prefixes are powers of ten"""
    from flavio.physics import units as u
    x = ctx.real('x', 0.1, 10)
    ctx.check_eq('speed of light', 299792458 * (x * u.meter), x * u.s)
    ctx.check_eq('hbar', 1.054571817e-34 * u.J * u.s * x, x * u.hbar, tol=1e-8)
    ctx.check_eq('Planck constant', x * u.h, 2 * math.pi * u.hbar * x)
    ctx.check_eq('hbar c', x * 0.1973269804 * u.GeV * u.fm, x, tol=1e-8)
    ctx.check_eq('electron volt', x * u.eV, x * 1.602176634e-19 * u.J)
    for a, b, k in (('TeV', 'GeV', 1e3), ('GeV', 'MeV', 1e3), ('MeV', 'keV', 1e3), ('keV', 'eV', 1e3), ('s', 'ms', 1e3), ('ms', 'ns', 1e6), ('ns', 'ps', 1e3),
                    ('meter', 'mm', 1e3), ('mm', 'nm', 1e6), ('nm', 'pm', 1e3), ('pm', 'fm', 1e3)):
        ctx.check_eq('%s / %s' % (a, b), x * getattr(u, a), k * x * getattr(u, b))
