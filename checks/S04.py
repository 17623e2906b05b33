"""Univariate and numerical distributions: density, quantiles, errors, support and samples agree with the definition."""
import math
import numpy as np
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'Every distribution class is built from symbolic parameters; log density, cumulative distribution, quantile function, errors, support and samples '
    '(numpy.random replaced by arbitrary draws) are compared with the definition of the distribution for all values.')
BOUNDS = ('parameters in the ranges of the harnesses (central values up to 5, widths 0.05..5, lognormal factors 1.05..4, gamma counts 0..8); '
          'numerical distributions on 3 or 4 symbolic density points (1d), 2x2 or 2x3 points (2d); one or two draws per sample')
ASSUMPTIONS = ['floats treated as reals', 'normal and gamma cumulative distributions are uninterpreted monotone functions with their inverses (closed forms of scipy.stats)',
               'numpy.random draws: uniform in [0.001, 0.999], normal within 5 sigma, integers of the requested range']
LN2PI = math.log(2 * math.pi)


def P():
    import flavio.statistics.probability as p
    return p


def npdf(x, m, s):
    return -(x - m) ** 2 / s ** 2 / 2 - LN2PI / 2 - num.log(s)


@harness(name='normal')
def normal(ctx):
    p = P()
    m, s, x = ctx.real('m', -5, 5), ctx.real('s', 0.05, 5), ctx.real('x', -8, 8)
    d = p.NormalDistribution(m, s)
    ctx.check_eq('logpdf', d.logpdf(x), npdf(x, m, s), scale=1.)
    ctx.check_eq('pdf', d.pdf(x), num.exp(npdf(x, m, s)), atol=1e-12)
    n = ctx.real('n', 0.1, 4)
    ctx.check_eq('left', d.get_error_left(n), n * s)
    ctx.check_eq('right', d.get_error_right(n), n * s)
    ctx.check_eq('error_left', d.error_left, s)
    ctx.check_eq('error_right', d.error_right, s)
    ctx.check_eq('support', list(d.support), [m - 6 * s, m + 6 * s], scale=1.)
    ctx.check_eq('delta_logpdf', d.delta_logpdf(x), -(x - m) ** 2 / s ** 2 / 2, scale=1.)
    q = ctx.real('q', 0.05, 0.95)
    ctx.check_eq('cdf of ppf', d.cdf(d.ppf(q)), q)
    ctx.check_eq('cdf', d.cdf(m + s * n), num_cdf(n), scale=1.)
    ctx.check_eq('probability of the 1 sigma interval', d.cdf(m + d.error_right) - d.cdf(m - d.error_left), 0.6826894921370859, tol=1e-5)
    r = ctx.random()
    y = d.get_random()
    ctx.check_eq('sample', y, m + s * r.draws[0], scale=1.)
    ctx.check('sizes', np.shape(d.get_random(3)) == (3,))


def num_cdf(z):
    from engine.symnp import normcdf
    return normcdf(z)


def num_ppf(z):
    from engine.symnp import normppf
    return normppf(z)


@harness(name='normal/invalid')
def invalid(ctx):
    p = P()
    s = ctx.real('s', -3, 0)
    t = ctx.real('t', 0.1, 2)
    ctx.raises('normal', ValueError, p.NormalDistribution, 1., s)
    ctx.raises('asym right', ValueError, p.AsymmetricNormalDistribution, 1., s, t)
    ctx.raises('asym left', ValueError, p.AsymmetricNormalDistribution, 1., t, s)
    ctx.raises('half', ValueError, p.HalfNormalDistribution, 1., 0.)
    ctx.raises('lognormal zero', ValueError, p.LogNormalDistribution, 0., 1 + t)
    ctx.raises('lognormal factor', ValueError, p.LogNormalDistribution, 1., 1 + s)
    ctx.raises('limit', ValueError, p.GaussianUpperLimit, s, 0.9)
    ctx.raises('confidence level', ValueError, p.GaussianUpperLimit, t, 1 + t)
    ctx.raises('confidence level', ValueError, p.GaussianUpperLimit, t, -t)
    ctx.raises('gamma loc', ValueError, p.GammaDistribution, 2., t, 1.)
    ctx.raises('gamma loc', ValueError, p.GammaDistributionPositive, 2., t, 1.)
    ctx.raises('numerical central', ValueError, p.NumericalDistribution, np.array([0., 1., 2.]), np.array([1., 2., 1.]), 2 + t)
    ctx.raises('numerical central', ValueError, p.NumericalDistribution, np.array([0., 1., 2.]), np.array([1., 2., 1.]), -t)


@harness(name='uniform')
def uniform(ctx):
    p = P()
    m, h, x = ctx.real('m', -5, 5), ctx.real('h', 0.05, 5), ctx.real('x', -12, 12)
    d = p.UniformDistribution(m, h)
    ctx.assume(abs(x - m) != h)
    l = d.logpdf(x)
    if abs(x - m) < h:
        ctx.check_eq('inside', l, -num.log(2 * h), scale=1.)
    else:
        ctx.check_eq('outside', l, -math.inf)
    ctx.check_eq('support', list(d.support), [m - h, m + h], scale=1.)
    n = ctx.choice('nsigma', [1, 2, 3])
    ctx.check_eq('left', d.get_error_left(n), h * (2 * num_cdf(float(n)) - 1))
    ctx.check_eq('right', d.get_error_right(n), h * (2 * num_cdf(float(n)) - 1))
    ctx.random()
    y = d.get_random()
    ctx.check_le('sample low', m - h, y)
    ctx.check_le('sample high', y, m + h)


@harness(name='discrete-uniform', max_paths=700)
def discrete(ctx):
    p = P()
    a = ctx.choice('a', [-2, 0, 1])
    b = a + ctx.choice('width', [0, 1, 2, 5])
    d = p.DiscreteUniformDistribution(a, b)
    x = ctx.choice('x', list(range(-4, 8)))
    l = d.logpdf(x)
    ctx.check_eq('logpdf', float(l), -math.log(b - a + 1) if a <= x <= b else -math.inf)
    ctx.check_eq('half integer', float(d.logpdf(x + 0.5)), -math.inf)
    ctx.check('central', a <= d.central_value <= b)
    c = ctx.choice('c', [-3, 0, 4, 9])
    if a <= c <= b:
        ctx.check('central value', p.DiscreteUniformDistribution(a, b, c).central_value == c)
    else:
        ctx.raises('central value outside', ValueError, p.DiscreteUniformDistribution, a, b, c)


@harness(name='discrete-uniform/sample')
def discrete_sample(ctx):
    p = P()
    a = ctx.choice('a', [-2, 0, 1])
    b = a + ctx.choice('width', [0, 1, 3])
    d = p.DiscreteUniformDistribution(a, b)
    r = ctx.random()
    y = d.get_random()
    ctx.check('sample is the draw', y == r.draws[0] and a <= y <= b)
    seen = ctx.note('')


@harness(name='delta')
def delta(ctx):
    p = P()
    m, x = ctx.real('m', -5, 5), ctx.real('x', -5, 5)
    d = p.DeltaDistribution(m)
    ctx.assume(x != m)
    ctx.check_eq('at', d.logpdf(m), 0.)
    ctx.check_eq('off', d.logpdf(x), -math.inf)
    ctx.check_eq('array', list(d.logpdf(np.array([x, m, x]))), [-math.inf, 0., -math.inf])
    ctx.check_eq('sample', d.get_random(), m)
    ctx.check_eq('samples', list(d.get_random(2)), [m, m])
    ctx.check_eq('errors', [d.error_left, d.error_right, d.get_error_left(2)], [0, 0, 0])
    ctx.check_eq('support', list(d.support), [m, m])


@harness(name='lognormal')
def lognormal(ctx):
    p = P()
    c, f, y = ctx.real('c', 0.2, 5), ctx.real('f', 1.05, 4), ctx.real('y', 0.1, 8)
    sg = ctx.choice('sign', [1, -1])
    d = p.LogNormalDistribution(sg * c, f)
    mu, s = num.log(c), num.log(f)
    ref = -(num.log(y) - mu) ** 2 / s ** 2 / 2 - LN2PI / 2 - num.log(s) - num.log(y)
    ctx.check_eq('logpdf', d.logpdf(sg * y), ref, scale=1.)
    ctx.check_eq('wrong sign', d.logpdf(-sg * y), -math.inf)
    ctx.check_eq('central', d.central_value, sg * c)
    q = ctx.real('q', 0.05, 0.95)
    ctx.check_eq('cdf of ppf', d.cdf(d.ppf(q)), q)
    z = (num.log(y) - mu) / s
    ctx.check_eq('cdf', d.cdf(sg * y), num_cdf(z) if sg > 0 else 1 - num_cdf(z), scale=1.)
    ctx.check_eq('68% interval up', sg * c + d.error_right, sg * c * f if sg > 0 else sg * c / f)
    ctx.check_eq('68% interval down', sg * c - d.error_left, sg * c / f if sg > 0 else sg * c * f)
    ctx.check_eq('2 sigma up', sg * c + d.get_error_right(2), sg * c * f ** 2 if sg > 0 else sg * c / f ** 2)
    ctx.check_eq('2 sigma down', sg * c - d.get_error_left(2), sg * c / f ** 2 if sg > 0 else sg * c * f ** 2)
    lo, hi = d.support
    ctx.check('support ordered', lo < hi)
    ctx.check_eq('support is the 6 sigma range', [lo, hi], [0., c * f ** 6] if sg > 0 else [-c * f ** 6, 0.], scale=1.)
    r = ctx.random()
    v = d.get_random()
    ctx.check_eq('sample', v, sg * c * num.exp(s * r.draws[0]))


@harness(name='asymmetric')
def asym(ctx):
    p = P()
    m, a, b = ctx.real('m', -5, 5), ctx.real('r', 0.05, 5), ctx.real('l', 0.05, 5)
    d = p.AsymmetricNormalDistribution(m, right_deviation=a, left_deviation=b)
    x = ctx.real('x', -8, 8)
    s = b if x < m else a
    ctx.check_eq('logpdf', d.logpdf(x), math.log(2) - LN2PI / 2 - num.log(a + b) - (x - m) ** 2 / s ** 2 / 2, scale=1.)
    n = ctx.real('n', 0.5, 4)
    ctx.check_eq('left', d.get_error_left(n), n * b)
    ctx.check_eq('right', d.get_error_right(n), n * a)
    ctx.check_eq('support', list(d.support), [m - 6 * b, m + 6 * a], scale=1.)


@harness(name='asymmetric/sample')
def asym_sample(ctx):
    p = P()
    m, a, b = ctx.real('m', -5, 5), ctx.real('r', 0.05, 5), ctx.real('l', 0.05, 5)
    d = p.AsymmetricNormalDistribution(m, a, b)
    r = ctx.random()
    y = d.get_random()
    u, z = r.draws
    ctx.assume(abs(z) > 0.01)
    left = u < b / (a + b)
    ctx.assume(u != b / (a + b))
    if left:
        ctx.check_eq('left sample', (m - y) ** 2, b * b * z * z, scale=1.)
        ctx.check('side', y < m)
    else:
        ctx.check_eq('right sample', (m - y) ** 2, a * a * z * z, scale=1.)
        ctx.check('side', y > m)


@harness(name='half-normal')
def half(ctx):
    p = P()
    m, s = ctx.real('m', -5, 5), ctx.real('s', 0.05, 5)
    sg = ctx.choice('sign', [1, -1])
    d = p.HalfNormalDistribution(m, sg * s)
    t = ctx.real('t', 0.01, 8)
    ctx.check_eq('inside', d.logpdf(m + sg * t), math.log(2) + npdf(t, 0, s), scale=1.)
    ctx.check_eq('outside', d.logpdf(m - sg * t), -math.inf)
    q = ctx.real('q', 0.05, 0.95)
    ctx.check_eq('cdf of ppf', d.cdf(d.ppf(q)), q)
    c = 2 * num_cdf(t / s) - 1
    ctx.check_eq('cdf inside', d.cdf(m + sg * t), c if sg > 0 else 1 - c, scale=1.)
    ctx.check_eq('cdf outside', d.cdf(m - sg * t), 0. if sg > 0 else 1.)
    n = ctx.real('n', 0.5, 4)
    ctx.check_eq('errors', [d.get_error_left(n), d.get_error_right(n)], [0, n * s] if sg > 0 else [n * s, 0])
    ctx.check_eq('support', list(d.support), [m, m + 6 * s] if sg > 0 else [m - 6 * s, m], scale=1.)
    ctx.random()
    y = d.get_random()
    ctx.check_le('sample side', 0, sg * (y - m))


@harness(name='gaussian-limit')
def limit(ctx):
    p = P()
    l, cl = ctx.real('l', 0.01, 5), ctx.real('cl', 0.5, 0.99)
    d = p.GaussianUpperLimit(l, cl)
    ctx.check_eq('mode', d.central_value, 0.)
    ctx.check_eq('probability below the limit', d.cdf(l), cl, scale=1.)
    ctx.check_eq('limit is the quantile', d.ppf(cl), l)
    ctx.check_eq('left', d.error_left, 0)
    ctx.check_eq('width', d.error_right * num_ppf((1 + cl) / 2), l)
    ctx.check_eq('negative excluded', d.logpdf(-l), -math.inf)


def num_gppf(a, q):
    import scipy.stats
    from engine.symnp import STATS
    return STATS.gamma.ppf(q, a)


def gcdf(a, z):
    import scipy.stats
    from engine.symnp import STATS
    return STATS.gamma.cdf(z, a)


@harness(name='gamma')
def gamma(ctx):
    p = P()
    a, loc, sc = ctx.real('a', 1.1, 8), ctx.real('loc', -5, 0), ctx.real('sc', 0.1, 3)
    d = p.GammaDistribution(a, loc, sc)
    x = ctx.real('x', 0.1, 8)
    ctx.check_eq('mode', d.central_value, loc + (a - 1) * sc, scale=1.)
    m = loc + (a - 1) * sc
    y = loc + x
    ref = (a - 1) * (num.log(x / sc) - num.log(a - 1)) - x / sc + (a - 1)
    ctx.check_eq('density relative to the mode', d.logpdf(y) - d.logpdf(m), ref, scale=1.)
    ctx.check_eq('cdf', d.cdf(y), gcdf(a, x / sc), scale=1.)
    q = ctx.real('q', 0.05, 0.95)
    ctx.check_eq('cdf of ppf', d.cdf(d.ppf(q)), q)


@harness(name='gamma-positive', time=80)
def gammap(ctx):
    p = P()
    a, loc, sc = ctx.real('a', 1.1, 8), ctx.real('loc', -3, -0.05), ctx.real('sc', 0.3, 3)
    d = p.GammaDistributionPositive(a, loc, sc)
    g = p.GammaDistribution(a, loc, sc)
    x = ctx.real('x', 0.05, 8)
    F0 = gcdf(a, -loc / sc)
    ctx.check_eq('below zero', d.logpdf(-x), -math.inf)
    ctx.check_eq('renormalised density', d.logpdf(x), g.logpdf(x) - num.log(1 - F0), scale=1.)
    ctx.check_eq('cdf', d.cdf(x) * (1 - F0), g.cdf(x) - F0, scale=1.)
    ctx.check_eq('cdf below zero', d.cdf(-x), 0.)
    q = ctx.real('q', 0.05, 0.95)
    ctx.check_eq('cdf of ppf', d.ppf(q), g.ppf(F0 + q * (1 - F0)))
    m = loc + (a - 1) * sc
    ctx.check_eq('mode', d.central_value, m if m > 0 else 0., scale=1.)


def mk_gamma_errors(name, positive):
    def f(ctx):
        """the interval between the errors contains the probability of n sigma and has equal densities at its ends"""
        import scipy.optimize
        p = P()
        a, loc, sc = ctx.real('a', 1.1, 8), ctx.real('loc', -3, -0.05), ctx.real('sc', 0.3, 3)
        d = (p.GammaDistributionPositive if positive else p.GammaDistribution)(a, loc, sc)
        n = ctx.choice('n', [1, 2])
        cl = 2 * num_cdf(float(n)) - 1
        root = ctx.real('root', 0.001, 0.04)
        rec = []
        if positive:
            # true by monotonicity of the quantile function
            for q in (root, root + cl, cl):
                ctx.assume(d.ppf(q) > 0)

        def brentq(f, lo, hi, *args, **kw):
            rec.append((f(root), lo, hi))
            return root
        ctx.patch(scipy.optimize, 'brentq', brentq)
        l, r = d.get_error_left(n), d.get_error_right(n)
        c = d.central_value
        ctx.check_eq('probability of the interval', d.cdf(c + r) - d.cdf(c - l), cl, scale=1.)
        if rec:
            ctx.check_eq('lower end', d.cdf(c - l), root)
            for g, lo, hi in rec:
                ctx.check_eq('equal densities', g, d.logpdf(c - l) - d.logpdf(c + r), scale=1.)
                ctx.check('range searched', lo <= root and root + cl < 1 and hi + cl > 0.999)
        else:
            ctx.check_eq('reaches zero', c - l, 0., scale=1.)
    add_harness(__name__, f, name, time=80, bounds='1 and 2 sigma; root finding replaced by an arbitrary root')


mk_gamma_errors('gamma-errors', False)
mk_gamma_errors('gamma-positive-errors', True)


@harness(name='counting', time=80)
def counting(ctx):
    """any two of the three counts define the same distribution"""
    p = P()
    tot, bg, sf = ctx.real('tot', 0.5, 8), ctx.real('bg', 0.05, 5), ctx.real('sf', 0.1, 3)
    give = ctx.choice('given', ['tb', 'ts', 'bs'])
    k = {}
    if 't' in give:
        k['counts_total'] = tot
    if 'b' in give:
        k['counts_background'] = bg
    if 's' in give:
        k['counts_signal'] = tot - bg
    d = p.GammaCountingProcess(scale_factor=sf, **k)
    ctx.check_eq('a', d.a, tot + 1)
    ctx.check_eq('loc', d.loc, -bg * sf)
    ctx.check_eq('scale', d.scale, sf)
    ctx.check_eq('counts', [d.counts_total, d.counts_background, d.counts_signal], [tot, bg, tot - bg], scale=1.)
    s = (tot - bg) * sf
    ctx.check_eq('most probable value', d.central_value, s if s > 0 else 0., scale=1.)
    ctx.raises('negative total', ValueError, lambda: p.GammaCountingProcess(counts_total=-tot, counts_background=bg))
    ctx.raises('negative background', ValueError, lambda: p.GammaCountingProcess(counts_total=tot, counts_background=-bg))
    ctx.raises('scale', ValueError, lambda: p.GammaCountingProcess(scale_factor=-sf, counts_total=tot, counts_background=bg))
    ctx.raises('one given', ValueError, lambda: p.GammaCountingProcess(counts_total=tot))
    ctx.raises('inconsistent', ValueError, lambda: p.GammaCountingProcess(counts_total=tot, counts_background=bg, counts_signal=tot - bg + 0.5))


@harness(name='gamma-limit', time=80)
def gammalimit(ctx):
    """the probability below the limit is the confidence level"""
    p = P()
    l, cl = ctx.real('l', 0.05, 5), ctx.real('cl', 0.5, 0.99)
    tot, bg = ctx.real('tot', 0.5, 6), ctx.real('bg', 0.05, 3)
    ctx.assume(num_gppf(tot + 1, (1 - gcdf(tot + 1, bg)) * cl + gcdf(tot + 1, bg)) > bg)
    d = p.GammaUpperLimit(limit=l, confidence_level=cl, counts_total=tot, counts_background=bg)
    F0 = gcdf(tot + 1, bg)
    ctx.check_eq('confidence level', d.cdf(l) * (1 - F0), cl * (1 - F0), scale=1.)
    ctx.check_eq('counts', [d.counts_total, d.counts_background, d.limit, d.confidence_level], [tot, bg, l, cl])
    ctx.raises('limit', ValueError, lambda: p.GammaUpperLimit(limit=-l, confidence_level=cl, counts_total=tot, counts_background=bg))
    ctx.raises('cl', ValueError, lambda: p.GammaUpperLimit(limit=l, confidence_level=1 + cl, counts_total=tot, counts_background=bg))


def numdist(ctx, n=3):
    p = P()
    g = {3: [-1., ctx.real('g', -0.4, 0.4), 1.5], 4: [-1., -0.25, 0.5, 1.5]}[n]
    y = [ctx.real('y%d' % i, 0.1, 2) for i in range(n)]
    return g, y


@harness(name='numerical/density')
def numd(ctx):
    p = P()
    g, y = numdist(ctx, 3)
    d = p.NumericalDistribution(np.array(g), np.array(y), g[1])
    area = (g[1] - g[0]) * (y[0] + y[1]) / 2 + (g[2] - g[1]) * (y[1] + y[2]) / 2
    for i in range(3):
        ctx.check_eq('grid point %d' % i, d.pdf(g[i]) * area, y[i])
    t = ctx.real('t', 0.01, 0.99)
    for i in range(2):
        ctx.check_eq('interpolated %d' % i, d.pdf(g[i] + t * (g[i + 1] - g[i])) * area, y[i] + t * (y[i + 1] - y[i]))
    ctx.check_eq('logpdf', d.logpdf(g[0] + t * (g[1] - g[0])), num.log((y[0] + t * (y[1] - y[0])) / area), scale=1.)
    ctx.check_eq('outside', [d.pdf(g[0] - t), d.pdf(g[2] + t)], [0., 0.])
    ctx.check_eq('support', list(d.support), [g[0], g[2]])
    ctx.check_eq('central', d.central_value, g[1], scale=1.)
    m = p.NumericalDistribution(np.array(g), np.array(y))
    ctx.check('default central value is the mode', [m.pdf(m.central_value) >= m.pdf(v) for v in g][0])
    for v in g:
        ctx.check_le('mode', m.pdf(v), m.pdf(m.central_value))


@harness(name='numerical/quantiles')
def numq(ctx):
    p = P()
    g, y = numdist(ctx, 4)
    d = p.NumericalDistribution(np.array(g), np.array(y), g[1])
    q, q2 = ctx.real('q', 0.05, 0.95), ctx.real('q2', 0.05, 0.95)
    ctx.check_eq('cdf of ppf', d.cdf(d.ppf(q)), q)
    ctx.check_eq('ends', [d.cdf(g[0]), d.cdf(g[3])], [0., 1.])
    ctx.check_eq('ppf ends', [d.ppf(0.), d.ppf(1.)], [g[0], g[3]])
    ctx.assume(q < q2)
    ctx.check_le('monotone', d.ppf(q), d.ppf(q2))
    r = ctx.random()
    v = d.get_random()
    ctx.check_eq('sample', d.cdf(v), r.draws[0])


@harness(name='numerical/errors', time=80)
def nume(ctx):
    p = P()
    g, y = numdist(ctx, 4)
    d = p.NumericalDistribution(np.array(g), np.array(y), g[1])
    n = ctx.choice('nsigma', [1, 2])
    cl = 2 * num_cdf(float(n)) - 1
    c = d.cdf(g[1])
    m = ctx.choice('method', ['central', 'limit', 'unknown'])
    if m == 'unknown':
        ctx.raises('left', ValueError, d.get_error_left, 1, m)
        ctx.raises('right', ValueError, d.get_error_right, 1, m)
    elif m == 'limit':
        ctx.check_eq('upper limit', d.cdf(g[1] + d.get_error_right(n, method=m)), cl)
        ctx.check_eq('lower limit', d.cdf(g[1] - d.get_error_left(n, method=m)), 1 - cl, scale=1.)
    else:
        ctx.check_eq('right', d.cdf(g[1] + d.get_error_right(n)) - c, (1 - c) * cl, scale=1.)
        ctx.check_eq('left', c - d.cdf(g[1] - d.get_error_left(n)), c * cl, scale=1.)
        ctx.check_le('left is positive', 0., d.get_error_left(n, method=m))
        ctx.check_le('right is positive', 0., d.get_error_right(n, method=m))


@harness(name='numerical/from-distribution')
def frompd(ctx):
    p = P()
    m, s = ctx.real('m', -2, 2), ctx.real('s', 0.3, 2)
    k = ctx.choice('kind', ['normal', 'asym', 'half', 'lognormal'])
    d = {'normal': lambda: p.NormalDistribution(m, s), 'asym': lambda: p.AsymmetricNormalDistribution(m, s, 2 * s),
         'half': lambda: p.HalfNormalDistribution(m, s), 'lognormal': lambda: p.LogNormalDistribution(-1 - s, 1.5)}[k]()
    n = p.NumericalDistribution.from_pd(d, nsteps=4)
    ctx.check('length', len(n.x) == 4 and len(n.y) == 4)
    ctx.check_eq('grid', [n.x[0], n.x[3]], [d.support[0], d.support[1]], scale=1.)
    ctx.check_eq('central', n.central_value, d.central_value)
    for i in range(4):
        l = d.logpdf(n.x[i])
        ctx.check_eq('density %d' % i, n.y[i], 0. if isinstance(l, float) and l == -math.inf else num.exp(l), atol=1e-12)
    ctx.check('numerical is returned', p.NumericalDistribution.from_pd(n) is n)


def mv2(ctx, shape=(2, 2), cv=True):
    p = P()
    y = np.array([[ctx.real('y%d%d' % (i, j), 0.1, 2) for j in range(shape[1])] for i in range(shape[0])])
    xi = [list(np.linspace(0., 2., shape[0])), list(np.linspace(-1., 2., shape[1]))]
    return xi, y, p.MultivariateNumericalDistribution(xi, y, [1., 0.5] if cv else None)


@harness(name='multivariate-numerical/density')
def mvnd(ctx):
    xi, y, d = mv2(ctx, (2, 2))
    vol = 2. * 3.
    tot = sum(y[i, j] for i in range(2) for j in range(2))
    for i in range(2):
        for j in range(2):
            ctx.check_eq('grid %d%d' % (i, j), d.logpdf([xi[0][i], xi[1][j]]), num.log(y[i, j] / tot / vol), scale=1.)
    ctx.check_eq('support', [list(s) for s in d.support], [[0., -1.], [2., 2.]])
    ctx.check_eq('outside', d.logpdf([3., 0.]), -math.inf)
    ctx.check_eq('array of points', list(d.logpdf(np.array([[xi[0][0], xi[1][0]], [xi[0][1], xi[1][1]]]))),
                 [num.log(y[0, 0] / tot / vol), num.log(y[1, 1] / tot / vol)], scale=1.)
    ctx.raises('1d errors', NotImplementedError, d.get_error_left)
    ctx.raises('1d errors', NotImplementedError, d.get_error_right)


@harness(name='multivariate-numerical/mode')
def mvnm(ctx):
    """without a central value the mode is used and the support is known"""
    xi, y, d = mv2(ctx, (2, 2), cv=False)
    c = d.central_value
    ctx.check('on the grid', c[0] in xi[0] and c[1] in xi[1])
    i, j = xi[0].index(c[0]), xi[1].index(c[1])
    for a in range(2):
        for b in range(2):
            ctx.check_le('mode', y[a, b], y[i, j])
    ctx.check_eq('support', [list(s) for s in d.support], [[0., -1.], [2., 2.]])


@harness(name='multivariate-numerical/profile', time=80)
def mvnp(ctx):
    """excluded dimensions are profiled out"""
    p = P()
    xi, y, d = mv2(ctx, (2, 2))
    ex = ctx.choice('exclude', [0, 1])
    e = ctx.choice('form', ['int', 'list'])
    r = d.reduce_dimension(exclude=ex if e == 'int' and ex else [ex])
    ctx.check('type', isinstance(r, p.NumericalDistribution))
    k = 1 - ex
    prof = []
    for i in range(2):
        a, b = (y[0, i], y[1, i]) if ex == 0 else (y[i, 0], y[i, 1])
        prof.append(a if a > b else b)
    w = xi[k][1] - xi[k][0]
    tot = (prof[0] + prof[1]) / 2 * w
    for i in range(2):
        ctx.check_eq('profile %d' % i, r.pdf(xi[k][i]), prof[i] / tot)
        ctx.check_eq('logpdf %d' % i, d.logpdf(xi[k][i], exclude=[ex]), num.log(prof[i] / tot), scale=1.)
    ctx.check_eq('central', np.ravel(r.central_value)[0], [1., 0.5][k])


@harness(name='multivariate-numerical/sample', time=80)
def mvns(ctx):
    """a cell is drawn with its probability, never one of zero density"""
    p = P()
    xi = [[0., 2.], [-1., 0.5, 2.]]
    kill = ctx.choice('zero', [None, 0, 3, 5])
    flat = [0. if i == kill else ctx.real('y%d' % i, 0.1 + 0.3 * i, 0.3 + 0.3 * i) for i in range(6)]
    d = p.MultivariateNumericalDistribution(xi, np.array(flat).reshape(2, 3), [1., 0.5])
    r = ctx.random()
    v = d.get_random()
    u = r.draws[0]
    tot = sum(flat)
    i = int_round(ctx, (v[0] - 0.) / 2., 2)
    j = int_round(ctx, (v[1] + 1.) / 1.5, 3)
    k = 3 * i + j
    ctx.check('not a zero-density cell', k != kill)
    ctx.check_le('not before its cumulative range', sum(flat[:k]), u * tot)
    ctx.check_le('not after its cumulative range', u * tot, sum(flat[:k + 1]))


def int_round(ctx, x, n):
    for i in range(n):
        if abs(x - i) <= 0.5:
            return i
    ctx.check('inside the grid cells', False)
    return 0
