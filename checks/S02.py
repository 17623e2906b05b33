"""Convolving uncertainties adds (co)variances; central values are kept ('same') or added ('sum')."""
import itertools
import numpy as np
from engine.run import harness, add_harness

EXPLANATION = (
    'convolve_distributions is executed on symbolic central values, standard deviations, covariances and grid densities. Variances (covariances) of the result must be the sum '
    'of the inputs, for every order of the inputs; numerical convolutions on small symbolic grids must have the mean and variance of the sum of independent variables.')
BOUNDS = ('2-4 univariate normals, 2-3 bivariate normals, with 0-2 deltas; numerical convolution: 2 distributions given on 3 points each, '
          'convolved on 9 output points instead of 10000; standard deviations in [0.05, 5]')
ASSUMPTIONS = ['floats treated as reals, equality up to relative 1e-6', 'FFT convolution replaced by exact convolution']


def P():
    import flavio.statistics.probability as p
    return p


def mk(n, mode):
    def h(ctx):
        p = P()
        c = ctx.real('c', -5, 5)
        cs = [c] * n if mode == 'same' else [ctx.real('c%d' % i, -5, 5) for i in range(n)]
        ss = [ctx.real('s%d' % i, 0.05, 5) for i in range(n)]
        ds = [p.NormalDistribution(a, b) for a, b in zip(cs, ss)]
        k = ctx.choice('order', list(itertools.permutations(range(n)))[:6])
        r = p.convolve_distributions([ds[i] for i in k], mode)
        ctx.check('type', isinstance(r, p.NormalDistribution))
        ctx.check_eq('variance adds', r.standard_deviation ** 2, sum(s * s for s in ss))
        ctx.check_eq('central', r.central_value, c if mode == 'same' else sum(cs), scale=5.)
        x = ctx.real('x', -8, 8)
        v = sum(s * s for s in ss)
        m = c if mode == 'same' else sum(cs)
        ctx.check_eq('density', r.delta_logpdf(x), -(x - m) ** 2 / v / 2, scale=(x - m) ** 2 / v + 1e-3)
    return h


for _n in (2, 3, 4):
    for _m in ('same', 'sum'):
        add_harness(__name__, mk(_n, _m), 'normal/%s/%d' % (_m, _n))


@harness(name='default-is-same')
def default(ctx):
    p = P()
    c, s, t = ctx.real('c', -5, 5), ctx.real('s', 0.1, 3), ctx.real('t', 0.1, 3)
    a, b = p.NormalDistribution(c, s), p.NormalDistribution(c, t)
    r = p.convolve_distributions([a, b])
    ctx.check_eq('central', r.central_value, c)
    ctx.check_eq('variance', r.standard_deviation ** 2, s * s + t * t)
    ctx.check('single', p.convolve_distributions([a]) is a)
    d = ctx.real('d', -5, 5)
    ctx.assume(d != c)
    ctx.raises('different central values', AssertionError, p.convolve_distributions, [a, p.NormalDistribution(d, t)])
    ctx.raises('unknown mode', ValueError, p.convolve_distributions, [a, b], 'mean')
    ctx.raises('dimension mismatch', AssertionError, p.convolve_distributions,
               [a, p.MultivariateNormalDistribution([0., 0.], [[1., 0.], [0., 1.]])])


@harness(name='delta')
def delta(ctx):
    """an exactly known contribution does not change the uncertainty"""
    p = P()
    c, s, t = ctx.real('c', -5, 5), ctx.real('s', 0.1, 3), ctx.real('t', 0.1, 3)
    order = ctx.choice('order', [0, 1, 2])
    l = [p.NormalDistribution(c, s), p.NormalDistribution(c, t)]
    l.insert(order, p.DeltaDistribution(c))
    r = p.convolve_distributions(l, 'same')
    ctx.check_eq('variance', r.standard_deviation ** 2, s * s + t * t)
    ctx.check_eq('central', r.central_value, c)
    r = p.convolve_distributions([p.DeltaDistribution(c), p.DeltaDistribution(c)], 'same')
    ctx.check('delta only', isinstance(r, p.DeltaDistribution))
    ctx.check_eq('delta value', r.central_value, c)
    ctx.raises('sum with delta', NotImplementedError, p.convolve_distributions, l, 'sum')


def mk_mv(n, mode, arr):
    def h(ctx):
        p = P()
        cs, covs, ds = [], [], []
        for i in range(n):
            if mode == 'same' and i:
                cv = cs[0]
            else:
                cv = [ctx.real('c%d%d' % (i, j), -3, 3) for j in range(2)]
            s = [ctx.real('s%d%d' % (i, j), 0.2, 3) for j in range(2)]
            r = ctx.real('r%d' % i, -0.9, 0.9)
            cov = [[s[0] ** 2, r * s[0] * s[1]], [r * s[0] * s[1], s[1] ** 2]]
            cs.append(cv)
            covs.append(cov)
            ds.append(p.MultivariateNormalDistribution(np.array(cv) if arr else list(cv), cov))
        o = ctx.choice('order', [0, 1])
        c = p.convolve_distributions(ds[::-1] if o else ds, mode)
        for a in range(2):
            ctx.check_eq('central %d' % a, c.central_value[a], cs[0][a] if mode == 'same' else sum(x[a] for x in cs), scale=3.)
            for b in range(2):
                ctx.check_eq('cov %d%d' % (a, b), c.covariance[a][b], sum(x[a][b] for x in covs), scale=1e-3)
    return h


for _m in ('same', 'sum'):
    for _a in (0, 1):
        for _n in (2, 3):
            add_harness(__name__, mk_mv(_n, _m, _a), 'multivariate/%s/%d%s' % (_m, _n, '-array' if _a else ''))


@harness(name='multivariate/errors')
def mverr(ctx):
    """what is not implemented is refused, never answered with nothing"""
    p = P()
    y = [[ctx.real('y%d%d' % (i, j), 0.1, 2) for j in range(2)] for i in range(2)]
    a = p.MultivariateNumericalDistribution([[0., 1.], [0., 1.]], np.array(y), [0.5, 0.5])
    b = p.MultivariateNumericalDistribution([[0., 1.], [0., 1.]], np.array(y)[::-1], [0.5, 0.5])
    ctx.raises('two numerical', NotImplementedError, p.convolve_distributions, [a, b], ctx.choice('mode', ['same', 'sum']))
    ctx.raises('unsupported type', ValueError, p.convolve_distributions, [a, p.DeltaDistribution([0.5, 0.5])], 'same')


def small(ctx, n):
    import inspect
    p = P()
    for name in ('_convolve_numerical',):
        f = getattr(p, name, None)
        if f is not None:
            ds = [v for v in inspect.signature(f).parameters.values() if v.default is not v.empty]
            ctx.patch(f, '__defaults__', tuple(n if v.name == 'nsteps' else v.default for v in ds))


def moments(x, y):
    t = sum(y)
    m = sum(a * b for a, b in zip(x, y)) / t
    v = sum(a * a * b for a, b in zip(x, y)) / t - m * m
    return m, v


@harness(name='numerical/moments', time=100)
def num(ctx):
    """grid convolution: mean deviations and variances of the discretised inputs add"""
    p = P()
    small(ctx, 9)
    mode = ctx.choice('mode', ['same', 'sum'])
    c = [0., 0.] if mode == 'same' else ctx.choice('centres', [[0., 0.], [1., -0.5], [2., 3.]])
    ds, disc = [], []
    for i in range(2):
        y = [0.2, ctx.real('y%d' % i, 0.25, 2), ctx.real('z%d' % i, 0.05, 0.9)]
        g = np.array([-1., 0., 1.]) + c[i]
        ds.append(p.NumericalDistribution(g, np.array(y), c[i]))
        xs = np.linspace(-1, 1, 5) + c[i]
        disc.append(moments(xs, [ds[-1].pdf(x) for x in xs]))
    r = p.convolve_distributions(ds, mode)
    m, v = moments(list(r.x), list(r.y))
    ctx.check_eq('central', r.central_value, c[0] if mode == 'same' else sum(c))
    off = sum(d[0] - cc for d, cc in zip(disc, c))
    ctx.check_eq('mean shift adds', m - r.central_value, off, scale=0.1)
    ctx.check_eq('variance adds', v, disc[0][1] + disc[1][1])
    ctx.check_eq('support low', r.support[0], r.central_value - 2)
    ctx.check_eq('support high', r.support[1], r.central_value + 2)
