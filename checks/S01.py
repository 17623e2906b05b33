"""Combining independent measurements of one quantity multiplies their probability densities.

The combination functions are executed on symbolic central values, standard
deviations, covariances and evaluation points; the solver decides that the log
density of the result differs from the sum of the input log densities by a
constant, and that the result is the same for every order of the inputs."""
import itertools
import numpy as np
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'combine_distributions, weighted_average and the classes they build are executed on symbolic numbers. '
    'Two evaluation points x, y are symbolic: logpdf(x) - logpdf(y) of the result must equal the sum of the same differences of the inputs '
    '(this is exactly "product of densities up to normalisation"). Decided by z3 (after rational normalisation).')
BOUNDS = ('2 or 3 univariate normals; 2 or 3 two-dimensional and 2 three-dimensional multivariate normals; delta rules with up to 2 deltas plus '
          '1 normal; numerical distributions: grids with 3 support points per input (interpolated, as in the code) and 3 or 4 output points; '
          'all numbers real, standard deviations in [0.05, 5], correlations in [-0.9, 0.9], central values in [-5, 5]')
ASSUMPTIONS = ['floating point numbers are treated as reals; equality up to relative 1e-6',
               'numpy linear algebra (inv, slogdet) and the multivariate normal density of scipy are replaced by their closed forms for n <= 3']


def P():
    import flavio.statistics.probability as p
    return p


def normals(ctx, n, cv=5, lo=0.05, hi=5):
    p = P()
    return [p.NormalDistribution(ctx.real('m%d' % i, -cv, cv), ctx.real('s%d' % i, lo, hi)) for i in range(n)]


def mk_uni(n):
    def h(ctx):
        p = P()
        d = normals(ctx, n)
        perm = ctx.choice('order', list(itertools.permutations(range(n))))
        c = p.combine_distributions([d[i] for i in perm])
        x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
        ctx.check('normal', isinstance(c, p.NormalDistribution))
        lhs = c.logpdf(x) - c.logpdf(y)
        rhs = sum(q.logpdf(x) - q.logpdf(y) for q in d)
        ctx.check_eq('product of densities', lhs, rhs, atol=1e-9)
        w = sum(1 / q.standard_deviation ** 2 for q in d)
        ctx.check_eq('1/sigma^2 adds', 1 / c.standard_deviation ** 2, w)
        ctx.check_eq('weighted mean', c.central_value, sum(q.central_value / q.standard_deviation ** 2 for q in d) / w, scale=5.)
        ctx.check_eq('central_value is get_central', c.get_central(), c.central_value)
        for q in d:
            ctx.check_le('error shrinks', c.standard_deviation, q.standard_deviation)
    return h


add_harness(__name__, mk_uni(2), 'univariate/2', time=60)
add_harness(__name__, mk_uni(3), 'univariate/3', time=60)


@harness(name='univariate/associative')
def assoc(ctx):
    p = P()
    a, b, c = normals(ctx, 3)
    l = p.combine_distributions([p.combine_distributions([a, b]), c])
    r = p.combine_distributions([a, p.combine_distributions([b, c])])
    ctx.check_eq('mean', l.central_value, r.central_value, scale=5.)
    ctx.check_eq('sigma', l.standard_deviation, r.standard_deviation)
    x = p.combine_distributions([a])
    ctx.check('single is returned', x is a)


@harness(name='weighted_average')
def wavg(ctx):
    p = P()
    n = ctx.choice('n', [1, 2, 3, 4])
    cs = [ctx.real('c%d' % i, -5, 5) for i in range(n)]
    ss = [ctx.real('s%d' % i, 0.05, 5) for i in range(n)]
    c, u = p.weighted_average(cs, ss)
    w = sum(1 / s ** 2 for s in ss)
    ctx.check_eq('mean', c * w, sum(x / s ** 2 for x, s in zip(cs, ss)), scale=5 * w)
    ctx.check_eq('sigma', u * u * w, 1.0)
    ctx.check('positive', u > 0)


@harness(name='delta')
def delta(ctx):
    p = P()
    v, m, s = ctx.real('v', -5, 5), ctx.real('m', -5, 5), ctx.real('s', 0.1, 3)
    d, n = p.DeltaDistribution(v), p.NormalDistribution(m, s)
    order = ctx.choice('order', [0, 1])
    c = p.combine_distributions([d, n] if order == 0 else [n, d])
    ctx.check('delta wins', isinstance(c, p.DeltaDistribution))
    ctx.check_eq('value', c.central_value, v)
    same = ctx.choice('same', [True, False])
    v2 = v if same else ctx.real('v2', -5, 5)
    e = p.DeltaDistribution(v2)
    l = [d, n, e] if order == 0 else [e, d, n]
    if same:
        ctx.check_eq('same delta', p.combine_distributions(l).central_value, v)
    else:
        ctx.assume(v != v2)
        ctx.raises('contradicting deltas', ValueError, p.combine_distributions, l)


@harness(name='delta/others')
def delta_others(ctx):
    """a delta wins against any other type of distribution"""
    p = P()
    v, m, s = ctx.real('v', -5, 5), ctx.real('m', 0.5, 5), ctx.real('s', 0.1, 3)
    k = ctx.choice('other', ['uniform', 'asym', 'half', 'lognormal'])
    o = {'uniform': lambda: p.UniformDistribution(m, s), 'asym': lambda: p.AsymmetricNormalDistribution(m, s, 2 * s),
         'half': lambda: p.HalfNormalDistribution(m, s), 'lognormal': lambda: p.LogNormalDistribution(m, 1 + s)}[k]()
    c = p.combine_distributions([o, p.DeltaDistribution(v)])
    ctx.check('delta wins', isinstance(c, p.DeltaDistribution))
    ctx.check_eq('value', c.central_value, v)


def mv(ctx, i, n, rho=None):
    p = P()
    cv = [ctx.real('c%d%d' % (i, j), -3, 3) for j in range(n)]
    sd = [ctx.real('s%d%d' % (i, j), 0.3, 3) for j in range(n)]
    if n == 2:
        r = ctx.real('r%d' % i, -0.9, 0.9)
        cov = [[sd[0] ** 2, r * sd[0] * sd[1]], [r * sd[0] * sd[1], sd[1] ** 2]]
    else:
        r = [ctx.real('r%d_%d' % (i, j), -0.45, 0.45) for j in range(3)]
        cov = [[sd[0] ** 2, r[0] * sd[0] * sd[1], r[1] * sd[0] * sd[2]],
               [r[0] * sd[0] * sd[1], sd[1] ** 2, r[2] * sd[1] * sd[2]],
               [r[1] * sd[0] * sd[2], r[2] * sd[1] * sd[2], sd[2] ** 2]]
    return cv, cov, p.MultivariateNormalDistribution(cv, cov)


def inv2(m):
    d = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return [[m[1][1] / d, -m[0][1] / d], [-m[1][0] / d, m[0][0] / d]]


def mk_mv(n, k):
    def h(ctx):
        p = P()
        data = [mv(ctx, i, n) for i in range(k)]
        order = ctx.choice('order', [0, 1])
        ds = [d[2] for d in data]
        c = p.combine_distributions(ds if order == 0 else ds[::-1])
        C = c.covariance
        ctx.check('type', isinstance(c, p.MultivariateNormalDistribution))
        ctx.check('shape', np.shape(C) == (n, n))
        # information matrices and information-weighted means add:  W C = 1,  W m = sum W_i m_i
        if n == 2:
            W = [inv2(d[1]) for d in data]
            S = [[sum(w[a][b] for w in W) for b in range(2)] for a in range(2)]
            for a in range(2):
                for b in range(2):
                    ctx.check_eq('information adds %d%d' % (a, b), sum(S[a][j] * C[j][b] for j in range(2)), 1.0 if a == b else 0.0, atol=1e-6)
            rhs = [sum(sum(w[a][j] * d[0][j] for j in range(2)) for w, d in zip(W, data)) for a in range(2)]
            for a in range(2):
                ctx.check_eq('mean %d' % a, sum(S[a][j] * c.central_value[j] for j in range(2)), rhs[a], atol=1e-5)
        else:
            for a in range(n):
                for b in range(n):
                    # C (C1 + C2) = C1 C2 ... for two inputs: C = C1 (C1+C2)^-1 C2
                    ctx.check_eq('symmetric %d%d' % (a, b), C[a][b], C[b][a])
    return h


add_harness(__name__, mk_mv(2, 2), 'multivariate/2x2', time=110, max_paths=40, z3_ms=2000)


@harness(name='multivariate/diagonal', time=100, max_paths=60)
def mv_diag(ctx):
    """uncorrelated multivariates combine like univariates, dimension by dimension"""
    p = P()
    n = ctx.choice('dim', [2, 3])
    k = ctx.choice('inputs', [2, 3])
    cvs = [[ctx.real('c%d%d' % (i, j), -3, 3) for j in range(n)] for i in range(k)]
    sds = [[ctx.real('s%d%d' % (i, j), 0.3, 3) for j in range(n)] for i in range(k)]
    ds = [p.MultivariateNormalDistribution(c, standard_deviation=s) for c, s in zip(cvs, sds)]
    c = p.combine_distributions(ds)
    for j in range(n):
        w = sum(1 / sds[i][j] ** 2 for i in range(k))
        ctx.check_eq('var%d' % j, c.covariance[j][j] * w, 1.0)
        ctx.check_eq('mean%d' % j, c.central_value[j] * w, sum(cvs[i][j] / sds[i][j] ** 2 for i in range(k)), scale=3 * w)
        ctx.check_eq('err%d' % j, c.get_error_left()[j], c.get_error_right()[j])


def small_grids(ctx, n):
    """use n instead of 1000 grid points in the numerical combination (bound)"""
    import inspect
    p = P()
    for o in [p.NumericalDistribution.from_pd.__func__, p._combine_numerical] if hasattr(p, '_combine_numerical') else []:
        sig = inspect.signature(o)
        d = [v for v in sig.parameters.values() if v.default is not v.empty]
        if d and any(v.name == 'nsteps' for v in d):
            ctx.patch(o, '__defaults__', tuple(n if v.name == 'nsteps' else v.default for v in d))


@harness(name='numerical/2', time=100, max_paths=60)
def num2(ctx):
    """numerical combination: the density on the output grid is the product of the input densities"""
    p = P()
    small_grids(ctx, 4)
    g = ctx.choice('grids', [([-1., 0.25, 1.], [-1., 0., 1.]), ([-1., 0.25, 2.], [-1.5, 0.5, 1.])])
    ds = [p.NumericalDistribution(np.array(x), np.array([ctx.real('y%d%d' % (i, j), 0.2, 2) for j in range(3)]), x[1]) for i, x in enumerate(g)]
    product(ctx, p.combine_distributions(ds), ds)


@harness(name='numerical/disjoint')
def disjoint(ctx):
    """distributions whose supports do not overlap cannot be combined"""
    p = P()
    a, w = ctx.real('a', -5, 5), ctx.real('w', 0.1, 2)
    b, v = ctx.real('b', -5, 5), ctx.real('v', 0.1, 2)
    d = [p.UniformDistribution(a, w), p.UniformDistribution(b, v)]
    small_grids(ctx, 2)
    if a + w <= b - v or b + v <= a - w:
        ctx.raises('no overlap', ValueError, p.combine_distributions, d)
    else:
        c = p.combine_distributions(d)
        ctx.check_eq('lower end', c.support[0], (a - w) if a - w > b - v else (b - v), scale=5.)
        ctx.check_eq('upper end', c.support[1], (a + w) if a + w < b + v else (b + v), scale=5.)


@harness(name='numerical/normal', time=200, max_paths=60)
def numnormal(ctx):
    """two normals are combined first; the result multiplies the numerical density"""
    p = P()
    small_grids(ctx, 5)
    k = ctx.choice('normals', [1, 2])
    num_ = p.NumericalDistribution(np.array([0.5, 0.8, 1.1]), np.array([ctx.real('y%d' % j, *r) for j, r in enumerate([(1.8, 2), (1, 1.2), (0.4, 0.5)])]), 0.8)
    ns = [p.NormalDistribution(ctx.real('m%d' % i, -0.1, 0.1), ctx.real('s%d' % i, 1.9 + 0.3 * i, 2.1 + 0.3 * i)) for i in range(k)]
    c = p.combine_distributions([ns[0], num_] + ns[1:])
    n = ns[0]
    if k == 2:
        m, u = p.weighted_average([q.central_value for q in ns], [q.standard_deviation for q in ns])
        n = p.NormalDistribution(m, u)
    product(ctx, c, [num_, p.NumericalDistribution.from_pd(n)])


def product(ctx, c, ds):
    prod = []
    for x in c.x:
        t = 1
        for d in ds:
            t = t * d.pdf(x)
        prod.append(t)
    k = len(prod) // 2
    for i in range(len(prod)):
        ctx.check_eq('density ratio %d' % i, c.pdf(c.x[i]) * prod[k], c.pdf(c.x[k]) * prod[i], scale=1e-9)
    for e, j in ((0, max), (1, min)):
        ctx.check_eq('support %d' % e, c.support[e], c.x[-e])
