"""A multivariate normal is determined by its (co)variances however they are given; dropping dimensions marginalises."""
import itertools
import math
import numpy as np
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'MultivariateNormalDistribution is executed on symbolic central values, standard deviations, correlations and covariance matrices (full, or only the upper triangle). '
    'The reference is the closed form of the density: covariances, errors, correlations, log density differences and the density with excluded dimensions are compared.')
BOUNDS = 'dimensions 2 and 3 (4 for the covariance bookkeeping); standard deviations in [1e-12, 10]; correlations in [-0.95, 0.95] (2d), [-0.45, 0.45] (3d)'
ASSUMPTIONS = ['floats treated as reals, equality up to relative 1e-6',
               'matrices are full symmetric, or have all strictly lower entries zero with at least one scaled upper entry larger than 1e-3']


def P():
    import flavio.statistics.probability as p
    return p


def data(ctx, n, lo=0.2, hi=5, same=False):
    cv = [ctx.real('c%d' % j, -3, 3) for j in range(n)]
    sd = [ctx.real('s%d' % j, lo, hi) for j in range(n)]
    lim = {2: 0.95, 3: 0.45, 4: 0.3}[n]
    r = {}
    for i in range(n):
        for j in range(i + 1, n):
            r[i, j] = ctx.real('r%d%d' % (i, j), -lim, lim)
    return cv, sd, r


def corr(n, r, upper=False):
    return [[1.0 if i == j else (r[min(i, j), max(i, j)] if (i < j or not upper) else 0.0) for j in range(n)] for i in range(n)]


def cov(n, sd, r, upper=False):
    c = corr(n, r, upper)
    return [[c[i][j] * sd[i] * sd[j] for j in range(n)] for i in range(n)]


FORMS = ['cov', 'cov-upper', 'std+corr', 'std+corr-upper', 'std+scalar', 'std']


def build(ctx, form, n, lo=0.2, hi=5):
    p = P()
    cv, sd, r = data(ctx, n, lo, hi)
    if form == 'std+scalar':
        r = {k: r[0, 1] for k in r}
    if form == 'std':
        r = {k: 0.0 for k in r}
    if form.endswith('upper'):
        for v in r.values():
            ctx.assume(abs(v) > 1e-3)
    C = cov(n, sd, r)
    if form == 'cov':
        d = p.MultivariateNormalDistribution(cv, covariance=C)
    elif form == 'cov-upper':
        d = p.MultivariateNormalDistribution(cv, covariance=cov(n, sd, r, True))
    elif form == 'std+corr':
        d = p.MultivariateNormalDistribution(cv, standard_deviation=sd, correlation=corr(n, r))
    elif form == 'std+corr-upper':
        d = p.MultivariateNormalDistribution(cv, standard_deviation=sd, correlation=corr(n, r, True))
    elif form == 'std+scalar':
        x = r[0, 1]
        d = p.MultivariateNormalDistribution(cv, standard_deviation=sd, correlation=x)
    else:
        d = p.MultivariateNormalDistribution(cv, standard_deviation=sd)
    return cv, sd, r, C, d


def mk_build(form, n, lo=0.2, hi=5):
    def h(ctx):
        cv, sd, r, C, d = build(ctx, form, n, lo, hi)
        for i in range(n):
            ctx.check_eq('sd %d' % i, d.standard_deviation[i], sd[i])
            ctx.check_eq('err %d' % i, d.error_left[i], sd[i])
            ctx.check_eq('err right %d' % i, d.get_error_right(nsigma=2)[i], 2 * sd[i])
            ctx.check_eq('err left %d' % i, d.get_error_left(nsigma=3)[i], 3 * sd[i])
            ctx.check_eq('central %d' % i, d.central_value[i], cv[i])
            ctx.check_eq('support low %d' % i, d.support[0][i], cv[i] - 6 * sd[i], scale=1e-9)
            ctx.check_eq('support high %d' % i, d.support[1][i], cv[i] + 6 * sd[i], scale=1e-9)
            for j in range(n):
                ctx.check_eq('cov %d%d' % (i, j), d.covariance[i][j], C[i][j], scale=1e-6 * sd[i] * sd[j])
                ctx.check_eq('corr %d%d' % (i, j), d.correlation[i][j], 1.0 if i == j else r[min(i, j), max(i, j)], scale=1e-6)
    return h


for _f in FORMS:
    add_harness(__name__, mk_build(_f, 2), 'build/2/' + _f, time=40)
    add_harness(__name__, mk_build(_f, 3), 'build/3/' + _f, time=60, max_paths=100)
for _f in ('cov', 'cov-upper'):
    add_harness(__name__, mk_build(_f, 2, 1e-12, 1e-5), 'build/small/' + _f, time=40)


def qform(d, C):
    """d^T C^-1 d and det C for 1..3 dimensions, written out"""
    n = len(d)
    if n == 1:
        return d[0] ** 2 / C[0][0], C[0][0]
    if n == 2:
        D = C[0][0] * C[1][1] - C[0][1] ** 2
        return (C[1][1] * d[0] ** 2 - 2 * C[0][1] * d[0] * d[1] + C[0][0] * d[1] ** 2) / D, D
    a, b, c, e, f, g = C[0][0], C[0][1], C[0][2], C[1][1], C[1][2], C[2][2]
    D = a * (e * g - f * f) - b * (b * g - f * c) + c * (b * f - e * c)
    adj = [[e * g - f * f, c * f - b * g, b * f - c * e], [0, a * g - c * c, b * c - a * f], [0, 0, a * e - b * b]]
    q = 0
    for i in range(3):
        for j in range(i, 3):
            q = q + (1 if i == j else 2) * adj[i][j] * d[i] * d[j]
    return q / D, D


def logdens(x, cv, C):
    q, D = qform([a - b for a, b in zip(x, cv)], C)
    return -q / 2 - num.log(D) / 2 - len(x) * math.log(2 * math.pi) / 2


@harness(name='density/2', time=80)
def dens2(ctx):
    cv, sd, r, C, d = build(ctx, ctx.choice('form', ['cov', 'std+corr']), 2)
    x = [ctx.real('x%d' % i, -4, 4) for i in range(2)]
    ctx.check_eq('logpdf', d.logpdf(np.array(x)), logdens(x, cv, C), scale=1.0)
    q, _ = qform([a - b for a, b in zip(x, cv)], C)
    ctx.check_eq('delta', d.delta_logpdf(np.array(x)), -q / 2, scale=1.0)


@harness(name='density/3', time=100)
def dens3(ctx):
    cv, sd, r, C, d = build(ctx, 'cov', 3)
    x = [ctx.real('x%d' % i, -4, 4) for i in range(3)]
    q, _ = qform([a - b for a, b in zip(x, cv)], C)
    ctx.check_eq('delta', d.logpdf(np.array(x)) - d.logpdf(np.array(cv)), -q / 2, scale=1.0)


def mk_ex(n):
    def h(ctx):
        """excluding dimensions leaves the marginal of the remaining ones, in their order"""
        p = P()
        cv, sd, r, C, d = build(ctx, 'std+corr', n)
        ex = ctx.choice('exclude', [list(e) for k in range(1, n) for e in itertools.permutations(range(n), k)])
        keep = [i for i in range(n) if i not in ex]
        x = [ctx.real('x%d' % i, -4, 4) for i in range(len(keep))]
        m = d.reduce_dimension(exclude=ex)
        sub = [[C[i][j] for j in keep] for i in keep]
        scv = [cv[i] for i in keep]
        q, _ = qform([a - b for a, b in zip(x, scv)], sub)
        arg = np.array(x) if len(x) > 1 else x[0]
        ctx.check_eq('excluded logpdf', d.logpdf(arg, exclude=ex), logdens(x, scv, sub), scale=1.0)
        c = scv if len(x) > 1 else scv[0]
        ctx.check_eq('excluded delta_logpdf', d.delta_logpdf(arg if len(x) > 1 else [arg], exclude=ex), -q / 2 if len(x) > 1 else [-q / 2], scale=1.0)
        if len(keep) == 1:
            ctx.check('univariate', isinstance(m, p.NormalDistribution))
            ctx.check_eq('marginal sd', m.standard_deviation, sd[keep[0]])
            ctx.check_eq('marginal cv', m.central_value, scv[0])
        else:
            for a, i in enumerate(keep):
                ctx.check_eq('marginal cv %d' % a, m.central_value[a], cv[i])
                for b, j in enumerate(keep):
                    ctx.check_eq('marginal cov %d%d' % (a, b), m.covariance[a][b], C[i][j], scale=1e-6)
    return h


add_harness(__name__, mk_ex(2), 'exclude/2', time=60)
add_harness(__name__, mk_ex(3), 'exclude/3', time=120)


@harness(name='nothing-excluded')
def noex(ctx):
    cv, sd, r, C, d = build(ctx, 'cov', 2)
    ctx.check('None', d.reduce_dimension() is d)
    ctx.check('empty', d.reduce_dimension(exclude=[]) is d)
    x = np.array([ctx.real('x0', -3, 3), ctx.real('x1', -3, 3)])
    ctx.check_eq('logpdf', d.logpdf(x, exclude=[]), d.logpdf(x))


@harness(name='indefinite')
def indef(ctx):
    """a covariance that is not positive definite is refused"""
    p = P()
    s0, s1 = ctx.real('s0', 0.2, 3), ctx.real('s1', 0.2, 3)
    r = ctx.real('r', 1.01, 3)
    sg = ctx.choice('sign', [1, -1])
    C = [[s0 ** 2, sg * r * s0 * s1], [sg * r * s0 * s1, s1 ** 2]]
    ctx.raises('covariance', AssertionError, p.MultivariateNormalDistribution, [0., 0.], C)
    ctx.raises('correlation', AssertionError, lambda: p.MultivariateNormalDistribution([0., 0.], standard_deviation=[s0, s1], correlation=[[1., sg * r], [sg * r, 1.]]))
    ctx.raises('nothing given', ValueError, p.MultivariateNormalDistribution, [0., 0.])
    ctx.raises('only correlation', ValueError, lambda: p.MultivariateNormalDistribution([0., 0.], correlation=[[1., 0.], [0., 1.]]))


@harness(name='sampling', time=80)
def sampling(ctx):
    """samples are central value + correlated noise of the stated covariance"""
    cv, sd, r, C, d = build(ctx, ctx.choice('form', ['cov', 'std+corr']), 2)
    rnd = ctx.random()
    n = ctx.choice('size', [None, 2])
    x = d.get_random() if n is None else d.get_random(size=n)
    ctx.check('shape', np.shape(x) == ((2,) if n is None else (2, 2)))
    z = rnd.draws
    rows = [x] if n is None else list(x)
    for k, y in enumerate(rows):
        q, _ = qform([a - b for a, b in zip(y, cv)], C)
        ctx.check_eq('mahalanobis %d' % k, q, z[2 * k] ** 2 + z[2 * k + 1] ** 2, scale=1.0)
