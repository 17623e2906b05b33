"""Writing distributions, constraints and measurements to dictionaries or YAML and reading them back changes nothing."""
import math
import numpy as np
from engine.run import harness, add_harness
from engine import num
from checks.S05 import World, OPS, observe

EXPLANATION = (
    'Distributions of every kind with symbolic parameters, and stores of constraints after symbolic add / replace / remove histories, are written with the real get_dict / get_yaml_dict / '
    'get_yaml and read back with dict2dist / from_yaml; the result must have the same names, central values, densities and errors and the original must be unchanged.')
BOUNDS = ('every distribution class (numerical ones on up to 3 points, kernel density estimates on 3 fixed data points); stores: every history of 2 operations out of 9 as in S05; '
          'measurements with arguments and metadata')
ASSUMPTIONS = ['the yaml library returns the structure it was given (replaced by the identity when symbolic, real when replayed)', 'floats treated as reals',
               'float() applied to a number returns the number']


def P():
    import flavio.statistics.probability as p
    return p


def plain(d):
    """only types that safe_load can return"""
    if isinstance(d, dict):
        return all(isinstance(k, str) and plain(v) for k, v in d.items())
    if isinstance(d, list):
        return all(plain(v) for v in d)
    return type(d) in (str, int, float, bool, type(None)) or type(d).__name__ == 'SymReal'


def kinds(ctx):
    p = P()
    r = ctx.real

    def m(lo=-3, hi=3):
        return r('m', lo, hi)

    def s(n='s'):
        return r(n, 0.1, 3)
    return {
        'uniform': lambda: p.UniformDistribution(m(), s()),
        'delta': lambda: p.DeltaDistribution(m()),
        'normal': lambda: p.NormalDistribution(m(), s()),
        'lognormal': lambda: p.LogNormalDistribution(r('m', 0.2, 5), r('f', 1.1, 4)),
        'asymmetric': lambda: p.AsymmetricNormalDistribution(m(), s(), s('t')),
        'half': lambda: p.HalfNormalDistribution(m(), s()),
        'half-': lambda: p.HalfNormalDistribution(m(), -s()),
        'limit': lambda: p.GaussianUpperLimit(s(), r('cl', 0.5, 0.99)),
        'gamma': lambda: p.GammaDistribution(r('a', 1.1, 6), r('loc', -3, -0.1), s()),
        'gamma-positive': lambda: p.GammaDistributionPositive(r('a', 1.1, 6), r('loc', -3, -0.1), s()),
        'numerical': lambda: p.NumericalDistribution(np.array([-1., 0.5, 1.5]), np.array([r('y%d' % i, 0.1, 2) for i in range(3)]), 0.5),
        'mvnormal': lambda: p.MultivariateNormalDistribution([m(), r('w', -3, 3)], standard_deviation=[s(), s('t')], correlation=[[1, r('c', 0.1, 0.9)], [r('c', 0.1, 0.9), 1]]),
        'mvnormal-cov': lambda: p.MultivariateNormalDistribution(np.array([m(), r('w', -3, 3)]), np.array([[s() ** 2, r('c', 0.1, 0.9) * s() * s('t')], [r('c', 0.1, 0.9) * s() * s('t'), s('t') ** 2]])),
        'mvnumerical': lambda: p.MultivariateNumericalDistribution([np.array([0., 2.]), np.array([-1., 2.])], np.array([[r('y%d%d' % (i, j), 0.1, 2) for j in range(2)] for i in range(2)]), [1., 0.5]),
    }


def points(ctx, k):
    if k in ('mvnormal', 'mvnormal-cov'):
        return [[ctx.real('x', -3, 3), ctx.real('z', -3, 3)]]
    if k == 'mvnumerical':
        return [[0., -1.], [2., 2.], [0., 2.]]
    return [ctx.real('x', -4, 4)]


def mk(k):
    def h(ctx):
        p = P()
        d = kinds(ctx)[k]()
        x = points(ctx, k)
        lp = [d.logpdf(v) for v in x]
        dd = d.get_dict(distribution=True, iterate=True, arraytolist=True)
        ctx.check('plain', plain(dd))
        ctx.check('first key', list(dd)[0] == 'distribution')
        n, = p.dict2dist(dd)
        ctx.check('type', type(n) is type(d))
        ctx.check_eq('central value', n.central_value, list(d.central_value) if isinstance(n.central_value, list) else d.central_value)
        ctx.check_eq('support', [np.ravel(v).tolist() for v in n.support], [np.ravel(v).tolist() for v in d.support], scale=1.)
        ctx.check_eq('density', [n.logpdf(v) for v in x], lp, scale=1.)
        ctx.check_eq('original', [d.logpdf(v) for v in x], lp, scale=1.)
        ctx.check_eq('same dictionary', dict(n.get_dict(distribution=True, iterate=True, arraytolist=True)), dict(dd), scale=1.)
        if not k.startswith('mvnum'):
            raw = d.get_dict()
            ctx.check('constructor arguments', 'distribution' not in raw)
            if k not in ('mvnormal', 'mvnormal-cov'):
                ctx.check_eq('rebuilt', type(d)(**raw).central_value, d.central_value)
        if not ctx.symbolic:
            import yaml
            ctx.check_eq('yaml', p.dict2dist(yaml.safe_load(d.get_yaml()))[0].logpdf(x[0]), lp[0], scale=1.)
    return h


for _k in ('uniform', 'delta', 'normal', 'lognormal', 'asymmetric', 'half', 'half-', 'limit', 'gamma', 'gamma-positive', 'numerical', 'mvnormal', 'mvnormal-cov', 'mvnumerical'):
    add_harness(__name__, mk(_k), 'distribution/' + _k)


@harness(name='distribution/counting')
def counting(ctx):
    p = P()
    tot, bg, sf = ctx.real('tot', 2.5, 8), ctx.real('bg', 0.2, 2), ctx.real('sf', 0.1, 3)
    d = p.GammaCountingProcess(scale_factor=sf, counts_total=tot, counts_background=bg)
    dd = d.get_dict(distribution=True)
    ctx.check_eq('dictionary', dict(dd), {'distribution': 'gamma_counting_process', 'scale_factor': sf, 'counts_total': tot, 'counts_background': bg, 'counts_signal': tot - bg})
    n, = p.dict2dist(dd)
    ctx.check_eq('parameters', [n.a, n.loc, n.scale], [d.a, d.loc, d.scale])


@harness(name='distribution/discrete')
def discrete(ctx):
    p = P()
    a = ctx.choice('a', [-2, 0, 1])
    b = a + ctx.choice('width', [0, 1, 3])
    c = ctx.choice('c', [None, a, b])
    d = p.DiscreteUniformDistribution(a, b, c)
    n, = p.dict2dist(d.get_dict(distribution=True))
    ctx.check('same', [n.central_value, list(n.range)] == [d.central_value, list(d.range)])


@harness(name='distribution/kernel', objects=False)
def kernel(ctx):
    """kernel density estimates keep their data and kernel"""
    p = P()
    w = 0.5
    k = ctx.choice('kind', ['kde', 'gauss', 'scott', 'uniform'])
    data = [1., 2., 4.]
    d = {'kde': lambda: p.KernelDensityEstimate(data, p.NormalDistribution(0, w)), 'gauss': lambda: p.GaussianKDE(data, w),
         'scott': lambda: p.GaussianKDE(data, n_bins=2), 'uniform': lambda: p.KernelDensityEstimate(np.array(data), p.UniformDistribution(0., w))}[k]()
    dd = d.get_dict(distribution=True, iterate=True, arraytolist=True)
    ctx.check('plain', plain(dd))
    n, = p.dict2dist(dd)
    ctx.check('type', type(n) is type(d) and type(n.kernel) is type(d.kernel))
    ctx.check_eq('density', list(n.pdf(np.array(data))), list(d.pdf(np.array(data))))


@harness(name='distribution/general-limit', objects=False)
def general(ctx):
    p = P()
    s = ctx.choice('std', [0., 1e-3, 0.5])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = p.GeneralGammaUpperLimit(limit=1.5, confidence_level=0.9, counts_total=3, counts_background=2, background_std=s)
        n, = p.dict2dist(d.get_dict(distribution=True, iterate=True, arraytolist=True))
        g = p.GeneralGammaDistributionPositive(a=4., loc=-2., scale=1., gaussian_standard_deviation=0.5)
        ctx.check_eq('same as the counting process', g.central_value, p.GeneralGammaCountingProcess(scale_factor=1., counts_total=3., counts_background=2., background_std=0.5).central_value)
    ctx.check_eq('limit', [n.limit, n.confidence_level, n.background_std], [d.limit, d.confidence_level, d.background_std])
    if s != 1e-3:
        ctx.check_eq('central', [n.central_value, n.scale_factor], [d.central_value, d.scale_factor])


def identity_yaml(ctx):
    if ctx.symbolic:
        import flavio.classes as m
        import types
        ctx.patch(m, 'yaml', types.SimpleNamespace(dump=lambda d, *a, **k: d, safe_load=lambda d: d))


def roundtrip(op0, nops):
    def h(ctx):
        identity_yaml(ctx)
        w = World(ctx)
        w.biv('ab')
        w.uni('c')
        w.apply(op0)
        for i in range(nops):
            w.apply(ctx.choice('op%d' % i, OPS))
        s = w.store
        dd = s.get_yaml_dict()
        new = type(s).from_yaml(s.get_yaml())
        x = {n: ctx.real('x' + n, -4, 4) for n in 'abc'}
        ctx.check('names', sorted(new.all_parameters) == sorted(s.all_parameters))
        ctx.check_eq('central values', new.get_central_all(), s.get_central_all())

        def tot(c, ex):
            t = 0.
            for v in c.get_logprobability_all(x, exclude_parameters=ex).values():
                t = t + (np.ravel(v)[0] if isinstance(v, np.ndarray) else v)
            return t
        for ex in ([], ['a'], ['b']):
            ctx.check_eq('log probability excluding %s' % ex, tot(new, ex), tot(s, ex), scale=1.)
        e1, e2 = new.get_1d_errors_rightleft(), s.get_1d_errors_rightleft()
        ctx.check_eq('errors', {k: list(v) for k, v in e1.items()}, {k: list(v) for k, v in e2.items()})
        ctx.check('same number of constraints when written again', len(new.get_yaml_dict()) == len(dd))
        ren = s.get_yaml_dict(pname='observables')
        again = type(s).from_yaml_dict(ren, pname='observables')
        ctx.check_eq('other key', again.get_central_all(), s.get_central_all())
        if ren:
            ctx.raises('wrong key', ValueError, type(s).from_yaml_dict, ren)
    return h


for _o in OPS:
    add_harness(__name__, roundtrip(_o, 1), 'store/%s-%s' % _o, time=120)
    add_harness(__name__, roundtrip(_o, 2), 'store3/%s-%s' % _o, tier='thorough', time=800)


@harness(name='metadata')
def metadata(ctx):
    """attributes set on a collection survive, with or without constructor arguments"""
    identity_yaml(ctx)
    import flavio.statistics.probability as p
    from flavio.classes import Constraints
    s = Constraints()
    c = ctx.real('c', -3, 3)
    s.add_constraint(['a'], p.NormalDistribution(c, 1.))
    s.comment = 'text'
    n = Constraints.from_yaml(s.get_yaml())
    ctx.check('attribute', n.comment == 'text')
    ctx.check_eq('values', n.get_central_all(), {'a': c})


@harness(name='into-existing')
def into(ctx):
    """reading into an existing collection replaces what is given and keeps the rest; strings are accepted"""
    import flavio.statistics.probability as p
    from flavio.classes import Constraints
    c, d = ctx.real('c', -3, 3), ctx.real('d', -3, 3)
    s = Constraints()
    s.add_constraint(['a'], p.NormalDistribution(c, 1.))
    s.add_constraint(['b'], p.NormalDistribution(d, 1.))
    o = Constraints()
    e = ctx.real('e', -3, 3)
    o.add_constraint(['b'], p.NormalDistribution(e, 2.))
    data = o.get_yaml_dict() + [{'q': '1.5 +- 0.25'}]
    r = Constraints.from_yaml_dict(data, instance=s)
    ctx.check('same object', r is s)
    ctx.check_eq('values', s.get_central_all(), {'a': c, 'b': e, 'q': 1.5})
    ctx.raises('unknown form', ValueError, Constraints.from_yaml_dict, [{'q': 1, 'r': 2}])


@harness(name='measurement')
def measurement(ctx):
    """names, metadata and observables with arguments"""
    identity_yaml(ctx)
    import flavio.statistics.probability as p
    from flavio.classes import Measurement
    ctx.patch(Measurement, 'instances', {})
    m = Measurement('m1')
    m.inspire, m.experiment = 'X:2020', 'LHCb'
    a = ctx.real('a', -3, 3)
    c, d = ctx.real('c', -3, 3), ctx.real('d', -3, 3)
    q = ctx.real('q', 1, 6)
    m.add_constraint(['eps_K'], p.NormalDistribution(a, 1.))
    m.add_constraint([('obs', q, 6.0), ('obs', 6.0, 8.0)], p.MultivariateNormalDistribution([c, d], [[1., 0.2], [0.2, 1.]]))
    dd = m.get_yaml_dict(pname='observables')
    del Measurement.instances['m1']
    n = Measurement.from_yaml_dict(dd, pname='observables')
    ctx.check('registered', Measurement.instances.get('m1') is n)
    ctx.check('attributes', (n.name, n.inspire, n.experiment, n.url, n.description) == ('m1', 'X:2020', 'LHCb', '', ''))
    ctx.check_eq('values', list(n.get_central_all().values()), [a, c, d])
    ctx.check_eq('arguments', n.all_parameters[1][1:], (q, 6.0))
    ctx.check('observables', n.all_parameters[0] == 'eps_K' and n.all_parameters[2] == ('obs', 6.0, 8.0) and isinstance(n.all_parameters[1], tuple))
