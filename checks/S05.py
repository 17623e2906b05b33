"""A collection of constraints behaves like a map from names to the distribution set last, whatever the history."""
import itertools
import math
import numpy as np
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'Histories of add / replace / remove operations on univariate and correlated constraints with symbolic central values, errors, correlations and evaluation points are '
    'executed on the real store; every query (names, central values, total and single log probabilities with exclusions, random values, errors) is compared with a map '
    'name -> (distribution, component) updated by the same operations.')
BOUNDS = ('every history of 2 operations (thorough: 3) out of 14 on top of an initial correlated pair and a single constraint; three names; '
          'normal distributions, correlations in [-0.9, 0.9], errors in [0.1, 3]')
ASSUMPTIONS = ['distribution classes themselves are decided by S03 and S04', 'floats treated as reals']
NAMES = ['a', 'b', 'c']
LN2PI = math.log(2 * math.pi)


def cls():
    from flavio.classes import Constraints
    return Constraints


class Obj:
    def __init__(self, pars, dist, mean, sd, rho):
        self.pars, self.dist, self.mean, self.sd, self.rho = pars, dist, mean, sd, rho


class World:
    """the store and the reference map, driven by the same operations"""

    def __init__(self, ctx):
        import flavio.statistics.probability as p
        self.p, self.ctx, self.n = p, ctx, 0
        self.store = cls()()
        self.ref, self.all = {}, []

    def uni(self, name):
        i = self.n = self.n + 1
        c, s = self.ctx.real('c%d' % i, -3, 3), self.ctx.real('s%d' % i, 0.1, 3)
        o = Obj([name], self.p.NormalDistribution(c, s), [c], [s], 0.)
        self.add(o)

    def biv(self, names):
        i = self.n = self.n + 1
        r = self.ctx.real
        m = [r('m%d' % i, -3, 3), r('w%d' % i, -3, 3)]
        s = [r('e%d' % i, 0.1, 3), r('f%d' % i, 0.1, 3)]
        rho = r('r%d' % i, -0.9, 0.9)
        self.ctx.assume(rho != 0)
        self.add(Obj(list(names), self.p.MultivariateNormalDistribution(m, standard_deviation=s, correlation=[[1, rho], [rho, 1]]), m, s, rho))

    def again(self, names):
        """the distribution object used last, for other or the same parameters"""
        o = next(o for o in reversed(self.all) if len(o.pars) == len(names))
        self.add(Obj(list(names), o.dist, o.mean, o.sd, o.rho))

    def add(self, o):
        self.all.append(o)
        self.store.add_constraint(list(o.pars), o.dist)
        for k, name in enumerate(o.pars):
            self.ref[name] = (o, k)

    def remove(self, name):
        self.store.remove_constraint(name)
        self.ref.pop(name, None)

    def apply(self, op):
        f, a = op
        getattr(self, f)(a)

    def objs(self):
        out = []
        for o, k in self.ref.values():
            if o not in out:
                out.append(o)
        return out


def logp(o, ks, x, delta):
    """log density of the components ks of o at x"""
    z = [(x[k] - o.mean[k]) / o.sd[k] for k in ks]
    if len(ks) == 1:
        v = -z[0] ** 2 / 2
        nrm = -LN2PI / 2 - num.log(o.sd[ks[0]])
    else:
        v = -(z[0] ** 2 + z[1] ** 2 - 2 * o.rho * z[0] * z[1]) / (1 - o.rho ** 2) / 2
        nrm = -LN2PI - num.log(o.sd[0]) - num.log(o.sd[1]) - num.log(1 - o.rho ** 2) / 2
    return v if delta else v + nrm


def observe(w, ctx):
    s, ref = w.store, w.ref
    ctx.check('names', sorted(s.all_parameters) == sorted(ref))
    ctx.check_eq('central values', s.get_central_all(), {n: o.mean[k] for n, (o, k) in ref.items()})
    for n in NAMES:
        if n in ref:
            o, k = ref[n]
            ctx.check_eq('central ' + n, s.get_central(n), o.mean[k])
        else:
            ctx.raises('absent ' + n, ValueError, s.get_central, n)
    x = {n: ctx.real('x' + n, -4, 4) for n in NAMES}
    for ex in ((), ('a',), ('b', 'c')):
        for delta in (False, True):
            got = s.get_logprobability_all(dict(x), exclude_parameters=list(ex), delta=delta)
            exp = 0.
            cnt = 0
            for o in w.objs():
                ks = [k for k, n in enumerate(o.pars) if n not in ex and n in ref and ref[n] == (o, k)]
                if ks:
                    cnt += 1
                    exp = exp + logp(o, ks, {k: x[n] for k, n in enumerate(o.pars)}, delta)
            ctx.check('number of terms', len(got) == cnt)
            tot = 0.
            for v in got.values():
                tot = tot + (np.ravel(v)[0] if isinstance(v, np.ndarray) else v)
            ctx.check_eq('total log probability excluding %s%s' % (ex, ' delta' if delta else ''), tot, exp, scale=1.)
    for n, (o, k) in ref.items():
        for delta in (False, True):
            ctx.check_eq('single ' + n, np.ravel(s.get_logprobability_single(n, x[n], delta=delta))[0], logp(o, [k], {k: x[n]}, delta), scale=1.)
    calls = []

    def drawn(dist, size=None):
        dim = len(np.ravel(dist.central_value))
        v = [ctx.real('y%d_%d' % (len(calls), j), -5, 5) for j in range(dim)]
        calls.append((dist, v))
        return (v[0] if dim == 1 else np.array(v)) if size is None else np.array([v[0]] * size) if dim == 1 else np.array([v] * size)

    for c in (w.p.NormalDistribution, w.p.MultivariateNormalDistribution):
        ctx.patch(c, 'get_random', lambda self, size=None: drawn(self, size))
    for size in (None, 2):
        calls.clear()
        got = s.get_random_all(size=size)
        ctx.check('names of random values', sorted(got) == sorted(ref))
        used = {}
        for n, (o, k) in ref.items():
            vals = [got[n]] if size is None else list(got[n])
            ctx.check('number of random values', len(vals) == (size or 1))
            i = [i for i, (d, v) in enumerate(calls) if k < len(v) and all(repr(x) == repr(v[k]) for x in vals)]
            if len(i) != 1:
                ctx.check('random value of %s is a component of one draw' % n, False)
                continue
            ctx.check_eq('distribution of the random value of ' + n, list(np.ravel(calls[i[0]][0].central_value)), list(o.mean))
            used.setdefault(id(o), set()).add(i[0])
        ctx.check('correlated parameters are drawn together', all(len(u) == 1 for u in used.values()))
        ctx.check('others independently', len(set().union(*used.values())) == len(used) if used else True)
    err = s.get_1d_errors_rightleft()
    ctx.check_eq('errors', {n: list(v) for n, v in err.items()}, {n: [o.sd[k], o.sd[k]] for n, (o, k) in ref.items()})


OPS = [('uni', n) for n in NAMES] + [('remove', n) for n in NAMES] + [('biv', 'ab'), ('biv', 'ba'), ('biv', 'bc')]
AGAIN = [('again', 'a'), ('again', 'c'), ('again', 'ab'), ('again', 'bc'), ('again', 'ca')]


def history(first, n):
    def h(ctx):
        w = World(ctx)
        w.biv('ab')
        w.uni('c')
        w.apply(first)
        for i in range(n):
            w.apply(ctx.choice('op%d' % i, OPS + AGAIN))
        observe(w, ctx)
    return h


for _o in OPS + AGAIN[1:4]:
    add_harness(__name__, history(_o, 1), 'history/%s-%s' % _o, time=120)
    add_harness(__name__, history(_o, 2), 'history3/%s-%s' % _o, tier='thorough', time=800, max_paths=100)


@harness(name='empty')
def empty(ctx):
    s = cls()()
    ctx.check('nothing', s.all_parameters == [] and s.get_central_all() == {} and s.get_random_all() == {} and s.get_logprobability_all({}) == {})
    w = World(ctx)
    w.apply(ctx.choice('op', OPS))
    observe(w, ctx)


@harness(name='copy')
def copied(ctx):
    """a copy is independent of the original"""
    w = World(ctx)
    w.biv('ab')
    w.uni('c')
    orig = w.store
    before = {n: o.mean[k] for n, (o, k) in w.ref.items()}
    cp = orig.copy()
    w.apply(ctx.choice('op', OPS))
    ctx.check_eq('copy unchanged', cp.get_central_all(), before)
    ctx.check_eq('original changed', orig.get_central_all(), {n: o.mean[k] for n, (o, k) in w.ref.items()})
    cp2 = orig.copy()
    cp2.remove_constraint('c')
    ctx.check_eq('original unchanged', orig.get_central_all(), {n: o.mean[k] for n, (o, k) in w.ref.items()})


@harness(name='set-constraint')
def setc(ctx):
    """dictionaries and strings; several uncertainties are convolved; the last call wins"""
    import flavio.statistics.probability as p
    s = cls()()
    c, e, f = ctx.real('c', -3, 3), ctx.real('e', 0.1, 3), ctx.real('f', 0.1, 3)
    s.set_constraint('a', constraint_dict={'distribution': 'normal', 'central_value': 1.5, 'standard_deviation': 0.25})
    ctx.check_eq('first', s.get_central('a'), 1.5)
    # numbers are converted with float() when read from a dictionary: symbolic ones enter through distribution objects
    pds = [p.NormalDistribution(c, e), p.NormalDistribution(c, f)]
    import flavio.classes as m
    ctx.patch(m, 'dict2dist', lambda d: pds)
    s.set_constraint('a', constraint_dict=[{}, {}])
    ctx.check_eq('central', s.get_central('a'), c)
    ctx.check_eq('errors are added in quadrature', s.get_1d_errors_rightleft()['a'][0] ** 2, e * e + f * f)
    ctx.check('one constraint', len(s.get_logprobability_all({'a': c})) == 1)
    ctx.patch(m, 'constraints_from_string', lambda t: pds[:1])
    s.set_constraint('a', 'text')
    ctx.check_eq('string', s.get_1d_errors_rightleft()['a'][0], e)
    ctx.raises('both', ValueError, s.set_constraint, 'a', 'text', {})
    ctx.raises('none', TypeError, s.set_constraint, 'a')


@harness(name='errors/deprecated')
def errs(ctx):
    s = cls()()
    import flavio.statistics.probability as p
    s.add_constraint(['a'], p.DeltaDistribution(ctx.real('c', -3, 3)))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = s.get_1d_errors(N=3)
    ctx.check('result', r is not None and set(r) == {'a'})


@harness(name='parameter-constraints')
def parc(ctx):
    """adding with a parameter object creates it once and replaces previous constraints"""
    import flavio.statistics.probability as p
    from flavio.classes import Parameter
    s = cls()()
    ctx.patch(Parameter, 'instances', {})
    c, d = ctx.real('c', -3, 3), ctx.real('d', -3, 3)
    s.add_constraint(['q'], p.NormalDistribution(c, 1.), is_parameter_constraint=True)
    ctx.check('created', 'q' in Parameter.instances)
    q = Parameter['q']
    s.add_constraint(['q'], p.NormalDistribution(d, 1.), is_parameter_constraint=True)
    ctx.check('kept', Parameter['q'] is q)
    ctx.check_eq('replaced', s.get_central_all(), {'q': d})
    x = ctx.real('x', -3, 3)
    ctx.check_eq('only the new one', sum(s.get_logprobability_all({'q': x}, delta=True).values()), -(x - d) ** 2 / 2, scale=1.)
