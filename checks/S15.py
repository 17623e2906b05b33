"""Published form factor fits: every parameter gets its central value and every pair its covariance."""
import json
import pkgutil
import yaml
import numpy as np
import flavio
from flavio.statistics.probability import MultivariateNormalDistribution
import flavio.physics.bdecays.formfactors.b_v.bsz_parameters as bv_bsz
import flavio.physics.bdecays.formfactors.b_v.lattice_parameters as bv_lattice
import flavio.physics.bdecays.formfactors.b_p.bsz_parameters as bp_bsz
import flavio.physics.bdecays.formfactors.b_p.bcl_parameters as bp_bcl
import flavio.physics.bdecays.formfactors.b_p.bcl_parameters_lmvd as bp_lmvd
import flavio.physics.bdecays.formfactors.lambdab_12.lattice_parameters as lb_lattice
from engine.run import harness, add_harness

EXPLANATION = (
    'The functions that load published form factor fits (JSON, YAML and tables) read files in the published format whose numbers are symbolic: central values, uncertainties, correlations or covariances, in several orders of the entries. '
    'The constraints set on the parameters are compared, parameter by parameter and pair by pair, with the content of the file for that transition.')
BOUNDS = 'the full set of coefficients of each format; independent symbolic central values and uncertainties, symbolic correlations of a selected pair of form factors, different numbers for the others; two or three orders of the entries'
ASSUMPTIONS = ['floats treated as reals', 'the multivariate normal distribution built from the covariance is decided separately (S03), the constraints set by it as well (S05)', 'the numbers in the files that are shipped are data and not decided']


class Files:
    """files with symbolic numbers: unique decimals in the text, mapped to the symbols after parsing"""

    def __init__(self, ctx):
        self.ctx, self.text, self.sym = ctx, {}, {}
        old = pkgutil.get_data
        ctx.patch(pkgutil, 'get_data', lambda package, resource: self.text[resource].encode() if resource in self.text else old(package, resource))
        if ctx.symbolic:
            loads, safe, load = json.loads, yaml.safe_load, yaml.load
            ctx.patch(json, 'loads', lambda *a, **k: self.back(loads(*a, **k)))
            ctx.patch(yaml, 'safe_load', lambda *a, **k: self.back(safe(*a, **k)))
            ctx.patch(yaml, 'load', lambda *a, **k: self.back(load(*a, **k)))
            ctx.e.tokens['float'] = lambda s: self.sym.get(s.strip())

    def num(self, x):
        """text of a number"""
        if isinstance(x, float):
            return repr(x)
        t = '%d.5' % (9000001 + len(self.sym))
        self.sym[t] = x
        return t

    def back(self, o):
        if isinstance(o, dict):
            return type(o)((k, self.back(v)) for k, v in o.items())
        if isinstance(o, list):
            return [self.back(v) for v in o]
        return self.sym.get(repr(o), o) if isinstance(o, float) else o


class Recorded:
    """in place of the distribution: the central values and the covariance"""

    def __init__(self, central_value, covariance=None, standard_deviation=None, correlation=None):
        if covariance is None:
            covariance = [[s * t * correlation[i][j] for j, t in enumerate(standard_deviation)] for i, s in enumerate(standard_deviation)]
        self.central_value, self.covariance = central_value, covariance


class Constraints(flavio.classes.ParameterConstraints):
    def __init__(self):
        super().__init__()
        self.got, self.fixed = {}, {}

    def add_constraint(self, parameters, constraint, *args, **kwargs):
        for i, p in enumerate(parameters):
            self.got[p] = (constraint, i)

    def remove_constraint(self, parameter):
        self.got.pop(parameter, None)

    def set_constraint(self, parameter, value, *args, **kwargs):
        self.fixed[parameter] = value


def compare(ctx, c, want, cov):
    """the constraints are those, and only those, of the file"""
    ctx.check('parameters', sorted(c.got) == sorted(want))
    for p in sorted(want):
        if p not in c.got:
            continue
        d, i = c.got[p]
        ctx.check_eq('central value of ' + p, d.central_value[i], want[p], scale=1.)
        for r in sorted(want):
            if r in c.got and c.got[r][0] is d:
                x, y = d.covariance[i][c.got[r][1]], d.covariance[c.got[r][1]][i]
                ctx.check_eq('covariance of %s and %s' % (p, r), x, cov(p, r), scale=.01)
                ctx.check_eq('symmetry of %s and %s' % (p, r), x, y, scale=.01)
            elif r in c.got:
                ctx.check('%s and %s are uncorrelated' % (p, r), cov(p, r) is None)


def correlation(ctx, names, pair=()):
    """unique numbers; symbols for one pair of form factors"""
    res = {}
    for i, a in enumerate(names):
        for j, b in enumerate(names[:i + 1]):
            x = 1. if i == j else ((37 * i + 11 * j + i * j) % 97 - 48.5) / 60
            if i != j and {a.split('_', 1)[1], b.split('_', 1)[1]} == set(pair):
                x = ctx.real('corr(%s,%s)' % (a, b), -.9, .9)
            res[a, b] = res[b, a] = x
    return res


def fits(ctx, ffs, tag, order):
    names = ['a%d_%s' % (i, f) for f in ffs for i in range(3)]
    if order == 'reversed':
        names = names[::-1]
    central = {n: ctx.real('%s %s' % (tag, n), -5., 5.) for n in names}
    unc = {n: ctx.real('%s uncertainty of %s' % (tag, n), .01, .5) for n in names}
    return names, central, unc


def json_text(files, names, central, unc, corr):
    """as published: nested by form factor, then coefficient, both orders of a pair"""
    ffs = list(dict.fromkeys(n.split('_', 1)[1] for n in names))
    co = list(dict.fromkeys(n.split('_', 1)[0] for n in names))
    obj = lambda items: '{' + ', '.join('"%s": %s' % x for x in items) + '}'
    cen, un = [obj((f, obj((a, files.num(d[a + '_' + f])) for a in co)) for f in ffs) for d in (central, unc)]
    cor = obj((f + g, obj((a + b, files.num(corr[a + '_' + f, b + '_' + g])) for a in co for b in co)) for f in ffs for g in ffs)
    return obj([('central', cen), ('uncertainty', un), ('correlation', cor)])


# of the lowest states with flavour b and the other one, in GeV, by spin and parity
MASSES = {'s': {'0-': 5.367, '1-': 5.415, '1+': 5.829, '0+': 5.63}, 'd': {'0-': 5.279, '1-': 5.325, '1+': 5.724, '0+': 5.54}, 'c': {'0-': 6.275, '1-': 6.33, '1+': 6.767, '0+': 6.42}}
FLAVOUR = {'B->K*': 's', 'Bs->phi': 's', 'Bs->K*': 'd', 'B->omega': 'd', 'B->rho': 'd', 'B->D*': 'c', 'B->K': 's', 'B->pi': 'd', 'B->D': 'c'}


def bsz(ctx, kind):
    mod, ffs, dropped = (bv_bsz, ['A0', 'A1', 'A12', 'V', 'T1', 'T2', 'T23'], ['a0_A12', 'a0_T2']) if kind == 'v' else (bp_bsz, ['f+', 'fT', 'f0'], ['a0_f0'])
    order = ctx.choice('order', ['usual', 'reversed'])
    pair = ctx.choice('correlated form factors', [('A0', 'T2'), ('A12', 'V')] if kind == 'v' else [('f+', 'f0'), ('fT', 'f0')])
    c, files = Constraints(), Files(ctx)
    ctx.patch_name(MultivariateNormalDistribution, Recorded)
    if kind == 'v':
        calls = {'v1 LCSR': (lambda: bv_bsz.bsz_load_v1_lcsr(c), 'arXiv-1503-05534v1', 'LCSR'),
                 'v2 combined': (lambda: bv_bsz.bsz_load_v2_combined(c), 'arXiv-1503-05534v2', 'LCSR-Lattice'),
                 'v2 LCSR': (lambda: bv_bsz.bsz_load_v2_lcsr(c), 'arXiv-1503-05534v2', 'LCSR'),
                 'v1 combined': (lambda: bv_bsz.bsz_load_v1_combined(c), 'arXiv-1503-05534v1', 'LCSR-Lattice'),
                 'GKvD': (lambda: bv_bsz.gkvd_load('v1', 'LCSR-Lattice', ('B->K*', 'B->D*'), c), 'arXiv-1811-00983v1', 'LCSR-Lattice')}
        name = ctx.choice('fit', sorted(calls))
        load, paper, fit = calls[name]
        trs = {'B->K*': 'BKstar', 'B->D*': 'BDstar'} if name == 'GKvD' else {'B->K*': 'BKstar', 'Bs->phi': 'Bsphi', 'Bs->K*': 'BsKstar'}
        if 'LCSR' in name:
            trs.update({'B->omega': 'Bomega', 'B->rho': 'Brho'})
    else:
        load, paper, fit = lambda: bp_bsz.gkvd_load('v1', 'LCSR', ('B->K', 'B->pi', 'B->D'), c), 'arXiv-1811-00983v1', 'LCSR'
        trs = {'B->K': 'BK', 'B->pi': 'Bpi', 'B->D': 'BD'}
    want, un, cor, of = {}, {}, {}, {}
    for k, (tr, fn) in enumerate(sorted(trs.items())):
        names, central, unc = fits(ctx, ffs, tr, order)
        corr = correlation(ctx, names, pair if k == 0 else ())
        files.text['data/%s/%s_%s.json' % (paper, fn, fit)] = json_text(files, names, central, unc, corr)
        for n in names:
            if n not in dropped:
                p = '%s BSZ %s' % (tr, n)
                want[p], un[p], of[p] = central[n], unc[n], tr
        cor.update({('%s BSZ %s' % (tr, a), '%s BSZ %s' % (tr, b)): x for (a, b), x in corr.items()})
    load()
    states = {'m0': '0-', 'm1-': '1-', 'm1+': '1+'} if kind == 'v' else {'m0': '0+', 'm+': '1-'}
    ctx.check('names of resonance masses', sorted(c.fixed) == sorted('%s BCL %s' % (tr, m) for tr in trs for m in states))
    for tr in trs:
        for m, jp in states.items():
            got = c.fixed.get('%s BCL %s' % (tr, m), 0.)
            # different publications use slightly different values
            ctx.check('mass of %s in %s' % (jp, tr), abs(got - MASSES[FLAVOUR[tr]][jp]) < 0.035)
    compare(ctx, c, want, lambda p, r: un[p] * un[r] * cor[p, r] if of[p] == of[r] else None)


add_harness(__name__, lambda ctx: bsz(ctx, 'v'), 'light-cone sum rules, B to vector', max_paths=40, time=120)
add_harness(__name__, lambda ctx: bsz(ctx, 'p'), 'light-cone sum rules, B to pseudoscalar', max_paths=20, time=60)


def covariance_symbols(ctx, names):
    cov = {}
    for i, a in enumerate(names):
        for b in names[:i + 1]:
            cov[a, b] = cov[b, a] = ctx.real('cov(%s,%s)' % (a, b), *((.5, 1.) if a == b else (-.05, .05)))
    return cov


def permuted(ctx, names):
    k = ctx.choice('order', [0, 1, 2])
    return list(names) if k == 0 else list(names)[::-1] if k == 1 else list(names)[1::2] + list(names)[::2]


EOS = {'alpha^f+_0': 'a0_f+', 'alpha^f+_1': 'a1_f+', 'alpha^f+_2': 'a2_f+', 'alpha^f0_1': 'a1_f0', 'alpha^f0_2': 'a2_f0', 'alpha^fT_0': 'a0_fT', 'alpha^fT_1': 'a1_fT', 'alpha^fT_2': 'a2_fT'}
LMVD = ['f_+(0)', 'b_+^1', 'b_+^2', 'b_+^3', 'b_0^1', 'b_0^2', 'b_0^3', 'b_0^4', 'f_T(0)', 'b_T^1', 'b_T^2', 'b_T^3']


def yaml_block(files, title, names, values, key, cov):
    rows = ['[%s]' % ', '.join(files.num(cov[a, b]) for b in names) for a in names]
    return "'%s':\n  type: MultivariateGaussian(Covariance)\n  observables: [%s]\n  %s: [%s]\n  covariance:\n%s\n" % (
        title, ', '.join("'%s'" % values[n][0] for n in names), key, ', '.join(files.num(values[n][1]) for n in names), '\n'.join('  - ' + r for r in rows))


@harness(name='EOS, B to pseudoscalar', max_paths=12, time=60)
def eos(ctx):
    c, files = Constraints(), Files(ctx)
    ctx.patch_name(MultivariateNormalDistribution, Recorded)
    kind = ctx.choice('fit', ['B->K', 'B->pi'])
    if kind == 'B->K':
        names = permuted(ctx, EOS)
        x, cov = {n: ctx.real(n, -5., 5.) for n in names}, covariance_symbols(ctx, sorted(names))
        other = {n: 0.25 for n in names}
        title = 'B->K::FormFactors[parametric,BSZ]@GRvDV:2023A'
        files.text['data/fit.yaml'] = yaml_block(files, 'another one', names, {n: ('B->K::%s@BSZ2015' % n, other[n]) for n in names}, 'means', {(a, b): 1. * (a == b) for a in names for b in names}) + \
            yaml_block(files, title, names, {n: ('B->K::%s@BSZ2015' % n, x[n]) for n in names}, 'means', cov)
        # with the arguments of the default parameters
        bp_bsz.load_ffs_eos('data/fit.yaml', title, r'::alpha\^(.*)_(.*)@BSZ2015', r' BSZ a\2_\1', c)
        par = {n: 'B->K BSZ ' + EOS[n] for n in names}
    else:
        names = permuted(ctx, LMVD)
        x, cov = {n: ctx.real(n, -5., 5.) for n in names}, covariance_symbols(ctx, sorted(names))
        files.text['data/fit.yaml'] = yaml_block(files, 'B->pi::BCL(K=4)_LQCD+LCSR@LvDM2021', names, {n: ('B->pi::' + n, x[n]) for n in names}, 'medians', cov)
        bp_lmvd.load_parameters('data/fit.yaml', c)
        par = {n: 'B->pi BCL ' + n for n in names}
    back = {p: n for n, p in par.items()}
    compare(ctx, c, {par[n]: x[n] for n in names}, lambda p, r: cov[back[p], back[r]])


@harness(name='expansion coefficients with uncertainties and correlation', max_paths=12, time=60)
def bcl(ctx):
    c, files = Constraints(), Files(ctx)
    ctx.patch_name(MultivariateNormalDistribution, Recorded)
    names = permuted(ctx, ['B->pi BCL a%d_f%s' % (i, f) for f in '+0T' for i in range(2)])
    x, u = [{n: ctx.real(t + n, lo, hi) for n in names} for t, lo, hi in (('', -5., 5.), ('uncertainty of ', .01, .5))]
    cor = covariance_symbols(ctx, sorted(names))
    cor.update({(n, n): 1. for n in names})
    ls = lambda v: '[' + ', '.join(v) + ']'
    files.text['data/fit.yaml'] = 'parameters: %s\ncentral_values: %s\nuncertainties: %s\ncorrelation: %s\n' % (
        ls("'%s'" % n for n in names), ls(files.num(x[n]) for n in names), ls(files.num(u[n]) for n in names), ls(ls(files.num(cor[a, b]) for b in names) for a in names))
    bp_bcl.load_parameters('data/fit.yaml', c)
    compare(ctx, c, x, lambda p, r: u[p] * u[r] * cor[p, r])


def table(files, rows, sep):
    return ''.join(sep.join(list(r[:-1]) + [' ' * (sep == '\t') + files.num(r[-1])]) + '\n' for r in rows)


@harness(name='lattice, B to vector', max_paths=12, time=120)
def lattice(ctx):
    c, files = Constraints(), Files(ctx)
    ctx.patch_name(MultivariateNormalDistribution, Recorded)
    k = ctx.choice('order', ['usual', 'reversed'])
    want, cov, of = {}, {}, {}
    for tr, tag in (('B->K*', 'sl'), ('Bs->K*', 'ls'), ('Bs->phi', 'ss')):
        for group, ffs in (('av', ['v', 'a0', 'a1', 'a12']), ('t', ['t1', 't2', 't23'])):
            names = ['%s_%s' % (f, a) for f in ffs for a in ('a0', 'a1', 'c01', 'c01s')]
            if k == 'reversed':
                names = names[::-1]
            x = {n: ctx.real('%s %s' % (tr, n), -5., 5.) for n in names}
            v = {}
            for i, a in enumerate(names):
                for b in names[:i + 1]:
                    s = tr == 'Bs->phi' and not {a, b} & {n for n in names if '_c' in n}
                    v[a, b] = v[b, a] = ctx.real('cov(%s,%s)' % (a, b), *((.5, 1.) if a == b else (-.05, .05))) if s else 1. + i / 50 if a == b else (i * 37 % 91 - len(b) * names.index(b)) / 2000
            # the tables contain one triangle of the matrix
            files.text['data/arXiv-1501-00367v2/%s_%s_results.d' % (group, tag)] = table(files, [(n, x[n]) for n in names], '\t')
            files.text['data/arXiv-1501-00367v2/%s_%s_covariance.d' % (group, tag)] = table(files, [(a, b, v[a, b]) for i, a in enumerate(names) for b in names[i:]], '\t')
            used = {n: '%s SSE %s' % (tr, n) for n in names if '_c' not in n}
            for n, p in used.items():
                want[p], of[p] = x[n], (tr, group)
            cov.update({(used[a], used[b]): y for (a, b), y in v.items() if a in used and b in used})
    bv_lattice.lattice_load(c)
    compare(ctx, c, want, lambda p, r: cov[p, r] if of[p] == of[r] else None)


LATTICE = {'fplus': 'fV0', 'fperp': 'fVperp', 'f0': 'fVt', 'gplus': 'fA0', 'gperp': 'fAperp', 'g0': 'fAt', 'hplus': 'fT0', 'hperp': 'fTperp', 'htildeplus': 'fT50', 'htildeperp': 'fT5perp'}
SHARED = {'gpp': 'fA0', 'htildepp': 'fT50'}   # common leading coefficients of two form factors


@harness(name='lattice, baryons', max_paths=12, time=120)
def baryons(ctx):
    c, files = Constraints(), Files(ctx)
    ctx.patch_name(MultivariateNormalDistribution, Recorded)
    order = ctx.choice('order of expansion', [2, 3])
    names = ['a%d_%s' % (i, f) for f in LATTICE for i in range(order) if not (i == 0 and f[:-4] in ('g', 'htilde') or i == 0 and f in ('gplus', 'htildeplus'))] + ['a0_' + f for f in SHARED]
    names = permuted(ctx, names)
    x = {n: ctx.real(n, -5., 5.) for n in names}
    some = {'a0_fplus', 'a1_gperp', 'a0_htildepp', 'a1_g0', 'a1_hplus', 'a1_fperp'}
    v = {}
    for i, a in enumerate(names):
        for j, b in enumerate(names[:i + 1]):
            v[a, b] = v[b, a] = ctx.real('cov(%s,%s)' % tuple(sorted((a, b))), *((.5, 1.) if a == b else (-.05, .05))) if {a, b} <= some else 1. + i / 50 if i == j else (i * 37 % 91 - 7 * j) / 4000
    fn = 'data/arXiv-1602-01399v1/LambdabLambda_' + ('HO_' if order == 3 else '')
    files.text[fn + 'results.dat'] = table(files, [(n, x[n]) for n in names], '  ')
    files.text[fn + 'covariance.dat'] = table(files, [(a, b, v[a, b]) for a in names for b in names], '  ')
    quadratic = ['Lambdab->Lambda SSE a2_%s' % f for f in LATTICE.values()]
    for p in quadratic + ['Lambdab->Lambda SSE a1_fV0', 'Lambdab->Lambda SSE a20', 'another a2_']:
        c._parameters[p] = None
    (lb_lattice.lattice_load_ho if order == 3 else lb_lattice.lattice_load_nominal)(c)
    par = {n: 'Lambdab->Lambda SSE ' + n[:3] + dict(LATTICE, **SHARED)[n[3:]] for n in names}
    back = {p: n for n, p in par.items()}
    compare(ctx, c, {par[n]: x[n] for n in names}, lambda p, r: v[back[p], back[r]])
    # after a fit of lower order, coefficients of higher order vanish
    ctx.check('vanishing coefficients', c.fixed == ({p: 0 for p in quadratic} if order == 2 else {}))
