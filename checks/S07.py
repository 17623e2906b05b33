"""Constraint strings and data files mean what the documented notation says."""
import copy
import itertools
import numpy as np
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'Constraint strings are generated from their structure (sign, digit shapes, kind and number of errors, spacing, overall power of ten) with every decimal number replaced by '
    'a placeholder whose value is a solver variable; the real parser runs on the text and the distributions it returns are compared with the structure. File readers run on the '
    'parsed YAML object with symbolic numbers and placeholder strings.')
BOUNDS = ('numbers with 1-2 digits before and 0-2 (also one trailing zero) after the point, up to 2 errors of each kind (thorough: 3 in mixed order), 7 spellings of the power of ten, '
          'up to 3 correlated quantities with correlations in [-0.9,0.9]; malformed strings from a list of 18')
ASSUMPTIONS = ['text of a number is represented by one placeholder per digit shape (regular expressions treat all digits alike)', 'YAML syntax itself is not encoded: readers are given the loaded object',
               'floats treated as reals']

FACTORS = [('', 0), ('e-11', -11), (' 1e-11', -11), (' * 1e-1', -1), (' * 10^(-10)', -10), (' 10^1', 1), ('E10', 10)]
SHAPES = [(1, 2, 0), (2, 0, 0), (1, 1, 0), (2, 2, 1)]


def parse(text):
    from flavio._parse_errors import constraints_from_string
    return constraints_from_string(text)


def split(ctx, pds):
    """central values, symmetric and asymmetric errors of a list of distributions"""
    import flavio.statistics.probability as p
    c, s, a = [], [], []
    for d in pds:
        c.append(d.central_value)
        if type(d) is p.NormalDistribution:
            s.append(d.standard_deviation)
        elif type(d) is p.AsymmetricNormalDistribution:
            a.append((d.right_deviation, d.left_deviation))
        else:
            ctx.check('normal or asymmetric normal', False)
    return c, s, a


def sub(ctx, lst, key):
    return lst[ctx.choice(key, range(len(lst)))]


def scaled(v, k):
    return v * 10.0 ** k if k else v


@harness('exact', bounds='sign, unicode minus, shapes, exponents', objects=False)
def exact(ctx):
    import flavio.statistics.probability as p
    t, v = ctx.number('c', *sub(ctx, SHAPES, 'shape'))
    sg = ctx.choice('sign', ['', '+', '-', '−'])
    ex, k = sub(ctx, [('', 0), ('e-11', -11), ('E+10', 10)], 'exp')
    r = parse(sg + t + ex)
    ctx.check('one delta', len(r) == 1 and type(r[0]) is p.DeltaDistribution)
    ctx.check_eq('value', r[0].central_value, scaled(v if sg in ('', '+') else -v, k))


def err_number(ctx, name, bracket, decs):
    """(text, value in units of the text's central value)"""
    if bracket:
        form = ctx.choice(name + '.form', ['int', 'int2', 'dec'])
        if form == 'dec':
            return ctx.number(name, 1, 1)
        t, v = ctx.number(name, 2 if form == 'int2' else 1, 0)
        return t, v * 10.0 ** (-decs)
    return ctx.number(name, *ctx.choice(name + '.form', [(1, 2), (1, 0)]))


def text_with_errors(ctx, kinds, bracket):
    sh = sub(ctx, SHAPES[:2] + [SHAPES[3]], 'shape')
    ct, c = ctx.number('c', *sh)
    sg = ctx.choice('sign', ['', '-', '−'])
    cv = c if sg == '' else -c
    ftext, k = sub(ctx, FACTORS, 'factor')
    wide = ctx.choice('space', [False, True])
    sp = ' ' if wide else ''
    out, sym, asym = '', [], []
    for i, kd in enumerate(kinds):
        if bracket:
            t, v = err_number(ctx, 'e%d' % i, True, sh[1])
            out += sp + '(' + sp + t + ')'
            sym.append(scaled(v, k))
        elif kd == 's':
            t, v = err_number(ctx, 'e%d' % i, False, 0)
            out += sp + ctx.choice('pm%d' % i, ['±', '+-', '\\pm']) + sp + t
            sym.append(scaled(v, k))
        else:
            t, v = err_number(ctx, 'e%d' % i, False, 0)
            u, w = ctx.number('d%d' % i, 1, 1)
            minus = '−' if sg == '−' else '-'
            out += sp + '+' + sp + t + sp + minus + sp + u
            asym.append((scaled(v, k), scaled(w, k)))
    paren = ctx.choice('paren', [False, True])
    text = sg + ct + out
    text = '(' + text + ')' if paren else text
    if ftext and not paren and ftext[0] not in ' eE':
        ftext = ' ' + ftext
    return text + ftext, scaled(cv, k), sym, asym


def mk_errors(name, kinds, bracket, tier='quick'):
    def f(ctx):
        text, cv, sym, asym = text_with_errors(ctx, kinds, bracket)
        c, s, a = split(ctx, parse(text))
        ctx.check('number of errors', (len(c), len(s), len(a)) == (len(sym) + len(asym), len(sym), len(asym)))
        for v in c:
            ctx.check_eq('central value', v, cv)
        ctx.check_eq('symmetric errors', s, sym)
        ctx.check_eq('asymmetric errors', [x for t in a for x in t], [x for t in asym for x in t])
    add_harness(__name__, f, name, tier=tier, objects=False, max_paths=6000, time=120, replay_paths=25,
                bounds='errors ' + ('in brackets' if bracket else ' '.join(kinds)))


mk_errors('brackets1', 's', True)
mk_errors('brackets2', 'ss', True, 'thorough')
mk_errors('symmetric1', 's', False)
mk_errors('asymmetric1', 'a', False)
mk_errors('mixed_sa', 'sa', False, 'thorough')
mk_errors('mixed_as', 'as', False, 'thorough')
mk_errors('symmetric2', 'ss', False, 'thorough')
mk_errors('asymmetric2', 'aa', False, 'thorough')


def mk_short(name, kinds, bracket):
    """several errors, one layout"""
    def f(ctx):
        ct, c = ctx.number('c', 1, 2)
        ftext, k = sub(ctx, FACTORS[:2] + FACTORS[3:5], 'factor')
        out, sym, asym = '', [], []
        for i, kd in enumerate(kinds):
            if bracket:
                t, v = ctx.number('e%d' % i, 1, 0)
                out += '(' + t + ')'
                sym.append(scaled(v * 0.01, k))
            elif kd == 's':
                t, v = ctx.number('e%d' % i, 1, 2)
                out += ' +- ' + t
                sym.append(scaled(v, k))
            else:
                t, v = ctx.number('e%d' % i, 1, 2)
                u, w = ctx.number('d%d' % i, 1, 1)
                out += ' +' + t + ' -' + u
                asym.append((scaled(v, k), scaled(w, k)))
        text = '(' + ct + out + ')' + ftext
        c1, s, a = split(ctx, parse(text))
        ctx.check('number of errors', (len(s), len(a)) == (len(sym), len(asym)))
        ctx.check_eq('central value', c1, [scaled(c, k)] * len(c1))
        ctx.check_eq('symmetric errors', s, sym)
        ctx.check_eq('asymmetric errors', [x for t in a for x in t], [x for t in asym for x in t])
        # a constraint set from the string has the total error
        if not asym:
            from flavio.classes import Constraints
            cc = Constraints()
            cc.set_constraint('a', text)
            ctx.check_eq('total central', cc.get_central('a'), scaled(c, k))
            ctx.check_eq('total variance', cc._parameters['a'][1].standard_deviation ** 2, sum(x ** 2 for x in sym))
    add_harness(__name__, f, name, objects=True, bounds='errors %s, one layout' % kinds)


mk_short('short_brackets2', 'ss', True)
mk_short('short_brackets3', 'sss', True)
mk_short('short_ss', 'ss', False)
mk_short('short_sa', 'sa', False)
mk_short('short_as', 'as', False)
mk_short('short_sas', 'sas', False)


@harness('limit', bounds='all limits and confidence levels', objects=False)
def limit(ctx):
    import flavio.statistics.probability as p
    rec = []
    ctx.patch_name(p.GaussianUpperLimit, lambda l, c: rec.append((l, c)) or p.GaussianUpperLimit)
    t, v = ctx.number('l', *sub(ctx, SHAPES, 'shape'))
    u, cl = ctx.number('cl', *ctx.choice('clshape', [(2, 0), (2, 1)]))
    ex, k = sub(ctx, [('', 0), ('e-11', -11), ('E+10', 10)], 'exp')
    lay = ctx.choice('layout', ['< {} @ {}% CL', '<{}@{} % C.L.', '  <  {} @ {} % C. L. '])
    parse(lay.format(t + ex, u))
    ctx.check('one upper limit', len(rec) == 1)
    ctx.check_eq('limit', rec[0][0], scaled(v, k))
    ctx.check_eq('confidence level', rec[0][1], cl / 100)


@harness('interval', bounds='all end points', max_paths=1000, objects=False)
def interval(ctx):
    import flavio.statistics.probability as p
    t, v = ctx.number('lo', 1, 2)
    u, w = ctx.number('hi', *ctx.choice('shape', [(1, 1), (2, 0)]))
    s1, s2 = ctx.choice('s1', ['', '-', '−']), ctx.choice('s2', ['', '-'])
    e1, k1 = sub(ctx, [('', 0), ('e-1', -1)], 'e1')
    e2, k2 = sub(ctx, [('', 0), ('E1', 1)], 'e2')
    ft, k = sub(ctx, FACTORS, 'factor')
    lo = scaled(v if s1 == '' else -v, k1)
    hi = scaled(w if s2 == '' else -w, k2)
    lay = ctx.choice('layout', ['[{}, {}]', ' [ {},{} ]'])
    text = lay.format(s1 + t + e1, s2 + u + e2) + ft
    if hi < lo:
        ctx.raises('wrong order', ValueError, parse, text)
        return
    ctx.assume(hi > lo)
    r = parse(text)
    ctx.check('one uniform', len(r) == 1 and type(r[0]) is p.UniformDistribution)
    ctx.check_eq('lower end', r[0].central_value - r[0].half_range, scaled(lo, k), scale=scaled(abs(lo) + abs(hi), k))
    ctx.check_eq('upper end', r[0].central_value + r[0].half_range, scaled(hi, k), scale=scaled(abs(lo) + abs(hi), k))


@harness('lognormal', bounds='all values and factors > 1', objects=False)
def lognormal(ctx):
    import flavio.statistics.probability as p
    rec = []
    ctx.patch_name(p.LogNormalDistribution, lambda c, f: rec.append((c, f)) or p.LogNormalDistribution)
    t, v = ctx.number('c', 1, 2)
    sg = ctx.choice('sign', ['', '-', '+'])
    u, f = ctx.number('f', 1, 1)
    ex, k = sub(ctx, [('', 0), ('e-11', -11), ('E+10', 10)], 'exp')
    op = ctx.choice('op', ['*/', '/*', ' */ ', ' /* '])
    parse(sg + t + ex + op + u)
    ctx.check('one lognormal', len(rec) == 1)
    ctx.check_eq('central', rec[0][0], scaled(-v if sg == '-' else v, k))
    ctx.check_eq('factor', rec[0][1], f)


BAD = ['', 'a', '1.0 pm 0.1', '1.0 - 0.2 + 0.1', '1.0 - 0.2', '1.0 + 0.2', '1.0(', '1.0()', '1.0 ± ', '[1.0]', '[1.0, 2.0', '< 1.0', '< 1.0 @ 90 CL', '1.0 ± 0.1 ± x', '1.0 ± 0.1 - 0.2',
       '1.0 ± -0.1', '1.0(1) 2e-3', '1,0 ± 0.1']


@harness('malformed', bounds='list of malformed strings', objects=False)
def malformed(ctx):
    # not symbolic: these only have to be rejected
    b = ctx.choice('text', BAD)
    ctx.raises('rejected ' + b, ValueError, parse, b)


@harness('from_constraints', bounds='all values')
def from_constraints(ctx):
    import flavio.statistics.probability as p
    from flavio._parse_errors import errors_from_constraints
    r = ctx.real
    c, s, t, a, b = r('c', -5, 5), r('s', 0.1, 2), r('t', 0.1, 2), r('a', 0.1, 2), r('b', 0.1, 2)
    e = errors_from_constraints([(0, p.DeltaDistribution(c)), (0, p.NormalDistribution(c, s)), (0, p.AsymmetricNormalDistribution(c, a, b)), (0, p.NormalDistribution(c, t))])
    ctx.check_eq('all', [e['central_value'], e['symmetric_errors'], e['asymmetric_errors']], [c, [s, t], [(a, b)]])
    rho = r('rho', -0.9, 0.9)
    m = p.MultivariateNormalDistribution([c, a], standard_deviation=[s, t], correlation=[[1, rho], [rho, 1]])
    k = ctx.choice('k', [0, 1])
    e = errors_from_constraints([(k, m)])
    ctx.check_eq('component', [e['central_value'], e['symmetric_errors'][0]], [[c, a][k], [s, t][k]])


def corr(ctx, n, names='r'):
    m = [[1] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            v = ctx.real('%s%d%d' % (names, j, i), -0.9, 0.9)
            ctx.assume(v != 0)
            m[i][j] = m[j][i] = v
    return m


def corr_forms(ctx, m):
    """the matrix m in one of the accepted forms"""
    n = len(m)
    form = ctx.choice('form', ['full', 'upper', 'zeros'])
    if form == 'full':
        return [list(x) for x in m]
    if form == 'upper':
        return [m[i][i:] for i in range(n)]
    return [[0] * i + m[i][i:] for i in range(n)]


def mk_corr(n):
    def f(ctx):
        from flavio.measurements import _fix_correlation_matrix
        m = corr(ctx, n)
        for i in range(n):
            for j in range(i):
                ctx.assume(abs(m[i][j]) >= 0.001)
        ctx.check_eq('matrix', _fix_correlation_matrix(corr_forms(ctx, m), n), np.array(m))
        x = ctx.real('x', -0.9, 0.9)
        ctx.check_eq('number', _fix_correlation_matrix(x, n), np.array([[1 if i == j else x for j in range(n)] for i in range(n)]))
        bad = [list(r) for r in m]
        bad[ctx.choice('i', range(n))][:] = [m[0][1]] * n
        ctx.raises('diagonal', ValueError, _fix_correlation_matrix, bad, n)
        ctx.raises('dimension', ValueError, _fix_correlation_matrix, m, n + 1)
        ctx.raises('ragged', ValueError, _fix_correlation_matrix, [m[0] + [0.1]] + m[1:], n)
        ctx.raises('type', TypeError, _fix_correlation_matrix, {'a': 1}, n)
    add_harness(__name__, f, 'correlation%d' % n, bounds='%d x %d' % (n, n))


mk_corr(2)
mk_corr(3)


def observables(ctx):
    from flavio.classes import Observable, Measurement
    ctx.patch(Observable, 'instances', {})
    ctx.patch(Measurement, 'instances', {})
    Observable('A'), Observable('B'), Observable('C')
    Observable('D', arguments=['q2min', 'q2max'])
    Observable('E', arguments=['x'])
    return Observable, Measurement


def loader(ctx):
    import flavio.measurements as fm
    ctx.patch(fm.yaml, 'safe_load', lambda o: o)
    return fm


def check_normal(ctx, lab, cons, name, cv, var):
    ctx.check_eq(lab + ' central', cons.get_central(name), cv)
    n, d = cons._parameters[name]
    sd = d.standard_deviation if not hasattr(d, 'covariance') else None
    ctx.check_eq(lab + ' variance', sd ** 2 if sd is not None else d.covariance[n, n], var)


@harness('load_single', bounds='all numbers')
def load_single(ctx):
    Observable, Measurement = observables(ctx)
    fm = loader(ctx)
    t1, v1 = ctx.number('v1', 1, 2)
    t2, v2 = ctx.number('v2', 1, 1)
    t3, v3 = ctx.number('v3', 2, 1)
    q1, q2 = ctx.real('q1', 0, 6), ctx.real('q2', 6, 19)
    c, s = ctx.real('c', -3, 3), ctx.real('s', 0.1, 2)
    dd = {'distribution': 'normal', 'central_value': c, 'standard_deviation': s}
    form = ctx.choice('form', ['dict', 'list'])
    if form == 'dict':
        vals = {'A': t1 + ' ± ' + t2, 'B': dict(dd), 'C': t3}
    else:
        vals = [{'name': 'D', 'q2min': 1, 'q2max': 2, 'value': t1 + ' ± ' + t2}, {'name': 'D', 'q2max': q2, 'q2min': q1, 'value': t3 + ' +- ' + t2},
                {'name': 'E', 'x': 3, 'value': dict(dd)}]
    r = fm._load({'m1': {'experiment': 'X', 'inspire': 'Y:2020', 'values': vals, 'url': 'u'}, 'm2': {'values': {'A': '1.0 ± 0.1'}}})
    ctx.check('names', r == ['m1', 'm2'])
    m = Measurement['m1']
    ctx.check('metadata', (m.experiment, m.inspire, m.url, Measurement['m2'].inspire) == ('X', 'Y:2020', 'u', ''))
    if form == 'dict':
        check_normal(ctx, 'A', m, 'A', v1, v2 ** 2)
        check_normal(ctx, 'B', m, 'B', c, s ** 2)
        ctx.check_eq('C', m.get_central('C'), v3)
        ctx.check('all', sorted(m.all_parameters) == ['A', 'B', 'C'])
    else:
        ks = m.all_parameters
        ctx.check('all', len(ks) == 3 and ks[0] == ('D', 1, 2) and ks[1][0] == 'D' and len(ks[1]) == 3 and ks[2] == ('E', 3))
        ctx.check_eq('arguments in the declared order', list(ks[1][1:]), [q1, q2])
        check_normal(ctx, 'D', m, ks[0], v1, v2 ** 2)
        check_normal(ctx, 'D2', m, ks[1], v3, v2 ** 2)
        check_normal(ctx, 'E', m, ks[2], c, s ** 2)


@harness('load_correlated', bounds='2 or 3 observables, all numbers and correlations')
def load_correlated(ctx):
    Observable, Measurement = observables(ctx)
    fm = loader(ctx)
    n = ctx.choice('n', [2, 3])
    names = ['A', 'B', 'C'][:n]
    kind = ctx.choice('errors', ['sym', 'two', 'asym'])
    texts, cv, var = [], [], []
    for i in range(n):
        t, v = ctx.number('v%d' % i, 1, 1)
        u, w = ctx.number('w%d' % i, 1, 2)
        cv.append(v)
        if kind == 'sym' or i == 2:
            texts.append(t + ' ± ' + u)
            var.append(w ** 2)
        elif kind == 'two':
            texts.append(t + '±' + u + '±0.5')
            var.append(w ** 2 + 0.25)
        else:
            texts.append(t + ' + ' + u + ' - 0.5')
            var.append(w * 0.5)
    m = corr(ctx, n)
    for i in range(n):
        for j in range(i):
            ctx.assume(abs(m[i][j]) >= 0.001)
    if n == 3:
        ctx.assume(1 - m[0][1] ** 2 - m[0][2] ** 2 - m[1][2] ** 2 + 2 * m[0][1] * m[0][2] * m[1][2] >= 0.01)
    order = ctx.choice('as', ['dict', 'list'])
    vals = dict(zip(names, texts)) if order == 'dict' else [{'name': 'E', 'x': i, 'value': b} for i, b in enumerate(texts)]
    if order == 'list':
        names = [('E', i) for i in range(n)]
    import flavio.statistics.probability as p
    rec = []

    class MVN:
        def __init__(self, c, cov):
            rec.append((c, cov))
    ctx.patch(fm.probability, 'MultivariateNormalDistribution', MVN)
    fm._load({'m1': {'values': vals, 'correlation': corr_forms(ctx, m)}})
    ctx.check('one constraint', len(rec) == 1 and Measurement['m1']._constraints[0][1] == names)
    ctx.check_eq('central values', list(rec[0][0]), cv)
    for i in range(n):
        for j in range(n):
            got = rec[0][1][i, j]
            ctx.check_eq('covariance %d%d squared' % (i, j), got * got, var[i] * var[j] * m[i][j] * m[i][j])
            ctx.check('covariance sign %d%d' % (i, j), (got > 0) == (m[i][j] > 0))


@harness('load_observables', bounds='all numbers; correlated observables given by name or by name and arguments')
def load_observables(ctx):
    Observable, Measurement = observables(ctx)
    fm = loader(ctx)
    a, b, s, t, r = ctx.real('a', -3, 3), ctx.real('b', -3, 3), ctx.real('s', 0.1, 3), ctx.real('t', 0.1, 3), ctx.real('r', -0.9, 0.9)
    q1, q2 = ctx.real('q1', 0, 6), ctx.real('q2', 6, 19)
    fm._load({'m1': {'observables': ['A', {'q2max': q2, 'name': 'D', 'q2min': q1}],
                     'values': {'distribution': 'multivariate_normal', 'central_value': [a, b], 'standard_deviation': [s, t], 'correlation': [[1, r], [r, 1]]}}})
    m = Measurement['m1']
    k = m.all_parameters
    ctx.check('names', k[0] == 'A' and k[1][0] == 'D')
    ctx.check_eq('arguments', list(k[1][1:]), [q1, q2])
    ctx.check_eq('central', [m.get_central(k[0]), m.get_central(k[1])], [a, b])
    ctx.check_eq('covariance', m._constraints[0][0].covariance, np.array([[s * s, r * s * t], [r * s * t, t * t]]), scale=s * t)


@harness('load_new', bounds='all numbers')
def load_new(ctx):
    Observable, Measurement = observables(ctx)
    fm = loader(ctx)
    t1, v1 = ctx.number('v1', 1, 2)
    t2, v2 = ctx.number('v2', 1, 1)
    c, s = ctx.real('c', -3, 3), ctx.real('s', 0.1, 2)
    d1 = {'arguments': {'name': 'm1'}, 'metadata': {'inspire': 'Y'}, 'constraints': [
        {'observables': ['A'], 'values': {'distribution': 'normal', 'central_value': c, 'standard_deviation': s}}, {'B': t1 + '(3)'},
        {'observables': [['D', 1, 6]], 'values': [{'distribution': 'normal', 'central_value': c, 'standard_deviation': s}, {'distribution': 'normal', 'central_value': c, 'standard_deviation': v2}]}]}
    one = ctx.choice('as', ['dict', 'list'])
    r = fm._load_new(d1 if one == 'dict' else [d1, {'arguments': {'name': 'm2'}, 'constraints': []}])
    ctx.check('names', r == (['m1'] if one == 'dict' else ['m1', 'm2']))
    m = Measurement['m1']
    ctx.check('metadata', m.inspire == 'Y')
    ctx.check('all', m.all_parameters == ['A', 'B', ('D', 1, 6)])
    check_normal(ctx, 'A', m, 'A', c, s ** 2)
    check_normal(ctx, 'B', m, 'B', v1, 0.03 ** 2)
    check_normal(ctx, 'D', m, ('D', 1, 6), c, s ** 2 + v2 ** 2)
    ctx.raises('wrong key', ValueError, fm._load_new, {'arguments': {'name': 'm3'}, 'constraints': [{'parameters': ['A'], 'values': {}}]})


@harness('parameter_values', bounds='all numbers')
def parameter_values(ctx):
    import flavio.parameters as fp
    from flavio.classes import Parameter, ParameterConstraints
    ctx.patch(Parameter, 'instances', {})
    ctx.patch(fp.yaml, 'safe_load', lambda o: o)
    cons = ParameterConstraints()
    fp._read_yaml_object_metadata({'a': {'tex': '$a$', 'description': 'A'}, 'b': {'tex': None}, 'c': {}}, cons)
    ctx.check('metadata', (Parameter['a'].tex, Parameter['a'].description, Parameter['b'].tex, sorted(Parameter.instances)) == ('$a$', 'A', '', ['a', 'b', 'c']))
    t1, v1 = ctx.number('v1', 1, 2)
    t2, v2 = ctx.number('v2', 1, 1)
    c, s = ctx.real('c', -3, 3), ctx.real('s', 0.1, 2)
    fp._read_yaml_object_values({'a': t1 + ' ± ' + t2, 'b': {'distribution': 'normal', 'central_value': c, 'standard_deviation': s}, 'c': t1}, cons)
    check_normal(ctx, 'a', cons, 'a', v1, v2 ** 2)
    check_normal(ctx, 'b', cons, 'b', c, s ** 2)
    ctx.check_eq('c', cons.get_central('c'), v1)
    ctx.raises('unknown parameter', KeyError, fp._read_yaml_object_values, {'zz': '1'}, cons)


@harness('parameter_correlated', bounds='2 parameters, all numbers and correlations')
def parameter_correlated(ctx):
    import flavio.parameters as fp
    from flavio.classes import Parameter, ParameterConstraints
    ctx.patch(Parameter, 'instances', {})
    Parameter('a'), Parameter('b'), Parameter('c')
    ctx.patch(fp.yaml, 'safe_load', lambda o: o)
    cons = ParameterConstraints()
    t = [ctx.number('v%d' % i, 1, 1) for i in range(2)]
    u = [ctx.number('w%d' % i, 1, 2) for i in range(2)]
    m = corr(ctx, 2)
    ctx.assume(abs(m[0][1]) >= 0.001)
    ctx.patch(np.linalg, 'eigvals', eig2) if not ctx.symbolic else ctx.patch(fp.np, 'linalg', _Lin(fp.np.linalg))
    fp._read_yaml_object_values_correlated([{'values': [{'a': t[0][0] + ' ± ' + u[0][0]}, {'b': t[1][0] + ' ± ' + u[1][0]}], 'correlation': corr_forms(ctx, m)}], cons)
    ctx.check_eq('central', [cons.get_central('a'), cons.get_central('b')], [t[0][1], t[1][1]])
    cov = cons._constraints[0][0].covariance
    r = m[0][1]
    w = [x[1] for x in u]
    ctx.check_eq('covariance', cov, np.array([[w[0] ** 2, r * w[0] * w[1]], [r * w[0] * w[1], w[1] ** 2]]), scale=w[0] * w[1])


def eig2(m):
    tr, det = m[0, 0] + m[1, 1], m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    d = num.sqrt((m[0, 0] - m[1, 1]) ** 2 + 4 * m[0, 1] * m[1, 0])
    return np.array([(tr + d) / 2, 2 * det / (tr + d)])


class _Lin:
    def __init__(self, orig):
        self.o = orig

    def __getattr__(self, k):
        return eig2 if k == 'eigvals' else getattr(self.o, k)


@harness('pdg', bounds='all masses, widths and their errors')
def pdg(ctx):
    import flavio.parameters as fp
    from flavio.classes import Parameter, ParameterConstraints
    import flavio.statistics.probability as p
    ctx.patch(Parameter, 'instances', {})
    FP = fp.FlavioParticle
    name = ctx.choice('particle', ['B0', 't', 'W'])
    r = ctx.real
    part = copy.copy(FP.from_flavio_name(name))
    ma, mu, G, Gu = r('m', 100, 2e5), r('mu', 0.001, 50), r('G', 1e-10, 5000), r('Gu', 1e-12, 1000)
    same = ctx.choice('symmetric', [True, False])
    ml, Gl = (mu, Gu) if same else (r('ml', 0.001, 50), r('Gl', 1e-12, 1000))
    if not same:
        ctx.assume(ml != mu)
        ctx.assume(Gl != Gu)
    for k, v in dict(mass=ma, mass_upper=mu, mass_lower=ml, width=G, width_upper=Gu, width_lower=Gl).items():
        object.__setattr__(part, k, v)
    ctx.patch(FP, 'load_table', classmethod(lambda cls, *a, **k: None))
    ctx.patch(FP, 'flavio_all', classmethod(lambda cls: [part]))
    cons = ParameterConstraints()
    if ctx.choice('exists', [False, True]):
        Parameter('m_' + name)
        cons.set_constraint('m_' + name, '1.0 ± 0.1')
    fp.read_pdg(2022, cons)
    ctx.check('names', sorted(cons.all_parameters) == sorted(Parameter.instances) == sorted(['m_' + name, 'tau_' + name]))
    ctx.check_eq('mass in GeV', cons.get_central('m_' + name), ma / 1000)
    ctx.check_eq('life time', cons.get_central('tau_' + name), 1000 / G)
    e = cons.get_1d_errors_rightleft()
    ctx.check_eq('mass errors', list(e['m_' + name]), [mu / 1000, ml / 1000])
    # heavier width, shorter life
    ctx.check_eq('life time errors', list(e['tau_' + name]), [Gl / G ** 2 * 1000, Gu / G ** 2 * 1000])


@harness('pdg_stable', bounds='missing or zero widths')
def pdg_stable(ctx):
    import flavio.parameters as fp
    FP = fp.FlavioParticle
    part = copy.copy(FP.from_flavio_name('e'))
    w = ctx.choice('w', [(None, None, None), (0, 0, 0), (1.0, None, 1.0), (1.0, 0.1, 0)])
    for k, v in zip(('width', 'width_upper', 'width_lower'), w):
        object.__setattr__(part, k, v)
    ctx.check('no life time', part.flavio_tau is None)
