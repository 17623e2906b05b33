"""Observables, their arguments and predictions are found under every accepted notation."""
import itertools
import numpy as np
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'argument_format is executed on observables with 0 to 3 arguments with symbolic values in every notation (string, tuple, list, dictionary in every key order) and target format; predictions are arbitrary '
    'functions of parameters, Wilson coefficients and arguments, called through every entry point with positional and keyword arguments, and compared with the function itself. '
    'Sequences of registering, replacing and deleting named objects are compared with an ordered map.')
BOUNDS = 'up to 3 arguments, up to 3 combined observables, sequences of up to 4 registry operations on 3 names; argument and parameter values in [-10, 10]'
ASSUMPTIONS = ['floats treated as reals']
ARGS = {'n0': None, 'n1': ['q2'], 'n2': ['q2min', 'q2max'], 'n3': ['x', 'a', 'name2']}


def setup(ctx):
    from flavio.classes import Observable, Measurement, Parameter
    ctx.patch(Observable, 'instances', {})
    ctx.patch(Measurement, 'instances', {})
    for n, a in ARGS.items():
        Observable(n, arguments=list(a) if a is not None else None)
    return Observable


def eq(ctx, label, got, exp):
    ctx.check(label + ' type', type(got) is type(exp))
    if isinstance(exp, str):
        return ctx.check(label, got == exp)
    if isinstance(exp, dict):
        ctx.check(label + ' keys', set(got) == set(exp))
        for k in exp:
            ctx.check(label, got[k] == exp[k]) if isinstance(exp[k], str) else ctx.check_eq('%s %s' % (label, k), got[k], exp[k])
        return
    ctx.check(label + ' length', len(got) == len(exp))
    ctx.check(label + ' name', got[0] == exp[0])
    for i in range(1, len(exp)):
        ctx.check_eq('%s %d' % (label, i), got[i], exp[i])


def forms(name, vals):
    args = ARGS[name]
    if args is None:
        return {'str': name, 'dict': {'name': name}}
    out = {'tuple': tuple([name] + vals), 'list': [name] + vals}
    items = [('name', name)] + list(zip(args, vals))
    for i, p in enumerate(itertools.permutations(items)):
        out['dict%d' % i] = dict(p)
    return out


def target(name, vals, fmt):
    args = ARGS[name]
    if fmt == 'dict':
        return dict([('name', name)] + list(zip(args or [], vals)))
    if args is None:
        return name
    return (tuple if fmt == 'tuple' else list)([name] + vals)


def formats(name):
    def h(ctx):
        O = setup(ctx)
        n = len(ARGS[name] or [])
        vals = [ctx.real('v%d' % i, -10, 10) for i in range(n)]
        f = forms(name, vals)
        src = f[ctx.choice('given as', sorted(f))]
        before = type(src)(src)
        for fmt in ('tuple', 'list', 'dict'):
            got = O.argument_format(src, fmt)
            eq(ctx, fmt, got, target(name, vals, fmt))
            for back in ('tuple', 'list', 'dict'):
                eq(ctx, fmt + ' to ' + back, O.argument_format(got, format=back), target(name, vals, back))
            if isinstance(got, dict):
                got.pop('name')
        eq(ctx, 'default', O.argument_format(src), target(name, vals, 'tuple'))
        eq(ctx, 'input unchanged', src, before)
        if n:
            ctx.raises('missing arguments', ValueError, O.argument_format, name)
            ctx.raises('too few', ValueError, O.argument_format, (name,) + tuple(vals[1:]))
            ctx.raises('too many', ValueError, O.argument_format, (name,) + tuple(vals) + (1.,))
            ctx.raises('incomplete dictionary', KeyError, O.argument_format, {'name': name})
        else:
            ctx.raises('no arguments expected', ValueError, O.argument_format, (name, 1.))
        ctx.raises('unknown', KeyError, O.argument_format, 'nonexistent')
    return h


for _n in ARGS:
    add_harness(__name__, formats(_n), 'format/' + _n)


def wilson():
    import flavio
    w = flavio.WilsonCoefficients()
    w.set_initial({'C9_bsmumu': 0.5}, 160)
    return w


def npc(wc):
    return 0.0 if wc is None or wc.wc is None else wc.wc.dict.get('C9_bsmumu', 0.0)


class Par:
    def __init__(self, central):
        self.central = central

    def get_central_all(self):
        return dict(self.central)


def predict(name):
    def h(ctx):
        import flavio
        from flavio.classes import Prediction
        O = setup(ctx)
        args = ARGS[name] or []
        f = ctx.ufun('f', -5, 5)

        def fct(wc, par, *a, **k):
            v = dict(zip(args, a))
            v.update(k)
            return f(par['m'], par['n'], npc(wc), *[v[q] for q in args])
        Prediction(name, fct)
        w = wilson()
        cen = {'m': ctx.real('m', -10, 10), 'n': ctx.real('n', -10, 10)}
        par = {'m': ctx.real('pm', -10, 10), 'n': ctx.real('pn', -10, 10)}
        vals = [ctx.real('v%d' % i, -10, 10) for i in range(len(args))]
        default = Par(cen)
        ctx.patch(flavio, 'default_parameters', default)
        k = ctx.choice('positional', list(range(len(args) + 1)))
        a, kw = vals[:k], dict(zip(args[k:], vals[k:]))
        sm, np_, pp = (f(cen['m'], cen['n'], 0.0, *vals), f(cen['m'], cen['n'], 0.5, *vals), f(par['m'], par['n'], 0.5, *vals))
        ctx.check_eq('sm_prediction', flavio.sm_prediction(name, *a, **kw), sm)
        ctx.check_eq('np_prediction', flavio.np_prediction(name, w, *a, **kw), np_)
        ctx.check_eq('prediction_par', O[name].prediction_par(dict(par), w, *a, **kw), pp)
        ctx.check_eq('prediction_par SM', O[name].prediction_par(dict(par), None, *a, **kw), f(par['m'], par['n'], 0.0, *vals))
        ctx.check_eq('prediction_central', O[name].prediction_central(Par(par), w, *a, **kw), pp)
        ctx.check_eq('sm_prediction again', flavio.sm_prediction(name, *a, **kw), sm)
        # the prediction registered last counts
        g = ctx.ufun('g', -5, 5)
        Prediction(name, lambda wc, par, *a, **k: g(par['m']))
        ctx.check_eq('replaced', flavio.sm_prediction(name, *a, **kw), g(cen['m']))
        ctx.raises('unknown observable', ValueError, Prediction, 'nonexistent', fct)
    return h


for _n in ARGS:
    add_harness(__name__, predict(_n), 'prediction/' + _n)


@harness(name='from-function')
def fromf(ctx):
    import flavio
    from flavio.classes import Prediction
    O = setup(ctx)
    args = ctx.choice('arguments', [None, ['q2'], ['q2min', 'q2max']])
    n = ctx.choice('combined', [1, 2, 3])
    fs = [ctx.ufun('f%d' % i, -5, 5) for i in range(3)]
    names = ['p%d' % i for i in range(n)]
    for i, m in enumerate(names):
        O(m, arguments=args)
        Prediction(m, lambda wc, par, *a, i=i, **k: fs[i](par['m'], npc(wc), *(a + tuple(k[q] for q in (args or [])[len(a):]))))
    if n > 1 and ctx.choice('repeated', [False, True]):
        names[-1] = names[0]
    comb = lambda *x: sum((i + 2) * v for i, v in enumerate(x)) * x[0]
    ctx.raises('unknown', ValueError, O.from_function, 'new', names + ['nonexistent'], comb)
    O('other', arguments=['zz'])
    Prediction('other', lambda wc, par, zz: zz)
    ctx.raises('different arguments', AssertionError, O.from_function, 'new', names + ['other'], comb)
    O('nopred', arguments=args)
    ctx.raises('no prediction', AssertionError, O.from_function, 'new', names + ['nopred'], comb)
    new = O.from_function('new', list(names), comb)
    ctx.check('registered', O['new'] is new and new.arguments == args)
    vals = [ctx.real('v%d' % i, -10, 10) for i in range(len(args or []))]
    par = {'m': ctx.real('m', -10, 10)}
    w, c = ctx.choice('wc', [(None, 0.0), (wilson(), 0.5)])
    ex = comb(*[fs[int(m[1])](par['m'], c, *vals) for m in names])
    ctx.check_eq('positional', new.prediction_par(dict(par), w, *vals), ex)
    ctx.check_eq('keywords', new.prediction_par(dict(par), w, **dict(zip(args or [], vals))), ex)
    # each part keeps its own prediction
    ctx.check_eq('part', O[names[0]].prediction_par(dict(par), w, *vals), fs[0](par['m'], c, *vals))


@harness(name='measurements')
def meas(ctx):
    """the measurements of an observable are those that constrain it for any value of its arguments"""
    from flavio.classes import Measurement
    from flavio.statistics.probability import NormalDistribution, MultivariateNormalDistribution
    O = setup(ctx)
    pool = ['n0', ('n1', 1.0), ('n1', 2.0), ('n2', 1.0, 2.0)]
    con = {'M%d' % i: ctx.choice('constrained by %d' % i, [[], [0], [1, 2], [2, 3], [3], [0, 3]]) for i in range(2)}
    for m, idx in con.items():
        M = Measurement(m)
        for k in idx:
            M.add_constraint([pool[k]], NormalDistribution(ctx.real('c%s%d' % (m, k), -1, 1), 1.))
    for n in ('n0', 'n1', 'n2', 'n3'):
        exp = [m for m, idx in con.items() if any((pool[k] if isinstance(pool[k], str) else pool[k][0]) == n for k in idx)]
        ctx.check('measurements of ' + n, sorted(O[n].get_measurements()) == sorted(exp))


@harness(name='registry')
def registry(ctx):
    """named objects behave like an ordered map"""
    from flavio.classes import NamedInstanceClass, Observable, Parameter
    cls = ctx.choice('class', [Observable, Parameter])
    ctx.patch(cls, 'instances', {})
    ref = {}
    for i in range(3):
        op = ctx.choice('op%d' % i, ['add a1', 'add b1', 'add a2', 'del a1', 'clear'])
        n = op[4:]
        if op.startswith('add'):
            ref[n] = cls(n)
        elif op == 'clear':
            cls.clear_all()
            ref.clear()
        elif n in ref:
            del cls[n]
            del ref[n]
        else:
            ctx.raises('delete absent', KeyError, cls.del_instance, n)
    ctx.check('names in order', list(cls.instances) == list(ref))
    for n, v in ref.items():
        ctx.check('object', cls[n] is v and cls.get_instance(n) is v and v.name == n)
    for n in ('a1', 'b1', 'a2'):
        if n not in ref:
            ctx.raises('absent', KeyError, cls.get_instance, n)
    for rx in ('^a', '1', 'b|2', 'zz', ''):
        import re
        ctx.check('find ' + rx, cls.find(rx) == [n for n in ref if re.search(rx, n)])
    ctx.check('other classes unaffected', 'a1' not in (Parameter if cls is Observable else Observable).instances)


@harness(name='implementation')
def implementation(ctx):
    """auxiliary quantities use the implementation chosen in the configuration"""
    import flavio
    from flavio.classes import AuxiliaryQuantity, Implementation
    from flavio.config import config
    ctx.patch(AuxiliaryQuantity, 'instances', {})
    ctx.patch(Implementation, 'instances', {})
    AuxiliaryQuantity('Q', arguments=['q2'])
    AuxiliaryQuantity('R')
    f, g = ctx.ufun('f', -5, 5), ctx.ufun('g', -5, 5)
    Implementation('I1', 'Q', lambda wc, par, q2: f(par['m'], npc(wc), q2))
    Implementation('I2', 'Q', lambda wc, par, q2: g(par['m'], npc(wc), q2))
    Implementation('I3', 'R', lambda wc, par: f(par['m'], 0.0, 0.0))
    ctx.raises('unknown quantity', ValueError, Implementation, 'I4', 'nonexistent', None)
    conf = {}
    ctx.patch(config, 'implementation', conf)
    m, q2 = ctx.real('m', -10, 10), ctx.real('q2', -10, 10)
    ctx.raises('not configured', KeyError, AuxiliaryQuantity['Q'].prediction, {'m': m}, None, q2)
    conf['R'] = 'I3'
    for name in (ctx.choice('first', ['I1', 'I2']), ctx.choice('second', ['I1', 'I2'])):
        conf['Q'] = name
        h = f if name == 'I1' else g
        w, c = wilson(), 0.5
        Q = AuxiliaryQuantity['Q']
        ctx.check('implementation', Q.get_implementation() is Implementation[name])
        ctx.check_eq('prediction', Q.prediction({'m': m}, w, q2), h(m, c, q2))
        ctx.check_eq('prediction kw', Q.prediction(par_dict={'m': m}, wc_obj=None, q2=q2), h(m, 0.0, q2))
        ctx.check_eq('central', Q.prediction_central(Par({'m': m}), w, q2), h(m, c, q2))
    ctx.check_eq('other quantity', AuxiliaryQuantity['R'].prediction({'m': m}, None), f(m, 0.0, 0.0))


@harness(name='taxonomy')
def taxonomy(ctx):
    from flavio.classes import Observable, tree
    O = setup(ctx)
    ctx.patch(Observable, 'taxonomy', tree())
    ref = {}
    for i in range(2):
        n = ctx.choice('name%d' % i, ['n0', 'n1'])
        t = ctx.choice('tax%d' % i, ['A', 'A :: B', 'C :: B'])
        O[n].add_taxonomy(t)
        d = ref
        for k in t.split(' :: ') + [n]:
            d = d.setdefault(k, {})
    ctx.check('nested', O.taxonomy_dict() == ref)


@harness(name='conjugation')
def conj(ctx):
    """CP conjugation of parameters and coefficients and sums of dictionaries"""
    from flavio.physics.common import conjugate_par, conjugate_wc, add_dict
    r = {n: ctx.real(n, -10, 10) for n in ('gamma', 'delta', 'Vub', 'gammax')}
    before = dict(r)
    ctx.check_eq('parameters', conjugate_par(r), {n: -v if n in ('gamma', 'delta') else v for n, v in r.items()})
    ctx.check_eq('involution', conjugate_par(conjugate_par(r)), r)
    ctx.check_eq('unchanged', r, before)
    w = {n: ctx.complex(n) for n in ('c9', 'c10')}
    ctx.check_eq('coefficients', conjugate_wc(w), {n: num.conj(v) for n, v in w.items()})
    a, b, c = ({'x': w['c9'], 'y': r['Vub']}, {'y': r['gamma'], 'z': w['c10']}, {'x': r['delta'], 'y': w['c10']})
    keep = dict(a)
    got = add_dict([a, b, c])
    ctx.check_eq('sum', dict(got), {'x': w['c9'] + r['delta'], 'y': r['Vub'] + r['gamma'] + w['c10'], 'z': w['c10']})
    ctx.check_eq('inputs kept', a, keep)
    ctx.check_eq('one', dict(add_dict([b])), b)
