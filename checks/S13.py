"""Citations and results depend on what is evaluated, not on what was evaluated before."""
import itertools
import warnings
import numpy as np
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'Registration, scopes, clearing and resetting of citations are executed on all short histories of operations and compared with plain sets; theory_citations of an observable is compared with the keys '
    'its prediction function registers on the path taken. For the functions whose results are memoized, the value returned after an arbitrary earlier evaluation is compared with '
    'the value computed from a cleared cache, and the same citations have to be registered; results of the cached CKM and form factor functions must not be changed by what a caller does with them.')
BOUNDS = 'histories of 3 citation operations, nesting depth 2; one earlier evaluation with arbitrary other arguments'
ASSUMPTIONS = ['interpolation tables of two-loop functions are arbitrary functions of their three arguments']

KEYS = ['Straub:2018kue', 'Greub:2008cy', 'Seidel:2004jh', 'Beneke:2004dp']


def fresh(ctx):
    import flavio
    c = type(flavio.citations)(['Straub:2018kue'])
    ctx.patch(flavio, 'citations', c)
    return c


@harness(name='operations', time=60, max_paths=2000)
def operations(ctx):
    import flavio
    c = fresh(ctx)
    ref = {'Straub:2018kue'}
    ops = ['register0', 'register1', 'register2', 'clear', 'reset']
    for i in range(3):
        op = ctx.choice('op%d' % i, ops)
        if op.startswith('register'):
            k = KEYS[1 + int(op[-1])]
            c.register(k)
            ref.add(k)
        elif op == 'clear':
            c.clear()
            ref = set()
        else:
            c.reset()
            ref = {'Straub:2018kue'}
        ctx.check('set after step', c.set == ref)
    ctx.check('iteration', sorted(c) == sorted(ref))
    ctx.check('string', sorted(filter(None, c.string.split(','))) == sorted(ref) and sorted(filter(None, str(c).split(','))) == sorted(ref))
    ctx.raises('unknown key', KeyError, c.register, 'Nobody:1900xyz')
    ctx.check('unknown key changes nothing', c.set == ref)


@harness(name='scopes', time=60, max_paths=2000)
def scopes(ctx):
    """what is registered in a scope is collected there and nowhere else, whatever happens inside"""
    import flavio
    C = type(flavio.citations)
    outer = fresh(ctx)
    before = ctx.choice('before', [None, KEYS[1]])
    inner_op = ctx.choice('inner', [None, KEYS[1], KEYS[2]])
    nested_op = ctx.choice('nested', ['no', None, KEYS[2], KEYS[3]])
    fail = ctx.choice('exception', [False, True])
    after = ctx.choice('after', [None, KEYS[3]])
    ref = {'Straub:2018kue'} | ({before} - {None})
    if before:
        flavio.citations.register(before)
    got = nested = None
    try:
        with C.collect() as got:
            ctx.check('scope is current', flavio.citations is got)
            if inner_op:
                flavio.citations.register(inner_op)
            if nested_op != 'no':
                with flavio.citations.collect() as nested:
                    if nested_op:
                        flavio.citations.register(nested_op)
            if fail:
                raise ZeroDivisionError
            if after:
                flavio.citations.register(after)
    except ZeroDivisionError:
        pass
    ctx.check('outer restored', flavio.citations is outer)
    ctx.check('outer citations unchanged', outer.set == ref)
    ctx.check('collected', got.set == ({inner_op, None if fail else after} - {None}))
    if nested_op != 'no':
        ctx.check('collected in nested scope', nested.set == {nested_op} - {None})
    flavio.citations.register(KEYS[2])
    ctx.check('registers after scope', outer.set == ref | {KEYS[2]})


@harness(name='theory', time=60, max_paths=2000)
def theory(ctx):
    """theory_citations returns exactly the keys registered by the prediction on the path taken"""
    import flavio
    from flavio.classes import Observable, Prediction
    ctx.patch(Observable, 'instances', {})
    glob = fresh(ctx)
    Observable('o', arguments=['q2'])
    cut = ctx.real('cut', 1, 9)
    f = ctx.ufun('f', -2, 2)

    def fct(wc, par, q2):
        flavio.citations.register(KEYS[1])
        if q2 > cut:
            flavio.citations.register(KEYS[2])
        return f(q2)
    Prediction('o', fct)
    q = ctx.real('q2', 0, 10)
    prev = ctx.choice('history', ['none', 'evaluated', 'cited', 'registered'])
    p = ctx.real('earlier q2', 0, 10)
    if prev == 'evaluated':
        flavio.sm_prediction('o', p)
    elif prev == 'cited':
        flavio.classes.Observable['o'].theory_citations(p) if hasattr(Observable['o'], 'theory_citations') else None
    elif prev == 'registered':
        flavio.citations.register(KEYS[3])
    base = set(glob.set)
    got = Observable['o'].theory_citations(q)
    want = {KEYS[1]} | ({KEYS[2]} if q > cut else set())
    ctx.check('theory citations', set(got) == want)
    ctx.check('theory citations by keyword', set(Observable['o'].theory_citations(q2=q)) == want)
    ctx.check('global citations not touched', flavio.citations is glob and glob.set == base)
    # evaluating registers globally what was used
    flavio.sm_prediction('o', q)
    ctx.check('evaluation registers', glob.set == base | want)


MEMO = {
    # name: (module, function, cached, ranges, citations, table)
    'F_17': ('_F_17_cached', [(0.5, 2), (0.01, 0.2), (0.01, 0.4)], 'Greub:2008cy', '_F_17'),
    'F_19': ('_F_19_cached', [(0.5, 2), (0.01, 0.2), (0.01, 0.4)], 'Greub:2008cy', '_sh_F_19'),
    'F_27': ('_F_27_cached', [(0.5, 2), (0.01, 0.2), (0.01, 0.4)], 'Greub:2008cy', '_F_27'),
    'F_29': ('_F_29_cached', [(0.5, 2), (0.01, 0.2), (0.01, 0.4)], 'Greub:2008cy', '_sh_F_29'),
}


def memo(ctx, which):
    import flavio
    import flavio.physics.bdecays.matrixelements as m
    cached, ranges, key, table = MEMO[which]
    glob = fresh(ctx)
    u = ctx.ucfun('table')
    ctx.patch(m, table, lambda x: [u(*x)])
    fn = getattr(m, which)
    for c in (fn, getattr(m, cached, None)):
        if hasattr(c, 'cache_clear'):
            c.cache_clear()
    a = [ctx.real('a%d' % i, *r) for i, r in enumerate(ranges)]
    b = [ctx.real('b%d' % i, *r) for i, r in enumerate(ranges)]
    same = ctx.choice('earlier call', ['none', 'same', 'other', 'shared'])
    if same == 'same':
        fn(*a)
    elif same == 'other':
        fn(*b)
    elif same == 'shared':
        fn(b[0], *a[1:])
    with type(glob).collect() as cites:
        got = fn(*a)
    want = u(*a) / a[2] if which.endswith('9') else u(*a)
    ctx.check_eq('value', got, want, scale=1)
    ctx.check('citations', cites.set == {key})
    with type(glob).collect() as cites:
        again = fn(*a)
    ctx.check_eq('value again', again, want, scale=1)
    ctx.check('citations again', cites.set == {key})
    for c in (fn, getattr(m, cached, None)):
        if hasattr(c, 'cache_clear'):
            c.cache_clear()


for w in MEMO:
    add_harness(__name__, lambda ctx, w=w: memo(ctx, w), 'memoized ' + w, time=30)


@harness(name='memoized Seidel', time=60, max_paths=1000)
def seidel(ctx):
    """citations of the two-loop functions at any point, and their values independent of earlier calls"""
    import flavio
    import flavio.physics.bdecays.matrixelements as m
    glob = fresh(ctx)
    fn = getattr(m, ctx.choice('function', ['SeidelA', 'SeidelC', 'F_87', 'F_89']))
    key = 'Seidel:2004jh' if fn.__name__.startswith('Seidel') else 'Asatrian:2003vq'
    n = 3 if key.startswith('Seidel') else 2
    a = [ctx.choice('a%d' % i, [0.9 + i, 0.3]) for i in range(n)]
    b = [ctx.choice('b%d' % i, [0.9 + i, 0.3]) for i in range(n)]
    if ctx.choice('earlier call', [False, True]):
        fn(*b)
    with type(glob).collect() as c1:
        v1 = fn(*a)
    with type(glob).collect() as c2:
        v2 = fn(*a)
    ctx.check('citations', c1.set == {key} and c2.set == {key})
    ctx.check('value', complex(v1) == complex(v2))


CKM = {'Tree': ('ckm_tree', ['Vus', 'Vub', 'Vcb', 'gamma']), 'Standard': ('ckm_standard', ['t12', 't13', 't23', 'delta']),
       'Wolfenstein': ('ckm_wolfenstein', ['laC', 'A', 'rhobar', 'etabar']), 'beta gamma': ('ckm_beta_gamma', ['Vus', 'Vcb', 'beta', 'gamma'])}


@harness(name='ckm', time=60, max_paths=2000)
def ckm(ctx):
    """the CKM matrix at a point is the one of the selected parametrization at this point, whatever was evaluated before"""
    import flavio
    import flavio.physics.ckm as m
    import ckmutil.ckm
    names = sorted({n for _, v in CKM.values() for n in v})
    par = {k: ctx.real(k, 0.1, 1) for k in names}
    oth = {k: ctx.real('o' + k, 0.1, 1) for k in names}
    def stub(fn, out):
        return lambda *a, **k: out(fn, a)

    def matrix(fn, a):
        return np.array([[ctx.ucfun('%s%d%d' % (fn, i, j))(*a) for j in range(3)] for i in range(3)], dtype=object)

    def angles(fn, a):
        return tuple(ctx.ufun(fn + str(i), .1, .3)(*a) for i in range(4))
    caches = [f for f in vars(m).values() if hasattr(f, 'cache_clear')]
    for fn in ('ckm_standard', 'ckm_tree', 'ckm_wolfenstein', 'ckm_beta_gamma'):
        ctx.patch(ckmutil.ckm, fn, stub(fn, matrix))
    for fn in ('tree_to_standard', 'beta_gamma_to_standard', 'wolfenstein_to_standard'):
        ctx.patch(ckmutil.ckm, fn, stub(fn, angles))
    for f in caches:
        f.cache_clear()
    impl = ctx.choice('parametrization', sorted(CKM))
    other = ctx.choice('earlier parametrization', sorted(CKM))
    ctx.patch(flavio.config['implementation'], 'CKM matrix', impl)
    fresh = m.get_ckm(par)
    for f in caches:
        f.cache_clear()
    h = ctx.choice('history', ['none', 'other', 'two others', 'same'])
    ctx.patch(flavio.config['implementation'], 'CKM matrix', other)
    if h in ('other', 'two others'):
        m.get_ckm(oth)
    if h == 'two others':
        m.get_ckm(dict(par, **{CKM[other][1][3]: oth[CKM[other][1][3]]}))
    if h == 'same':
        m.get_ckm(par)
    ctx.patch(flavio.config['implementation'], 'CKM matrix', impl)
    V = m.get_ckm(par)
    for i in range(3):
        for j in range(3):
            ctx.check_eq('V%d%d' % (i, j), V[i, j], fresh[i, j])



FF = {'flavio.physics.bdecays.formfactors.b_v.bsz': ['B->K*', 'B->rho', 'Bs->phi', 'Bs->K*', 'B->omega'], 'flavio.physics.bdecays.formfactors.lambdab_12.sse': ['Lambdab->Lambda'],
      'flavio.physics.bdecays.formfactors.b_p.bsz': ['B->K'], 'flavio.physics.bdecays.formfactors.b_p.bcl': ['B->K']}


def formfactors(ctx, mod, proc):
    """evaluating a form factor does not change the parameters, and a later evaluation with other parameters is not affected"""
    import importlib
    import flavio
    m = importlib.import_module(mod)
    fresh(ctx)
    base = flavio.default_parameters.get_central_all()
    keys = [k for k in base if k.startswith(proc + ' ') and ' a' in k]
    par = dict(base)
    oth = dict(base)
    for k in keys:
        par[k] = ctx.real(k, -2, 2)
        oth[k] = ctx.real('o' + k, -2, 2)
    q2, p2 = (ctx.choice('q2', [0., 1.5, 6.]), ctx.choice('earlier q2', [0., 2., 6.]))
    before = dict(par)
    first = dict(m.ff(proc, q2, par))
    ctx.check('same parameters', set(par) == set(before) and all(par[k] is before[k] for k in before))
    m.ff(proc, p2, oth)
    mixed = dict(oth)
    m.ff(proc, p2, mixed)
    for k in keys:
        mixed[k] = par[k]
    again = m.ff(proc, q2, mixed)
    ctx.check('same form factors', set(first) == set(again))
    for k in first:
        ctx.check_eq(k, again[k], first[k], scale=1)


for mod, procs in FF.items():
    for p in procs:
        add_harness(__name__, lambda ctx, mod=mod, p=p: formfactors(ctx, mod, p), 'formfactors ' + ' '.join(mod.split('.')[-2:]) + ' ' + p, time=30)
