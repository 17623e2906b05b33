"""Wilson coefficients handed to predictions are those of the point in parameter space."""
import types
import numpy as np
import wilson
import wilson.classes as wclasses
from wilson import wcxf
import flavio
import flavio.physics.eft as eft
import flavio.physics.running.running as running
import flavio.physics.bdecays.wilsoncoefficients as bwc
import flavio.physics.bdecays.matrixelements as matrixelements
import flavio.physics.ckm as ckm
from flavio.classes import Observable, Prediction
from engine.run import harness
from engine.num import conj, pi
from engine.phys import Par, WCs, Running, patch_ckm, CENTRAL, EFT

EXPLANATION = (
    'The code between predictions and the running of Wilson coefficients is executed symbolically: sequences of predictions sharing one point of parameter space but differing in CKM parameters, with the runner of the wilson package replaced '
    'by arbitrary functions of these parameters, scale and theory, so that any stale value of a cache differs; sectors under old and new names; totals of Standard Model and new physics coefficients, effective dipole coefficients and the combinations used by decay amplitudes, '
    'which are compared with their definitions for symbolic coefficients.')
BOUNDS = 'sequences of three predictions with two sets of four CKM parameters; all sector names; coefficients up to 2 in size (linear relations)'
ASSUMPTIONS = ['floats treated as reals', 'running and translation by the wilson package are functions of the initial coefficients, options and output scale, theory, basis and sectors',
               'the Standard Model contribution to dipole operators of opposite chirality is the suppressed non-effective coefficient']

CKM4 = ['Vus', 'Vcb', 'Vub', 'gamma']
QUERIES = [('sb', 4.8, 'WET'), ('bsmumu', 4.8, 'WET'), ('sb', 2., 'WET'), ('cu', 2., 'WET-4'), ('sbsb', 4.8, 'WET')]
INITIAL = {'C9_bsmumu': -1., 'C7_bs': 0.1, 'CVLL_bsbs': 1e-6}


class Result:
    """stands for coefficients after running or translation"""

    def __init__(self, ctx, scale, eft_, history=()):
        self.ctx, self.scale, self.eft, self.history = ctx, scale, eft_, history
        self.basis = 'JMS'

    def translate(self, basis, sectors=None, parameters=None):
        r = Result(self.ctx, self.scale, self.eft, self.history + (('translate', parameters),))
        r.basis, r.sectors = basis, sectors
        return r

    def match(self, e, basis, parameters=None):
        return Result(self.ctx, self.scale, e, self.history + (('match', parameters),))

    @property
    def dict(self):
        b = wcxf.Basis[self.eft, self.basis]
        names = b.all_wcs if self.sectors is None else [n for s in self.sectors for n in b.sectors[s]]
        return {n: value(self.ctx, n, self.scale, self.eft, self.history[-1][1]) for n in list(names)[:3]}


def value(ctx, n, scale, e, par):
    return ctx.ucfun('%s %s %s' % (n, scale, e))(*[par[k] for k in CKM4])


@harness(name='shared point', max_paths=4000, time=300)
def shared(ctx):
    ctx.patch(wilson.Wilson, '_option_schema', staticmethod(lambda d: d))
    ctx.patch(wcxf.WC, 'translate', lambda self, basis, sectors=None, parameters=None: Result(ctx, self.scale, self.eft, (('translate', parameters),)))

    class Runner:
        def __init__(self, wc, **kw):
            self.wc, self.eft = wc, wc.eft

        def run(self, scale, sectors=None):
            return Result(ctx, scale, self.eft, self.wc.history)
    ctx.patch(wclasses, 'WETrunner', Runner)
    sets = [{k: ctx.real(k + str(i), 0., 2.) for k in CKM4} for i in range(2)]
    pars = [{**{k: 1. for k in CENTRAL}, **s} for s in sets]
    w = wilson.Wilson(dict(INITIAL), 160., 'WET', 'flavio')
    obs = Observable('check F14 query')
    Prediction(obs.name, lambda wc, par, q: wc.get_wc(*q[:2], par, eft=q[2]))
    direct = ctx.choice('initial object', ['wilson', 'converted'])
    try:
        for step in range(3):
            i = ctx.choice('parameters of step %d' % step, [0, 1])
            q = ctx.choice('query of step %d' % step, QUERIES if step == 2 else QUERIES[:2])
            got = obs.prediction_par(pars[i], w, q)
            b = wcxf.Basis[q[2], 'flavio']
            names = list(b.sectors[eft.sectors_flavio2wcxf.get(q[0], q[0])])
            ctx.check('coefficients of the sector', list(got) == names)
            if step == 2:
                for n in names[:3]:
                    ctx.check_eq('coefficient after step %d' % step, got[n], value(ctx, n, q[1], q[2], sets[i]), scale=1.)
                for n in names[3:]:
                    ctx.check('missing coefficients vanish', got[n] == 0)
            if direct == 'converted' and step == 0 and i == 0:
                # an object made for the first set of parameters keeps giving its coefficients
                made = flavio.WilsonCoefficients.from_wilson(w, pars[0])
                x = made.get_wc('sb', 4.8, pars[0])
                n = list(b.sectors['sb'])[0]
                ctx.check_eq('converted object', x[n], value(ctx, n, 4.8, 'WET', sets[0]), scale=1.)
    finally:
        Observable.del_instance(obs.name)


@harness(name='initial values', max_paths=400, time=100)
def initial(ctx):
    """without running and translation, under the old names of sectors, coefficients are the initial ones and zero otherwise"""
    old = ctx.choice('sector', sorted(eft.sectors_flavio2wcxf))
    b = wcxf.Basis['WET', 'flavio']
    named = [n for n in b.all_wcs if n.endswith('_' + old)]
    ctx.check('sector contains coefficients with its name', bool(named))
    vals = {n: ctx.complex(n, 2.) for n in named}
    other = 'C8_sd' if not old.startswith('sd') else 'C8_bs'
    wc = flavio.WilsonCoefficients()
    wc.set_initial({other: 1.}, 4.8)
    values = dict(wc.wc.dict, **vals)
    ctx.patch(wcxf.WC, 'dict', property(lambda self: values))
    got = wc.get_wc(old, 4.8, CENTRAL)
    for n in named:
        ctx.check_eq('initial value', got[n], vals[n], scale=1.)
    for n in b.sectors[eft.sectors_flavio2wcxf[old]]:
        if n not in named:
            ctx.check_eq('not initialised', got[n], 0., scale=1.)
    # nothing is remembered from one instance to another
    ctx.check('standard model', all(v == 0 for v in flavio.physics.eft._wc_sm.get_wc(old, 4.8, CENTRAL).values()))


@harness(name='number of flavours')
def flavours(ctx):
    """the theory is given by its name or by the number of flavours"""
    nf, e = ctx.choice('theory', [(5, 'WET'), (4, 'WET-4'), (3, 'WET-3')])
    asked = []

    def match_run(self, scale, eft, basis, sectors='all'):
        asked.append((scale, eft, basis, sectors))
        return types.SimpleNamespace(dict={})
    ctx.patch(wilson.Wilson, 'match_run', match_run)
    mu = ctx.real('mu', 1., 5.)
    wc = flavio.WilsonCoefficients()
    wc.set_initial({'CVLL_sdsd': 1.}, 160.)
    for kw in ({'nf_out': nf}, {'eft': e}):
        wc.get_wc('sdsd', mu, CENTRAL, **kw)
        ctx.check('theory', asked[-1][1:] == (e, 'flavio', ('sdsd',)))
        ctx.check_eq('scale', asked[-1][0], mu, scale=1.)


SM = ['C1', 'C2', 'C3', 'C4', 'C5', 'C6', 'C7', 'C8', 'C9', 'C10', 'C3Q', 'C4Q', 'C5Q', 'C6Q', 'Cb']
Y = {'C3': -1 / 3, 'C4': -4 / 9, 'C5': -20 / 3, 'C6': -80 / 9}
Z = {'C3': 1., 'C4': -1 / 6, 'C5': 20., 'C6': -10 / 3}


def totals(ctx, sector, par, run, np_, scale):
    """reference: SM given in terms of effective dipole coefficients"""
    qq, ll = sector[:2], sector[2:]
    sm = {n: ctx.real('SM ' + n, -2, 2) for n in SM}
    ctx.patch(bwc, 'wcsm_nf5', lambda s: np.array([sm[n] for n in SM], dtype=object if ctx.symbolic else float))
    full = lambda n: n + ('_' + qq + ll if n.rstrip('p') in ('C9', 'C10', 'CS', 'CP') else '_' + qq)
    t = {}
    noneff = {'C7': sm['C7'] - sum(Y[k] * sm[k] for k in Y), 'C8': sm['C8'] - sum(Z[k] * sm[k] for k in Z)}
    for n in SM:
        t[full(n)] = np_(full(n)) + noneff.get(n, sm[n])
    t[full('C10')] = np_(full('C10')) + sm['C10'] * (par['m_t'] / 173.1) ** 1.53
    for n in [n + 'p' for n in SM] + ['CS', 'CP', 'CSp', 'CPp']:
        t[full(n)] = np_(full(n))
    if qq == 'bs':
        eps = run('ms', scale) / run('mb', scale)
        for n in ('C7', 'C8'):
            t[full(n + 'p')] = t[full(n + 'p')] + eps * noneff[n]
    for p in ('', 'p'):
        t['C7eff%s_%s' % (p, qq)] = t['C7%s_%s' % (p, qq)] + sum(Y[k] * t['%s%s_%s' % (k, p, qq)] for k in Y)
        t['C8eff%s_%s' % (p, qq)] = t['C8%s_%s' % (p, qq)] + sum(Z[k] * t['%s%s_%s' % (k, p, qq)] for k in Z)
    return t, sm


@harness(name='totals')
def total(ctx):
    sector = ctx.choice('sector', [q + l for q in ('bs', 'bd') for l in ('ee', 'mumu', 'tautau')])
    scale = 4.8
    par = Par(ctx, free=['m_t'])
    run, wc = Running(ctx), WCs(ctx)
    at = wc.at(scale)
    names = wcxf.Basis['WET', 'flavio'].sectors[eft.sectors_flavio2wcxf[sector]]
    want, sm = totals(ctx, sector, par, run, lambda n: at(n) if n in names else 0., scale)
    got = bwc.wctot_dict(wc, sector, scale, par)
    for k, v in want.items():
        ctx.check_eq(k.split('_')[0], got[k], v, scale=1.)
    # without new physics the effective coefficients are those of the tables
    ref = bwc.wctot_dict(flavio.physics.eft._wc_sm, sector, scale, par)
    for k in ('C7', 'C8'):
        ctx.check_eq(k + ' effective', ref[k + 'eff_' + sector[:2]], sm[k], scale=1.)


DECAYS = [('B0', 'K*0'), ('B+', 'K+'), ('Bs', 'phi'), ('B+', 'rho+'), ('B0', 'K0'), ('Lambdab', 'Lambda')]


@harness(name='effective coefficients')
def effective(ctx):
    B, M = ctx.choice('decay', [d for d in DECAYS if d in bwc.meson_quark])
    qq = bwc.meson_quark[B, M]
    lep = ctx.choice('lepton', ['e', 'mu', 'tau'])
    scale, q2 = 4.8, ctx.real('q2', 1., 6.)
    V = patch_ckm(ctx)
    par, run = Par(ctx, free=[]), Running(ctx)
    wc = {}

    class Tot(dict):
        def __missing__(self, k):
            self[k] = ctx.complex(k, 2.)
            return self[k]
    wc = Tot()
    fn = {}
    for n in ('Y', 'Yu', 'delta_C7', 'delta_C9'):
        fn[n] = ctx.complex(n, 2.)

        def f(*a, n=n, **k):
            # called with q2, coefficients, parameters, scale and quarks
            given = list(a) + list(k.values())
            ctx.check('arguments', any(x is q2 for x in given) and any(x is wc for x in given) and qq in [x for x in given if isinstance(x, str)] and scale in [x for x in given if isinstance(x, float)])
            return fn[n]
        ctx.patch(matrixelements, n, f)
    got = bwc.get_wceff(q2, wc, par, B, M, lep, scale)
    xu, xt = V.xi('u', qq), V.xi('t', qq)
    ctx.assume(xt.real >= 0.1)
    ll = qq + lep + lep
    mb = run('mb', scale)
    ctx.check_eq('v', (got['v'] - wc['C9_' + ll] - fn['delta_C9'] - fn['Y']) * xt, xu * fn['Yu'], scale=1.)
    for k, n in (('vp', 'C9p_'), ('a', 'C10_'), ('ap', 'C10p_')):
        ctx.check_eq(k, got[k], wc[n + ll], scale=1.)
    ctx.check_eq('7', got['7'], wc['C7eff_' + qq] + fn['delta_C7'], scale=1.)
    ctx.check_eq('7p', got['7p'], wc['C7effp_' + qq], scale=1.)
    for k, n in (('s', 'CS_'), ('sp', 'CSp_'), ('p', 'CP_'), ('pp', 'CPp_')):
        ctx.check_eq(k, got[k], mb * wc[n + ll], scale=1.)
    ctx.check('tensors', got['t'] == 0 and got['tp'] == 0)
    # flavour violating decays have no contribution from the standard model
    l1, l2 = ctx.choice('leptons', [('e', 'mu'), ('mu', 'tau'), ('tau', 'e')])
    ll = qq + l1 + l2
    got = bwc.get_wceff_lfv(q2, wc, par, B, M, l1, l2, scale)
    for k, n, c in (('v', 'C9_', 1), ('vp', 'C9p_', 1), ('a', 'C10_', 1), ('ap', 'C10p_', 1), ('s', 'CS_', mb), ('sp', 'CSp_', mb), ('p', 'CP_', mb), ('pp', 'CPp_', mb)):
        ctx.check_eq(k + ' lfv', got[k], c * wc[n + ll], scale=1.)
    ctx.check('dipoles lfv', all(got[k] == 0 for k in ('7', '7p', 't', 'tp')))
    # left-handed neutrinos: axial vector coupling opposite to vector
    n1, n2 = 'nu' + l1, 'nu' + l2
    got = bwc.get_wceff_nunu(q2, wc, par, B, M, n1, n2, scale)
    for k, n, c in (('v', 'CL_', 1), ('vp', 'CR_', 1), ('a', 'CL_', -1), ('ap', 'CR_', -1)):
        ctx.check_eq(k + ' nunu', got[k], c * wc[n + qq + n1 + n2], scale=1.)
    ctx.check('others nunu', all(got[k] == 0 for k in ('7', '7p', 's', 'sp', 'p', 'pp', 't', 'tp')))


@harness(name='neutrinos and charged currents')
def charged(ctx):
    scale = 4.8
    par = Par(ctx, free=['s2w', 'Xt_di->djnunu', 'm_Z'])
    run, wc = Running(ctx), WCs(ctx)
    # coefficient times the fine structure constant does not run
    x = bwc.CL_SM(par, scale)
    ctx.check_eq('CL', x * par['s2w'] * run('alpha_e', scale), -par['Xt_di->djnunu'] * run('alpha_e', 91.1876), scale=1.)
    qq, lep = ctx.choice('quarks', ['bc', 'bu', 'dc', 'su']), ctx.choice('lepton', ['e', 'mu', 'tau'])
    nu = ctx.choice('neutrino', ['e', 'mu', 'tau'])
    if (qq, lep) == ('su', 'tau'):
        return
    nf = {'bc': 5, 'bu': 5, 'dc': 4, 'su': 3}[qq]
    at = wc.at(scale, EFT[nf])
    from engine.num import log
    sm = 0. if lep != nu else 1 + run('alpha_e', scale) / pi * log(par['m_Z'] / scale) if nf > 3 else 1.0232 ** 0.5
    got = bwc.get_wceff_fccc_std(wc, par, qq, lep, nu, None, scale, nf=nf)
    n = qq + lep + 'nu' + nu
    for k in ('VL', 'VR', 'SR', 'SL', 'T'):
        ctx.check_eq(k, got[k], at('C%s_%s' % (k, n)) + (sm if k == 'VL' else 0.), scale=1.)
    # amplitudes in terms of vector, axial, scalar and pseudoscalar lepton currents with a factor of 2 extracted
    gen = bwc.get_wceff_fccc(wc, par, qq, lep, nu, None, scale, nf=nf)
    for k, v in {'v': got['VL'] / 2, 'a': -got['VL'] / 2, 'vp': got['VR'] / 2, 'ap': -got['VR'] / 2, 's': got['SR'] / 2, 'p': -got['SR'] / 2, 'sp': got['SL'] / 2, 'pp': -got['SL'] / 2, 'tp': got['T']}.items():
        ctx.check_eq(k, gen[k], v, scale=1.)
    ctx.check('others', all(gen[k] == 0 for k in ('7', '7p', 't')))
