"""Amplitudes of exclusive b -> s,d transitions with two leptons follow from the effective Hamiltonian."""
import numpy as np
import flavio
import flavio.physics.bdecays.bvll.amplitudes as bvll
import flavio.physics.bdecays.bvll.observables as observables
import flavio.physics.bdecays.bvll.qcdf as qcdf
import flavio.physics.bdecays.bvll.qcdf_interpolate as interpolate
import flavio.physics.bdecays.bvll.lfv as bvlfv
import flavio.physics.bdecays.bpll as bpll
import flavio.physics.bdecays.bpll_lfv as bplfv
import flavio.physics.bdecays.bvnunu as bvnunu
import flavio.physics.bdecays.bpnunu as bpnunu
import flavio.physics.bdecays.angular as angular
import flavio.physics.bdecays.matrixelements as me
import flavio.physics.bdecays.wilsoncoefficients as wcs
import flavio.math.functions as functions
import flavio.math.integrate
from flavio.classes import AuxiliaryQuantity, Implementation
from flavio.config import config
from engine.run import harness
from engine import expr as E
from engine.num import sqrt, csqrt, pi, log, conj
from engine.phys import Par, WCs, Running, patch_ckm, CENTRAL
from engine.symnp import CMATH
from checks.F10 import MatrixElements, standard_model, weak_phases, BASIS, npc
from checks.F12 import Stand, coefficients

EXPLANATION = (
    'The amplitudes of B -> V l l and B -> P l l (also with different leptons, and with neutrinos) are executed from symbolic Wilson coefficients, CKM elements, running couplings, matrix elements of four-quark operators and spectator effects, for both CP states, and compared with the amplitudes for the effective coefficients of the Hamiltonian. '
    'The amplitudes from which angular coefficients of B -> V l l are computed are compared for several histories of requests at different momentum transfers and CP states. '
    'Subleading hadronic effects are compared with shifts of the coefficients. '
    'Weak annihilation, spectator scattering with its hard kernels, the factorizable matrix elements and the published two-loop functions with massless quarks are compared with the expressions of QCD factorization in terms of the coefficients of the traditional operator basis, with symbolic momentum transfer and momentum fractions.')
BOUNDS = 'coefficients up to 1 or 2, masses and couplings within 10%; momentum transfer from a list for amplitudes and symbolic for matrix elements; integrals over momentum fractions by two symbolic nodes'
ASSUMPTIONS = ['floats treated as reals', 'the dependence of helicity amplitudes on effective coefficients is decided with the angular distributions (F01)',
               'the tables of two-loop functions with charm quarks and the dilogarithm are arbitrary functions', 'the coefficient of the b quark loop with a helicity flip in spectator scattering is not decided',
               'the tables of interpolated spectator scattering are data and not decided']

catan = CMATH['atan']
MESONS_V = {('B0', 'K*0'): 'bs', ('B+', 'K*+'): 'bs', ('Bs', 'phi'): 'bs', ('Bs', 'K*0'): 'bd'}
MESONS_P = {('B0', 'K0'): 'bs', ('B+', 'K+'): 'bs', ('B0', 'pi0'): 'bd', ('B+', 'pi+'): 'bd'}
FF_V = {'B0 K*0': 'B->K*', 'B+ K*+': 'B->K*', 'Bs phi': 'Bs->phi', 'Bs K*0': 'Bs->K*', 'B+ rho+': 'B->rho', 'B0 rho0': 'B->rho'}
FF_P = {'B0 K0': 'B->K', 'B+ K+': 'B->K', 'B0 pi0': 'B->pi', 'B+ pi+': 'B->pi'}
VALUES_V = {'V': .45, 'A0': .5, 'A1': .33, 'A12': .29, 'T1': .37, 'T2': .35, 'T23': .66}
VALUES_P = {'f+': .42, 'f0': .36, 'fT': .39}


def form_factors(q2):
    return {'v': {k: v + .013 * q2 for k, v in VALUES_V.items()}, 'p': {k: v + .011 * q2 for k, v in VALUES_P.items()}}


def helicity(kind, q2, mB, mM, mb, m1, m2, w, N):
    z = {k: 0. for k in ('7', '7p', 'v', 'a', 's', 'p', 't', 'vp', 'ap', 'sp', 'pp', 'tp')}
    z.update(w)
    f = angular.helicity_amps_v if kind == 'v' else angular.helicity_amps_p
    return f(q2, mB, mM, mb, 0., m1, m2, form_factors(q2)[kind], z, N)


def table(B, M, kind):
    n = (FF_V if kind == 'v' else FF_P)[B + ' ' + M]
    return {n + ' form factor': lambda par, w, q2: form_factors(q2)[kind]}


def compare(ctx, got, ref, scale=1e-10):
    for k in sorted(set(got) | set(ref), key=str):
        ctx.check_eq('%s' % (k,), got.get(k, 0.), ref.get(k, 0.), scale=scale)


def add(*ds):
    return {k: sum(d[k] for d in ds if k in d) for k in {k for d in ds for k in d}}


def semileptonic(at, sm, par, q, ll, run, scale, cp):
    cc = conj if cp else lambda x: x
    c = {'v': sm[8] + at('C9_' + q + ll), 'a': sm[9] * (par['m_t'] / 173.1) ** 1.53 + at('C10_' + q + ll), 'vp': at('C9p_' + q + ll), 'ap': at('C10p_' + q + ll)}
    for a, n in (('s', 'CS'), ('sp', 'CSp'), ('p', 'CP'), ('pp', 'CPp')):
        c[a] = run('mb', scale) * at(n + '_' + q + ll)
    return {k: cc(x) for k, x in c.items()}


def numerical_ckm(ctx):
    V, C = weak_phases(ctx)
    for i in range(3):
        for j in range(3):
            V.v[i, j] = np.complex128(complex(.3 + .1 * i - .07 * j, .2 - .15 * i * j + .04 * j))
    return V, C


def two_leptons(ctx, kind, mesons, call, q2s):
    B, M = ctx.choice('decay', sorted(mesons))
    q = mesons[B, M]
    bar, lep, q2 = ctx.choice('CP conjugate', [False, True]), ctx.choice('lepton', ['e', 'mu', 'tau']), ctx.choice('q2', q2s)
    par = dict(CENTRAL)
    scale = config['renormalization scale']['b%sll' % kind]
    ll = lep + lep
    wc = WCs(ctx, only=['C7', 'C8', 'C9', 'C10', 'CS', 'CP'], b=1.)
    V, C = numerical_ckm(ctx)
    run, ME, sm = Running(ctx), MatrixElements(ctx), standard_model(ctx, q2)
    W = C if bar else V
    asked = []

    def extra(n):
        def f(p, w, q2, cp_conjugate):
            ctx.check('arguments', w is wc and p['gamma'] == par['gamma'] and bool(cp_conjugate) is bar)
            asked.append(n)
            keys = [('pl', 'V'), ('mi', 'V'), ('0', 'V')] if kind == 'v' else ['V']
            return {k: complex(.2 + i, .3) * x for i, k in enumerate(keys)}
        x = ctx.real(n, -1., 1.)
        return f, x
    names = {B + '->' + M + 'll ' + n: n for n in ('spectator scattering', 'subleading effects at low q2', 'subleading effects at high q2')}
    fx = {k: extra(n) for k, n in names.items()}
    Stand(ctx, dict(table(B, M, kind), **{k: f for k, (f, x) in fx.items()}))
    got = call(bar)(q2, wc, par, B, M, lep)
    want = (['spectator scattering'] if kind == 'v' and q2 < 8.9 else []) + ([] if (B, M) == ('Bs', 'K*0') or 'pi' in M else ['subleading effects at low q2'] if q2 <= 9 else ['subleading effects at high q2'] if q2 > 14 else [])
    ctx.check('hadronic effects', sorted(asked) == sorted(want))
    c = coefficients(wc.at(scale), sm, q, run, scale, bar)
    w = semileptonic(lambda k: wc.at(scale)(k) if k in BASIS else 0., sm, par, q, ll, run, scale, bar)
    x = W.xi('u', q) / W.xi('t', q)
    w['v'] = w['v'] + ME('delta_C9', c, q) + ME('Y', c, q) + x * ME('Yu', c, q)
    w['7'], w['7p'] = c['C7eff_' + q] + ME('delta_C7', c, q), c['C7effp_' + q]
    N = 4 * par['GF'] / 2 ** .5 * W.xi('t', q) * run('alpha_e', scale) / (4 * pi)
    ml = par['m_' + lep]
    ref = helicity(kind, q2, par['m_' + B], par['m_' + M], run('mb', scale), ml, ml, w, N)
    for k, (f, x) in fx.items():
        if names[k] in want:
            for i, a in enumerate([('pl', 'V'), ('mi', 'V'), ('0', 'V')] if kind == 'v' else ['V']):
                ref[a] = ref[a] + complex(.2 + i, .3) * x
    compare(ctx, got, ref)


@harness(name='B->V l l', max_paths=200, time=300)
def bv(ctx):
    two_leptons(ctx, 'v', MESONS_V, lambda bar: lambda q2, wc, par, B, V, lep: (bvll.helicity_amps_bar if bar else bvll.helicity_amps)(q2, form_factors(q2)['v'], wc, par, B, V, lep), [1.2, 8.95, 9., 14., 15.5])


def angular_coefficients(h, q2, mB, mX, mqh, mql, ml1, ml2):
    """in place of the angular coefficients: the amplitudes and the kinematics"""
    return dict(h, q2=q2, mB=mB, mX=mX, mqh=mqh, mql=mql, ml1=ml1, ml2=ml2)


HISTORIES = [((1.2, False), (1.2, True), (15.5, True), (15.5, False), (1.2, True), (1.2, False)),
             ((8.95, True), (3.1, True), (8.95, False), (3.1, False), (12., False), (12., True), (8.95, True))]


@harness(name='B->V l l angular coefficients for a history of requests', max_paths=200, time=120)
def histories(ctx):
    B, M = ctx.choice('decay', sorted(MESONS_V))
    q = MESONS_V[B, M]
    lep, history = ctx.choice('lepton', ['e', 'mu', 'tau']), ctx.choice('requests', HISTORIES)
    par = dict(CENTRAL)
    scale = config['renormalization scale']['bvll']
    ll = lep + lep
    wc = WCs(ctx, only=['C7', 'C8', 'C9', 'C10', 'CS', 'CP'], b=1.)
    V, C = numerical_ckm(ctx)
    run, ME, sm = Running(ctx), MatrixElements(ctx), standard_model(ctx, None)
    x = {n: ctx.real(n, -1., 1.) for n in ('spectator scattering', 'subleading effects at low q2', 'subleading effects at high q2')}
    keys = [('pl', 'V'), ('mi', 'V'), ('0', 'V')]

    def extra(n, q2, bar):
        return {k: complex(.2 + i, .3 - .7 * bar) * q2 * x[n] for i, k in enumerate(keys)}

    def stand(n):
        def f(p, w, q2, cp_conjugate):
            ctx.check('arguments', w is wc)
            ctx.check_eq('parameters', p['gamma'], par['gamma'])
            return extra(n, q2, bool(cp_conjugate))
        return f
    Stand(ctx, dict(table(B, M, 'v'), **{B + '->' + M + 'll ' + n: stand(n) for n in x}))
    ctx.patch_name(angular.angularcoeffs_general_v, angular_coefficients)
    obj = observables.BVllObservable(B, M, lep, wc, par)
    c0 = [coefficients(wc.at(scale), sm, q, run, scale, bar) for bar in (False, True)]
    for k, (q2, bar) in enumerate(history):
        got = obj.jbar(q2) if bar else obj.j(q2)
        W, c = C if bar else V, c0[bar]
        w = semileptonic(lambda k: wc.at(scale)(k) if k in BASIS else 0., sm, par, q, ll, run, scale, bar)
        w['v'] = w['v'] + ME('delta_C9', c, q) + ME('Y', c, q) + W.xi('u', q) / W.xi('t', q) * ME('Yu', c, q)
        w['7'], w['7p'] = c['C7eff_' + q] + ME('delta_C7', c, q), c['C7effp_' + q]
        N = 4 * par['GF'] / 2 ** .5 * W.xi('t', q) * run('alpha_e', scale) / (4 * pi)
        mb, ml = run('mb', scale), par['m_' + lep]
        ref = helicity('v', q2, par['m_' + B], par['m_' + M], mb, ml, ml, w, N)
        for n in (['spectator scattering'] if q2 < 8.9 else []) + ([] if (B, M) == ('Bs', 'K*0') else ['subleading effects at low q2'] if q2 <= 9 else ['subleading effects at high q2'] if q2 > 14 else []):
            for i, e in extra(n, q2, bar).items():
                ref[i] = ref[i] + e
        for n, v in dict(q2=q2, mB=par['m_' + B], mX=par['m_' + M], mqh=mb, mql=0., ml1=ml, ml2=ml).items():
            ctx.check_eq('request %d: %s' % (k, n), got[n], v, scale=1.)
        compare(ctx, {('request %d' % k, i): v for i, v in got.items() if i in ref}, {('request %d' % k, i): v for i, v in ref.items()})


@harness(name='B->P l l', max_paths=200, time=300)
def bp(ctx):
    two_leptons(ctx, 'p', MESONS_P, lambda bar: bpll.helicity_amps_bar if bar else bpll.helicity_amps, [1.2, 9., 14., 15.5])


LFV = [('e', 'mu'), ('mu', 'e'), ('e', 'tau'), ('tau', 'e'), ('mu', 'tau'), ('tau', 'mu')]


@harness(name='different leptons', max_paths=200, time=200)
def different_leptons(ctx):
    kind = ctx.choice('kind', ['v', 'p'])
    mesons = MESONS_V if kind == 'v' else MESONS_P
    B, M = ctx.choice('decay', sorted(mesons))
    q, (l1, l2) = mesons[B, M], ctx.choice('leptons', LFV)
    par, q2 = dict(CENTRAL), 12.
    scale = config['renormalization scale']['b%sll' % kind]
    V, run = patch_ckm(ctx), Running(ctx)
    Stand(ctx, table(B, M, kind))
    w = {n: ctx.complex(n, 1.) for n in ('C9', 'C10', 'C9p', 'C10p', 'CS', 'CSp', 'CP', 'CPp')}
    got = (bvlfv if kind == 'v' else bplfv).helicity_amps(q2, {n + '_' + q + l1 + l2: x for n, x in w.items()}, par, B, M, l1, l2)
    mb = run('mb', scale)
    c = {'v': w['C9'], 'a': w['C10'], 'vp': w['C9p'], 'ap': w['C10p'], 's': mb * w['CS'], 'sp': mb * w['CSp'], 'p': mb * w['CP'], 'pp': mb * w['CPp']}
    N = 4 * par['GF'] / 2 ** .5 * V.xi('t', q) * run('alpha_e', scale) / (4 * pi)
    compare(ctx, got, helicity(kind, q2, par['m_' + B], par['m_' + M], mb, par['m_' + l1], par['m_' + l2], c, N))


NU_V = {('B0', 'K*0'): 'bs', ('B+', 'K*+'): 'bs', ('B+', 'rho+'): 'bd', ('B0', 'rho0'): 'bd'}


@harness(name='neutrinos', max_paths=200, time=200)
def neutrinos(ctx):
    kind = ctx.choice('kind', ['v', 'p'])
    mesons = NU_V if kind == 'v' else MESONS_P
    B, M = ctx.choice('decay', sorted(mesons))
    q, (l1, l2) = mesons[B, M], ctx.choice('flavours', [('e', 'e'), ('mu', 'mu'), ('tau', 'tau'), ('e', 'mu'), ('tau', 'mu')])
    par, q2 = Par(ctx, .05, free=['Xt_di->djnunu', 's2w']), 7.
    scale = config['renormalization scale']['b%sll' % kind]
    wc = WCs(ctx, b=2.)
    V, run = patch_ckm(ctx), Running(ctx)
    Stand(ctx, table(B, M, kind))
    lab = q + 'nu' + l1 + 'nu' + l2
    mod = bvnunu if kind == 'v' else bpnunu
    got = mod.helicity_amps(q2, wc, par, B, M, 'nu' + l1, 'nu' + l2)
    at = wc.at(scale)
    a, aZ = run('alpha_e', scale), run('alpha_e', 91.1876)
    # couplings: the Standard Model amplitude is proportional to alpha(mZ)/s2w Xt
    left, right = a * at('CL_' + lab), a * at('CR_' + lab)
    if l1 == l2:
        left = left - aZ * par['Xt_di->djnunu'] / par['s2w']
    N = 4 * par['GF'] / 2 ** .5 * V.xi('t', q) / (4 * pi)
    compare(ctx, got, helicity(kind, q2, par['m_' + B], par['m_' + M], 4., 0., 0., {'v': left, 'a': -left, 'vp': right, 'ap': -right}, N))


SUB_V = [('B0', 'K*0'), ('B+', 'K*+'), ('Bs', 'phi')]
SUB_P = [('B0', 'K0'), ('B+', 'K+')]


def subleading(ctx, kind, decays, names):
    B, M = ctx.choice('decay', decays)
    name, bar = ctx.choice('implementation', names), ctx.choice('CP conjugate', [False, True])
    q2 = ctx.choice('q2', [1.2, 16.])
    pre = B + '->' + M + ' '
    keys = ['deltaC7 a', 'deltaC7 b', 'deltaC9 a', 'deltaC9 b', 'deltaC9 c'] if kind == 'p' else [x + h for h in '0-' for x in ('deltaC7 a_', 'deltaC7 b_')] + ['deltaC7p a_+', 'deltaC7p b_+'] + ['deltaC9 c_' + h for h in '0+-']
    free = {pre + k + r: ctx.real(pre + k + r, -1., 1.) for k in keys for r in (' Re', ' Im')}
    par = dict(CENTRAL, **free)
    scale = config['renormalization scale']['b%sll' % kind]
    V, C = numerical_ckm(ctx)
    run = Running(ctx)
    Stand(ctx, table(B, M, kind))
    got = Implementation['%s->%sll %s' % (B, M, name)].get(par, None, q2=q2, cp_conjugate=bar)
    N = 4 * par['GF'] / 2 ** .5 * (C if bar else V).xi('t', 'bs') * run('alpha_e', scale) / (4 * pi)
    P = lambda n: par[pre + n + ' Re'] + 1j * par[pre + n + ' Im']
    amps = lambda w: helicity(kind, q2, par['m_' + B], par['m_' + M], run('mb', scale), 0., 0., w, N)
    if kind == 'p':
        w = {'deltaC7 polynomial': ('7', lambda: P('deltaC7 a') + P('deltaC7 b') * q2), 'deltaC9 polynomial': ('v', lambda: P('deltaC9 a') + P('deltaC9 b') * q2), 'deltaC9 shift': ('v', lambda: P('deltaC9 c'))}
        k, f = w[name]
        ref = amps({k: f()})
    else:
        ref = {}
        for h, n, c in (('0', '_0', '7'), ('mi', '_-', '7'), ('pl', '_+', '7p')):
            if name == 'deltaC9 shift':
                w = {'v': P('deltaC9 c' + n)}
            else:
                d = 'deltaC7' + c[1:]
                w = {c: P(d + ' a' + n) + P(d + ' b' + n) * q2}
            ref[h, 'V'] = amps(w)[h, 'V']
    compare(ctx, got, ref)


@harness(name='subleading effects in B->V l l', max_paths=60)
def subleading_v(ctx):
    subleading(ctx, 'v', SUB_V, ['deltaC7, 7p polynomial', 'deltaC9 shift'])


@harness(name='subleading effects in B->P l l', max_paths=60)
def subleading_p(ctx):
    subleading(ctx, 'p', SUB_P, ['deltaC7 polynomial', 'deltaC9 polynomial', 'deltaC9 shift'])


# matrix elements of four-quark operators


def loop(s, m, mu):
    """one-loop matrix element of a quark with mass m, normalized as usual"""
    if m == 0:
        return 8 / 27. - 4 / 9. * (log(s) - 2 * log(mu)) + 4j * pi / 9
    z = 4 * m * m / s
    a = -4 / 9. * (2 * log(m / mu) - 2 / 3. - z)
    if z > 1:
        return a - 4 / 9. * (2 + z) * csqrt(abs(z - 1)) * catan(1 / csqrt(z - 1))
    r = sqrt(1 - z)
    return a - 4 / 9. * (2 + z) * r * (log((1 + r) / sqrt(z)) - 1j * pi / 2)


@harness(name='loop function', max_paths=20)
def loop_function(ctx):
    case = ctx.choice('case', ['light', 'heavy', 'threshold', 'massless', 'on shell'])
    mu = ctx.real('mu', 2., 6.)
    if case == 'massless':
        s, m = ctx.real('q2', 0.5, 20.), 0.
    elif case == 'on shell':
        s, m = 0., ctx.real('m', 1., 5.)
        ctx.check_eq('loop', npc(me.h(s, m, mu)), -4 / 9. * (1 + 2 * log(m / mu)))
        return
    elif case == 'threshold':
        m = ctx.real('m', 1., 5.)
        ctx.check_eq('loop', npc(me.h(4 * m * m, m, mu)), -4 / 9. * (2 * log(m / mu) - 5 / 3.), tol=1e-6)
        return
    else:
        r, m = ctx.real('ratio', 1.05, 3.), ctx.real('m', 1., 5.)
        s = 4 * m * m * (r if case == 'light' else 1 / r)
    ctx.check_eq('loop', npc(me.h(s, m, mu)), loop(s, m, mu))
    ctx.check_eq('loop', npc(me.h(s, m, mu)), loop(s, m, mu), tol=1e-6)


def poly(s, *c):
    return sum(k * s ** i for i, k in enumerate(c))


@harness(name='gluonic dipole', max_paths=20)
def gluonic_dipole(ctx):
    """expansions of the exact functions of the one-loop matrix element of the chromomagnetic operator to third order in q2"""
    s, L = ctx.real('s', .02, .4), ctx.real('ln(mu/mb)', -1., .5)
    l, p2 = log(s), pi ** 2
    f7 = -32 / 9. * L - 8 / 9. * l * poly(s, 0, 1, 1, 1) + poly(s, 8 / 27. * p2 - 44 / 9., 4 / 3. * p2 - 40 / 3., 32 / 9. * p2 - 316 / 9., 200 / 27. * p2 - 658 / 9.) - 8j * pi / 9
    f9 = 16 / 9. * l * poly(s, 1, 1, 1, 1) + poly(s, 104 / 9. - 32 / 27. * p2, 1184 / 27. - 40 / 9. * p2, 14212 / 135. - 32 / 3. * p2, 193444 / 945. - 560 / 27. * p2)
    ctx.check_eq('F87', npc(me.F_87(L, s)), f7, scale=1.)
    ctx.check_eq('F89', npc(me.F_89(l, s)), f9, scale=1.)
    ctx.check_eq('on shell', npc(me.F_87(L, 0.)), -32 / 9. * L + 8 / 27. * p2 - 44 / 9. - 8j * pi / 9, scale=1.)


@harness(name='light quark loops', max_paths=20)
def light_loops(ctx):
    """two-loop matrix elements with massless quarks: as published (the expressions below are regular at q2 -> mb2, and A at q2 -> 0)"""
    s, mb, mu = ctx.real('s', .05, .9), ctx.real('mb', 4.5, 5.), ctx.real('mu', 2., 5.5)
    q2 = s * mb * mb
    s = q2 / mb ** 2
    z = 4 / s
    r = csqrt(z - 1)
    clog = CMATH['log']
    D = ctx.ucfun('complex dilogarithm')
    plain = functions.li2

    def li2(x):
        if not (isinstance(x, complex) or hasattr(x, 'im')):
            return plain(x)
        if abs(float(x.imag)) < 1e-15 if isinstance(x, complex) else x.imag is E.ZERO:
            return plain(x.real)
        ctx.check_eq('on the unit circle', x.real ** 2 + x.imag ** 2, 1.)
        ctx.check_eq('phase', x.imag, 2 * r / z, scale=1.)
        return npc(D(x.real))
    ctx.patch_name(functions.li2, li2)
    L, l, i = log(mb ** 2 / mu ** 2), log(s), 1j
    a = pi / 2 - catan(r)
    dl = plain(s) + l * log(1 - s)
    A = (-104 / 243. * L + 4 * s / (27 * (1 - s)) * dl
         + (6 * s * l * poly(s, 29, -47) + poly(s, 785, -1600, 833) + 6j * pi * poly(s, 20, -49, 47)) / (729 * (1 - s) ** 2)
         - 2 * (2 * r * a * poly(s, -4, 9, -15, 4) + 9 * s ** 3 * l ** 2 + 18j * pi * l * poly(s, 0, 1, -2)) / (243 * (1 - s) ** 3)
         + 2 * s * (36 * a ** 2 + pi ** 2 * poly(s, -4, 9, -9, 3)) / (243 * (1 - s) ** 4))
    ctx.check_eq('A', npc(me.SeidelA(q2, mb, mu)), A, scale=1.)
    ctx.check_eq('A on shell', npc(me.SeidelA(0, mb, mu)), (833 - 312 * L) / 729 + 120j * pi / 729, scale=1.)
    ctx.check_eq('C', npc(me.SeidelC(q2, mb, mu)), -16 / 81. * (L + l) + 428 / 243. - 64 / 27. * 1.2020569031595942 + 16j * pi / 81, scale=1.)
    x1, x2, x3, x4 = .5 + i / 2 * r, .5 - i / 2 * r, .5 + i / (2 * r), .5 - i / (2 * r)
    l1, l2, l3, l4 = [clog(x) for x in (x1, x2, x3, x4)]
    B = (8 / (243 * s) * (4 * L - 34 * s * L - 17j * pi * s * L + 8 * s * L ** 2 + 17 * s * l * L)
         + (2 + s) * r / (729 * s) * (-48 * L * a - 18 * pi * log(r * r) + 3j * log(r * r) ** 2 - 24j * npc(D(1 - 2 / z)) - 5j * pi ** 2
                                      + 6j * (-9 * l1 ** 2 + l2 ** 2 - 2 * l4 ** 2 + 6 * l1 * l2 - 4 * l1 * l3 + 8 * l1 * l4) - 12 * pi * (2 * l1 + l3 + l4))
         - 2 / (243 * s * (1 - s)) * (4 * s * poly(s, -8, 17) * dl + 3 * poly(s, 6, 1, -1) * clog(x2 / x1) ** 2 + 12 * pi * a * poly(s, -6, -1, 1))
         + 2 / (2187 * s * (1 - s) ** 2) * (-18 * l * poly(s, 0, 120, -211, 73) + poly(s, -288, -8, 934, -692) + 18j * pi * poly(s, 0, 82, -173, 73))
         - 4 / (243 * s * (1 - s) ** 3) * (-2 * r * a * poly(s, 4, -3, -18, 16, -5) - 9 * s ** 3 * l ** 2 + 2j * pi * l * poly(s, 0, 8, -33, 51, -17))
         + 2 / (729 * s * (1 - s) ** 4) * (72 * a ** 2 * poly(s, 3, -8, 2) - pi ** 2 * poly(s, 54, -53, -286, 612, -446, 113)))
    ctx.check_eq('B', npc(me.SeidelB(q2, mb, mu)), B, scale=1.)


@harness(name='tables of charm loops', max_paths=20)
def charm_tables(ctx):
    """the tables contain F(7) and q2 F(9)"""
    grid = {n: ctx.ucfun('table ' + n) for n in ('17', '19', '27', '29')}
    for n in grid:
        name = ('_sh_F_' if n[1] == '9' else '_F_') + n
        if not hasattr(me, name):
            raise AttributeError("module 'flavio.physics.bdecays.matrixelements' has no attribute " + name)
        ctx.patch(me, name, lambda x, n=n: [npc(grid[n](*x))])
    m, z, s = ctx.real('mu', .5, 1.5), ctx.real('z', .05, .15), ctx.real('s', .01, .3)
    for n in grid:
        f = getattr(me, 'F_' + n)
        ctx.check_eq(n, npc(f(m, z, s)), npc(grid[n](m, z, s)) / (s if n[1] == '9' else 1), scale=1.)
        ctx.check_eq(n + ' on shell', npc(f(m, z, 0)), npc(0 if n[1] == '9' else grid[n](m, z, 0)), scale=1.)


class Loops:
    """arbitrary complex functions for matrix elements"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.f = {}
        self.patch(me.h, 'h', 3)
        for n in ('F_17', 'F_19', 'F_27', 'F_29'):
            self.patch(getattr(me, n), n, 3)
        for n in ('SeidelA', 'SeidelB', 'SeidelC'):
            self.patch(getattr(me, n), n, 3)
        self.patch(me.F_89, 'F_89', 2)
        self.patch(me.F_87, 'F_87', 2)

    def patch(self, fn, name, n):
        f = self.ctx.ucfun(name)
        names = fn.__code__.co_varnames[:n]
        self.f[name] = lambda *a: npc(f(*[x.real if isinstance(x, complex) or hasattr(x, 'im') else x for x in a]))
        self.ctx.patch_name(fn, lambda *a, **k: self.f[name](*(list(a) + [k[x] for x in names[len(a):]])))

    def __getattr__(self, n):
        return self.f[n]


def traditional(c, q):
    """coefficients of the traditional operator basis in terms of those of the basis of Chetyrkin, Misiak and Muenz"""
    C = [0.] + [c['C%d_%s' % (i, q)] for i in range(1, 7)]
    return {1: C[1] / 2, 2: C[2] - C[1] / 6, 3: C[3] - C[4] / 6 + 16 * C[5] - 8 / 3. * C[6], 4: C[4] / 2 + 8 * C[6],
            5: C[3] - C[4] / 6 + 4 * C[5] - 2 / 3. * C[6], 6: C[4] / 2 + 2 * C[6]}


def quark_coefficients(ctx, q):
    return {k + '_' + q: npc(ctx.complex(k, 1.)) for k in ['C%d' % i for i in range(1, 7)] + ['C8eff']}


@harness(name='matrix elements', max_paths=40)
def matrix_elements(ctx):
    q = ctx.choice('transition', ['bs', 'bd'])
    par = Par(ctx, .05, free=['m_c BVgamma'])
    V, run = numerical_ckm(ctx)[0], Running(ctx)
    L = Loops(ctx)
    c = quark_coefficients(ctx, q)
    q2, scale = ctx.real('q2', 1., 8.), 4.8
    B = traditional(c, q)
    mb, mc = run.other('get_mb_pole'), run.other('get_mc_pole')
    # traditional basis: closed loops with photon coupling and open penguin contractions
    C = {i: c['C%d_%s' % (i, q)] for i in range(1, 7)}
    Y = (L.h(q2, mc, scale) * (3 * B[1] + B[2] + 3 * B[3] + B[4] + 3 * B[5] + B[6])
         - L.h(q2, mb, scale) / 2 * (4 * (B[3] + B[4]) + 3 * B[5] + B[6]) - L.h(q2, 0., scale) / 2 * (B[3] + 3 * B[4])
         + 4 / 3. * C[3] + 64 / 9. * C[5] + 64 / 27. * C[6])
    ctx.check_eq('Y', me.Y(q2, c, par, scale, q), Y, scale=10.)
    Yu = (3 * B[1] + B[2]) * (L.h(q2, mc, scale) - L.h(q2, 0., scale))
    ctx.check_eq('Yu', me.Yu(q2, c, par, scale, q), Yu, scale=10.)
    x = V.xi('u', q) / V.xi('t', q)
    als = run('alpha_s', scale)
    A, Bs, Cs = [getattr(L, 'Seidel' + k)(q2, mb, scale) for k in 'ABC']
    for n, m, u1, u2 in (('7', par['m_c BVgamma'], -A, 6 * A), ('9', mc, -(Bs + 4 * Cs), -(-6 * Bs + 3 * Cs))):
        got = (me.delta_C7 if n == '7' else me.delta_C9)(par, c, q2, scale, q)
        args = scale / mb, m ** 2 / mb ** 2, q2 / mb ** 2
        f1, f2 = getattr(L, 'F_1' + n)(*args), getattr(L, 'F_2' + n)(*args)
        f8 = L.F_87(log(scale / mb), q2 / mb ** 2) if n == '7' else L.F_89(log(q2 / mb ** 2), q2 / mb ** 2)
        # charm loops and, with the up quark, (charm - up) times the CKM factor
        ref = c['C8eff_' + q] * f8 + C[1] * f1 + C[2] * f2 - x * (C[1] * (f1 + u1) + C[2] * (f2 + u2))
        ctx.check_eq('delta C' + n, got, -als / (4 * pi) * ref, scale=1.)


# QCD factorization

EPS = 1e-8j  # masses have a small negative imaginary part


def plain(*a):
    return [x.real if isinstance(x, complex) or hasattr(x, 'im') else x for x in a]


def light_meson(u, a1, a2):
    x = 2 * u - 1
    return 6 * u * (1 - u) * (1 + 3 * a1 * x + 1.5 * a2 * (5 * x * x - 1))


CHARGE = {'d': -1 / 3., 'u': 2 / 3., 's': -1 / 3.}
SPECTATOR = {('B0', 'K*0'): 'd', ('B+', 'K*+'): 'u', ('Bs', 'phi'): 's', ('Bs', 'K*0'): 's'}


def annihilation(c, q, B, M, x):
    """coefficient of the annihilation amplitude of leading power"""
    T = traditional(c, q)
    r = T[3] + 3 * T[4]
    if SPECTATOR[B, M] == 'u':
        r = r - 3 * x * c['C2_' + q]  # singlet current of the spectator
    if M == 'phi':
        r = r + 3 * (T[3] + T[4] / 3 + T[5] + T[6] / 3)  # flavour singlet current
    return r


class Factorization:
    def __init__(self, ctx):
        B, M = self.decay = ctx.choice('decay', sorted(MESONS_V))
        self.q = q = MESONS_V[B, M]
        pol = ['para', 'perp']
        self.par = par = Par(ctx, .03, free=['f_' + B, 'f_' + M] + ['a%d_%s_%s' % (i, p, M) for i in (1, 2) for p in pol])
        self.V, self.run = numerical_ckm(ctx)[0], Running(ctx, fixed=True)
        self.c = quark_coefficients(ctx, q)
        self.scale = 4.8
        self.fperp = ctx.real('f_perp', .1, .3)
        ctx.patch_name(flavio.physics.running.running.get_f_perp, lambda par, meson, scale: self.fperp)
        self.q2 = ctx.choice('q2', [1.3, 5.1])
        for fn in (qcdf.t_perp, qcdf.t_para):
            self.kernel(ctx, fn)
        h = ctx.ucfun('h')
        self.h = lambda s, m: npc(h(s, m * 1.))
        ctx.patch_name(me.h, lambda s, mq, mu: self.h(s, mq))
        w = ctx.complex('inverse moment', 1.)
        self.minus = npc(w)
        ctx.patch_name(qcdf.lB_minus, lambda q2, par, B: 1. / self.minus)
        self.on = {k: ctx.choice(k, [True, False]) for k in ('include_WA', 'include_O8', 'include_QSS')}
        self.mB, self.mV = par['m_' + B], par['m_' + M]
        self.mb, self.mc = [self.run.other('get_m%s_pole' % x) for x in 'bc']
        self.lam = 2 * (self.mB - self.mb) / 3
        self.x = self.V.xi('u', q) / self.V.xi('t', q)
        self.als = self.run('alpha_s', self.scale)
        self.E = (self.mB ** 2 + self.mV ** 2 - self.q2) / (2 * self.mB)

    def kernel(self, ctx, fn):
        f = ctx.ucfun(fn.__name__)
        setattr(self, fn.__name__, lambda u, m: npc(f(u, m * 1.)))
        ctx.patch_name(fn, lambda q2, u, mq, par, B, V: getattr(self, fn.__name__)(u, mq))

    def quark_loops(self, t, u, charm, bottom, light):
        """charges, masses and coefficients; with the up quark, (charm - up) times the CKM factor"""
        eu, ed = CHARGE['u'], CHARGE['d']
        T = traditional(self.c, self.q)
        tc, tb, t0 = t(u, self.mc), t(u, self.mb), t(u, 0.)
        return eu * tc * charm + ed * tb * bottom + ed * t0 * light + self.x * eu * (tc - t0) * T[2]

    def parallel(self, u):
        T, eq = traditional(self.c, self.q), CHARGE[SPECTATOR[self.decay]]
        M, r, s = self.mB, 0., (1 - u) * self.mB ** 2 + u * self.q2
        f, g = self.als / (3 * pi), 0.
        if self.on['include_WA']:
            r = r - eq * 4 * M / self.mb * annihilation(self.c, self.q, self.decay[0], self.decay[1], self.x)
        if self.on['include_O8']:
            r = r + f * eq * 8 * self.c['C8eff_' + self.q] * M ** 2 / s
        if self.on['include_QSS']:
            hc, hb, h0 = self.h(s, self.mc), self.h(s, self.mb), self.h(s, 0.)
            r = r + f * eq * 6 * M / self.mb * (hc * (T[2] + T[4] + T[6]) + hb * (T[3] + T[4] + T[6]) + h0 * (T[3] + 3 * T[4] + 3 * T[6]) - 8 / 27. * (T[3] - T[5] - 15 * T[6])
                                                + self.x * (hc - h0) * T[2])
            g = f * M / self.mb * self.quark_loops(self.t_para, u, T[2] + T[4] - T[6], T[3] + T[4] - T[6], T[3])
        a1, a2 = [self.par['a%d_para_%s' % (i, self.decay[1])] for i in (1, 2)]
        N = pi ** 2 / 3 * self.par['f_' + self.decay[0]] * self.par['f_' + self.decay[1]] / M * self.mV / self.E
        return N * light_meson(u, a1, a2) * (r * self.minus + g / self.lam)

    def perpendicular(self, u):
        T, eq = traditional(self.c, self.q), CHARGE[SPECTATOR[self.decay]]
        M, r = self.mB, 0.
        f = self.als / (3 * pi)
        if self.on['include_O8']:
            r = r - f * 4 * CHARGE['d'] * self.c['C8eff_' + self.q] / (u + (1 - u) * self.q2 / M ** 2)
        if self.on['include_QSS']:
            r = r + f * M / (2 * self.mb) * self.quark_loops(self.t_perp, u, T[2] + T[4] - T[6], T[3] + T[4] - T[6], T[3])
        r = r / self.lam
        if self.on['include_WA']:
            r = r - eq * 4 / self.mb * (T[5] + 3 * T[6]) / (1 - u + u * self.q2 / M ** 2)
        a1, a2 = [self.par['a%d_perp_%s' % (i, self.decay[1])] for i in (1, 2)]
        return pi ** 2 / 3 * self.par['f_' + self.decay[0]] * self.fperp / M * light_meson(u, a1, a2) * r

    def local(self):
        if not self.on['include_WA']:
            return 0.
        B, M = self.decay
        eq = CHARGE[SPECTATOR[self.decay]]
        return pi ** 2 / 3 * self.par['f_' + B] * self.par['f_' + M] * self.mV / self.mB / (1 - self.q2 / self.mB ** 2) / self.lam * eq * 2 / self.mb * annihilation(self.c, self.q, B, M, self.x)


@harness(name='spectator scattering', max_paths=200, time=300)
def spectator(ctx):
    F = Factorization(ctx)
    B, M = F.decay
    pol = ctx.choice('polarization', ['para', 'perp'])
    if not any(F.on.values()):
        ctx.raises('no contribution', ValueError, lambda: (qcdf.T_para if pol == 'para' else qcdf.T_perp)(F.q2, F.par, F.c, B, M, F.scale, **F.on))
        return
    if pol == 'perp':
        F.c['C3_' + F.q] = F.c['C4_' + F.q] / 6 - 4 * F.c['C5_' + F.q] + 2 / 3. * F.c['C6_' + F.q]
    u = ctx.real('u', .05, .95)
    calls = []

    def integrate(f, a, b, **k):
        ctx.check('limits', a == 0 and b == 1)
        calls.append(1)
        return npc(f(u))
    ctx.patch_name(flavio.math.integrate.nintegrate_complex, integrate)
    got = (qcdf.T_para if pol == 'para' else qcdf.T_perp)(F.q2, F.par, F.c, B, M, F.scale, **F.on)
    ref = F.parallel(u) if pol == 'para' else F.perpendicular(u) + F.local()
    ctx.check_eq(pol, got, ref, scale=.1)


def dilog(ctx):
    if not ctx.symbolic:
        return functions.li2
    f = ctx.ucfun('Li2')
    g = lambda x: npc(f(*[x.real, x.imag]))
    ctx.patch_name(functions.li2, g)
    return g


def clog(x):
    return CMATH['log'](x)


def l1(x, li2):
    return clog((x - 1) / x) * clog(1 - x) - pi ** 2 / 6 + li2(x / (x - 1))


def csq(x):
    return CMATH['sqrt'](x)


def b0(s, m):
    if 4 * m ** 2 / s == 1:
        return 0.
    r = csq(4 * (m ** 2 - EPS) / s - 1)
    return -2 * r * catan(1 / r)


@harness(name='hard kernels', max_paths=80, time=200)
def kernels(ctx):
    """loops of quarks in spectator scattering"""
    B, M = 'Bs', 'phi'
    pol, m, case = ctx.choice('polarization', ['perp', 'para']), ctx.choice('mass', [0, 1.6, 4.8]), ctx.choice('q2', ['finite', 'zero'])
    par = dict(CENTRAL)
    li2 = dilog(ctx)
    u = ctx.real('u', .1, .9)
    mB, mV = par['m_' + B], par['m_' + M]
    if case == 'zero' and pol == 'para':
        return
    q2 = ctx.real('momentum transfer', .5, 6.) if case == 'finite' else 0.
    got = npc((qcdf.t_perp if pol == 'perp' else qcdf.t_para)(q2, u, m, par, B, M))
    ub = 1 - u
    if case == 'zero':
        x0 = csq(1 / 4. - m ** 2 / (ub * mB ** 2))
        if m == 0:
            ctx.check('finite', True)
            return
        ctx.check_eq('kernel', got, 4 / ub * (1 + 2 * m ** 2 / (ub * mB ** 2) * (l1(1 / 2. + x0, li2) + l1(1 / 2. - x0, li2))), scale=10.)
        return
    E = (mB ** 2 + mV ** 2 - q2) / (2 * mB)
    s = ub * mB ** 2 + u * q2
    m2 = m ** 2 - EPS
    x0, y0 = csq(1 / 4. - m2 / s), csq(1 / 4. - m2 / q2)
    i1 = 1 + 2 * m2 / (ub * (mB ** 2 - q2)) * (l1(1 / 2. + x0, li2) + l1(1 / 2. - x0, li2) - l1(1 / 2. + y0, li2) - l1(1 / 2. - y0, li2))
    diff = b0(s, m) - b0(q2, m) if m else log(q2) - log(s)
    ref = 2 * mB / (ub * E) * i1 + (q2 if pol == 'perp' else s) / (ub * E) ** 2 * diff
    ctx.check_eq('kernel', got, ref, scale=10.)


@harness(name='moments of the B meson', max_paths=10)
def moments(ctx):
    B = ctx.choice('meson', ['B0', 'B+', 'Bs'])
    par, run = Par(ctx, .01, free=['m_' + B]), Running(ctx, width=.02)
    ei = ctx.ufun('Ei', -10., 10.)
    ctx.patch_name(functions.ei, ei)
    q2 = ctx.real('q2', .5, 6.)
    w0 = 2 / 3. * (par['m_' + B] - run.other('get_mb_pole'))
    ctx.check_eq('plus', qcdf.lB_plus(par, B), w0)
    x = q2 / par['m_' + B] / w0
    from engine.num import exp
    got = npc(qcdf.lB_minus(q2, par, B))
    ctx.check_eq('minus', got * exp(-x) * (1j * pi - ei(x)), w0)


@harness(name='amplitudes from spectator scattering', max_paths=100)
def qcdf_amplitudes(ctx):
    B, M = ctx.choice('decay', sorted(MESONS_V))
    bar = ctx.choice('CP conjugate', [False, True])
    q = MESONS_V[B, M]
    par = dict(CENTRAL)
    # also when the configuration is changed
    scale = ctx.choice('scale', [config['renormalization scale']['bvll'], 4.2])
    ctx.patch(config['renormalization scale'], 'bvll', scale)
    the_scale = scale
    wc = WCs(ctx, only=['C8'], b=1.)
    V, C = numerical_ckm(ctx)
    run, sm = Running(ctx), standard_model(ctx, 0.)
    q2 = ctx.choice('q2', [1.1, 5.9])
    # T depends on coefficients and, with weak phases, parameters
    k = {p: [ctx.complex('%s %d' % (p, i), 1.) for i in range(3)] for p in ('perp', 'para')}

    def T(p):
        def f(q2, par, c, B, V_, scale, include_WA=True, include_O8=True, include_QSS=True):
            ctx.check_eq('scale', scale, the_scale, scale=1.)
            W = C if par['gamma'] < 0 else V
            x = W.xi('u', q) / W.xi('t', q)
            return npc(k[p][0] * c['C8eff_' + q] + k[p][1] * c['C3_' + q] + k[p][2] * x * c['C2_' + q])
        return f
    ctx.patch_name(qcdf.T_perp, T('perp'))
    ctx.patch_name(qcdf.T_para, T('para'))
    got = Implementation['%s->%sll QCDF' % (B, M)].get(par, wc, q2=q2, cp_conjugate=bar)
    c = coefficients(wc.at(scale), sm, q, run, scale, bar)
    p = dict(par, gamma=-par['gamma'] if bar else par['gamma'])
    Tp, Tl = [T(n)(q2, p, c, B, M, scale) for n in ('perp', 'para')]
    mB, mV, mb = par['m_' + B], par['m_' + M], run.other('get_mb_pole')
    N = par['GF'] / 2 ** .5 * (C if bar else V).xi('t', q) * run('alpha_e', scale) / pi
    # as C7 T1 -> T_perp and C7 (T2, T3) -> T_par for a light energetic meson
    ref = {('mi', 'V'): -2j * N * (mB ** 2 - q2) * mb / q2 * Tp, ('0', 'V'): -1j * N * mb * (mB ** 2 - q2) ** 2 / (2 * q2 ** .5 * mB ** 2 * mV) * Tl}
    compare(ctx, got, ref)


@harness(name='interpolated spectator scattering', max_paths=100)
def interpolated(ctx):
    """poles in q2 times functions tabulated for each decay and CP state"""
    B, M = ctx.choice('decay', sorted(MESONS_V))
    bar = ctx.choice('CP conjugate', [False, True])
    q2 = ctx.real('q2', .5, 6.)
    f = {n: ctx.ufun(n, -1., 1.) for n in ('%s %s %d' % (h, r, b) for h in ('pl', 'mi', '0') for r in ('re', 'im') for b in (0, 1))}

    class View(list):
        def view(self, t):
            return [npc(self[2 * i] + 1j * self[2 * i + 1]) for i in range(3)]

    def arr(b):
        return lambda q2: View(f['%s %s %d' % (h, r, b)](q2) for h in ('pl', 'mi', '0') for r in ('re', 'im'))
    ctx.patch(interpolate, 'interpolating_function_dict', {'%s->%s %sall' % (B, M, s): arr(b) for b, s in ((0, ''), (1, 'CP conjugate '))})
    got = Implementation['%s->%sll QCDF interpolated' % (B, M)].get(dict(CENTRAL), None, q2=q2, cp_conjugate=bar)
    g = lambda h: f['%s re %d' % (h, bar)](q2) + 1j * f['%s im %d' % (h, bar)](q2)
    compare(ctx, {k: npc(v) for k, v in got.items()}, {('pl', 'V'): g('pl') / q2, ('mi', 'V'): g('mi') / q2, ('0', 'V'): g('0') / q2 ** .5}, 1e-2)
