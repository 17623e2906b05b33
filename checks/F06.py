"""Semileptonic charged-current decays from the effective Hamiltonian to the differential rate."""
import math
import flavio
import flavio.physics.bdecays.bplnu as bplnu
import flavio.physics.bdecays.bvlnu as bvlnu
import flavio.physics.ddecays.dplnu as dplnu
import flavio.physics.kdecays.kpilnu as kpilnu
import flavio.physics.kdecays.lambdaplnu as lambdaplnu
import flavio.physics.bdecays.angular as angular
import flavio.physics.bdecays.wilsoncoefficients
import flavio.math.integrate
from engine.run import harness, add_harness
from engine.num import sqrt, pi, abs2, conj, log, lam
from engine.phys import Par, WCs, Running, patch_ckm, predict, CENTRAL

EXPLANATION = (
    'Differential rates of B to pseudoscalar or vector meson, D to pseudoscalar and K to pion decays with a charged lepton and a neutrino are executed from the Wilson coefficients to the observable, with symbolic masses, form factors and CKM '
    'elements or with symbolic complex coefficients of all five operators and all neutrino flavours, and compared with the textbook helicity formula (vector, scalar and tensor helicity amplitudes of the hadronic current, '
    'with the quark mass difference or sum from the equations of motion), times lifetime, isospin and electromagnetic factors. Effective couplings of K and hyperon decays and the sum of flavours in total rates are decided in the same way.')
BOUNDS = ('modes "masses": all parameters within 2% of their central values, form factors in [0.1, 2], q2 in the inner part of the allowed region, Standard Model coefficients; modes "coefficients": complex coefficients up to 2 in size, with positive real parts, for all neutrino '
          'flavours, form factors symbolic, masses and q2 at fixed values')
ASSUMPTIONS = ['floats treated as reals', 'bins and averages over q2 are covered by F02', 'integrals over q2 replaced by the value at one symbolic point']


def ckm_of(q):
    """CKM element of the transition named by the quarks of the coefficients"""
    return {'bc': 'cb', 'bu': 'ub', 'sc': 'cs', 'dc': 'cd', 'su': 'us'}[q]


def coefficients(wc, scale, eft, q, lep, nu, sm):
    at = wc.at(scale, eft)
    lab = '_%s%snu%s' % (q, lep, nu)
    return {'VL': (sm if lep == nu else 0.) + at('CVL' + lab), 'VR': at('CVR' + lab), 'SR': at('CSR' + lab), 'SL': at('CSL' + lab), 'T': at('CT' + lab)}


def norm(par, V, q, M, m, ml, q2):
    return par['GF'] ** 2 * abs2(V) / (192 * pi ** 3 * M ** 3) * q2 * sqrt(lam(M ** 2, m ** 2, q2)) * (1 - ml ** 2 / q2) ** 2


def rate_p(C, ff, M, m, ml, mi, mj, q2):
    """without norm; mi - mj: difference of quark masses in the divergence of the vector current"""
    L, r = lam(M ** 2, m ** 2, q2), ml / sqrt(q2)
    H0, Ht = sqrt(L / q2) * ff['f+'], (M ** 2 - m ** 2) / sqrt(q2) * ff['f0']
    HS, HT = (M ** 2 - m ** 2) / (mi - mj) * ff['f0'], -sqrt(L) / (M + m) * ff['fT']
    V, S, T = C['VL'] + C['VR'], C['SR'] + C['SL'], C['T']
    return (abs2(V) * ((1 + r ** 2 / 2) * H0 ** 2 + 3 / 2 * r ** 2 * Ht ** 2) + 3 / 2 * abs2(S) * HS ** 2 + 8 * abs2(T) * (1 + 2 * r ** 2) * HT ** 2
            + 3 * (V * conj(S)).real * r * HS * Ht - 12 * (V * conj(T)).real * r * HT * H0)


def rate_v(C, ff, M, m, ml, mi, mj, q2):
    L, r, rq = lam(M ** 2, m ** 2, q2), ml / sqrt(q2), sqrt(q2)
    Hp, Hm = [(M + m) * ff['A1'] - s * sqrt(L) / (M + m) * ff['V'] for s in (1, -1)]
    H0, Ht, HS = -8 * M * m * ff['A12'] / rq, -sqrt(L / q2) * ff['A0'], -sqrt(L) / (mi + mj) * ff['A0']
    Tp, Tm = [(s * (M ** 2 - m ** 2) * ff['T2'] + sqrt(L) * ff['T1']) / rq for s in (1, -1)]
    T0 = -4 * M * m / (M + m) * ff['T23']
    VL, VR, S, T = C['VL'], C['VR'], C['SR'] - C['SL'], C['T']
    k, t = 1 + r ** 2 / 2, 3 / 2 * r ** 2
    return ((abs2(VL) + abs2(VR)) * (k * (Hp ** 2 + Hm ** 2 + H0 ** 2) + t * Ht ** 2) - 2 * (VL * conj(VR)).real * (k * (H0 ** 2 + 2 * Hp * Hm) + t * Ht ** 2)
            + 3 / 2 * abs2(S) * HS ** 2 + 8 * abs2(T) * (1 + 2 * r ** 2) * (Tp ** 2 + Tm ** 2 + T0 ** 2) + 3 * ((VL - VR) * conj(S)).real * r * HS * Ht
            - 12 * (VL * conj(T)).real * r * (T0 * H0 + Tp * Hp - Tm * Hm) + 12 * (VR * conj(T)).real * r * (T0 * H0 + Tp * Hm - Tm * Hp))


DECAYS = {
    'B->P': [('B+', 'D', 'D0', 'bc', 'B->D', 1), ('B0', 'D', 'D+', 'bc', 'B->D', 1), ('B+', 'pi', 'pi0', 'bu', 'B->pi', .5), ('B0', 'pi', 'pi+', 'bu', 'B->pi', 1)],
    'B->V': [('B+', 'D*', 'D*0', 'bc', 'B->D*', 1), ('B0', 'D*', 'D*+', 'bc', 'B->D*', 1), ('B+', 'rho', 'rho0', 'bu', 'B->rho', .5), ('B0', 'rho', 'rho+', 'bu', 'B->rho', 1),
             ('B+', 'omega', 'omega', 'bu', 'B->omega', .5), ('Bs', 'K*', 'K*+', 'bu', 'Bs->K*', 1)],
    'D->P': [('D+', 'K', 'K0', 'sc', 'D->K', 1), ('D0', 'K', 'K+', 'sc', 'D->K', 1), ('D+', 'pi', 'pi0', 'dc', 'D->pi', .5), ('D0', 'pi', 'pi+', 'dc', 'D->pi', 1)],
    'K->pi': [('KL', 'pi', 'pi+', 'su', 'K->pi', 1), ('KS', 'pi', 'pi+', 'su', 'K->pi', 1), ('K+', 'pi', 'pi0', 'su', 'K->pi', .5)],
}
EFT = {'B->P': 'WET', 'B->V': 'WET', 'D->P': 'WET-4', 'K->pi': 'WET-3'}
NF = {'WET': 5, 'WET-4': 4, 'WET-3': 3}
FF = {'V': ['V', 'A0', 'A1', 'A12', 'T1', 'T2', 'T23'], 'P': ['f+', 'f0', 'fT']}



def point(ctx, name, mode, lo, hi):
    if mode == 'masses':
        return ctx.real('q2 ' + name, lo + .3 * (hi - lo), lo + .5 * (hi - lo))
    return ctx.choice('q2', [lo + .2 * (hi - lo), lo + .7 * (hi - lo)])


def decay(ctx, cls, mode):
    M, out, m, q, ffname, iso = ctx.choice('decay', DECAYS[cls])
    lep = ctx.choice('lepton', ['e', 'mu', 'l'] if cls == 'K->pi' else ['e', 'mu', 'l'] if cls == 'D->P' else ['e', 'mu', 'tau', 'l'])
    if mode == 'masses':
        par, run = Par(ctx, width=.02), Running(ctx, width=.05)
        wc = WCs(ctx, only=())
    else:
        par, run = Par(ctx, free=('GF', 'tau_*')), Running(ctx, fixed=True)
        wc = WCs(ctx, nonzero=True)
    V = patch_ckm(ctx)
    kind = 'V' if cls == 'B->V' else 'P'
    ff = {k: ctx.real('ff ' + k, .1, 2) for k in FF[kind]}
    sm = ctx.real('CVL SM', .9, 1.1)
    asked = []
    ctx.patch_name(flavio.physics.bdecays.wilsoncoefficients.get_CVLSM, lambda par, scale, nf: asked.append((scale, nf)) or sm)
    heavy = max(CENTRAL['m_' + l] for l in (['e', 'mu'] if lep == 'l' else [lep]))
    lo, hi = heavy ** 2, (CENTRAL['m_' + M] - CENTRAL['m_' + m]) ** 2
    q2 = point(ctx, '%s %s %s' % (M, m, lep), mode, lo, hi)
    aux = flavio.classes.AuxiliaryQuantity[ffname + ' form factor']

    def formfactors(par_dict=None, wc_obj=None, q2=None, **kw):
        ctx.check('form factors evaluated at q2', q2 is Q or q2 == Q)
        return dict(ff)
    Q = q2
    ctx.patch(aux, 'prediction', formfactors)
    eft = EFT[cls]
    if cls == 'K->pi':
        # integral over the allowed region -> integrand times length
        seen = []

        def integral(f, a, b, *args, **kw):
            seen.append((a, b))
            return f(q2)
        ctx.patch_name(flavio.math.integrate.nintegrate, integral)
        got = predict('BR(%s->pi%snu)' % (M, lep), wc, par)
        scale = par['m_rho0']
    else:
        got = predict('dBR/dq2(%s->%s%snu)' % (M, out, lep), wc, par, q2)
        scale = flavio.config['renormalization scale'][{'B->P': 'bpll', 'B->V': 'bvll', 'D->P': 'dpll'}[cls]]
    # quark masses: operator (qbar_j Gamma q_i)
    quark = {'bc': ('mb', 'mc'), 'bu': ('mb', None), 'sc': ('ms', 'mc'), 'dc': ('md', 'mc'), 'su': ('ms', None)}[q]
    mi, mj = [0. if n is None else run(n, scale) for n in quark]
    rate = rate_v if kind == 'V' else rate_p
    want = 0.
    leps = ['e', 'mu'] if lep == 'l' else [lep]
    f = dict(ff)
    if M == 'K+':
        f = {k: v * (1 + par['K->pi delta_K+pi0']) for k, v in ff.items()}
    for l in leps:
        ml, MM, mm = par['m_' + l], par['m_' + M], par['m_' + m]
        w = 0.
        for nu in ('e', 'mu', 'tau'):
            w = w + rate(coefficients(wc, scale, eft, q, l, nu, sm), f, MM, mm, ml, mi, mj, q2)
        w = w * norm(par, V.q(ckm_of(q)), q, MM, mm, ml, q2)
        if cls == 'K->pi':
            w = w * (1 + par[('K+' if M == 'K+' else 'K0') + l + '3 delta_EM']) ** 2
            a, b = seen.pop(0)
            ctx.check_eq('lower limit ' + l, a, ml ** 2)
            ctx.check_eq('upper limit ' + l, b, (MM - mm) ** 2)
        want = want + w
    ctx.check('Standard Model coefficient', all(s == scale and n == NF[eft] for s, n in asked) and len(asked) > 0)
    ctx.check_eq('rate', got, want * iso * par['tau_' + M] / len(leps))


for _c in DECAYS:
    for _m in ('masses', 'coefficients'):
        add_harness(__name__, lambda ctx, c=_c, m=_m: decay(ctx, c, m), '%s %s' % (_c, _m), max_paths=200, time=200)


@harness(name='sum over neutrino flavours', max_paths=60)
def flavours(ctx):
    """angular coefficients: incoherent sum; flavours without coefficients do not contribute"""
    mod, B, X, q = ctx.choice('decay', [(bvlnu, 'B0', 'D*+', 'bc'), (bvlnu, 'Bs', 'K*+', 'bu'), (bplnu, 'B+', 'D0', 'bc'), (bplnu, 'B0', 'pi+', 'bu')])
    lep = ctx.choice('lepton', ['e', 'mu', 'tau'])
    new = ctx.choice('New Physics', [(), ('e',), ('tau',), ('e', 'mu', 'tau')])
    vector = mod is bvlnu
    keys = ['1s', '1c', '2s', '2c', '6s', '6c', 3, 4, 5, 7, 8, 9] if vector else ['a', 'b', 'c']
    par = dict(CENTRAL)
    run, V = Running(ctx, fixed=True), patch_ckm(ctx)
    scale = flavio.config['renormalization scale']['bvll' if vector else 'bpll']
    wc = WCs(ctx, only=())
    labels = ['v', 'a', 's', 'p', 'vp', 'ap', 'sp', 'pp', '7', '7p', 't']
    C = {n: {k: i if n in new or n == lep else 0 for k in labels} for i, n in ((1., 'e'), (2., 'mu'), (3., 'tau'))}
    J = {n: {k: ctx.real('%s %s' % (k, n), -1., 1.) for k in keys} for n in C}

    def couplings(w, p, quarks, l, nu, mb, mu, nf=None):
        ctx.check('couplings', w is wc and quarks == q and l == lep and mu == scale and nf == 5)
        return C[nu]

    def amplitudes(q2, mB, mX, mqh, mql, ml1, ml2, ff, c, N):
        ctx.check('amplitudes', mB == par['m_' + B] and mX == par['m_' + X] and ml1 == par['m_' + lep] and ml2 == 0)
        return int(c['v'])

    def general(h, q2, mB, mX, mqh, mql, ml1, ml2):
        ctx.check('kinematics', mB == par['m_' + B] and mX == par['m_' + X] and ml1 == par['m_' + lep] and ml2 == 0)
        return J[['e', 'mu', 'tau'][h - 1]] if h else {k: 0 for k in keys}
    ctx.patch_name(flavio.physics.bdecays.wilsoncoefficients.get_wceff_fccc, couplings)
    x = 'v' if vector else 'p'
    ctx.patch(angular, 'helicity_amps_' + x, amplitudes)
    ctx.patch(angular, 'angularcoeffs_general_' + x, general)
    ctx.patch(mod, 'get_ff', lambda *a: None)
    got = mod.get_angularcoeff(5., wc, par, B, X, lep)
    for k in keys:
        ctx.check_eq('%s' % k, got[k], sum(J[n][k] for n in C if n in new or n == lep), scale=1.)


@harness(name='K->pi effective couplings', max_paths=20)
def k_couplings(ctx):
    lep = ctx.choice('lepton', ['e', 'mu'])
    par, run, wc = Par(ctx, width=.05), Running(ctx), WCs(ctx, b=.2)
    ff, f0 = [{k: ctx.real('%s %s' % (n, k), .3, 1.) for k in FF['P']} for n in ('ff', 'ff(0)')]
    scale = par['m_rho0']
    mK, mp, ml = par['m_KL'], par['m_pi+'], par['m_' + lep]
    ctx.patch(flavio.classes.AuxiliaryQuantity['K->pi form factor'], 'prediction', lambda par_dict=None, wc_obj=None, q2=None, **kw: f0 if isinstance(q2, (int, float)) and q2 == 0 else ff)
    ctx.patch_name(flavio.physics.bdecays.wilsoncoefficients.get_CVLSM, lambda par, scale, nf: 1.)
    C = coefficients(wc, scale, 'WET-3', 'su', lep, lep, 1.)
    # the scalar amplitude at the Callan-Treiman point relative to the one of the vector current
    D = mK ** 2 - mp ** 2
    V, S = (C['VL'] + C['VR']).real, (C['SR'] + C['SL']).real
    ctx.assume(1 + D / ml / run('ms', scale) * S / V >= .01)
    ctx.check_eq('ln C', predict('lnC(K->pi%snu)' % lep, wc, par), log(ff['f0'] / f0['f0'] * (1 + D / (ml * run('ms', scale)) * S / V)), scale=1.)
    ctx.check_eq('RT', predict('RT(K->pi%snu)' % lep, wc, par), -4 * f0['fT'] / f0['f+'] * mK / (mK + mp) * C['T'].real, scale=1.)


@harness(name='averages of couplings', max_paths=20)
def averages(ctx):
    name = ctx.choice('coupling', ['lnC(K->pi%snu)', 'RT(K->pi%snu)', 'g1/f1(Lambda->p%snu)'])
    par, run, wc = Par(ctx, free=()), Running(ctx, fixed=True), WCs(ctx, b=1e-4)
    v = {l: predict(name % l, wc, par) for l in ('e', 'mu', 'l')}
    ctx.check_eq('average', v['l'], (v['e'] + v['mu']) / 2, scale=1.)


@harness(name='Lambda->p', max_paths=20)
def hyperon(ctx):
    lep = ctx.choice('lepton', ['e', 'mu'])
    par, run, wc = Par(ctx), Running(ctx), WCs(ctx, b=.2)
    sm = ctx.real('CVL SM', .9, 1.1)
    ctx.patch_name(flavio.physics.bdecays.wilsoncoefficients.get_CVLSM, lambda par, scale, nf: sm)
    s = flavio.config['renormalization scale']['kdecays']
    C = coefficients(wc, s, 'WET-3', 'su', lep, lep, sm)
    ctx.check_eq('g1/f1', predict('g1/f1(Lambda->p%snu)' % lep, wc, par),
                 par['Lambda->p g_1(0)'] / par['Lambda->p f_1(0)'] * (C['VL'] - C['VR']).real / (C['VL'] + C['VR']).real)
