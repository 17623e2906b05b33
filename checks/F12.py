"""Radiative decays of beauty hadrons follow from the effective Hamiltonian."""
import numpy as np
import flavio
import flavio.physics.bdecays.bvgamma as bvgamma
import flavio.physics.bdecays.bxgamma as bxgamma
import flavio.physics.bdecays.bllgamma as bllgamma
import flavio.physics.bdecays.bc_lifetime as bc_lifetime
import flavio.physics.bdecays.wilsoncoefficients as wcs
import flavio.physics.bdecays.matrixelements as me
import flavio.physics.bdecays.bvll.amplitudes as bvll_amplitudes
import flavio.physics.mesonmixing.observables as mixing
import flavio.math.integrate
from flavio.config import config
from flavio.classes import AuxiliaryQuantity
from engine.run import harness
from engine.num import sqrt, pi, abs2, conj
from engine import dirac as D
from engine.phys import Par, WCs, Running, patch_ckm, predict, CENTRAL
from checks.F10 import standard_model, weak_phases, BASIS, YI, ZI, npc

EXPLANATION = (
    'The amplitudes of B -> V gamma are executed with symbolic Wilson coefficients, CKM elements, matrix elements of four-quark operators and hadronic corrections, for both CP states, and compared with the matrix element of the dipole operators; rates, CP asymmetries and time dependent observables are compared with their definitions, for arbitrary amplitudes and mixing phase. '
    'The rate of B -> l l gamma is compared with the squared amplitude between explicit Dirac spinors, with emission of the photon from the quarks and from the leptons, integrated over the angle of the leptons. '
    'For B -> X gamma the hermitian quadratic form in the coefficients, the analytically known phases of its elements, and the normalization to the semileptonic rate are compared. '
    'The lifetime of the B_c is compared with the sum of widths.')
BOUNDS = 'masses within 2 to 5%, coefficients and amplitudes up to 1, symbolic velocity of the leptons and momentum transfer; two nodes for integrals over bins'
ASSUMPTIONS = ['floats treated as reals', 'weak annihilation in B -> l l gamma (its dependence on C1 and C2) is not decided', 'B -> l l gamma depends on C7, C9 and C10 only, as in the implementation', 'tables of numerical coefficients of B -> X gamma are compared where analytical results or colour relations are known']


# B -> V gamma

TRANSITIONS = {('B+', 'K*+'): 'bs', ('B0', 'K*0'): 'bs', ('Bs', 'phi'): 'bs'}
FF = {('B+', 'K*+'): 'B->K*', ('B0', 'K*0'): 'B->K*', ('Bs', 'phi'): 'Bs->phi'}


class Stand:
    """arbitrary functions in place of auxiliary quantities; keeps the others"""

    def __init__(self, ctx, table):
        old = AuxiliaryQuantity.prediction
        ctx.patch(AuxiliaryQuantity, 'prediction', lambda self, par_dict, wc_obj, **kw: table[self.name](par_dict, wc_obj, **kw) if self.name in table else old(self, par_dict, wc_obj, **kw))


@harness(name='B->V gamma: normalization', max_paths=20)
def bv_normalization(ctx):
    B, M = ctx.choice('decay', sorted(TRANSITIONS))
    par = Par(ctx, 0.02, free=['m_' + B, 'm_' + M, 'GF'])
    V, run = patch_ckm(ctx), Running(ctx)
    scale = config['renormalization scale']['bvgamma']
    xi = V.xi('t', TRANSITIONS[B, M])
    N = bvgamma.prefactor(par, B, M)
    mB, mV, mb = par['m_' + B], par['m_' + M], run('mb', scale)
    # 4 GF/sqrt2 e mb/(16 pi^2) <V| s sigma.F (1+g5)/2 b |B> with one photon helicity, flux 1/(2 mB), phase space k/(4 pi mB)
    e2 = 4 * pi * run('alpha_e', scale)
    k = (mB ** 2 - mV ** 2) / (2 * mB)
    matrix = (4 * par['GF'] / 2 ** 0.5) ** 2 * e2 * mb ** 2 / (16 * pi ** 2) ** 2 * (2 * (mB ** 2 - mV ** 2)) ** 2
    width = matrix * k / (4 * pi * mB) / (2 * mB)
    ctx.check_eq('rate', N * N, width * xi * xi, scale=1e-22)
    ctx.check_eq('rate', abs2(N), width * abs2(xi), scale=1e-22)


class Elements:
    """matrix elements of four-quark operators with linear dependence on some coefficients"""

    def __init__(self, ctx, q2):
        self.k = {c: ctx.complex('delta_C7_' + c, 1.) for c in ('C1', 'C2', 'C8eff')}

        def f(par, wc, q2, scale, qiqj):
            ctx.check_eq('on-shell photon', q2, 0)
            return self(wc, qiqj)
        ctx.patch_name(me.delta_C7, f)

    def __call__(self, wc, q):
        return sum(k * wc[c + '_' + q] for c, k in self.k.items())


def coefficients(at, sm, q, run, scale, cp=False):
    """all coefficients of quark and dipole operators, with weak phases conjugated for cp"""
    cc = conj if cp else lambda x: x
    new, c = (lambda k: at(k) if k in BASIS else 0.), {}
    for i in range(1, 7):
        for p in ('', 'p'):
            c['C%d%s_%s' % (i, p, q)] = cc((sm[i - 1] if not p else 0.) + new('C%d%s_%s' % (i, p, q)))
    eps = run('ms', scale) / run('mb', scale) if q == 'bs' else 0.
    for n, w, i in ((7, YI, 6), (8, ZI, 7)):
        s = sm[i] - sum(w[str(j)] * sm[j - 1] for j in range(3, 7))
        for p in ('', 'p'):
            c['C%deff%s_%s' % (n, p, q)] = cc((eps * s if p else s) + new('C%d%s_%s' % (n, p, q))) + sum(w[str(j)] * c['C%d%s_%s' % (j, p, q)] for j in range(3, 7))
    return c


@harness(name='B->V gamma: amplitudes', max_paths=60, time=200)
def bv_amplitudes(ctx):
    B, M = ctx.choice('decay', sorted(TRANSITIONS))
    q = TRANSITIONS[B, M]
    bar = ctx.choice('CP conjugate', [False, True])
    par = dict(CENTRAL)
    scale = config['renormalization scale']['bvgamma']
    wc = WCs(ctx, only=['C7_bs', 'C8_bs', 'C7p_bs', 'C8p_bs'], b=1.)
    V, C = weak_phases(ctx)
    run, E, sm = Running(ctx), Elements(ctx, 0.), standard_model(ctx, 0.)
    T1 = ctx.real('T1', 0.2, 0.4)
    Nn, Nc = complex(0.7, 0.4), complex(0.5, -0.6)

    def prefactor(p, b, v):
        ctx.check('decay', (b, v) == (B, M))
        return Nc if p['gamma'] < 0 else Nn
    ctx.patch(bvgamma, 'prefactor', prefactor)
    # spectator scattering and subleading corrections: shifts of the coefficients of the two dipole operators
    d = {(n, p, b): ctx.complex('%s C7%s %s' % (n, p, 'bar' if b else ''), .5) for n in ('ss', 'sub') for p in ('', 'p') for b in (False, True)}
    N2 = {False: .4 * Nn, True: .4 * Nc}
    mB, mV = par['m_' + B], par['m_' + M]

    def helicity(n):
        def f(p, w, q2, cp_conjugate):
            ctx.check('arguments', w is wc and p['gamma'] == par['gamma'])
            lam = (mB ** 2 - mV ** 2 - q2) ** 2 - 4 * mV ** 2 * q2
            # currents of the dipole operators with form factors at the symmetry limit T1 sqrt(lambda) = T2 (mB^2-mV^2)
            f = N2[bool(cp_conjugate)] * 2j * run('mb', scale) / q2 * lam ** .5
            return {('pl', 'V'): f * d[n, 'p', bool(cp_conjugate)], ('mi', 'V'): -f * d[n, '', bool(cp_conjugate)], ('0', 'V'): 0, ('pl', 'A'): 0, ('mi', 'A'): 0, ('0', 'A'): 0}
        return f

    def ff(p, w, q2):
        ctx.check_eq('on-shell photon', q2, 0)
        return {'T1': T1}
    Stand(ctx, {FF[B, M] + ' form factor': ff, '%s->%sll spectator scattering' % (B, M): helicity('ss'), '%s->%sll subleading effects at low q2' % (B, M): helicity('sub')})
    ctx.patch(bvll_amplitudes, 'prefactor', lambda q2, p, b, v: N2[p['gamma'] < 0] if (b, v) == (B, M) else 0.)
    c = coefficients(wc.at(scale), sm, q, run, scale, bar)
    got = (bvgamma.amps_bar if bar else bvgamma.amps)(wc, par, B, M)
    N = Nc if bar else Nn
    left = N * (c['C7eff_bs'] + E(c, q)) * T1
    right = N * c['C7effp_bs'] * T1
    for n in ('ss', 'sub'):
        left = left + N * d[n, '', bar]
        right = right + N * d[n, 'p', bar]
    # the CP conjugate decay has the opposite photon helicity
    a, b = ('R', 'L') if bar else ('L', 'R')
    ctx.check_eq('left-handed', got[a], left, atol=1e-9)
    ctx.check_eq('right-handed', got[b], right, atol=1e-9)


BV = {'BR(B+->K*gamma)': ('B+', 'K*+', 'br'), 'ACP(B+->K*gamma)': ('B+', 'K*+', 'acp'), 'BR(B0->K*gamma)': ('B0', 'K*0', 'br'), 'ACP(B0->K*gamma)': ('B0', 'K*0', 'acp'),
      'ACP(Bs->phigamma)': ('Bs', 'phi', 'acp'), 'BR(Bs->phigamma)': ('Bs', 'phi', 'brt'), 'ADeltaGamma(Bs->phigamma)': ('Bs', 'phi', 'adg'), 'S_K*gamma': ('B0', 'K*0', 's'), 'S_phigamma': ('Bs', 'phi', 's')}


@harness(name='B->V gamma: observables', max_paths=60)
def bv_observables(ctx):
    o = ctx.choice('observable', sorted(BV) + ['BR(B0->K*gamma)/BR(Bs->phigamma)'])
    par = Par(ctx, 0.05, free=['tau_B0', 'tau_B+', 'tau_Bs', 'DeltaGamma/Gamma_Bs', 'DeltaGamma/Gamma_B0'])
    amp = {}

    def a(B, V, bar):
        for X in 'LR':
            k = '%s %s %s' % (B, X, 'bar' if bar else '')
            if (B, X, bar) not in amp:
                amp[B, X, bar] = npc(ctx.complex(k, 1.))
        return {X: amp[B, X, bar] for X in 'LR'}
    ctx.patch(bvgamma, 'amps', lambda w, p, B, V: a(B, V, False))
    ctx.patch(bvgamma, 'amps_bar', lambda w, p, B, V: a(B, V, True))
    qp = npc(ctx.complex('q/p', 1.))
    ctx.patch(mixing, 'q_over_p', lambda w, p, B: qp)
    wc = flavio.WilsonCoefficients()
    # amplitudes away from zero
    for B in ('B0', 'B+', 'Bs'):
        if B in o or o == 'S_K*gamma' and B == 'B0' or o == 'S_phigamma' and B == 'Bs':
            ctx.assume(a(B, '', False)['L'].real > 0.2)
    got = predict(o, wc, par)

    def parts(B):
        n, b = a(B, '', False), a(B, '', True)
        G, Gb = [sum(abs2(x[X]) for X in 'LR') for x in (n, b)]
        mix = -qp * sum(n[X] * conj(b[X]) for X in 'LR')
        return G, Gb, mix.imag, mix.real

    def value(B, kind):
        """numerator and denominator"""
        G, Gb, s, c = parts(B)
        tau = par['tau_' + B]
        if kind == 'br':
            return tau * (G + Gb), 2.
        if kind == 'acp':
            return G - Gb, G + Gb
        if kind == 's':
            return 2 * s, G + Gb
        if kind == 'adg':
            return 2 * c, G + Gb
        # time integrated untagged rate of exp(-t)(cosh yt + A sinh(-yt))
        y = par['DeltaGamma/Gamma_Bs'] / 2
        return tau * (G + Gb - 2 * c * y), 2 * (1 - y * y)
    if o in BV:
        B, M, kind = BV[o]
        n, d = value(B, kind)
        ctx.check_eq('value', got * d, n, scale=1e12 if kind in ('br', 'brt') else 1.)
    else:
        (n1, d1), (n2, d2) = value('B0', 'br'), value('Bs', 'brt')
        ctx.assume(n2 > 1e11)
        ctx.check_eq('value', got * n2 * d1, n1 * d2, scale=1e12)


# B -> X gamma

@harness(name='B->X gamma: coefficients')
def bx_coefficients(ctx):
    re, re2, im = bxgamma.ka1_r, bxgamma.ka2_r, bxgamma.ka1_i

    def equal(n, a, b, tol=0.):
        ctx.check(n, bool(abs(a - b) <= tol * max(abs(a), abs(b))))
    for i in range(8):
        for j in range(8):
            equal('symmetric', re[i, j], re[j, i])
            equal('symmetric', re2[i, j], re2[j, i])
            equal('antisymmetric', im[i, j], -im[j, i])
        if i > 1:
            equal('colour', re[0, i], -re[1, i] / 6, 1e-4)
            equal('colour', im[0, i], -im[1, i] / 6, 1e-6)
    equal('colour', re[0, 0], re[1, 1] / 36, 1e-4)
    equal('colour', re[0, 1], -re[1, 1] / 6, 1e-4)
    for j in (1, 2, 7):
        equal('colour', re[3, j], -re[2, j] / 6, 1e-4)
    # absolute values of absorptive parts of the matrix elements relative to that of the dipole operator
    for i, r in ABSORPTIVE.items():
        equal('absorptive part', abs(im[i, 6]), r, 1e-6)


def bx_setup(ctx, q, only=('C7', 'C7p', 'C8', 'C8p')):
    scale = config['renormalization scale']['bxgamma']
    wc = WCs(ctx, only=['%s_%s' % (c, q) for c in only], b=1.)
    V, run, sm = patch_ckm(ctx), Running(ctx), standard_model(ctx, 0.)
    return wc, V, run, sm, scale


ORDER = ['C1', 'C2', 'C3', 'C4', 'C5', 'C6', 'C7eff', 'C8eff']


def form(c, q, k1, k2, at):
    """leading and corrections, both chiralities, from real parts"""
    tot = abs2(c['C7eff_' + q]) + abs2(c['C7effp_' + q])
    for p in ('', 'p'):
        z = [c['%s%s_%s' % (n, p, q)] for n in ORDER]
        for i in range(8):
            for j in range(i, 8):
                w = (at * float(k1[i, j]) + at * at * float(k2[i, j])) * (1 if i == j else 2)
                tot = tot + w * (z[i] * conj(z[j])).real
    return tot


ABSORPTIVE = {2: 28 * pi / 81, 4: 448 * pi / 81, 7: 8 * pi / 9}


def asymmetry(c, q, im, at):
    """half of the CP odd rate: - 2 alpha_s/(4 pi) Im(r_i) Im(C_i C_7*) with matrix elements C_7 + alpha_s/(4 pi) r_i C_i; other interferences have the same orientation"""
    tot = 0
    for p in ('', 'p'):
        z = [c['%s%s_%s' % (n, p, q)] for n in ORDER]
        for i in range(8):
            for j in range(8):
                if i == j:
                    continue
                r = ABSORPTIVE.get(i) if j == 6 else -ABSORPTIVE[j] if i == 6 and j in ABSORPTIVE else None
                r = float(im[i, j]) if r is None else r
                tot = tot - at * r * (z[i] * conj(z[j])).imag
    return tot


def bx_case(ctx, q, wc, V, run, sm, scale):
    c = coefficients(wc.at(scale), sm, q, run, scale)
    at = run('alpha_s', scale, 5) / (4 * pi)
    xu, xt = V.xi('u', q), V.xi('t', q)
    return c, at, xu, xt


@harness(name='B->X gamma: rate', max_paths=20, time=200)
def bx_rate(ctx):
    q = ctx.choice('quark', ['s', 'd'])
    b = 'b' + q
    par = Par(ctx, 0.05, free=['C_BXlnu', 'BR(B->Xcenu)_exp'])
    d = ctx.real('delta', -1., 1.)
    par['delta_BX%sgamma' % q] = d
    wc, V, run, sm, scale = bx_setup(ctx, b)
    c, at, xu, xt = bx_case(ctx, b, wc, V, run, sm, scale)
    ctx.assume(abs2(xt) > 0.01)
    ctx.assume(abs2(V.q('cb')) > 0.01)
    got = predict('BR(B->X%sgamma)' % q, wc, par)
    P = form(c, b, bxgamma.ka1_r, bxgamma.ka2_r, at)
    xx = (xu * conj(xt)).real
    ref = par['BR(B->Xcenu)_exp'] * 6 / 137.035999139 / pi / par['C_BXlnu'] * (abs2(xt) * (P + 0.00381745 + 0.1249 * d) - 0.0296854 * xx + 0.123411 * abs2(xu))
    ctx.check_eq('branching ratio', got * abs2(V.q('cb')), ref, scale=1e-2, tol=1e-9)


@harness(name='B->X gamma: CP asymmetry', max_paths=20, time=300)
def bx_asymmetry(ctx):
    q = ctx.choice('quark', ['s', 'd'])
    b = 'b' + q
    par = dict(CENTRAL)
    wc, V, run, sm, scale = bx_setup(ctx, b)
    c, at, xu, xt = bx_case(ctx, b, wc, V, run, sm, scale)
    ctx.assume(abs2(xt) > 0.01)
    tot = wcs.wctot_dict(wc, b + 'ee', scale, par, nf_out=5)
    got = bxgamma.PE0_ACP_BXgamma(tot, par, q, 1.6)
    ref = asymmetry(c, b, bxgamma.ka1_i, at)
    ctx.check_eq('asymmetry', got * abs2(xt), ref * abs2(xt) + 0.0596211 * (xu * conj(xt)).imag, scale=1., tol=1e-7)
    got = bxgamma.PE0_BR_BXgamma(tot, par, q, 1.6)
    P = form(c, b, bxgamma.ka1_r, bxgamma.ka2_r, at)
    ctx.check_eq('rate', got * abs2(xt), abs2(xt) * P - 0.0296854 * (xu * conj(xt)).real + 0.123411 * abs2(xu), scale=1., tol=1e-9)
    for f in (bxgamma.PE0_ACP_BXgamma, bxgamma.PE0_BR_BXgamma):
        ctx.raises('other photon energies', ValueError, lambda: f(tot, par, q, 1.7))


@harness(name='B->X gamma: untagged flavour', max_paths=20)
def bx_sum(ctx):
    par = dict(CENTRAL)
    V = patch_ckm(ctx)
    P = {q: ctx.real('P' + q, 0.3, 0.5) for q in 'sd'}
    A = {q: ctx.real('A' + q, -0.1, 0.1) for q in 'sd'}
    wc = flavio.WilsonCoefficients()

    def tot(w, sector, scale, par, nf_out):
        ctx.check('sector', w is wc and nf_out == 5 and scale == config['renormalization scale']['bxgamma'])
        return sector

    def f(table):
        def g(c, par, q, E0):
            ctx.check('arguments', c == 'b%see' % q and E0 == 1.6)
            return table[q]
        return g
    ctx.patch(wcs, 'wctot_dict', tot)
    ctx.patch(bxgamma, 'PE0_BR_BXgamma', f(P))
    ctx.patch(bxgamma, 'PE0_ACP_BXgamma', f(A))
    ctx.assume(abs2(V.xi('t', 'bs')) > 0.01)
    x = {q: abs2(V.xi('t', 'b' + q)) for q in 'sd'}
    got = predict('ACP(B->Xgamma)', wc, par)
    ctx.check_eq('asymmetry', got * (x['s'] * P['s'] + x['d'] * P['d']), x['s'] * A['s'] + x['d'] * A['d'], scale=1.)


# B -> l l gamma

def spinors(c, t):
    """in the rest frame of the leptons with energies c/2 and velocity (1-t^2)/(1+t^2) along the z axis, up to a common factor"""
    u = [[1 + t, 0, 1 - t, 0], [0, 1 + t, 0, t - 1]]
    v = [[t - 1, 0, 1 + t, 0], [0, 1 - t, 0, 1 + t]]
    return u, v, c / (2 * (1 + t * t))


def levi(i, j, k):
    return (i - j) * (j - k) * (k - i) / 2


def squared(c, t, cs, sn, K):
    """sum over spins of the squared amplitude in units of the mass of the meson; photon direction (sn, 0, cs)"""
    (us, vs, n2), s = spinors(c, t), c * c
    b, m = (1 - t * t) / (1 + t * t), c * t / (1 + t * t)
    w = (1 - s) / (2 * c)
    n = [sn, 0, cs]
    k = [w, w * sn, 0, w * cs]
    p1, p2 = [c / 2, 0, 0, b * c / 2], [c / 2, 0, 0, -b * c / 2]
    p1k, p2k = w * c / 2 * (1 - b * cs), w * c / 2 * (1 + b * cs)
    pk = w * c
    # emission from the leptons of p1 (negative) and p2
    slk = D.slash(k)
    total = 0
    for e in ([0, 0, 1, 0], [0, cs, 0, -sn]):
        # hadronic tensors contracted with the polarization: V^mu = eps^{mu al xi eta} e_al p_xi k_eta (eps^{0123} = -1), A^mu = i (p.k e^mu - k^mu p.e)
        # only spatial mu and al with p = k + (c, 0): eps^{i j 0 l} e_j(lower) c k_l(lower)
        Vm = [0] * 4
        for i in range(3):
            x = sum(levi(i, j, l) * e[1 + j] * n[l] for j in range(3) for l in range(3) if j != l)
            # eps^{ij0l} = eps^{0ijl} = -levi; lowering two spatial indices gives no sign
            Vm[1 + i] = -x * c * w
        Am = [1j * pk * e[i] for i in range(4)]  # p.e = 0
        h9 = [(K['C9'] * K['FV'] + K['TV']) * Vm[i] - (K['C9'] * K['FA'] + K['TA']) * Am[i] for i in range(4)]
        h10 = [K['C10'] * (K['FV'] * Vm[i] - K['FA'] * Am[i]) for i in range(4)]
        sle = D.slash(e)
        b1 = D.mul(sle, D.add(D.slash(p1), slk, D.scale(m, D.ONE)), D.G5)
        b2 = D.mul(D.G5, D.add(D.slash(p2), slk, D.scale(-m, D.ONE)), sle)
        br = D.add(D.scale(1 / (2 * p1k), b1), D.scale(-1 / (2 * p2k), b2))
        f = -1j * K['fB'] * 2 * m
        for u in us:
            ub = [D.bra(u)]
            for v in vs:
                vv = [[x] for x in v]
                amp = f * K['C10'] * D.mul(ub, br, vv)[0][0]
                for i in range(1, 4):
                    a9 = D.mul(ub, D.G[i], vv)[0][0]
                    a10 = D.mul(ub, D.G[i], D.G5, vv)[0][0]
                    amp = amp - h9[i] * a9 - h10[i] * a10
                total = total + abs2(amp)
    return total * n2 * n2


def all_couplings(ctx):
    K = {'FV': ctx.real('FV', -1., 1.), 'FA': ctx.real('FA', -1., 1.), 'fB': ctx.real('fB', 0.03, 0.06)}
    for n in ('C9', 'C10', 'TV', 'TA'):
        K[n] = ctx.complex(n, 1.)
    return K


def rate(K, c, t, ath):
    """1/(width units) d Gamma/d s from the squared amplitude"""
    s, b, m = c * c, (1 - t * t) / (1 + t * t), c * t / (1 + t * t)
    zero = dict(K, fB=0.)
    soft = dict(K, FV=0., FA=0., TV=0., TA=0.)
    even = lambda x, KK: (squared(c, t, *x, KK) + squared(c, t, -x[0], x[1], KK)) / 2
    P0, P1, Pm = (0., 1.), (1., 0.), (.6, .8)
    # structure dependent: polynomial of second order
    a = even(P0, zero)
    structure = 2 * a + 2 / 3. * (even(P1, zero) - a)
    # both: polynomial of second and fourth order over (1-b^2 x^2)^n
    i1, i2 = 2 * ath / b, 1 / (1 - b * b) + ath / b
    full = lambda x: even(x, K) - even(x, zero) - even(x, soft)
    a0, a1 = full(P0), full(P1) * (1 - b * b)
    interference = a0 * i1 + (a1 - a0) * (i1 - 2) / (b * b)
    y0, y1 = even(P0, soft), even(P1, soft) * (1 - b * b) ** 2
    ym = even(Pm, soft) * (1 - b * b * .36) ** 2
    # y0 + A x^2 + B x^4
    A = ((ym - y0) - .36 ** 2 * (y1 - y0)) / (.36 - .36 ** 2)
    B = (y1 - y0) - A
    # x^2 = (1 - (1 - b^2x^2))/b^2
    b2 = b * b
    soft_rate = y0 * i2 + A * (i2 - i1) / b2 + B * (i2 - 2 * i1 + 2) / (b2 * b2)
    unit = 1 / (2 * pi) / 2 * b * (1 - s) / (256 * pi ** 3)
    return unit * structure, unit * interference, unit * soft_rate


@harness(name='B->l l gamma: squared amplitude', max_paths=20, time=300)
def ll_amplitude(ctx):
    B = ctx.choice('B', ['Bs', 'B0'])
    lep = ctx.choice('lepton', ['mu'])
    c, t = ctx.real('sqrt(s)', 0.3, 0.9), ctx.real('t', 0.05, 0.5)
    K = all_couplings(ctx)
    b = (1 - t * t) / (1 + t * t)
    ath = ctx.real('atanh of the velocity', 0.3, 4.)
    s = c * c
    par = dict(CENTRAL)
    mB = 5.3
    par['m_' + B] = mB
    par['m_' + lep] = c * t / (1 + t * t) * mB
    par['f_' + B] = K['fB'] * mB
    q = {'Bs': 'bs', 'B0': 'bd'}[B]
    run = Running(ctx)
    mb = run('mb', config['renormalization scale']['bllgamma'], 5)

    def arctanh(x):
        ctx.check_eq('velocity', x * x, b * b)
        return ath
    ctx.patch(bllgamma, 'atanh', arctanh)
    ctx.patch(bllgamma, 'prefactor', lambda *a: 1 / (2 ** 10 * pi ** 4))
    fv, fa = ctx.complex('fftv', 1.), ctx.complex('ffta', 1.)
    C7 = ctx.complex('C7', 1.)

    def getfft(x, p, b, f, f0, l, w):
        ctx.check('virtual photon', f is ff and f0 is ff0 and (b, l) == (B, lep) and w is wc and x is s)
        return fv, fa
    ctx.patch(bllgamma, 'getfft', getfft)
    # photon exchange
    K['TV'], K['TA'] = 2 * mb / mB / s * C7 * fv, 2 * mb / mB / s * C7 * fa
    wc = {'C9_%s%s%s' % (q, lep, lep): K['C9'], 'C10_%s%s%s' % (q, lep, lep): K['C10'], 'C7_' + q: C7}
    ff = {'v': K['FV'], 'a': K['FA'], 'tv': 0., 'ta': 0.}
    ff0 = {'v': 0.1, 'a': 0.2, 'tv': 0.3, 'ta': 0.4}
    got = [f(s, par, B, ff, ff0, lep, wc) for f in (bllgamma.dG1dsMN, bllgamma.dG12dsMN, bllgamma.dG2dsMN)]
    # an independent complex number in place of the product
    ref = rate(K, c, t, ath)
    for n, g, r in zip(('emission from quarks', 'interference', 'emission from leptons'), got, ref):
        ctx.check_eq(n, g, r, scale=1e-4)
    ctx.check_eq('sum', bllgamma.dGdsMN(s, par, B, ff, ff0, lep, wc), sum(got), scale=1e-4)


@harness(name='B->l l gamma: normalization', max_paths=20)
def ll_normalization(ctx):
    B = ctx.choice('B', ['Bs', 'B0'])
    par = Par(ctx, 0.05, free=['GF', 'm_' + B])
    V, run = patch_ckm(ctx), Running(ctx)
    a = run('alpha_e', config['renormalization scale']['bllgamma'])
    got = bllgamma.prefactor(ctx.real('s', 0.1, 0.9), par, B, {}, 'mu', None)
    # (4 GF/sqrt2 xi alpha/(4 pi)/2)^2 e^2 in units of 1/(2 pi) and of the mass
    q = {'Bs': 'bs', 'B0': 'bd'}[B]
    unit = (4 * par['GF'] / 2 ** .5 * a / (4 * pi) / 2) ** 2 * 4 * pi * a * (2 * pi) * par['m_' + B] ** 5
    ctx.check_eq('prefactor', got, unit * abs2(V.xi('t', q)) / (2 ** 10 * pi ** 4), scale=1e-20)


RESONANCES = {'Bs': {'phi': (-1 / 3., 'Bs->phi', -1.)}, 'B0': {'rho0': (0.5 ** .5, 'B->rho', 0.5 ** .5), 'omega': (0.5 ** .5 / 3, 'B->omega', -0.5 ** .5)}}


@harness(name='B->l l gamma: emission of the virtual photon', max_paths=20)
def ll_virtual(ctx):
    """form factors at both kinematic points and light vector mesons"""
    B = ctx.choice('B', ['Bs', 'B0'])
    q = {'Bs': 'bs', 'B0': 'bd'}[B]
    mB = CENTRAL['m_' + B]
    par = Par(ctx, 0.02, free=['f_phi', 'f_rho0', 'f_omega', 'tau_phi', 'tau_rho0', 'tau_omega'] + ['%s BSZ a0_T1' % x for x in ('Bs->phi', 'B->rho', 'B->omega')])
    s = ctx.real('s', 0.1, 0.9)
    ff, ff0 = [{k: ctx.real(k + n, 0.1, 0.5) for k in ('tv', 'ta')} for n in ('', ' at zero')]
    C7 = ctx.real('C7', -1., -0.1)
    Running(ctx)
    wc = {'C1_' + q: 0., 'C2_' + q: 0., 'C7_' + q: C7}
    got = bllgamma.getfft(s, par, B, ff, ff0, 'mu', wc)
    q2 = s * mB ** 2
    res = 0
    for M, (charge, name, g) in RESONANCES[B].items():
        m, w = par['m_' + M], 1 / par['tau_' + M]
        d, e = q2 - m * m, m * w
        res = res - 2 * charge * par['f_' + M] * g * par[name + ' BSZ a0_T1'] * q2 / m * (d - 1j * e) / (d * d + e * e)
    for n, g in zip(('tv', 'ta'), got):
        ctx.check_eq(n, g, ff[n] + ff0[n] + res, scale=1.)


@harness(name='B->l l gamma: branching ratios', max_paths=60)
def ll_branching(ctx):
    B, lep = ctx.choice('B', ['Bs', 'B0']), ctx.choice('lepton', ['e', 'mu'])
    q = {'Bs': 'bs', 'B0': 'bd'}[B]
    par = Par(ctx, 0.02, free=['tau_' + B, 'm_' + B, 'm_mu'], m_e=0.000511)
    wc = flavio.WilsonCoefficients()
    G, F = ctx.ufun('rate', 0.5, 1.), ctx.ufun('form factor', 0.5, 1.)
    w = [ctx.real('weight%d' % i, 0.5, 2.) for i in range(2)]

    def tot(o, sector, scale, p):
        ctx.check('coefficients', o is wc and sector == q + lep + lep and scale == config['renormalization scale']['bllgamma'])
        return 'coefficients'

    def ff(q2, p, b):
        ctx.check('meson', b == B)
        return q2

    def dG(s, p, b, f, f0, l, c):
        ctx.check('arguments', (b, l, c) == (B, lep, 'coefficients'))
        ctx.check_eq('soft form factor', f0, 0)
        return G(s, F(f))
    ctx.patch(bllgamma, 'wctot_dict', tot)
    ctx.patch(bllgamma, 'get_ff', ff)
    ctx.patch(bllgamma, 'dGdsMN', dG)
    ctx.patch(flavio.math.integrate, 'nintegrate', lambda f, a, b, epsrel=None: w[0] * f(a + (b - a) / 4) + w[1] * f(a + (b - a) * 3 / 4))
    mB = par['m_' + B]

    def jacobian(got, ref):
        """per unit of s is a known finding"""
        ctx.check_eq('rate', (got - ref) * (got * mB ** 2 - ref), 0, scale=1e24)
        ctx.check_eq('per unit of q2', got * mB ** 2, ref, scale=1e12)
    ref = lambda q2: par['tau_' + B] * G(q2 / mB ** 2, F(q2))
    if ctx.choice('binned', [False, True]):
        a, b = ctx.real('q2min', 2., 4.), ctx.real('q2max', 5., 6.)
        jacobian(predict('<dBR/dq2>(%s->%s%sgamma)' % (B, lep, lep), wc, par, a, b) * (b - a), w[0] * ref(a + (b - a) / 4) + w[1] * ref(a + (b - a) * 3 / 4))
    else:
        region = ctx.choice('region', ['below', 'inside', 'above'])
        lim = 4 * par['m_' + lep] ** 2
        f = lambda q2: predict('dBR/dq2(%s->%s%sgamma)' % (B, lep, lep), wc, par, q2)
        if region == 'inside':
            x = ctx.real('q2', 2., 7.)
            jacobian(f(x), ref(x))
        else:
            x = ctx.real('fraction', 0., 1.) * lim if region == 'below' else mB ** 2 * (1 + ctx.real('excess', 0.001, 1.))
            ctx.check_eq('outside', f(x), 0)


# B_c lifetime

@harness(name='B_c lifetime', max_paths=10)
def lifetime(ctx):
    par = Par(ctx, 0.05, free=['tau_Bc', 'tau_Bc_SM'])
    sm = {l: ctx.real('SM %s' % l, 0., .01) for l in ('e', 'mu', 'tau')}
    new = {l: ctx.real('new %s' % l, 0.02, .1) for l in ('e', 'mu', 'tau')}
    wc = flavio.WilsonCoefficients()
    old = flavio.Observable.prediction_par

    def f(self, p, w):
        for l in sm:
            if self.name == 'BR(Bc->%snu)' % l:
                ctx.check('arguments', isinstance(w, flavio.WilsonCoefficients) and 'm_Bc' in p)
                return new[l] if w is wc else sm[l]
        return old(self, p, w)
    ctx.patch(flavio.Observable, 'prediction_par', f)
    got = old(flavio.Observable['tau_Bc'], par, wc)
    extra = sum(new[l] - sm[l] for l in sm)
    ctx.check_eq('widths', got * (par['tau_Bc'] + par['tau_Bc_SM'] * extra), par['tau_Bc'] * par['tau_Bc_SM'], scale=1e24)
