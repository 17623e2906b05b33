"""Inclusive semileptonic and dilepton decays of B mesons follow from the effective Hamiltonian."""
import math
import numpy as np
import flavio
import flavio.physics.bdecays.bxlnu as bxlnu
import flavio.physics.bdecays.bxll as bxll
import flavio.physics.bdecays.bxll_qed as qed
import flavio.physics.bdecays.matrixelements as me
import flavio.physics.bdecays.wilsoncoefficients as wcs
import flavio.math.functions
import flavio.math.integrate
from flavio.config import config
from engine.run import harness
from engine.nf import NF
from engine.explore import nf_difference
from engine.sym import term
from engine.num import sqrt, log, pi, abs2, conj
from engine.phys import Par, WCs, Running, Scales, patch_ckm, predict, CENTRAL
from checks.F10 import standard_model, effective, npc, BASIS
from checks.F12 import coefficients

EXPLANATION = (
    'The total rate of B -> Xc l nu is executed with symbolic complex Wilson coefficients, masses and hadronic parameters and compared with the integrated squared matrix element; its phase space integrals are compared with closed forms for symbolic masses of charm quark and lepton. '
    'For B -> X l l the rate and the forward-backward asymmetry at leading order, bremsstrahlung, power corrections, and the assembly of the coefficients and of logarithmically enhanced QED corrections are executed for symbolic momentum transfer, masses and coefficients and compared with the squared matrix element of massless final quarks, with published functions and with collinear radiation from the leptons. '
    'Averages over lepton flavours, ratios and bins are compared with their definitions for arbitrary rates.')
BOUNDS = 'masses and hadronic parameters within 2 to 10%, Wilson coefficients of new physics up to 2, momentum transfer from 2 to 95% of the maximum; two nodes for integrals over bins'
ASSUMPTIONS = ['floats treated as reals', 'perturbative corrections to B -> Xc l nu and fitted QED corrections of two-loop type are tables: only their relations are decided', 'logarithms and dilogarithms uninterpreted functions obeying functional relations of logarithms']


# B -> Xc l nu

def same(a, b):
    a, b = term(a), term(b)
    return a is not None and b is not None and nf_difference(NF(), a, b)[0] == 'zero'


class Masses:
    """masses with rational thresholds: xc = p q, xl = (1-p)(1-q), lambda = (p-q)^2"""

    def __init__(self, ctx):
        self.p, self.r = ctx.real('p', .75, .97), ctx.real('r', .2, .3)
        p, r = self.p, self.r
        self.q = q = r * r * p
        self.xc, self.xl, self.l = p * q, (1 - p) * (1 - q), p - q
        if not ctx.symbolic:
            return
        one = log(1 - p * r)
        lp, lq, l1p, l1q = log(p), log(p) + 2 * log(r), log(1 - p), log(1 - q)
        table = [(p * q, lp + lq), (self.xl, l1p + l1q), (1 - p * r, one), (p * r * (1 - p * r) ** 2, log(p) + log(r) + 2 * one),
                 (2 * q, math.log(2) + lq), (2 * p * (1 - q) ** 2, math.log(2) + lp + 2 * l1q)]
        old = bxlnu.log, bxlnu.sqrt

        def ln(x):
            if isinstance(x, (int, float)):
                return math.log(x)
            for a, b in table:
                if same(x, a):
                    return b
            return old[0](x)
        roots = [((p - q) ** 2, p - q), (p * q, p * r)]

        def root(x):
            for a, b in roots:
                if same(x, a):
                    return b
            return old[1](x)
        power = type(p).__pow__
        cube = (p * r) ** 3
        ctx.patch(type(p), '__pow__', lambda x, n, *a: cube if n == 1.5 and same(x, p * q) else power(x, n, *a))
        ctx.patch(bxlnu, 'log', ln)
        ctx.patch(bxlnu, 'sqrt', root)

    def vector(self):
        """int of the squared matrix element of (V-A) x (V-A)"""
        x, y, l = self.xc, self.xl, self.l
        return l * (1 - 7 * x - 7 * y - 7 * x ** 2 - 7 * y ** 2 + x ** 3 + y ** 3 + 12 * x * y - 7 * x ** 2 * y - 7 * x * y ** 2) \
            - 24 * x ** 2 * (1 - y ** 2) * log(self.r) + 12 * y ** 2 * (1 - x ** 2) * (log(1 - self.q) - log(1 - self.p))

    def mixed(self):
        """flip of the chirality of the charm quark, without the factor 4 mc/mb"""
        x, y, l = self.xc, self.xl, self.l
        return l * (1 + 10 * x + x ** 2 - 5 * y - 5 * x * y - 2 * y ** 2) + 12 * x * (1 + x - 2 * y + y ** 2) * log(self.r) \
            + 6 * y ** 2 * (1 - x) * (log(1 - self.q) - log(1 - self.p))

    def lepton(self):
        """flip of the chirality of the lepton, without the factor 2 ml/mb"""
        x, y, l = self.xc, self.xl, self.l
        return l * (1 + 10 * y + y ** 2 - 5 * x - 5 * x * y - 2 * x ** 2) - 6 * y * (1 + y - 2 * x + x ** 2) * (log(1 - self.q) - log(1 - self.p)) \
            - 12 * x ** 2 * (1 - y) * log(self.r)

    def both(self):
        """flip of both chiralities, without the factor 2 ml mc/mb^2"""
        x, y, l = self.xc, self.xl, self.l
        return l * (2 + 5 * x - x ** 2 + 5 * y - 10 * x * y - y ** 2) + 12 * x * ((1 - y) ** 2 + x * y) * log(self.r) \
            - 6 * y * ((1 - x) ** 2 + x * y) * (log(1 - self.q) - log(1 - self.p))


@harness(name='B->Xc l nu: phase space', max_paths=20, time=200)
def phase_space(ctx):
    ctx.uncache(bxlnu)
    m = Masses(ctx)
    x, y = m.xc, m.xl
    ctx.check_eq('vector', bxlnu.g(x, y), m.vector(), scale=1e-3)
    ctx.check_eq('chirality of the quark', bxlnu.gLR(x, y), 4 * m.p * m.r * m.mixed(), scale=1e-3)
    ctx.check_eq('chirality of the lepton', bxlnu.gVS(x, y), 2 * sqrt(y) * m.lepton(), scale=1e-3)
    ctx.check_eq('both chiralities', bxlnu.gVSp(x, y), 2 * m.p * m.r * sqrt(y) * m.both(), scale=1e-3)


@harness(name='B->Xc l nu: massless leptons', max_paths=20, time=100)
def massless(ctx):
    ctx.uncache(bxlnu)
    r = ctx.real('r', .2, .3)
    x = r * r
    ctx.check_eq('vector', bxlnu.g(x, 0), 1 - 8 * x + 8 * x ** 3 - x ** 4 - 24 * x ** 2 * log(r), scale=1e-3)
    ctx.check_eq('chirality of the quark', bxlnu.gLR(x, 0), 4 * r * (1 + 9 * x - 9 * x ** 2 - x ** 3 + 12 * x * (1 + x) * log(r)), scale=1e-3)
    ctx.check_eq('chirality of the lepton', bxlnu.gVS(x, 0), 0.)
    ctx.check_eq('both chiralities', bxlnu.gVSp(x, 0), 0.)
    ctx.check_eq('Darwin term', bxlnu.d(x), 16 * log(r) + (34 - 32 * x - 24 * x ** 2 + 32 * x ** 3 - 10 * x ** 4) / 3, scale=1e-3)


FACTORS = ('g', 'gLR', 'gVS', 'gVSp', 'pc1', 'pc2')


@harness(name='B->Xc l nu: width', max_paths=60, time=200)
def width(ctx):
    lep, nu = ctx.choice('flavours', [(l, n) for l in ('e', 'mu', 'tau') for n in ('e', 'mu', 'tau')])
    new = ctx.choice('new physics', [True, False])
    par = Par(ctx, .02, free=['GF', 'm_' + lep, 'mu_pi^2', 'mu_G^2', 'rho_LS^3', 'rho_D^3', 'tau_B0', 'tau_B+'])
    delta = par['delta_BXlnu'] = ctx.real('delta', -.1, .1)
    V, run = patch_ckm(ctx), Running(ctx, width=.02)
    scale = config['renormalization scale']['bxlnu']
    wc = WCs(ctx, only=None if new else (), b=1., nonzero=True)
    sm = ctx.real('SM', 1., 1.02)
    ctx.patch_name(wcs.get_CVLSM, lambda par, scale, nf: sm)
    mb, mc = run.other('get_mb_KS', 1.), run('mc', 3)
    xl, xc = par['m_' + lep] ** 2 / mb ** 2, mc ** 2 / mb ** 2
    F = {n: ctx.real(n, .1, 1.) for n in FACTORS}
    zero = ctx.real('g0', .3, .8)
    D = ctx.real('d', -20., -10.)
    ctx.patch(bxlnu, 'd', lambda x: D)

    def stand(n):
        def f(x, y):
            if n == 'g' and isinstance(y, int) and y == 0:
                return zero
            return F[n]
        return f
    for n in FACTORS:
        ctx.patch(bxlnu, n, stand(n))
    at = wc.at(scale)
    got = bxlnu._BR_BXclnu(par, wc, lep, nu)
    if lep != nu and not new:
        return ctx.check_eq('lepton flavour', got, 0.)
    C = {k: at('C%s_bc%snu%s' % (k, lep, nu)) for k in ('VL', 'VR', 'SL', 'SR', 'T')}
    if lep == nu:
        C['VL'] = C['VL'] + sm
    I = lambda a, b: (C[a] * conj(C[b])).real
    r = F['g'] * (I('VL', 'VL') + I('VR', 'VR') + (I('SL', 'SL') + I('SR', 'SR')) / 4 + 12 * I('T', 'T')) + F['gLR'] * (I('SR', 'SL') / 2 - I('VL', 'VR')) \
        + F['gVS'] * (I('VL', 'SR') + I('VR', 'SL') + 12 * I('VR', 'T')) + F['gVSp'] * (I('VL', 'SL') + I('VR', 'SR') - 12 * I('VL', 'T'))
    a = run('alpha_s', scale, 5) / pi
    spin = par['rho_LS^3'] + par['rho_D^3']
    q = 1 + a * F['pc1'] + a * a * F['pc2'] - par['mu_pi^2'] / (2 * mb ** 2) + (.5 - 2 * (1 - xc) ** 4 / zero) * (par['mu_G^2'] / mb ** 2 - spin / mb ** 3) \
        + D / zero * par['rho_D^3'] / mb ** 3 + a * (0.071943 * par['mu_pi^2'] - 0.114774 * par['mu_G^2'])
    tau = (par['tau_B0'] + par['tau_B+']) / 2
    ctx.check_eq('branching ratio', got, tau * par['GF'] ** 2 * mb ** 5 / (192 * pi ** 3) * abs2(V.q('cb')) * r * q * (1 + delta), scale=1., tol=1e-9)


@harness(name='B->Xc l nu: masses', max_paths=20)
def width_masses(ctx):
    """arguments of the phase space integrals"""
    par = Par(ctx, .02, free=['m_mu'])
    V, run = patch_ckm(ctx), Running(ctx, width=.02)
    mb, mc = run.other('get_mb_KS', 1.), run('mc', 3)
    scale = config['renormalization scale']['bxlnu']
    sm = {'VL': 1.}
    ctx.patch(bxlnu, 'get_wceff_fccc_std', lambda wc, par, qq, lep, nu, mq, mu, nf=5: dict(dict.fromkeys(('VR', 'SL', 'SR', 'T'), 0.), VL=1. if mu == scale and nf == 5 and qq == 'bc' and lep == nu == 'mu' else 0.))
    xl, xc = par['m_mu'] ** 2 / mb ** 2, mc ** 2 / mb ** 2
    seen = []

    def stand(n):
        def f(x, y):
            seen.append(n)
            ctx.check_eq('argument of %s' % n, x, xc if n[0] == 'g' else xc)
            if not (isinstance(y, int) and y == 0):
                ctx.check_eq('second argument of %s' % n, y, mb if n[:2] == 'pc' else xl)
            return .5
        return f
    for n in FACTORS:
        ctx.patch(bxlnu, n, stand(n))
    bxlnu._BR_BXclnu(par, object(), 'mu', 'mu')
    ctx.check('phase space', {'g', 'pc1', 'pc2'} <= set(seen))


@harness(name='B->Xc l nu: observables', max_paths=60)
def widths(ctx):
    B = {(l, n): ctx.real('B%s%s' % (l, n), .01, 1.) for l in ('e', 'mu', 'tau') for n in ('e', 'mu', 'tau')}
    wc, par = flavio.WilsonCoefficients(), dict(CENTRAL)
    ctx.patch(bxlnu, '_BR_BXclnu', lambda p, w, l, n: B[l, n] if w is wc and p == par else 0.)
    S = {l: sum(B[l, n] for n in ('e', 'mu', 'tau')) for l in ('e', 'mu', 'tau')}
    S['l'] = (S['e'] + S['mu']) / 2
    for l, s in S.items():
        ctx.check_eq('BR(%s)' % l, predict('BR(B->Xc%snu)' % l, wc, par), s)
    for a, b in (('mu', 'e'), ('tau', 'mu'), ('tau', 'l')):
        ctx.check_eq('R(%s/%s)' % (a, b), predict('R%s%s(B->Xclnu)' % (a, b), wc, par) * S[b], S[a])


# B -> X l l

def rate(s, m, a, c, tau, p=''):
    """squared amplitude integrated over the angle; c: coefficients, tau: corrections by bremsstrahlung"""
    C7, C9, C10, CS, CP = [c[k + p] for k in ('7', 'v', 'a', 's', 'p')]
    v2, x = 1 - 4 * m * m / s, m * m / s
    V = abs2(C9) * (1 + 2 * s + 2 * x * (1 - s)) * (1 + a / pi * tau['99']) + 6 * m * m * abs2(C9)
    A = abs2(C10) * (1 + 2 * s + 2 * x * (1 - s)) * (1 + a / pi * tau['99']) - 6 * m * m * abs2(C10)
    D = 4 * abs2(C7) * (s + 2) / s * (1 + 2 * x) * (1 + a / pi * tau['77'])
    I = 12 * (C7 * conj(C9)).real * (1 + 2 * x) * (1 + a / pi * tau['79'])
    S = 1.5 * s * (abs2(CS) * v2 + abs2(CP)) + 6 * m * (CP * conj(C10)).real
    return (1 - s) ** 2 * sqrt(v2) * (V + A + D + I + S)


def brems(ctx):
    tau = {n: ctx.real('tau' + n, -3., 3.) for n in ('77', '99', '79', '710', '910')}
    for n in tau:
        ctx.patch(bxll, 'tau' + n, lambda s, n=n: tau[n])
    return tau


def amplitudes(ctx):
    return {k + p: npc(ctx.complex('C' + k + p, 1.)) for k in ('7', 'v', 'a', 's', 'p') for p in ('', 'p')}


@harness(name='B->X l l: leading order rate', max_paths=20)
def ll_rate(ctx):
    r, t = ctx.real('r', .3, .95), ctx.real('t', .01, .9)
    s, m = r * r, r * t / (1 + t * t)
    a = ctx.real('alpha_s', .1, .3)
    tau, c = brems(ctx), amplitudes(ctx)
    got = bxll.f_ll(s, m, a, c['7'], c['v'], c['a'], c['s'], c['p'])
    ctx.check_eq('rate', got, rate(s, m, a, c, tau), scale=1.)


@harness(name='B->X l l: leading order asymmetry', max_paths=20)
def ll_asymmetry(ctx):
    s, a = ctx.real('s', .05, .95), ctx.real('alpha_s', .1, .3)
    tau, c = brems(ctx), amplitudes(ctx)
    got = bxll.f_ll_ha(s, 0.01, a, c)
    ref = 0
    for p, sg in (('', 1), ('p', -1)):
        ref = ref - sg * 4 * (1 - s) ** 2 * (s * (c['v' + p] * conj(c['a' + p])).real * (1 + a / pi * tau['910']) + 2 * (c['7' + p] * conj(c['a' + p])).real * (1 + a / pi * tau['710']))
    ctx.check_eq('asymmetry', got, ref, scale=1.)


@harness(name='B->X l l: bremsstrahlung', max_paths=20, time=100)
def bremsstrahlung(ctx):
    r = ctx.real('r', .3, .95)
    s, u = r * r, 1 - r * r
    f = ctx.ufun('li2', 0., 1.7)
    ctx.patch_name(flavio.math.functions.li2, lambda x: f(x))
    ls, l1 = 2 * log(r), log(1 - s)
    mu, mb = ctx.real('mu', 2., 6.), ctx.real('mb', 4.5, 5.)
    sigma = -4 / 3. * f(s) - 2 / 3. * ls * l1 - 2 / 9. * pi ** 2 - l1 - 2 / 9. * u * l1
    ctx.check_eq('vertex of the current', bxll.sigma9(s), sigma + 1.5, scale=1.)
    ctx.check_eq('vertex of the dipole', bxll.sigma7(s, mu, mb), sigma + 1 / 6. - 8 / 3. * (log(mu) - log(mb)), scale=1.)
    ctx.check_eq('tau 77', bxll.tau77(s) * u ** 2 * 9 * (2 + s), -4 * u ** 4 * l1 - 12 * s * (2 - 2 * s - s * s) * ls - 2 * u * (11 - 7 * s - 10 * s * s), scale=1.)
    ctx.check_eq('tau 99', bxll.tau99(s) * u ** 2 * 9 * (1 + 2 * s), -8 * u ** 4 * l1 - 12 * s * (1 + s) * (1 - 2 * s) * ls - 12 * u * (1 - 3 * s * s), scale=1.)
    ctx.check_eq('tau 79', bxll.tau79(s) * u ** 2 * 9 * s, -4 * u ** 4 * l1 - 4 * s * s * (3 - 2 * s) * ls - 2 * s * u * (5 - 3 * s), scale=1.)
    # both functions of the asymmetry are finite for s -> 1: poles cancel between the terms, with Li2(1) = pi^2/6
    lr = log(1 - r) - l1
    f7 = 24 * (1 + 13 * s - 4 * s * s) * f(r) + 12 * (1 - 17 * s + 6 * s * s) * f(s) + 6 * s * (6 - 7 * s) * ls + 24 * u * u * ls * l1 \
        - 12 * u * (13 - 3 * s) * lr + 39 - 2 * pi ** 2 + (252 - 26 * pi ** 2) * s + (21 + 8 * pi ** 2) * s * s - 180 * r - 132 * r ** 3
    f9 = 48 * s * (5 - 2 * s) * f(r) + 24 * (1 - 7 * s + 3 * s * s) * f(s) + 6 * s * (6 - 7 * s) * ls + 24 * u * u * ls * l1 \
        - 24 * u * (5 - 2 * s) * lr + 21 + 156 * s - 20 * pi ** 2 * s + (8 * pi ** 2 - 9) * s * s - 120 * r - 48 * r ** 3
    for n, F, p in (('710', f7, u * (3 - 4 * s) / 9), ('910', f9, u * (6 - 4 * s) / 9)):
        ref = -2.5 * u * u * s + u * s / 3 - s * s * (6 - 7 * s) * ls / 3 - p * u * u * l1 + F * s / 18
        ctx.check_eq('tau ' + n, getattr(bxll, 'tau' + n)(s) * u * u * s, ref, scale=1.)


def wilson(ctx, q, lep):
    """complex coefficients without matrix elements"""
    names = ['C%d_b%s' % (i, q) for i in range(1, 7)] + ['C7eff_b' + q, 'C8eff_b' + q] + ['C%d_b%s%s' % (i, q, 2 * lep) for i in (9, 10)]
    z = {n: ctx.complex(n.split('_')[0], 1.) for n in names}
    return {n: npc(v) for n, v in z.items()}, [None] + [z[n] for n in names]


@harness(name='B->X l l: power corrections', max_paths=20)
def power_corrections(ctx):
    q, lep = ctx.choice('final state', [(q, l) for q in 'sd' for l in ('e', 'mu', 'tau')])
    s, mb = ctx.real('s', .05, .95), ctx.real('mb', 4.5, 5.)
    l1, l2 = ctx.real('lambda_1', -.5, -.1), ctx.real('lambda_2', .05, .2)
    wc, C = wilson(ctx, q, lep)
    f = lambda I: bxll.Phill_pc_mb2(I, s, l1, l2, mb, wc, q, lep)
    I = lambda i, j: (C[i] * conj(C[j])).real
    cur = I(9, 9)
    u2 = (1 - s) ** 2
    # kinetic energy: half of the leading order rate
    kin = 2 * u2 * (2 + s) / s * I(7, 7) + 6 * u2 * I(7, 9) + u2 * (1 + 2 * s) / 2 * cur
    mag = -6 * (6 + 3 * s - 5 * s ** 3) / s * I(7, 7) - 6 * (5 + 6 * s - 7 * s * s) * I(7, 9) + 1.5 * (1 - 15 * s * s + 10 * s ** 3) * cur
    axial = 'C10_b%s%s' % (q, 2 * lep)
    c10, tot = wc[axial], f('L') + f('T')
    wc[axial] = 0.
    without = f('L') + f('T')
    wc[axial] = c10
    ctx.check_eq('rate', without, (l1 * kin + l2 * mag) / mb ** 2, scale=1e-2)
    # axial and vector current of massless leptons contribute equally
    kin, mag = u2 * (1 + 2 * s) / 2, 1.5 * (1 - 15 * s * s + 10 * s ** 3)
    ctx.check_eq('rate from the axial current', tot - without, I(10, 10) * (l1 * kin + l2 * mag) / mb ** 2, scale=1e-2)
    kin = -2 / 3. * (3 + 2 * s + 3 * s * s) * (s * I(9, 10) + 2 * I(7, 10))
    mag = 2 * s * (9 + 14 * s - 15 * s * s) * I(9, 10) + 4 * (7 + 10 * s - 9 * s * s) * I(7, 10)
    ctx.check_eq('asymmetry', f('A'), (l1 * kin + l2 * mag) / mb ** 2, scale=1e-2)
    ctx.raises('others', ValueError, lambda: f('X'))


SIGMA = {'T': lambda s: (8 / s, 8., 2 * s), 'L': lambda s: (4., 4., 1.), 'BR': lambda s: (4 + 8 / s, 12., 1 + 2 * s)}


@harness(name='B->X l l: QED corrections', max_paths=20)
def qed_corrections(ctx):
    q, lep = ctx.choice('final state', [('s', 'mu'), ('d', 'e')])
    s, mb, ml = ctx.real('s', .05, .95), ctx.real('mb', 4.5, 5.), ctx.real('ml', .1, .2)
    a_s, a_e, mc = ctx.real('alpha_s', .1, .3), ctx.real('alpha_e', .007, .009), ctx.real('mc', 1.2, 1.6)
    wc, C = wilson(ctx, q, lep)
    real = {(2, 2), (7, 7), (7, 9), (9, 9), (7, 10), (9, 10)}
    w = {}

    want = [s, mb, ml, config['renormalization scale']['bxll'], mc]

    def wem(I, i, j, sh, mb, ml, scale, mc):
        ctx.check_eq('arguments', [sh, mb, ml, scale, mc], want)
        if (I, i, j) not in w:
            n = 'w%s%d%d' % (I, i, j)
            w[I, i, j] = ctx.real(n, -5., 5.) if (i, j) in real else npc(ctx.complex(n, 5.))
        return w[I, i, j]
    ctx.patch(bxll, 'wem', wem)
    f = lambda I: bxll.Phill_logqed(I, s, mb, ml, a_s, a_e, wc, q, lep, mc)
    # four-quark operators contribute with one charm loop: C_F C1 + C2
    X = 4 / 3. * C[1] + C[2]
    I = lambda x, y: (x * conj(y)).real
    def rate(k, c1, c7):
        s77, s79, s99 = SIGMA[k](s)
        W = lambda i, j: w[k, i, j]
        X = 4 / 3. * c1 + C[2]
        return 2 * a_e / pi * (1 - s) ** 2 * (
            s77 * W(7, 7) * abs2(c7) + s79 * W(7, 9) * I(c7, C[9]) + s99 * W(9, 9) * (abs2(C[9]) + abs2(C[10]))
            + s79 * I(X * W(2, 7), c7) + s99 * I(X * W(2, 9), C[9]) + s99 * W(2, 2) * abs2(X))
    c1, c7 = 'C1_b' + q, 'C7eff_b' + q
    for k in ('T', 'L', 'BR'):
        one = wc[c1]
        got = f(k)
        wc[c1] = 0.
        ctx.check_eq('rate without C1 ' + k, f(k), rate(k, 0., C[7]), scale=1e-2)
        seven, wc[c1], wc[c7] = wc[c7], one, 0.
        ctx.check_eq('rate without C7 ' + k, f(k), rate(k, C[1], 0.), scale=1e-2)
        wc[c7] = seven
        ctx.check_eq('interference of C1 and C7', got, rate(k, C[1], C[7]), scale=1e-2)
    got = f('A')
    W = lambda i, j: w['A', i, j]
    ref = -8 * W(7, 10) * I(C[7], C[10]) - 4 * s * (W(9, 10) * I(C[9], C[10]) + I(X * W(2, 10), C[10]))
    ctx.check_eq('asymmetry', got, 2 * a_e / pi * (1 - s) ** 2 * ref, scale=1e-2)
    ctx.raises('others', ValueError, lambda: f('X'))


def collinear(s, u, ls, l1):
    """collinear radiation from both leptons, int dz/z P(z) sigma(s/z) / (2 sigma(s)) with the splitting function P"""
    d99 = 6 * u * u * (1 + 2 * s)
    return {(7, 7): s / (2 * u * (2 + s)) + l1 + s * (3 - 2 * s * s) * ls / (2 * u * u * (2 + s)),
            (7, 9): -1 / (2 * u) + l1 - (1 - 2 * s + 2 * s * s) * ls / (2 * u * u),
            (9, 9): -(1 + 4 * s - 8 * s * s) / (6 * u * (1 + 2 * s)) + l1 - (1 - 6 * s * s + 4 * s ** 3) * ls / (2 * u * u * (1 + 2 * s))}


IM29 = (-245650075 / 960653., 817116203 / 717333., -1031991377 / 427466., 639292733 / 268621.)


@harness(name='B->X l l: collinear photons', max_paths=20, time=150)
def collinear_photons(ctx):
    high = ctx.choice('region', [False, True])
    s = ctx.real('s high', .5, .95) if high else ctx.real('s low', .02, .49)
    mb, ml, mu, mc = ctx.real('mb', 4.5, 5.), ctx.real('ml', .1, .2), ctx.real('mu', 3., 7.), ctx.real('mc', 1.2, 1.6)
    f = ctx.ufun('li2', 0., 1.7)
    ctx.patch_name(flavio.math.functions.li2, lambda x: f(x))
    u, ls, l1 = 1 - s, log(s), log(1 - s)
    L, l5 = 2 * (log(mb) - log(ml)), log(mu) - math.log(5.)
    W = lambda i, j, m=mu, I='BR', l=ml: qed.wem(I, i, j, s, mb, l, m, mc)
    w = collinear(s, u, ls, l1)
    ctx.check_eq('77', W(7, 7), L * w[7, 7], scale=1.)
    ctx.check_eq('79', W(7, 9), L * w[7, 9], scale=1.)
    # finite terms of Huber et al., hep-ph/0512066
    fin = -f(s) / 9 + 4 * pi ** 2 / 27 - (37 - 3 * s - 6 * s * s) / (72 * u * (1 + 2 * s)) - (41 + 76 * s) / (36 * (1 + 2 * s)) * l1 \
        + ((6 - 10 * s - 17 * s * s + 14 * s ** 3) / (18 * u * u * (1 + 2 * s)) + 17 / 18. * l1) * ls - (1 - 6 * s * s + 4 * s ** 3) / (2 * u * u * (1 + 2 * s)) * ls * ls
    ctx.check_eq('99', W(9, 9), L * w[9, 9] + fin, scale=1.)
    # the loop of four-quark operators depends on the scale by 8/9 ln mu, like a contribution to C9
    five = lambda i, j, I='BR': W(i, j, 5., I)
    c = 8 / 9. * l5
    ctx.check_eq('scale 27', W(2, 7) - five(2, 7), c * L * w[7, 9], scale=1.)
    ctx.check_eq('scale 29', W(2, 9) - five(2, 9), 2 * c * L * w[9, 9], scale=1.)
    ctx.check_eq('scale 22', W(2, 2) - five(2, 2), c * five(2, 9).real + c * c * L * w[9, 9], scale=1.)
    for i, j in ((2, 2), (2, 7), (2, 9), (7, 7), (7, 9)):
        ctx.check_eq('logarithm', W(i, j) * (log(mb) - log(.15)), W(i, j, l=.15) * (log(mb) - log(ml)), scale=1.)
    if high:
        ctx.check_eq('absorptive part 29', five(2, 9).imag * 8 * (1 + 2 * s), L * sum(k * u ** n for n, k in enumerate(IM29)), scale=1.)
        for I in ('L', 'T', 'A'):
            ctx.raises('region', KeyError, lambda: W(9, 9, mu, I))


@harness(name='B->X l l: photons in angular observables', max_paths=20, time=150)
def photons_angular(ctx):
    s = ctx.real('s', .02, .49)
    mb, ml, mu, mc = ctx.real('mb', 4.5, 5.), ctx.real('ml', .1, .2), ctx.real('mu', 3., 7.), ctx.real('mc', 1.2, 1.6)
    W = lambda I, i, j, m=mu: qed.wem(I, i, j, s, mb, ml, m, mc)
    c = 8 / 9. * (log(mu) - math.log(5.))
    for I in ('L', 'T'):
        ctx.check_eq('scale 27 ' + I, W(I, 2, 7) - W(I, 2, 7, 5.), c * W(I, 7, 9), scale=1.)
        ctx.check_eq('scale 29 ' + I, W(I, 2, 9) - W(I, 2, 9, 5.), 2 * c * W(I, 9, 9), scale=1.)
        ctx.check_eq('scale 22 ' + I, W(I, 2, 2) - W(I, 2, 2, 5.), c * W(I, 2, 9, 5.).real + c * c * W(I, 9, 9), scale=1.)
    x = s - (4 * mc ** 2 / mb ** 2) ** 2
    got = W('A', 2, 10) - W('A', 2, 10, 5.)
    ctx.check_eq('scale 2,10', got, c * W('A', 9, 10), scale=1.)
    L, r = 2 * (log(mb) - log(ml)), sqrt(s)
    half = log(1 + r) - math.log(2.)
    ctx.check_eq('7,10', W('A', 7, 10) * (1 - s), L * ((7 - 16 * r + 9 * s) / 4 + (1 - s) * log(1 - r) + (1 + 3 * s) * half - s * log(s)), scale=1.)
    ctx.check_eq('9,10', W('A', 9, 10) * (1 - s), L * (-(5 - 16 * r + 11 * s) / 4 + (1 - s) * log(1 - r) + (1 - 5 * s) * half - (1 - 3 * s) * log(s)), scale=1.)


@harness(name='B->X l l: fits of QED corrections', max_paths=20, time=150)
def fits(ctx):
    """transverse and longitudinal rates add up to the rate, within the accuracy of the fits"""
    s = ctx.real('s', .05, .25)
    for i, j, tol in ((2, 2, .2), (2, 7, 1.2), (2, 9, .2)):
        w = {I: qed.wem(I, i, j, s, 4.8, .10565, 5., 1.5) for I in SIGMA}
        k = {(2, 2): 2, (2, 9): 2, (2, 7): 1}[i, j]
        d = SIGMA['L'](s)[k] * w['L'] + SIGMA['T'](s)[k] * w['T'] - SIGMA['BR'](s)[k] * w['BR']
        for n, x in (('re', d.real), ('im', d.imag)):
            ctx.check_le('%d%d %s' % (i, j, n), x, tol)
            ctx.check_le('%d%d %s' % (i, j, n), -tol, x)


@harness(name='B->X l l: fits of collinear photons', max_paths=40, time=150)
def fits_logarithms(ctx):
    """the same for the logarithms of the lepton mass without charm loop"""
    a = ctx.choice('range', [.05 + .02 * i for i in range(10)])
    s = ctx.real('s %d' % round(100 * a), a, a + .02)

    def ln(x):
        n = getattr(x, 'n', None)
        if n is None or n.hi - n.lo < 1e-9:
            return log(x)
        # Taylor polynomial: up to 1e-5
        c = (n.lo + n.hi) / 2
        t = (x - c) / c
        return math.log(c) + t - t * t / 2 + t ** 3 / 3 - t ** 4 / 4
    ctx.patch(qed, 'log', ln)
    for k, (i, j, tol) in enumerate(((7, 7, .05), (7, 9, .05), (9, 9, .01))):
        w = {I: qed.wem(I, i, j, s, 4.8, .01, 5., 1.5) - qed.wem(I, i, j, s, 4.8, .1, 5., 1.5) for I in SIGMA}
        d = SIGMA['L'](s)[k] * w['L'] + SIGMA['T'](s)[k] * w['T'] - SIGMA['BR'](s)[k] * w['BR']
        ctx.check_le('logarithm %d%d' % (i, j), d, tol)
        ctx.check_le('logarithm %d%d' % (i, j), -tol, d)


@harness(name='B->X l l: effective coefficients', max_paths=40, time=200)
def effective_coefficients(ctx):
    q, lep = ctx.choice('final state', [('s', 'mu'), ('s', 'e'), ('d', 'tau'), ('d', 'mu')])
    b = 'b' + q
    scale = config['renormalization scale']['bxll']
    q2, mb = ctx.real('q2', 1., 20.), ctx.real('mb', 4.5, 5.)
    par = dict(CENTRAL)
    keep = ['%s%s_%s' % (n, p, b) for n in ('C7', 'C8') for p in ('', 'p')] + ['%s%s_%s%s' % (n, p, b, 2 * lep) for n in ('C9', 'C10', 'CS', 'CP') for p in ('', 'p')]
    wc = WCs(ctx, only=keep, b=1.)
    V, run, sm, M = patch_ckm(ctx), Running(ctx), standard_model(ctx, q2), None
    ctx.assume(abs2(V.xi('t', b)) > .01)
    k = {n: [npc(ctx.complex('%s_%d' % (n, i), 1.)) for i in (0, 1)] for n in ('Y', 'Yu', 'delta_C7', 'delta_C9')}

    def element(n):
        c = {'Y': ('C1', 'C3'), 'Yu': ('C1', 'C2'), 'delta_C7': ('C2', 'C8eff'), 'delta_C9': ('C2', 'C8eff')}[n]

        def f(**kw):
            ctx.check('flavours', kw['qiqj'] == b and kw['scale'] == scale)
            ctx.check_eq('momentum transfer', kw['q2'], q2)
            return sum(a * kw['wc'][x + '_' + b] for a, x in zip(k[n], c))
        return f
    for n in k:
        code = getattr(me, n).__code__
        ctx.patch_name(getattr(me, n), lambda *a, names=code.co_varnames[:code.co_argcount], f=element(n), **kw: f(**dict(zip(names, a), **kw)))
    s7, s9 = ctx.real('sigma7', -3., 3.), ctx.real('sigma9', -3., 3.)

    def sigma7(s, mu, m):
        ctx.check_eq('arguments', [s, mu, m], [q2 / mb ** 2, scale, mb])
        return s7

    def sigma9(s):
        ctx.check_eq('arguments', s, q2 / mb ** 2)
        return s9
    ctx.patch(bxll, 'sigma7', sigma7)
    ctx.patch(bxll, 'sigma9', sigma9)
    got = bxll.inclusive_wc(q2, wc, par, q, lep, mb)['wc_eff']
    at = wc.at(scale)
    c = coefficients(at, sm, b, run, scale)
    E = lambda n: sum(a * c[x + '_' + b] for a, x in zip(k[n], {'Y': ('C1', 'C3'), 'Yu': ('C1', 'C2'), 'delta_C7': ('C2', 'C8eff'), 'delta_C9': ('C2', 'C8eff')}[n]))
    a = run('alpha_s', scale) / pi
    N = lambda n: at('%s_%s%s' % (n, b, 2 * lep))
    xt, xu = V.xi('t', b), V.xi('u', b)
    m = run('mb', scale)
    S10 = sm[9] * (par['m_t'] / 173.1) ** 1.53
    eq = lambda n, x: ctx.check_eq(n, got[n] * xt, x * xt, scale=1.)
    eq('7', c['C7eff_' + b] * (1 + a * s7) + E('delta_C7'))
    eq('7p', c['C7effp_' + b] * (1 + a * s7))
    ctx.check_eq('v', got['v'] * xt, ((sm[8] + N('C9')) * (1 + a * s9) + E('delta_C9') + E('Y')) * xt + xu * E('Yu'), scale=1.)
    eq('vp', N('C9p') * (1 + a * s9))
    eq('a', (S10 + N('C10')) * (1 + a * s9))
    eq('ap', N('C10p') * (1 + a * s9))
    for n, x in (('s', 'CS'), ('sp', 'CSp'), ('p', 'CP'), ('pp', 'CPp')):
        eq(n, m * N(x))


REGIONS = {'low': (1., 6.), 'high': (14.4, 19.), 'below threshold': (0., .01), 'above': (27., 30.)}


@harness(name='B->X l l: spectra', max_paths=60, time=300)
def spectra(ctx):
    q, lep = ctx.choice('final state', [('s', 'mu'), ('s', 'tau'), ('d', 'e')])
    region = ctx.choice('region', [r for r in REGIONS if not (r == 'low' and lep == 'tau')])
    q2 = ctx.real('q2 ' + region, *REGIONS[region])
    if region == 'below threshold':
        q2 = q2 * (4 * CENTRAL['m_' + lep] ** 2 * .9 / .01)
    par = Par(ctx, .01, free=['m_' + lep, 'lambda_1', 'lambda_2', 'C_BXlnu', 'BR(B->Xcenu)_exp', 'alpha_s'])
    d = {r: ctx.real('delta ' + r, -.1, .1) for r in ('low', 'high')}
    for r in d:
        par['delta_BX%s%s %s' % (q, 2 * lep, r)] = d[r]
    V, run, scale = patch_ckm(ctx), Running(ctx, width=.01), config['renormalization scale']['bxll']
    tau, c = brems(ctx), amplitudes(ctx)
    mb, mc = run.other('get_mb_pole'), run.other('get_mc_pole')
    a_s, a_e = run('alpha_s', scale), run('alpha_e', scale)
    ml = par['m_' + lep]
    s = q2 / mb ** 2
    W, wc = object(), object()

    def coefs(x, w, p, qq, l, m):
        ctx.check('arguments', w is wc and qq == q and l == lep)
        ctx.check_eq('arguments', [x, m], [q2, mb])
        return {'wc_eff': c, 'wc': W}
    ctx.patch(bxll, 'inclusive_wc', coefs)
    X = {I: ctx.real('qed' + I, -.1, .1) for I in ('BR', 'A')}
    P = {I: ctx.real('pc' + I, -.1, .1) for I in ('T', 'L', 'A')}

    m_b, m_c, m_l, qq, ll = mb, mc, ml, q, lep

    def logs(I, sh, mb, ml, alpha_s, alpha_e, wc, q, lep, mc):
        ctx.check('arguments', wc is W and (q, lep) == (qq, ll))
        ctx.check_eq('arguments', [sh, mb, ml, alpha_s, alpha_e, mc], [s, m_b, m_l, a_s, a_e, m_c])
        return X[I]

    def power(I, sh, l1, l2, mb, wc, q, lep):
        ctx.check('arguments', wc is W and (q, lep) == (qq, ll))
        ctx.check_eq('arguments', [sh, l1, l2, mb], [s, par['lambda_1'], par['lambda_2'], m_b])
        return P[I]
    ctx.patch(bxll, 'Phill_logqed', logs)
    ctx.patch(bxll, 'Phill_pc_mb2', power)
    B = bxll._bxll_dbrdq2(q2, wc, par, q, lep)
    N, D = bxll.bxll_afb_num(q2, wc, par, q, lep), bxll.bxll_afb_den(q2, wc, par, q, lep)
    if region in ('below threshold', 'above'):
        return ctx.check_eq('outside of the phase space', [B, N, D], [0., 0., 0.])
    xt = abs2(V.xi('t', 'b' + q))
    cb = abs2(V.q('cb'))
    ctx.assume(cb > .01)
    LO = sum(rate(s, ml / mb, a_s, c, tau, p) for p in ('', 'p'))
    phi = LO + X['BR'] + P['T'] + P['L']
    u = 1 + a_s / (4 * pi) * (50 - 8 * pi ** 2) / 3 + 12 / 23. * a_e * (1 / a_s - 1 / par['alpha_s']) + (par['lambda_1'] - 9 * par['lambda_2']) / (2 * mb ** 2)
    unc = 1 + d[region]
    ref = a_e ** 2 / (4 * pi ** 2 * mb ** 2) * par['BR(B->Xcenu)_exp'] / par['C_BXlnu'] * xt * phi * unc
    ctx.check_eq('branching ratio', B * cb * u, ref, scale=1e-6)
    # logarithmic corrections are left out of the asymmetry at high momentum transfer
    on = region == 'low'
    ctx.check_eq('normalization of the asymmetry', D, phi if on else phi - X['BR'], scale=1.)
    A = 0
    for p, sg in (('', 1), ('p', -1)):
        A = A - sg * 4 * (1 - s) ** 2 * (s * (c['v' + p] * conj(c['a' + p])).real * (1 + a_s / pi * tau['910']) + 2 * (c['7' + p] * conj(c['a' + p])).real * (1 + a_s / pi * tau['710']))
    A = A + P['A'] + (X['A'] if on else 0.)
    ctx.check_eq('asymmetry', N, .75 * A * unc, scale=1.)


@harness(name='B->X l l: observables', max_paths=60)
def ll_observables(ctx):
    q = ctx.choice('quark', ['s', 'd'])
    lo, hi = ctx.real('q2min', 1., 2.), ctx.real('q2max', 5., 6.)
    nodes = {}
    w = [ctx.real('w%d' % i, .5, 3.) for i in (0, 1)]
    z = [lo + (hi - lo) / 4, lo + (hi - lo) * 3 / 4]
    F = {(n, l): ctx.ufun(n + l, .1, 1.) for n in ('B', 'N', 'D') for l in ('e', 'mu', 'tau')}
    wc, par = flavio.WilsonCoefficients(), dict(CENTRAL)

    def integral(f, a, b, epsrel=None):
        ctx.check_eq('limits', [a, b], [lo, hi])
        return w[0] * f(z[0]) + w[1] * f(z[1])
    ctx.patch(flavio.math.integrate, 'nintegrate', integral)

    def stand(n):
        def f(x, ww, p, qq, l, **kw):
            ctx.check('arguments', ww is wc and p == par and qq == q)
            return F[n, l](x)
        return f
    ctx.patch(bxll, '_bxll_dbrdq2', stand('B'))
    ctx.patch(bxll, '_bxll_afb_num', stand('N'))
    ctx.patch(bxll, '_bxll_dbrdq2_unnorm', stand('D'))
    I = lambda f: w[0] * f(z[0]) + w[1] * f(z[1])
    G = dict(F)
    for n in ('B', 'N', 'D'):
        G[n, 'l'] = lambda x, n=n: (F[n, 'e'](x) + F[n, 'mu'](x)) / 2
    for l in ('e', 'mu', 'tau', 'l'):
        d = 'B->X%s%s' % (q, 2 * l)
        ctx.check_eq('spectrum ' + l, predict('dBR/dq2(%s)' % d, wc, par, lo), G['B', l](lo))
        ctx.check_eq('branching ratio ' + l, predict('<BR>(%s)' % d, wc, par, lo, hi), I(G['B', l]))
        if l != 'tau':
            ctx.check_eq('asymmetry ' + l, predict('AFB(%s)' % d, wc, par, lo) * G['D', l](lo), G['N', l](lo))
            ctx.check_eq('binned asymmetry ' + l, predict('<AFB>(%s)' % d, wc, par, lo, hi) * I(G['D', l]), I(G['N', l]))
    for a, b in (('mu', 'e'), ('tau', 'mu')):
        ctx.check_eq('ratio %s/%s' % (a, b), predict('<R%s%s>(B->X%sll)' % (a, b, q), wc, par, lo, hi) * I(G['B', b]), I(G['B', a]))
