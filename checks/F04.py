"""Leptonic decays of mesons (and their tau crossings) follow from the effective operators."""
import math
import flavio
import flavio.math.functions as mfun
import flavio.physics.bdecays.blnu as blnu
import flavio.physics.bdecays.bll as bll
import flavio.physics.ddecays.dlnu as dlnu
import flavio.physics.kdecays.klnu as klnu
import flavio.physics.kdecays.kll as kll
import flavio.physics.taudecays.taupnu as taupnu
import flavio.physics.taudecays.taulnunu as taulnunu
from flavio.physics.bdecays.wilsoncoefficients import wctot_dict, fcnclabels, get_CVLSM
from engine.run import harness, add_harness
from engine.num import sqrt, pi, abs2, conj, lam, log
from engine.phys import Par, WCs, Running, Scales, Coeffs, patch_ckm, predict

EXPLANATION = (
    'The registered predictions for leptonic decays of B, D, K and pi mesons and for tau to P nu are executed with symbolic Wilson coefficients, CKM elements, masses, decay constants, running quark masses and Fermi constant and compared '
    'with the two-body width computed from the effective operators: lepton traces for scalar and pseudoscalar amplitudes with two different lepton masses, helicity suppression lifted by scalar operators with the masses of the quarks '
    'of the meson, incoherent sum over neutrino flavours, time-integrated rate, effective lifetime and mass-eigenstate asymmetry of Bs, long distance amplitudes and electromagnetic corrections of K and pi, lepton flavour violating modes and their charge sums.')
BOUNDS = ('Wilson coefficients with real and imaginary parts up to 2 in size, independent complex CKM elements, parameters and running masses within 10% of their central values; every registered mode; leading SM coefficients symbolic')
ASSUMPTIONS = ['floats treated as reals', 'running masses, CKM elements and (for B) the SM coefficients are taken as inputs here; they are the subject of F15, F03 and F14', 'for LFV kaon decays the projections on real and imaginary parts for K_L and K_S are taken as part of the definition']

LEP = ('e', 'mu', 'tau')


def opt(scale):
    return flavio.config['renormalization scale'][scale]


def two_body(M, m1, m2, S, P):
    """width of a scalar to two leptons with amplitude u(S + P gamma5)v"""
    return sqrt(lam(M ** 2, m1 ** 2, m2 ** 2)) / (8 * pi * M ** 3) * ((M ** 2 - (m1 + m2) ** 2) * abs2(S) + (M ** 2 - (m1 - m2) ** 2) * abs2(P))


def charged(par, C, V2, f, M, ml, mq1, mq2, GF):
    """width of P -> l nu for one neutrino flavour; C: name -> coefficient"""
    a = ml * (C('CVL') - C('CVR')) + M ** 2 / (mq1 + mq2) * (C('CSR') - C('CSL'))
    amp = GF * f * GF * f * 2 * V2 * abs2(a) * (M ** 2 - ml ** 2)
    return amp * (M ** 2 - ml ** 2) / (16 * pi * M ** 3)


def setup(ctx, mode='', **scales):
    par = Par(ctx, fixed=('m_*', 'c*') if mode in ('coefficients', 'ratio') else ())
    sc = Scales(**{k: par[v] for k, v in scales.items()})
    V, run, wc = patch_ckm(ctx), Running(ctx, sc, fixed=mode in ('coefficients', 'ratio')), WCs(ctx, sc, only={'masses': ('CVL_',), 'ratio': ('CVL_', 'CVR_')}.get(mode))
    CV = {}

    def cvl(p, scale, nf):
        k = 'CVLSM %s %s' % (sc(scale), nf)
        if k not in CV:
            CV[k] = ctx.real(k, 0.9, 1.1)
        return CV[k]
    ctx.patch_name(get_CVLSM, cvl)
    return par, V, run, wc, cvl


def coeff(wc, sector, scale, eft, sm=0.):
    at = wc.at(scale, eft)
    return lambda n: at('%s_%s' % (n, sector)) + (sm if n == 'CVL' else 0.)


@harness(name='B->lnu', max_paths=20)
def b_lnu(ctx):
    B, l = ctx.choice('B', ['B+', 'Bc']), ctx.choice('lepton', LEP)
    par, V, run, wc, cvl = setup(ctx)
    s, q = opt('bll'), {'B+': 'u', 'Bc': 'c'}[B]
    got = predict('BR(%s->%snu)' % (B, l), wc, par)
    mq = 0. if B == 'B+' else run('mc', s)
    want = sum(charged(par, coeff(wc, 'b%s%snu%s' % (q, l, nu), s, 'WET', cvl(par, s, 5) if nu == l else 0.), abs2(V.q(q + 'b')), par['f_' + B], par['m_' + B], par['m_' + l], run('mb', s), mq, par['GF']) for nu in LEP)
    ctx.check_eq('BR', got / par['tau_' + B], want)


@harness(name='D->lnu', max_paths=20)
def d_lnu(ctx):
    D, l = ctx.choice('D', ['D+', 'Ds']), ctx.choice('lepton', LEP)
    par, V, run, wc, cvl = setup(ctx)
    s, q = opt('dll'), {'D+': 'd', 'Ds': 's'}[D]
    got = predict('BR(%s->%snu)' % (D, l), wc, par)
    want = sum(charged(par, coeff(wc, '%sc%snu%s' % (q, l, nu), s, 'WET-4', cvl(par, s, 4) if nu == l else 0.), abs2(V.q('c' + q)), par['f_' + D], par['m_' + D], par['m_' + l], run('m' + q, s), run('mc', s), par['GF']) for nu in LEP)
    ctx.check_eq('BR', got / par['tau_' + D], want)


def marciano_sirlin(z, li2):
    return 3 / 2 * log(z) + (13 - 19 * z) / (8 * (1 - z)) - (8 - 5 * z) / (4 * (1 - z) ** 2) * z * log(z) - ((1 + z) / (1 - z) * log(z) + 2) * log(1 - z) - 2 * (1 + z) / (1 - z) * li2(1 - z)


def kpi_width(ctx, par, V, run, wc, cvl, GFeff, li2, P, l):
    s, q = par['m_rho0'], {'K+': 's', 'pi+': 'd'}[P]
    M, ml = par['m_' + P], par['m_' + l]
    sm = cvl(par, s, 3) * GFeff / par['GF']
    w = sum(charged(par, coeff(wc, '%su%snu%s' % (q, l, nu), s, 'WET-3', sm if nu == l else 0.), abs2(V.q('u' + q)), par['f_' + P], M, ml, run('m' + q, s), run('mu', s), par['GF']) for nu in LEP)
    L, x = log(s ** 2 / ml ** 2), ml ** 2 / s ** 2
    c4 = par['c4_%smunu' % P] if l == 'mu' else 0.
    em = (marciano_sirlin(ml ** 2 / M ** 2, li2) - 3 / 2 * log(s / M) - par['c1_%slnu' % P] - x * (par['c2_%slnu' % P] * L + par['c3_%slnu' % P] + c4) + M ** 2 / s ** 2 * par['c2t_%slnu' % P] * L)
    return w * (1 + em / (137.035999139 * pi))


def kpi_setup(ctx, mode=''):
    par, V, run, wc, cvl = setup(ctx, mode, m_rho0='m_rho0')
    gf, li2 = ctx.real('GFeff', 1.1e-5, 1.2e-5), ctx.ufun('li2', 0.5, 1.7)
    ctx.patch_name(taulnunu.GFeff, lambda w, p: gf)
    ctx.patch_name(mfun.li2, li2)
    return par, V, run, wc, cvl, gf, li2


@harness(name='K, pi->lnu', max_paths=40, time=120)
def kpi(ctx):
    name = ctx.choice('observable', ['BR(K+->enu)', 'BR(K+->munu)', 'Gamma(pi+->munu)', 'BR(pi+->enu)', 'Remu(K+->lnu)', 'RKpi(P+->enu)', 'RKpi(P+->munu)'])
    # symbolic masses with vector coefficients, all coefficients with fixed masses
    ratio = name[0] == 'R' or name == 'BR(pi+->enu)'
    mode = 'ratio' if ratio else ctx.choice('mode', ['coefficients', 'masses'])
    a = kpi_setup(ctx, mode)
    par, wc = a[0], a[3]
    got = predict(name, wc, par)

    def G(P, l):
        return kpi_width(ctx, *a, P, l)
    if name.startswith('BR(K'):
        return ctx.check_eq(name, got / par['tau_K+'], G('K+', name[7:-3]))
    if name.startswith('Gamma'):
        return ctx.check_eq(name, got, G('pi+', 'mu'))
    if name.startswith('RKpi'):
        return ctx.check_eq(name, got, G('K+', name[9:-3]) / G('pi+', name[9:-3]))
    P = 'pi+' if 'pi' in name else 'K+'
    ctx.check_eq(name, got, 1.00055 * G(P, 'e') / G(P, 'mu'))


@harness(name='tau->Pnu', max_paths=20)
def tau_pnu(ctx):
    P = ctx.choice('P', ['pi', 'K'])
    par, V, run, wc, cvl, gf, li2 = kpi_setup(ctx)
    s, q = opt('taudecays'), {'pi': 'd', 'K': 's'}[P]
    got = predict('BR(tau->%snu)' % P, wc, par)
    M, mt, f = par['m_%s+' % P], par['m_tau'], par['f_%s+' % P]
    want = 0.
    for nu in LEP:
        C = coeff(wc, '%sutaunu%s' % (q, nu), s, 'WET-4', cvl(par, s, 4) * gf / par['GF'] if nu == 'tau' else 0.)
        r = mt * (C('CVL') - C('CVR')) + M ** 2 / (run('m' + q, s) + run('mu', s)) * (C('CSR') - C('CSL'))
        # spin averaged: (1/2) * 2 GF^2 f^2 |V r|^2 (mt^2 - M^2), two body phase space
        want = want + par['GF'] ** 2 * f ** 2 * abs2(V.q('u' + q)) * abs2(r) * (mt ** 2 - M ** 2) * (mt ** 2 - M ** 2) / (16 * pi * mt ** 3)
    ctx.check_eq('BR', got / par['tau_tau'], want)


# Bs, B0 -> l l

def b_ll_setup(ctx):
    par = Par(ctx)
    V, run, wc = patch_ckm(ctx), Running(ctx), WCs(ctx)
    tot = {}

    def total(w, sector, scale, p, nf_out=5):
        ctx.check('total coefficients of the given object', w is wc and p is par and nf_out == 5)
        if sector not in tot:
            tot[sector] = Coeffs(wc, fcnclabels[sector], '@tot %s' % scale)
        return tot[sector]
    ctx.patch_name(wctot_dict, total)
    return par, V, run, wc


def b_ll_amps(ctx, par, V, run, wc, B, l1, l2):
    s, q = opt('bll'), {'Bs': 's', 'B0': 'd'}[B]
    lab = '_b%s%s%s' % (q, l1, l2)
    at = wc.at(s, 'WET') if l1 != l2 else (lambda k: wc.value(k, '@tot %s' % s))
    m1, m2, M = par['m_' + l1], par['m_' + l2], par['m_' + B]

    def d(n):
        return at(n + lab) - at(n + 'p' + lab)
    mb, mq = run('mb', s, 5), run('m' + q, s, 5)
    sc = M ** 2 * mb / (mb + mq)
    return (m2 - m1) * d('C9') + sc * d('CS'), (m2 + m1) * d('C10') + sc * d('CP')


def b_ll_width(ctx, par, V, run, wc, B, l1, l2):
    q = {'Bs': 's', 'B0': 'd'}[B]
    S, P = b_ll_amps(ctx, par, V, run, wc, B, l1, l2)
    N2 = (4 * par['GF'] / math.sqrt(2) * run('alpha_e', 4.8) / (4 * pi)) ** 2 * abs2(V.xi('t', 'b' + q)) * par['f_' + B] ** 2 / 4
    return N2 * two_body(par['m_' + B], par['m_' + l1], par['m_' + l2], S, P)


def eigenstates(ctx, par, V, run, wc, B, l):
    """relative rates of the CP even and odd final states without and with the sign of the CP eigenvalue"""
    S, P = b_ll_amps(ctx, par, V, run, wc, B, l, l)
    x = 4 * par['m_' + l] ** 2 / par['m_' + B] ** 2
    return abs2(P) + (1 - x) * abs2(S), (P * P).real - (1 - x) * (S * S).real


@harness(name='Bs, B0->ll', max_paths=40, time=120)
def b_ll(ctx):
    what, l = ctx.choice('observable', ['BR(Bs->%s)', 'BR(B0->%s)', 'tau_%s', 'ADeltaGamma(Bs->%s)']), ctx.choice('lepton', LEP)
    a = b_ll_setup(ctx)
    par, wc = a[0], a[3]
    got = predict(what % (l + l), wc, par)
    if 'B0' in what:
        return ctx.check_eq('BR', got / par['tau_B0'], b_ll_width(ctx, *a, 'B0', l, l))
    y = par['DeltaGamma/Gamma_Bs'] / 2
    n, d = eigenstates(ctx, *a, 'Bs', l)
    ctx.assume(n >= 1e-6)
    if what.startswith('AD'):
        return ctx.check_eq('ADeltaGamma', got * n, d, scale=1.)
    if what.startswith('BR'):
        # integral over time of the untagged rate (n cosh(y t) + d sinh(y t)) exp(-t)
        return ctx.check_eq('time integrated BR', got / par['tau_Bs'] * n, b_ll_width(ctx, *a, 'Bs', l, l) * (n + y * d) / (1 - y ** 2))
    # mean time of the same: integral of t over integral of 1
    up, dn = [(n + e * d) / 2 for e in (1, -1)]
    t1 = up / (1 - y) ** 2 + dn / (1 + y) ** 2
    t0 = up / (1 - y) + dn / (1 + y)
    ctx.check_eq('effective lifetime', got * t0, par['tau_Bs'] * t1)


@harness(name='Bs, B0->ll LFV', max_paths=60, time=120)
def b_ll_lfv(ctx):
    B = ctx.choice('B', ['Bs', 'B0'])
    l1, l2 = ctx.choice('leptons', [('e', 'mu'), ('e', 'tau'), ('mu', 'tau')])
    kind = ctx.choice('kind', ['l1 l2', 'l2 l1', 'sum'])
    a = b_ll_setup(ctx)
    par, wc = a[0], a[3]
    name = {'l1 l2': l1 + l2, 'l2 l1': l2 + l1, 'sum': '%s%s,%s%s' % (l1, l2, l2, l1)}[kind]
    got = predict('BR(%s->%s)' % (B, name), wc, par)
    want = 0.
    if kind != 'l2 l1':
        want = want + b_ll_width(ctx, *a, B, l1, l2)
    if kind != 'l1 l2':
        want = want + b_ll_width(ctx, *a, B, l2, l1)
    ctx.check_eq('BR', got / par['tau_' + B], want)


# K -> l l

def k_ll_width(ctx, par, V, wc, K, l1, l2):
    s = opt('kdecays')
    at = wc.at(s, 'WET')
    m1, m2, M = par['m_' + l1], par['m_' + l2], par['m_K0']

    def d(n, *l):
        lab = '_sd%s%s' % l
        return at(n + lab) - at(n + 'p' + lab)
    xt = V.xi('t', 'sd')
    P, S = xt * ((m1 + m2) * d('C10', l1, l2) + M ** 2 * d('CP', l1, l2)), xt * ((m2 - m1) * d('C9', l1, l2) + M ** 2 * d('CS', l1, l2))
    ldS = ldP = 0.
    if l1 != l2:
        # K0 -> l1 l2 by the hermitian conjugate of (d s)(l2 l1): S and P each
        # get a minus sign from the quark bilinear, P another one from the
        # leptonic one, C9 and C10 none
        x = xt.conjugate()
        Pb = x * ((m1 + m2) * conj(d('C10', l2, l1)) + M ** 2 * conj(d('CP', l2, l1)))
        Sb = x * ((m2 - m1) * conj(d('C9', l2, l1)) - M ** 2 * conj(d('CS', l2, l1)))
        e = -1 if K == 'KS' else 1
        N = 4 * par['GF'] / math.sqrt(2) * par['alpha_e'] / (4 * pi) * par['f_K0'] / 2 / math.sqrt(2)
        return N ** 2 * two_body(M, m1, m2, S + e * Sb, P + e * Pb)
    if l1 == l2:
        # SM: top and charm
        sm = xt * (-4.10 * (par['m_t'] / 173.1) ** 1.53) - V.xi('c', 'sd') * (0.115 / par['s2w'] * abs2(V.q('us')) ** 2)
        P = P + (m1 + m2) * sm
        # two photon intermediate state
        pre = 2 * m1 * par['m_K0'] / par['m_' + K] / par['s2w']
        ldS = pre * 2.49e-4 * (-2.821 + 1.216j)
        ldP = -pre * 2.02e-4 * (par['chi_disp(KL->gammagamma)'] - 5.21j)
    # CP eigenstates (K0 +- K0bar)/sqrt2
    P, S = (P.imag, S.real + ldS) if K == 'KS' else (P.real + ldP, S.imag)
    N = 4 * par['GF'] / math.sqrt(2) * par['alpha_e'] / (4 * pi) * par['f_K0'] / 2 * math.sqrt(2)
    return N ** 2 * two_body(M, m1, m2, S, P)


@harness(name='K->ll', max_paths=40, time=120)
def k_ll(ctx):
    K, m = ctx.choice('K', ['KL', 'KS']), ctx.choice('mode', ['ee', 'mumu', 'emu,mue'])
    par = Par(ctx)
    V, wc = patch_ckm(ctx), WCs(ctx)
    Running(ctx)
    got = predict('BR(%s->%s)' % (K, m), wc, par)
    modes = {'ee': [('e', 'e')], 'mumu': [('mu', 'mu')], 'emu,mue': [('e', 'mu'), ('mu', 'e')]}[m]
    ctx.check_eq('BR', got / par['tau_' + K], sum(k_ll_width(ctx, par, V, wc, K, *x) for x in modes))
