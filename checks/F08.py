"""Z, W and Higgs boson decays follow from the effective operators."""
import math
import numpy as np
import flavio
import flavio.physics.ckm as ckm
import flavio.physics.zdecays.gammaz as gammaz
import flavio.physics.zdecays.gammazsm as gammazsm
import flavio.physics.zdecays.afbz as afbz
import flavio.physics.wdecays.gammaw as gammaw
import flavio.physics.wdecays.mw as mw
import flavio.physics.higgs.signalstrength as signalstrength
from engine.run import harness, add_harness
from engine.num import sqrt, log, abs2, conj, pi
from engine.phys import Par, WCs, patch_ckm, predict, CENTRAL

EXPLANATION = (
    'The predictions for Z and W partial and total widths, branching ratios, ratios, asymmetries, the W mass and Higgs signal strengths are executed with symbolic SMEFT coefficients of the Warsaw basis, input parameters and CKM elements. '
    'The reference derives the shifts of gauge couplings, mixing angle and masses at tree level from kinetic mixing, the masses and the muon decay constant in terms of the coefficients (validated by solving the exact relations numerically), '
    'and uses two-body widths; Higgs couplings to fermions follow from the operators, the numerical coefficients of the other modes are data with relations (SU(2) structure) checked.')
BOUNDS = 'coefficients up to 0.1/TeV^2 (polynomials: all values of a sign pattern); masses, couplings and the muon decay constant within 10%'
ASSUMPTIONS = ['floats treated as reals', 'coefficients of hermitian operators are real', 'the parametric formulae of the Standard Model widths and W mass and the simulated Higgs coefficients are those of the cited papers',
               'Z couplings of left-handed up quarks neglect the CKM rotation of the basis, as in the cited literature', 'W widths use the measured mass']

ZSCALE = flavio.config['renormalization scale']['zdecays']
WSCALE = flavio.config['renormalization scale']['wdecays']
HSCALE = flavio.config['renormalization scale']['hdecays']
LEP = ['e', 'mu', 'tau']
INDEX = {'e': 1, 'mu': 2, 'tau': 3, 'nue': 1, 'numu': 2, 'nutau': 3, 'u': 1, 'c': 2, 'd': 1, 's': 2, 'b': 3}
CHARGE = {**{l: -1. for l in LEP}, **{'nu' + l: 0. for l in LEP}, **{q: 2 / 3 for q in 'uc'}, **{q: -1 / 3 for q in 'dsb'}}
RIGHT = {**{l: 'phie' for l in LEP}, **{q: 'phiu' for q in 'uc'}, **{q: 'phid' for q in 'dsb'}}


def colours(f):
    return 3 if f in 'ucdsb' else 1


def isospin(f):
    return 0.5 if f.startswith('nu') or f in 'uc' else -0.5


def herm(at, name, i, j):
    """element of a hermitian matrix of coefficients"""
    return at('%s_%d%d' % (name, i, j)) if i <= j else conj(at('%s_%d%d' % (name, j, i)))


class Shifts:
    """linear shifts of g/gz, mixing angle and couplings at fixed fine structure constant, Z mass and muon decay constant.

    The kinetic terms of W3 and B mix by a = v^2 C_phiWB, removed by W3 -> W3 - a/2 B and B -> B - a/2 W3. The mass term is multiplied by 1 + v^2 C_phiD/2
    and the muon decay constant by 1 + v^2 (C_phil3_11 + C_phil3_22 - C_ll_1221/2)."""

    def __init__(self, at, par):
        v2 = 1 / (math.sqrt(2.) * par['GF'])
        x = 4 * pi * par['alpha_e'] / (math.sqrt(2.) * par['GF'] * par['m_Z'] ** 2)
        self.v2 = v2
        self.s2 = s2 = (1 - sqrt(1 - x)) / 2
        self.c2 = c2 = 1 - s2
        self.sc = sc = sqrt(s2) * sqrt(c2)
        self.a = a = v2 * at('phiWB')
        d = v2 * at('phiD') / 2
        delta = v2 * (at('phil3_11') + at('phil3_22') - at('ll_1221') / 2)
        # the coupling of the Z to T3 - Q s^2 is 2 mZ/v/sqrt(1 + d), with v^2 larger by 1 + delta
        self.dG = -(d + delta) / 2
        # s^2 c^2 = e^2/G^2 + a s c
        self.ds2 = (-2 * s2 * c2 * self.dG + a * sc) / (c2 - s2)
        # e^2 = g^2 (s^2 - a s c); twice the relative shift of the W coupling
        self.dg2 = -self.ds2 / s2 + a * sqrt(c2) / sqrt(s2)
        self.dmW = (self.dg2 + delta) / 2


def exact(a, d, delta, alpha, GF, mZ):
    """shifts by solving the exact relations for the couplings g, g' and v"""
    import numpy as np
    import scipy.optimize
    def phys(x, a, d, delta):
        g, gp, v = x
        K = np.array([[1, a], [a, 1]])
        n = np.array([gp, g])
        n = n / np.sqrt(n @ K @ n)
        e = g * n[0]
        z = np.array([-(K @ n)[1], (K @ n)[0]])
        z = z / np.sqrt(z @ K @ z) * (1 if g * z[0] > 0 else -1)
        m = v / 2 * np.sqrt(1 + d) * (g * z[0] - gp * z[1])
        G = g * z[0] - gp * z[1]
        return e, m, (1 + delta) / v ** 2, G, -gp * z[1] / G, g * v / 2, g
    s2 = (1 - math.sqrt(1 - 4 * math.pi * alpha / (math.sqrt(2) * GF * mZ ** 2))) / 2
    e, v = math.sqrt(4 * math.pi * alpha), 1 / math.sqrt(math.sqrt(2) * GF)
    x0 = [e / math.sqrt(s2), e / math.sqrt(1 - s2), v]
    ref = phys(x0, 0, 0, 0)
    # scale the unknowns
    sol = scipy.optimize.root(lambda y: [p / r - 1 for p, r in zip(phys(np.array(x0) * y, a, d, delta)[:3], (e, mZ, 1 / v ** 2))], [1., 1., 1.], tol=1e-15)
    p = phys(np.array(x0) * sol.x, a, d, delta)
    return p[3] / ref[3] - 1, p[4] - ref[4], p[6] ** 2 / ref[6] ** 2 - 1, p[5] / ref[5] - 1


@harness(name='shifts')
def shifts(ctx):
    p = {k: CENTRAL[k] for k in ('alpha_e', 'GF', 'm_Z')}
    v2 = 1 / (math.sqrt(2) * p['GF'])
    h = 1e-4
    for k, (a, d, delta) in {'phiWB': (1, 0, 0), 'phiD': (0, .5, 0), 'phil3_11': (0, 0, 1), 'phil3_22': (0, 0, 1), 'll_1221': (0, 0, -.5)}.items():
        s = Shifts(lambda n: (n == k) / v2, p)
        up, lo = exact(a * h, d * h, delta * h, *p.values()), exact(-a * h, -d * h, -delta * h, *p.values())
        for n, want, x, y in zip(('dG', 'ds2', 'dg2', 'dmW'), (s.dG, s.ds2, s.dg2, s.dmW), up, lo):
            ctx.check_eq(k + ' ' + n, float(want), float((x - y) / 2 / h), tol=1e-5)


def couplings(at, par, sh, f1, f2, s2w=None):
    """shifts of left and right handed couplings T3 - Q s^2 of the Z to f1 and f2"""
    i, j, v2 = INDEX[f1], INDEX[f2], sh.v2
    cur = 'phiq' if f1 in 'ucdsb' else 'phil'
    t3, Q = isospin(f1), CHARGE[f1]
    dL = -v2 / 2 * (herm(at, cur + '1', i, j) - 2 * t3 * herm(at, cur + '3', i, j))
    dR = -v2 / 2 * herm(at, RIGHT[f1], i, j) if f1 in RIGHT else 0.
    if f1 == f2:
        dL = dL + sh.dG * (t3 - Q * s2w) - Q * sh.ds2
        dR = dR + sh.dG * (-Q * s2w) - Q * sh.ds2
    return dL, dR


def s2eff(par, f):
    return par['s2w'] * (1.0065 if f == 'b' else 1.0010)


def gamma_sm(par, f):
    name = 'Gammae,mu' if f in ('e', 'mu') else 'Gammad,s' if f in ('d', 's') else 'Gammanu' if f.startswith('nu') else 'Gamma' + f
    LH, dt, das, dZ = log(par['m_h'] / 125.7), (par['m_t'] / 173.2) ** 2 - 1, par['alpha_s'] / 0.1184 - 1, par['m_Z'] / 91.1876 - 1
    c = TABLE[name]
    return 1e-3 * (c[0] + c[1] * LH + c[2] * dt + c[3] * das + c[4] * das ** 2 + c[5] * das * dt + c[7] * dZ) + par['delta_' + name]


# MeV, table 5 of arXiv:1401.2447
TABLE = {
    'Gammae,mu': [83.966, -0.047, 0.807, -0.095, -0.01, 0.25, -1.1, 285],
    'Gammatau': [83.776, -0.047, 0.806, -0.095, -0.01, 0.25, -1.1, 285],
    'Gammanu': [167.157, -0.055, 1.26, -0.19, -0.02, 0.36, -0.1, 503],
    'Gammau': [299.936, -0.34, 4.07, 14.27, 1.6, 1.8, -11.1, 1253],
    'Gammac': [299.860, -0.34, 4.07, 14.27, 1.6, 1.8, -11.1, 1253],
    'Gammad,s': [382.770, -0.34, 3.83, 10.20, -2.4, 0.67, -10.1, 1469],
    'Gammab': [375.724, -0.30, -2.28, 10.53, -2.4, 1.2, -10.0, 1458]}


def gamma_z(at, par, sh, f1, f2):
    dL, dR = couplings(at, par, sh, f1, f2, s2eff(par, f1))
    t3, Q, s2w = isospin(f1), CHARGE[f1], s2eff(par, f1)
    # width to massless fermions: GF mZ^3/(3 sqrt2 pi) Nc (|gL|^2 + |gR|^2)
    N = par['GF'] * par['m_Z'] ** 3 / (3 * math.sqrt(2.) * pi) * colours(f1)
    if f1 != f2:
        return N * (abs2(dL) + abs2(dR))
    return gamma_sm(par, f1) + N * (2 * (t3 - Q * s2w) * dL.real + 2 * (-Q * s2w) * dR.real + abs2(dL) + abs2(dR))


REAL = ['%s_%d%d' % (o, i, i) for o in ('phil1', 'phil3', 'phie', 'phiq1', 'phiq3', 'phiu', 'phid') for i in (1, 2, 3)] + ['ll_1221', 'phiD', 'phiWB', 'phiW', 'phiB', 'phiG', 'phiBox']
FREE = ['alpha_e', 'GF', 'm_Z', 's2w', 'm_h', 'm_t', 'alpha_s', 'delta_Gamma*']


def setup(ctx, free=FREE, only=None, width=0.02, scale=ZSCALE):
    par = Par(ctx, width=width, free=[k for k in free if k != 'alpha_e'])
    if 'alpha_e' in free:
        # in terms of the tree-level mixing angle
        s2 = ctx.real('s2', 0.2, 0.25)
        par['alpha_e'] = s2 * (1 - s2) * math.sqrt(2.) * par['GF'] * par['m_Z'] ** 2 / pi
    wc = WCs(ctx, real=REAL, only=only, b=1e-7)
    at = wc.at(scale, 'SMEFT')
    return par, wc, at, Shifts(at, par)


@harness(name='Z partial widths', max_paths=60, time=200)
def partial(ctx):
    f = ctx.choice('f', LEP + list('ucdsb') + ['nu'])
    par, wc, at, sh = setup(ctx)
    if f == 'nu':
        lhs = predict('Gamma(Z->nunu)', wc, par)
        want = sum(gamma_z(at, par, sh, 'nu' + a, 'nu' + b) for a in LEP for b in LEP) / 3
    else:
        lhs = predict('Gamma(Z->%s)' % (2 * f), wc, par)
        want = gamma_z(at, par, sh, f, f)
    ctx.check_eq('width', lhs, want, scale=1.)


@harness(name="Z->ll'", max_paths=60, time=100)
def lfv(ctx):
    a, b = ctx.choice('leptons', [('e', 'mu'), ('e', 'tau'), ('mu', 'tau')])
    par, wc, at, sh = setup(ctx, free=['GF', 'm_Z', 'tau_Z'])
    ctx.check_eq('BR', predict('BR(Z->%s%s)' % (a, b), wc, par), par['tau_Z'] * (gamma_z(at, par, sh, a, b) + gamma_z(at, par, sh, b, a)), scale=1e-4)


FEW = ['phiWB', 'phiD', 'phil1', 'phil3', 'phie', 'll_1221']
QUARKS = ['phiq', 'phiu', 'phid']


@harness(name='Z totals', max_paths=60, time=300)
def totals(ctx):
    which = ctx.choice('observable', ['GammaZ', 'R_l', 'sigma_had', 'R_uc'] + ['R_' + f for f in LEP + list('ucdsb')])
    only = ctx.choice('operators', [FEW if which != 'sigma_had' else ['phil1', 'phil3'], QUARKS])
    par, wc, at, sh = setup(ctx, free=['delta_Gamma*'], only=only)
    g = lambda a, b: gamma_z(at, par, sh, a, b)
    had = sum(g(a, b) for a in 'uc' for b in 'uc') + sum(g(a, b) for a in 'dsb' for b in 'dsb')
    lep = sum(g(l, l) for l in LEP)
    nu = sum(g('nu' + a, 'nu' + b) for a in LEP for b in LEP)
    tot = had + lep + nu + sum(g(a, b) for a in LEP for b in LEP if a != b)
    ctx.assume(had >= 1.)
    ctx.assume(lep >= 0.1)
    ctx.assume(tot >= 1.)
    x = predict(which, wc, par)
    if which == 'GammaZ':
        ctx.check_eq(which, x, tot, scale=1.)
    elif which == 'R_l':
        ctx.check_eq(which, x * lep, 3 * had, scale=1.)
    elif which == 'sigma_had':
        ctx.check_eq(which, x * tot ** 2 * par['m_Z'] ** 2, 12 * pi * g('e', 'e') * had, scale=1.)
    elif which == 'R_uc':
        ctx.check_eq(which, x * had, (g('u', 'u') + g('c', 'c')) / 2, scale=1.)
    else:
        f = which[2:]
        w = g(f, f)
        ctx.assume(w >= 0.01)
        if f in LEP:
            ctx.check_eq(which, x * w, had, scale=1.)
        else:
            ctx.check_eq(which, x * had, w, scale=1.)


@harness(name='Z asymmetries', max_paths=60, time=200)
def asymmetries(ctx):
    f = ctx.choice('f', LEP + list('ucdsb'))
    kind = ctx.choice('kind', ['A', 'AFB'])
    if kind == 'A':
        par, wc, at, sh = setup(ctx, free=['s2w', 'GF', 'alpha_e', 'm_Z'])
    else:
        par, wc, at, sh = setup(ctx, free=['s2w'], only=ctx.choice('operators', [['phie', 'phiu', 'phid'], ['phil1', 'phiq1']]))

    def asym(f):
        """(gL^2 - gR^2) and (gL^2 + gR^2)"""
        dL, dR = couplings(at, par, sh, f, f, s2eff(par, f))
        gL, gR = isospin(f) - CHARGE[f] * s2eff(par, f) + dL, -CHARGE[f] * s2eff(par, f) + dR
        ctx.assume(abs2(gL - gR) >= 1e-4)
        return gL ** 2 - gR ** 2, gL ** 2 + gR ** 2
    n, d = asym(f)
    x = predict('%s(Z->%s)' % (kind, 2 * f), wc, par)
    if kind == 'A':
        ctx.check_eq('A', x * d, n, scale=1.)
    else:
        ne, de = asym('e')
        ctx.check_eq('AFB', x * d * de, 3 / 4 * ne * n, scale=1.)


# W

LEPTONS = [(a, b) for a in LEP for b in LEP]
HADRONS = [(a, b) for a in 'uc' for b in 'dsb']
WFREE = ['GammaW_lep', 'GammaW_had', 'GF', 'm_W']


@harness(name='W couplings', max_paths=60, time=200)
def wcouplings(ctx):
    """shift of the coupling of f1 and its partner f2, in units of g/2"""
    f1, f2 = ctx.choice('fermions', LEPTONS + HADRONS)
    what = ctx.choice('part', ['all', 'own operator'])
    if what == 'all':
        V = patch_ckm(ctx, 1.)
    else:
        ctx.patch(ckm, 'get_ckm', lambda par: np.eye(3))
    par, wc, at, sh = setup(ctx, free=['alpha_e', 'GF', 'm_Z'], scale=WSCALE)
    C = wc.get_wcxf('all', WSCALE, par, 'SMEFT', 'Warsaw')
    i, j = INDEX[f1], INDEX[f2]
    x = gammaw.smeftew.d_gW(f1, f2, par, C)
    universal = sh.dg2 / 4
    if what == 'all':
        if f1 in LEP:
            want = sh.v2 * herm(at, 'phil3', i, j) / 2 + universal * (f1 == f2)
            # only the absolute value is observable
            ctx.check_eq('equal flavours' if f1 == f2 else 'different flavours', abs2(x), abs2(want), scale=1e-3)
        else:
            # up quarks of the basis are V^dagger times the mass eigenstates
            want = sh.v2 / 2 * sum(V[i - 1, k - 1] * herm(at, 'phiq3', k, j) for k in (1, 2, 3)) + V[i - 1, j - 1] * universal
            ctx.check_eq('quark mixing', abs2(x), abs2(want), scale=1e-3)
    else:
        # without mixing
        own = herm(at, ('phil3' if f1 in LEP else 'phiq3'), i, j)
        off = WCs(ctx, only=[('phil3' if f1 in LEP else 'phiq3') + '_%d%d' % (min(i, j), max(i, j))] if f1 not in LEP or i != j else ['phil3_33'], real=REAL, b=1e-7)
        off.cache = wc.cache
        y = gammaw.smeftew.d_gW(f1, f2, par, off.get_wcxf('all', WSCALE, par, 'SMEFT', 'Warsaw'))
        if f1 not in LEP or i != j or i == 3:
            ctx.check_eq('operator', abs2(y), abs2(sh.v2 / 2 * own), scale=1e-3)
        if i == j:
            ctx.check_eq('universal', x, sh.v2 / 2 * own + universal, scale=1e-3)


def sm_widths(par, V, f1, f2):
    if f1 in LEP:
        return (f1 == f2) * 1., par['GammaW_lep'] / 3
    return V[INDEX[f1] - 1, INDEX[f2] - 1], par['GammaW_had'] / 2


@harness(name='W partial widths', max_paths=60, time=200)
def wpartial(ctx):
    """with an arbitrary shift of the coupling"""
    f1, f2 = ctx.choice('fermions', LEPTONS + HADRONS)
    V = patch_ckm(ctx, 1.)
    d = ctx.complex('dg', 1.)
    par, wc, at, sh = setup(ctx, free=WFREE, scale=WSCALE)
    ctx.patch(gammaw.smeftew, 'd_gW', lambda a, b, p, C: d)
    sm, G = sm_widths(par, V, f1, f2)
    N = math.sqrt(2.) * par['GF'] * par['m_W'] ** 3 / (3 * pi) * colours(f1)
    ctx.check_eq('width', gammaw.GammaW(wc, par, f1, f2), G * abs2(sm) + N * (abs2(sm / 2 + d) - abs2(sm / 2)), scale=1.)


@harness(name='W totals', max_paths=60, time=200)
def wtot(ctx):
    """observables with arbitrary partial widths"""
    which = ctx.choice('observable', ['GammaW', 'R(W->cX)'] + ['BR(W->%snu)' % l for l in LEP] + ['R%s%s(W->lnu)' % x for x in (('tau', 'e'), ('mu', 'e'), ('tau', 'mu'))])
    par, wc, at, sh = setup(ctx, free=[], scale=WSCALE)
    G = {p: ctx.real('Gamma %s%s' % p, 0.01, 2.) for p in LEPTONS + HADRONS}
    ctx.patch(gammaw, 'GammaW', lambda w, p, a, b: G[a, b])
    had = {q: sum(G[q, d] for d in 'dsb') for q in 'uc'}
    lep = {l: sum(G[l, a] for a in LEP) for l in LEP}
    hadt = had['u'] + had['c']
    tot = hadt + sum(lep.values())
    x = predict(which, wc, par)
    if which == 'GammaW':
        ctx.check_eq(which, x, tot, scale=1.)
    elif which == 'R(W->cX)':
        ctx.check_eq(which, x * hadt, had['c'], scale=1.)
    elif which.startswith('BR'):
        ctx.check_eq(which, x * tot, lep[which[6:-3]], scale=1.)
    else:
        n, d = {'Rtaue': ('tau', 'e'), 'Rmue': ('mu', 'e'), 'Rtaumu': ('tau', 'mu')}[which[:-8]]
        ctx.check_eq(which, x * lep[d], lep[n], scale=1.)


@harness(name='W mass', time=60)
def wmass(ctx):
    par, wc, at, sh = setup(ctx, free=['alpha_e', 'GF', 'm_Z', 'm_h', 'm_t', 'alpha_s', 'Delta_alpha*'], scale=WSCALE)
    dH, dh, dt = log(par['m_h'] / 100), (par['m_h'] / 100) ** 2, (par['m_t'] / 174.3) ** 2 - 1
    dZ, da, das = par['m_Z'] / 91.1875 - 1, (par['Delta_alpha_e_had'] + par['Delta_alpha_e_lep']) / 0.05907 - 1, par['alpha_s'] / 0.119 - 1
    sm = (80.3779 - 0.05427 * dH - 0.008931 * dH ** 2 + 0.0000882 * dH ** 4 + 0.000161 * (dh - 1) - 1.070 * da + 0.5237 * dt - 0.0679 * dt ** 2
          - 0.00179 * dH * dt + 0.0000664 * dh * dt - 0.0795 * das + 114.9 * dZ)
    ctx.check_eq('mass', predict('m_W', wc, par), sm * (1 + sh.dmW), scale=100.)


# Higgs: linear coefficients in TeV^2; universal parts from the normalisation of the Higgs field and vacuum expectation value

def universal(c, box=0.121, D=-0.030, delta=0.061):
    return {'phiBox': box, 'phiD': D, 'll_1221': delta / 2, 'phil3_11': -delta, 'phil3_22': -delta, **c}


GLUON = {'uphi_33': -0.129, 'uphi_22': 0.123, 'dphi_33': 0.239, 'dphi_22': 0.025}
DEC = {
    'gg': universal({'phiG': 39.29, **GLUON}, D=-0.121 / 4),
    'gammagamma': universal({'phiB': -45.78, 'phiW': -13.75, 'phiWB': 25.09 - 0.242, 'uphi_33': 0.035, 'uphi_22': -0.034, 'dphi_33': -0.017, 'ephi_33': -0.043, 'ephi_22': -0.008}, D=-0.141, delta=0.127),
    'WW': {'phiW': -0.092, 'phiWB': -0.386, 'phiD': -0.205, 'phiBox': 0.121, 'll_1221': 0.144, 'phil3_11': -0.167, 'phil3_22': -0.167},
    'ZZ': universal({'phiB': 0.329, 'phiW': -0.386, 'phiWB': 0.149}, box=0.118, D=-0.039, delta=0.198),
    'Zgamma': {'phiB': 14.89, 'phiW': -14.89, 'phiWB': 9.377},
    'bb': universal({'dphi_33': -5.05}),
    'cc': universal({'uphi_22': -16.49}),
    'tautau': universal({'ephi_33': -11.88}),
    'mumu': universal({'ephi_22': -199.8})}
PROD = {
    'gg': universal({'phiG': 35.86, **GLUON}, D=-0.121 / 4),
    'Wh': universal({'phiW': 0.891, 'phiWB': -0.187, 'phiq3_11': 1.85, 'phiq3_22': 0.126}, D=-0.115, delta=0.173),
    'Zh': universal({'phiB': 0.098, 'phiW': 0.721, 'phiWB': 0.217, 'phiq1_11': -0.187, 'phiq3_11': 1.699, 'phiu_11': 0.456, 'phid_11': -0.148, 'phiq1_22': 0.044, 'phiq3_22': 0.16,
                     'phiu_22': 0.028, 'phid_22': -0.02}, box=0.122, D=-0.015, delta=0.152),
    'tth': universal({'uG_33': -0.853, 'G': 0.146, 'phiG': 0.557, 'uphi_33': -0.119}, box=0.118, delta=0.060),
    'VBF': universal({'phiB': -0.002, 'phiW': -0.088, 'phiWB': -0.319, 'phiq1_11': 0.014, 'phiq3_11': -0.384, 'phiu_11': -0.027, 'phid_11': 0.008, 'phiq1_22': -0.004, 'phiq3_22': -0.075,
                      'phiu_22': -0.004, 'phid_22': 0.002}, D=-0.168, delta=0.277)}
BR = {'bb': 0.5807, 'WW': 0.2154, 'ZZ': 0.02643, 'gg': 0.08179, 'tautau': 0.06256}
XW, XZ = 1.380, 0.8696


def linear(table, at):
    return 1 + 1e6 * sum(c * at(k).real for k, c in table.items())


def average(parts, w, at):
    return sum(w[k] * linear(t, at) for k, t in parts.items()) / sum(w.values())


HREAL = REAL + ['G', 'uG_33']


@harness(name='Higgs signal strengths', max_paths=100, time=400)
def higgs(ctx):
    p = ctx.choice('production', list(PROD) + ['Vh'])
    d = ctx.choice('decay', [k for k in DEC if k != 'gg'] + ['VV'])
    par = Par(ctx, free=['GF'])
    wc = WCs(ctx, b=1e-8)
    at = wc.at(HSCALE, 'SMEFT')
    prod = average({'Wh': PROD['Wh'], 'Zh': PROD['Zh']}, {'Wh': XW, 'Zh': XZ}, at) if p == 'Vh' else linear(PROD[p], at)
    dec = average({k: DEC[k] for k in ('WW', 'ZZ')}, {k: BR[k] for k in ('WW', 'ZZ')}, at) if d == 'VV' else linear(DEC[d], at)
    # total width: interference in the largest modes; light quarks with a coupling v^2 C/sqrt2 squared
    width = 1 + sum(BR[k] * (linear(DEC[k], at) - 1) for k in BR)
    for q in ('u', 'd'):
        for i in (1, 2):
            y2 = abs2(at('%sphi_%d%d' % (q, i, i))) / (math.sqrt(2.) * par['GF']) ** 2 / 2
            width = width + 3 * y2 / (8 * pi) / (4.101e-3 / 125.10)
    ctx.assume(width >= 0.01)
    ctx.check_eq('mu', predict('mu_%s(h->%s)' % (p, d), wc, par) * width, prod * dec, scale=1.)


@harness(name='Higgs coefficients')
def higgs_coefficients(ctx):
    """what the operators imply for the coefficients of the code: Higgs field normalisation, Yukawa couplings, SU(2) relations"""
    from flavio.physics.higgs import decay, production
    v = 1 / math.sqrt(math.sqrt(2) * CENTRAL['GF']) / 1e3   # TeV
    s2, t2 = 0.2312, 0.2312 / 0.7688

    def coef(f, name):
        class C(dict):
            def __missing__(self, k):
                return 1e-6 * (k == name)
        return float(f(C()) - 1)

    def near(label, x, y, tol):
        ctx.check_le(label, abs(x - y), tol * abs(y))
    for n, f, m in (('dphi_33', decay.h_bb, 4.18e-3), ('uphi_22', decay.h_cc, 1.28e-3), ('ephi_33', decay.h_tautau, 1.777e-3), ('ephi_22', decay.h_mumu, 0.10566e-3)):
        near(n, coef(f, n), -math.sqrt(2) * v ** 3 / m, 0.01)
    for name, f in (('bb', decay.h_bb), ('cc', decay.h_cc), ('tautau', decay.h_tautau), ('mumu', decay.h_mumu), ('gg', decay.h_gg), ('ggF', production.ggF)):
        near(name + ' phiBox', coef(f, 'phiBox'), 2 * v ** 2, 0.02)
        near(name + ' phiD', coef(f, 'phiD'), -v ** 2 / 2, 0.02)
        near(name + ' phil3_11', coef(f, 'phil3_11'), -v ** 2, 0.02)
        near(name + ' phil3_22', coef(f, 'phil3_22'), -v ** 2, 0.02)
        near(name + ' ll_1221', coef(f, 'll_1221'), v ** 2 / 2, 0.02)
    near('gammagamma', coef(decay.h_gaga, 'phiW') / coef(decay.h_gaga, 'phiB'), t2, 0.02)
    near('gammagamma mixed', coef(decay.h_gaga, 'phiWB') / coef(decay.h_gaga, 'phiB'), -math.sqrt(t2), 0.02)
    near('Zgamma', coef(decay.h_zga, 'phiW'), -coef(decay.h_zga, 'phiB'), 1e-6)
    # tan(2 theta) between the coefficients of (W - B) and WB
    near('Zgamma mixed', coef(decay.h_zga, 'phiWB') / coef(decay.h_zga, 'phiB'), (1 - 2 * s2) / math.sqrt(s2 * (1 - s2)) / 2, 0.02)
