"""Quarkonium decays to leptons follow from the effective operators."""
import itertools
import math
import numpy as np
import flavio
import flavio.physics.quarkonium.Vll as Vll
import flavio.physics.quarkonium.Pll as Pll
import flavio.physics.quarkonium.Sll as Sll
import flavio.physics.quarkonium.Vllgamma as Vllgamma
import flavio.physics.running.running as running
from engine.run import harness
from engine.num import sqrt, abs2, conj, pi, lam
from engine.phys import Par, WCs, Running, predict, CENTRAL
from checks.F15 import G, G5, MET, PL, PR, sigma, slash, bar

EXPLANATION = (
    'The predictions for decays of vector, pseudoscalar and scalar quarkonia to (equally or differently flavoured) leptons, and of vectors to leptons and a photon, are executed with symbolic coefficients of all operators of the WCxf basis, '
    'masses, lifetimes and decay constants, and compared with two-body rates of the amplitudes following from the operator definitions: which lepton of the operator is annihilated, hermitian conjugates, dipoles with photon exchange, interference terms linear in each lepton mass. '
    'Squared amplitudes of the reference are validated with explicit Dirac matrices; for radiative decays the phase space integrals are computed from traces of the annihilating quark pair.')
BOUNDS = 'parameters within 10% of their central values; Wilson coefficients up to 2 in size (arbitrary size by homogeneity)'
ASSUMPTIONS = ['floats treated as reals', 'running couplings are uninterpreted', 'in radiative decays the lighter lepton is massless and the quarkonium nonrelativistic, as in the cited literature',
               'coefficients of operators with two gluons or photons given as arguments enter as in the cited literature; in sums over both charges of the leptons, the index i is the lighter lepton', 'coefficients of hermitian operators are real']

VS = {'J/psi': ('cc', 2 / 3), 'psi(2S)': ('cc', 2 / 3), 'Upsilon(1S)': ('bb', -1 / 3), 'Upsilon(2S)': ('bb', -1 / 3), 'Upsilon(3S)': ('bb', -1 / 3)}
PS = {'eta_c(1S)': 'cc', 'eta_b(1S)': 'bb'}
SS = {'chi_c0(1P)': 'cc', 'chi_b0(1P)': 'bb', 'chi_b0(2P)': 'bb'}
LFV = [('e', 'mu'), ('mu', 'e'), ('e', 'tau'), ('tau', 'e'), ('mu', 'tau'), ('tau', 'mu')]
# vector operators of the basis exist for one order: (bar b a) is called ab
ORDER = {('e', 'mu'): 'mue', ('mu', 'e'): 'mue', ('e', 'tau'): 'taue', ('tau', 'e'): 'taue', ('mu', 'tau'): 'taumu', ('tau', 'mu'): 'taumu'}


def scale(M):
    return flavio.config['renormalization scale'][M]


# squared amplitudes of M -> l(m) + antilepton(mb)

def vector_amp2(M, m, mb, VL, VR, TL, TR):
    """average over polarisations of |lbar eps (VL PL + VR PR)/2 l' + 2i/M lbar sigma^mu nu eps_mu p_nu (TL PL + TR PR) l'|^2"""
    a, b, s = m * m, mb * mb, M * M
    vv = (abs2(VL) + abs2(VR)) * (2 * s - a - b - (a - b) ** 2 / s) / 12 + m * mb * (VL * conj(VR)).real
    tt = 4 / 3 * (abs2(TL) + abs2(TR)) * (s + a + b - 2 * (a - b) ** 2 / s) + 16 * m * mb * (TL * conj(TR)).real
    # a massless antilepton has the same chirality in both
    vt = 2 * m * (VL * conj(TL) + VR * conj(TR)).real * (s - a + b) / M + 2 * mb * (VL * conj(TR) + VR * conj(TL)).real * (s - b + a) / M
    return vv + tt + vt


def numeric_vector(M, m, mb, VL, VR, TL, TR):
    k = math.sqrt((M * M - (m + mb) ** 2) * (M * M - (m - mb) ** 2)) / 2 / M
    p1, p2 = np.array([math.sqrt(k * k + m * m), 0, 0, k]), np.array([math.sqrt(k * k + mb * mb), 0, 0, -k])
    p = p1 + p2
    pl = MET @ p
    A = [G[i] @ (VL * PL + VR * PR) / 2 + 2j / M * sum(sigma(i, n) * pl[n] for n in range(4)) @ (TL * PL + TR * PR) for i in range(4)]   # upper index
    r = 0.
    for i in range(4):
        for j in range(4):
            pol = (-MET[i, j] + pl[i] * pl[j] / M ** 2)
            if pol:
                r += pol * np.trace((slash(p1) + m * np.eye(4)) @ A[i] @ (slash(p2) - mb * np.eye(4)) @ bar(A[j])).real
    return r / 3


def scalar_amp2(M, m, mb, SL, SR):
    """|lbar (SL PL + SR PR) l'|^2"""
    return (abs2(SL) + abs2(SR)) * (M * M - m * m - mb * mb) - 4 * m * mb * (SL * conj(SR)).real


@harness(name='traces')
def traces(ctx):
    r = np.random.RandomState(3)
    for i in range(4):
        args = (3. + 0.1 * i, 0.3, 0.8, *[complex(*r.normal(size=2)) for _ in range(4)])
        ctx.check_eq('%d' % i, float(vector_amp2(*args)), numeric_vector(*args), tol=1e-9)


def momentum(M, m1, m2):
    return sqrt(lam(M * M, m1 * m1, m2 * m2)) / (2 * M)


def vectors(at, qq, l1, l2):
    """coefficients of (l2bar gamma PX l1)(qbar gamma PY q)"""
    ll = ORDER[l1, l2]
    f = (lambda x: x) if ll == l1 + l2 else conj
    return {'LL': f(at('CVLL_' + ll + qq)), 'RR': f(at('CVRR_' + ll + qq)), 'LR': f(at('CVLR_' + ll + qq)), 'RL': f(at('CVLR_' + qq + ll))}


def vll_rate(par, run, at, M, l1, l2):
    """decay to l2 and the antilepton of l1"""
    qq, Q = VS[M]
    mV, f, fT = par['m_' + M], par['f_' + M], par['fT_' + M]
    aem = run('alpha_e', scale(M))
    e = sqrt(4 * pi * aem)
    if l1 == l2:
        N = 4 * par['GF'] / math.sqrt(2.)
        ll = l1 + l1
        # photon exchange between the currents
        ph = -2 * Q * (4 * pi * aem) / mV ** 2
        VL = f * mV * (N * (at('CVLL_' + ll + qq) + at('CVLR_' + ll + qq)) + ph)
        VR = f * mV * (N * (at('CVRR_' + ll + qq) + at('CVLR_' + qq + ll)) + ph)
        TR = N * (fT * mV * at('CTRR_' + ll + qq) - e * Q * f * e / (16 * pi ** 2) * par['m_' + l1] * at('C7_' + ll))
        TL = conj(TR)
    else:
        v = vectors(at, qq, l1, l2)
        VL, VR = f * mV * (v['LL'] + v['LR']), f * mV * (v['RR'] + v['RL'])
        TR = fT * mV * at('CTRR_' + l1 + l2 + qq) - e * Q * f * at('Cgamma_' + l1 + l2)
        TL = conj(fT * mV * at('CTRR_' + l2 + l1 + qq) - e * Q * f * at('Cgamma_' + l2 + l1))
    k = momentum(mV, par['m_' + l1], par['m_' + l2])
    return k / (8 * pi * mV ** 2) * vector_amp2(mV, par['m_' + l2], par['m_' + l1], VL, VR, TL, TR)


def name(kind, M, modes):
    return '%s(%s->%s)' % (kind, M, ','.join(a + b for a, b in modes))


REAL = ['CV%s_%s' % (t, n) for t in ('LL', 'RR', 'LR') for l in ('ee', 'mumu', 'tautau') for q in ('cc', 'bb') for n in (l + q, q + l)]


@harness(name='V->ll', max_paths=60, time=200)
def vll(ctx):
    M, l = ctx.choice('V', list(VS)), ctx.choice('l', ['e', 'mu', 'tau'])
    if l == 'tau' and M == 'J/psi':
        return
    par = Par(ctx, width=0.02, free=['m_' + M, 'tau_' + M, 'f_' + M, 'fT_' + M, 'GF'])
    run, wc = Running(ctx), WCs(ctx, real=REAL)
    at = wc.at(scale(M), 'WET')
    ctx.check_eq('BR', predict(name('BR', M, [(l, l)]), wc, par) / par['tau_' + M], vll_rate(par, run, at, M, l, l), scale=1e-6)


def modes(ctx, M):
    m = ctx.choice('leptons', LFV + ['sum emu', 'sum mue', 'sum etau', 'sum taue', 'sum mutau', 'sum taumu'])
    if isinstance(m, tuple):
        return [m]
    a, b = {'sum emu': ('e', 'mu'), 'sum mue': ('mu', 'e'), 'sum etau': ('e', 'tau'), 'sum taue': ('tau', 'e'), 'sum mutau': ('mu', 'tau'), 'sum taumu': ('tau', 'mu')}[m]
    return [(a, b), (b, a)]


GROUPS = [('CV',), ('CV', 'CTRR'), ('CV', 'Cgamma'), ('CTRR', 'Cgamma')]


def lfv(M, heavy=True):
    def h(ctx):
        ms = modes(ctx, M)
        only = ctx.choice('operators', GROUPS)
        par = Par(ctx, free=['m_' + M, 'tau_' + M, 'f_' + M, 'fT_' + M])
        run, wc = Running(ctx), WCs(ctx, only=only)
        at = wc.at(scale(M), 'WET')
        want = sum(vll_rate(par, run, at, M, *m) for m in ms)
        ctx.check_eq('BR', predict(name('BR', M, ms), wc, par) / par['tau_' + M], want, scale=1e-3)
    return h


from engine.run import add_harness
for M in VS:
    add_harness(__name__, lfv(M), "V->ll' " + M, max_paths=60, time=200, tier='quick' if M in ('J/psi', 'Upsilon(1S)') else 'thorough')


@harness(name="V->ll' ratios", max_paths=60, time=100)
def ratios(ctx):
    M = ctx.choice('V', list(VS))
    ms = modes(ctx, M)
    par = Par(ctx, free=['f_' + M])
    run, wc = Running(ctx, fixed=True), WCs(ctx, only=('CVLL',), real=REAL)
    at = wc.at(scale(M), 'WET')
    den = vll_rate(par, run, at, M, 'e', 'e')
    ctx.assume(den >= 1e-10)
    ctx.check_eq('ratio', predict(name('R', M, ms), wc, par) * den, sum(vll_rate(par, run, at, M, *m) for m in ms), scale=1e-3)


@harness(name="P->ll'", max_paths=200, time=200)
def pll(ctx):
    M = ctx.choice('P', list(PS))
    qq = PS[M]
    ms = modes(ctx, M)
    only = ctx.choice('operators', [('CV',), ('CVLL', 'CVRR', 'CS'), ('CVLR', 'CS')])
    par = Par(ctx, free=['m_' + M, 'tau_' + M, 'f_' + M, 'm_' + qq[0]])
    run, wc = Running(ctx), WCs(ctx, only=only)
    at = wc.at(scale(M), 'WET')
    GG = {'CeGGij': ctx.complex('GGij'), 'CeGGji': ctx.complex('GGji')} if ctx.choice('gluons', [False, True]) else {}
    f, m = par['f_' + M], par['m_' + M]
    an = ctx.real('anomaly', 0.1, 0.3) if GG else 0.
    par['a_' + M] = an
    want = 0.
    first = labelled(ms)
    for l1, l2 in ms:
        m1, m2 = par['m_' + l1], par['m_' + l2]
        v = vectors(at, qq, l1, l2)
        # <0|qbar gamma^mu gamma5 q|P> = i f p^mu and <0|qbar gamma5 q|P> = -i h/(2 m_q); equations of motion for the leptons; common factor -i
        aL, aR = -f / 2 * (v['LR'] - v['LL']), -f / 2 * (v['RR'] - v['RL'])
        h = (m * m * f - an) / (4 * par['m_' + qq[0]])
        SR = h * (at('CSRR_' + l1 + l2 + qq) - at('CSRL_' + l1 + l2 + qq)) + m2 * aR - m1 * aL
        SL = h * conj(at('CSRL_' + l2 + l1 + qq) - at('CSRR_' + l2 + l1 + qq)) + m2 * aL - m1 * aR
        if GG:
            c = 1j * an * 4 * pi / run('alpha_s', scale(M))
            i, j = ('CeGGij', 'CeGGji') if (l1, l2) == first else ('CeGGji', 'CeGGij')
            SR, SL = SR + c * GG[i], SL + c * conj(GG[j])
        want = want + momentum(m, m1, m2) / (8 * pi * m ** 2) * scalar_amp2(m, m2, m1, SL, SR)
    ctx.check_eq('BR', predict(name('BR', M, ms), wc, par, **GG) / par['tau_' + M], want, scale=1e-3)


def labelled(ms):
    """the mode whose leptons are called i and j: in sums, the lighter one comes first"""
    return ms[0] if len(ms) == 1 else min(ms, key=lambda m: CENTRAL['m_' + m[0]])


@harness(name="S->ll'", max_paths=200, time=200)
def sll(ctx):
    M = ctx.choice('S', list(SS))
    qq = SS[M]
    ms = modes(ctx, M)
    par = Par(ctx, free=['m_' + M, 'tau_' + M, 'f_' + M])
    run, wc = Running(ctx), WCs(ctx)
    at = wc.at(scale(M), 'WET')
    f, m = par['f_' + M], par['m_' + M]
    GG = {'CeGGij': ctx.complex('GGij'), 'CeGGji': ctx.complex('GGji')} if ctx.choice('gluons', [False, True]) else {}
    par['a_' + M] = ctx.real('anomaly', 0.1, 0.3) if GG else 0.
    c = par['a_' + M] * 4 * pi / run('alpha_s', scale(M))
    want = 0.
    first = labelled(ms)
    for l1, l2 in ms:
        m1, m2 = par['m_' + l1], par['m_' + l2]
        SR = m * f / 2 * (at('CSRR_' + l1 + l2 + qq) + at('CSRL_' + l1 + l2 + qq))
        SL = m * f / 2 * conj(at('CSRR_' + l2 + l1 + qq) + at('CSRL_' + l2 + l1 + qq))
        if GG:
            i, j = ('CeGGij', 'CeGGji') if (l1, l2) == first else ('CeGGji', 'CeGGij')
            SR, SL = SR - c * GG[i], SL - c * conj(GG[j])
        want = want + momentum(m, m1, m2) / (8 * pi * m ** 2) * scalar_amp2(m, m2, m1, SL, SR)
    ctx.check_eq('BR', predict(name('BR', M, ms), wc, par, **GG) / par['tau_' + M], want, scale=1e-3)


# V -> l l' gamma: annihilation of a nonrelativistic quark pair with emission of a photon

def photon_sum(f):
    """sum over photon polarisations (gauge invariant amplitudes)"""
    return sum(-MET[i, i] * f(i) for i in range(4))


def levi_civita(a, b, c, nu):
    return sum(EPS.get((i, j, k, nu), 0) * a[i] * b[j] * c[k] for i in range(4) for j in range(4) for k in range(4))


EPS = {p: round(np.linalg.det(np.eye(4)[list(p)])) for p in itertools.permutations(range(4))}


def radiative_form(y, heavy_antilepton, n=24):
    """rate for V of unit mass, unit decay constant and unit charge e Q, as Hermitian form in the coefficients of
    (lbar gamma_mu P_X l')(qbar gamma^mu gamma5 q)/2 [AL, AR], (lbar P_X l')(qbar q)/2 [SL, SR], (lbar P_X l')(qbar gamma5 q)/2 [PL, PR] and (lbar P_X l') F F [FL, FR], F Fdual [DL, DR]"""
    key = (y, heavy_antilepton)
    if key in radiative_form.cache:
        return radiative_form.cache[key]
    p = np.array([1., 0, 0, 0])
    m = y
    one = np.eye(4)
    eps = [np.array([0, *e]) for e in np.eye(3)]
    mq = 1 / 2
    xs, ws = np.polynomial.legendre.leggauss(n)
    cs, cw = np.polynomial.legendre.leggauss(6)
    T = np.zeros((10, 10), dtype=complex)
    for x, w in zip(xs, ws):
        # q2 in (m^2, 1); substitution keeps the integrand smooth
        q2 = m * m * (1 / (m * m)) ** ((x + 1) / 2) if m else (x + 1) / 2
        jac = q2 * math.log(1 / m ** 2) / 2 * w if m else w / 2
        E = (1 - q2) / 2
        k = np.array([E, 0, 0, E])
        kl = MET @ k
        Q = p - k
        had = {}
        for a, e in enumerate(eps):
            Pi = (slash(p) + one) @ slash(e) / 4   # <0|qbar gamma^mu q|V> = f M eps^mu
            for nu in range(4):
                g = G[nu]
                S1 = (slash(p / 2 - k) + mq * one) / (-E)
                S2 = (slash(k - p / 2) + mq * one) / (-E)

                def tr(Gam):
                    return np.trace(Pi @ (Gam @ S1 @ g + g @ S2 @ Gam))
                # photon field of the annihilating quarks: A = - e Q f M eps/M^2, F_mu nu F^mu nu = 2 * 2 ((-i p)(i k) ...)
                eu = e
                # F F: two ways to choose the fields; 2 * F1_{mu nu} F2^{mu nu} with F1 = -i (p_mu A_nu - p_nu A_mu), F2 = i (k_mu e_nu - k_nu e_mu)
                # = 2 * 2 (p.k A.e* - p.e* A.k), A = -eps, e*^nu = unit vector along nu (index raised below)
                ff = 4 * ((p @ kl) * (-eu[nu]) - p[nu] * (-(eu @ kl)))
                # F Fdual with Fdual^mu nu = epsilon^mu nu rho sigma F_rho sigma/2: 2 * 2 epsilon^mu nu rho sigma (p_mu A_nu k_rho e_sigma)
                dual = 4 * levi_civita(MET @ p, MET @ -eu, kl, nu)
                had[a, nu] = ([tr(G[i] @ G5 / 2) for i in range(4)], tr(one / 2), tr(G5 / 2), ff, dual)
        for c, cwt in zip(cs, cw):
            # leptons in the rest frame of Q
            rq = math.sqrt(q2)
            kk = (q2 - m * m) / 2 / rq
            Em = math.sqrt(kk * kk + m * m)
            s = math.sqrt(1 - c * c)
            g_, b_ = Q[0] / rq, Q[3] / Q[0]
            boost = lambda v: np.array([g_ * (v[0] + b_ * v[3]), v[1], v[2], g_ * (v[3] + b_ * v[0])])
            hv, lt = boost(np.array([Em, kk * s, 0, kk * c])), boost(np.array([kk, -kk * s, 0, -kk * c]))
            if heavy_antilepton:
                lep, anti = slash(lt), slash(hv) - m * one
            else:
                lep, anti = slash(hv) + m * one, slash(lt)
            L = {'V': [[MET[i, i] * G[i] @ P for i in range(4)] for P in (PL, PR)], 'S': [PL, PR]}
            ps = jac / (2 * math.pi) * (1 - q2) / (8 * math.pi) * (1 - m * m / q2) / (8 * math.pi) * cwt / 2
            for (a, nu), (A, S, P, F, D) in had.items():
                ops = [sum(A[i] * L['V'][x][i] for i in range(4)) for x in (0, 1)]
                ops += [S * L['S'][x] for x in (0, 1)] + [P * L['S'][x] for x in (0, 1)] + [F * L['S'][x] for x in (0, 1)] + [D * L['S'][x] for x in (0, 1)]
                M = [lep @ o @ anti for o in ops]
                for i in range(10):
                    for j in range(10):
                        T[i, j] += -MET[nu, nu] * np.trace(M[i] @ bar(ops[j])) * ps / 3 / 2
    radiative_form.cache[key] = np.where(abs(T) < 1e-13, 0, T)
    return radiative_form.cache[key]


radiative_form.cache = {}


def radiative_rate(par, run, at, M, l1, l2, args):
    """of V -> l1 l2 gamma"""
    qq, Q = VS[M]
    mV = par['m_' + M]
    e2 = 4 * pi * run('alpha_e', scale(M))
    heavy1 = CENTRAL['m_' + l1] > CENTRAL['m_' + l2]
    T = radiative_form(max(par['m_' + l1], par['m_' + l2]) / mV, heavy1)
    v = vectors(at, qq, l1, l2)
    f = lambda n: at(n + '_' + l1 + l2 + qq)
    g = lambda n: conj(at(n + '_' + l2 + l1 + qq))
    c = [v['LR'] - v['LL'], v['RR'] - v['RL'], g('CSRR') + g('CSRL'), f('CSRR') + f('CSRL'), g('CSRL') - g('CSRR'), f('CSRR') - f('CSRL'),
         *[0.] * 4]
    if args:
        # epsilon^0123 = -1
        c[6:] = [conj(args['CeFFji']) * mV, args['CeFFij'] * mV, -conj(args['CeFFtildeji']) * mV, -args['CeFFtildeij'] * mV]
    tot = 0.
    for i in range(10):
        for j in range(10):
            if T[i, j] != 0 and not (isinstance(c[i], float) or isinstance(c[j], float)):
                w = c[i] * conj(c[j])
                tot = tot + T[i, j].real * w.real - T[i, j].imag * w.imag
    return tot * e2 * Q ** 2 * par['f_' + M] ** 2 * mV ** 3


def radiative(M):
    def h(ctx):
        ms = modes(ctx, M)
        only = ctx.choice('operators', [('CV',), ('CS',), ('CVLL', 'CSRR'), ('CVLR', 'CSRL'), ('CVRR', 'CS')])
        ff = ctx.choice('two photons', [False, True])
        par = Par(ctx, free=['tau_' + M, 'f_' + M])
        run, wc = Running(ctx), WCs(ctx, only=only)
        at = wc.at(scale(M), 'WET')
        args = {n: ctx.complex(n) for n in ('CeFFij', 'CeFFji', 'CeFFtildeij', 'CeFFtildeji')} if ff else {}
        other = {n: args[n[:-2] + n[-1] + n[-2]] for n in args}
        want = sum(radiative_rate(par, run, at, M, *m, args if m == labelled(ms) else other) for m in ms)
        got = predict(name('BR', M, ms)[:-1] + 'gamma)', wc, par, **args)
        ctx.check_eq('BR', got / par['tau_' + M], want, scale=1e-3, tol=1e-6)
    return h


def radiative_ratio(ctx):
    """to V -> e+ e-"""
    M = ctx.choice('V', list(VS))
    ms = modes(ctx, M)
    par = Par(ctx, free=['f_' + M])
    run, wc = Running(ctx, fixed=True), WCs(ctx, only=('CVLL', 'CSRR'), real=REAL)
    at = wc.at(scale(M), 'WET')
    args = {n: ctx.complex(n) for n in ('CeFFij', 'CeFFji')}
    other = {n: args[n[:-2] + n[-1] + n[-2]] for n in args}
    zero = {'CeFFtildeij': 0., 'CeFFtildeji': 0.}
    den = vll_rate(par, run, at, M, 'e', 'e')
    ctx.assume(den >= 1e-10)
    want = sum(radiative_rate(par, run, at, M, *m, dict(args if m == labelled(ms) else other, **{n: 0j for n in zero})) for m in ms)
    ctx.check_eq('ratio', predict(name('R', M, ms)[:-1] + 'gamma)', wc, par, **args) * den, want, scale=1e-3, tol=1e-6)


for M in VS:
    add_harness(__name__, radiative(M), "V->ll'gamma " + M, max_paths=130, time=300, tier='quick' if M in ('J/psi', 'Upsilon(1S)') else 'thorough')
add_harness(__name__, radiative_ratio, "V->ll'gamma ratios", max_paths=60, time=100)
