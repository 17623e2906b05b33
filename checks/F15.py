"""Nuclear beta decays and dipole moments follow from the effective operators."""
import math
from fractions import Fraction
import numpy as np
import flavio
import flavio.physics.betadecays.common as betacommon
import flavio.physics.betadecays.ft as ft
import flavio.physics.edms.common as edms
import flavio.physics.edms.neutronedm
import flavio.physics.edms.paraedm as paraedm
import flavio.physics.edms.slcouplings
import flavio.physics.mdms.al
import flavio.physics.taudecays.taulnunu as taulnunu
from flavio.physics.bdecays.wilsoncoefficients import get_CVLSM
from engine.run import harness
from engine.num import sqrt, abs2, conj, pi
from engine.phys import Par, WCs, Running, patch_ckm, predict, CENTRAL

EXPLANATION = (
    'The predictions for neutron and superallowed nuclear beta decays (lifetime, Ft values, correlation coefficients) are executed with symbolic coefficients of the vector, scalar and tensor charged-current operators, charges and radiative corrections. '
    'The reference is bilinear in the amplitudes of nucleons at rest, with coefficients obtained from traces of Dirac matrices over lepton and nucleon spins: the angular structures are isolated by finite differences, exact because the distribution is multilinear. '
    'Functions for general nuclear matrix elements, spins, electrons and positrons are executed with arbitrary complex couplings. '
    'Dipole moments of leptons, neutron, atoms and molecules are compared with the sums of matrix elements that follow from the normalisation of the operators.')
BOUNDS = 'parameters within 10% of their central values; Wilson coefficients up to 2 in size (0.3 for relative corrections to charged currents); nuclear spins up to 3'
ASSUMPTIONS = ['floats treated as reals', 'running couplings and masses, CKM elements and the effective Fermi constant are uninterpreted (the latter is decided by F11)', 'atomic numbers of paramagnetic systems, transition energies and mean inverse energies are read from the tables of the code',
               'nonrelativistic nucleons and leading order in recoil, as in the cited literature; electron antineutrinos only', 'the induced pseudoscalar coupling does not contribute at this order']


def opt(k):
    return flavio.config['renormalization scale'][k]


# distribution of a polarised nucleon at rest, from Dirac matrices

def dirac():
    s = [np.array(m, dtype=complex) for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]
    one, zero = np.eye(2), np.zeros((2, 2))
    g = [np.block([[one, zero], [zero, -one]])] + [np.block([[zero, x], [-x, zero]]) for x in s]
    return g, 1j * g[0] @ g[1] @ g[2] @ g[3], np.diag([1., -1, -1, -1]), s


G, G5, MET, PAULI = dirac()
PL, PR = (np.eye(4) - G5) / 2, (np.eye(4) + G5) / 2
KINDS = 'VAST'


def sigma(i, j):
    return 1j / 2 * (G[i] @ G[j] - G[j] @ G[i])


def pieces(kind):
    """hadron and lepton matrices of (u Gamma d)(e Gamma' nu); vector: (V - A)/2 with the two parts separate"""
    if kind == 'V':
        return [(G[m] / 2 * MET[m, m], G[m] @ PL) for m in range(4)]
    if kind == 'A':
        return [(-G[m] @ G5 / 2 * MET[m, m], G[m] @ PL) for m in range(4)]
    if kind == 'S':
        return [(np.eye(4) / 2, PL)]
    return [(sigma(m, n) @ PL * MET[m, m] * MET[n, n], sigma(m, n) @ PL) for m in range(4) for n in range(4)]


def bar(m):
    return G[0] @ m.conj().T @ G[0]


def slash(p):
    return sum(MET[i, i] * G[i] * p[i] for i in range(4))


def amplitude(kind, s):
    out = []
    for h, l in pieces(kind):
        if s < 0:
            h, l = bar(h), bar(l)
        out.append(((G[0] @ h)[:2, :2], l))   # nucleon at rest: upper components
    return out


def weights(s, J, n, E, k, pol=None):
    """Hermitian matrix T: rate sum_ij c_i conj(c_j) T_ij for nucleon polarisation J, electron (positron for s < 0) momentum along n with energy E
    (mass 1), neutrino direction k; electron spin summed or projected on pol"""
    p = math.sqrt(E * E - 1) * np.array(n, dtype=float)
    pe, kn = np.array([E, *p]), np.array([1., *k])
    lep = slash(pe) + s * np.eye(4)
    if pol is not None:
        pol = np.array(pol, dtype=float)
        sp = np.array([p @ pol, *(pol + p * (p @ pol) / (E + 1))])
        lep = lep @ (np.eye(4) + G5 @ slash(sp)) / 2
    rho = (np.eye(2) + sum(J[i] * PAULI[i] for i in range(3))) / 2
    nu = slash(kn)
    A = {x: amplitude(x, s) for x in KINDS}
    T = np.zeros((4, 4), dtype=complex)
    for i, x in enumerate(KINDS):
        for j, y in enumerate(KINDS):
            for h, l in A[x]:
                for h2, l2 in A[y]:
                    had = np.trace(h @ rho @ h2.conj().T)
                    if had != 0:
                        T[i, j] += had * np.trace(lep @ l @ nu @ bar(l2) if s > 0 else nu @ l @ lep @ bar(l2)) / E
    return T if s > 0 else T.T   # conjugate coefficients for the inverse transition


def structures(s):
    """coefficient matrices of 1, m/E, pe.pnu, J.pe, J.pnu, m/E J.pnu, J.(pe x pnu), sigma.(J x pe), by finite differences"""
    if s in structures.cache:
        return structures.cache[s]
    E, z, zero = 2., (0, 0, 1.), (0, 0, 0.)
    x, y = (1., 0, 0), (0, 1., 0)
    neg = lambda v: tuple(-a for a in v)
    v = math.sqrt(E * E - 1) / E

    def mean(J, fs, f=weights, E=E):
        return sum(c * f(s, J, *a) for c, *a in fs) / len(fs)
    dirs = lambda E, J=zero: sum(weights(s, J, n, E, k) for n in (z, neg(z)) for k in (z, neg(z))) / 4
    out = {}
    # 1 and m/E: two energies
    e1, e2 = dirs(2.), dirs(4.)
    out['b'] = (e1 - e2) / (1 / 2. - 1 / 4.)
    out['1'] = e1 - out['b'] / 2
    out['a'] = sum((1 if n == k else -1) * weights(s, zero, n, E, k) for n in (z, neg(z)) for k in (z, neg(z))) / 4 / v
    J = lambda f: (f(z) - f(neg(z))) / 2
    out['A'] = J(lambda j: sum(sg * weights(s, j, tuple(sg * a for a in z), E, k) for sg in (1, -1) for k in (x, neg(x))) / 4) / v
    Bs = lambda E: J(lambda j: sum(sg * weights(s, j, n, E, tuple(sg * a for a in z)) for sg in (1, -1) for n in (x, neg(x))) / 4)
    b1, b2 = Bs(2.), Bs(4.)
    out['Bm'] = (b1 - b2) / (1 / 2. - 1 / 4.)
    out['B'] = b1 - out['Bm'] / 2
    out['D'] = J(lambda j: sum(sn * sk * weights(s, j, tuple(sn * a for a in x), E, tuple(sk * a for a in y)) for sn in (1, -1) for sk in (1, -1)) / 4) / v
    # sigma.(J x pe): J = z, pe = x, sigma = y
    out['R'] = J(lambda j: sum(sp * sn * weights(s, j, tuple(sn * a for a in x), E, k, tuple(sp * a for a in y)) for sp in (1, -1) for sn in (1, -1) for k in (z, neg(z), x, neg(x), y, neg(y))) / 24) / v
    structures.cache[s] = {k: np.where(abs(m) < 1e-12, 0, m) for k, m in out.items()}
    return structures.cache[s]


structures.cache = {}


def rational(x):
    # entries are small rationals
    r = Fraction(x).limit_denominator(64)
    assert abs(r - Fraction(x)) < 1e-9
    return float(r)


def form(s, which, c):
    """sum_ij c_i conj(c_j) T_ij"""
    T, tot = structures(s)[which], 0.
    for i in range(4):
        for j in range(4):
            if T[i, j] == 0 or c[i] is None or c[j] is None:
                continue
            w = c[i] * conj(c[j])
            tot = tot + rational(T[i, j].real) * w.real - rational(T[i, j].imag) * w.imag
    return tot


def norm(s=1):
    return rational(structures(s)['1'][0, 0].real)


def correlations(s, c, gamma=1.):
    """xi and products of xi with the correlation coefficients"""
    N = norm()
    out = {k: form(s, k, c) / N for k in ('1', 'a', 'A', 'B', 'Bm', 'D')}
    out['b'] = gamma * form(s, 'b', c) / N
    out['R'] = 2 * form(s, 'R', c) / N   # spin projected rate: half
    return out


@harness(name='couplings', max_paths=20)
def couplings(ctx):
    # functions of Lee-Yang couplings, spin 1/2 to 1/2
    s = ctx.choice('lepton', [1, -1])
    C = {k: ctx.complex('C' + k) for k in KINDS}
    MF, MGT = ctx.real('MF', 0.5, 2.), ctx.real('MGT', 0.5, 2.)
    Z, x = ctx.choice('Z', [0, 6, 37]), ctx.real('me_E', 0., 1.)
    alpha = ctx.real('alpha', 0.006, 0.008)
    c = [C['V'] * MF, -C['A'] * MGT / math.sqrt(3.), C['S'] * MF, C['T'] * MGT / math.sqrt(3.) / 4]
    ref = correlations(s, c, sqrt(1 - alpha ** 2 * Z ** 2))
    J = 1 / 2
    ctx.check_eq('xi', ft.xi(C, MF, MGT), 2 * ref['1'])
    ctx.check_eq('a', ft.a_xi(C, MF, MGT), 2 * ref['a'])
    ctx.check_eq('b', ft.b_xi(C, MF, MGT, alpha, Z, s), 2 * ref['b'])
    ctx.check_eq('A', ft.A_xi(C, MF, MGT, J, J, s), 2 * ref['A'])
    ctx.check_eq('B', ft.B_xi(C, MF, MGT, J, J, x, s), 2 * (ref['B'] + x * ref['Bm']))
    ctx.check_eq('D', ft.D_xi(C, MF, MGT, J, J), 2 * ref['D'])
    ctx.check_eq('R', ft.R_xi(C, MF, MGT, J, J, s), 2 * ref['R'])


@harness(name='spins')
def spins(ctx):
    # Fermi and Gamow-Teller spin factors: mean helicity component of a vector operator
    j = ctx.choice('2J', list(range(0, 7)))
    d = ctx.choice('2J\'-2J', [-2, 0, 2])
    f = j + d
    if f < 0 or j == 0 == f or j == 0 == d:
        return ctx.check('same spin', ft.dl(f / 2, j / 2) == (f == j))
    ctx.check('Fermi', ft.dl(f / 2, j / 2) == (f == j))
    J = Fraction(j, 2)
    # Wigner-Eckart: probabilities of M -> M + m proportional to squared Clebsch-Gordan coefficients, at full polarisation M = J
    prob = {m: cg2(J, J, m, Fraction(f, 2)) for m in (-1, 0, 1)}
    tot = sum(prob.values())
    mean = sum(-m * p for m, p in prob.items()) / tot
    if j:
        ctx.check_eq('Gamow-Teller', float(ft.la(f / 2, j / 2)), float(mean), tol=1e-12)


def cg2(J, M, m, Jf):
    """squared Clebsch-Gordan coefficient <J M 1 m | Jf M+m>"""
    Mf = M + m
    if abs(Mf) > Jf:
        return Fraction(0)
    if Jf == J + 1:
        num = {1: (J + Mf) * (J + Mf + 1), 0: 2 * (J - Mf + 1) * (J + Mf + 1), -1: (J - Mf) * (J - Mf + 1)}[m]
        return Fraction(num) / ((2 * J + 1) * (2 * J + 2))
    if Jf == J:
        num = {1: (J + Mf) * (J - Mf + 1), 0: 2 * Mf ** 2, -1: (J - Mf) * (J + Mf + 1)}[m]
        return Fraction(num) / (2 * J * (J + 1))
    num = {1: (J - Mf) * (J - Mf + 1), 0: 2 * (J - Mf) * (J + Mf), -1: (J + Mf + 1) * (J + Mf)}[m]
    return Fraction(num) / (2 * J * (2 * J + 1))


def setup(ctx, only=None, free=()):
    par = Par(ctx, free=['g_A', 'gS_u-d', 'gT_u', 'gT_d', 'DeltaRV', *free])
    Running(ctx, fixed=True)
    get = ft.get_ckm
    V = patch_ckm(ctx)
    ctx.patch_name(get, lambda p: V)
    gf = ctx.real('GFeff', 1e-5, 1.3e-5)
    ctx.patch_name(taulnunu.GFeff, lambda w, p: gf)
    cv = ctx.real('CVLSM', 1., 1.1)
    ctx.patch_name(get_CVLSM, lambda p, s, nf: cv)
    wc = WCs(ctx, only=only, b=0.3, nonzero=True)
    at = wc.at(opt('betadecay'), 'WET-3')
    vl = (cv + at('CVL_duenue')) * sqrt(1 + par['DeltaRV']) / cv
    vr, S = at('CVR_duenue'), at('CSR_duenue') + at('CSL_duenue')
    c = [vl + vr, par['g_A'] * (vl - vr), par['gS_u-d'] * S, (par['gT_u'] - par['gT_d']) * at('CT_duenue')]
    return par, wc, V, gf, c


VEC, SC = ('CVL_duenue', 'CVR_duenue'), ('CVL_duenue', 'CSR_duenue', 'CSL_duenue', 'CT_duenue')


@harness(name='neutron correlations', max_paths=40, time=200)
def neutron(ctx):
    what = ctx.choice('coefficient', ['a', 'atilde', 'b', 'A', 'Atilde', 'B', 'Btilde', 'lambdaAB', 'D', 'R'])
    only = ctx.choice('coefficients', [VEC, SC])
    par, wc, V, gf, c = setup(ctx, only)
    ref = correlations(1, c)
    x = ctx.real('me_E', 0.3, 0.9)
    args = [x] if what in ('atilde', 'b', 'Atilde', 'B', 'Btilde', 'lambdaAB') else []
    got = predict(what + '_n', wc, par, *args)
    ref['B'] = ref['B'] + x * ref['Bm']
    ctx.assume(ref['1'] >= 0.1)
    if what == 'lambdaAB':
        ctx.assume(abs(ref['A'] + ref['B']) >= 0.1)
        return ctx.check_eq('ratio', got * (ref['A'] + ref['B']), ref['A'] - ref['B'], scale=1.)
    if what.endswith('tilde'):
        ctx.assume(ref['1'] + ref['b'] * x >= 0.1)
        return ctx.check_eq('with Fierz term', got * (ref['1'] + ref['b'] * x), ref[what[0]], scale=1.)
    ctx.check_eq('coefficient', got * ref['1'], ref[what], scale=1.)


@harness(name='lifetime', max_paths=20, time=200)
def lifetime(ctx):
    only = ctx.choice('coefficients', [VEC, SC])
    par, wc, V, gf, c = setup(ctx, only, free=['f_n', 'deltaRp_n', 'm_e'])
    ref = correlations(1, c)
    x = ctx.real('me_E', 0.3, 0.9)
    ctx.assume(ref['1'] + ref['b'] * x >= 0.1)
    ctx.assume(abs2(V.q('ud')) >= 0.1)
    got = predict('tau_n', wc, par, x)
    # rate GF^2 |Vud|^2 m^5/(2 pi^3) f (gV^2 + 3 gA^2)
    want = 2 * pi ** 3 / par['m_e'] ** 5 / gf ** 2
    ctx.check_eq('lifetime', got / want * (abs2(V.q('ud')) * (ref['1'] + ref['b'] * x) * par['f_n'] * (1 + par['deltaRp_n'])), 1., scale=1.)


@harness(name='superallowed', max_paths=40, time=200)
def superallowed(ctx):
    A = ctx.choice('nucleus', sorted(ft.nuclei_superallowed))
    par, wc, V, gf, c = setup(ctx, ('CVL_duenue', 'CVR_duenue', 'CSR_duenue', 'CSL_duenue'), free=['delta_*', 'm_e'])
    info = ft.nuclei_superallowed[A]
    x = info['<me/E>']
    # Fermi transition, matrix element sqrt 2
    c = [c[0] * math.sqrt(2.), 0., c[2] * math.sqrt(2.), 0.]
    ref = correlations(-1, c, math.sqrt(1 - CENTRAL['alpha_e'] ** 2 * info['Z'] ** 2))
    ctx.assume(ref['1'] + ref['b'] * x >= 0.1)
    ctx.assume(abs2(V.q('ud')) >= 0.1)
    got = predict('Ft(%s)' % A, wc, par)
    corr = 1 + par['delta_deltaRp_Z2'] * info['Z'] ** 2 + par['delta_deltaNS,A'] + par['delta_deltaNS,E_QEC'] * ft.Q_EC[A]
    want = 2 * pi ** 3 * math.log(2) / par['m_e'] ** 5 / gf ** 2 * corr
    ctx.check_eq('Ft', got / want * (abs2(V.q('ud')) * (ref['1'] + ref['b'] * x)), 1., scale=1.)


# dipole moments

@harness(name='anomalous magnetic moments')
def amm(ctx):
    l, s, eft = ctx.choice('lepton', [('e', 'e g-2', 'WET-3'), ('mu', 'mudecays', 'WET-3'), ('tau', 'tau g-2', 'WET')])
    par = Par(ctx, free=['m_' + l, 'GF', 'a_%s SM' % l])
    wc = WCs(ctx, b=1e-3)
    C = wc.at(opt(s), eft)('C7_' + l + l)
    # L = p (C lbar_L sigma F l_R + h.c.) = p Re C (lbar sigma F l), to be compared with e a/(4 m) lbar sigma F l for charge -1 and D = d + i e Q A
    e = 1.
    p = 4 * par['GF'] / math.sqrt(2.) * e / (16 * pi ** 2) * par['m_' + l]
    ctx.check_eq('moment', predict('a_' + l, wc, par), par['a_%s SM' % l] + p * C.real * 4 * par['m_' + l] / e, scale=1e-6)


def edm(par, run, at, f, strong=False):
    """L = -i/2 d fbar sigma F gamma5 f"""
    m = par['m_' + f] if f in ('e', 'mu', 'tau') else run('m' + f, 2, 3)
    p = 4 * par['GF'] / math.sqrt(2.) / (16 * pi ** 2) * m
    if strong:
        return 2 * p * at('C8_%s%s' % (f, f)).imag
    return 2 * p * sqrt(4 * pi * run('alpha_e', 2, 3)) * at('C7_%s%s' % (f, f)).imag


@harness(name='neutron EDM', max_paths=20)
def nedm(ctx):
    par = Par(ctx, free=['gT_*', 'nEDM *', 'GF'])
    run, wc = Running(ctx), WCs(ctx, real=('CGtilde',))
    at = wc.at(2, 'WET-3')
    # tensor charges of the proton; those of the neutron by isospin
    charge = {'u': par['gT_d'], 'd': par['gT_u'], 's': par['gT_s']}
    d = sum(charge[q] * edm(par, run, at, q) for q in 'uds')
    d = d + sum(par['nEDM ~rho_' + q] * edm(par, run, at, q, True) for q in 'uds') + par['nEDM beta_G'] * at('CGtilde')
    got = predict('d_n', wc, par)
    if d >= 0:
        return ctx.check_eq('modulus', got, d, scale=1e-6)
    ctx.check_eq('modulus', got, -d, scale=1e-6)


@harness(name='paramagnetic systems', max_paths=20)
def para(ctx):
    n = ctx.choice('system', ['d_Tl', 'omega_YbF', 'omega_HfF', 'omega_ThO'])
    x = n.split('_')[1]
    par = Par(ctx, free=['alpha_de*', 'alpha_CS*', 'GF', 'sigma_piN', 'gS_u-d'])
    run, wc = Running(ctx), WCs(ctx, b=1e-3)
    at = wc.at(2, 'WET-3')
    info = {**paraedm.atoms, **paraedm.molecules}[x]
    plus, minus = 2 * par['sigma_piN'] / (run('mu', 2, 3) + run('md', 2, 3)), par['gS_u-d']
    # scalar charges of a nucleon averaged over the nucleus; (ebar i gamma5 e)(qbar q) has the coefficient -Im(CSRR + CSRL)
    Z, N = info['Z'], info['N']
    up, dn = (plus + minus) / 2, (plus - minus) / 2
    c = {q: -(at('CSRR_ee' + q + q) + at('CSRL_ee' + q + q)).imag for q in 'ud'}
    CS = (Z * (up * c['u'] + dn * c['d']) + N * (dn * c['u'] + up * c['d'])) * 2 / (Z + N)
    want = par['alpha_de(%s)' % x] * edm(par, run, at, 'e') + par['alpha_CS(%s)' % x] * CS
    ctx.check_eq('value', predict(n, wc, par), want, scale=abs(CENTRAL['alpha_CS(%s)' % x]))


@harness(name='masses of the dipole operators', max_paths=50)
def masses(ctx):
    f = ctx.choice('fermion', ['e', 'mu', 'tau', 'u', 'd', 's'])
    eft, nf = ctx.choice('theory', [('WET', 5), ('WET-4', 4), ('WET-3', 3)])
    par, run = Par(ctx, free=['m_*', 'GF']), Running(ctx)
    s = ctx.choice('scale', [2, 4.8])
    wc = {'C7_' + f + f: ctx.complex('C7'), 'C8_' + f + f: ctx.complex('C8')}
    m = par['m_' + f] if f in ('e', 'mu', 'tau') else run('m' + f, s, nf)
    p = 4 * par['GF'] / math.sqrt(2.) / (16 * pi ** 2) * m
    ctx.check_eq('EDM', edms.edm_f(par, wc, f, s, eft), 2 * p * sqrt(4 * pi * run('alpha_e', s, nf)) * wc['C7_' + f + f].imag)
    if f in 'uds':
        ctx.check_eq('CEDM', edms.cedm_f(par, wc, f, s, eft), 2 * p * wc['C8_' + f + f].imag)
