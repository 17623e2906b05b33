"""Neutral meson mixing: amplitudes from the Delta F=2 operators, observables from M12 and Gamma12."""
import math
import flavio
import flavio.physics.mesonmixing.amplitude as amplitude
import flavio.physics.mesonmixing.common as common
import flavio.physics.mesonmixing.wilsoncoefficient as wilsoncoefficient
import flavio.physics.mesonmixing.observables as observables
from engine.run import harness, add_harness
from engine.num import sqrt, csqrt, pi, abs2, conj, log, exp, sin, phase, cplx
from engine.phys import Par, WCs, Running, patch_ckm, predict, CENTRAL

EXPLANATION = (
    'Mixing amplitudes of B0, Bs, K0 and D0 are executed with symbolic Wilson coefficients of all eight operators, bag parameters, masses, decay constants, CKM elements and QCD corrections and compared with the matrix elements obtained by '
    'Fierz rearrangement from the definition of the bag parameters and with the box function written in an independent form (including its limits for equal and vanishing masses, in both conventions for the unitarity of the K mixing amplitude). '
    'The observables (mass and width differences, x, y, q/p, flavour specific and mixing induced CP asymmetries, eps_K, phases) are executed with a symbolic complex new physics contribution and compared with the eigenvalues and '
    'eigenvectors of the mixing matrix.')
BOUNDS = ('M12: parameters within 10% of their central values, independent complex CKM elements and Wilson coefficients up to 2 in size; observables: default parameters and symbolic complex coefficient of the left-handed operator of 10^-13 to 10^-10 GeV^-2, symbolic Gamma12 parameters; '
          'box function: mass ratios between 10^-4 and 10, equal or different')
ASSUMPTIONS = ['floats treated as reals', 'new physics in Gamma12 is neglected, and Gamma12 in the kaon system, as documented']

Q = {'B0': 'bd', 'Bs': 'bs', 'K0': 'sd', 'D0': 'uc'}
EFT = {'K0': 'WET-3', 'D0': 'WET-4', 'B0': 'WET', 'Bs': 'WET'}


def opt(m):
    return flavio.config['renormalization scale'][m + ' mixing']


# box function, written as a function of the internal masses with unitarity

def G(x, y):
    """contribution of one pair of quarks up to terms that cancel in the sum"""
    def h(a, b):
        return a * b * (1 - 2 * a + a * a / 4) * log(a) / ((1 - a) ** 2 * (a - b))
    return -3 / 4 * x * y / ((1 - x) * (1 - y)) + h(x, y) + h(y, x)


def S_box(x, y):
    """Inami-Lim function with a massless third quark"""
    return G(x, y)


def S_equal(x):
    return (4 * x - 11 * x ** 2 + x ** 3) / (4 * (1 - x) ** 2) - 3 * x ** 3 * log(x) / (2 * (1 - x) ** 3)


@harness(name='box function', max_paths=60)
def box(ctx):
    f = wilsoncoefficient.S0_box
    x, y = ctx.real('x', 1e-4, 0.5), ctx.real('y', 1.5, 10.)
    ctx.check_eq('different masses', f(x, y, 0), S_box(x, y))
    ctx.check_eq('symmetric', f(y, x, 0), S_box(x, y))
    for n, z in (('light', x), ('heavy', y)):
        ctx.check_eq('equal masses ' + n, f(z, z, 0), S_equal(z))
    # massive third quark: linear combination of boxes with all pairs, which vanishes for equal masses
    w = ctx.real('w', 0.6, 0.9)
    F = wilsoncoefficient.F_box
    ctx.check_eq('unitarity', f(x, y, w), F(x, y) + F(w, w) - F(x, w) - F(w, y))
    ctx.check_eq('GIM', f(x, w, w), 0., scale=1.)
    ctx.check_eq('third quark', f(x, y, w), S_box(x, y) + S_equal(w) - S_box(x, w) - S_box(w, y), scale=1.)


def box3(x, y, w):
    def S(a, b):
        return S_equal(a) if a is b else S_box(a, b)
    return S(x, y) + S(w, w) - S(x, w) - S(y, w)


# matrix elements <M|O|Mbar>/2M

def matrix_elements(par, m, m1, m2):
    M, f = par['m_' + m], par['f_' + m]
    B = [None] + [par['bag_%s_%d' % (m, i)] for i in range(1, 6)]
    R = (M / (m1 + m2)) ** 2
    # operators with (1 +- gamma5), cf. FLAG; divided by 4 and 2 M
    O = [None, 8 / 3 * B[1], -5 / 3 * R * B[2], 1 / 3 * R * B[3], 2 * R * B[4], 2 / 3 * R * B[5]]
    O = [None] + [M * f ** 2 * o / 8 for o in O[1:]]
    r = {'CVLL': O[1], 'CSLL': O[2], 'CTLL': -4 * O[2] - 8 * O[3], 'CSLR': O[4], 'CVLR': -2 * O[5]}
    r.update({'CVRR': r['CVLL'], 'CSRR': r['CSLL'], 'CTRR': r['CTLL']})
    return r


def np_part(par, run, wc, m):
    s, q = opt(m), Q[m]
    at = wc.at(s, EFT[m])
    me = matrix_elements(par, m, run('m' + q[0], s), run('m' + q[1], s))
    # H = -L
    return -sum(at('%s_%s%s' % (n, q, q)) * v for n, v in me.items())


@harness(name='M12', max_paths=20, time=120)
def m12(ctx):
    m = ctx.choice('meson', ['B0', 'Bs', 'D0', 'K0'])
    conv = ctx.choice('unitarity', ['ut', 'ct']) if m == 'K0' else None
    par = Par(ctx)
    V, run, wc = patch_ckm(ctx), Running(ctx), WCs(ctx)
    if conv:
        ctx.patch(flavio.config['implementation'], 'K mixing unitarity', conv)
    got, _ = observables.get_M12_G12(wc, par, m)
    want = np_part(par, run, wc, m)
    ctx.check_eq('M12', got, want + sm_part(par, run, V, m, conv), scale=1.)


def sm_part(par, run, V, m, conv):
    if m == 'D0':
        s, b = V.q('us') * conj(V.q('cs')), V.q('ub') * conj(V.q('cb'))
        return (par['M12_D a_ss'] * s * s + par['M12_D a_bs'] * s * b + par['M12_D a_bb'] * b * b) / 1.519267515435317e12
    s, q = opt(m), Q[m]
    a = run('alpha_s', s)
    g, J = (2 / 9, 307 / 162) if m == 'K0' else (6 / 23, 5165 / 3174)
    bag = exp(-g * log(a)) * (1 + J * a / (4 * pi))
    M, f = par['m_' + m], par['f_' + m]
    x = {k: (v / par['m_W']) ** 2 for k, v in (('t', run.other('get_mt_mt')), ('c', par['m_c']), ('u', par['m_u']))}
    t = V.xi('t', q)
    if m != 'K0':
        amp = par['eta_tt_' + m] * t * t * box3(x['t'], x['t'], x['u'])
    else:
        k, o = ('u', 'c') if conv == 'ut' else ('c', 'u')
        z = V.xi(k, q)

        def eta(p):
            return par['eta_%s_K0' % p + ('_ut' if conv == 'ut' else '')]
        amp = (eta('tt') * t * t * box3(x['t'], x['t'], x[o]) + 2 * eta(k + 't') * z * t * box3(x[k], x['t'], x[o]) + eta(k * 2) * z * z * box3(x[k], x[k], x[o]))
    return par['GF'] ** 2 * par['m_W'] ** 2 / (12 * pi ** 2) * M * f ** 2 * par['bag_%s_1' % m] * bag * amp


# observables

OBS = {'B0': ['DeltaM_d', 'a_fs_d', 'S_psiK'], 'Bs': ['DeltaM_s', 'a_fs_s', 'S_psiphi'], 'K0': ['eps_K'],
       'D0': ['x_D', 'y_D', 'phi_D', 'q/p_D', 'x12_D', 'y12_D', 'phi12_D', 'x12Im_D']}


def ckm_numbers():
    from flavio.physics import ckm
    return ckm.get_ckm(CENTRAL)


def obs(ctx, m):
    name = ctx.choice('observable', OBS[m])
    free = ('tau_*', 'kappa_epsilon', 'DeltaM_K0')
    if m == 'D0':
        free += ('Gamma12_*',)
    over = {}
    if name[0] == 'S':
        over = {'Gamma12_%s_%s' % (m, k): 0. for k in 'ac'}
    par = Par(ctx, free=free, **over)
    q, s = Q[m], opt(m)
    V = ckm_numbers()
    # new physics of the size of the Standard Model contribution
    m0 = complex(amplitude.M12(CENTRAL, {}, m))
    me = amplitude.matrixelements(CENTRAL, m)['CVLL']
    if m == 'Bs' or m == 'B0' and name[0] in 'aS':
        # one real symbol along two directions in the complex plane
        d = ctx.choice('phase', [0.6 + 0.8j, 0.28 - 0.96j, None])
        C = (-0.2 + 0.3j if d is None else ctx.real('NP', -.4, .4) * d) * (abs(m0) / me)
    else:
        C = cplx(*[ctx.real('NP ' + k, -.4, .4) for k in ('re', 'im')]) * (abs(m0) / me)
    if name.startswith('Delta') and m in ('Bs', 'B0') and ctx.choice('new physics', ['small', 'dominant']) == 'dominant':
        # opposite sign of the mixing amplitude
        C = C + 2. * m0 / me

    class W(flavio.WilsonCoefficients):
        def get_wc(self, sector, scale, par, eft='WET', basis='flavio', nf_out=None):
            ctx.check('sector, scale and theory', (sector, scale, eft) == (q + q, s, EFT[m]))
            return {'CVLL_' + q + q: C}
    got = predict(name, W(), par)
    M = m0 - C * me

    def xi(a, b, c):
        return complex(V['uct'.index(a), 'dsb'.index(b)] * V['uct'.index(a), 'dsb'.index(c)].conj())
    if m == 'D0':
        x_s, x_b = [complex(V[0, i] * V[1, i].conj()) for i in (1, 2)]
        Gm = (par['Gamma12_D a_ss'] * x_s ** 2 + par['Gamma12_D a_bs'] * x_s * x_b + par['Gamma12_D a_bb'] * x_b ** 2) / 1.519267515435317e12
    elif m != 'K0':
        u, t = xi('u', q[0], q[1]), xi('t', q[0], q[1])
        Gm = m0 * (par['Gamma12_%s_c' % m] + par['Gamma12_%s_a' % m] * (u / t)) * 1e-4
    if name == 'eps_K':
        return ctx.check_eq(name, got, par['kappa_epsilon'] * M.imag / (math.sqrt(2) * par['DeltaM_K0']))
    tau = par['tau_' + m]
    if name in ('x12_D', 'y12_D'):
        return ctx.check_eq(name, got, 2 * sqrt(abs2(M)) * tau if name[0] == 'x' else sqrt(abs2(Gm)) * tau)
    if name == 'phi12_D':
        return ctx.check_eq(name, got, phase(M / Gm), scale=1.)
    if name == 'x12Im_D':
        # 2 tau |M| sin(arg(M/G)) = 2 tau Im(M G*)/|G|
        return ctx.check_eq(name, got, 2 * tau * (M * conj(Gm)).imag / sqrt(abs2(Gm)), scale=1e-3)
    if name.startswith('a_fs'):
        return ctx.check_eq(name, got, (Gm / M).imag, scale=1e-3)
    # eigenvalues: q/p = -sqrt(H21/H12), lambda = +- sqrt(H12 H21)
    H12, H21 = 2 * M - Gm * 1j, 2 * conj(M) - conj(Gm) * 1j
    if name.startswith('Delta'):
        # (DeltaM - i DeltaGamma'/2)^2 = 4 H12 H21, DeltaGamma' = Gamma_2 - Gamma_1, and DeltaM > 0
        dM, dG = got, predict(name.replace('M', 'Gamma'), W(), par)
        z = H12 * H21 / abs(m0) ** 2
        ctx.check_eq('squares', (dM ** 2 - dG ** 2 / 4) / abs(m0) ** 2, z.real, scale=1.)
        if m == 'B0' or d is None or d.imag < 0:
            ctx.check_eq('product', dM * dG / abs(m0) ** 2, z.imag, scale=.1)
        return ctx.check('sign', dM >= 0)
    root = csqrt(H21 / H12)
    qp, lam = -root, root * H12      # lam = -q/p H12
    if name == 'phi_D':
        return ctx.check_eq(name, got, phase(root), scale=1.)
    if name == 'q/p_D':
        return ctx.check_eq(name, got, sqrt(abs2(root)))
    if name == 'x_D':
        return ctx.check_eq(name, got, -lam.real * tau, scale=1e-3)
    if name == 'y_D':
        return ctx.check_eq(name, got, lam.imag * tau, scale=1e-3)
    # time dependent CP asymmetry, b -> c cbar s or d; final state with CP eigenvalue -1 (psi K) or +1 (psi phi):
    # sine of the phase of M12 relative to the square of the decay amplitude (without Gamma12)
    c = xi('c', 'b', q[1])
    w = M * conj(c) ** 2 / abs(m0 * c * c)
    sgn = {'S_psiK': -1, 'S_psiphi': 1}[name]
    ctx.check_eq(name + ' squared', got ** 2 * abs2(w), w.imag ** 2, scale=1.)
    if d is None:
        ctx.check_eq(name + ' with sign', got, -sgn * w.imag / sqrt(abs2(w)))


for _m in OBS:
    add_harness(__name__, lambda ctx, m=_m: obs(ctx, m), 'observables ' + _m, max_paths=60, time=90)


@harness(name='mixing matrix', max_paths=60)
def matrix(ctx):
    """the documented functions of arbitrary M12 and Gamma12"""
    M, Gm = [cplx(*[ctx.real(n + k, lo, hi) for k, lo, hi in (('.re', .1, 2.), ('.im', -2., 2.))]) for n in ('M', 'G')]
    ctx.assume(abs2(M - Gm / 2 * 1j) >= 0.01)
    dM, dG = common.DeltaM(M, Gm), common.DeltaGamma(M, Gm)
    # eigenvalue equation (DeltaM - i DeltaGamma'/2)^2 = 4 H12 H21, DeltaGamma' = Gamma_2 - Gamma_1
    z = (M - Gm / 2 * 1j) * (conj(M) - conj(Gm) / 2 * 1j) * 4
    ctx.check_eq('squares', dM ** 2 - dG ** 2 / 4, z.real, scale=1.)
    ctx.check_eq('product', dM * dG, z.imag, scale=1.)
    qp = common.q_over_p(M, Gm)
    r = qp * qp * (M - Gm / 2 * 1j) - (conj(M) - conj(Gm) / 2 * 1j)
    ctx.check_eq('q/p', r, 0., scale=1.)
    ctx.check_eq('semileptonic asymmetry', common.a_fs(M, Gm), (Gm / M).imag, scale=1.)


@harness(name='no mixing', max_paths=4)
def none(ctx):
    ctx.check_eq('q/p', common.q_over_p(0, 0), -1.)
    ctx.check_eq('DeltaM', common.DeltaM(0, 0), 0., scale=1.)
