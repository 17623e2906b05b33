"""Rare and non-leptonic kaon decays: K->pinunu and direct CP violation in K->pipi."""
import numpy as np
import flavio
import flavio.physics.kdecays.kpinunu as kpinunu
import flavio.physics.kdecays.kpipi as kpipi
import flavio.physics.kdecays.wilsoncoefficients as kwc
import flavio.physics.bdecays.wilsoncoefficients
from engine.run import harness
from engine.num import sqrt, abs2, conj, exp, log
from engine.phys import Par, WCs, Running, patch_ckm, predict

EXPLANATION = (
    'The K->pinunu branching ratios are executed with symbolic Wilson coefficients for all nine combinations of neutrino flavours, CKM elements, masses and couplings, and compared with the sum over final states of the squared matrix elements of '
    'the effective Hamiltonian, K_L being the superposition of the two neutral kaons. epsilon\'/epsilon and the amplitudes of definite isospin are executed with symbolic coefficients of all four-quark and dipole operators, hadronic matrix elements and CKM elements; '
    'the matrix elements are compared with those obtained from operator identities, Fierz rearrangement (with Fierz coefficients computed from Dirac matrices), isospin and parity.')
BOUNDS = 'parameters within 10% of their central values, independent complex CKM elements and Wilson coefficients up to 2 in size'
ASSUMPTIONS = ['floats treated as reals', 'matrix elements of operators with two strange quark-antiquark pairs are those at the scale with three flavours as documented in the cited reference',
               'running of couplings is uninterpreted', 'numerical table of the four-quark coefficients is uninterpreted']
NU = ['nue', 'numu', 'nutau']


def X_sm(par, run, s):
    return par['Xt_di->djnunu'] / par['s2w'] * run('alpha_e', 91.1876) / run('alpha_e', s)


def setup(ctx, only=None):
    par = Par(ctx, free=['Xt_di->djnunu', 's2w', 'm_c', 'alpha_s', 'deltaPcu', 'kappa_plus_tilde', 'kappa_L_tilde'])
    V, run = patch_ckm(ctx), Running(ctx)
    return par, V, run, WCs(ctx, only=only)


def parts(par, V, run, wc):
    s = flavio.config['renormalization scale']['kdecays']
    at = wc.at(s, 'WET-3')
    Vus2 = abs2(V.q('us'))
    pc = 0.379 * exp(2.155 * log(par['m_c'] / 1.3)) * exp(-1.417 * log(par['alpha_s'] / 0.1187)) + par['deltaPcu']

    def amp(i, j):
        # coefficient of (sbar d)(nubar_i nu_j)
        l = 'sd' + NU[i] + NU[j]
        a = V.xi('t', 'ds') * (-(at('CL_' + l) + at('CR_' + l))) * par['s2w']
        if i == j:
            a = a + V.xi('t', 'ds') * X_sm(par, run, s) * par['s2w'] + V.xi('c', 'ds') * pc * Vus2 ** 2
        return a

    def kappa(n):
        return par['kappa_' + n + '_tilde'] * (run('alpha_e', s) * 127.9 * 0.231 / par['s2w']) ** 2 / 0.225 ** 8
    return amp, kappa, Vus2


@harness(name='charged', time=120)
def charged(ctx):
    only = ctx.choice('coefficients', [('CL_sdnuenue', 'CR_sdnumunumu'), ('CL_sdnutaunutau', 'CR_sdnutaunutau'), ('CL_sdnuenumu', 'CR_sdnuenumu', 'CL_sdnumunue'), ('CL_sdnutaunue', 'CR_sdnutaunue', 'CR_sdnuenutau'), ('CR_sdnutaunumu', 'CL_sdnumunutau')])
    par, V, run, wc = setup(ctx, only)
    amp, kappa, Vus2 = parts(par, V, run, wc)
    got = predict('BR(K+->pinunu)', wc, par)
    want = kappa('plus') * sum(abs2(amp(i, j)) for i in range(3) for j in range(3)) / 3
    ctx.check_eq('sum over flavours', got * Vus2, want, scale=1e-10)


@harness(name='neutral', time=120)
def neutral(ctx):
    only = ctx.choice('coefficients', [('CL_sdnuenue', 'CR_sdnumunumu'), ('CL_sdnutaunutau', 'CR_sdnutaunutau'), ('CL_sdnuenumu', 'CR_sdnuenumu', 'CL_sdnumunue'), ('CL_sdnutaunue', 'CR_sdnutaunue', 'CR_sdnuenutau'), ('CR_sdnutaunumu', 'CL_sdnumunutau')])
    par, V, run, wc = setup(ctx, only)
    amp, kappa, Vus2 = parts(par, V, run, wc)
    got = predict('BR(KL->pinunu)', wc, par)
    # KL = (K0 + K0bar)/sqrt2 up to phases: the final state nu_i nubar_j is reached by an operator and the conjugate one
    want = kappa('L') * sum(abs2((amp(i, j) - conj(amp(j, i))) / 2) for i in range(3) for j in range(3)) / 3
    ctx.check_eq('sum over flavours', got * Vus2, want, scale=1e-10)


# K->pipi

def dirac():
    s = [np.array(m, dtype=complex) for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]
    one, zero = np.eye(2), np.zeros((2, 2))
    g = [np.block([[one, zero], [zero, -one]])] + [np.block([[zero, x], [-x, zero]]) for x in s]
    g5 = 1j * g[0] @ g[1] @ g[2] @ g[3]
    P = {'L': (np.eye(4) - g5) / 2, 'R': (np.eye(4) + g5) / 2}
    met = np.diag([1, -1, -1, -1])

    def op(n):
        """tensor Gamma_ab Gamma'_cd of e.g. VLR; the letters are the projectors next to the right spinors"""
        k, a, b = n
        if k == 'S':
            return np.einsum('ab,cd->abcd', P[a], P[b])
        if k == 'V':
            return sum(met[m, m] * np.einsum('ab,cd->abcd', g[m] @ P[a], g[m] @ P[b]) for m in range(4))
        sg = lambda m, n: 1j / 2 * (g[m] @ g[n] - g[n] @ g[m])
        return sum(met[m, m] * met[n, n] * np.einsum('ab,cd->abcd', sg(m, n) @ P[a], sg(m, n) @ P[b]) for m in range(4) for n in range(4))
    return op


NAMES = ['VLL', 'VRR', 'VLR', 'VRL', 'SLL', 'SRR', 'SLR', 'SRL', 'TLL', 'TRR']


def fierz(n, op):
    """coefficients c of (a G b)(c G' d) = sum c (a O d)(c O' b) for anticommuting fields"""
    basis = np.array([op(x).ravel() for x in NAMES]).T
    t = -np.einsum('abcd->adcb', op(n)).ravel()
    c, res, rank, _ = np.linalg.lstsq(basis, t, rcond=None)
    assert np.abs(basis @ c - t).max() < 1e-12
    return {x: float(v.real) for x, v in zip(NAMES, c) if abs(v) > 1e-12}


def matrix_elements(par, ms):
    """of the hermitian conjugates of the operators of the sd sector"""
    F = {n: fierz(n, dirac()) for n in NAMES}
    M = {0: {}, 2: {}}
    for i in (0, 2):
        def Q(j):
            if i == 2 and j in (3, 4, 5, 6):  # isospin conserving
                return 0.
            return par['Kpipi M%d %d' % (i, j)]
        m = M[i]
        # Q_3..6 = sum_q (sbar d)(qbar q), Q_7..10 = 3/2 sum_q e_q (sbar d)(qbar q): q=u and q=d,s; (V-A) is 2 P_L
        for a, n, t in ((3, 'VLL', ''), (5, 'VLR', ''), (6, 'VLR', 't')):
            e = {3: 9, 5: 7, 6: 8}[a]
            m[n + t + '_uu'] = (Q(a) + 2 * Q(e)) / 3 / 4
            m[n + t + '_dd'] = 2 * (Q(a) - Q(e)) / 3 / 4
        # Q_10 - Q_9 = Q_4 - Q_3 (Fierz identity of Q_1 and Q_2)
        m['VLLt_uu'] = (Q(4) + 2 * (Q(9) + Q(4) - Q(3))) / 3 / 4
        # Fierz: color crossed operators with three equal quarks
        # (sbar_a G d_b)(dbar_b G' d_a) = sum_c (sbar O d)(dbar O' d)
        assert F['VLR'] == {'SRL': -2.} or abs(F['VLR']['SRL'] + 2) < 1e-12
        m['SRL_dd'] = m['VLRt_dd'] / F['VLR']['SRL']
        m['SLR_dd'] = -m['SRL_dd']
        # parameters of operators absent in the Standard Model
        # (those with opposite chirality have opposite sign, for all parity odd matrix elements)
        s2, s1 = par['Kpipi M%d SLL2_d' % i], par['Kpipi M%d SLL1_d' % i]
        m['SLL_dd'] = s2
        m['TLL_dd'] = (s1 - F['SLL']['SLL'] * s2) / F['SLL']['TLL']
        if i == 0:
            m['SLL_uu'], m['SLLt_uu'] = par['Kpipi M0 SLL2_u'], par['Kpipi M0 SLL1_u']
            m['SLR_uu'], m['SLRt_uu'] = par['Kpipi M0 SLR2_u'], par['Kpipi M0 SLR1_u']
            m['TLL_uu'], m['TLLt_uu'] = -par['Kpipi M0 SLL4_u'], -par['Kpipi M0 SLL3_u']
        else:
            def crossed(n):
                return sum(c * (m[k + '_dd'] if k + '_dd' in m else -m[k[0] + k[2] + k[1] + '_dd']) for k, c in F[n].items())
            for n in ('SLL', 'TLL', 'SLR'):
                # isospin 0 in the pair of light quarks gives no I=2
                m[n + '_uu'] = -m[n + '_dd']
            for n in ('SLL', 'TLL'):
                m[n + 't_uu'] = -crossed(n)
            # (sbar_a P_R d_b)(dbar_b P_L d_a)
            m['SRLt_uu'] = -sum(c * (m['VLR_dd'] if k == 'VLR' else -m['VLR_dd']) for k, c in F['SRL'].items())
            m['SLRt_uu'] = -m['SRLt_uu']
    return M, F


def pipi_amplitude(M, F, par, wc, ms):
    """A_I of K0: H = -L, conjugate operators"""
    at = wc
    A = {}
    for i in (0, 2):
        m = M[i]
        a = 0.
        for q in 'ud':
            for k in ('VLL', 'VLR', 'SLL', 'SLR', 'TLL'):
                for t in ('', 't') if q == 'u' else ('',):
                    # conjugation exchanges the chirality of scalars and tensors
                    o = k
                    el = m[o + t + '_' + q * 2]
                    flip = {'L': 'R', 'R': 'L'}
                    p = k[0] + flip[k[1]] + flip[k[2]]
                    lab = '_sd' + q * 2
                    if k[0] == 'V':
                        names = (k, p)
                    else:
                        names = (p, k)
                    # element of the operator whose conjugate is `o`, and of its parity transform
                    a = a + el * (conj(at('C' + names[0] + t + lab)) - conj(at('C' + names[1] + t + lab)))
        if i == 0:
            a = a - ms * par['Kpipi M0 g-'] / 2 * (conj(at('C8_sd')) - conj(at('C8p_sd')))
        A[i] = -a
    return A


GROUPS = [('CVLL', 'CVRR'), ('CVLR', 'CVRL'), ('CSLL', 'CSRR'), ('CSLR', 'CSRL'), ('CTLL', 'CTRR'), ('C8',)]


@harness(name='matrix elements', max_paths=10)
def me(ctx):
    par = Par(ctx, free=['Kpipi*'])
    run = Running(ctx)
    s = flavio.config['renormalization scale']['kpipi']
    got = kpipi.Kpipi_matrixelements_SM(par, s)
    for i in (0, 2):
        def Q(j):
            return par['Kpipi M%d %d' % (i, j)] if i == 0 or j > 6 else 0.
        want = {j: Q(j) for j in (3, 4, 5, 6, 7, 8, 9)}
        # Q_9 = 3/2 Q_1 - 1/2 Q_3, Q_4 - Q_3 = Q_2 - Q_1 = Q_10 - Q_9
        want[1] = (want[9] + want[3] / 2) / 1.5
        want[2] = want[1] + want[4] - want[3]
        want[10] = want[9] + want[4] - want[3]
        for j in want:
            ctx.check_eq('Q%d I=%d' % (j, i), got[i][str(j)], want[j], scale=0.1)


@harness(name='new physics', max_paths=10, time=120)
def new_physics(ctx):
    only = ctx.choice('coefficients', GROUPS)
    par = Par(ctx, free=['Kpipi*', 'GF'])
    V, run, wc = patch_ckm(ctx), Running(ctx), WCs(ctx, only=only)
    s = flavio.config['renormalization scale']['kpipi']
    got = kpipi.Kpipi_amplitudes_NP(wc, par)
    ms = run('ms', s, 3)
    M, F = matrix_elements(par, ms)
    A = pipi_amplitude(M, F, par, wc.at(s, 'WET-3'), ms)
    for i in (0, 2):
        ctx.check_eq('A%d' % i, got[i], 4 * par['GF'] / sqrt(2) * V.xi('t', 'ds') * A[i], scale=1e-5)


@harness(name='observable', max_paths=10, time=120)
def observable(ctx):
    only = ctx.choice('coefficients', GROUPS)
    par = Par(ctx, free=['omega+', 'epsp a', 'eps_K', 'ReA0*', 'ReA2*', 'Omegahat_eff', 'GF'])
    V, run, wc = patch_ckm(ctx), Running(ctx), WCs(ctx, only=only)
    s = flavio.config['renormalization scale']['kpipi']
    z = [ctx.real('z%d' % i, -2, 2) for i in (1, 2)] + [ctx.real('y%d' % i, -2, 2) for i in range(3, 11)]
    ctx.patch(kwc, 'wcsm', lambda a: np.array(z, dtype=object) if ctx.symbolic else np.array(z))
    got = predict('epsp/eps', wc, par)
    ms = run('ms', s, 3)
    M, F = matrix_elements(par, ms)
    A = pipi_amplitude(M, F, par, wc.at(s, 'WET-3'), ms)
    ims = {}
    for i in (0, 2):
        def Q(j):
            return par['Kpipi M%d %d' % (i, j)] if i == 0 or j > 6 else 0.
        q1 = (Q(9) + Q(3) / 2) / 1.5
        a = V.xi('u', 'ds') * (z[0] * q1 + z[1] * (q1 + Q(4) - Q(3)))
        q = {j: Q(j) for j in range(3, 10)}
        q[10] = Q(9) + Q(4) - Q(3)
        a = a - V.xi('t', 'ds') * sum(z[j - 1] * q[j] / (128 if j > 6 else 1) for j in q)
        ims[i] = a.imag * par['GF'] / sqrt(2), (4 * par['GF'] / sqrt(2) * V.xi('t', 'ds') * A[i]).imag
    ra = {i: par['ReA%d(K->pipi)' % i] for i in (0, 2)}
    pre = -par['omega+'] / (sqrt(2) * par['eps_K'])
    want = pre * (ims[0][0] / ra[0] * (1 - par['Omegahat_eff']) - ims[2][0] / ra[2] / par['epsp a']
                  + (ims[0][1] / ra[0] - ims[2][1] / ra[2]) / par['epsp a'])
    ctx.check_eq("epsilon'/epsilon", got, want, scale=1.)


@harness(name='table')
def table(ctx):
    a = ctx.choice('alpha_s', [0.1179, 0.1182, 0.1185, 0.1191, 0.12])
    par = dict(alpha_s=a)
    w = kwc.wilsoncoefficients_sm_fourquark(par, 1.3)
    lo, hi = kwc.wilsoncoefficients_sm_fourquark(dict(alpha_s=0.1179), 1.3), kwc.wilsoncoefficients_sm_fourquark(dict(alpha_s=0.1191), 1.3)
    ctx.check('names', sorted(w) == sorted(['z1', 'z2'] + ['y%d' % i for i in range(3, 11)]))
    for k in w:
        # nearly linear
        x = (a - 0.1179) / 0.0012
        ctx.check_eq(k, float(w[k]), float(lo[k] + (hi[k] - lo[k]) * x), tol=2e-2, atol=1e-3)
    ctx.raises('scale', ValueError, lambda: kwc.wilsoncoefficients_sm_fourquark(par, 1.4))
