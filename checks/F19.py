"""High-energy dilepton production, neutrino tridents and W pairs follow from the effective operators."""
import math
import numpy as np
import flavio
import flavio.physics.dileptons.ppll as ppll
import flavio.physics.dileptons.pplnu as pplnu
import flavio.physics.dileptons.partondist as partondist
import flavio.physics.neutrinos.trident
import flavio.physics.scattering.ee_ww as ee_ww
import wilson
from flavio.config import config
from flavio.physics import ckm
from engine.run import harness
from engine.num import sqrt, abs2, conj, pi, cplx
from engine.phys import Par, WCs, predict, CENTRAL

EXPLANATION = (
    'The cross sections for p p -> l l and p p -> l nu are executed with symbolic Wilson coefficients, SM couplings, energies and parton luminosities (uninterpreted functions). '
    'The partonic reference is the spin-summed squared amplitude of massless fermions with each chiral structure, its dependence on the angle being obtained from traces of explicit Dirac matrices; SM couplings of photon, Z and W, and the matching of SMEFT operators (with CKM rotation of left-handed down quarks) are written down independently. '
    'The sums over flavours and charges, the limits of the integrals over partonic energies, scales, and the normalization to the SM are decided with the integration replaced by arbitrary two-point rules. '
    'Neutrino trident production is compared with the sum of squares of vector and axial couplings, and predictions for e e -> W W with the relations between operators that only enter through the Fermi constant.')
BOUNDS = 'parameters within 10% of their central values; coefficients up to 1 (in units of the SM amplitude of the process); all bins with 0 < lower < upper edge; integrals with two nodes; all energies and angles that are tabulated for W pairs'
ASSUMPTIONS = ['floats treated as reals', 'parton distributions and the translation of the Wilson coefficients to SMEFT are those of external libraries', 'CKM elements are fixed generic complex numbers in the matching, symbolic elsewhere',
               'the tables for e e -> W W are data: their values are not decided, only relations between them (within rounding) and smoothness in energy']

# squared amplitude of q(p1) qbar(p2) -> f(k1) fbar(k2) from traces of Dirac matrices


def _weights():
    from engine import dirac as D
    n = lambda m: np.array(m, dtype=complex)
    G, g5, one = [n(g) for g in D.G], n(D.G5), np.eye(4)
    P = {'L': (one - g5) / 2, 'R': (one + g5) / 2}
    met = [1, -1, -1, -1]
    bar = lambda m: G[0] @ m.conj().T @ G[0]
    sl = lambda p: sum(met[i] * p[i] * G[i] for i in range(4))
    sig = lambda i, j: 1j / 2 * (G[i] @ G[j] - G[j] @ G[i])

    def structures(kind):
        """[(lepton matrix, quark matrix)] summed over"""
        if kind[0] == 'V':
            return [(G[m] @ P[kind[1]], met[m] * G[m] @ P[kind[2]]) for m in range(4)]
        if kind[0] == 'S':
            return [(P[kind[1]], P[kind[2]])]
        return [(sig(a, b) @ P['R'], met[a] * met[b] * sig(a, b) @ P['R']) for a in range(4) for b in range(4)]

    def squared(kind, c):
        """over s^2, both directions of the fermion added"""
        tot = 0
        for c in (c, -c):
            s_ = math.sqrt(1 - c * c)
            p1, p2 = np.array([1, 0, 0, 1]) / 2, np.array([1, 0, 0, -1]) / 2
            k1, k2 = np.array([1, s_, 0, c]) / 2, np.array([1, -s_, 0, -c]) / 2
            for l1, q1 in structures(kind):
                for l2, q2 in structures(kind):
                    tot += np.trace(sl(k1) @ l1 @ sl(k2) @ bar(l2)) * np.trace(sl(p2) @ q1 @ sl(p1) @ bar(q2))
        return tot.real

    w = {}
    for kind in ('VLL', 'VLR', 'VRL', 'VRR', 'SRL', 'SRR', 'TRR'):
        a = squared(kind, 0.)
        b = squared(kind, 1.) - a
        assert abs(squared(kind, .5) - a - b / 4) < 1e-12
        w[kind] = (round(a, 9), round(b, 9))
    return w


W = _weights()  # squared amplitude, both directions: (a + b c^2) s^2
# sigma = 1/(2 s) * 1/4 (spins) * 1/3 (colours) * |M|^2 / (16 pi) d cos
NORM = 1 / (2. * 12 * 16 * math.pi)


def total(kind):
    a, b = W[kind]
    return NORM * (a + b / 3)


# couplings

CHARGE = {'u': 2 / 3., 'd': -1 / 3., 'e': -1.}
ISOSPIN = {'u': .5, 'd': -.5, 'e': -.5}


def electroweak(p):
    e2 = 4 * pi * p['alpha_e']
    return e2 / p['s2w'] * .9608, e2 / (1 - p['s2w']) * 1.0272


def propagator(s, m, tau):
    """1 / (s - m^2 + i m Gamma)"""
    d, w = s - m * m, m / tau
    n = d * d + w * w
    return cplx(d / n, -w / n)


@harness(name='p p -> l l: SM amplitude', max_paths=20)
def neutral_sm(ctx):
    par = Par(ctx, .1, free=['alpha_e', 's2w', 'm_Z', 'tau_Z'])
    s = ctx.real('s', 1e4, 1e8)
    p = {k: par[k] for k in ('alpha_e', 's2w', 'm_Z', 'tau_Z')}
    before = dict(p)
    g2, g12 = electroweak(p)
    q, X, Y = ctx.choice('quark and chiralities', [(q, X, Y) for q in 'ud' for X in 'LR' for Y in 'LR'])
    prop = propagator(s, p['m_Z'], p['tau_Z'])
    s2 = g12 / (g2 + g12)
    z = lambda f, X: (ISOSPIN[f] if X == 'L' else 0.) - CHARGE[f] * s2 * 1.001
    ref = g2 * s2 * CHARGE[q] * CHARGE['e'] / s + (g2 + g12) * z(q, X) * z('e', Y) * prop
    got = ppll.wceff_qqll_sm(s, p)
    ctx.check('parameters are not modified', all(p[k] is before[k] for k in before))
    C = got['CV%s%s_e%s' % (Y, X, q)]
    for i in range(3):
        for j in range(3):
            for k in range(3):
                for l in range(3):
                    if i == j and k == l:
                        ctx.check_eq('amplitude %d%d' % (i, k), C[i, i, k, k] * 1e5, ref * 1e5, scale=1e-2)
                    else:
                        ctx.check_eq('flavour change', C[i, j, k, l], 0.)
    for n, a in got.items():
        if n[1] in 'ST':
            ctx.check('no scalar and tensor interactions ' + n, np.shape(a) == (3, 3, 3, 3) and not np.any(a))
    ctx.check('all structures', sorted(got) == sorted(['CV%s%s_e%s' % (a, b, q) for a in 'LR' for b in 'LR' for q in 'ud'] + [c + '_e' + q for c in ('CSRL', 'CSRR', 'CTRR') for q in 'ud']))


def fixed_ckm(ctx):
    V = np.array([[complex(.3 + .1 * i - .07 * j, .2 - .15 * i * j + .04 * j) for j in range(3)] for i in range(3)])
    ctx.patch(ckm, 'get_ckm', lambda par: V)
    return V


class Smeft:
    """Wilson coefficient object with the tensors of the Warsaw basis: all entries with given lepton indices arbitrary"""

    TENSORS = ['lq1', 'lq3', 'eu', 'ed', 'lu', 'ld', 'qe', 'ledq', 'lequ1', 'lequ3']

    def __init__(self, ctx, i, j):
        self.ctx, self.wc = ctx, True
        self.C = {}
        for n in self.TENSORS:
            a = np.zeros((3, 3, 3, 3), dtype=object)
            for k in range(3):
                for l in range(3):
                    # (anti)lepton and quark indices; the operators with scalar or tensor structure enter with conjugation, too
                    for e, f in {(i, j), (j, i)}:
                        a[(k, l, e, f) if n == 'qe' else (e, f, k, l)] = ctx.complex('%s_%d%d%d%d' % (n, e, f, k, l), 1.)
            self.C[n] = a
        ctx.patch(wilson.util.smeftutil, 'wcxf2arrays_symmetrized', self.arrays)
        self.asked = []

    def get_wcxf(self, sector, scale, par=None, eft='WET', basis='flavio', nf_out=None):
        self.asked.append(dict(sector=sector, scale=scale, eft=eft, basis=basis, nf_out=nf_out))

        class Result:
            dict = self
        return Result()

    def arrays(self, d):
        self.ctx.check('coefficients translated', d is self)
        from engine.symnp import symview
        return {n: symview(a.copy()) if self.ctx.symbolic else np.array(a.tolist(), dtype=complex) for n, a in self.C.items()}


@harness(name='p p -> l l: matching', max_paths=20, time=120)
def neutral_matching(ctx):
    i, j = ctx.choice('leptons', [(0, 0), (1, 1), (0, 1), (2, 0)])
    V = fixed_ckm(ctx)
    sm = Smeft(ctx, i, j)
    got = ppll.wceff_qqll_np(sm, CENTRAL, 321.)
    ctx.check('scale and basis', sm.asked == [dict(sector='dB=dL=0', scale=321., eft='SMEFT', basis='Warsaw up', nf_out=None)])
    C = sm.C
    R3 = range(3)
    # quarks of the basis in which up quarks are mass eigenstates: d_L -> V d_L
    for k in R3:
        for l in R3:
            rot = lambda f: sum(np.conj(V[m, k]) * V[n, l] * f(m, n) for m in R3 for n in R3)
            ref = {
                # triplet: tau^3 tau^3 is -1 for e u, +1 for e d
                'CVLL_eu': C['lq1'][i, j, k, l] - C['lq3'][i, j, k, l],
                'CVLL_ed': rot(lambda m, n: C['lq1'][i, j, m, n] + C['lq3'][i, j, m, n]),
                'CVRR_eu': C['eu'][i, j, k, l], 'CVRR_ed': C['ed'][i, j, k, l],
                'CVLR_eu': C['lu'][i, j, k, l], 'CVLR_ed': C['ld'][i, j, k, l],
                'CVRL_eu': C['qe'][k, l, i, j], 'CVRL_ed': rot(lambda m, n: C['qe'][m, n, i, j]),
                # (l^a e)(d q^a)
                'CSRL_ed': sum(C['ledq'][i, j, k, m] * V[m, l] for m in R3),
                # (l^a e) eps_ab (q^b u): the charged lepton is the second component
                'CSRR_eu': -C['lequ1'][i, j, k, l], 'CTRR_eu': -C['lequ3'][i, j, k, l],
                'CSRL_eu': 0., 'CSRR_ed': 0., 'CTRR_ed': 0.}
            ctx.check('all structures', sorted(got) == sorted(ref))
            for n in ref:
                ctx.check_eq('%s %d%d' % (n, k, l), got[n][i, j, k, l], ref[n], scale=1e-2)


@harness(name='p p -> l nu: matching', max_paths=20, time=120)
def charged_matching(ctx):
    i, j = ctx.choice('leptons', [(0, 0), (1, 1), (0, 1), (2, 0)])
    V = fixed_ckm(ctx)
    sm = Smeft(ctx, i, j)
    got = pplnu.wceff_qqlnu_np(sm, CENTRAL, 321.)
    ctx.check('scale and basis', sm.asked == [dict(sector='dB=dL=0', scale=321., eft='SMEFT', basis='Warsaw up', nf_out=None)])
    C = sm.C
    R3 = range(3)
    for k in R3:
        for l in R3:
            ref = {
                # tau^1 tau^1 + tau^2 tau^2 = 2 (tau^+ tau^- + tau^- tau^+)
                'CVLL_enuud': sum(2 * C['lq3'][i, j, k, m] * V[m, l] for m in R3),
                # (e_R^i nu_L^j)(u_L^k d_R^l) is the conjugate of (nu^j e^i)(d^l u^k)
                'CSRL_enuud': conj(C['ledq'][j, i, l, k]),
                'CSRR_enuud': sum(conj(C['lequ1'][j, i, m, k]) * V[m, l] for m in R3),
                'CTRR_enuud': sum(conj(C['lequ3'][j, i, m, k]) * V[m, l] for m in R3)}
            ctx.check('all structures', sorted(got) == sorted(ref))
            for n in ref:
                ctx.check_eq('%s %d%d' % (n, k, l), got[n][i, j, k, l], ref[n], scale=1e-2)


@harness(name='p p -> l nu: SM amplitude', max_paths=20)
def charged_sm(ctx):
    par = Par(ctx, .1, free=['alpha_e', 's2w', 'm_W', 'tau_W'])
    s = ctx.real('s', 1e4, 1e8)
    p = {k: par[k] for k in ('alpha_e', 's2w', 'm_W', 'tau_W')}
    V = fixed_ckm(ctx)
    got = pplnu.wceff_qqlnu_sm(s, p)
    ref = electroweak(p)[0] / 2 * propagator(s, p['m_W'], p['tau_W'])
    for i in range(3):
        for j in range(3):
            for k in range(3):
                for l in range(3):
                    v = got['CVLL_enuud'][i, j, k, l]
                    if i == j:
                        ctx.check_eq('amplitude %d%d' % (k, l), v * 1e5, ref * 1e5 * V[k, l], scale=1e-2)
                    else:
                        ctx.check_eq('flavour change', v, 0.)
    ctx.check('no scalar and tensor interactions', sorted(got) == ['CSRL_enuud', 'CSRR_enuud', 'CTRR_enuud', 'CVLL_enuud'] and not any(np.any(got[n]) for n in got if n[1] != 'V'))


def coefficient_arrays(ctx, names, entries):
    from engine.symnp import symview
    out = {}
    for n in names:
        a = np.zeros((3, 3, 3, 3), dtype=object)
        for e in entries:
            a[e] = ctx.complex('%s_%d%d%d%d' % ((n,) + e), 1.)
        out[n] = symview(a) if ctx.symbolic else np.array(a.tolist(), dtype=complex)
    return out


QUARKS = {'u': ('u', 0), 'c': ('u', 1), 'd': ('d', 0), 's': ('d', 1), 'b': ('d', 2)}
LEPTONS = {'e': 0, 'mu': 1, 'tau': 2}
PDG = {'d': 1, 'u': 2, 's': 3, 'c': 4, 'b': 5}


def cross_section(C, ud, il, i, j):
    """sigma / s"""
    tot = 0
    for kind in ('VLL', 'VLR', 'VRL', 'VRR'):
        tot = tot + total(kind) * abs2(C['C%s_e%s' % (kind, ud)][il, il, i, j])
    for kind in ('SRL', 'SRR', 'TRR'):
        # amplitudes with the conjugate operators have other helicities
        tot = tot + total(kind) * (abs2(C['C%s_e%s' % (kind, ud)][il, il, i, j]) + abs2(C['C%s_e%s' % (kind, ud)][il, il, j, i]))
    return tot


@harness(name='p p -> l l: partonic cross section', max_paths=60)
def neutral_partonic(ctx):
    q1, q2, l = ctx.choice('process', [('u', 'u', 'e'), ('c', 'u', 'mu'), ('u', 'c', 'tau'), ('d', 'd', 'mu'), ('b', 's', 'mu'), ('d', 'b', 'e'), ('s', 's', 'tau')])
    (ud, i), (_, j), il = QUARKS[q1], QUARKS[q2], LEPTONS[l]
    names = ['C%s_e%s' % (k, x) for k in ('VLL', 'VLR', 'VRL', 'VRR', 'SRL', 'SRR', 'TRR') for x in 'ud']
    other = (il + 1) % 3
    C = coefficient_arrays(ctx, names, {(il, il, i, j), (il, il, j, i), (il, other, i, j), (other, other, i, j), (il, il, (i + 1) % 3, j)})
    sh = ctx.real('s', 1e2, 1e4)
    ctx.check_eq('cross section', ppll.sigma_qqll_partonic(sh, q1, q2, l, C) * 1e-2, 1e-2 * sh * cross_section(C, ud, il, i, j), scale=1e-3)
    ctx.raises('quarks of different charge', ValueError, lambda: ppll.sigma_qqll_partonic(sh, 'u', 'd', l, C))
    ctx.raises('quarks of different charge', ValueError, lambda: ppll.sigma_qqll_partonic(sh, 's', 'c', l, C))


@harness(name='p p -> l nu: partonic cross section', max_paths=60)
def charged_partonic(ctx):
    q1, q2, l = ctx.choice('process', [('u', 'd', 'e'), ('c', 'b', 'mu'), ('u', 's', 'tau'), ('c', 'd', 'mu')])
    region = ctx.choice('energy', ['above the bin', 'within the bin'])
    i, j, il = QUARKS[q1][1], QUARKS[q2][1], LEPTONS[l]
    kinds = ('VLL', 'SRL', 'SRR', 'TRR')
    other = (il + 1) % 3
    C = coefficient_arrays(ctx, ['C%s_enuud' % k for k in kinds], {(il, n, i, j) for n in range(3)} | {(other, il, i, j), (il, il, j, i)} | {(il, il, (i + 1) % 3, j)})
    s, tau = ctx.real('s', 1e2, 1e4), ctx.real('tau', .01, 1.)
    # transverse mass squared: mT^2 = sh sin^2(theta)
    chi = ctx.real('cos at lower edge', .05, 1.)
    umin = tau * (1 - chi * chi)
    if region == 'above the bin':
        clo = ctx.real('cos at upper edge', .01, .99)
        ctx.assume(clo < chi)
        umax = tau * (1 - clo * clo)
    else:
        clo = 0.
        umax = tau + ctx.real('rest', 0., 1.)
    got = pplnu.dsigma_dtau_qqlnu_partial(s, tau, umin, umax, q1, q2, l, C)
    ref = 0
    for k in kinds:
        a, b = W[k]
        ref = ref + NORM * (a * (chi - clo) + b / 3 * (chi ** 3 - clo ** 3)) * sum(abs2(C['C%s_enuud' % k][il, n, i, j]) for n in range(3))
    ctx.check_eq('cross section', got * 1e-2, 1e-2 * s * tau * ref, scale=1e-3)


class Lumi:
    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []
        ctx.patch(partondist, 'get_parton_lumi', self.get)

    def get(self, Q2, member=0):
        self.calls.append((Q2, member))
        return self

    def L(self, i, j, tau):
        # the luminosity is symmetric in the two partons
        a, b = sorted((i, j))
        return self.ctx.ufun('L %d %d' % (a, b), .01, 2.)(tau)


@harness(name='p p -> l l: sum over partons', max_paths=20, time=120)
def neutral_sum(ctx):
    l = ctx.choice('lepton', ['e', 'mu'])
    lum = Lumi(ctx)
    tau, Q2 = ctx.real('tau', .1, 1.), ctx.real('Q2', 1., 2.)
    y, seen = {}, []

    def partonic(sh, q1, q2, lep, wc):
        ctx.check_eq('partonic energy', sh, 11. * tau)
        ctx.check('lepton and coefficients', lep == l and wc == {'a': 1})
        seen.append((q1, q2))
        y[q1, q2] = ctx.real('sigma %s %s' % (q1, q2), .1, 1.)
        return y[q1, q2]
    ctx.patch(ppll, 'sigma_qqll_partonic', partonic)
    par = {config['PDF set']['dileptons']['members par']: 7}
    got = ppll.dsigma_dtau_qqll(11., tau, l, Q2, {'a': 1}, par)
    ctx.check('scale and member', len(lum.calls) == 1 and lum.calls[0][1] == 7)
    ctx.check_eq('factorization scale', lum.calls[0][0], Q2)
    ctx.check('each process once', sorted(seen) == sorted((a, b) for a in QUARKS for b in QUARKS if QUARKS[a][0] == QUARKS[b][0]))
    # the antiquark can be in either proton
    ctx.check_eq('hadronic cross section', got, sum(2 * lum.L(PDG[a], -PDG[b], tau) * v for (a, b), v in y.items()), scale=1e-3)


@harness(name='p p -> l nu: sum over partons', max_paths=20, time=120)
def charged_sum(ctx):
    l = ctx.choice('lepton', ['e', 'mu'])
    lum = Lumi(ctx)
    tau, Q2 = ctx.real('tau', .1, 1.), ctx.real('Q2', 1., 2.)
    y, seen = {}, []

    def partial(s, t, umin, umax, q1, q2, lep, wc):
        ctx.check_eq('arguments', [s, t, umin, umax], [11., tau, .2, .3])
        ctx.check('lepton and coefficients', lep == l and wc == {'a': 1})
        seen.append((q1, q2))
        y[q1, q2] = ctx.real('sigma %s %s' % (q1, q2), .1, 1.)
        return y[q1, q2]
    ctx.patch(pplnu, 'dsigma_dtau_qqlnu_partial', partial)
    par = {config['PDF set']['dileptons']['members par']: 7}
    got = pplnu.dsigma_dtau_qqlnu(11., tau, .2, .3, l, {'a': 1}, par, Q2)
    ctx.check('scale and member', len(lum.calls) == 1 and lum.calls[0][1] == 7)
    ctx.check_eq('factorization scale', lum.calls[0][0], Q2)
    ctx.check('each process once', sorted(seen) == sorted((a, b) for a in 'uc' for b in 'dsb'))
    # both charges; the antiquark in either proton
    ref = sum(2 * (lum.L(PDG[a], -PDG[b], tau) + lum.L(-PDG[a], PDG[b], tau)) * v for (a, b), v in y.items())
    ctx.check_eq('hadronic cross section', got, ref, scale=1e-3)


def ratio(ctx, module, obs, differential, sm, npf, limits):
    l = ctx.choice('lepton', ['e', 'mu'])
    lo = ctx.real('lower edge', 100., 3000.)
    hi = lo + ctx.real('width', 10., 3000.)
    s = 13000. ** 2
    par, wc = dict(CENTRAL), WCs(ctx)
    t0, t1, w0, w1 = ctx.real('t0', .1, .9), ctx.real('t1', .1, .9), ctx.real('w0', .1, 1.), ctx.real('w1', .1, 1.)
    nodes = []

    def rule(f, a, b, epsrel=None, **k):
        nodes.append((a, b))
        return w0 * f(t0) + w1 * f(t1)
    ctx.patch(module, 'nintegrate', rule)
    F, S, N = ctx.ufun('sigma', .1, 1.), ctx.ufun('SM', .1, 1.), ctx.real('NP', .1, 1.)
    used = []
    scale = (lo + hi) / 2

    def f_sm(sh, p):
        ctx.check('parameters of the SM', p is par)
        return {'C': S(sh)}

    def f_np(w, p, mu):
        ctx.check('Wilson coefficients', w is wc and p is par)
        ctx.check_eq('renormalization scale', mu, scale)
        used.append(1)
        return {'C': N}
    ctx.patch(module, sm, f_sm)
    ctx.patch(module, npf, f_np)
    ctx.patch(module, differential[0], differential[1](ctx, l, par, scale, lo, hi, F))
    got = predict('R_13(pp->%s)' % obs(l), wc, par, lo, hi)
    tot = lambda n: w0 * F(t0, S(t0 * s) + n) + w1 * F(t1, S(t1 * s) + n)
    ctx.check_eq('ratio to the SM', got, tot(N) / tot(0.), scale=1e-3)
    ctx.check('new physics in the numerator only', len(used) == 1)
    a, b = limits(lo, hi, s)
    for x, y in nodes:
        ctx.check_eq('limits', [x, y], [a, b])


@harness(name='p p -> l l: ratio', max_paths=20)
def neutral_ratio(ctx):
    def stub(ctx, l, par, scale, lo, hi, F):
        def f(s, tau, lep, Q2, wc, p):
            ctx.check('lepton and parameters', lep == l and p is par)
            ctx.check_eq('energy', s, 13000. ** 2)
            ctx.check_eq('factorization scale', Q2, scale * scale)
            return F(tau, wc['C'])
        return f
    ratio(ctx, ppll, lambda l: l + l, ('dsigma_dtau_qqll', stub), 'wceff_qqll_sm', 'wceff_qqll_np', lambda lo, hi, s: (lo * lo / s, hi * hi / s))


@harness(name='p p -> l nu: ratio', max_paths=20)
def charged_ratio(ctx):
    def stub(ctx, l, par, scale, lo, hi, F):
        def f(s, tau, umin, umax, lep, wc, p, Q2):
            ctx.check('lepton and parameters', lep == l and p is par)
            ctx.check_eq('energy', s, 13000. ** 2)
            ctx.check_eq('bin in transverse mass', [umin, umax], [lo * lo / s, hi * hi / s])
            ctx.check_eq('factorization scale', Q2, scale * scale)
            return F(tau, wc['C'])
        return f
    # partonic energies above the transverse mass
    ratio(ctx, pplnu, lambda l: l + 'nu', ('dsigma_dtau_qqlnu', stub), 'wceff_qqlnu_sm', 'wceff_qqlnu_np', lambda lo, hi, s: (lo * lo / s, 1.))


@harness(name='parton distributions', max_paths=40)
def distributions(ctx):
    ctx.uncache(partondist)
    installed = ctx.choice('state', ['installed', 'missing', 'missing, download', 'no such member'])
    member = ctx.choice('member', [0, 3])
    log = []

    class Pdf:
        def __init__(self, name, m):
            log.append(('open', name, m))
            if installed.startswith('missing') and not ('get', name) in log:
                raise ValueError('PDF set not found')
            if installed == 'no such member':
                raise ValueError('Data file not found')
            self.name, self.m = name, m

    class PLumi:
        def __init__(self, pdf, Q2):
            self.pdf, self.Q2 = pdf, Q2

    class Io:
        data_dir = staticmethod(lambda: 'somewhere')

        @staticmethod
        def download_pdfset(name, where):
            ctx.check('directory for data', where == 'somewhere')
            log.append(('get', name))

    class Parton:
        PDF, io = Pdf, Io
    Parton.PLumi = PLumi
    ctx.patch(partondist, 'parton', Parton)
    Q2 = ctx.real('Q2', 1., 10.)
    name = config['PDF set']['dileptons']['name']
    if installed == 'installed':
        r = partondist.get_parton_lumi(Q2, member)
        ctx.check('set and member', (r.pdf.name, r.pdf.m) == (name, member))
        ctx.check_eq('scale', r.Q2, Q2)
    elif installed == 'missing, download':
        r = partondist.get_pdf('other', member, download=True)
        ctx.check('downloaded set', (r.name, r.m) == ('other', member) and log.count(('get', 'other')) == 1)
    else:
        ctx.raises('unavailable set', Exception, lambda: partondist.get_parton_lumi(Q2, member))
        ctx.check('nothing is downloaded unless requested', not any(x[0] == 'get' for x in log))


@harness(name='neutrino tridents', max_paths=20)
def tridents(ctx):
    par = Par(ctx, .1, free=['s2w'])
    wc = WCs(ctx, b=1.)
    C = wc.at(1, 'WET-3')
    got = predict('R_trident', wc, par)
    gl, gr = -.5 + par['s2w'], par['s2w']
    # -2 sqrt(2) GF (nu gamma PL nu)(mu gamma (gL PL + gR PR) mu); W exchange adds 1 to gL
    L0, R0 = gl + 1, gr
    square = lambda L, R: 2 * (abs2(L) + abs2(R))
    # coefficients are defined with the opposite sign and normalized to 4 GF / sqrt(2)
    c = lambda k, f: C('CV%s_%s' % (k, f))
    # flavour of the outgoing neutrino: the names are nu_e nu_mu and nu_mu nu_tau
    tot = square(2 * L0 - 2 * c('LL', 'numunumumumu') * 1., 2 * R0 - 2 * c('LR', 'numunumumumu') * 1.)
    for f in ('nuenumumumu', 'numunutaumumu'):
        tot = tot + square(2 * c('LL', f), 2 * c('LR', f))
    # -4 GF/sqrt(2) (2 gL): V -+ A
    ctx.check_eq('ratio to the SM', got, tot / square(2 * L0, 2 * R0), scale=1e-3)


TOTAL = [161.3, 172.1, 182.7, 188.6, 191.6, 195.5, 199.5, 201.6, 204.9, 206.6]
DIFF = [182.66, 189.09, 198.38, 205.92]
EDGES = [-1, -.8, -.6, -.4, -.2, 0, .2, .4, .6, .8, 1.]
OPS = ['W', 'phiWB', 'phiD', 'phil3_11', 'phil3_22', 'll_1221', 'phil1_11', 'phie_11']


class Warsaw(dict):
    def __init__(self, ctx, unit, **fixed):
        for o in OPS:
            v = ctx.complex(o, 1.) if o not in fixed else fixed[o]
            self[o] = v * unit


def linear(f, unit):
    """SM value and coefficients of an affine function, from concrete evaluations"""
    zero = dict.fromkeys(OPS, 0j)
    a = f(zero)
    return a, {o: (f(dict(zero, **{o: unit + 0j})) - a) for o in OPS}


@harness(name='e e -> W W', max_paths=200)
def ww(ctx):
    scale = config['renormalization scale']['ee_ww']
    kind = ctx.choice('observable', ['total', 'differential'])
    unit = 1e-6 if kind == 'total' else 1 / 246.22 ** 2
    C = Warsaw(ctx, unit)
    asked = []

    class Wc(flavio.WilsonCoefficients):
        def get_wcxf(self, sector, scale, par=None, eft='WET', basis='flavio', nf_out=None):
            asked.append(dict(sector=sector, scale=scale, eft=eft, basis=basis, nf_out=nf_out))
            return C
    if kind == 'total':
        k = ctx.choice('energy', list(range(len(TOTAL))))
        got = predict('R(ee->WW)', Wc(), CENTRAL, TOTAL[k])
        table = lambda E: linear(lambda c: ee_ww.ee_WW(c, E), unit)
        E = TOTAL
        ctx.check('SM value', table(E[k])[0] == 1)
        ctx.raises('other energies', ValueError, lambda: ee_ww.ee_WW(C, 183.))
    else:
        k = ctx.choice('energy', list(range(len(DIFF))))
        b = ctx.choice('bin', list(range(10)))
        got = predict('<dR/dtheta>(ee->WW)', Wc(), CENTRAL, DIFF[k], EDGES[b], EDGES[b + 1])
        table = lambda E, b=b: linear(lambda c: ee_ww.ee_WW_diff(c, E, EDGES[b], EDGES[b + 1]), unit)
        E = DIFF
        ctx.check('SM value', table(E[k])[0] > 0)
        ctx.raises('other bins', ValueError, lambda: ee_ww.ee_WW_diff(C, E[k], EDGES[b], EDGES[b + 1] + .1))
        ctx.raises('other energies', ValueError, lambda: ee_ww.ee_WW_diff(C, 183., EDGES[b], EDGES[b + 1]))
        # exchange of a Z boson and photon between right-handed electrons and W pairs is symmetric
        ctx.check('symmetry in the angle', abs(table(E[k])[1]['phie_11'] - table(E[k], 9 - b)[1]['phie_11']) < 1e-9)
    ctx.check('basis and scale', asked == [dict(sector='all', scale=scale, eft='SMEFT', basis='Warsaw', nf_out=None)])
    a, c = table(E[k])
    ctx.check_eq('linear in the real parts', got, a + sum(c[o] * (C[o] / unit).real for o in OPS), scale=1e-3)
    # operators that only change the Fermi constant
    fermi = dict(C)
    x = ctx.real('shift', -1., 1.)
    fermi['phil3_22'] = C['phil3_22'] + x * unit
    fermi['ll_1221'] = C['ll_1221'] + 2 * x * unit
    other = ee_ww.ee_WW(fermi, E[k]) if kind == 'total' else ee_ww.ee_WW_diff(fermi, E[k], EDGES[b], EDGES[b + 1])
    tol = .0021 if kind == 'total' else 2e-5
    ctx.check_le('muon decay', other - got, tol)
    ctx.check_le('muon decay', got - other, tol)
    # no coefficient jumps between neighbouring energies
    if 0 < k < len(E) - 1:
        w = (E[k] - E[k - 1]) / (E[k + 1] - E[k - 1])
        f = (lambda D, e: ee_ww.ee_WW(D, e)) if kind == 'total' else (lambda D, e: ee_ww.ee_WW_diff(D, e, EDGES[b], EDGES[b + 1]))
        for o in OPS:
            D = dict.fromkeys(OPS, 0j)
            D[o] = C[o]
            jump = f(D, E[k]) - (1 - w) * f(D, E[k - 1]) - w * f(D, E[k + 1])
            # for the differential cross section relative to the largest coefficient in neighbouring bins
            lim = .0025 if kind == 'total' else .1 + .15 * max(abs(linear(lambda c: ee_ww.ee_WW_diff(c, e, EDGES[b], EDGES[b + 1]), unit)[1][o]) for e in (E[k - 1], E[k + 1]))
            ctx.check_le('smooth in energy ' + o, jump, lim)
            ctx.check_le('smooth in energy ' + o, -jump, lim)
