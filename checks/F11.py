"""Charged lepton decays and muon conversion follow from the effective operators."""
import numpy as np
import flavio
import flavio.physics.taudecays.common as common
import flavio.physics.taudecays.tau3l as tau3l
import flavio.physics.taudecays.taulgamma as taulgamma
import flavio.physics.taudecays.taulnunu as taulnunu
import flavio.physics.taudecays.taupl as taupl
import flavio.physics.taudecays.tauvl as tauvl
import flavio.physics.mudecays.mu3e
import flavio.physics.mudecays.mueconversion as mueconversion
import flavio.physics.mudecays.muegamma
import flavio.physics.running.running as running
from engine.run import harness, add_harness
from engine.num import sqrt, abs2, conj, log, pi, lam
from engine.phys import Par, WCs, Running, patch_ckm, predict

EXPLANATION = (
    'The predictions for lepton decays (tau and mu to three leptons, lepton and photon, lepton and pseudoscalar or vector meson, lepton and two neutrinos; muon conversion in nuclei) are executed with symbolic coefficients of all operators, masses, lifetimes, '
    'decay constants and couplings and compared with decay rates of the amplitudes that follow from the operator definitions of the Wilson coefficient basis: Fierz coefficients and fermion traces are computed from Dirac matrices, '
    'the sign of photon exchange from the covariant derivative with d_mu + i e Q A_mu, in which the dipole operators of the basis are defined (as are anomalous magnetic moments). '
    'Generic two-body formulas are executed with arbitrary complex couplings and masses. All flavour combinations are covered.')
BOUNDS = 'parameters within 10% of their central values; Wilson coefficients up to 2 in size (arbitrary size by homogeneity)'
ASSUMPTIONS = ['floats treated as reals', 'three-lepton decays in the limit of massless final leptons up to logarithms, as in the cited literature', 'running couplings and masses are uninterpreted', 'one symbol per scale for the light quark masses of tau to pi l, which the code takes at 2 GeV']
LEP = {'tau': ('mu', 'e'), 'mu': ('e',)}
SECTOR_SCALE = {'tau': 'taudecays', 'mu': 'mudecays'}


def scale(l):
    return flavio.config['renormalization scale'][SECTOR_SCALE[l]]


def dirac():
    s = [np.array(m, dtype=complex) for m in ([[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]])]
    one, zero = np.eye(2), np.zeros((2, 2))
    g = [np.block([[one, zero], [zero, -one]])] + [np.block([[zero, x], [-x, zero]]) for x in s]
    g5 = 1j * g[0] @ g[1] @ g[2] @ g[3]
    return g, (np.eye(4) - g5) / 2, (np.eye(4) + g5) / 2, np.diag([1., -1, -1, -1])


# two-body rates

def vector_amp2(M, m, mv, gL, gR, GL, GR):
    """spin averaged square of lbar (gamma^nu (gL PL + gR PR) + i q_mu sigma^mu nu (GL PL + GR PR)) tau eps_nu"""
    a, b, q = M * M, m * m, mv * mv
    p = (a + b - q) / 2   # momentum product of the fermions
    x, y = (a - b + q) / 2, (a - b - q) / 2   # products with the boson momentum
    v = (abs2(gL) + abs2(gR)) * (p + 2 * x * y / q) - 6 * M * m * (gL * conj(gR)).real
    t = (abs2(GL) + abs2(GR)) * (4 * x * y - q * p) - 6 * M * m * q * (GL * conj(GR)).real
    i = 6 * M * y * (gL * conj(GR) + gR * conj(GL)).real - 6 * m * x * (gR * conj(GR) + gL * conj(GL)).real
    return v + t + i


def numeric_amp2(M, m, mv, gL, gR, GL, GR):
    g, PL, PR, met = dirac()
    sl = lambda p: sum(met[i, i] * g[i] * p[i] for i in range(4))
    E = (M * M + mv * mv - m * m) / 2 / M
    k = np.sqrt(E * E - mv * mv)
    p, q = np.array([M, 0, 0, 0.]), np.array([E, 0, 0, k])
    ql = met @ q
    sg = lambda i, j: 1j / 2 * (g[i] @ g[j] - g[j] @ g[i])
    A = [gL * g[n] @ PL + gR * g[n] @ PR + 1j * sum(ql[j] * sg(j, n) for j in range(4)) @ (GR * PR + GL * PL) for n in range(4)]
    B = [g[0] @ a.conj().T @ g[0] for a in A]
    r = 0.
    for i in range(4):
        for j in range(4):
            pol = -met[i, j] + ql[i] * ql[j] / mv ** 2
            r += pol * np.trace((sl(p - q) + m * np.eye(4)) @ A[i] @ (sl(p) + M * np.eye(4)) @ B[j]).real / 2
    return r


@harness(name='traces')
def traces(ctx):
    # the polynomials of the reference against explicit Dirac matrices
    r = np.random.RandomState(7)
    for i in range(4):
        c = [complex(*r.normal(size=2)) for _ in range(4)]
        args = (1.7 + 0.1 * i, 0.3, 0.8, *c)
        ctx.check_eq('%d' % i, float(vector_amp2(*args)), numeric_amp2(*args), tol=1e-9)


def momentum(M, m1, m2):
    return sqrt(lam(M * M, m1 * m1, m2 * m2)) / (2 * M)


@harness(name='fermion to vector', max_paths=40, time=120)
def fvf(ctx):
    kind = ctx.choice('couplings', ['vector', 'tensor', 'L', 'R', 'mixed', 'massless'])
    M, m, mv = ctx.real('M', 1.6, 2.), ctx.real('m', 0.1, 0.5), ctx.real('mv', 0.5, 1.)
    g = {n: ctx.complex(n, 2.) for n in ('gL', 'gR', 'gTL', 'gtTL', 'gTR', 'gtTR')}
    on = {'vector': ('gL', 'gR'), 'tensor': ('gTL', 'gtTL', 'gTR', 'gtTR'), 'L': ('gL', 'gTR', 'gtTR'), 'R': ('gR', 'gTL', 'gtTL'), 'mixed': ('gL', 'gTL', 'gTR'),
          'massless': ('gTL', 'gTR', 'gtTR')}[kind]
    for n in g:
        if n not in on:
            g[n] = 0j
        else:
            ctx.assume(g[n].real > 0.01)
    G = g['gTL'] - g['gtTL'], g['gTR'] + g['gtTR']
    if kind == 'massless':
        got = common.GammaFvf(M, 0, m, **g)
        k, amp2 = (M * M - m * m) / (2 * M), (M * M - m * m) ** 2 * (abs2(G[0]) + abs2(G[1]))
        return ctx.check_eq('rate', got * M ** 2, k / (8 * pi) * amp2)
    got = common.GammaFvf(M, mv, m, **g)
    ctx.check_eq('rate', got * (8 * pi * M * M) / momentum(M, m, mv), vector_amp2(M, m, mv, g['gL'], g['gR'], *G), scale=1.)


def scalar_amp2(M, m, ms, gL, gR):
    return (abs2(gL) + abs2(gR)) * (M * M + m * m - ms * ms) / 2 + 2 * M * m * (gL * conj(gR)).real


@harness(name='fermion to scalar', max_paths=10)
def fsf(ctx):
    M, m, ms = ctx.real('M', 1.6, 2.), ctx.real('m', 0.1, 0.5), ctx.real('ms', 0.1, 1.)
    gL, gR = ctx.complex('gL', 2.), ctx.complex('gR', 2.)
    ctx.check_eq('rate', common.GammaFsf(M, ms, m, gL, gR) * (8 * pi * M * M) / momentum(M, m, ms), scalar_amp2(M, m, ms, gL, gR), scale=1.)


# l -> l' gamma

@harness(name='radiative', max_paths=20)
def radiative(ctx):
    l1, l2 = ctx.choice('decay', [('tau', 'mu'), ('tau', 'e'), ('mu', 'e')])
    par = Par(ctx, free=['m_' + l1, 'm_' + l2, 'tau_' + l1])
    wc = WCs(ctx, nonzero=True)
    name = 'BR(%s->%sgamma)' % (l1, l2)
    at = wc.at(scale(l1), 'WET-4')
    M, m = par['m_' + l1], par['m_' + l2]
    # |2 C|^2 sigma^mu nu q_nu
    want = par['tau_' + l1] * (M * M - m * m) ** 3 / (4 * pi * M ** 3) * (abs2(at('Cgamma_%s%s' % (l1, l2))) + abs2(at('Cgamma_%s%s' % (l2, l1))))
    ctx.check_eq('BR', predict(name, wc, par), want)


# three leptons: operators (bar l1 G l0)(bar l3 G' l2) from those of the basis

MODES = [('tau', 'mu', 'e', 'e'), ('tau', 'mu', 'mu', 'mu'), ('tau', 'e', 'e', 'e'), ('tau', 'e', 'mu', 'mu'), ('tau', 'e', 'mu', 'e'), ('tau', 'mu', 'e', 'mu'), ('mu', 'e', 'e', 'e')]
TYPES = ['VLL', 'VRR', 'VLR', 'SRR']
SECT = {('tau', 'mu'): 'mutau', ('tau', 'e'): 'taue', ('mu', 'e'): 'mue', ('tau', 'e', 'mu', 'e'): 'etauemu', ('tau', 'mu', 'e', 'mu'): 'muemutau'}


def parse(name):
    """C<type>_<abcd> -> type, flavours: operator (bar b G a)(bar d G' c)"""
    t, f = name[1:].split('_')
    out = []
    while f:
        for l in ('tau', 'mu', 'e'):
            if f.startswith(l):
                out.append(l)
                f = f[len(l):]
                break
        else:
            return t, None
    return t, out


FIERZ_V = {'VLL': {'VLL': 1.}, 'VRR': {'VRR': 1.}, 'VLR': {'SRL': -2.}, 'VRL': {'SLR': -2.}}
FIERZ_S = {'SLL': {'SLL': -1 / 2, 'TLL': -1 / 8}, 'SRR': {'SRR': -1 / 2, 'TRR': -1 / 8}}


def reduce(names, l0, l1, l2, l3, at):
    """coefficients of (bar l1 G l0)(bar l3 G' l2) where type letters are the chiralities of l0 and l2 (for scalars the projectors)"""
    out = {}
    flip = {'L': 'R', 'R': 'L'}

    def add(t, c, v):
        out[t] = out.get(t, 0) + c * v
    for n in names:
        t, f = parse(n)
        if not f or len(f) != 4:
            continue
        k = t[0]
        for dagger in (False, True):
            a, b, c, d = f   # (bar b G a)(bar d G' c)
            x, y = t[1], t[2]
            v = at(n)
            if dagger:
                a, b, c, d = b, a, d, c
                v = conj(v)
                if k == 'S':
                    x, y = flip[x], flip[y]
            # field l0 is annihilated once, l2 (antilepton created) once; bars are l1, l3
            if sorted([a, c]) != sorted([l0, l2]) or sorted([b, d]) != sorted([l1, l3]) or (a, b, c, d) == (b, a, d, c):
                continue
            if l0 not in (a, c):
                continue
            if c == l0 and not a == l0:   # exchange the bilinears
                a, b, c, d, x, y = c, d, a, b, y, x
            if a != l0:
                continue
            if b == l1:
                add(k + x + y, 1, v)
            else:
                for u, w in (FIERZ_V if k == 'V' else FIERZ_S)[k + x + y].items():
                    add(u, w, v)
    return out


def bilinear(c, identical, lnm):
    """rate in units of m^5/(192*8*pi^3): massless final state"""
    g = lambda n: c.get(n, 0.)
    f = 2 if identical else 1
    r = 0.
    for s, o in (('L', 'R'), ('R', 'L')):
        # vectors: for identical leptons both assignments interfere if the final chiralities are equal
        r = r + f * abs2(g('V' + s + s)) + abs2(g('V' + s + o)) + abs2(g('S' + s + s)) * (1 / 8 if identical else 1 / 4)
        if not identical:
            r = r + abs2(g('S' + s + o)) / 4 + 12 * abs2(g('T' + s + s))
        d = g('D' + s)
        # photon exchange
        r = r + 8 * (d * conj(f * g('V' + s + s) + g('V' + s + o))).real
        r = r + 32 * abs2(d) * (2 * lnm - (11 / 4 if identical else 3))
    return r


def three_leptons(ctx, mode, prefix):
    l0, l1, l2, l3 = mode
    par = Par(ctx, free=['m_' + l0, 'tau_tau', 'GF'])
    run = Running(ctx)
    only = {'vector': ('CV',), 'left vector, dipole': ('CVLL', 'CVLR', 'Cgamma'), 'right vector, dipole': ('CVRR', 'CVLR', 'Cgamma'), 'scalar': ('CS', 'CVLR'), 'dipole, scalar': ('Cgamma', 'CS')}[prefix]
    wc = WCs(ctx, only=only)
    s = scale(l0)
    sec = SECT[l0, l1] if l2 == l3 or (l0, l1, l2, l3) not in SECT else SECT[mode]
    from wilson import wcxf
    names = list(wcxf.Basis['WET-4', 'flavio'].sectors[sec])
    at = wc.at(s, 'WET-4')
    c = reduce(names, l0, l1, l2, l3, at)
    identical = l1 == l3
    if l2 == l3 or l2 == l1:
        e = sqrt(4 * pi * run('alpha_e', s, 4))
        M = par['m_' + l0]
        # dipole (bar l1 sigma P l0), with the chirality of l0 opposite to the vector current it interferes with
        c['DL'] = e / M * at('Cgamma_' + l0 + l1)
        c['DR'] = e / M * conj(at('Cgamma_' + l1 + l0))
    ml = par['m_' + l2]
    name = 'BR(mu->eee)' if l0 == 'mu' else 'BR(tau->%s%s%s)' % (l1, l2, l3)
    got = predict(name, wc, par)
    if l0 == 'mu':
        pre = 1 / (8 * par['GF'] ** 2)
    else:
        pre = par['tau_tau'] * par['m_tau'] ** 5 / (192 * 8 * pi ** 3)
    ctx.check_eq('BR', got / pre, bilinear(c, identical, log(par['m_' + l0] / ml)), scale=1.)


for _m in MODES:
    for _p in ('left vector, dipole', 'right vector, dipole', 'scalar', 'dipole, scalar'):
        add_harness(__name__, lambda ctx, m=_m, p=_p: three_leptons(ctx, m, p), '%s->%s%s%s %s' % (_m + (_p,)), max_paths=4, time=100)


# neutrinos

def leptonic(x, CL, CR):
    F = 1 - 8 * x + 8 * x ** 3 - x ** 4 - 12 * x ** 2 * log(x)
    G = 1 + 9 * x - 9 * x ** 2 - x ** 3 + 6 * x * (1 + x) * log(x)
    return F * (abs2(CL) + abs2(CR)) - 4 * sqrt(x) * G * (CL * conj(CR)).real


def spectrum_rate(x0, CL, CR):
    """numerical integration of the spectrum of (bar l G l0)(bar nu gamma PL nu) in the energy of l"""
    from scipy.integrate import quad
    M, m = 1., float(np.sqrt(x0))

    def f(E):
        p = np.sqrt(E * E - m * m)
        q0, q2 = M - E, M * M + m * m - 2 * M * E
        # neutrino tensor integrated over phase space ~ q^a q^b - q^2 g^ab; lepton tensors: L_ab = p_a k_b + p_b k_a - g_ab p.k (symmetric part)
        pk, pq, kq = M * E, M * q0, E * M - m * m
        v = (2 * pq * kq - q2 * pk) - q2 * (2 * pk - 4 * pk)
        # left-right: m M g_ab
        w = m * M * (q2 - 4 * q2)
        return p * ((abs(CL) ** 2 + abs(CR) ** 2) * v + 2 * (CL * np.conj(CR)).real * w)
    return 16 * quad(f, m, (1 + m * m) / 2)[0]


@harness(name='spectrum')
def spectrum(ctx):
    # reference for the integrated rate
    for x0, CL, CR in ((0.01, 1., 0.), (0.01, 1., 0.5 + 1j), (0.2, 0.3 - 1j, 0.7)):
        n = spectrum_rate(0.01, 1., 0.) / leptonic(0.01, 1. + 0j, 0j)
        ctx.check_eq('%g %s' % (x0, CR), float(leptonic(x0, CL + 0j, CR + 0j)), float(spectrum_rate(x0, CL, CR) / n), tol=1e-7)


@harness(name='effective Fermi constant', max_paths=10)
def gfeff(ctx):
    par = Par(ctx, free=['m_mu', 'm_e', 'GF'])
    wc = WCs(ctx, b=1e-6)
    at = wc.at(scale('mu'), 'WET-3')
    sm = -4 * par['GF'] / sqrt(2.)
    x = (par['m_e'] / par['m_mu']) ** 2
    got = taulnunu.GFeff(wc, par)
    # the measured muon lifetime is that with the true constant
    rate = leptonic(x, at('CVLL_numunueemu') + sm, at('CVLR_numunueemu'))
    ctx.check_eq('muon lifetime', (got / par['GF']) ** 2 * rate * 1e8, par['GF'] ** 2 * 8 * leptonic(x, 1. + 0j, 0j) * 1e8)


SECNU = {'e': 'nunutaue', 'mu': 'nunumutau'}


@harness(name='tau->lnunu', max_paths=10, time=100)
def lnunu(ctx):
    lep = ctx.choice('lepton', ['e', 'mu'])
    kind = ctx.choice('coefficients', ['diagonal', 'left', 'right', 'both'])
    par = Par(ctx, free=['m_tau', 'tau_tau', 'GF'])
    run = Running(ctx)
    gf = ctx.real('GFeff', 1e-5, 1.3e-5)
    ctx.patch_name(taulnunu.GFeff, lambda w, p: gf)
    L = ('e', 'mu', 'tau')
    from wilson import wcxf
    names = [n for n in wcxf.Basis['WET-4', 'flavio'].sectors[SECNU[lep]]]

    def flavours(n):
        f = n.split('_')[1]
        a, rest = next((l, f[2 + len(l):]) for l in ('tau', 'mu', 'e') if f.startswith('nu' + l))
        b, rest = next((l, rest[2 + len(l):]) for l in ('tau', 'mu', 'e') if rest.startswith('nu' + l))
        c = next(l for l in ('tau', 'mu', 'e') if rest.startswith(l))
        return a, b, c, rest[len(c):]
    only = [n for n in names if {'diagonal': flavours(n)[:2] in (('tau', lep), (lep, 'tau')) or flavours(n)[0] == flavours(n)[1] == lep, 'left': n.startswith('CVLL'), 'right': n.startswith('CVLR'),
                                 'both': 'mu' in flavours(n)[:2]}[kind]]
    wc = WCs(ctx, only=only, b=1e-4)
    s = scale('tau')
    at = wc.at(s, 'WET-4')
    amps = {}
    for n in names:
        # (bar nu_b nu_a)(bar d c)
        a, b, c, d = flavours(n)
        k = 'L' if n.startswith('CVLL') else 'R'
        for dag in (False, True):
            if dag:
                a, b, c, d = b, a, d, c
            if c == 'tau' and d == lep:
                # creates nu_b and antinu_a
                amps[b, a, k] = amps.get((b, a, k), 0) + (conj(at(n)) if dag else at(n))
    amps['tau', lep, 'L'] = amps.get(('tau', lep, 'L'), 0) - 4 * gf / sqrt(2.)
    x = (par['m_' + lep] / par['m_tau']) ** 2
    tot = sum(leptonic(x, amps.get((a, b, 'L'), 0.) + 0j, amps.get((a, b, 'R'), 0.) + 0j) for a in L for b in L)
    em = 1 + run('alpha_e', s, 4) / (2 * pi) * (25 / 4 - pi ** 2)
    want = par['tau_tau'] * par['m_tau'] ** 5 / (192 * pi ** 3) / 8 * em * tot
    ctx.check_eq('BR', predict('BR(tau->%snunu)' % lep, wc, par), want, scale=1e-3)


# tau -> P l

@harness(name='tau->pi l', max_paths=10, time=100)
def pil(ctx):
    lep = ctx.choice('lepton', ['e', 'mu'])
    kind = ctx.choice('coefficients', ['CV', 'CSRR', 'CSRL', 'left', 'right'])
    only = {'left': ('CVLL', 'CSRR_mutau', 'CSRR_etau'), 'right': ('CVRR', 'CSRL_taumu', 'CSRL_taue')}.get(kind, (kind,))
    par = Par(ctx, free=['m_tau', 'm_mu', 'm_pi0', 'f_pi0', 'tau_tau', 'm_u', 'm_d'])
    run, wc = Running(ctx), WCs(ctx, only=only)
    at = wc.at(scale('tau'), 'WET-4')
    M, m, mP, f = par['m_tau'], par['m_' + lep], par['m_pi0'], par['f_pi0']
    vL = vR = sL = sR = 0.
    for q, iso in (('u', 1), ('d', -1)):
        n, qq, t = 'tau' + lep, q + q, lep + 'tau'
        # axial vector part of the quark current
        vL = vL + iso * (at('CVLR_' + n + qq) - at('CVLL_' + n + qq)) / 2
        vR = vR + iso * (at('CVRR_' + n + qq) - at('CVLR_' + qq + n)) / 2
        # pseudoscalar part
        sR = sR + iso * (at('CSRR_' + n + qq) - at('CSRL_' + n + qq)) / 2
        sL = sL - iso * (conj(at('CSRR_' + t + qq)) - conj(at('CSRL_' + t + qq))) / 2
    r = mP ** 2 / (par['m_u'] + par['m_d'])
    gL, gR = vR * M - vL * m + r * sL, vL * M - vR * m + r * sR
    want = f ** 2 / 2 * scalar_amp2(M, m, mP, gL, gR)
    ctx.check_eq('BR', predict('BR(tau->pi%s)' % lep, wc, par) / par['tau_tau'] * (8 * pi * M * M) / momentum(M, m, mP), want, scale=1e-3)


@harness(name='tau->K l', max_paths=10, time=100)
def kl(ctx):
    lep = ctx.choice('lepton', ['e', 'mu'])
    only = ctx.choice('coefficients', [('C9_', 'C10_', 'CS_'), ('C9p', 'C10p', 'CPp'), ('CS', 'CP'), ('C9', 'CP_'), ('C10', 'CSp')])
    par = Par(ctx, free=['m_tau', 'm_mu', 'f_K0', 'tau_tau', 'GF'])
    V, run, wc = patch_ckm(ctx), Running(ctx), WCs(ctx, only=only)
    s = scale('tau')
    qq = 'sdtau' + lep
    w = wc.at(s, 'WET-4')
    at = lambda n: w('%s_%s' % (n, qq))
    M, m, mK, f = par['m_tau'], par['m_' + lep], par['m_K0'], par['f_K0']
    ms, md = run('ms', s), run('md', s)
    # (dbar gamma_mu P s)(lbar gamma^mu (C9 + C10 gamma5) tau): half of the axial vector current
    v, a = at('C9p') - at('C9'), at('C10p') - at('C10')
    r = mK ** 2 * ms / (md + ms)
    S, P = v * (M - m) + r * (at('CS') - at('CSp')), -a * (M + m) + r * (at('CP') - at('CPp'))
    N = 4 * par['GF'] / sqrt(2.) * run('alpha_e', 4.8) / (4 * pi) * f / 2
    want = abs2(V.xi('t', 'ds')) * scalar_amp2(M, m, mK, S - P, S + P)
    ctx.check_eq('BR', predict('BR(tau->K%s)' % lep, wc, par) / par['tau_tau'] * (8 * pi * M * M) / momentum(M, m, mK) / N ** 2, want, scale=1.)


# tau -> V l

@harness(name='tau->V l', max_paths=120, time=120)
def vl(ctx):
    lep = ctx.choice('lepton', ['e', 'mu'])
    V, quarks, charge = ctx.choice('meson', [('rho', {'u': 1, 'd': -1}, 1.), ('phi', {'s': 1}, -1 / 3)])
    kind = ctx.choice('coefficients', ['vector', 'tensor', 'dipole', 'left', 'right'])
    only = {'vector': ('CV',), 'tensor': ('CT',), 'dipole': ('Cgamma', 'CT'), 'left': ('CVLL', 'CVLR_tau', 'CTRR_tau', 'Cgamma_tau'), 'right': ('CVRR', 'CVLR_uu', 'CVLR_ss', 'CTRR_%stau' % lep, 'Cgamma_%s' % lep)}[kind]
    v = {'rho': 'rho0'}.get(V, V)
    par = Par(ctx, free=['m_tau', 'm_mu', 'f_' + v, 'tau_tau'])
    run, wc = Running(ctx), WCs(ctx, only=only, nonzero=True)
    s = scale('tau')
    at = wc.at(s, 'WET-4')
    M, m, mV, f = par['m_tau'], par['m_' + lep], par['m_' + v], par['f_' + v]
    fT = ctx.real('f_perp', 0.1, 0.3)

    def f_perp(par, meson, sc, nf_out=None):
        if meson != v or sc != s:
            raise ValueError(meson)
        return fT
    ctx.patch_name(running.get_f_perp, f_perp)
    e = sqrt(4 * pi * run('alpha_e', s, 3))
    norm = sqrt(2.) if len(quarks) == 2 else 1.
    gL = gR = GL = GR = 0.
    n, t = 'tau' + lep, lep + 'tau'
    for q, c in quarks.items():
        qq = q + q
        gL = gL + c * (at('CVLL_' + n + qq) + at('CVLR_' + n + qq)) / 2
        gR = gR + c * (at('CVRR_' + n + qq) + at('CVLR_' + qq + n)) / 2
        GR = GR + c * 2 * at('CTRR_' + n + qq)
        GL = GL + c * 2 * conj(at('CTRR_' + t + qq))
    gL, gR = gL * mV * f / norm, gR * mV * f / norm
    GL, GR = GL * fT / norm, GR * fT / norm
    # photon exchange: 2 C i q_mu sigma^mu nu e Q f m_V / q2 with d_mu + i e Q A_mu
    GR = GR - 2 * e * charge * f / mV / norm * at('Cgamma_' + n)
    GL = GL - 2 * e * charge * f / mV / norm * conj(at('Cgamma_' + t))
    got = predict('BR(tau->%s%s)' % (V, lep), wc, par)
    ctx.check_eq('BR', got / par['tau_tau'] * (8 * pi * M * M) / momentum(M, m, mV), vector_amp2(M, m, mV, gL, gR, GL, GR), scale=1e-3)



# conversion in nuclei

@harness(name='conversion', max_paths=20, time=120)
def conversion(ctx):
    N = ctx.choice('nucleus', ['Au', 'Al', 'Ti'])
    kind = ctx.choice('coefficients', ['CV', 'CS', 'left', 'right'])
    only = {'left': ('Cgamma_mue', 'CVLL', 'CVLR_mue', 'CSRR_mue'), 'right': ('Cgamma_emu', 'CVRR', 'CVLR_uu', 'CVLR_dd', 'CSRL_emu')}.get(kind, (kind,))
    par = Par(ctx, free=['D *', 'Sp *', 'Sn *', 'Vp *', 'Vn *', 'GammaCapture *', 'GF', 'sigma_*', 'gS_u-d'])
    run, wc = Running(ctx), WCs(ctx, only=only)
    s = scale('mu')
    at = wc.at(s, 'WET-3')
    mm = par['m_mu']
    mu, md, ms = run('mu', s, 3), run('md', s, 3), run('ms', s, 3)
    # scalar charges of the proton
    plus, minus = 2 * par['sigma_piN'] / (mu + md), par['gS_u-d']
    G = {'p': {'u': (plus + minus) / 2, 'd': (plus - minus) / 2, 's': par['sigma_s'] / ms}}
    G['n'] = {'u': G['p']['d'], 'd': G['p']['u'], 's': G['p']['s']}
    count = {'p': {'u': 2, 'd': 1}, 'n': {'u': 1, 'd': 2}}
    S, Vv = {x: par['S%s %s' % (x, N)] for x in 'pn'}, {x: par['V%s %s' % (x, N)] for x in 'pn'}
    # amplitudes for left- and right-handed muons (vector), in units of the overlap integrals:
    # dipole C ebar sigma PR mu F: D/(4 m) times electric charge, destructive to a vector interaction with positive charge
    left = -at('Cgamma_mue') * par['D ' + N] / (4 * mm)
    right = -conj(at('Cgamma_emu')) * par['D ' + N] / (4 * mm)
    for x in 'pn':
        for q, c in count[x].items():
            qq = q + q
            left = left + c * Vv[x] * (at('CVLL_mue' + qq) + at('CVLR_mue' + qq)) / 2
            right = right + c * Vv[x] * (at('CVRR_mue' + qq) + at('CVLR_%smue' % qq)) / 2
        for q, c in G[x].items():
            qq = q + q
            left = left + c * S[x] * (at('CSRR_mue' + qq) + at('CSRL_mue' + qq)) / 2
            right = right + c * S[x] * conj(at('CSRR_emu' + qq) + at('CSRL_emu' + qq)) / 2
    want = 4 * mm ** 5 * (abs2(left) + abs2(right)) / par['GammaCapture ' + N]
    ctx.check_eq('rate', predict('CR(mu->e, %s)' % N, wc, par), want, scale=1e10)


@harness(name='sign of photon exchange')
def photon_sign(ctx):
    # muon at rest, electron with momentum q: interference of dipole times static charge and vector interaction
    g, PL, PR, met = dirac()
    M = 1.
    k = np.array([M, 0, 0, M])
    sl = lambda p: sum(met[i, i] * g[i] * p[i] for i in range(4))
    q = met @ (np.array([M, 0, 0, 0.]) - k)
    sg = lambda i, j: 1j / 2 * (g[i] @ g[j] - g[j] @ g[i])
    q2 = -M * M
    # L = C lbar sigma^mu nu PR mu F, current j = e Q, L_eff = J.j/q2 with J^nu = -2 i C q_mu sigma^mu nu
    D = -2j * sum(q[i] * sg(i, 0) for i in range(4)) @ PR / q2
    V = g[0] @ PL / 2
    rho = (np.eye(4) + g[0]) / 2   # muon at rest
    inter = np.trace(sl(k) @ D @ rho @ g[0] @ V.conj().T @ g[0]).real
    norm = np.trace(sl(k) @ V @ rho @ g[0] @ V.conj().T @ g[0]).real
    ctx.check_eq('ratio', float(inter / norm), -4.)
