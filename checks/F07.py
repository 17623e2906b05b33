"""Form factors obey their kinematic constraints, expansions and heavy quark relations."""
import itertools
import numpy as np
import flavio
import flavio.physics.bdecays.formfactors.common as common
import flavio.physics.bdecays.formfactors.hqet as hqet
from flavio.physics.bdecays.formfactors.b_p import bcl as bp_bcl, bsz as bp_bsz, cln as bp_cln, isgurwise as bp_iw
from flavio.physics.bdecays.formfactors.b_v import bsz as bv_bsz, cln as bv_cln, clnexp, isgurwise as bv_iw
from flavio.physics.bdecays.formfactors.lambdab_32 import QuarkModel_MCN as mcn, LatticeQCD as lattice
from flavio.physics.bdecays.formfactors.lambdab_12 import lattice_parameters
import flavio.physics.bdecays.formfactors.b_gamma.bgamma
import flavio.physics.kdecays.formfactors
import flavio.physics.ddecays.formfactors
import flavio.physics.running.running as running
from flavio.classes import Implementation
from engine import dirac as D
from engine.run import harness
from engine.num import sqrt, exp, pi
from engine.phys import CENTRAL

EXPLANATION = (
    'The registered form factor implementations are executed with symbolic momentum transfer, parameters and, where they enter algebraically, masses; the conformal variable is an arbitrary function, which is itself compared with its definition. '
    'The reference is the series of the documented parametrization with the documented number of terms, the relations at vanishing momentum transfer or at the endpoint, and matrix elements in heavy quark notation written with explicit four-vectors. '
    'Radiative corrections to heavy quark currents are related by charge conjugation, the sign of a quark mass, duality of tensors, current conservation and the equation of motion.')
BOUNDS = 'momentum transfers between zero and the endpoint; expansion parameters between -2 and 2; masses within two percent'
ASSUMPTIONS = ['floats treated as reals', 'the dilogarithm in the radiative corrections is an arbitrary function', 'resonance masses and other constants inside parametrizations are taken from the code']


class Pars(dict):
    """any parameter is a symbol; masses and decay constants near their values"""
    def __init__(self, ctx, masses=True, data=()):
        dict.__init__(self, data)
        self.ctx, self.masses = ctx, masses

    def __missing__(self, k):
        if k.startswith('m_') or ' m0' in k or ' m1' in k or ' m+' in k or ' m_' in k:
            c = CENTRAL.get(k, 5.3)
            v = self.ctx.real(k, c * 0.98, c * 1.02) if self.masses else c
        elif k.startswith('f_'):
            v = self.ctx.real(k, 0.1, 0.3)
        elif 'delta' in k:
            v = self.ctx.real(k, 0.1, 1.)
        else:
            v = self.ctx.real(k, -2., 2.)
        self[k] = v
        return v

    def copy(self):
        return Pars(self.ctx, self.masses, self)


def variable(ctx):
    """the conformal variable as an arbitrary function"""
    Z = ctx.ufun('z', 0.01, 0.5)
    f = lambda mB, mM, q2, t0=None: 0. if type(q2) is int and type(t0) is int and q2 == t0 == 0 else Z(mB, mM, q2, {None: -1., 'tm': -2.}.get(t0, t0) if isinstance(t0, (str, type(None))) else t0)
    ctx.patch_name(common.z, f)
    for m in (bp_bsz, bv_bsz):
        ctx.uncache(m)
    return f


def series(a, x):
    return sum(k * x ** i for i, k in enumerate(a))


def pole(q2, m):
    return 1 / (1 - q2 / m ** 2)


def bclseries(a, x):
    """last coefficient fixed by the threshold behaviour"""
    n = len(a)
    return sum(k * (x ** i - (-1.) ** (i - n) * i / n * x ** n) for i, k in enumerate(a))


MESONS = {'B->K': ('B0', 'K0'), 'B->pi': ('B+', 'pi0'), 'B->D': ('B+', 'D0'), 'D->K': ('D0', 'K+'), 'D->pi': ('D0', 'pi+')}


@harness(name='pseudoscalar series', max_paths=200, time=100)
def pseudoscalar(ctx):
    p = ctx.choice('transition', sorted(MESONS))
    heavy = p.startswith('B')
    kind = ctx.choice('parametrization', ['BSZ3', 'BCL3', 'BCL3 t0=0', 'BCL4', 'BCL3-IW', 'BCL4-IW', 'BCL3-IW-t0max', 'BCL4-IW-t0max'] if heavy else ['BSZ2', 'BSZ3', 'BCL2'])
    z = variable(ctx)
    par = Pars(ctx)
    B, P = MESONS[p]
    mB, mP, mp, m0 = par['m_' + B], par['m_' + P], par[p + ' BCL m+'], par[p + ' BCL m0']
    chl = ctx.choice('chiral logarithms', [False, True]) if kind == 'BCL3 t0=0' else False
    factor = par[p + ' BCL chL'] if chl else 1.
    q2 = ctx.real('q2', 0.1, 2.)
    n = int(kind[3])
    t0 = 0 if 't0=0' in kind else 'tm' if 't0max' in kind else None
    Z, Z0 = z(mB, mP, q2, t0), z(mB, mP, 0, t0)
    c = lambda f, n, s=kind[:3]: [par['%s %s a%d_%s' % (p, s, i, f)] for i in range(n)]
    imp = Implementation[p + ' ' + kind]
    got, at0 = imp.get(par, None, q2), imp.get(par, None, 0)
    ctx.check_eq('relation at zero', at0['f+'], at0['f0'], scale=1.)
    if kind.startswith('BSZ'):
        want = {f: pole(q2, mp) * series(c(f, n), Z - Z0) for f in ('f+', 'fT')}
        want['f0'] = pole(q2, m0) * series(c('f+', 1) + c('f0', n)[1:], Z - Z0)
    else:
        want = {f: factor * pole(q2, mp) * bclseries(c(f, n), Z) for f in ('f+', 'fT')}
        if t0 == 0:
            a0 = c('f+', 1) + c('f0', n)[1:]
        else:
            a0 = c('f0', n - 1)
            a0 = a0 + [(bclseries(c('f+', n), Z0) - series(a0, Z0)) / Z0 ** (n - 1)]
        want['f0'] = factor * pole(q2, m0) * series(a0, Z)
        if 'IW' in kind:
            want['fT'] = want['f+'] * (1 + par[p + ' IW a_T'])
    for f in ('f+', 'f0', 'fT'):
        ctx.check_eq(f, got[f], want[f], scale=1.)


@harness(name='pion series with value at zero', max_paths=20)
def lmvd(ctx):
    z = variable(ctx)
    par = Pars(ctx)
    p = 'B->pi'
    q2 = ctx.real('q2', 0.1, 20.)
    mB, mP, mp, m0 = (par[p + ' BCL LMVD ' + k] for k in ('m_B+', 'm_pi0', 'm+', 'm0'))
    Z, Z0 = z(mB, mP, q2), z(mB, mP, 0)
    imp = Implementation[p + ' BCL4-LMVD']
    got, at0 = imp.get(par, None, q2), imp.get(par, None, 0)
    for k in '+T':
        b = [1.] + [par['%s BCL b_%s^%d' % (p, k, i)] for i in (1, 2, 3)]
        ctx.check_eq('f' + k, got['f' + k], pole(q2, mp) * par['%s BCL f_%s(0)' % (p, k)] * (1 + bclseries(b, Z) - bclseries(b, Z0)), scale=1.)
    b = [1.] + [par['%s BCL b_0^%d' % (p, i)] for i in (1, 2, 3, 4)]
    ctx.check_eq('f0', got['f0'], pole(q2, m0) * par[p + ' BCL f_+(0)'] * (1 + series(b, Z) - series(b, Z0)), scale=1.)
    ctx.check_eq('relation at zero', at0['f+'], at0['f0'], scale=1.)


VECTORS = {'B->K*': ('B0', 'K*0'), 'B->rho': ('B0', 'rho0'), 'B->omega': ('B0', 'omega'), 'Bs->phi': ('Bs', 'phi'), 'Bs->K*': ('Bs', 'K*0'), 'B->D*': ('B0', 'D*0')}
NAMES = ('A0', 'A1', 'A12', 'V', 'T1', 'T2', 'T23')
# quantum numbers of the resonances
JP = {'A0': 0, 'A1': 2, 'A12': 2, 'V': 1, 'T1': 1, 'T2': 2, 'T23': 2}


@harness(name='vector series', max_paths=100, time=100)
def vector(ctx):
    p = ctx.choice('transition', sorted(VECTORS))
    kind = ctx.choice('parametrization', ['BSZ2', 'BSZ3'] + (['SSE'] if p in ('B->K*', 'Bs->phi', 'Bs->K*') else []))
    z = variable(ctx)
    par = Pars(ctx)
    given = dict(par)
    mB, mV = par['m_' + VECTORS[p][0]], par['m_' + VECTORS[p][1]]
    q2 = ctx.real('q2', 0.1, 10.)
    imp = Implementation[p + ' ' + kind]
    got = imp.get(par, None, q2)
    if kind == 'SSE':
        mres = {'d': [5.279, 5.324, 5.716], 's': [5.366, 5.414, 5.829]}['d' if p == 'Bs->K*' else 's']
        for f in NAMES:
            a = [par['%s SSE %s_a%d' % (p, f.lower(), i)] for i in (0, 1)]
            ctx.check_eq(f, got[f], pole(q2, mres[JP[f]]) * series(a, z(mB, mV, q2, 12.)), scale=1.)
        return
    at0 = imp.get(par, None, 0)
    ctx.check_eq('relation of T at zero', at0['T1'], at0['T2'], scale=1.)
    ctx.check_eq('relation of A at zero', 8 * mB * mV * at0['A12'], (mB ** 2 - mV ** 2) * at0['A0'], scale=30.)
    n = int(kind[3])
    mres = [par[p + ' BCL ' + k] for k in ('m0', 'm1-', 'm1+')]
    for f in NAMES:
        a = [par['%s BSZ a%d_%s' % (p, i, f)] for i in range(n) if (i, f) not in ((0, 'A12'), (0, 'T2'))]
        if f == 'T2':
            a = [par[p + ' BSZ a0_T1']] + a
        if f == 'A12':
            a = [par[p + ' BSZ a0_A0'] * (mB ** 2 - mV ** 2) / (8 * mB * mV)] + a
        ctx.check_eq(f, got[f], pole(q2, mres[JP[f]]) * series(a, z(mB, mV, q2) - z(mB, mV, 0)), scale=1.)
    ctx.check('parameters unchanged', not any(k.endswith(('a0_A12', 'a0_T2')) for k in par if k not in given))


@harness(name='conformal variable', max_paths=60)
def conformal(ctx):
    ctx.uncache(common)
    mB, mM, q2 = ctx.real('mB', 5., 5.4), ctx.real('mM', 0.1, 2.), ctx.real('q2', -5., 9.)
    kind = ctx.choice('t0', ['default', 'endpoint', 'number'])
    tp, tm = (mB + mM) ** 2, (mB - mM) ** 2
    t = {'default': None, 'endpoint': 'tm', 'number': ctx.real('t', -5., 9.)}[kind]
    t0 = {'default': tp * (1 - sqrt(1 - tm / tp)), 'endpoint': tm, 'number': t}[kind]
    r, s = sqrt(tp - q2), sqrt(tp - t0)
    ctx.check_eq('definition', common.z(mB, mM, q2, t), (r - s) / (r + s), scale=1.)
    # powers of w-1 = 8 z/(1-z)^2 up to an order
    x = ctx.real('x', -0.3, 0.3)
    n, m = ctx.choice('power', [0, 1, 2, 3]), ctx.choice('order', [1, 2, 3])
    coeff = {0: [1, 0, 0, 0], 1: [0, 8, 16, 24], 2: [0, 0, 64, 256], 3: [0, 0, 0, 512]}[n]
    ctx.check_eq('power of recoil', common.w_minus_1_pow_n(x, n=n, order_z=m), series(coeff[:m + 1], x), scale=1.)


# --- heavy quark notation
def dot(a, b):
    return a[0] * b[0] - sum(a[i] * b[i] for i in (1, 2, 3))


@harness(name='heavy quark notation', max_paths=20, time=100)
def notation(ctx):
    """matrix elements in both notations between explicit states; recoiling along the third axis"""
    mB, mD = ctx.real('mB', 5., 5.5), ctx.real('mD', 1.5, 2.2)
    x = ctx.real('x', 1.05, 2.)         # exponential of the rapidity
    w, s = (x + 1 / x) / 2, (x - 1 / x) / 2
    q2 = mB ** 2 + mD ** 2 - 2 * mB * mD * w
    v, u = [1., 0., 0., 0.], [w, 0., 0., s]
    p, k = [mB * c for c in v], [mD * c for c in u]
    P, q = [a + b for a, b in zip(p, k)], [a - b for a, b in zip(p, k)]
    N = sqrt(mB * mD)
    h = {n: ctx.real('h' + n, -2., 2.) for n in ('h+', 'h-', 'hT', 'V', 'A1', 'A2', 'A3', 'T1', 'T2', 'T3')}
    f = bp_cln.h_to_f(mB, mD, h, q2)
    # vector current: f+ (P - (M^2 - m^2)/q^2 q) + f0 (M^2 - m^2)/q^2 q, multiplied by q^2
    for i in (0, 3):
        want = N * (h['h+'] * (v[i] + u[i]) + h['h-'] * (v[i] - u[i])) * q2
        D = mB ** 2 - mD ** 2
        ctx.check_eq('vector current %d' % i, f['f+'] * (P[i] * q2 - D * q[i]) + f['f0'] * D * q[i], want, scale=100.)
    # tensor current: hT (v'^m v^n - ...) and 2 fT/(M+m) (...)
    ctx.check_eq('tensor current', f['fT'] * 2 / (mB + mD) * mB * mD, N * h['hT'], scale=5.)
    A = bv_cln.h_to_A(mB, mD, h, q2)
    # polarization vectors: transverse and longitudinal
    eT, eL = [0., 1., 0., 0.], [s, 0., 0., w]
    ctx.check_eq('V', A['V'] * 2 / (mB + mD) * mB * mD, N * h['V'], scale=5.)
    # axial current: h_A1 (w+1) e - h_A2 (e.v) v - h_A3 (e.v) v'
    ctx.check_eq('A1', A['A1'] * (mB + mD), N * h['A1'] * (w + 1), scale=5.)
    J = [N * (h['A1'] * (w + 1) * eL[i] - dot(eL, v) * (h['A2'] * v[i] + h['A3'] * u[i])) for i in range(4)]
    # its component along q is 2 m A0 (e.q), and that along the helicity vector of the lepton pair is 8 M m A12/sqrt(q^2)
    ctx.check_eq('A0', A['A0'] * 2 * mD * dot(eL, q), dot(J, q), scale=10.)
    eps0 = [q[3], 0., 0., q[0]]         # times sqrt(q^2)
    ctx.check_eq('A12', 8 * mB * mD * A['A12'], -dot(J, eps0), scale=50.)
    # tensor current contracted with q, T^{mn} = eps^{mnab} (hT1 e_a (v+v')_b + hT2 e_a (v-v')_b + hT3 (e.v) v_a v'_b)
    # vector part: 2 T1 eps(m, e, p, k); dual part: T2 (e (M^2-m^2) - (e.q) P) + T3 (e.q) (q - q^2/(M^2-m^2) P)
    ctx.check_eq('T1', 2 * A['T1'] * mB * mD, N * (h['T1'] * (mB + mD) - h['T2'] * (mB - mD)), scale=10.)
    D = mB ** 2 - mD ** 2

    def dual(e):
        """(a_m b_n - a_n b_m) q^n for the three pairs of vectors"""
        pair = lambda a, b: [a[i] * dot(b, q) - b[i] * dot(a, q) for i in range(4)]
        plus, minus = [a + b for a, b in zip(v, u)], [a - b for a, b in zip(v, u)]
        t = [pair(e, plus), pair(e, minus), pair(v, u)]
        return [N * (h['T1'] * t[0][i] + h['T2'] * t[1][i] + h['T3'] * dot(e, v) * t[2][i]) for i in range(4)]
    ctx.check_eq('T2', A['T2'] * D, dual(eT)[1], scale=50.)
    # longitudinal: 4 sqrt(q^2) M m/(M+m) T23
    ctx.check_eq('T23', A['T23'] * 4 * mB * mD * q2, -dot(dual(eL), eps0) * (mB + mD), scale=300.)


def corrections(ctx):
    """perturbative corrections and power corrections as free functions"""
    C = {n: ctx.ufun(n, -2., 2.) for n in ('CV1', 'CV2', 'CV3', 'CA1', 'CA2', 'CA3', 'CT1', 'CT2', 'CT3')}
    for n, f in C.items():
        ctx.patch(hqet, n, lambda w, z, f=f: f(w, z))
    pars = {k: ctx.real(k, lo, hi) for k, lo, hi in (('ash', 0.05, 0.12), ('epsc', 0.1, 0.3), ('epsb', 0.02, 0.1), ('zc', 0.2, 0.4))}
    ctx.patch(hqet, 'get_hqet_parameters', lambda par: dict(pars))
    return C, pars


def power(par, w, x):
    """subleading functions, arXiv:hep-ph/9212266, and second order ones"""
    y, y2 = series([0, 8, 16], x), 64 * x ** 2
    chi2 = par['chi_2(1)'] + par['chi_2p(1)'] * y + par['chi_2pp(1)'] / 2 * y2
    chi3 = par['chi_3p(1)'] * y + par['chi_3pp(1)'] / 2 * y2
    eta = par['eta(1)'] + par['etap(1)'] * y + par['etapp(1)'] / 2 * y2
    L = {1: 12 * chi3 - 4 * (w - 1) * chi2, 2: -4 * chi3, 3: 4 * chi2, 4: 2 * eta - 1, 5: -1., 6: -2 * (1 + eta) / (1 + w)}
    l = {i: par['CLN l_%d(1)' % i] + 8 * x * par['CLN lp_%d(1)' % i] for i in range(1, 7)}
    return L, l


@harness(name='heavy quark expansion', max_paths=20, time=150)
def expansion(ctx):
    """form factors at first order in 1/m and the coupling, and second order in 1/m_c (arXiv:1703.05330)"""
    C, c = corrections(ctx)
    Z = ctx.ufun('z', -0.05, 0.1)
    ctx.patch_name(common.z, lambda mB, mM, q2, t0=None: Z(mB, mM, q2) if t0 == 'tm' else None)
    par = Pars(ctx)
    final = ctx.choice('final state', ['D', 'D*'])
    got = {}
    mod, conv = (bp_cln, 'h_to_f') if final == 'D' else (bv_cln, 'h_to_A')
    ctx.patch(mod, conv, lambda mB, mM, h, q2: got.update(h=h, args=(mB, mM, q2)) or {'f+': 0.})
    mB, mM = par['m_B0'], par['m_D+' if final == 'D' else 'm_D*+']
    beyond = ctx.choice('beyond the endpoint', [False, True])
    w0 = ctx.real('unphysical w', 0.99, 0.999) if beyond else ctx.real('w', 1.001, 1.5)
    q2 = mB ** 2 + mM ** 2 - 2 * mB * mM * w0
    w = 1. if beyond else w0
    Implementation['B->%s CLN' % final].get(par, None, q2)
    ctx.check_eq('momentum transfer', got['args'][2], q2, scale=10.)
    ctx.check_eq('final mass', got['args'][1], mM, scale=1.)
    x = Z(mB, mM, q2)
    xi = 1 - par['CLN rho2_xi'] * series([0, 8, 16, 24], x) + par['CLN c_xi'] * series([0, 0, 64, 256], x) + par['CLN xi3'] / 6 * 512 * x ** 3
    L, l = power(par, w, x)
    K = {k: f(w, c['zc']) for k, f in C.items()}
    a, ec, eb = c['ash'], c['epsc'], c['epsb']
    c2 = lambda f: ec * f(L) + ec ** 2 * f(l)       # from the charm quark
    r = (w - 1) / (w + 1)
    if final == 'D':
        want = {'h+': 1 + a * (K['CV1'] + (w + 1) / 2 * (K['CV2'] + K['CV3'])) + c2(lambda s: s[1]) + eb * L[1],
                'h-': a * (w + 1) / 2 * (K['CV2'] - K['CV3']) + c2(lambda s: s[4]) - eb * L[4],
                'hT': 1 + a * (K['CT1'] - K['CT2'] + K['CT3']) + c2(lambda s: s[1] - s[4]) + eb * (L[1] - L[4])}
    else:
        want = {'V': 1 + a * K['CV1'] + c2(lambda s: s[2] - s[5]) + eb * (L[1] - L[4]),
                'A1': 1 + a * K['CA1'] + c2(lambda s: s[2] - r * s[5]) + eb * (L[1] - r * L[4]),
                'A2': a * K['CA2'] + c2(lambda s: s[3] + s[6]),
                'A3': 1 + a * (K['CA1'] + K['CA3']) + c2(lambda s: s[2] - s[3] - s[5] + s[6]) + eb * (L[1] - L[4]),
                'T1': 1 + a * (K['CT1'] + (w - 1) / 2 * (K['CT2'] - K['CT3'])) + c2(lambda s: s[2]) + eb * L[1],
                'T2': a * (w + 1) / 2 * (K['CT2'] + K['CT3']) + c2(lambda s: s[5]) - eb * L[4],
                'T3': a * K['CT2'] + c2(lambda s: s[6] - s[3])}
    for k, v in want.items():
        ctx.check_eq(k, got['h'][k], xi * v, scale=1.)


@harness(name='radiative corrections', max_paths=20, time=100)
def radiative(ctx):
    """relations of the corrections to heavy quark currents"""
    w, z = ctx.real('w', 1.05, 1.6), ctx.real('z', 0.2, 0.5)
    R, O, L = ctx.real('r', 0.5, 1.), ctx.real('omega', 0.5, 2.), ctx.real('log', -2., -0.3)

    def at(name, sw=1, inv=False):
        """at (w, z), at (-w, -z), where the quark mass changes its sign, or with exchanged masses"""
        ctx.patch(hqet, 'r', lambda w: sw * R)
        ctx.patch(hqet, 'omega', lambda w, z: O)
        ctx.patch(hqet, 'log', lambda x: -L if inv else L)
        return getattr(hqet, name)(sw * w, (1 / z if inv else sw * z))
    eq = lambda label, a, b: ctx.check_eq(label, a, b, scale=1.)
    W = (z + 1 / z) / 2
    # loop functions of the vector and tensor current (arXiv:hep-ph/9306320)
    cv1 = 2 / 3 * O - 2 + (2 * (w + 1) * ((3 * w - 1) * z - z ** 2 - 1) * R + (1 - z ** 2) * L) / (6 * z * (w - W))
    eq('vector', at('CV1'), cv1)
    ct1 = 2 / 3 * O - 2 + ((w - 1) * ((4 * w + 2) * z - z ** 2 - 1) * R + (1 - z ** 2) * L) / (3 * z * (w - W))
    eq('tensor', at('CT1'), ct1)
    eq('tensor along the initial velocity', at('CT2'), 2 * (z * L + (1 - w * z) * R) / (3 * z * (w - W)))
    cv2 = -(((4 * w ** 2 + 2 * w) * z ** 2 - (2 * w ** 2 + 5 * w - 1) * z - (w + 1) * z ** 3 + 2) * R + z * (2 * (z - 1) * (W - w) + (z ** 2 - (4 * w - 2) * z + (3 - 2 * w)) * L)) / (6 * z ** 2 * (w - W) ** 2)
    eq('vector along the initial velocity', at('CV2'), cv2)
    # exchange of the quarks
    eq('exchange vector', at('CV1', inv=True), at('CV1'))
    eq('exchange vector velocities', at('CV3'), at('CV2', inv=True))
    eq('exchange axial velocities', at('CA3'), -at('CA2', inv=True))
    eq('exchange tensor', at('CT1', inv=True), at('CT1'))
    eq('exchange tensor velocities', at('CT3'), -at('CT2', inv=True))
    # sign of the mass of the final quark
    eq('chirality 1', at('CA1'), at('CV1', -1))
    eq('chirality 2', at('CA2'), -at('CV2', -1))
    eq('chirality 3', at('CA3'), at('CV3', -1))
    # dual of the tensor current
    eq('duality 1', at('CT1', -1), at('CT1') - at('CT2') + at('CT3'))
    eq('duality 2', at('CT2', -1), -at('CT2'))
    eq('duality 3', at('CT3', -1), -at('CT3'))
    # divergence of the axial current, with running masses
    eq('pseudoscalar', at('CP') * (1 + z), at('CA1') * (1 + z) - (1 - z * w) * at('CA2') - (w - z) * at('CA3') + 4 / 3 * (1 + z) + L * (1 - z))


@harness(name='zero recoil', max_paths=20)
def zerorecoil(ctx):
    """matching of the currents at zero recoil, eta_V and eta_A"""
    z, L = ctx.real('z', 0.2, 0.5), ctx.real('log', -2., -0.3)
    ctx.uncache(hqet)
    ctx.patch(hqet, 'log', lambda x: L)
    ctx.check_eq('loop function', hqet.omega(1, z), -1 - (1 + z) / (1 - z) * L, scale=1.)
    ctx.check_eq('velocity', hqet.r(1), 1., scale=1.)
    ctx.check_eq('vector', hqet.CV1(1, z) + hqet.CV2(1, z) + hqet.CV3(1, z), -(1 + z) / (1 - z) * L - 2, scale=1.)
    ctx.check_eq('axial', hqet.CA1(1, z), -(1 + z) / (1 - z) * L - 8 / 3, scale=1.)


@harness(name='loop function', max_paths=20)
def loopfunction(ctx):
    """vertex function in terms of dilogarithms, and velocity function, at rapidity log(x)"""
    x, z = ctx.real('x', 1.1, 2.), ctx.real('z', 0.2, 0.5)
    ctx.uncache(hqet)
    li2, lg = ctx.ufun('li2', -2., 2.), ctx.ufun('log', -2., 2.)
    ctx.patch(hqet, 'li2', li2)
    ctx.patch(hqet, 'log', lg)
    w, s = (x + 1 / x) / 2, (x - 1 / x) / 2
    ctx.check_eq('positive', hqet.omega_plus(w), x, scale=1.)
    ctx.check_eq('negative', hqet.omega_minus(w), 1 / x, scale=1.)
    wp, wm = hqet.omega_plus(w), hqet.omega_minus(w)
    rr = lg(wp) / sqrt(w ** 2 - 1)
    ctx.check_eq('velocity', hqet.r(w), rr, scale=1.)
    want = 1 + w / (2 * sqrt(w ** 2 - 1)) * (2 * li2(1 - z * wm) - 2 * li2(1 - z * wp) + li2(1 - wp ** 2) - li2(1 - wm ** 2)) - w * lg(z) * hqet.r(w)
    ctx.check_eq('vertex', hqet.omega(w, z), want, scale=1.)


@harness(name='parametrization of B factories', max_paths=40, time=150)
def factories(ctx):
    """arXiv:hep-ph/9712417; tensor form factors from equations of motion"""
    par = Pars(ctx, masses=False)
    MB, MC = ctx.real('mb', 4.5, 5.), ctx.real('mc', 1.3, 1.8)
    ctx.patch(running, 'get_mb_pole', lambda par: MB)
    ctx.patch(running, 'get_mc_pole', lambda par: MC)
    mB, mV = par['m_B0'], par['m_D*0']
    p = 'B->D*'
    f = Implementation[p + ' CLNexp-IW'].get
    s = ctx.real('s', 1.42, 1.6)            # square root of w + 1
    w = s ** 2 - 1
    q2 = mB ** 2 + mV ** 2 - 2 * mB * mV * w
    got = f(par, None, q2)
    z = (s - sqrt(2)) / (s + sqrt(2))
    rho = par[p + ' CLN rho2']
    hA = par[p + ' CLN h_A1(1)'] * (1 - 8 * rho * z + (53 * rho - 15) * z ** 2 - (231 * rho - 91) * z ** 3)
    R1 = par[p + ' CLN R_1(1)'] - 0.12 * (w - 1) + 0.05 * (w - 1) ** 2
    R2 = par[p + ' CLN R_2(1)'] + 0.11 * (w - 1) - 0.06 * (w - 1) ** 2
    RV = 2 * sqrt(mB * mV) / (mB + mV)
    A1, A2, V = hA * RV * (w + 1) / 2, R2 * hA / RV, R1 * hA / RV
    ctx.check_eq('A1', got['A1'], A1, scale=1.)
    ctx.check_eq('V', got['V'], V, scale=1.)
    lam = (mB ** 2 - mV ** 2 - q2) ** 2 - 4 * mV ** 2 * q2
    ctx.check_eq('A12', 16 * mB * mV ** 2 * (mB + mV) * got['A12'], (mB + mV) ** 2 * (mB ** 2 - mV ** 2 - q2) * A1 - lam * A2, scale=1000.)
    # A0 follows up to its value at zero momentum transfer
    w0 = (mB ** 2 + mV ** 2) / (2 * mB * mV)
    R20 = par[p + ' CLN R_2(1)'] + 0.11 * (w0 - 1) - 0.06 * (w0 - 1) ** 2
    R00 = ((mB + mV) - (mB - mV) * R20) / (2 * mV)
    R0 = R00 - 0.11 * (w - w0) + 0.01 * ((w - 1) ** 2 - (w0 - 1) ** 2)
    ctx.check_eq('A0', got['A0'], R0 * hA / RV, scale=1.)
    iw = bv_cln.process_dict[p]
    mI = par['m_' + iw['V']]
    ctx.check_eq('T1', got['T1'], (MB + MC) / (mB + mI) * V * (1 + par[p + ' IW a_T1']), scale=1.)
    ctx.check_eq('T2', got['T2'], (MB - MC) / (mB - mI) * A1 * (1 + par[p + ' IW a_T2']), scale=1.)
    lamI = ((mB - mI) ** 2 - q2) * ((mB + mI) ** 2 - q2)
    if ctx.symbolic:
        ctx.assume(q2 >= 0.1)
    ctx.check_eq('T23', got['T23'] * 4 * mB * mI * (mB - mI) * q2, (MB - MC) * (8 * mB * mI * (mB ** 2 - mI ** 2) * got['A12'] - lamI * got['A0']) * (1 + par[p + ' IW a_T23']), scale=1000.)


@harness(name='exact relation of B factories', max_paths=10)
def factories0(ctx):
    par = Pars(ctx, masses=False)
    ctx.patch(running, 'get_mb_pole', lambda par: 4.8)
    ctx.patch(running, 'get_mc_pole', lambda par: 1.6)
    mB, mV = par['m_B0'], par['m_D*0']
    got = Implementation['B->D* CLNexp-IW'].get(par, None, 0)
    ctx.check_eq('relation of A at zero', 8 * mB * mV * got['A12'], (mB ** 2 - mV ** 2) * got['A0'], scale=30.)


# --- baryons, kaons, photons
BARYON = {'fV0': 5.416, 'fVperp': 5.416, 'fT0': 5.416, 'fTperp': 5.416, 'fVt': 5.711, 'fA0': 5.750, 'fAperp': 5.750, 'fT50': 5.750, 'fT5perp': 5.750, 'fAt': 5.367}


@harness(name='baryon series', max_paths=20)
def baryon(ctx):
    z = variable(ctx)
    par = Pars(ctx)
    n = ctx.choice('terms', [2, 3])
    q2 = ctx.real('q2', 0.1, 20.)
    p = 'Lambdab->Lambda'
    got = Implementation['%s SSE%d' % (p, n)].get(par, None, q2)
    Z = z(par['m_B+'], par['m_K+'], q2, (par['m_Lambdab'] - par['m_Lambda']) ** 2)
    for f, m in BARYON.items():
        a = [par['%s SSE a%d_%s' % (p, i, {'fAperp': 'fA0', 'fT5perp': 'fT50'}.get(f, f) if i == 0 else f)] for i in range(n)]
        ctx.check_eq(f, got[f], pole(q2, m) * series(a, Z), scale=1.)


@harness(name='quark model of baryons', max_paths=20, time=150)
def quarkmodel(ctx):
    """decomposition of the vector and axial matrix elements into p_alpha (gamma, p, k) and g_alpha"""
    F = {k: ctx.real(k, -2., 2.) for k in ['F1', 'F2', 'F3', 'F4', 'G1', 'G2', 'G3', 'G4', 'H1', 'H2', 'H3', 'H4', 'H5', 'H6']}
    m, M = ctx.real('m', 1.5, 1.54), ctx.real('M', 5.6, 5.65)
    q2 = ctx.real('q2', 0.1, 16.)
    ctx.patch(mcn, 'formfactors', lambda process, par, q: (dict(F), m, M))
    p = 'Lambdab->Lambda(1520)'
    par = Pars(ctx)
    got = mcn.ff_equiv(p, q2, par)
    u = lambda k: par['%s %s uncertainty' % (p, k)]
    sp, sm = (M + m) ** 2 - q2, (M - m) ** 2 - q2
    for X, G, s1, s2, sg in (('V', 'F', sp, sm, 1), ('A', 'G', sm, sp, -1)):
        # form factors of arXiv:1903.00448 from the uncorrected ones: coefficients of gamma, p, k, g
        t, z, o, g = (got['f%s%s' % (X, k)] for k in ('t', '0', 'perp', 'g'))
        with_unc = {'t': t, '0': z, 'perp': o, 'g': g}
        G1, G2, G3, G4 = (F['%s%d' % (G, i)] for i in (1, 2, 3, 4))
        # the axial current is that of a final baryon with the opposite sign of the mass, and of the gamma structure
        mm, G1 = sg * m, sg * G1
        # solution of F1/M = perp + g' m/s-, F2/M^2 and F3/(M m) from t, 0
        gg = G4
        perp = G1 / M - gg * mm / s2
        # coefficients of p and k divided by
        Pp, Kk = G2 / M ** 2, G3 / (M * m)
        # contraction with q: t and 0 by projecting on q and on P - q (M^2-m^2)/q^2
        a = gg * mm / s2
        # remove the structures of perp and g
        Pp = Pp + perp * 2 * mm / s1 - a * 2 * mm / s1
        Kk = Kk + perp * 2 * M / s1 - a * (2 * M / s1 - 2 / mm)
        # P' = z (M+m)/s1 (p + k - q D/q2) + t (M-m) q/q2
        D = M ** 2 - m ** 2
        # sum and difference: coefficient of p: z c (1 - D/q2) + t d, of k: z c (1 + D/q2) - t d
        c, d = (M + mm) / s1, (M - mm) / q2
        z0 = (Pp + Kk) / (2 * c)
        t0 = ((Pp - Kk) / 2 + z0 * c * D / q2) / d
        un = {k: u('f%s%s' % (X, k)) for k in with_unc}
        ctx.check_eq('f%sg' % X, g, sg * gg * un['g'], scale=1.)
        ctx.check_eq('f%sperp' % X, o, sg * perp * un['perp'], scale=1.)
        ctx.check_eq('f%s0' % X, z * s2, sg * z0 * un['0'] * s2, scale=10.)
        ctx.check_eq('f%st' % X, t, sg * t0 * un['t'], scale=1.)


@harness(name='quark model of baryons: tensor', max_paths=20, time=200)
def quarkmodel_tensor(ctx):
    """matrix elements of the tensor currents from the decomposition into p_alpha/M (sigma, v gamma, v' gamma, v v') and g_alpha (gamma, v)"""
    from checks import F10
    cur = ctx.choice('current', ['T', 'T5'])
    m, M = 1.52, 5.62
    c = ctx.real('sqrt(q2)', 0.4, 3.9)
    H = {k: ctx.real(k, -2., 2.) for k in ('H1', 'H2', 'H3', 'H4', 'H5', 'H6')}
    F = dict({k: 0. for k in ('F1', 'F2', 'F3', 'F4', 'G1', 'G2', 'G3', 'G4')}, **H)
    K = F10.Kinematics(M, m, c)
    ctx.patch(mcn, 'formfactors', lambda process, par, q2: (dict(F), m, M))
    p = 'Lambdab->Lambda(1520)'

    class Unit(dict):
        def __missing__(self, k):
            return 1.
    got = mcn.ff_equiv(p, K.q2, Unit())
    ctx.check_eq('timelike', [got['fTt'], got['fT5t']], [0., 0.], scale=1.)
    E = F10.elements32(K, dict({k: 0. for k in F10.FF32}, **{k: got[k] for k in F10.FF32 if k.startswith('fT')}))
    g, sg = D.G, [[D.scale(0.5j, D.add(D.mul(D.G[a], D.G[b]), D.scale(-1, D.mul(D.G[b], D.G[a])))) for b in range(4)] for a in range(4)]
    met = (1, -1, -1, -1)
    v, vp = [x / M for x in K.pb], [x / m for x in K.pl]
    low = [met[i] * K.pb[i] / M for i in range(4)]
    q = [met[i] * K.q[i] for i in range(4)]
    zero = D.scale(0, D.ONE)

    def tensor(al, mu, nu):
        t = zero
        if mu == nu:
            return t
        if al == 0:
            t = D.add(D.scale(1j * H['H1'], sg[mu][nu]), D.scale(H['H2'], D.add(D.scale(v[mu], g[nu]), D.scale(-v[nu], g[mu]))))
            t = D.add(t, D.scale(H['H3'], D.add(D.scale(vp[mu], g[nu]), D.scale(-vp[nu], g[mu]))))
            t = D.scale(low[0], D.add(t, D.scale(H['H4'] * (v[mu] * vp[nu] - v[nu] * vp[mu]), D.ONE)))
        for a, b, s in ((mu, nu, 1), (nu, mu, -1)):
            if al == a:
                t = D.add(t, D.scale(s, D.add(D.scale(H['H5'], g[b]), D.scale(H['H6'] * v[b], D.ONE))))
        return t
    T = {}
    for al in range(4):
        for mu in range(4):
            for nu in range(4):
                T[al, mu, nu] = tensor(al, mu, nu)
    if cur == 'T5':
        # sigma^{mu nu} gamma5 = +-(i/2) eps^{mu nu a b} sigma_ab, the sign read off from the matrices
        perm = {}
        for i in itertools.permutations(range(4)):
            perm[i] = (-1) ** sum(i[x] > i[y] for x in range(4) for y in range(x + 1, 4))
        a = np.array(D.mul(sg[0][1], D.G5), dtype=complex)
        b = np.array(sg[2][3], dtype=complex)
        k = (a[np.abs(b) > .5] / b[np.abs(b) > .5])[0] / 2
        dual = {}
        for al in range(4):
            for mu in range(4):
                for nu in range(4):
                    t = zero
                    for (w, x, y, z), s in perm.items():
                        if (w, x) == (mu, nu):
                            t = D.add(t, D.scale(k * s * met[y] * met[z], T[al, y, z]))
                    dual[al, mu, nu] = t
        T = dual
    for s2, comb in F10.CG.items():
        for s1 in (1, -1):
            u = [[x] for x in K.parent(s1)]
            w = [0] * 4
            for (l, s), cg in comb.items():
                e, ub = K.polarization(l), D.bra(K.daughter(s))
                for al in range(4):
                    if type(e[al]) is int and e[al] == 0:
                        continue
                    for mu in range(4):
                        for nu in range(4):
                            if mu == nu or (type(q[nu]) is int and q[nu] == 0):
                                continue
                            z = D.mul([ub], T[al, mu, nu], u)[0][0]
                            if not (type(z) is int and z == 0):
                                w[mu] = w[mu] + cg * e[al] * z * q[nu]
            ref = K.lepton_frame(w)
            for i in range(3):
                ctx.check_eq('%s: spins %s, %s, component %d' % (cur, s2, s1, i), E[cur, s2, s1][i], ref[i], scale=1.)


@harness(name='quark model of baryons: uncertainties', max_paths=20)
def quarkmodel_uncertainties(ctx):
    """each form factor is multiplied with its own correction"""
    F = {k: ctx.real(k, -2., 2.) for k in ['F1', 'F2', 'F3', 'F4', 'G1', 'G2', 'G3', 'G4', 'H1', 'H2', 'H3', 'H4', 'H5', 'H6']}
    ctx.patch(mcn, 'formfactors', lambda process, par, q2: (dict(F), 1.52, 5.62))
    p = 'Lambdab->Lambda(1520)'
    q2 = ctx.real('q2', .5, 15.)
    par = Pars(ctx)

    class Unit(dict):
        def __missing__(self, k):
            return 1.
    one, got = mcn.ff_equiv(p, q2, Unit()), mcn.ff_equiv(p, q2, par)
    for k in one:
        ctx.check_eq(k, got[k], one[k] * par['%s %s uncertainty' % (p, k)], scale=1.)


@harness(name='quark model functions', max_paths=20)
def quarkmodel_functions(ctx):
    par = Pars(ctx)
    p = 'Lambdab->Lambda(1520)'
    par['m_Lambda(1520)'], par['m_Lambdab'] = 1.5195, 5.6196
    mq, ms, a1, a2 = (ctx.real(k, 0.3, 0.6) for k in ('mq', 'ms', 'alpha1', 'alpha2'))
    par[p + ' m_q'], par[p + ' m_s'], par[p + ' alpha_Lambdab'], par[p + ' alpha_Lambda(1520)'] = mq, ms, a1, a2
    q2 = ctx.real('q2', 0.1, 16.5)
    got, m, M = mcn.formfactors(p, par, q2)
    k2 = ((M ** 2 - m ** 2 - q2) ** 2 - 4 * m ** 2 * q2) / (4 * M ** 2)
    ctx.check_eq('masses', m + 10 * M, 1.5195 + 56.196, scale=50.)
    for f in ('F1', 'F4', 'G2', 'G3', 'H1', 'H6'):
        a = [par['%s %s a%d' % (p, f, i)] for i in (0, 2, 4)]
        ctx.check_eq(f, got[f], series(a, k2) * exp(-3 * mq ** 2 * k2 / (2 * (2 * mq + ms) ** 2 * (a1 ** 2 + a2 ** 2) / 2)), scale=1.)


@harness(name='lattice results of baryons', max_paths=20)
def latticebaryons(ctx):
    par = Pars(ctx)
    p = 'Lambdab->Lambda(1520)'
    m, M = par['m_Lambda(1520)'], par['m_Lambdab']
    q2 = ctx.real('q2', 16., 16.4)
    got = Implementation[p + ' LatticeQCD'].get(par, None, q2)
    w = (M ** 2 + m ** 2 - q2) / (2 * M * m)
    f = lambda k: par['%s %s F' % (p, k)] + par['%s %s A' % (p, k)] * (w - 1)
    sp, sm = (M + m) ** 2 - q2, (M - m) ** 2 - q2
    ctx.assume(sm >= 0.01)
    # helicity form factors of arXiv:2009.09313 appear multiplied with m/s of the spin 3/2 structures of arXiv:1903.00448
    for name, k, s in (('fVt', 'f0', sp), ('fV0', 'fplus', sm), ('fVperp', 'fperp', sm), ('fAt', 'g0', sm), ('fA0', 'gplus', sp), ('fAperp', 'gperp', sp),
                       ('fT0', 'hplus', sm), ('fTperp', 'hperp', sm), ('fT50', 'hTplus', sp), ('fT5perp', 'hTperp', sp)):
        ctx.check_eq(name, got[name] * s, m * f(k), scale=1.)
    ctx.check_eq('fVg', got['fVg'], f('fperpPrim'), scale=1.)
    ctx.check_eq('fAg', got['fAg'], -f('gperpPrim'), scale=1.)
    ctx.check_eq('fTg', got['fTg'], (M + m) * f('hperpPrim'), scale=1.)
    ctx.check_eq('fT5g', got['fT5g'], -(M - m) * f('hTperpPrim'), scale=1.)
    for k in ('fTt', 'fT5t'):
        ctx.check_eq(k, got[k], 0., scale=1.)


@harness(name='kaon form factors', max_paths=10)
def kaon(ctx):
    par = Pars(ctx)
    q2 = ctx.real('q2', 0., 0.12)
    f = Implementation['K->pi dispersive + pole'].get
    got = f(par, None, q2)
    mK, mpi = par['m_KL'], par['m_pi+']
    c = lambda k: par['K->pi ' + k]
    x = q2 / (mK - mpi) ** 2
    D = mK ** 2 - mpi ** 2
    ctx.check_eq('f+', got['f+'], c('f+(0)') * exp(q2 / mpi ** 2 * (c('Lambda_+') + c('H1') * x + c('H2') * x ** 2)), scale=1.)
    ctx.check_eq('f0', got['f0'], c('f+(0)') * exp(q2 / D * (c('ln(C)') - (c('D') * x + c('d') * (1 - x) + c('k') * x * (1 - x)))), scale=1.)
    ctx.check_eq('fT', got['fT'] * (1 - c('sT') * q2), c('fT(0)'), scale=1.)
    at0 = f(par, None, 0)
    ctx.check_eq('relation at zero', at0['f+'], at0['f0'], scale=1.)
    ctx.check_eq('value at zero', at0['f0'], c('f+(0)'), scale=1.)
    # value at the point m_K^2 - m_pi^2: ln(C) is its logarithm when G vanishes there
    ratio = f(par, None, D)['f0']
    y = (mK + mpi) / (mK - mpi)
    ctx.check_eq('value at the difference of squared masses', ratio, c('f+(0)') * exp(c('ln(C)') - c('D') * y - c('d') * (1 - y) - c('k') * y * (1 - y)), scale=1.)


@harness(name='photon form factors', max_paths=10)
def photon(ctx):
    par = Pars(ctx)
    q2 = ctx.real('q2', 0., 20.)
    B = ctx.choice('meson', ['B0', 'Bs'])
    got = Implementation['B->gamma KM'].get(par, None, q2, B)
    m = par['m_' + B]
    E = m / 2 * (1 - q2 / m ** 2)
    for k in ('v', 'a', 'tv', 'ta'):
        ctx.check_eq(k, got[k], par['B->gamma KM beta' + k] * par['f_' + B] * m / (par['B->gamma KM delta' + k] + E), scale=1.)


LATTICE = {'fplus': 'fV0', 'fperp': 'fVperp', 'f0': 'fVt', 'gplus': 'fA0', 'gperp': 'fAperp', 'g0': 'fAt', 'hplus': 'fT0', 'hperp': 'fTperp', 'htildeplus': 'fT50', 'htildeperp': 'fT5perp', 'gpp': 'fA0', 'htildepp': 'fT50'}


@harness(name='parameter sets of baryons', max_paths=30)
def parametersets(ctx):
    """names of the lattice fit; a fit of lower order has vanishing higher terms, whatever was loaded before"""
    f = ctx.choice('form factor', sorted(LATTICE))
    name = 'Lambdab->Lambda SSE a%d_' + LATTICE[f]
    x = [ctx.real('a%d' % i, -5., 5.) for i in range(3)]
    cov = {('a%d_%s' % (i, f),) * 2: 1. for i in range(3)}
    c = flavio.classes.ParameterConstraints()
    for order, load in ((3, lattice_parameters.lattice_load_ho), (2, lattice_parameters.lattice_load_nominal)):
        data = {'a%d_%s' % (i, f): x[i] * (order - 1) for i in range(order)}
        ctx.patch(lattice_parameters, 'csv_to_dict', lambda fn: dict(cov) if 'covariance' in fn else dict(data))
        load(c)
        for i in range(order):
            ctx.check_eq('a%d' % i, c.get_central(name % i), x[i] * (order - 1), scale=1.)
    ctx.check_eq('higher term', c.get_central(name % 2), 0., scale=1.)


@harness(name='heavy-quark parameters', max_paths=20)
def hqet_parameters(ctx):
    """inputs of the heavy-quark expansion: arXiv:1908.09398, eq. (25) with the values of the EOS fit"""
    par = Pars(ctx)
    got = hqet.get_hqet_parameters(par)
    a, m1S, mB, l1 = 0.26, 4.71, 5.313, -0.3
    mb = m1S * (1 + 2 * a ** 2 / 9)
    Lam = mB - mb + l1 / (2 * m1S)
    mc = mb - 3.4
    for k, w in (('ash', a / np.pi), ('mb', mb), ('mc', mc), ('Lambdabar', Lam), ('epsc', Lam / (2 * mc)), ('epsb', Lam / (2 * mb)), ('zc', mc / mb)):
        ctx.check_eq(k, got[k], w, scale=.1)
