"""Lambda_b decays to Lambda or Lambda(1520) and two leptons follow from the effective Hamiltonian."""
import numpy as np
import flavio
import flavio.physics.bdecays.lambdablambdall as ll
import flavio.physics.bdecays.lambdablambda1520ll as ll32
import flavio.physics.bdecays.lambdablambdall_subleading as sub
import flavio.physics.bdecays.wilsoncoefficients as wcs
import flavio.physics.bdecays.matrixelements as me
import flavio.math.integrate
from wilson import wcxf
from engine.run import harness, add_harness
from engine.num import sqrt, pi, abs2, conj, cos, sin
from engine import dirac as D
from engine.phys import Par, WCs, Running, patch_ckm, predict, CENTRAL

EXPLANATION = (
    'Helicity amplitudes of both decays are executed with symbolic masses, momentum transfer, form factors and effective coefficients and compared with matrix elements of the currents between explicit Dirac and Rarita-Schwinger spinors, using the definition of the form factors. '
    'The angular functions are compared, for arbitrary complex amplitudes and angles, with the distribution obtained from the spin density matrix of the baryon, the tensor of massless chiral leptons and the decay matrix of the baryon. '
    'The amplitudes are also executed from the Wilson coefficients, with the Standard Model contribution, the matrix elements of four-quark operators (arbitrary linear functions of the coefficients), subleading hadronic effects and, for CP conjugate decays, conjugated couplings. '
    'Every registered observable is compared with the moments of the distribution.')
BOUNDS = 'masses within 5% (helicity amplitudes), complex amplitudes up to 1, coefficients up to 5 (amplitudes) or 1 (Hamiltonian); four values of the momentum transfer for the composition from the Hamiltonian; two symbolic nodes for integrals over bins'
ASSUMPTIONS = ['floats treated as reals', 'leptons are massless, as in the implementation', 'the amplitudes of the strong decay Lambda(1520) -> N K conserve parity']

FF12 = ['f%s%s' % (a, b) for a in ('V', 'A', 'T', 'T5') for b in ('0', 'perp')]
FF32 = ['f%s%s' % (a, b) for a in ('V', 'A', 'T', 'T5') for b in ('0', 'perp', 'g')]
CG = {3: {(1, 1): 1}, 1: {(0, 1): (2 / 3) ** 0.5, (1, -1): (1 / 3) ** 0.5}, -1: {(0, -1): (2 / 3) ** 0.5, (-1, 1): (1 / 3) ** 0.5}, -3: {(-1, -1): 1}}


class Kinematics:
    """Lambda_b at rest, the daughter along +z; spinors without a common factor"""

    def __init__(self, M, m, c):
        self.M, self.m, self.c, self.q2 = M, m, c, c * c
        self.sp, self.sm = (M + m) ** 2 - self.q2, (M - m) ** 2 - self.q2
        self.Rp, self.Rm = sqrt(self.sp), sqrt(self.sm)
        self.k = self.Rp * self.Rm / (2 * M)
        self.E, self.q0 = (M * M + m * m - self.q2) / (2 * M), (M * M - m * m + self.q2) / (2 * M)
        self.pb, self.pl, self.q = [M, 0, 0, 0], [self.E, 0, 0, self.k], [self.q0, 0, 0, -self.k]

    def parent(self, s):
        return [1, 0, 0, 0] if s == 1 else [0, 1, 0, 0]

    def daughter(self, s):
        return [self.Rp, 0, self.Rm, 0] if s == 1 else [0, self.Rp, 0, -self.Rm]

    def polarization(self, l):
        """complex conjugate polarization vectors of the daughter"""
        r = 0.5 ** 0.5
        return {1: [0, -r, 1j * r, 0], -1: [0, r, 1j * r, 0], 0: [self.k / self.m, 0, 0, self.E / self.m]}[l]

    def lepton_frame(self, v):
        """spatial components in the rest frame of the leptons"""
        return [v[1], v[2], (self.q0 * v[3] + self.k * v[0]) / self.c]


def structure(K, f0, fp, s, sign):
    """(p+k-...) and transverse structures for vector (sign=1) or axial (-1) currents, as matrices for each index"""
    P = [K.pb[i] + K.pl[i] - K.q[i] * (K.M ** 2 - K.m ** 2) / K.q2 for i in range(4)]
    return [D.add(D.scale(f0 / s * P[i], D.ONE), D.scale(fp, D.add(D.G[i], D.scale((-sign * 2 * K.m * K.pb[i] - 2 * K.M * K.pl[i]) / s, D.ONE)))) for i in range(4)]


def currents(K, ff):
    """dict: current -> matrices between the spinors for spin 1/2"""
    r = {'V': structure(K, ff['fV0'] * (K.M + K.m), ff['fVperp'], K.sp, 1),
         'A': structure(K, ff['fA0'] * (K.M - K.m), ff['fAperp'], K.sm, -1),
         'T': structure(K, ff['fT0'] * K.q2, ff['fTperp'] * (K.M + K.m), K.sp, 1),
         'T5': structure(K, ff['fT50'] * K.q2, ff['fT5perp'] * (K.M - K.m), K.sm, -1)}
    g5 = D.scale(-1, D.G5)
    return {'V': r['V'], 'A': [D.mul(g5, x) for x in r['A']], 'T': [D.scale(-1, x) for x in r['T']], 'T5': [D.mul(g5, x) for x in r['T5']]}


def elements(K, ff):
    """(current, daughter spin, parent spin) -> spatial vector in the lepton frame"""
    out = {}
    for n, mats in currents(K, ff).items():
        for s2 in (1, -1):
            for s1 in (1, -1):
                u = [[x] for x in K.parent(s1)]
                out[n, s2, s1] = K.lepton_frame([D.mul([D.bra(K.daughter(s2))], m, u)[0][0] for m in mats])
    return out


def lepton_tensor(n, X):
    """massless leptons of chirality X; n: direction of the negative lepton in the lepton frame"""
    eps = {(0, 1): (1, 2), (1, 0): (-1, 2), (1, 2): (1, 0), (2, 1): (-1, 0), (2, 0): (1, 1), (0, 2): (-1, 1)}
    s = -1j if X == 'L' else 1j
    return [[(1 if i == j else 0) - n[i] * n[j] + (s * eps[i, j][0] * n[eps[i, j][1]] if i != j else 0) for j in range(3)] for i in range(3)]


def transition(ta, X):
    """spatial currents between spin states for transversity amplitudes"""
    r = 0.5 ** 0.5
    a, b = ta['perp1', X] + ta['para1', X], ta['perp1', X] - ta['para1', X]
    return {(1, 1): [0, 0, ta['perp0', X] + ta['para0', X]], (-1, -1): [0, 0, ta['perp0', X] - ta['para0', X]],
            (1, -1): [-r * a, 1j * r * a, 0], (-1, 1): [r * b, 1j * r * b, 0]}


def distribution(J, decay, spins, n):
    """unpolarized parent; decay: matrix of the daughter's decay in its spin space"""
    tot = 0
    for X in ('L', 'R'):
        L = lepton_tensor(n, X)
        for s1 in (1, -1):
            for s in spins:
                for t in spins:
                    a, b, d = J[X].get((s, s1)), J[X].get((t, s1)), decay[s, t]
                    if a is None or b is None:
                        continue
                    for i in range(3):
                        for j in range(3):
                            if not (isinstance(a[i], int) or isinstance(b[j], int)):
                                tot = tot + a[i] * conj(b[j]) * L[i][j] * d
    return tot / 4


def currents32(K, ff):
    """current -> [alpha][mu] matrices (lower index alpha for the polarization)"""
    out = {}
    g5 = D.scale(-1, D.G5)
    for n, pre0, pre1, s, sign in (('V', K.M + K.m, 1, K.sp, 1), ('A', K.M - K.m, 1, K.sm, -1), ('T', K.q2, K.M + K.m, K.sp, 1), ('T5', K.q2, K.M - K.m, K.sm, -1)):
        st = structure(K, ff['f%s0' % n] * pre0, ff['f%sperp' % n] * pre1, s, sign)
        g, m = ff['f%sg' % n], sign * K.m
        rows = []
        for al in range(4):
            row = []
            for mu in range(4):
                x = D.scale(K.pb[al] * D.METRIC[al], st[mu]) if not (type(K.pb[al]) is int and K.pb[al] == 0) else D.scale(0, D.ONE)
                if al == mu:
                    x = D.add(x, D.scale(g, D.ONE))
                if not (type(K.pb[al]) is int and K.pb[al] == 0):
                    y = D.add(D.G[mu], D.scale(-2 * K.pl[mu] / m + 2 * (m * K.pb[mu] + K.M * K.pl[mu]) / s, D.ONE))
                    x = D.add(x, D.scale(g * m * K.pb[al] * D.METRIC[al] / (K.sm if sign == 1 else K.sp), y))
                row.append(D.mul(g5, x) if sign == -1 else D.scale(-1, x) if n == 'T' else x)
            rows.append(row)
        out[n] = rows
    return out


def elements32(K, ff):
    out = {}
    for n, rows in currents32(K, ff).items():
        for s2, comb in CG.items():
            for s1 in (1, -1):
                u = [[x] for x in K.parent(s1)]
                v = [0] * 4
                for (l, s), cg in comb.items():
                    e, ub = K.polarization(l), D.bra(K.daughter(s))
                    for al in range(4):
                        if type(e[al]) is int and e[al] == 0:
                            continue
                        for mu in range(4):
                            z = D.mul([ub], rows[al][mu], u)[0][0]
                            if not (type(z) is int and z == 0):
                                v[mu] = v[mu] + cg * e[al] * z
                out[n, s2, s1] = K.lepton_frame(v)
    return out


def transition32(ta, X):
    r = 0.5 ** 0.5
    P = {s: (ta['Aperp1', X] + s * ta['Apara1', X], ta['Bperp1', X] + s * ta['Bpara1', X], ta['Aperp0', X] + s * ta['Apara0', X]) for s in (1, -1)}
    return {(1, 1): [0, 0, -P[1][2]], (-1, -1): [0, 0, -P[-1][2]], (-1, 1): [r * P[1][0], 1j * r * P[1][0], 0], (1, -1): [-r * P[-1][0], 1j * r * P[-1][0], 0],
            (-3, -1): [r * P[1][1], 1j * r * P[1][1], 0], (3, 1): [-r * P[-1][1], 1j * r * P[-1][1], 0]}


def directions(ctx, flip):
    """direction of the lepton in its frame and polar angle of the baryon's decay; flip: signs of the transverse axes in the paper's convention"""
    tl, th, ph = [ctx.real(a, 0.1, 3.) for a in ('theta_l', 'theta_L', 'phi')]
    sl, cl, sL, cL, sp, cp = sin(tl), cos(tl), sin(th), cos(th), sin(ph), cos(ph)
    return (sl, cl, sL, cL, sp, cp), [flip[0] * sl * cp, flip[1] * sl * sp, cl], [sL, 0, cL]


def npc(x):
    return np.complex128(x) if isinstance(x, complex) else x


def amplitudes(ctx, names):
    return {(a, X): npc(ctx.complex('%s_%s' % (a, X), 1.)) for a in names for X in 'LR'}


@harness(name='angular distribution Lambda', time=200)
def angular12(ctx):
    ta = amplitudes(ctx, ('perp0', 'para0', 'perp1', 'para1'))
    al = ctx.real('alpha', -1., 1.)
    K = ll.angular_coefficients(ta, al)
    (sl, cl, sL, cL, sp, cp), n, p = directions(ctx, (-1, 1))
    S = D.add(D.unit(2), D.scale(al * p[0], D.PAULI[0]), D.scale(al * p[2], D.PAULI[2]))
    ix = {1: 0, -1: 1}
    ref = distribution({X: transition(ta, X) for X in 'LR'}, {(s, t): S[ix[t]][ix[s]] for s in ix for t in ix}, (1, -1), n)
    got = (K['1ss'] * sl ** 2 + K['1cc'] * cl ** 2 + K['1c'] * cl + (K['2ss'] * sl ** 2 + K['2cc'] * cl ** 2 + K['2c'] * cl) * cL
           + (K['3sc'] * sl * cl + K['3s'] * sl) * sL * sp + (K['4sc'] * sl * cl + K['4s'] * sl) * sL * cp)
    ctx.check_eq('distribution', got, ref.real, atol=1e-9)


def spin32():
    m = [1.5, .5, -.5, -1.5]
    z = D.mat(4, 4, lambda i, j: m[i] if i == j else 0)
    x = D.mat(4, 4, lambda i, j: (3.75 - m[i] * m[j]) ** .5 / 2 if abs(i - j) == 1 else 0)
    return x, z


@harness(name='angular distribution Lambda(1520)', time=300)
def angular32(ctx):
    ta = amplitudes(ctx, ('Aperp0', 'Apara0', 'Aperp1', 'Apara1', 'Bperp1', 'Bpara1'))
    br = ctx.real('BR', 0.1, 1.)
    L = ll32.angular_coefficients(ta, br)
    (sl, cl, sL, cL, sp, cp), n, p = directions(ctx, (1, -1))
    x, z = spin32()
    S = D.add(D.scale(p[0], x), D.scale(p[2], z))
    S = D.add(D.scale(9 / 4, D.unit(4)), D.scale(-1, D.mul(S, S)))
    ix = {3: 0, 1: 1, -1: 2, -3: 3}
    ref = br * distribution({X: transition32(ta, X) for X in 'LR'}, {(s, t): S[ix[t]][ix[s]] for s in ix for t in ix}, tuple(ix), n)
    got = (cL ** 2 * (L['1c'] * cl + L['1cc'] * cl ** 2 + L['1ss'] * sl ** 2) + sL ** 2 * (L['2c'] * cl + L['2cc'] * cl ** 2 + L['2ss'] * sl ** 2)
           + sL ** 2 * sl ** 2 * cp * (L['3ss'] * cp + L['4ss'] * sp) + sL * cL * sl * cp * (L['5s'] + L['5sc'] * cl) + sL * cL * sl * sp * (L['6s'] + L['6sc'] * cl))
    ctx.check_eq('distribution', got, ref.real, atol=1e-9)


def coefficients(c, E):
    """currents with chiral leptons from the effective coefficients (times two): E: current -> number"""
    f = 2 * c['mb'] / c['q2']
    return {X: (c['v'] + s * c['a'] + c['vp'] + s * c['ap']) * E['V'] - f * (c['7'] + c['7p']) * E['T']
            - (c['v'] + s * c['a'] - c['vp'] - s * c['ap']) * E['A'] - f * (c['7'] - c['7p']) * E['T5'] for X, s in (('L', -1), ('R', 1))}


WC = ('7', '7p', 'v', 'a', 'vp', 'ap')


@harness(name='helicity amplitudes Lambda', time=200)
def helicity12(ctx):
    M, m, c = ctx.real('M', 5.4, 5.8), ctx.real('m', 1.0, 1.2), ctx.real('q', 0.3, 4.)
    K = Kinematics(M, m, c)
    ff = {k: ctx.real(k, -1., 1.) for k in FF12}
    w = {k: ctx.complex('C' + k, 5.) for k in WC}
    mb, N = ctx.real('mb', 4., 5.), ctx.complex('N', 1.)
    ta = ll.transverity_amps(ll.helicity_amps(K.q2, M, m, ff), K.q2, M, m, mb, 0, w, N)
    compare(ctx, ta, elements(K, ff), dict(w, mb=mb, q2=K.q2), N, transition)


@harness(name='helicity amplitudes Lambda(1520)', time=300)
def helicity32(ctx):
    M, m, c = ctx.real('M', 5.4, 5.8), ctx.real('m', 1.4, 1.6), ctx.real('q', 0.3, 3.5)
    K = Kinematics(M, m, c)
    ff = {k: ctx.real(k, -1., 1.) for k in FF32}
    w = {k: ctx.complex('C' + k, 5.) for k in WC}
    mb, N = ctx.real('mb', 4., 5.), ctx.complex('N', 1.)
    ta = ll32.transversity_amps(ll32.helicity_amps(K.q2, M, m, dict(ff, fVt=0., fAt=0.)), K.q2, M, m, mb, w, N, 'bsmumu')
    compare(ctx, ta, elements32(K, ff), dict(w, mb=mb, q2=K.q2), N, transition32)


def compare(ctx, ta, E, c, N, trans):
    for X in 'LR':
        J = trans(ta, X)
        for (cur, s2, s1), v in E.items():
            if cur != 'V':
                continue
            for i in range(3):
                ref = coefficients(c, {n: E[n, s2, s1][i] for n in ('V', 'A', 'T', 'T5')})[X] * N * 2 ** 0.5
                got = J[s2, s1][i] if (s2, s1) in J else 0
                ctx.check_eq('current %s %s %s %s' % (X, s2, s1, 'xyz'[i]), got, ref, scale=100.)


DECAYS = {'Lambda': (ll, 'm_Lambda', ll.get_transverity_amps_ff, ll.get_transverity_amps), 'Lambda(1520)': (ll32, 'm_Lambda(1520)', ll32.get_transversity_amps_ff, ll32.get_transversity_amps)}


@harness(name='normalization', max_paths=50)
def normalization(ctx):
    """rate from the squared amplitude: flux, phase space, couplings, average over the spin of the parent"""
    mod, m = DECAYS[ctx.choice('baryon', sorted(DECAYS))][:2]
    par = Par(ctx, 0.02, free=['m_Lambdab', m, 'GF'])
    V, run = patch_ckm(ctx), Running(ctx)
    q2, scale = ctx.real('q2', 1., 10.), 4.8
    M, m = par['m_Lambdab'], par[m]
    r = ctx.real('fourth root of the triangle function', 3., 5.)

    def triangle(a, b, c):
        ctx.check_eq('triangle function', a * b * c + 7 * (a + b + c), M ** 2 * m ** 2 * q2 + 7 * (M ** 2 + m ** 2 + q2))
        return r ** 4
    ctx.patch_name(flavio.physics.bdecays.common.lambda_K, triangle)
    N = mod.prefactor(q2, par, scale)
    mom = r * r / (2 * M)
    phase = mom / (4 * pi * M) / (2 * pi) / (8 * pi) / (2 * M)
    # hadronic times leptonic tensor: 1/4 of the squared transversity amplitudes, normalized as 3/(8 pi) times the angular functions
    coup = par['GF'] * V.xi('t', 'bs') * run('alpha_e', scale) / (pi * 2 ** 0.5)
    ctx.check_eq('normalization', N ** 2 * 2, coup ** 2 * phase * q2 / 3 / 2, scale=1e-20)


class MatrixElements:
    """matrix elements of four-quark operators: arbitrary linear functions of the coefficients they are known to depend on"""

    def __init__(self, ctx):
        self.ctx = ctx
        t = {'Y': ('C1', 'C3'), 'Yu': ('C1', 'C2'), 'delta_C7': ('C1', 'C8eff'), 'delta_C9': ('C2', 'C8eff')}
        self.k = {(n, c): ctx.complex('%s_%s' % (n, c), 1.) for n, cs in t.items() for c in cs}
        self.t = t
        ctx.patch_name(me.Y, lambda q2, wc, par, scale, qiqj: self('Y', wc, qiqj))
        ctx.patch_name(me.Yu, lambda q2, wc, par, scale, qiqj: self('Yu', wc, qiqj))
        ctx.patch_name(me.delta_C7, lambda par, wc, q2, scale, qiqj: self('delta_C7', wc, qiqj))
        ctx.patch_name(me.delta_C9, lambda par, wc, q2, scale, qiqj: self('delta_C9', wc, qiqj))

    def __call__(self, n, wc, q):
        return sum(self.k[n, c] * wc[c + '_' + q] for c in self.t[n])


BASIS = set(wcxf.Basis['WET', 'flavio'].all_wcs)
YI, ZI = dict(zip('3456', (-1 / 3., -4 / 9., -20 / 3., -80 / 9.))), dict(zip('3456', (1, -1 / 6., 20, -10 / 3.)))


def standard_model(ctx, q2):
    """real Standard Model coefficients at the scale"""
    sm = [ctx.real('SM%d' % i, 0.1, 1.) for i in range(15)]
    ctx.patch(wcs, 'wcsm_nf5', lambda scale: np.array(sm, dtype=object) if ctx.symbolic else np.array(sm))
    return sm


def effective(ctx, par, at, sm, V, run, ME, lep, scale, cp):
    """effective coefficients of b -> s l l, all weak phases conjugated for cp"""
    cc = conj if cp else lambda x: x
    new, c = at, {}
    at = lambda k: new(k) if k in BASIS else 0.
    for i in range(1, 7):
        c['C%d_bs' % i] = cc(sm[i - 1] + at('C%d_bs' % i))
    eps = run('ms', scale) / run('mb', scale)
    c7, c8 = [sm[i] - sum(w[str(j)] * sm[j - 1] for j in range(3, 7)) for i, w in ((6, YI), (7, ZI))]
    e7, e8 = [cc(sm7 + at(n)) + sum(w[str(j)] * c['C%d_bs' % j] for j in range(3, 7)) for sm7, n, w in ((c7, 'C7_bs', YI), (c8, 'C8_bs', ZI))]
    c['C8eff_bs'] = e8
    e7p = cc(eps * c7 + at('C7p_bs')) + sum(YI[str(j)] * cc(at('C%dp_bs' % j)) for j in range(3, 7))
    x = V.xi('u', 'bs') / V.xi('t', 'bs')
    ll_ = '_bs' + lep + lep
    return {'7': e7 + ME('delta_C7', c, 'bs'), '7p': e7p, 'v': cc(sm[8] + at('C9' + ll_)) + ME('delta_C9', c, 'bs') + ME('Y', c, 'bs') + x * ME('Yu', c, 'bs'),
            'vp': cc(at('C9p' + ll_)), 'a': cc(sm[9] * (par['m_t'] / 173.1) ** 1.53 + at('C10' + ll_)), 'ap': cc(at('C10p' + ll_))}


class Conjugated:
    def __init__(self, V):
        self.V = V

    def __getitem__(self, ij):
        return conj(self.V[ij])

    xi = lambda self, a, bc: conj(self.V.xi(a, bc))


def weak_phases(ctx):
    """CKM elements, conjugated if the CP odd parameters have changed sign; returns both"""
    V = patch_ckm(ctx)
    C = Conjugated(V)
    ctx.patch(flavio.physics.ckm, 'get_ckm', lambda par: C if par['gamma'] < 0 else V)
    return V, C


def reference(ctx, name, par, cp, q2, lep, at, sm, V, run, ME, ff, N, delta={}):
    """transversity amplitudes from the implementation of the (separately decided) currents with the reference coefficients"""
    mod, mname = DECAYS[name][:2]
    scale = 4.8
    c = effective(ctx, par, at, sm, V, run, ME, lep, scale, cp)
    M, m, mb = par['m_Lambdab'], par[mname], run('mb', scale)
    K = Kinematics(M, m, q2 ** 0.5)
    E = (elements if name == 'Lambda' else elements32)(K, ff)
    c.update(mb=mb, q2=q2)
    J = {}
    for cur, s2, s1 in E:
        if cur == 'V' and s2 in (1, -1, 3):
            J[s2, s1] = [E[n, s2, s1] for n in ('V', 'A', 'T', 'T5')]
    # (spin of daughter, spin of parent, component, factor): currents even or odd under parity
    table = {'perp0': (1, 1, 2, 1), 'para0': (1, 1, 2, 1), 'perp1': (1, -1, 0, -2 ** .5), 'para1': (1, -1, 0, -2 ** .5)}
    if name != 'Lambda':
        table = {'Aperp0': (1, 1, 2, -1), 'Apara0': (1, 1, 2, -1), 'Aperp1': (1, -1, 0, -2 ** .5), 'Apara1': (1, -1, 0, 2 ** .5), 'Bperp1': (3, 1, 0, -2 ** .5), 'Bpara1': (3, 1, 0, 2 ** .5)}
    out = {}
    for amp, (s2, s1, i, f) in table.items():
        d = dict(c)
        for k, x in delta.get(amp, {}).items():
            d[k] = d[k] + x
        v = {n: J[s2, s1][j][i] * (1 if (n in ('V', 'T')) == ('perp' in amp) else 0) for j, n in enumerate(('V', 'A', 'T', 'T5'))}
        for X, z in coefficients(d, v).items():
            out[amp, X] = N * z * 2 ** .5 * f
    return out


@harness(name='amplitudes from the Hamiltonian', max_paths=60, time=200)
def hamiltonian(ctx):
    name = ctx.choice('baryon', sorted(DECAYS))
    mod, mname, fct_ff, fct = DECAYS[name]
    cp, lep = ctx.choice('cp', [False, True]), ctx.choice('lepton', ['e', 'mu'])
    q2 = ctx.choice('q2', [1.2, 9., 14., 15.5])
    par = dict(CENTRAL)
    names = ['perp0', 'para0', 'perp1', 'para1']
    for n in names:
        for x in ('deltaC7 a_', 'deltaC7 b_', 'deltaC9 c_'):
            for y in (' Re', ' Im'):
                k = 'Lambdab->Lambda ' + x + n + y
                par[k] = ctx.real(k, -1., 1.)
    wc = WCs(ctx, b=1.)
    V, C = weak_phases(ctx)
    run = Running(ctx)
    ME = MatrixElements(ctx)
    sm = standard_model(ctx, q2)
    ff = {k: 0.3 + 0.05 * i for i, k in enumerate(FF12 if name == 'Lambda' else FF32)}
    ctx.patch(mod, 'get_ff', lambda q2, par: dict(ff, fVt=0., fAt=0.))
    Nn, Nc = complex(0.7, 0.4), complex(0.5, -0.6)
    ctx.patch(mod, 'prefactor', lambda q2, par, scale: Nc if par['gamma'] < 0 else Nn)
    got = fct(q2, wc, par, lep, cp_conjugate=cp)
    delta = {}
    if name == 'Lambda':
        P = lambda x, n, y: par['Lambdab->Lambda %s%s %s' % (x, n, y)]
        for n in names:
            if q2 <= 9:
                delta[n] = {'7': sum((P('deltaC7 a_', n, y) + P('deltaC7 b_', n, y) * q2) * i for y, i in (('Re', 1), ('Im', 1j)))}
            elif q2 > 14:
                delta[n] = {'v': sum(P('deltaC9 c_', n, y) * i for y, i in (('Re', 1), ('Im', 1j)))}
    ref = reference(ctx, name, par, cp, q2, lep, wc.at(4.8), sm, C if cp else V, run, ME, ff, Nc if cp else Nn, delta)
    for k, z in ref.items():
        ctx.check_eq('%s %s' % k, got[k], z, scale=100.)


def integral(f):
    """integral over the angles of 3/(8 pi) times a polynomial {(sin l, cos l, sin L, cos L, sin phi, cos phi): coefficient}"""
    def polar(s, c):  # integral of sin^s cos^c over d cos
        return {(0, 0): 2., (2, 0): 4 / 3., (0, 2): 2 / 3.}.get((s, c), 0.)

    def az(s, c):
        return {(0, 0): 2 * pi, (2, 0): pi, (0, 2): pi}.get((s, c), 0.)
    return sum(v * polar(*k[:2]) * polar(*k[2:4]) * az(*k[4:]) for k, v in f.items() if not (k[4:] in ((1, 0), (0, 1), (1, 1)))) * 3 / (8 * pi)


def half(f, which):
    """difference of the integrals over positive and negative cosines of the leptonic, hadronic or both angles"""
    def polar(s, c, odd):
        if odd:
            return {(0, 1): 1., (2, 1): .5, (0, 3): .5}.get((s, c), 0.)
        return {(0, 0): 2., (2, 0): 4 / 3., (0, 2): 2 / 3.}.get((s, c), 0.)

    def az(s, c):
        return {(0, 0): 2 * pi, (2, 0): pi, (0, 2): pi}.get((s, c), 0.)
    return sum(v * polar(*k[:2], 'l' in which) * polar(*k[2:4], 'h' in which) * az(*k[4:]) for k, v in f.items() if k[4:] not in ((1, 0), (0, 1), (1, 1))) * 3 / (8 * pi)


ANG = {'Lambda': {'1ss': (2, 0, 0, 0, 0, 0), '1cc': (0, 2, 0, 0, 0, 0), '1c': (0, 1, 0, 0, 0, 0), '2ss': (2, 0, 0, 1, 0, 0), '2cc': (0, 2, 0, 1, 0, 0), '2c': (0, 1, 0, 1, 0, 0),
                  '3sc': (1, 1, 1, 0, 1, 0), '3s': (1, 0, 1, 0, 1, 0), '4sc': (1, 1, 1, 0, 0, 1), '4s': (1, 0, 1, 0, 0, 1)},
       'Lambda(1520)': {'1c': (0, 1, 0, 2, 0, 0), '1cc': (0, 2, 0, 2, 0, 0), '1ss': (2, 0, 0, 2, 0, 0), '2c': (0, 1, 2, 0, 0, 0), '2cc': (0, 2, 2, 0, 0, 0), '2ss': (2, 0, 2, 0, 0, 0),
                        '3ss': (2, 0, 2, 0, 0, 2), '4ss': (2, 0, 2, 0, 1, 1), '5s': (1, 0, 1, 1, 0, 1), '5sc': (1, 1, 1, 1, 0, 1), '6s': (1, 0, 1, 1, 1, 0), '6sc': (1, 1, 1, 1, 1, 0)}}


@harness(name='observables', max_paths=600, time=200)
def observables(ctx):
    name = ctx.choice('baryon', sorted(DECAYS))
    mod, mname = DECAYS[name][:2]
    lep = ctx.choice('lepton', ['e', 'mu'])
    obs = ['dBR/dq2', 'FL', 'AFBl', 'AFBh', 'AFBlh'] + (['%s_%s' % (s, a) for s in 'SA' for a in ANG[name]] if name != 'Lambda' else [])
    o = ctx.choice('observable', obs)
    binned = ctx.choice('binned', [False, True])
    par = Par(ctx, 0.02, free=['tau_Lambdab', 'Lambda->ppi alpha_-', 'BR(Lambda(1520)->NKbar)_exp'], m_e=0.000511)
    inside = ctx.choice('inside', [True, False]) if o == 'dBR/dq2' and not binned else True
    tag = 'get_transverity_amps' if name == 'Lambda' else 'get_transversity_amps'
    seen = []

    def amps(q2, wc_obj, par, l, cp_conjugate):
        ctx.check('lepton', l == lep)
        return (q2, bool(cp_conjugate))
    ctx.patch(mod, tag, amps)
    F = {a: ctx.ufun('%s' % a, 0.6, 1.) if a in ('1ss', '2ss') and (a, name) != ('2ss', 'Lambda') else ctx.ufun('%s' % a, 0.05, 0.25) if a in ('1cc', '2cc') else ctx.ufun('%s' % a, -0.05, .05) for a in ANG[name]}

    def ang(ta, x):
        ctx.check_eq('decay parameter', x, par['Lambda->ppi alpha_-'] if name == 'Lambda' else par['BR(Lambda(1520)->NKbar)_exp'] / 2)
        return {a: F[a](ta[0], 1. if ta[1] else 0.) for a in ANG[name]}
    ctx.patch(mod, 'angular_coefficients', ang)
    w = [ctx.real('weight%d' % i, 0.5, 2.) for i in range(2)]
    lo, hi = ctx.real('q2min', 1., 3.), ctx.real('q2max', 4., 6.)
    nodes = lambda a, b: [(w[0], a + (b - a) * 0.25), (w[1], a + (b - a) * 0.75)]
    ctx.patch(flavio.math.integrate, 'nintegrate', lambda f, a, b: sum(x * f(q) for x, q in nodes(a, b)))

    def table(q2, cp):
        return {k: F[a](q2, 1. if cp else 0.) for a, k in ANG[name].items()}

    def value(fct):
        """sum over the bin of the average over both CP conjugate decays (Lambda: the decay alone)"""
        def at(q):
            x = fct(table(q, False), 1)
            return x if name == 'Lambda' else (x + fct(table(q, True), -1)) / 2
        return sum(x * at(q) for x, q in nodes(lo, hi)) if binned else at(lo)
    args = (lo, hi) if binned else (lo,)
    if not inside:
        top = (par['m_Lambdab'] - par[mname]) ** 2
        n = 'dBR/dq2(Lambdab->%s%s%s)' % (name, lep, lep)
        ctx.check_eq('above the endpoint', predict(n, None, par, top + lo), 0.)
        ctx.check_eq('below the threshold', predict(n, None, par, lo * par['m_' + lep] ** 2), 0.)
        return
    n = '%s(Lambdab->%s%s%s)' % ('<%s>' % o if binned else o, name, lep, lep)
    got = predict(n, None, par, *args)
    rate = value(lambda f, s: integral(f))
    if o == 'dBR/dq2':
        ctx.check_eq('rate', got, par['tau_Lambdab'] * rate / ((hi - lo) if binned else 1))
        return
    num = {'FL': lambda f, s: integral(f) - 2 * integral({k: v for k, v in f.items() if k[:2] == (0, 2)}),
           'AFBl': lambda f, s: half(f, 'l'), 'AFBh': lambda f, s: half(f, 'h'), 'AFBlh': lambda f, s: half(f, 'lh')}.get(o)
    if num is None:
        num = lambda f, s: f[ANG[name][o[2:]]] * (s if o[0] == 'A' else 1)
    ctx.check_eq(o.split('_')[0], got * rate, value(num), atol=1e-9)
