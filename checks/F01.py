"""Angular distributions of semileptonic B decays are the squared helicity amplitudes."""
import itertools
import math
import flavio.physics.bdecays.angular as angular
import flavio.physics.bdecays.bvlnu as bvlnu
from engine.run import harness, add_harness
from engine import num
from engine.num import sqrt, pi, conj, abs2, lam

EXPLANATION = (
    'The angular coefficients of B to vector and B to pseudoscalar decays (lepton pair with two arbitrary masses; vector, axial, scalar, pseudoscalar and tensor hadronic amplitudes) are computed symbolically and compared with an '
    'independent evaluation from first principles: two-body lepton helicity amplitudes, rotation functions and an explicit sum over lepton helicities; the same is done for the interference of mixed and unmixed decays. The amplitudes '
    'themselves are compared, as functions of Wilson coefficients, form factors and masses, with the transversity amplitudes of the literature and with the divergence relations of the currents.')
BOUNDS = ('all complex amplitudes and Wilson coefficients with real and imaginary parts up to 2 in size, form factors in [0.1, 2], masses and q2 symbolic inside the physical region, for massless, equal and unequal lepton masses; '
          'mixing phase in [-3, 3]')
ASSUMPTIONS = ['floats treated as reals', 'q2 strictly inside the allowed region; the end points are covered by F02']

HV = [(h, X) for h in ('0', 'pl', 'mi') for X in ('V', 'A', 'T', 'Tt')] + ['S', 'P']


def lepton_configs(H, q2, m1, m2, names=('pl', '0', 'mi')):
    """amplitudes for the helicity configurations of the lepton pair: (helicity difference, spin 1 part, spin 0 part)"""
    sP, rq = sqrt(q2 - (m1 + m2) ** 2), sqrt(q2)
    sM = sqrt(lam(q2, m1 ** 2, m2 ** 2)) / sP  # sqrt(q2 - (m1 - m2)^2)
    P, M = (m1 + m2) / rq, (m1 - m2) / rq
    r2 = math.sqrt(2)
    out = []
    for s in (1, -1):
        a = {h: r2 * (sM * H[h, 'V'] - s * sP * H[h, 'A'] + 2j * P * sM * H[h, 'Tt'] - s * r2 * 1j * M * sP * H[h, 'T']) for h in names}
        out.append((s, a, 0))
    for s in (1, -1):
        a = {h: P * sM * H[h, 'V'] + s * M * sP * H[h, 'A'] + 2j * sM * H[h, 'Tt'] + s * r2 * 1j * sP * H[h, 'T'] for h in names}
        out.append((0, a, sP * H['S'] + s * sM * H['P']))
    return out


def angular_v(conf, bar, coherent):
    """angular coefficients from amplitude pairs: coherent(z, w) is the bilinear form replacing z w*"""
    J = dict.fromkeys(['1s', '1c', '2s', '2c', '6s', '6c', 3, 4, 5, 7, 8, 9], 0.)
    X = 0.
    Zm, Zp = {'s': 0., '2': 0.}, {'s': 0., '2': 0.}
    k = 1 / (2 * math.sqrt(2))
    for (l, a, S), (_, b, Sb) in zip(conf, bar):
        def f(x, y, u=None, v=None):
            return coherent(a.get(x, S), b.get(x, Sb), a.get(y, S), b.get(y, Sb))
        pp, oo, mm, pm = f('pl', 'pl').real, f('0', '0').real, f('mi', 'mi').real, f('pl', 'mi')
        op, om = f('0', 'pl'), f('0', 'mi')
        if l:
            J['1c'] += oo / 4
            J['2c'] -= oo / 4
            J['1s'] += 3 / 16 * (pp + mm)
            J['2s'] += (pp + mm) / 16
            J['6s'] += l * (pp - mm) / 4
            X = X + pm / 4
            Zm['s'] = Zm['s'] - l * k * op
            Zm['2'] = Zm['2'] - k / 2 * op
            Zp['s'] = Zp['s'] + l * k * om
            Zp['2'] = Zp['2'] - k / 2 * om
        else:
            ss, sp, sm = f('S', 'S').real, f('S', 'pl'), f('S', 'mi')
            J['1c'] += oo / 2 + ss
            J['2c'] += oo / 2
            J['6c'] += 2 * f('0', 'S').real
            J['1s'] += (pp + mm) / 8
            J['2s'] -= (pp + mm) / 8
            X = X - pm / 2
            Zm['2'] = Zm['2'] + k * op
            Zm['s'] = Zm['s'] + sp / math.sqrt(2)
            Zp['2'] = Zp['2'] + k * om
            Zp['s'] = Zp['s'] + sm / math.sqrt(2)
    w = 1 / math.sqrt(2)
    J[3], J[9] = -X.real, X.imag
    J[4], J[8] = w * (Zm['2'] + Zp['2']).real, w * (Zm['2'] - Zp['2']).imag
    J[5], J[7] = w * (Zm['s'] + Zp['s']).real, w * (Zm['s'] - Zp['s']).imag
    return J


def phase_space(q2, mB, mM, m1, m2):
    """common factor 1/(2^9 pi^3 mB^3 q2) * sqrt(lambda lambda), without the square roots"""
    return sqrt(lam(mB ** 2, mM ** 2, q2)) * sqrt(lam(q2, m1 ** 2, m2 ** 2)) / (2 ** 9 * pi ** 3 * mB ** 3 * q2)


def amps(ctx, which, tag='H', zero=()):
    return {k: (0. if (k[1] if isinstance(k, tuple) else k) in zero else ctx.complex(tag + ''.join(k), 2)) for k in which}


def kin(ctx, mode):
    mB, mV = ctx.real('mB', 5, 6), ctx.real('mV', 0.5, 1)
    q2 = ctx.real('q2', 4, 9)
    if mode == 'massless':
        return mB, mV, 0., 0., q2
    m = ctx.real('ml', 0.1, 0.5)
    if mode == 'equal':
        return mB, mV, m, m, q2
    if mode == 'one':
        return mB, mV, m, 0., q2
    return mB, mV, m, ctx.real('ml2', 0.55, 0.9), q2


def one(a, ab, b, bb):
    return a * conj(b)


def bv(ctx, mode, zero):
    mB, mV, m1, m2, q2 = kin(ctx, mode)
    H = amps(ctx, HV, zero=zero)
    J = angular.angularcoeffs_general_v(H, q2, mB, mV, 4.2, 0, m1, m2)
    c = lepton_configs(H, q2, m1, m2)
    R = angular_v(c, c, one)
    ps = 8 / 3 * phase_space(q2, mB, mV, m1, m2)
    ctx.check('set of coefficients', set(J) == set(R))
    sc = 1e-6
    for k in R:
        ctx.check_eq('J%s' % k, J[k], R[k] * ps, scale=sc)


for mode in ('massless', 'equal', 'general'):
    for zname, zero in (('V A', ('T', 'Tt', 'S', 'P')), ('full', ())):
        add_harness(__name__, lambda ctx, mode=mode, zero=zero: bv(ctx, mode, zero), 'B->V %s %s' % (mode, zname), time=120)


def bv_mix(ctx, mode, zero):
    """interference of the decay with mixing: the same distribution for the coherent product with the mixed amplitude"""
    mB, mV, m1, m2, q2 = kin(ctx, mode)
    phi = ctx.real('phi', -3, 3)
    H, Ht = amps(ctx, HV, zero=zero), amps(ctx, HV, 'Ht', zero=zero)
    J = angular.angularcoeffs_h_v(phi, H, Ht, q2, mB, mV, 4.2, 0, m1, m2)
    e, ec = num.cexp(phi), num.cexp(-phi)
    R = angular_v(lepton_configs(H, q2, m1, m2), lepton_configs(Ht, q2, m1, m2), lambda a, ab, b, bb: e * ab * conj(b) + ec * a * conj(bb))
    ps = 8 / 3 * phase_space(q2, mB, mV, m1, m2)
    ctx.check('set of coefficients', set(J) == set(R))
    for k in R:
        ctx.check_eq('h%s' % k, J[k], R[k] * ps, scale=1e-6)


for mode in ('massless', 'equal', 'general'):
    for zname, zero in (('V A', ('T', 'Tt', 'S', 'P')), ('full', ())):
        add_harness(__name__, lambda ctx, mode=mode, zero=zero: bv_mix(ctx, mode, zero), 'B->V mixing %s %s' % (mode, zname), time=120)


def bp(ctx, mode):
    mB, mP, m1, m2, q2 = kin(ctx, mode)
    h = amps(ctx, ['V', 'A', 'S', 'P', 'T', 'Tt'], 'h')
    J = angular.angularcoeffs_general_p(h, q2, mB, mP, 4.2, 0, m1, m2)
    H = {('0', k): h[k] for k in ('V', 'A', 'T', 'Tt')}
    H.update(S=h['S'], P=h['P'])
    R = {'a': 0., 'b': 0., 'c': 0.}  # the angle is the one of the other lepton: odd terms change sign
    for l, a, S in lepton_configs(H, q2, m1, m2, ('0',)):
        x = a['0']
        if l:
            R['a'] += abs2(x) / 2
            R['c'] -= abs2(x) / 2
        else:
            R['a'] += abs2(S)
            R['b'] -= 2 * (x * conj(S)).real
            R['c'] += abs2(x)
    ps = phase_space(q2, mB, mP, m1, m2)
    ctx.check('set of coefficients', set(J) == set(R))
    for k in R:
        ctx.check_eq('J%s' % k, J[k], R[k] * ps, scale=1e-6)


for mode in ('massless', 'equal', 'general'):
    add_harness(__name__, lambda ctx, mode=mode: bp(ctx, mode), 'B->P %s' % mode, time=60)


FFV = ['V', 'A0', 'A1', 'A12', 'T1', 'T2', 'T23']
WC = ['v', 'a', 's', 'p', 't', '7']


def wcs(ctx, names=WC):
    return {k + x: ctx.complex('C' + k + x, 2) for k in names for x in ('', 'p')}


def bv_amps(ctx, mode):
    """vector amplitudes against the transversity amplitudes in the literature"""
    mB, mV, m1, m2, q2 = kin(ctx, mode)
    mb, mq = ctx.real('mb', 4, 5), ctx.real('mq', 0, 1)
    C = wcs(ctx)
    ff = {k: ctx.real('ff' + k, 0.1, 2) for k in FFV}
    N = ctx.complex('N', 2)
    H = angular.helicity_amps_v(q2, mB, mV, mb, mq, m1, m2, ff, C, N)
    rl, rq, r2 = sqrt(lam(mB ** 2, mV ** 2, q2)), sqrt(q2), math.sqrt(2)
    perp = {'V': rl * ff['V'] / (mB + mV), 'T': mb / q2 * rl * ff['T1']}
    para = {'V': -(mB + mV) * ff['A1'], 'T': -mb / q2 * (mB ** 2 - mV ** 2) * ff['T2']}
    A = {}
    for chi, s in (('L', -1), ('R', 1)):
        plus, minus = C['v'] + C['vp'] + s * (C['a'] + C['ap']), C['v'] - C['vp'] + s * (C['a'] - C['ap'])
        A['perp_' + chi] = N / (2 * r2) * (plus * perp['V'] + 2 * (C['7'] + C['7p']) * perp['T'])
        A['para_' + chi] = N / (2 * r2) * (minus * para['V'] + 2 * (C['7'] - C['7p']) * para['T'])
        A['0_' + chi] = -N * 2 * mB * mV / rq * (minus * ff['A12'] + mb * (C['7'] - C['7p']) * ff['T23'] / (mB + mV))
    T = angular.transversity_to_helicity(A)
    for k in itertools.product(('0', 'pl', 'mi'), 'VA'):
        ctx.check_eq('H %s %s' % k, H[k], T[k], scale=1.)
    # timelike and scalar: from the divergence of the currents
    ctx.check_eq('H P', H['P'], N * 1j * rl / 2 * ff['A0'] * ((C['p'] - C['pp']) / (mb + mq) + (m1 + m2) / q2 * (C['a'] - C['ap'])), scale=1.)
    ctx.check_eq('H S', H['S'], N * 1j * rl / 2 * ff['A0'] * ((C['s'] - C['sp']) / (mb + mq) + (m1 - m2) / q2 * (C['v'] - C['vp'])), scale=1.)
    # tensors: the same form factors as the dipole; the two tensor structures are dual to each other
    for h, s in (('pl', 1), ('mi', -1)):
        even, odd = s * rl * ff['T1'], (mB ** 2 - mV ** 2) * ff['T2']
        tp, tm = C['t'] + C['tp'], C['t'] - C['tp']
        ctx.check_eq('H %s Tt' % h, H[h, 'Tt'], N / (2 * rq) * (tp * even - tm * odd), scale=1.)
        ctx.check_eq('H %s T' % h, H[h, 'T'], N / (r2 * rq) * (tm * even - tp * odd), scale=1.)
    ctx.check_eq('H 0 T', H['0', 'T'], N * 2 * r2 * mB * mV / (mB + mV) * (C['t'] + C['tp']) * ff['T23'], scale=1.)
    ctx.check_eq('H 0 Tt', H['0', 'Tt'], N * 2 * mB * mV / (mB + mV) * (C['t'] - C['tp']) * ff['T23'], scale=1.)
    ctx.check('set of amplitudes', set(H) == set(HV))


def bp_amps(ctx, mode):
    mB, mP, m1, m2, q2 = kin(ctx, mode)
    mb, mq = ctx.real('mb', 4, 5), ctx.real('mq', 0, 1)
    C = wcs(ctx)
    ff = {k: ctx.real('ff' + k, 0.1, 2) for k in ('f+', 'f0', 'fT')}
    N = ctx.complex('N', 2)
    h = angular.helicity_amps_p(q2, mB, mP, mb, mq, m1, m2, ff, C, N)
    rl, rq = sqrt(lam(mB ** 2, mP ** 2, q2)), sqrt(q2)
    F = {k: C[k] + C[k + 'p'] for k in WC}
    ctx.check('set of amplitudes', set(h) == {'V', 'A', 'S', 'P', 'T', 'Tt'})
    ctx.check_eq('V', h['V'], N * rl / (2 * rq) * (F['v'] * ff['f+'] + 2 * mb / (mB + mP) * F['7'] * ff['fT']), scale=1.)
    ctx.check_eq('A', h['A'], N * rl / (2 * rq) * F['a'] * ff['f+'], scale=1.)
    d = (mB ** 2 - mP ** 2) / 2 * ff['f0']
    ctx.check_eq('S', h['S'], N * d * (F['s'] / (mb - mq) + (m1 - m2) / q2 * F['v']), scale=1.)
    ctx.check_eq('P', h['P'], N * d * (F['p'] / (mb - mq) + (m1 + m2) / q2 * F['a']), scale=1.)
    ctx.check_eq('T', h['T'], -1j * N * rl / (math.sqrt(2) * (mB + mP)) * (C['t'] - C['tp']) * ff['fT'], scale=1.)
    ctx.check_eq('Tt', h['Tt'], -1j * N * rl / (2 * (mB + mP)) * (C['t'] + C['tp']) * ff['fT'], scale=1.)


for mode in ('equal', 'general'):
    add_harness(__name__, lambda ctx, mode=mode: bv_amps(ctx, mode), 'B->V amplitudes %s' % mode, time=60)
    add_harness(__name__, lambda ctx, mode=mode: bp_amps(ctx, mode), 'B->P amplitudes %s' % mode, time=60)
