"""Observables of semileptonic B decays follow from one differential distribution."""
import math
import re
import flavio
import flavio.math.integrate
import flavio.physics.bdecays.angular as angular
import flavio.physics.bdecays.bvll.observables as bvll
import flavio.physics.bdecays.bvll.observables_bs as bs
import flavio.physics.bdecays.bvll.amplitudes as bvamp
import flavio.physics.bdecays.bvll.lfv as bvlfv
import flavio.physics.bdecays.bvlnu as bvlnu
import flavio.physics.bdecays.bvnunu as bvnunu
import flavio.physics.bdecays.bpll as bpll
import flavio.physics.bdecays.bpll_lfv as bplfv
import flavio.physics.bdecays.bplnu as bplnu
import flavio.physics.bdecays.bpnunu as bpnunu
import flavio.physics.ddecays.dplnu as dplnu
from flavio.classes import Observable
from engine.run import harness, add_harness
from engine.num import sqrt, pi, log, cos, sin

EXPLANATION = (
    'The registered observables of B (and semi-leptonic D) decays to a pseudoscalar or vector meson and two leptons are evaluated through their public prediction, with the angular coefficients at every q2 replaced by unknown functions and the numerical '
    'quadrature replaced by one that is exact for them. Every differential, binned and total rate, asymmetry, optimized observable and flavour ratio must equal the corresponding moment of the distribution over the allowed phase space, '
    'with the signs, normalisations and CP averages of its definition.')
BOUNDS = ('angular coefficients of the form a/q2 + b with independent symbolic a and b for every coefficient, lepton flavour and CP conjugate; q2 symbolic over and beyond the allowed region; bins and totals over a list of intervals inside, '
          'across and outside of the allowed region; masses and lifetimes of the default parameters')
ASSUMPTIONS = ['floats treated as reals', 'the adaptive quadrature is replaced by one exact for the functions used (its accuracy is scipy\'s)']

PAR = dict(flavio.default_parameters.get_central_all())
WC = flavio.WilsonCoefficients()
M = {k[2:]: v for k, v in PAR.items() if k.startswith('m_')}
TAU = {k[4:]: v for k, v in PAR.items() if k.startswith('tau_')}
# ranges keep numerators away from zero, so that no case distinction on them is needed
RANGE = {'1s': (1.5, 2), '1c': (1.5, 2), '2s': (.1, .2), '2c': (-.2, -.1), 'a': (1.5, 2), 'c': (-.2, -.1)}
RANGE_BAR = {'1s': (1, 1.2), '1c': (1, 1.2), 'a': (1, 1.2)}
KEYS_V = ['1s', '1c', '2s', '2c', '6s', '6c', 3, 4, 5, 7, 8, 9]
KEYS_P = ['a', 'b', 'c']


class Dist:
    """unknown angular coefficients: (a / q2 + b) for each key and tag"""

    def __init__(self, ctx, keys, pole=True):
        self.ctx, self.keys, self.pole, self.v = ctx, keys, pole, {}

    def coef(self, tag, k):
        if (tag, k) not in self.v:
            lo, hi = RANGE.get(k, (.2, .3))
            if 'bar' in tag:
                lo, hi = RANGE_BAR.get(k, RANGE.get(k, (-.1, .1)))
            n = 'J%s[%s]' % (k, ','.join(map(str, tag)))
            self.v[tag, k] = (self.ctx.real(n + 'a', lo, hi) if self.pole else 0., self.ctx.real(n + 'b', lo, hi))
        return self.v[tag, k]

    def at(self, tag, q2):
        d = Lazy(self, tag, q2)
        return d

    def int(self, tag, a, b):
        """integrated coefficients"""
        return Lazy(self, tag, (a, b))


class Lazy(dict):
    def __init__(self, dist, tag, x):
        self.d, self.tag, self.x = dist, tag, x
        for k in dist.keys:
            dict.__setitem__(self, k, None)

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if v is None:
            a, b = self.d.coef(self.tag, k)
            if isinstance(self.x, tuple):
                v = b * (self.x[1] - self.x[0])
                if self.d.pole:
                    v = v + a * log(self.x[1] / self.x[0])
            else:
                v = b + a / self.x if self.d.pole else b
            self[k] = v
        return v

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def copy(self):
        return self


def quadrature(breaks, pole=True):
    """integral exact for a/q2 + b between the given break points"""
    def quad(f, a, b, epsrel=None, **kw):
        if a > b:
            return -quad(f, b, a)
        pts = [a] + [x for x in sorted(set(breaks)) if a < x < b] + [b]
        tot = 0.
        for lo, hi in zip(pts, pts[1:]):
            x1, x2 = lo + (hi - lo) / 4, lo + 3 * (hi - lo) / 4
            f1, f2 = f(x1), f(x2)
            if pole and lo > 0:
                al = (f1 - f2) / (1 / x1 - 1 / x2)
                be = f1 - al / x1
                tot = tot + al * math.log(hi / lo) + be * (hi - lo)
            else:
                tot = tot + (f1 + f2) / 2 * (hi - lo)
        return tot
    return quad


def dG(J):
    return 3 / 4 * (2 * J['1s'] + J['1c']) - 1 / 4 * (2 * J['2s'] + J['2c'])


def dGp(J):
    return 2 * J['a'] + 2 / 3 * J['c']


FLIP = [4, '6s', '6c', 7, 9]


def S(k):
    return lambda J, Jb: (-1 if k in FLIP else 1) * (J[k] + Jb[k])


def A(k):
    return lambda J, Jb: (-1 if k in FLIP else 1) * (J[k] - Jb[k])


def rate(J, Jb):
    return dG(J) + dG(Jb)


def pprime(num):
    return lambda J, Jb: (num(J, Jb), 2 * sqrt(-S('2s')(J, Jb) * S('2c')(J, Jb)))


def scaled(c, num, den):
    return lambda J, Jb: (c * num(J, Jb), den(J, Jb))


# numerator and denominator of every CP averaged observable and CP asymmetry
V_OBS = {'ACP': scaled(1, lambda J, Jb: dG(J) - dG(Jb), rate), 'AFB': scaled(3 / 4, S('6s'), rate), 'FL': scaled(-1, S('2c'), rate)}
V_OBS.update({'S%s' % k: scaled(1, S(k), rate) for k in (3, 4, 5, '6c', 7, 8, 9)})
V_OBS.update({'A%s' % k: scaled(1, A(k), rate) for k in (3, 4, 5, '6s', 7, 8, 9)})
V_OBS.update({'P1': scaled(1 / 2, S(3), S('2s')), 'P2': scaled(1 / 8, S('6s'), S('2s')), 'P3': scaled(-1 / 4, S(9), S('2s')), 'ATIm': scaled(1 / 2, A(9), S('2s'))})
V_OBS.update({'P%dp' % k: pprime(S(j)) for k, j in ((4, 4), (5, 5), (6, 7), (8, 8))})

BIN_TYPES = ('inside', 'pole', 'all', 'low edge', 'high edge', 'below', 'above')


def bins(ctx, lo, hi):
    """interval (and its allowed part) relative to the allowed region lo...hi"""
    eps = min(lo, 1.) / 10
    opts = {'inside': (lo + .3 * (hi - lo), lo + .6 * (hi - lo)), 'all': (lo / 2, hi + 1), 'low edge': (lo / 4, lo + .3 * (hi - lo)), 'high edge': (lo + .7 * (hi - lo), hi + 2),
            'below': (lo / 8, lo / 2), 'above': (hi + 1, hi + 2), 'pole': (lo + eps, lo + .2 * (hi - lo))}
    kind = ctx.choice('bin', [k for k in opts if lo > 0 or k not in ('low edge', 'below')])
    a, b = opts[kind]
    a, b = float(a), float(b)
    A, B = max(a, lo), min(b, hi)
    return a, b, ((A, B) if A < B else None)


def thresholds(mB, mM, leptons):
    return [(mB - mM) ** 2] + [(M[a] + M[b]) ** 2 for a, b in leptons]


def compare(ctx, label, got, num, den=1., scale=1.):
    ctx.check_eq(label, got, num / den, scale=scale)


def integrator(ctx, breaks, pole=True):
    ctx.patch(flavio.math.integrate, 'nintegrate', quadrature(breaks, pole))


def call(name, **kw):
    return Observable[name].prediction_par(dict(PAR), WC, **kw)


# B -> V l l

VLL = {'B0->K*': ('B0', 'K*0'), 'B+->K*': ('B+', 'K*+')}


def setup_bvll(ctx, mB, mV):
    d = Dist(ctx, KEYS_V)
    ctx.patch(bvll.BVllObservable, 'j', lambda self, q2: d.at((self.B, self.V, self.lep, ''), q2))
    ctx.patch(bvll.BVllObservable, 'jbar', lambda self, q2: d.at((self.B, self.V, self.lep, 'bar'), q2))
    ctx.patch_name(bvll.wctot_dict, lambda *a, **k: {})
    integrator(ctx, thresholds(mB, mV, [('e', 'e'), ('mu', 'mu'), ('tau', 'tau')]))
    return d


def bvll_obs(ctx, m, binned):
    B, V = VLL[m]
    name, l = ctx.choice('observable', sorted(V_OBS) + ['dBR/dq2']), ctx.choice('lepton', ['mu', 'tau'])
    d = setup_bvll(ctx, M[B], M[V])
    lo, hi = 4 * M[l] ** 2, (M[B] - M[V]) ** 2
    t, tb = (B, V, l, ''), (B, V, l, 'bar')
    if binned:
        a, b, ok = bins(ctx, lo, hi)
        got = call('<%s>(%s%s%s)' % (name, m, l, l), q2min=a, q2max=b)
        if ok:
            J, Jb = d.int(t, *ok), d.int(tb, *ok)
    else:
        q2 = ctx.real('q2', 0.001, 30)
        got = call('%s(%s%s%s)' % (name, m, l, l), q2=q2)
        ctx.assume((q2 - lo) * (q2 - lo) > 1e-8)
        ctx.assume((q2 - hi) * (q2 - hi) > 1e-8)
        ok = bool(q2 > lo) and bool(q2 < hi)
        if ok:
            J, Jb = d.at(t, q2), d.at(tb, q2)
    if not ok:
        return ctx.check_eq('zero outside of phase space', got, 0., scale=1.)
    if name == 'dBR/dq2':
        r = TAU[B] * rate(J, Jb) / 2
        return ctx.check_eq(name, got, r / (b - a) if binned else r, scale=TAU[B])
    n, den = V_OBS[name](J, Jb)
    if name == 'ACP':
        # apart from its normalisation: separate obligation, cf. known_findings.json
        ctx.check_eq('ACP or half of it', (got * den - n) * (2 * got * den - n), 0., scale=1.)
    compare(ctx, name, got, n, den)


for _m in VLL:
    for _b in (0, 1):
        add_harness(__name__, lambda ctx, m=_m, b=_b: bvll_obs(ctx, m, b), 'B->Vll %s %s' % (_m, 'binned' if _b else 'differential'), max_paths=2000, time=120)


class Tag(dict):
    """helicity amplitudes of which only the identity matters"""
    tag = None

    def copy(self):
        t = Tag(self)
        t.tag = self.tag
        return t


def tagged(tag, **kw):
    t = Tag(**kw)
    t.tag = tag
    return t


def patch_angular(ctx, d, masses_ok):
    """angular coefficients of tagged amplitudes; the kinematics must be the one of the decay"""
    def coef(h, q2, mB, mM, mqh, mql, ml1, ml2):
        ctx.check('masses', masses_ok(h.tag, mB, mM, ml1, ml2))
        return d.at(h.tag, q2)
    ctx.patch(angular, 'angularcoeffs_general_v' if d.keys is KEYS_V else 'angularcoeffs_general_p', coef)
    return coef


def masses_of(tag, mB, mM, m1, m2):
    B, X, l1, l2 = tag[:4]
    return mB == M[B] and mM == M[X] and m1 == (0 if 'nu' in l1 else M[l1]) and m2 == (0 if 'nu' in l2 else M[l2])


# Bs -> V l l : time integrated and untagged

BSVLL = {'Bs->phi': ('Bs', 'phi'), 'Bs->K*0': ('Bs', 'K*0')}
BS_OBS = {'FL': scaled(-1, lambda J, h: J['2c'], None), 'S3': None}


def setup_bs(ctx, B, V, leps):
    d = Dist(ctx, KEYS_V)
    amps = [(h, X) for h in ('0', 'pl', 'mi') for X in 'VA'] + ['S', 'P']

    def h_of(kind):
        def helicity_amps(q2, ff, wc_obj, par, B, V, lep):
            t = tagged((B, V, lep, lep, kind))
            for i, k in enumerate(amps):
                t[k] = complex(i + 1, .5 if kind else -.5)
            return t
        return helicity_amps
    ctx.patch(bvamp, 'helicity_amps', h_of(''))
    ctx.patch(bvamp, 'helicity_amps_bar', h_of('bar'))
    patch_angular(ctx, d, masses_of)
    phase = ctx.choice('mixing phase', [0.25, -2.])
    ctx.patch(flavio.physics.mesonmixing.observables, 'q_over_p', lambda wc, par, B: -complex(math.cos(phase), math.sin(phase)))

    def mixed(phi, h, ht, q2, mB, mV, mqh, mql, ml1, ml2):
        lep = h.tag[2]
        ctx.check('masses', masses_of(h.tag, mB, mV, ml1, ml2) and h.tag[4] == '')
        ctx.check('mixing phase', abs(phi - phase) < 1e-9)
        hb = h_of('bar')(q2, None, None, None, B, V, lep)
        # CP eigenvalues: helicities interchanged, scalar amplitude changes sign
        want = {('0', X): hb['0', X] for X in 'VA'}
        want.update({(a, X): hb[b, X] for a, b in (('pl', 'mi'), ('mi', 'pl')) for X in 'VA'})
        want.update({'S': -hb['S'], 'P': hb['P']})
        ctx.check('mixed amplitudes', dict(ht) == want)
        return d.at((B, V, lep, lep, 'mixed'), q2)
    ctx.patch(angular, 'angularcoeffs_h_v', mixed)
    integrator(ctx, thresholds(M[B], M[V], [(l, l) for l in leps]))
    return d


def untagged(d, B, V, l, x):
    """time integrated sum of J and J-bar"""
    y = PAR['DeltaGamma/Gamma_' + B] / 2
    get = d.int if isinstance(x, tuple) else d.at
    ts = [get((B, V, l, l, k), *(x if isinstance(x, tuple) else (x,))) for k in ('', 'bar', 'mixed')]
    return {k: (ts[0][k] + ts[1][k] - y * ts[2][k]) / (1 - y ** 2) for k in KEYS_V}


def bs_obs(ctx, m, binned):
    B, V = BSVLL[m]
    name, l = ctx.choice('observable', ['FL', 'S3', 'S4', 'S7', 'dBR/dq2']), ctx.choice('lepton', ['mu', 'tau'])
    d = setup_bs(ctx, B, V, ['mu', 'tau'])
    lo, hi = 4 * M[l] ** 2, (M[B] - M[V]) ** 2
    if binned:
        a, b, ok = bins(ctx, lo, hi)
        got = call('<%s>(%s%s%s)' % (name, m, l, l), q2min=a, q2max=b)
    else:
        q2 = ctx.real('q2', 0.001, 30)
        ctx.assume((q2 - lo) * (q2 - lo) > 1e-8)
        ctx.assume((q2 - hi) * (q2 - hi) > 1e-8)
        got = call('%s(%s%s%s)' % (name, m, l, l), q2=q2)
        ok = q2 if bool(q2 > lo) and bool(q2 < hi) else None
    if ok is None:
        return ctx.check_eq('zero outside of phase space', got, 0., scale=1.)
    J = untagged(d, B, V, l, ok)
    if name == 'dBR/dq2':
        return ctx.check_eq(name, got, TAU[B] * dG(J) / 2 / ((b - a) if binned else 1), scale=TAU[B])
    num = {'FL': -J['2c'], 'S3': J[3], 'S4': -J[4], 'S7': -J[7]}[name]
    ctx.check_eq(name, got, num / dG(J), scale=1.)


for _m in BSVLL:
    for _b in (0, 1):
        add_harness(__name__, lambda ctx, m=_m, b=_b: bs_obs(ctx, m, b), '%s ll %s' % (_m, 'binned' if _b else 'differential'), max_paths=2000, time=120)


@harness(name='Bs->Vll ratios and total', max_paths=400)
def bs_more(ctx):
    m = ctx.choice('decay', sorted(BSVLL))
    B, V = BSVLL[m]
    d = setup_bs(ctx, B, V, ['e', 'mu', 'tau'])
    what = ctx.choice('what', ['Rmue', 'Rtaumu'] + (['BR_LHCb'] if m == 'Bs->K*0' else []))
    hi = (M[B] - M[V]) ** 2
    if what == 'BR_LHCb':
        b = min(19., hi)
        return ctx.check_eq(what, call('BR_LHCb(Bs->K*0mumu)'), (1 + PAR['delta_BsKstarmumu']) * TAU[B] * dG(untagged(d, B, V, 'mu', (0.1, b))) / 2, scale=TAU[B])
    l1, l2 = {'Rmue': ('mu', 'e'), 'Rtaumu': ('tau', 'mu')}[what]
    a, b = ctx.choice('bin', [(1.1, 6.), (0.045, 1.1), (13., 25.)])
    got = call('<%s>(%sll)' % (what, m), q2min=a, q2max=b)
    A, Z = max(a, 4 * M[l1] ** 2), min(b, hi)
    if A >= Z:
        return ctx.check_eq(what, got, 0., scale=1.)
    ctx.check_eq(what, got, dG(untagged(d, B, V, l1, (A, Z))) / dG(untagged(d, B, V, l2, (max(a, 4 * M[l2] ** 2), Z))), scale=1.)


@harness(name='B->Vll flavour ratios and differences', max_paths=600)
def bvll_more(ctx):
    m = ctx.choice('decay', sorted(VLL))
    B, V = VLL[m]
    d = setup_bvll(ctx, M[B], M[V])
    hi = (M[B] - M[V]) ** 2
    what = ctx.choice('what', ['Rmue', 'Rtaumu', '<Rmue>', '<Rtaumu>'] + (['Dmue_P4p', 'Dmue_P5p', 'Dmue_AFB', '<Dmue_P4p>', '<Dmue_P5p>', '<Dmue_AFB>'] if m == 'B0->K*' else []))
    l1, l2 = ('tau', 'mu') if 'tau' in what else ('mu', 'e')
    lo1, lo2 = 4 * M[l1] ** 2, 4 * M[l2] ** 2
    if '<' in what:
        a, b = ctx.choice('bin', [(1.1, 6.), (0.045, 1.1), (14., 25.), (0.02, 0.5), (20., 22.)])
        got = call('%s(%sll)' % (what, m), q2min=a, q2max=b)
        x1, x2 = [(max(a, lo), min(b, hi)) for lo in (lo1, lo2)]
        x1, x2 = [x if x[0] < x[1] else None for x in (x1, x2)]
        get = lambda t, x: d.int(t, *x)
    else:
        q2 = ctx.real('q2', 0.001, 25)
        for e in (lo1, lo2, hi):
            ctx.assume((q2 - e) * (q2 - e) > 1e-10)
        got = call('%s(%sll)' % (what, m), q2=q2)
        x1, x2 = [q2 if bool(q2 > lo) and bool(q2 < hi) else None for lo in (lo1, lo2)]
        get = d.at

    def Js(l, x):
        return [get((B, V, l, k), x) for k in ('', 'bar')]
    if what[0] == 'R' or what[1] == 'R':
        want = rate(*Js(l1, x1)) / rate(*Js(l2, x2)) if x1 is not None else 0.
    else:
        f = V_OBS[what.strip('<>').split('_')[1]]
        want = 0.
        for s, l, x in ((1, l1, x1), (-1, l2, x2)):
            if x is not None:
                n, den = f(*Js(l, x))
                want = want + s * (n / den)
    ctx.check_eq(what, got, want, scale=1.)


# B -> V l nu and B -> P l nu

VLNU = {'B0->D*': ('B0', 'D*+'), 'B+->D*': ('B+', 'D*0'), 'B0->rho': ('B0', 'rho+'), 'B+->rho': ('B+', 'rho0'), 'B+->omega': ('B+', 'omega'), 'Bs->K*': ('Bs', 'K*+')}
VLNU_L = {'B->D*': ('B0', 'D*+'), 'B->rho': ('B0', 'rho+'), 'B+->omega': ('B+', 'omega'), 'Bs->K*': ('Bs', 'K*+')}
PLNU = {'B+->D': ('B+', 'D0'), 'B0->D': ('B0', 'D+'), 'B+->pi': ('B+', 'pi0'), 'B0->pi': ('B0', 'pi+')}
PLNU_L = {'B->D': ('B0', 'D+'), 'B->pi': ('B0', 'pi+')}
DLNU = {'D+->K': ('D+', 'K0'), 'D0->K': ('D0', 'K+'), 'D+->pi': ('D+', 'pi0'), 'D0->pi': ('D0', 'pi+')}
DLNU_L = {'D->K': ('D0', 'K+'), 'D->pi': ('D0', 'pi+')}
D_BINS = [(.2, 1.), (0., 5.), (1.5, 8.), (0.005, 0.1), (3.5, 4.)]
ISO = {'rho0': .5, 'omega': .5, 'pi0': .5}
NUS = ('e', 'mu', 'tau')


def leptons(l):
    return ['e', 'mu'] if l == 'l' else [l]


def setup_lnu(ctx, mod, B, X, keys):
    d = Dist(ctx, keys)
    ctx.patch(mod, 'get_angularcoeff', lambda q2, wc, par, B, X, lep: d.at((B, X, lep), q2))
    integrator(ctx, thresholds(M[B], M[X], []) + [M[l] ** 2 for l in NUS])
    return d


def part(d, ctx, B, X, l, x):
    """coefficients at q2 or integrated over the allowed part of an interval; None outside"""
    lo, hi = M[l] ** 2, (M[B] - M[X]) ** 2
    if x == 'all':
        x = (lo, hi)
    if isinstance(x, tuple):
        a, b = max(x[0], lo), min(x[1], hi)
        return d.int((B, X, l), a, b) if a < b else None
    return d.at((B, X, l), x) if bool(x > lo) and bool(x < hi) else None


def mean(vals):
    vals = list(vals)
    return sum(vals) / len(vals)


def brs(d, ctx, B, X, l, x, f):
    """branching ratio of the moment f, averaged over e and mu for l"""
    fac = TAU[B] * ISO.get(X, 1)
    Js = [part(d, ctx, B, X, k, x) for k in leptons(l)]
    return mean(fac * f(J) if J is not None else 0. for J in Js)


def long_(J):
    return 3 / 4 * J['1c'] - J['2c'] / 4


def trans(J):
    return 3 / 2 * J['1s'] - J['2s'] / 2


def q2_region(ctx, name, lo, hi, edges):
    q2 = ctx.real(name, lo, hi)
    for e in edges:
        ctx.assume((q2 - e) * (q2 - e) > 1e-10)
    return q2


LNU_BINS = [(1., 6.), (0.5, 30.), (11., 40.), (0.005, 0.1), (2.5, 4.)]


def lnu_rates(ctx, mod, decs, keys, moments, leps=('e', 'mu', 'tau', 'l'), bins=LNU_BINS):
    m = ctx.choice('decay', sorted(decs))
    B, X = decs[m]
    l = ctx.choice('lepton', list(leps))
    A = ctx.choice('polarisation', sorted(moments))
    kind = ctx.choice('kind', ['diff', 'bin', 'total'])
    d = setup_lnu(ctx, mod, B, X, keys)
    f = moments[A]
    hi = (M[B] - M[X]) ** 2
    if kind == 'diff':
        x = q2_region(ctx, 'q2', 0.001, 30, [hi] + [M[k] ** 2 for k in leptons(l)])
        got = call('dBR%s/dq2(%s%snu)' % (A, m, l), q2=x)
    elif kind == 'bin':
        x = ctx.choice('bin', bins)
        got = call('<BR%s>(%s%snu)' % (A, m, l), q2min=x[0], q2max=x[1])
    else:
        x = 'all'
        got = call('BR%s(%s%snu)' % (A, m, l))
    ctx.check_eq('BR', got, brs(d, ctx, B, X, l, x, f), scale=TAU[B])


add_harness(__name__, lambda ctx: lnu_rates(ctx, bvlnu, VLNU, KEYS_V, {'': dG, '_L': long_, '_T': trans}), 'B->Vlnu rates', max_paths=2000, time=120)
add_harness(__name__, lambda ctx: lnu_rates(ctx, bplnu, PLNU, KEYS_P, {'': dGp}), 'B->Plnu rates', max_paths=1000, time=60)


def lnu_ratios(ctx, mod, decs, keys, f, norm, ratios=('mu e', 'tau mu', 'tau l', 'normalised'), bins=LNU_BINS):
    m = ctx.choice('decay', sorted(decs))
    B, X = decs[m]
    d = setup_lnu(ctx, mod, B, X, keys)
    what = ctx.choice('ratio', list(ratios))
    kind = ctx.choice('kind', ['bin', 'total'])
    x = ctx.choice('bin', bins) if kind == 'bin' else 'all'
    kw = dict(q2min=x[0], q2max=x[1]) if kind == 'bin' else {}
    if what == 'normalised':
        if norm[0] != m or kind == 'total':
            return
        n, den, got = brs(d, ctx, B, X, 'tau', x, f), brs(d, ctx, B, X, 'tau', 'all', f), call(norm[1], **kw)
    else:
        l1, l2 = what.split()
        name = 'R%s%s' % (l1, l2)
        got = call(('<%s>' if kw else '%s') % name + '(%slnu)' % m, **kw)
        n, den = brs(d, ctx, B, X, l1, x, f), brs(d, ctx, B, X, l2, x, f)
    empty = isinstance(den, float) and den == 0
    ctx.check_eq('ratio', got, 0. if empty else n / den, scale=1.)


add_harness(__name__, lambda ctx: lnu_ratios(ctx, bvlnu, VLNU_L, KEYS_V, dG, ('B->D*', '<BR>/BR(B->D*taunu)')), 'B->Vlnu ratios', max_paths=300)
add_harness(__name__, lambda ctx: lnu_ratios(ctx, bplnu, PLNU_L, KEYS_P, dGp, ('B->D', '<BR>/BR(B->Dtaunu)')), 'B->Plnu ratios', max_paths=300)

add_harness(__name__, lambda ctx: lnu_rates(ctx, dplnu, DLNU, KEYS_P, {'': dGp}, ('e', 'mu', 'l'), D_BINS), 'D->Plnu rates', max_paths=600, time=60)
add_harness(__name__, lambda ctx: lnu_ratios(ctx, dplnu, DLNU_L, KEYS_P, dGp, None, ('mu e',), D_BINS), 'D->Plnu ratios', max_paths=100)


def marginal(var, J, x):
    """one-dimensional projections of the fourfold distribution 9/(32 pi) sum J_i f_i"""
    s, c = J['1s'], J['1c']
    if var == 'cl':
        # integrated over theta_V (sin^2: 4/3, cos^2: 2/3) and phi
        return 3 / 8 * (2 * s + c + (2 * J['2s'] + J['2c']) * (2 * x * x - 1) + (2 * J['6s'] + J['6c']) * x)
    if var == 'cV':
        # integrated over theta_l (1: 2, cos 2 theta: -2/3, cos theta: 0) and phi
        return 9 / 16 * ((2 * s - 2 / 3 * J['2s']) * (1 - x * x) + (2 * c - 2 / 3 * J['2c']) * x * x)
    # integrated over both polar angles
    return 9 / (32 * pi) * (4 / 3 * (2 * s - 2 / 3 * J['2s']) + 2 / 3 * (2 * c - 2 / 3 * J['2c']) + 16 / 9 * (J[3] * cos(2 * x) + J[9] * sin(2 * x)))


def primitive(var, J, x):
    """antiderivative of the projection"""
    s, c = J['1s'], J['1c']
    if var == 'cl':
        return 3 / 8 * ((2 * s + c) * x + (2 * J['2s'] + J['2c']) * (2 * x ** 3 / 3 - x) + (2 * J['6s'] + J['6c']) * x * x / 2)
    if var == 'cV':
        return 9 / 16 * ((2 * s - 2 / 3 * J['2s']) * (x - x ** 3 / 3) + (2 * c - 2 / 3 * J['2c']) * x ** 3 / 3)
    return 9 / (32 * pi) * ((4 / 3 * (2 * s - 2 / 3 * J['2s']) + 2 / 3 * (2 * c - 2 / 3 * J['2c'])) * x + 8 / 9 * (J[3] * sin(2 * x) - J[9] * cos(2 * x)))


@harness(name='B->Vlnu angular distributions', max_paths=600)
def lnu_angles(ctx):
    m = ctx.choice('decay', ['B0->D*', 'B+->rho', 'B+->omega'])
    B, V = VLNU[m]
    l = ctx.choice('lepton', ['mu', 'tau', 'l'])
    var = ctx.choice('angle', ['cl', 'cV', 'phi'])
    d = setup_lnu(ctx, bvlnu, B, V, KEYS_V)
    w = 3.1 if var == 'phi' else 1.
    x, y = ctx.real('x ' + var, -w, w), ctx.real('y ' + var, -w, w)
    got = call('dBR/d%s(%s%snu)' % (var, m, l), **{var: x})
    ctx.check_eq('differential', got, brs(d, ctx, B, V, l, 'all', lambda J: marginal(var, J, x)), scale=TAU[B])
    got = call('<BR>/<%s>(%s%snu)' % (var, m, l), **{var + 'min': x, var + 'max': y})
    ctx.check_eq('binned', got, brs(d, ctx, B, V, l, 'all', lambda J: primitive(var, J, y) - primitive(var, J, x)), scale=TAU[B])


@harness(name='B->Vlnu polarisation and asymmetries', max_paths=800)
def lnu_pol(ctx):
    m = ctx.choice('decay', sorted(VLNU))
    B, V = VLNU[m]
    l = ctx.choice('lepton', ['e', 'mu', 'tau', 'l'])
    obs = ctx.choice('observable', ['FL', '<FL>', 'FLtot', 'FLttot', 'AFBtot', 'I3tot'])
    d = setup_lnu(ctx, bvlnu, B, V, KEYS_V)
    num = {'FLttot': lambda J: -J['2c'], 'AFBtot': lambda J: 3 / 8 * (2 * J['6s'] + J['6c']), 'I3tot': lambda J: J[3]}.get(obs, long_)
    x, kw = 'all', {}
    if obs == 'FL':
        x = q2_region(ctx, 'q2', 0.001, 30, [(M[B] - M[V]) ** 2] + [M[k] ** 2 for k in leptons(l)])
        kw = dict(q2=x)
    elif obs == '<FL>':
        x = ctx.choice('bin', LNU_BINS)
        kw = dict(q2min=x[0], q2max=x[1])
    got = call('%s(%s%snu)' % (obs, m, l), **kw)
    n, den = brs(d, ctx, B, V, l, x, num), brs(d, ctx, B, V, l, x, dG)
    if isinstance(den, float) and den == 0:
        return ctx.check_eq('outside', got, 0., scale=1.)
    ctx.check_eq('value', got, n / den, scale=1.)


# B -> P l l

PLL = {'B0->K': ('B0', 'K0'), 'B+->K': ('B+', 'K+'), 'B0->pi': ('B0', 'pi0'), 'B+->pi': ('B+', 'pi+')}


def setup_bpll(ctx, B, P):
    d = Dist(ctx, KEYS_P)
    ctx.patch(bpll, 'helicity_amps', lambda q2, wc, par, B, P, lep: tagged((B, P, lep, lep, '')))
    ctx.patch(bpll, 'helicity_amps_bar', lambda q2, wc, par, B, P, lep: tagged((B, P, lep, lep, 'bar')))
    patch_angular(ctx, d, masses_of)
    integrator(ctx, thresholds(M[B], M[P], [(l, l) for l in NUS]))
    return d


P_OBS = {'ACP': scaled(1, lambda J, Jb: dGp(J) - dGp(Jb), lambda J, Jb: dGp(J) + dGp(Jb)),
         'AFB': scaled(1, lambda J, Jb: J['b'] + Jb['b'], lambda J, Jb: dGp(J) + dGp(Jb)),
         'FH': scaled(2, lambda J, Jb: J['a'] + J['c'] + Jb['a'] + Jb['c'], lambda J, Jb: dGp(J) + dGp(Jb))}


def pair(d, B, P, l, x, h=True):
    """coefficients of the decay and its conjugate, None outside of phase space"""
    lo, hi = 4 * M[l] ** 2, (M[B] - M[P]) ** 2
    if x == 'all':
        x = (lo, hi)
    if isinstance(x, tuple):
        a, b = max(x[0], lo), min(x[1], hi)
        return [d.int((B, P, l, l, k), a, b) for k in ('', 'bar')] if a < b else None
    return [d.at((B, P, l, l, k), x) for k in ('', 'bar')] if bool(x > lo) and bool(x < hi) else None


@harness(name='B->Pll', max_paths=1500, time=120)
def bpll_obs(ctx):
    m = ctx.choice('decay', sorted(PLL))
    B, P = PLL[m]
    l = ctx.choice('lepton', ['e', 'mu', 'tau'])
    name = ctx.choice('observable', sorted(P_OBS) + ['dBR/dq2'])
    d = setup_bpll(ctx, B, P)
    binned = ctx.choice('kind', ['diff', 'bin']) == 'bin'
    if binned:
        x = ctx.choice('bin', [(1.1, 6.), (0.01, 0.5), (10., 30.), (0.05, 28.), (28., 30.)])
        kw = dict(q2min=x[0], q2max=x[1])
    else:
        x = q2_region(ctx, 'q2', 0.001, 30, [4 * M[l] ** 2, (M[B] - M[P]) ** 2])
        kw = dict(q2=x)
    got = call(('<%s>' if binned else '%s') % name + '(%s%s%s)' % (m, l, l), **kw)
    J = pair(d, B, P, l, x)
    if J is None:
        return ctx.check_eq('zero outside of phase space', got, 0., scale=1.)
    if name == 'dBR/dq2':
        want = TAU[B] * ISO.get(P, 1) * (dGp(J[0]) + dGp(J[1])) / 2
        return ctx.check_eq(name, got, want / (x[1] - x[0]) if binned else want, scale=TAU[B])
    n, den = P_OBS[name](*J)
    ctx.check_eq(name, got, n / den, scale=1.)


@harness(name='B->Pll totals and ratios', max_paths=300)
def bpll_more(ctx):
    m = ctx.choice('decay', sorted(PLL))
    B, P = PLL[m]
    d = setup_bpll(ctx, B, P)
    rate2 = lambda J: dGp(J[0]) + dGp(J[1])
    what = ctx.choice('what', ['BR', 'Rmue', 'Rtaumu', '<Rmue>', '<Rtaumu>'] + (['BR_Belle'] if m == 'B+->pi' else []))
    if 'BR' in what:
        l = 'e' if what == 'BR_Belle' else 'tau'
        return ctx.check_eq(what, call('%s(%s%s%s)' % (what, m, l, l)), TAU[B] * ISO.get(P, 1) * rate2(pair(d, B, P, l, 'all')) / 2, scale=TAU[B])
    l1, l2 = ('tau', 'mu') if 'tau' in what else ('mu', 'e')
    if '<' in what:
        x = ctx.choice('bin', [(1.1, 6.), (0.03, 0.5), (14., 30.), (28., 30.)])
        kw = dict(q2min=x[0], q2max=x[1])
    else:
        x = q2_region(ctx, 'q2', 0.001, 30, [4 * M[l1] ** 2, 4 * M[l2] ** 2, (M[B] - M[P]) ** 2])
        kw = dict(q2=x)
    got = call('%s(%sll)' % (what, m), **kw)
    J1, J2 = pair(d, B, P, l1, x), pair(d, B, P, l2, x)
    ctx.check_eq(what, got, 0. if J1 is None else rate2(J1) / rate2(J2), scale=1.)


# lepton flavour violation

LFV = [('e', 'mu'), ('mu', 'e'), ('e', 'tau'), ('tau', 'e'), ('mu', 'tau'), ('tau', 'mu')]
VLFV = {'B0->K*': ('B0', 'K*0'), 'B+->K*': ('B+', 'K*+'), 'B+->rho': ('B+', 'rho+'), 'B0->rho': ('B0', 'rho0'), 'Bs->phi': ('Bs', 'phi')}


class FakeWC(flavio.WilsonCoefficients):
    """Wilson coefficients of the LFV transitions: vanishing for the listed flavours"""

    def __init__(self, zero=()):
        self.zero = zero

    def get_wc(self, sector, scale, par, *a, **k):
        return {'C9_' + sector: 0. if sector[2:] in self.zero else 1., 'C10_' + sector: 0.}


def lfv(ctx, mod, decs, keys, f, comb):
    m = ctx.choice('decay', sorted(decs))
    B, X = decs[m]
    d = Dist(ctx, keys)
    ctx.patch(mod, 'helicity_amps', lambda q2, wc, par, B, X, l1, l2: tagged((B, X, l1, l2)))
    patch_angular(ctx, d, masses_of)
    integrator(ctx, thresholds(M[B], M[X], LFV))
    ll = ctx.choice('leptons', LFV)
    zero = ctx.choice('zero', [(), (''.join(ll),), (''.join(ll[::-1]),)])
    hi = (M[B] - M[X]) ** 2
    lo = (M[ll[0]] + M[ll[1]]) ** 2

    def br(l):
        return 0. if ''.join(l) in zero else TAU[B] * ISO.get(X, 1) * f(d.int((B, X) + tuple(l), lo, hi))

    def pred(name):
        return Observable[name].prediction_par(dict(PAR), FakeWC(zero))
    ctx.check_eq('BR', pred('BR(%s%s%s)' % ((m,) + ll)), br(ll), scale=TAU[B])
    if comb and ll in LFV[::2]:
        ctx.check_eq('charge sum', pred('BR(%s%s%s,%s%s)' % (m, ll[0], ll[1], ll[1], ll[0])), br(ll) + br(ll[::-1]), scale=TAU[B])


add_harness(__name__, lambda ctx: lfv(ctx, bplfv, PLL, KEYS_P, dGp, True), 'LFV B->P', max_paths=300)
add_harness(__name__, lambda ctx: lfv(ctx, bvlfv, VLFV, KEYS_V, dG, False), 'LFV B->V', max_paths=300)


# B -> P nu nu, B -> V nu nu

VNUNU = {k: VLFV[k] for k in ('B0->K*', 'B+->K*', 'B+->rho', 'B0->rho')}


def nunu(ctx, mod, decs, keys, f):
    m = ctx.choice('decay', sorted(decs))
    B, X = decs[m]
    d = Dist(ctx, keys, pole=False)
    ctx.patch(mod, 'helicity_amps', lambda q2, wc, par, B, X, n1, n2: tagged((B, X, n1, n2)))
    patch_angular(ctx, d, masses_of)
    hi = (M[B] - M[X]) ** 2
    integrator(ctx, [hi], pole=False)
    obs = ctx.choice('observable', ['dBR/dq2', '<dBR/dq2>', 'BR'] + (['FL', '<FL>'] if 'K*' in m else []))
    kw, width = {}, 1.
    if '<' in obs:
        x = ctx.choice('bin', [(1., 6.), (0., 30.), (14., 40.), (30., 31.)])
        kw, width = dict(q2min=x[0], q2max=x[1]), x[1] - x[0]
        x = (x[0], min(x[1], hi)) if x[0] < hi else None
    elif obs == 'BR':
        x = (0., hi)
    else:
        x = q2_region(ctx, 'q2', -1, 40, [0, hi])
        kw = dict(q2=x)
        if not (bool(x > 0) and bool(x < hi)):
            x = None
    got = call('%s(%snunu)' % (obs, m), **kw)
    if x is None:
        return ctx.check_eq('zero outside of phase space', got, 0., scale=1.)
    tags = [(B, X, 'nu' + a, 'nu' + b) for a in NUS for b in NUS]
    Js = [d.int(t, *x) if isinstance(x, tuple) else d.at(t, x) for t in tags]
    tot = sum(f(J) for J in Js)
    if 'FL' in obs:
        return ctx.check_eq(obs, got, -sum(J['2c'] for J in Js) / tot, scale=1.)
    ctx.check_eq(obs, got, TAU[B] * ISO.get(X, 1) * tot / width, scale=TAU[B])


add_harness(__name__, lambda ctx: nunu(ctx, bpnunu, PLL, KEYS_P, dGp), 'B->Pnunu', max_paths=200)
add_harness(__name__, lambda ctx: nunu(ctx, bvnunu, VNUNU, KEYS_V, dG), 'B->Vnunu', max_paths=200)
