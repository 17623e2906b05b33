"""Running couplings and quark masses solve their evolution across flavour thresholds."""
import inspect
import math
import numpy as np
import rundec
import flavio
import flavio.physics.running.running as running
import flavio.physics.running.masses as masses
import flavio.physics.running.betafunctions as betafunctions
from flavio.config import config
from engine.run import harness
from engine.symnp import SymArray
from engine.num import log, pi, sqrt
from engine.phys import Par, CENTRAL

EXPLANATION = (
    'The functions for running couplings, quark masses in several schemes, decay constants and the generic evolution are executed with symbolic scales, initial values, threshold scales and strong coupling, the numerical integrator and the compiled mass conversions being replaced by arbitrary functions. '
    'The reference composes one step per region between thresholds; couplings are compared with the solution of the evolution equation, the kinetic mass with its definition in terms of the pole mass to second order and its third order limit.')
BOUNDS = 'scales from 0.2 to 400 GeV around thresholds of arbitrary position; couplings between 0.05 and 0.5'
ASSUMPTIONS = ['floats treated as reals', 'solutions of the integrator and mass conversions of the rundec package are arbitrary functions of their arguments', 'the fixed number of flavours is not below the one of the initial scale when running up']


def thresholds(ctx):
    """symbolic thresholds of charm, bottom and top"""
    t = {'mc': ctx.real('mc', 1., 1.6), 'mb': ctx.real('mb', 4., 5.), 'mt': ctx.real('mt', 150., 180.)}
    for k, v in t.items():
        ctx.patch(running, 'config', {**config, 'RGE thresholds': t, 'settings': config['settings']})
    return t


def region(ctx, t, mu, name):
    """number of flavours at a scale, splitting into cases"""
    n = ctx.choice('flavours at ' + name, [3, 4, 5, 6])
    lo = {3: None, 4: t['mc'], 5: t['mb'], 6: t['mt']}[n]
    hi = {3: t['mc'], 4: t['mb'], 5: t['mt'], 6: None}[n]
    if lo is not None:
        ctx.assume(mu >= lo)
    if hi is not None:
        ctx.assume(mu < hi)
    return n


@harness(name='number of flavours', max_paths=60)
def nf(ctx):
    t = thresholds(ctx)
    mu = ctx.real('mu', 0.2, 400)
    n = region(ctx, t, mu, 'mu')
    ctx.check_eq('number', running.get_nf(mu), n, scale=1.)


def alpha_ref(inverse, L, quarks, leptons):
    """inverse of the solution of d alpha / d log mu = 2/(3 pi) sum Nc Q^2 alpha^2"""
    q2 = 3 * (4 / 9 * quarks[0] + 1 / 9 * quarks[1]) + leptons
    return inverse - 2 / (3 * pi) * q2 * L


CONTENT = {3: ((1, 2), 2), 4: ((2, 2), 3), 5: ((2, 3), 3), 6: ((3, 3), 3)}


@harness(name='fine structure constant', max_paths=100, time=100)
def alpha_e(ctx):
    t = thresholds(ctx)
    ctx.uncache(running)
    mu = ctx.real('mu', 0.2, 400)
    n = region(ctx, t, mu, 'mu')
    par = {'alpha_e': ctx.real('alpha_e', 0.007, 0.009)}
    fixed = ctx.choice('fixed', [None, 3, 4, 5, 6])
    f = fixed or n
    # beyond a threshold: starting from the solution at the threshold, which is checked as another case
    edge, neighbour = {5: (91.1876, None), 6: (t['mt'], 5), 4: (t['mb'], 5), 3: (t['mc'], 4)}[f]
    start = 1 / (running.get_alpha_e(par, edge, nf_out=neighbour) if neighbour else par['alpha_e'])
    want = start if mu == edge else alpha_ref(start, log(mu / edge), *CONTENT[f])
    ctx.check_eq('alpha', 1 / running.get_alpha_e(par, mu, nf_out=fixed), want, scale=1.)
    if fixed is None:
        both = running.get_alpha({**par, 'alpha_s': 0.118}, 91.1876)
        ctx.check_eq('input', both['alpha_e'], par['alpha_e'], scale=1.)


@harness(name='strong interactions', max_paths=100)
def qcd(ctx):
    """arguments of the external functions; schemes of heavy quark masses"""
    t = thresholds(ctx)
    mu = ctx.real('mu', 0.2, 400)
    fixed = ctx.choice('fixed', [None, 3, 4, 5])
    f = fixed or region(ctx, t, mu, 'mu')
    par = {k: ctx.real(k, CENTRAL[k] * 0.9, CENTRAL[k] * 1.1) for k in ('alpha_s', 'm_b', 'm_c', 'm_s', 'm_d', 'm_u')}
    for name, arg in (('alpha_s', None), ('m_b', 'mbmb'), ('m_c', 'mcmc'), ('m_s', 'ms2')):
        fn = ctx.ufun(name, 0.001, 5.)
        sig = inspect.signature(getattr(running.qcd, name))

        def external(*a, fn=fn, arg=arg, sig=sig, **k):
            k = sig.bind(*a, **k)
            k.apply_defaults()
            k = k.arguments
            return fn(k[arg] if arg else 0., k['scale'], k['f'], k['alphasMZ'])
        ctx.patch(running.qcd, name, external)
    for q, fn in (('b', 'm_b'), ('c', 'm_c'), ('s', 'm_s'), ('d', 'm_s'), ('u', 'm_s')):
        want = ctx.ufun(fn, 0.001, 5.)(par['m_' + q], mu, f, par['alpha_s'])
        ctx.check_eq('m' + q, getattr(running, 'get_m' + q)(par, mu, nf_out=fixed), want, scale=1.)
        ctx.check_eq('mq ' + q, running.get_mq(q, par, mu, nf_out=fixed), want, scale=1.)
    par['alpha_e'] = 1 / 128.
    ctx.check_eq('alpha_s', running.get_alpha(par, mu, nf_out=fixed)['alpha_s'], ctx.ufun('alpha_s', 0.001, 5.)(0., mu, f, par['alpha_s']), scale=1.)


@harness(name='schemes', max_paths=60)
def schemes(ctx):
    class Conv:
        def __getattr__(self, n):
            f = ctx.ufun(n, 0.5, 300.)
            return lambda m, light, a, mu, nf, loops=0: f(m, a, mu, nf, loops) if light is None else None

        def mOS2mSI(self, m, light, a, nf, loops):
            return ctx.ufun('mOS2mSI', 0.5, 300.)(m, a, nf, loops)
    ctx.patch(rundec, 'CRunDec', Conv)
    ctx.uncache(running)
    als = ctx.ufun('alpha_s', 0.1, 0.4)
    ctx.patch(running, 'get_alpha_s', lambda par, scale, nf_out=None: als(scale))
    ctx.patch(running, 'get_alpha', lambda par, scale, nf_out=None: {'alpha_s': als(scale)})
    kin = ctx.ufun('kin', 0.5, 6.)
    ctx.patch(masses, 'mMS2mKS', lambda MS, Nf, asM, Mu, nl: kin(MS, Nf, asM, Mu, nl))
    par = {k: ctx.real(k, CENTRAL[k] * 0.9, CENTRAL[k] * 1.1) for k in ('m_b', 'm_c', 'm_t')}
    mu, nl = ctx.real('mu', 0.5, 3.), ctx.choice('loops', [1, 2, 3])
    F = lambda n: ctx.ufun(n, 0.5, 300.)
    mc, mb, mt = par['m_c'], par['m_b'], par['m_t']
    # pole and 1S masses with the number of flavours including the heavy one, at the scale of the mass
    ctx.check_eq('mc pole', running.get_mc_pole(par, nl=nl), F('mMS2mOS')(mc, als(mc), mc, 4, nl), scale=1.)
    ctx.check_eq('mb pole', running.get_mb_pole(par, nl=nl), F('mMS2mOS')(mb, als(mb), mb, 5, nl), scale=1.)
    ctx.check_eq('mc pole default', running.get_mc_pole(par), F('mMS2mOS')(mc, als(mc), mc, 4, 2), scale=1.)
    ctx.check_eq('mb 1S', running.get_mb_1S(par, nl=nl), F('mMS2m1S')(mb, als(mb), mb, 5, nl), scale=1.)
    ctx.check_eq('mt', running.get_mt(par, mu * 100), F('mOS2mMS')(mt, als(mu * 100), mu * 100, 6, 3), scale=1.)
    ctx.check_eq('mt(mt)', running.get_mt_mt(par), F('mOS2mSI')(mt, als(mt), 6, 3), scale=1.)
    # kinetic masses: light flavours
    ctx.check_eq('mb kinetic', running.get_mb_KS(par, mu), kin(mb, 4, als(mb), mu, 3), scale=1.)
    ctx.check_eq('mc kinetic', running.get_mc_KS(par, mu), kin(mc, 3, als(mc), mu, 3), scale=1.)


Z3 = 1.2020569031595942


def kinetic(mu, M, nf):
    """MSbar mass over kinetic mass to second order: the pole mass is M + Lambda + mu_pi^2/(2 M) (perturbative quantities, arXiv:hep-ph/9708372),
    and its ratio to the MSbar mass 1 + 4/3 a + K a^2"""
    b0 = 11 - 2 * nf / 3
    l = log(2 * mu / M)
    lam1 = 16 / 9 * mu / M
    lam2 = lam1 * ((4 / 3 - l / 2) * b0 - 3 * (pi ** 2 / 6 - 13 / 12))
    pi1 = 2 / 3 * (mu / M) ** 2
    pi2 = pi1 * ((13 / 12 - l / 2) * b0 - 3 * (pi ** 2 / 6 - 13 / 12))
    # two-loop relation of pole and MSbar masses at the scale of the MSbar mass, massless light flavours
    K = 307 / 32 + pi ** 2 / 3 + pi ** 2 / 9 * math.log(2) - Z3 / 6 - nf * (71 / 144 + pi ** 2 / 18)
    return lam1, lam2, pi1, pi2, K


@harness(name='kinetic mass', time=100)
def kin(ctx):
    mu, M = ctx.real('mu', 0.5, 2.), ctx.real('M', 4., 5.)
    n = ctx.choice('flavours', [3, 4, 5])
    lam1, lam2, pi1, pi2, K = kinetic(mu, M, n)
    f1, f2, f3 = masses.fKsFromMs1(mu, M, n), masses.fKsFromMs2(mu, M, n), masses.fKsFromMs3(mu, M, n)
    ctx.check_eq('first order', f1, lam1 + pi1 - 4 / 3, scale=1.)
    ctx.check_eq('second order', f2, lam2 + pi2 - 4 / 3 * (lam1 + pi1) + 16 / 9 - K, scale=1.)
    # third order in the limit of many flavours (b0/2 n-th power): pole mass and second order of Lambda and mu_pi^2
    l = log(M / (2 * mu))
    blm = (2353 / 2592 + 13 / 36 * pi ** 2 + 7 / 6 * Z3 - 16 / 9 * mu / M * ((l + 8 / 3) ** 2 + 67 / 36 - pi ** 2 / 6) - 2 / 3 * (mu / M) ** 2 * ((l + 13 / 6) ** 2 + 10 / 9 - pi ** 2 / 6))
    ctx.check_eq('third order', f3, -((11 - 2 * n / 3) / 2) ** 2 * blm, scale=1.)


@harness(name='kinetic conversion', time=100)
def kinconv(ctx):
    f = [None] + [ctx.ufun('f%d' % i, -2., 2.) for i in (1, 2, 3)]
    for i in (1, 2, 3):
        ctx.patch(masses, 'fKsFromMs%d' % i, lambda mu, M, nf, i=i: f[i](mu, M, nf))
    m, mu, als = ctx.real('m', 1., 5.), ctx.real('mu', 0.5, 2.), ctx.real('alpha_s', 0.1, 0.4)
    nf, nl = ctx.choice('flavours', [3, 4]), ctx.choice('orders', [1, 2, 3])
    a = als / pi

    def inverse(M):
        g = [f[i](mu, M, nf) for i in range(1, 4)]
        # inverse series, third order in the limit of many flavours
        terms = [-a * g[0], a ** 2 * (g[0] ** 2 - g[1]), -a ** 3 * g[2]]
        return 1 + sum(terms[:nl])
    ctx.check_eq('to MSbar', masses.mKS2mMS(m, nf, als, mu, nl), m * (1 + sum(a ** i * f[i](mu, m, nf) for i in range(1, nl + 1))), scale=1.)
    x = m
    for i in range(3):
        x = m * inverse(x)
    ctx.check_eq('to kinetic', masses.mMS2mKS(m, nf, als, mu, nl), x, scale=1.)


@harness(name='evolution', max_paths=400, time=200)
def evolution(ctx):
    """steps between thresholds, in any direction"""
    t = thresholds(ctx)
    ctx.uncache(running)
    U = ctx.ufun('evolve', -2., 2.)
    ctx.patch(running, 'rg_evolve', lambda x, d, a, b: [U(x[0], d, a, b)])
    a, b = ctx.real('from', 0.2, 400), ctx.real('to', 0.2, 400)
    na, nb = region(ctx, t, a, 'initial scale'), region(ctx, t, b, 'final scale')
    x = ctx.real('x', -2., 2.)
    edges = {4: t['mc'], 5: t['mb'], 6: t['mt']}
    down = ctx.choice('direction', ['down', 'up', 'none'])
    if down == 'none':
        got = running.rg_evolve_sm([x], lambda n: n, a, a)
        ctx.check_eq('no running', got[0], x, scale=1.)
        return
    fixed = ctx.choice('fixed number of flavours', [None, 3, 4, 5]) if down == 'down' else None
    # away from the thresholds, where both sides agree
    for s in (a, b):
        for e in edges.values():
            ctx.assume(abs(s - e) >= 1e-3)
    want, here = x, a
    if down == 'down':
        if nb > na:
            return
        ctx.assume(a > b)
        if fixed is not None and (fixed > na or fixed < nb):
            return
        last = nb if fixed is None else fixed
        for n in range(na, last - 1, -1):
            to = b if n == last else edges[n]
            want, here = U(want, n, here, to), to
    else:
        if nb < na:
            return
        ctx.assume(a < b)
        for n in range(na, nb + 1):
            to = b if n == nb else edges[n + 1]
            want, here = U(want, n, here, to), to
    got = running.rg_evolve_sm([x], lambda n: n, a, b, nf_out=fixed)
    ctx.check_eq('result', got[0], want, scale=1.)


@harness(name='Wilson coefficient evolution', time=60)
def wilson_evolution(ctx):
    """right-hand side d C/d mu = gamma^T C/mu together with the couplings; complex initial values"""
    mu, als, ale = ctx.real('mu', 1., 100.), ctx.real('als', 0.05, 0.5), ctx.real('ale', 0.007, 0.009)
    b = betafunctions.beta_qcd_qed([als, ale], mu, 5)
    x, y = als / (4 * pi), ale / (4 * pi)
    # five flavours: mu d alpha/d mu = -2 alpha^2/(4 pi) (beta0 + beta1 alpha_s/(4 pi) + ...), electric charges of five quarks and three leptons
    ctx.check_eq('beta_s', b[0] * mu, -2 * als * x * (23 / 3 + 116 / 3 * x + (1428.5 - 5033 * 5 / 18 + 325 * 25 / 54) * x ** 2 - 22 / 9 * y - 308 / 27 * x * y + 4945 / 243 * y ** 2), scale=1.)
    ctx.check_eq('beta_e', b[1] * mu, 2 * ale * y * (80 / 9 + 464 / 27 * y + 176 / 9 * x), scale=1e-3)
    z = [ctx.complex('c%d' % k, 2.) for k in range(2)]
    M = [[ctx.ufun('gamma%d%d' % (k, l), -5., 5.) for l in range(2)] for k in range(2)]
    f = ctx.choice('flavours', [3, 4, 5])
    beta = [ctx.ufun('beta_s', -1., 1.), ctx.ufun('beta_e', -1., 1.)]
    ctx.patch(betafunctions, 'beta_qcd_qed', lambda a, m, n: [g(a[0], a[1], m, n) for g in beta])
    d = running.make_wilson_rge_derivative(lambda n, s, e: np.array([[g(n, s, e) for g in row] for row in M]))(f)
    r = d(array(ctx, [z[0].real, z[0].imag, z[1].real, z[1].imag, als, ale]), mu)
    for k in range(2):
        want = sum(M[l][k](f, als, ale) * z[l] for l in range(2)) / mu
        ctx.check_eq('derivative %d real' % k, r[2 * k], want.real, scale=1.)
        ctx.check_eq('derivative %d imaginary' % k, r[2 * k + 1], want.imag, scale=1.)
    for k in range(2):
        ctx.check_eq('derivative coupling %d' % k, r[4 + k], beta[k](als, ale, mu, f), scale=1.)


@harness(name='Wilson coefficient solution', time=60)
def wilson_solution(ctx):
    """complex coefficients and both couplings at the initial scale are evolved together"""
    U = [ctx.ufun('U%d' % k, -5., 5.) for k in range(6)]
    al = {k: ctx.ufun(k, 0.005, 0.5) for k in ('alpha_s', 'alpha_e')}
    a, b = ctx.real('from', 1., 100.), ctx.real('to', 1., 100.)
    f = ctx.choice('flavours', [None, 5])
    ctx.patch(running, 'get_alpha', lambda par, s, nf_out=None: {k: v(s, nf_out or 0) for k, v in al.items()})
    ctx.patch(running, 'rg_evolve_sm', lambda x, d, i, o, nf_out=None: array(ctx, [u(*x, i, o, nf_out or 0) for u in U]))
    z = [ctx.complex('c%d' % k, 2.) for k in range(2)]
    got = running.get_wilson({}, z, None, a, b, nf_out=f)
    x = [z[0].real, z[0].imag, z[1].real, z[1].imag, al['alpha_s'](a, f or 0), al['alpha_e'](a, f or 0)]
    for k in range(2):
        ctx.check_eq('real %d' % k, got[k].real, U[2 * k](*x, a, b, f or 0), scale=1.)
        ctx.check_eq('imaginary %d' % k, got[k].imag, U[2 * k + 1](*x, a, b, f or 0), scale=1.)


def array(ctx, x):
    return np.array(x, dtype=object).view(SymArray) if ctx.symbolic else np.array(x)


@harness(name='transverse decay constants', max_paths=100, time=100)
def fperp(ctx):
    t = thresholds(ctx)
    als = ctx.ufun('alpha_s', 0.1, 0.5)
    ctx.patch(running, 'get_alpha_s', lambda par, scale, nf_out=None: als(scale, nf_out))
    mu = ctx.real('mu', 0.2, 400)
    n = region(ctx, t, mu, 'mu')
    V = ctx.choice('meson', ['rho0', 'phi', 'K*0'])
    par = {'f_perp_' + V: ctx.real('f_perp', 0.1, 0.3)}
    want, here = par['f_perp_' + V], 2.
    ctx.assume(abs(mu - 2.) >= 1e-6)
    fixed = ctx.choice('fixed', [None, 3, 4, 5])
    if fixed is not None and fixed > n:
        return
    last = fixed or n
    if last > 3:
        # the solution below the threshold, checked as another case
        here = {4: t['mc'], 5: t['mb'], 6: t['mt']}[last]
        want = running.get_f_perp(par, V, here, nf_out=last - 1)
    if mu != here:
        want = want * (als(mu, last) / als(here, last)) ** (4 / (33 - 2 * last))
    ctx.check_eq('f_perp', running.get_f_perp(par, V, mu, nf_out=fixed), want, scale=1.)
    ctx.check_eq('input', running.get_f_perp(par, V, 2.), par['f_perp_' + V], scale=1.)
