"""CKM matrix: unitarity, meaning of the parameters of each parametrization, angles, products of elements."""
import numpy as np
import flavio
import flavio.physics.ckm as ckm
import ckmutil.ckm
from flavio.physics.common import conjugate_par
from engine.run import harness, add_harness
from engine.num import sqrt, pi, abs2, conj, phase, cos, sin, cplx
from engine.phys import patch_ckm

EXPLANATION = (
    'The CKM matrix of the parametrizations is executed with symbolic parameters. Unitarity, the phase convention and the relations that define the parameters (angles of the standard parametrization, measured elements and '
    'gamma, rhobar and etabar as apex of the unitarity triangle) are decided, and that complex conjugation of the matrix is what CP conjugation of the parameters does. '
    'The functions returning the angles of the unitarity triangle and products of elements are executed on a matrix of symbols.')
BOUNDS = 'mixing angles and CKM parameters in wide ranges around the measured ones; gamma in both half planes and all quadrants, in slices away from the singular points of the parametrization by angles; in the parametrization by beta and gamma, the solution of a cubic equation by the library ckmutil is replaced by symbolic angles, and a phase up to a multiple of pi, and not verified'
ASSUMPTIONS = ['floats treated as reals']


def setup(ctx, name):
    ctx.patch(flavio.config['implementation'], 'CKM matrix', name)
    for f in (ckm.ckm_standard, ckm.ckm_tree, ckm.ckm_wolfenstein, ckm.ckm_beta_gamma):
        if hasattr(f, 'cache_clear'):
            f.cache_clear()


def unitary(ctx, V, n=''):
    for i in range(3):
        for j in range(i, 3):
            s = sum(V[i, k] * conj(V[j, k]) for k in range(3))
            ctx.check_eq('%srow %d times row %d' % (n, i, j), s, 1. if i == j else 0., scale=1.)
    # phase convention
    for i, j in ((0, 0), (0, 1), (1, 2), (2, 2)):
        ctx.check_eq('%selement %d %d real' % (n, i, j), V[i, j].imag + 0., 0., scale=1.)
        ctx.check('%selement %d %d positive' % (n, i, j), V[i, j].real > 0)


GAMMAS = [(0.2, 1.3), (1.9, 2.9), (-1.3, -0.2), (-2.9, -1.9)]


def gamma(ctx):
    r = ctx.choice('quadrant', GAMMAS)
    return ctx.real('gamma %.1f' % r[0], *r)


def conjugated(ctx, par, V):
    for f in (ckm.ckm_standard, ckm.ckm_tree, ckm.ckm_wolfenstein, ckm.ckm_beta_gamma):
        if hasattr(f, 'cache_clear'):
            f.cache_clear()
    W = ckm.get_ckm(conjugate_par(par))
    for i in range(3):
        for j in range(3):
            ctx.check_eq('conjugate %d %d' % (i, j), W[i, j], conj(V[i, j]), scale=1.)


@harness(name='Standard')
def standard(ctx):
    setup(ctx, 'Standard')
    t = {k: ctx.real(k, 0.01, 0.6) for k in ('t12', 't13', 't23')}
    d = ctx.real('delta', -3.1, 3.1)
    par = dict(t, delta=d)
    V = ckm.get_ckm(par)
    unitary(ctx, V)
    ctx.check_eq('theta13', V[0, 2], sin(t['t13']) * cplx(cos(d), -sin(d)), scale=1.)
    ctx.check_eq('theta12', V[0, 1].real * cos(t['t12']), V[0, 0].real * sin(t['t12']), scale=1.)
    ctx.check_eq('theta23', V[1, 2].real * cos(t['t23']), V[2, 2].real * sin(t['t23']), scale=1.)
    conjugated(ctx, par, V)


@harness(name='Tree')
def tree(ctx):
    setup(ctx, 'Tree')
    g = gamma(ctx)
    par = {'Vus': ctx.real('Vus', .1, .3), 'Vub': ctx.real('Vub', 1e-3, 1e-2), 'Vcb': ctx.real('Vcb', .02, .06), 'gamma': g}
    V = ckm.get_ckm(par)
    unitary(ctx, V)
    ctx.check_eq('Vus', V[0, 1], par['Vus'])
    ctx.check_eq('Vcb', V[1, 2], par['Vcb'])
    ctx.check_eq('Vub', abs2(V[0, 2]), par['Vub'] ** 2)
    angle_gamma(ctx, V, g)
    conjugated(ctx, par, V)


def angle_gamma(ctx, V, g):
    """gamma = arg(- V_ud V_ub* / V_cd V_cb*)"""
    z = -V[0, 0] * conj(V[0, 2]) * conj(V[1, 0]) * V[1, 2] * 1e4
    ctx.check_eq('gamma', z.imag * cos(g), z.real * sin(g), scale=1.)
    ctx.check('quadrant of gamma', z.real * cos(g) > 0)


@harness(name='Wolfenstein')
def wolfenstein(ctx):
    setup(ctx, 'Wolfenstein')
    par = {'laC': ctx.real('laC', .1, .3), 'A': ctx.real('A', .5, 1.)}
    for n in ('rhobar', 'etabar'):
        r = ctx.choice('sign of ' + n, [(.05, .5), (-.5, -.05)])
        par[n] = ctx.real('%s %.2f' % (n, r[0]), *r)
    V = ckm.get_ckm(par)
    unitary(ctx, V)
    l2 = par['laC'] ** 2
    ctx.check_eq('lambda', abs2(V[0, 1]) * (1 - l2), abs2(V[0, 0]) * l2)
    ctx.check_eq('A', V[1, 2].real, par['A'] * par['laC'] * V[0, 1].real)
    apex(ctx, V, par['rhobar'], par['etabar'])
    conjugated(ctx, par, V)


@harness(name='beta gamma')
def beta_gamma(ctx):
    setup(ctx, 'beta gamma')
    branch = ctx.choice('branch of the arctangent', [0, 1])
    r = ctx.choice('quadrant', GAMMAS)
    par = {'Vus': ctx.real('Vus', .1, .3), 'Vcb': ctx.real('Vcb', .02, .06), 'beta': ctx.real('beta', .1, .6),
           'gamma': ctx.real('gamma %.1f' % r[0], *r)}
    eps = ctx.real('delta - gamma', -.01, .01)
    t = [ctx.real(k, 0.01, 0.6) for k in ('t12', 't13', 't23')]
    d = par['gamma'] + eps
    sign = []

    # the cubic equation for theta13 is solved by the library ckmutil; the phase comes from an arctangent
    def solve(Vus, Vcb, beta, gamma, delta_expansion_order=None):
        s = 1 if len(sign) == 0 else -1
        sign.append(s)
        for n, a in (('Vus', Vus), ('Vcb', Vcb), ('beta', beta * s), ('gamma', gamma * s)):
            ctx.check_eq('argument %s of the conversion' % n, a, par[n], scale=1.)
        return t[0], t[1], t[2], s * (d - branch * np.pi)
    ctx.patch(ckmutil.ckm, 'beta_gamma_to_standard', solve)
    V = ckm.get_ckm(par)
    unitary(ctx, V)
    ctx.check_eq('theta13', V[0, 2], sin(t[1]) * cplx(cos(d), -sin(d)), scale=1.)
    ctx.check_eq('theta12', V[0, 1].real * cos(t[0]), V[0, 0].real * sin(t[0]), scale=1.)
    ctx.check_eq('theta23', V[1, 2].real * cos(t[2]), V[2, 2].real * sin(t[2]), scale=1.)
    conjugated(ctx, par, V)


def apex(ctx, V, rho, eta):
    # rhobar + i etabar = - V_ud V_ub* / (V_cd V_cb*)
    ctx.check_eq('apex', -V[0, 0] * conj(V[0, 2]) * 100, cplx(rho, eta) * V[1, 0] * conj(V[1, 2]) * 100, scale=1.)


@harness(name='angles')
def angles(ctx):
    n = ctx.choice('angle', ['alpha', 'beta', 'gamma'])
    V = patch_ckm(ctx)

    def t(q):
        return V.q(q + 'd') * conj(V.q(q + 'b'))
    x = {'alpha': ckm.get_ckmangle_alpha, 'beta': ckm.get_ckmangle_beta, 'gamma': ckm.get_ckmangle_gamma}[n]({})
    num, den = {'alpha': 'tu', 'beta': 'ct', 'gamma': 'uc'}[n]
    # a number with the phase of the ratio
    z = -t(num) * conj(t(den))
    ctx.check_eq('phase', sin(x) * z.real, cos(x) * z.imag, scale=1.)


@harness(name='quadrants of angles')
def quadrants(ctx):
    n = ctx.choice('angle', ['alpha', 'beta', 'gamma'])
    num, den = {'alpha': 'tu', 'beta': 'ct', 'gamma': 'uc'}[n]
    lo, hi = ctx.choice('range', [(-3., -1.7), (-1.4, -0.1), (.1, 1.4), (1.7, 3.)])
    d = ctx.real('phase %.1f' % lo, lo, hi)
    V = {(i, j): np.complex128(0.5) for i in range(3) for j in range(3)}
    V['uct'.index(num), 0] = -cplx(cos(d), sin(d))
    f = {'alpha': ckm.get_ckmangle_alpha, 'beta': ckm.get_ckmangle_beta, 'gamma': ckm.get_ckmangle_gamma}[n]
    ctx.patch(ckm, 'get_ckm', lambda par: V)
    x = f({})
    ctx.check('quadrant', bool(cos(x) * cos(d) > 0) and bool(sin(x) * sin(d) > 0))


@harness(name='products')
def products(ctx):
    V = patch_ckm(ctx)
    U, D = 'uct', 'dsb'
    for a in U:
        for b in D:
            for c in D:
                ctx.check_eq('xi %s %s%s' % (a, b, c), ckm.xi(a, b + c)({}), V.q(a + b) * conj(V.q(a + c)))
    for a in D:
        for b in U:
            for c in U:
                ctx.check_eq('xi %s %s%s' % (a, b, c), ckm.xi(a, b + c)({}), V.q(b + a) * conj(V.q(c + a)))
    ctx.check_eq('elements', ckm.xi_kl_ij({}, 0, 2, 1, 0), V.q('us') * conj(V.q('td')))
