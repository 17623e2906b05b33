"""The data shown by plots are the values of the functions, predictions, measurements and likelihoods they are named after."""
import numpy as np
import flavio.plots.plotfunctions
from engine.run import harness, add_harness
from engine import num

EXPLANATION = (
    'The plotting functions are executed with recorded drawing calls and arbitrary (uninterpreted) likelihoods, prediction functions, uncertainties and densities and symbolic plot ranges, bins, measured values and errors; '
    'what reaches the drawing calls is compared with the function value at the drawn point: grid orientation, levels, bands, boxes, error bars, selections, scale factors and wedges.')
BOUNDS = 'grids with 2 or 3 steps per direction; up to 3 bins, 2 measurements, 4 error contributions'
ASSUMPTIONS = ['the drawing library is replaced by recorders of its arguments', 'interpolation between the points of an uncertainty band is not covered, only the points themselves']


class Axes:
    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
            return Handle()
        return f

    def get(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


class Handle:
    def __getattr__(self, name):
        return lambda *a, **k: [[Handle()]] if name == 'legend_elements' else None


class Pool:
    def __init__(self, n=None):
        pass

    def map(self, f, it):
        return [f(x) for x in it]

    def close(self):
        pass

    join = close


def setup(ctx):
    import flavio.plots.plotfunctions as pf
    ax = Axes()
    ctx.patch(pf.plt, 'gca', lambda *a, **k: ax)
    ctx.patch(pf, 'Pool', Pool)
    return pf, ax


def grid(ctx, label, v, lo, hi, scale):
    n = len(v)
    ctx.check_eq(label + ' first', v[0], lo, scale=1)
    ctx.check_eq(label + ' last', v[n - 1], hi, scale=1)
    for k in range(1, n - 1):
        if scale == 'log':
            ctx.check_eq(label + ' step', v[k] ** (n - 1), lo ** (n - 1 - k) * hi ** k, scale=1)
        else:
            ctx.check_eq(label + ' step', v[k] * (n - 1), lo * (n - 1 - k) + hi * k, scale=1)


@harness(name='contour data', time=90, points=2)
def contour_data(ctx):
    pf, ax = setup(ctx)
    from flavio.statistics.functions import delta_chi2
    L = ctx.ufun('loglike', -5, 0)
    xs, ys = ctx.choice('xscale', ['linear', 'log']), ctx.choice('yscale', ['linear', 'log'])
    lo, hi = ctx.real('x_min', 0.5, 1), ctx.real('x_max', 2, 5)
    lo2, hi2 = ctx.real('y_min', 0.5, 1), ctx.real('y_max', 6, 9)
    n = ctx.choice('steps', [2, 3])
    kw = ctx.choice('parallel', [{}, {'threads': 2}, {'threads': 2, 'pool': Pool()}])
    ns = ctx.choice('n_sigma', [1, 2, (1, 3)])
    d = pf.likelihood_contour_data(lambda x: L(x[0], x[1]), lo, hi, lo2, hi2, xscale=xs, yscale=ys, n_sigma=ns, steps=n, **kw)
    ctx.check('shape', np.shape(d['z']) == (n, n) and np.shape(d['x']) == (n, n))
    grid(ctx, 'x', [d['x'][0][j] for j in range(n)], lo, hi, xs)
    grid(ctx, 'y', [d['y'][i][0] for i in range(n)], lo2, hi2, ys)
    for i in range(n):
        for j in range(n):
            x, y = d['x'][0][j], d['y'][i][0]
            ctx.check_eq('grid', d['x'][i][j], x, scale=1)
            ctx.check_eq('grid', d['y'][i][j], y, scale=1)
            ctx.check_eq('z', d['z'][i][j], -2 * L(x, y), scale=1)
    want = [delta_chi2(s, dof=2) for s in (ns if isinstance(ns, tuple) else (ns,))]
    ctx.check('levels', len(want) == len(d['levels']) and all(abs(a - b) < 1e-9 for a, b in zip(want, d['levels'])))


@harness(name='contour', time=60)
def contour(ctx):
    pf, ax = setup(ctx)
    z = np.array([[ctx.real('z%d%d' % (i, j), 0, 9) for j in range(2)] for i in range(2)])
    x, y = np.meshgrid([0., 1.], [2., 3.])
    zmin = ctx.real('z_min', -5, -0.1)
    given = ctx.choice('z_min given', [True, False])
    lev = ctx.choice('levels', [[2.3], [2.3, 6.2], [1., 2., 3.]])
    fill = ctx.choice('filled', [True, False])
    pf.contour(x, y, z, lev, z_min=zmin if given else None, filled=fill)
    c = ax.get('contour')
    f = ax.get('contourf')
    ctx.check('one contour', len(c) == 1 and len(f) == (1 if fill else 0))
    m = zmin
    if not given:
        m = z[0][0]
        for i in range(2):
            for j in range(2):
                m = z[i][j] if z[i][j] < m else m
    for a, k in c + f:
        ctx.check('x, y', np.array_equal(np.asarray(a[0], float), x) and np.array_equal(np.asarray(a[1], float), y))
        for i in range(2):
            for j in range(2):
                ctx.check_eq('z', a[2][i][j], z[i][j] - m, scale=1)
    ctx.check('levels', list(c[0][1]['levels']) == lev)
    if fill:
        l = list(f[0][1]['levels'])
        ctx.check('filled levels', l[1:] == lev)
        ctx.check('filled from zero', lev[0] >= l[0])
        for i in range(2):
            for j in range(2):
                ctx.check('nothing below first level', f[0][0][2][i][j] >= l[0])


@harness(name='band plot', time=60)
def band_plot(ctx):
    pf, ax = setup(ctx)
    from flavio.statistics.functions import delta_chi2
    L = ctx.ufun('loglike', -5, 0)
    b = [ctx.real('x_min', -1, 0), ctx.real('x_max', 1, 2), ctx.real('y_min', -1, 0), ctx.real('y_max', 1, 2)]
    shape = ctx.choice('grid', ['compute', (2, 2), (2, 3), (3, 2)])
    if shape == 'compute':
        x, y, z = pf.band_plot(lambda v: L(v[0], v[1]), *b, steps=2, n_sigma=2)
    else:
        z0 = np.array([[ctx.real('z%d%d' % (i, j), 0, 9) for j in range(shape[1])] for i in range(shape[0])])
        x, y, z = pf.band_plot(None, *b, pre_calculated_z=z0, n_sigma=2)
    n, m = np.shape(z)
    grid(ctx, 'x', [x[0][j] for j in range(m)], b[0], b[1], 'linear')
    grid(ctx, 'y', [y[i][0] for i in range(n)], b[2], b[3], 'linear')
    for i in range(n):
        for j in range(m):
            ctx.check_eq('z', z[i][j], -2 * L(x[0][j], y[i][0]) if shape == 'compute' else z0[i][j], scale=1)
    ctx.check('levels', abs(ax.get('contour')[0][1]['levels'][0] - delta_chi2(2, dof=2)) < 1e-9)


@harness(name='pie', time=60, max_paths=3000)
def pie(ctx):
    pf, ax = setup(ctx)
    import flavio
    got = {}
    ctx.patch(pf.plt, 'axis', lambda *a, **k: None)
    ctx.patch(pf.plt, 'pie', lambda fr, **k: got.update(k, fracs=list(fr)))
    n = ctx.choice('n', [2, 3])
    keys = ['Vcb', ('m_b', 'm_c'), 'mine'][:n]
    v = [ctx.real('e%d' % i, 0.01, 1) for i in range(n)]
    cut = ctx.choice('cutoff', [0.03, 0.2])
    pf.error_budget_pie(dict(zip(keys, v)), other_cutoff=cut)
    tot = sum(x * x for x in v)
    tex = {'Vcb': flavio.Parameter['Vcb'].tex, ('m_b', 'm_c'): flavio.Parameter['m_b'].tex + ', ' + flavio.Parameter['m_c'].tex, 'mine': 'mine'}
    fr = dict(zip(got['labels'], got['fracs']))
    ctx.check('one label per wedge', len(got['labels']) == len(got['fracs']) == len(fr))
    ctx.check_eq('total', sum(got['fracs']), 1., scale=1)
    other = 0
    shown = 0
    for k, x in zip(keys, v):
        if x * x / tot > cut:
            ctx.check('wedge shown', tex[k] in fr)
            ctx.check_eq('wedge', fr[tex[k]] * tot, x * x, scale=1)
            shown += 1
        else:
            other = other + x * x
            ctx.check('small wedge not shown', tex[k] not in fr)
    ctx.check('number of wedges', len(fr) == shown + (1 if shown < n else 0))
    if shown < n:
        ctx.check_eq('other', fr['other'] * tot, other, scale=1)


def observable(ctx, args, wc=None):
    import flavio
    from flavio.classes import Observable, Prediction
    ctx.patch(Observable, 'instances', {})
    f, g = ctx.ufun('f', -2, 2), ctx.ufun('err', 0.1, 1)
    Observable('o', arguments=args)

    def npf(w):
        return 0.0 if w is None or w.wc is None else 1.0
    ctx.patch(flavio, 'sm_prediction', lambda n, *a: f(*a, 0.0))
    ctx.patch(flavio, 'np_prediction', lambda n, w, *a: f(*a, npf(w)))
    ctx.patch(flavio, 'sm_uncertainty', lambda n, *a, N=None, threads=1: g(*a, 0.0, float(N)))
    ctx.patch(flavio, 'np_uncertainty', lambda n, w, *a, N=None, threads=1: g(*a, npf(w), float(N)))
    return f, g


def wilson():
    import flavio
    w = flavio.WilsonCoefficients()
    w.set_initial({'C9_bsmumu': 0.5}, 160)
    return w


@harness(name='differential theory', time=60)
def diff_th(ctx):
    pf, ax = setup(ctx)
    f, g = observable(ctx, ['q2'])
    n = ctx.choice('steps', [2, 3])
    sf = ctx.choice('scale factor', [1, 1e3])
    lo, hi = ctx.real('x_min', 0, 1), ctx.real('x_max', 2, 9)
    np_ = ctx.choice('np', [False, True])
    kw = {'wc': wilson()} if np_ else {}
    err = ctx.choice('errors', [False, True])
    if err:
        nodes = {}

        def interp1d(x, y, **k):
            nodes.update(x=list(x), y=list(y))
            return lambda xx: np.array(nodes['y'])
        ctx.patch(pf.scipy.interpolate, 'interp1d', interp1d)
        pf.diff_plot_th_err('o', lo, hi, steps=n, steps_err=n, N=7, scale_factor=sf, **kw)
    else:
        pf.diff_plot_th('o', lo, hi, steps=n, scale_factor=sf, **kw)
    a = ax.get('plot')
    ctx.check('one line', len(a) == 1)
    x, y = a[0][0][:2]
    ctx.check('steps', len(x) == n and len(y) == n)
    grid(ctx, 'x', list(x), lo, hi, 'linear')
    for k in range(n):
        ctx.check_eq('y', y[k], sf * f(x[k], 1.0 if np_ else 0.0), scale=sf)
    if err:
        grid(ctx, 'x of errors', nodes['x'], lo, hi, 'linear')
        b = ax.get('fill_between')
        ctx.check('one band', len(b) == 1)
        for k in range(n):
            c, e = f(x[k], 1.0 if np_ else 0.0), g(x[k], 1.0 if np_ else 0.0, 7.)
            ctx.check_eq('band x', b[0][0][0][k], x[k], scale=1)
            ctx.check_eq('lower', b[0][0][1][k], sf * (c - e), scale=sf)
            ctx.check_eq('upper', b[0][0][2][k], sf * (c + e), scale=sf)


@harness(name='binned theory', time=60)
def bin_th(ctx):
    pf, ax = setup(ctx)
    f, g = observable(ctx, ['q2min', 'q2max'])
    ctx.patch(pf.patches, 'Rectangle', lambda xy, w, h, **k: (xy, w, h, k))
    div = ctx.choice('divide', [False, True])
    np_ = ctx.choice('np', [False, True])
    e = [ctx.real('b0', 0, 1), ctx.real('b1', 1.5, 2), ctx.real('b2', 3, 4)]
    bins = [(e[0], e[1]), (e[1], e[2])]
    kw = {'wc': wilson()} if np_ else {}
    pf.bin_plot_th('o', bins, divide_binwidth=div, N=7, **kw)
    boxes = [a[0] for a, k in ax.get('add_patch')]
    ctx.check('one box per bin', len(boxes) == 2)
    for (lo, hi), (xy, w, h, k) in zip(bins, boxes):
        c, s = f(lo, hi, 1.0 if np_ else 0.0), g(lo, hi, 1.0 if np_ else 0.0, 7.)
        d = (hi - lo) if div else 1.
        ctx.check_eq('left', xy[0], lo, scale=1)
        ctx.check_eq('width', w, hi - lo, scale=1)
        ctx.check_eq('lower', xy[1] * d, c - s, scale=1)
        ctx.check_eq('height', h * d, 2 * s, scale=1)


class Meas:
    def __init__(self, ctx, name, obs, experiment):
        self.name, self.experiment = name, experiment
        self.all_parameters = obs
        self.c = {o: ctx.real('c%s%d' % (name, i), -2, 2) for i, o in enumerate(obs)}
        self.e = {o: (ctx.real('r%s%d' % (name, i), 0.1, 1), ctx.real('l%s%d' % (name, i), 0.1, 1)) for i, o in enumerate(obs)}

    def get_central_all(self):
        return self.c

    def get_1d_errors_rightleft(self):
        return self.e


def exp_plot(ctx, binned):
    pf, ax = setup(ctx)
    import flavio
    from flavio.classes import Observable
    ctx.patch(Observable, 'instances', {})
    Observable('o', arguments=['q2min', 'q2max'] if binned else ['q2'])
    Observable('other', arguments=['q2min', 'q2max'] if binned else ['q2'])
    pts = [(1., 2.), (2., 4.), (4., 8.)] if binned else [(1.,), (2.,), (4.,)]
    ms = [Meas(ctx, 'A', [('o',) + pts[0], ('o',) + pts[1], ('other',) + pts[0]], 'X'),
          Meas(ctx, 'B', ['scalar', ('o',) + pts[1], ('o',) + pts[2]], 'Y'),
          Meas(ctx, 'C', [('other',) + pts[0]], 'Z')]
    ctx.patch(flavio.Measurement, 'instances', {m.name: m for m in ms})
    inc_m = ctx.choice('measurements', [None, ['A'], ['B', 'C']])
    sel = ctx.choice('selection', ['all', 'include', 'exclude'])
    which = [p if binned else p[0] for p in (pts[1:2] + pts[2:])[:ctx.choice('number', [1, 2])]]
    sf = ctx.choice('scale factor', [1, 1e3])
    kw = dict(include_measurements=inc_m, scale_factor=sf)
    if sel != 'all':
        kw[('include_' if sel == 'include' else 'exclude_') + ('bins' if binned else 'x')] = which
    div = binned and ctx.choice('divide', [False, True])
    if div:
        kw['divide_binwidth'] = True
    (pf.bin_plot_exp if binned else pf.diff_plot_exp)('o', **kw)
    want = []
    for m in ms:
        if inc_m is not None and m.name not in inc_m:
            continue
        rows = []
        for o in m.all_parameters:
            if not isinstance(o, tuple) or o[0] != 'o':
                continue
            p = o[1:] if binned else o[1]
            if sel == 'include' and p not in which or sel == 'exclude' and p in which:
                continue
            rows.append((o, m.c[o], m.e[o]))
        if rows:
            want.append((m, rows))
    bars = ax.get('errorbar')
    ctx.check('one set of error bars per measurement', len(bars) == len(want))
    for (a, k), (m, rows) in zip(bars, want):
        ctx.check('label', k.get('label') == m.experiment)
        ctx.check('number of points', len(a[0]) == len(rows) == len(a[1]))
        for i, (o, c, (r, l)) in enumerate(rows):
            w = (o[2] - o[1]) if div else 1.
            ctx.check_eq('x', a[0][i], (o[1] + o[2]) / 2 if binned else o[1], scale=1)
            if binned:
                ctx.check_eq('half width', k['xerr'][i], (o[2] - o[1]) / 2, scale=1)
            ctx.check_eq('y', a[1][i] * w, sf * c, scale=sf)
            ctx.check_eq('lower error', k['yerr'][0][i] * w, sf * l, scale=sf)
            ctx.check_eq('upper error', k['yerr'][1][i] * w, sf * r, scale=sf)


add_harness(__name__, lambda ctx: exp_plot(ctx, True), 'binned measurements', time=60, max_paths=1000)
add_harness(__name__, lambda ctx: exp_plot(ctx, False), 'differential measurements', time=60, max_paths=1000)


class Dist:
    def __init__(self, ctx, log):
        self.p = ctx.ufun('pdf', 0.1, 1)
        self.support = (ctx.real('s0', -3, -2), ctx.real('s1', 2, 3))
        self.central_value = ctx.real('central', -0.5, 0.5)
        self.l, self.r = ctx.real('left', 0.1, 1), ctx.real('right', 0.1, 1)
        if not log:
            self.pdf = self._pdf
        else:
            self.logpdf = lambda x: np.array([num.log(v) for v in self._pdf(x)])

    def _pdf(self, x):
        return np.array([self.p(v) for v in x])

    def get_error_left(self, method='central'):
        return self.l if method == 'hpd' else self.l * 2

    def get_error_right(self, method='central'):
        return self.r if method == 'hpd' else self.r * 2


@harness(name='pdf', time=60)
def pdf(ctx):
    pf, ax = setup(ctx)
    d = Dist(ctx, ctx.choice('log', [False, True]))
    flip = ctx.choice('flipped', [False, True])
    fill = ctx.choice('fill', [True, False])
    rng = ctx.choice('range', ['support', 'given', 'zero left', 'zero right'])
    lo, hi = d.support
    kw = {}
    if rng != 'support':
        lo, hi = ctx.real('x_min', -1, -0.5), ctx.real('x_max', 0.5, 1)
        if rng == 'zero left':
            lo = 0
        if rng == 'zero right':
            hi = 0
        kw = dict(x_min=lo, x_max=hi)
    pf.pdf_plot(d, fill=fill, steps=3, flipped=flip, **kw)
    a = ax.get('plot')[0][0]
    x, y = (a[1], a[0]) if flip else (a[0], a[1])
    grid(ctx, 'x', list(x), lo, hi, 'linear')
    for i in range(3):
        ctx.check_eq('y', y[i], d.p(x[i]), scale=1)
    b = ax.get('fill_betweenx' if flip else 'fill_between')
    ctx.check('filled', len(b) == (1 if fill else 0) and not ax.get('fill_between' if flip else 'fill_betweenx'))
    if fill:
        for i in range(3):
            v = x[i]
            ctx.check('filled region', bool(b[0][1]['where'][i]) == bool((v > d.central_value - d.l) & (v < d.central_value + d.r)))
            ctx.check_eq('filled curve', b[0][0][2][i], y[i], scale=1)
