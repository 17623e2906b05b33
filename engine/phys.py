"""Stand-ins for the inputs of flavio's predictions: parameters, Wilson
coefficients, CKM elements and running parameters as free symbols, the same
symbol wherever the same quantity (at the same scale) is used."""
import numpy as np
import flavio
import flavio.physics.ckm as ckm
import flavio.physics.running.running as running
from flavio.physics.eft import sectors_flavio2wcxf
from wilson import wcxf

CENTRAL = dict(flavio.default_parameters.get_central_all())
EFT = {None: 'WET', 5: 'WET', 4: 'WET-4', 3: 'WET-3'}


class Par(dict):
    """parameters: those in `free` (names or prefixes ending in *), or all if None, are symbols within a relative
    width of their central values, the others have their central values"""

    def __init__(self, ctx, width=0.1, free=None, fixed=(), **over):
        dict.__init__(self)
        self.ctx, self.width, self.free, self.fixed = ctx, width, free, fixed
        self.update(over)

    def __missing__(self, k):
        c = CENTRAL[k]

        def listed(names):
            return any(k == n or n.endswith('*') and k.startswith(n[:-1]) for n in names)
        if listed(self.fixed) or self.free is not None and not listed(self.free):
            v = c
        else:
            d = abs(c) * self.width or self.width
            v = self.ctx.real(k, c - d, c + d)
        self[k] = v
        return v

    def __contains__(self, k):
        return k in CENTRAL or dict.__contains__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d


class Scales:
    """names for the scales at which things are evaluated"""

    def __init__(self, **named):
        self.named = named

    def __call__(self, s):
        for n, v in self.named.items():
            if s is v:
                return n
            if isinstance(s, (int, float)) and isinstance(v, (int, float)) and s == v:
                return n
        if isinstance(s, (int, float)):
            return '%.8g' % s
        from .sym import SymReal
        for n, v in self.named.items():
            if isinstance(s, SymReal) and isinstance(v, SymReal) and s.n is v.n:
                return n
        if isinstance(s, SymReal):
            return repr(s.n)
        return repr(s)


class Coeffs(dict):
    """coefficients of a sector, created on demand"""

    def __init__(self, src, names, tag):
        dict.__init__(self)
        self.src, self.names, self.tag = src, names, tag

    def __missing__(self, k):
        if k not in self.names:
            raise KeyError(k)
        self[k] = v = self.src.value(k, self.tag)
        return v

    def fill(self):
        for k in self.names:
            self[k]
        return self

    def items(self):
        return dict.items(self.fill())

    def values(self):
        return dict.values(self.fill())

    def keys(self):
        return dict.keys(self.fill())

    def __iter__(self):
        return dict.__iter__(self.fill())

    def __len__(self):
        return dict.__len__(self.fill())

    def __contains__(self, k):
        return k in self.names or dict.__contains__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def copy(self):
        return dict(self.fill())


class WCs(flavio.WilsonCoefficients):
    """new physics coefficients: one symbol for each coefficient, scale and effective theory. Those not starting with one
    of the prefixes in `only` vanish; `real`: prefixes of the names of real ones;
    `nonzero`: positive real parts"""

    def __init__(self, ctx, scales=None, b=2., only=None, real=(), nonzero=False):
        flavio.WilsonCoefficients.__init__(self)
        self.ctx, self.scales, self.b, self.only, self.real = ctx, scales or Scales(), b, only, tuple(real)
        self.nonzero = nonzero
        self.cache = {}
        self.wc = True
        self.calls = []

    def value(self, k, tag):
        if self.only is not None and not k.startswith(tuple(self.only)):
            return 0
        n = k + tag
        if n not in self.cache and self.nonzero:
            from .num import cplx
            self.cache[n] = cplx(self.ctx.real(n + '.re', self.b / 100, self.b), self.ctx.real(n + '.im', -self.b, self.b))
        if n not in self.cache:
            self.cache[n] = self.ctx.real(n, -self.b, self.b) if k.startswith(self.real) and self.real else self.ctx.complex(n, self.b)
        return self.cache[n]

    def get_wc(self, sector, scale, par, eft='WET', basis='flavio', nf_out=None):
        eft = eft if nf_out is None else EFT[nf_out]
        b = wcxf.Basis[eft, basis]
        names = list(b.all_wcs) if sector == 'all' else list(b.sectors[sectors_flavio2wcxf.get(sector, sector)])
        self.calls.append((sector, self.scales(scale), eft))
        return Coeffs(self, names, '@%s %s' % (self.scales(scale), eft))

    def get_wcxf(self, sector, scale, par, eft='WET', basis='flavio', nf_out=None):
        return self.get_wc(sector, scale, par, eft, basis, nf_out)

    def at(self, scale, eft='WET'):
        """accessor for the reference: name -> symbol"""
        return lambda k: self.value(k, '@%s %s' % (self.scales(scale), eft))


class CKM:
    """independent complex CKM elements"""

    def __init__(self, ctx, b=2.):
        self.ctx, self.b = ctx, b
        self.v = {}

    def __getitem__(self, ij):
        ij = tuple(int(i) for i in ij)
        if ij not in self.v:
            v = self.ctx.complex('V%s%s' % ('uct'[ij[0]], 'dsb'[ij[1]]), self.b)
            self.v[ij] = np.complex128(v) if isinstance(v, complex) else v
        return self.v[ij]

    def q(self, ud):
        return self['uct'.index(ud[0]), 'dsb'.index(ud[1])]

    def xi(self, a, bc):
        """V_ab V_ac* for down-type flavours b, c"""
        from .num import conj
        return self.q(a + bc[0]) * conj(self.q(a + bc[1]))


def patch_ckm(ctx, b=2.):
    V = CKM(ctx, b)
    ctx.patch(ckm, 'get_ckm', lambda par: V)
    return V


RUN = {n: getattr(running, n) for n in dir(running) if n.startswith('get_m') or n in ('get_alpha', 'get_alpha_s', 'get_alpha_e')}


class Running:
    """running masses and couplings: one symbol for each function, scale and number of flavours"""

    def __init__(self, ctx, scales=None, width=0.1, fixed=False):
        self.ctx, self.scales, self.width, self.fixed = ctx, scales or Scales(), width, fixed
        self.cache = {}
        self.off = False
        for n in RUN:
            if n == 'get_alpha':
                f = lambda par, scale, nf_out=None: {'alpha_s': self('alpha_s', scale, nf_out), 'alpha_e': self('alpha_e', scale, nf_out)}
            elif n == 'get_mq':
                f = lambda q, par, scale, nf_out=None: self('m' + q, scale, nf_out)
            elif n.startswith('get_m') and n[4:] not in ('mb', 'mc', 'mt', 'ms', 'md', 'mu'):
                f = lambda par, *a, n=n, **k: self.other(n, *a, **k)
            else:
                f = lambda par, scale, nf_out=None, n=n: self(n[4:], scale, nf_out)
            ctx.patch_name(RUN[n], lambda *a, n=n, f=f, **k: RUN[n](*a, **k) if self.off else f(*a, **k))

    def number(self, s):
        if isinstance(s, (int, float)):
            return float(s)
        if self.ctx.symbolic:
            return (s.n.lo + s.n.hi) / 2
        return float(s)

    def central(self, n, *a, **k):
        self.off = True
        try:
            return float(RUN[n](CENTRAL, *a, **k))
        finally:
            self.off = False

    def __call__(self, q, scale, nf=None):
        """q: mb, mc, mt, ms, md, mu, alpha_s or alpha_e"""
        s = self.number(scale)
        key = '%s(%s;%s)' % (q, self.scales(scale), nf or running.get_nf(s))
        if key not in self.cache:
            sc = s if self.scales(scale) not in self.scales.named else float(self.scales.named.get(self.scales(scale) + '_central', s))
            c = self.central('get_' + q, sc, nf)
            self.cache[key] = c if self.fixed else self.ctx.real(key, c * (1 - self.width), c * (1 + self.width))
        return self.cache[key]

    def other(self, n, *a, **k):
        key = n[4:] + repr(a) + repr(sorted(k.items()))
        if key not in self.cache:
            c = self.central(n, *a, **k)
            self.cache[key] = c if self.fixed else self.ctx.real(key, c * (1 - self.width), c * (1 + self.width))
        return self.cache[key]


def predict(name, wc, par, *args, **kw):
    from flavio.classes import Observable
    return Observable[name].prediction_par(par, wc, *args, **kw)
