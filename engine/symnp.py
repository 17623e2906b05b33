"""Symbolic-aware stand-ins for numpy / math / cmath / scipy names in flavio's
module globals.  On concrete arguments they call the originals."""
import builtins
import cmath
import math
import types
import numpy as np
import scipy
import scipy.stats
import scipy.special
from . import expr as E
from .sym import (SymReal, SymComplex, SymBool, Engine, Unsupported, eng, eng_unsupported,
                  has_sym, is_sym, term, parts, mk, ssqrt, slog, satan2, _Num)


class FloatElement(float):
    """plain number taken out of an array: has the methods of numpy scalars"""

    def conj(self):
        return FloatElement(self)


class ComplexElement(complex):
    def conj(self):
        return ComplexElement(self.conjugate())


class SymArray(np.ndarray):
    """object array whose .real/.imag/.conj act on the elements"""

    @property
    def real(self):
        return _map(lambda x: x.real, self)

    @property
    def imag(self):
        return _map(lambda x: x.imag, self)

    def conj(self):
        return _map(_conj1, self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        if self.dtype == object:
            return self.copy()
        return super().astype(dtype, *a, **k)

    def view(self, *a, **k):
        # the last axis as pairs of real and imaginary part, and back
        if len(a) == 1 and not k and self.dtype == object:
            kind = getattr(a[0], '__name__', str(a[0])).lower()
            if 'complex' in kind and not any(isinstance(x, SymComplex) for x in self.flat):
                flat = self.reshape(-1, 2)
                out = [x + y * SymComplex(E.ZERO, E.ONE) for x, y in flat]
                return symview(objarr(out)).reshape(self.shape[:-1] + (self.shape[-1] // 2,))
            if 'float' in kind and any(isinstance(x, SymComplex) for x in self.flat):
                return symview(objarr([p for x in self.flat for p in (x.real, x.imag)])).reshape(self.shape[:-1] + (self.shape[-1] * 2,))
        return super().view(*a, **k)

    def mean(self, axis=None, **k):
        return symnp_mean(self, axis=axis)

    def __array_finalize__(self, obj):
        pass

    def __setitem__(self, k, v):
        super().__setitem__(_mask(k), v)

    def __getitem__(self, k):
        v = super().__getitem__(_mask(k))
        return FloatElement(v) if type(v) is float else ComplexElement(v) if type(v) is complex else v

    def std(self, axis=None, ddof=0, **k):
        return np_std(self, axis=axis, ddof=ddof)

    def dot(self, o):
        return NP.dot(self, o)


def _mask(k):
    """a mask of symbolic conditions is decided element by element"""
    if isinstance(k, np.ndarray) and k.dtype == object:
        b = np.asarray(k)
        out = np.empty(b.shape, dtype=bool)
        for i in np.ndindex(b.shape):
            out[i] = bool(b[i])
        return out
    return k


def symview(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.view(SymArray)
    return a


def _conj1(x):
    return x.conjugate()


def _map(f, a):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i])
    if out.ndim == 0:
        return out[()]
    return symview(out)


def _map2(f, a, b):
    a, b = np.broadcast_arrays(objarr(a), objarr(b))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i], b[i])
    if out.ndim == 0:
        return out[()]
    return symview(out)


def objarr(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = x[i].item() if hasattr(x[i], 'item') else x[i]
        return out
    if isinstance(x, (list, tuple)):
        # build by shape to avoid numpy probing symbolic scalars
        return _from_nested(x)
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        return (len(x),) + _shape(x[0])
    return ()


def _from_nested(x):
    sh = _shape(x)
    out = np.empty(sh, dtype=object)

    def fill(pre, y):
        if len(pre) == len(sh):
            out[pre] = y
            return
        n = len(y)
        if n != sh[len(pre)]:
            raise ValueError('inhomogeneous shape')
        for i in range(n):
            fill(pre + (i,), y[i])
    fill((), x)
    return out


def is_arraylike(x):
    return isinstance(x, (np.ndarray, list, tuple))


def _needs(x):
    return has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object)


def _scal(fsym, fconc):
    """elementwise function: fsym on symbolic scalars, fconc otherwise"""
    def one(x):
        if isinstance(x, SymBool):
            x = SymReal(term(x))
        if is_sym(x):
            return fsym(x)
        return fconc(x)

    def f(x, *a, **k):
        k.pop('dtype', None)
        if is_sym(x):
            return fsym(x)
        if _needs(x):
            return _map(one, objarr(x))
        return fconc(x, *a, **k)
    return f


def _obj_real(x):
    return x.real if not isinstance(x, (list, tuple)) else np.real(x)


class Proxy(types.ModuleType):
    def __init__(self, orig, table, name=None):
        super().__init__(name or orig.__name__)
        self.__dict__['_orig'] = orig
        self.__dict__['_table'] = table

    def __getattr__(self, k):
        t = self.__dict__['_table']
        if k in t:
            return t[k]
        return getattr(self.__dict__['_orig'], k)


# ------------------------------------------------------------ type proxies

class _NumMeta(type):
    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __instancecheck__(cls, o):
        return cls._inst(o)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._orig)

    def __getattr__(cls, k):
        return getattr(cls._orig, k)

    def __eq__(cls, o):
        return o is cls or o is cls.__dict__['_orig']

    def __hash__(cls):
        return hash(cls.__dict__['_orig'])


class FloatProxy(metaclass=_NumMeta):
    _orig = float

    @staticmethod
    def _conv(x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymComplex):
            raise TypeError("can't convert complex to float")
        if isinstance(x, SymBool):
            return SymReal(term(x))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return FloatProxy._conv(x.item())
        if isinstance(x, str) and Engine.cur is not None and Engine.cur.tokens:
            t = Engine.cur.token_float(x)
            if t is not None:
                return t
        return float(x)

    @staticmethod
    def _inst(o):
        return isinstance(o, float) or isinstance(o, SymReal)


class ComplexProxy(metaclass=_NumMeta):
    _orig = complex

    @staticmethod
    def _conv(*a):
        if len(a) == 1 and isinstance(a[0], SymComplex):
            return a[0]
        if len(a) == 1 and isinstance(a[0], SymReal):
            return SymComplex(a[0].n, E.ZERO)
        if len(a) == 2 and has_sym(a):
            return a[0] + a[1] * SymComplex(E.ZERO, E.ONE)
        return complex(*a)

    @staticmethod
    def _inst(o):
        return isinstance(o, complex) or isinstance(o, SymComplex)


class IntProxy(metaclass=_NumMeta):
    _orig = int

    @staticmethod
    def _conv(*a, **k):
        if len(a) == 1 and isinstance(a[0], SymReal):
            return a[0].__trunc__()
        return int(*a, **k)

    @staticmethod
    def _inst(o):
        return isinstance(o, int)


# ------------------------------------------------------------ math

def _msqrt(x):
    return ssqrt(x, 'math')


def _m1(meth, orig):
    def f(x, *a):
        if isinstance(x, SymReal):
            return getattr(x, meth)()
        if isinstance(x, SymComplex):
            raise TypeError("must be real number, not complex")
        return orig(x, *a)
    return f


def _mlog(x, *base):
    if is_sym(x):
        r = slog(x, 'math')
        return r / math.log(base[0]) if base else r
    return math.log(x, *base)


MATH = {
    'sqrt': lambda x: _msqrt(x) if isinstance(x, SymReal) else math.sqrt(x),
    'log': _mlog,
    'exp': _m1('exp', math.exp), 'sin': _m1('sin', math.sin), 'cos': _m1('cos', math.cos),
    'tan': _m1('tan', math.tan), 'atan': _m1('arctan', math.atan),
    'asin': _m1('arcsin', math.asin), 'acos': _m1('arccos', math.acos),
    'atanh': _m1('arctanh', math.atanh), 'sinh': _m1('sinh', math.sinh),
    'cosh': _m1('cosh', math.cosh), 'tanh': _m1('tanh', math.tanh),
    'log10': _m1('log10', math.log10), 'log2': _m1('log2', math.log2),
    'fabs': _m1('__abs__', math.fabs), 'floor': _m1('__floor__', math.floor),
    'ceil': _m1('__ceil__', math.ceil), 'erf': lambda x: SymReal(E.fn('erf', x.n)) if is_sym(x) else math.erf(x),
    'isnan': lambda x: False if is_sym(x) else math.isnan(x),
    'isinf': lambda x: False if is_sym(x) else math.isinf(x),
    'isfinite': lambda x: True if is_sym(x) else math.isfinite(x),
    'atan2': lambda y, x: satan2(y, x) if has_sym([x, y]) else math.atan2(y, x),
    'pow': lambda x, y: x ** y if has_sym([x, y]) else math.pow(x, y),
    'hypot': lambda *a: (sum(x * x for x in a)).sqrt() if has_sym(a) else math.hypot(*a),
    'fsum': lambda x: sum(x) if has_sym(list(x)) else math.fsum(x),
}


def _c(x):
    return x if isinstance(x, SymComplex) else SymComplex(*parts(x))


def _catan(z):
    if isinstance(z, SymReal):
        return SymComplex(E.fn('atan', z.n), E.ZERO)
    return z.arctan()


CMATH = {
    'sqrt': lambda x: _c(x).sqrt() if is_sym(x) else cmath.sqrt(x),
    'exp': lambda x: _c(x).exp() if is_sym(x) else cmath.exp(x),
    'log': lambda x: _c(x).log() if is_sym(x) else cmath.log(x),
    'sin': lambda x: _c(x).sin() if is_sym(x) else cmath.sin(x),
    'cos': lambda x: _c(x).cos() if is_sym(x) else cmath.cos(x),
    'atan': lambda x: _catan(x) if is_sym(x) else cmath.atan(x),
    'phase': lambda x: _c(x).phase() if is_sym(x) else cmath.phase(x),
    'isnan': lambda x: False if is_sym(x) else cmath.isnan(x),
}


# ------------------------------------------------------------ numpy

def _dtype(d):
    if d is FloatProxy:
        return float
    if d is ComplexProxy:
        return complex
    if d is IntProxy:
        return int
    return d


def _fixd(f):
    def g(*a, **k):
        if 'dtype' in k:
            k['dtype'] = _dtype(k['dtype'])
        a = tuple(_dtype(x) for x in a)
        return f(*a, **k)
    return g


def _numeric_kind(a):
    return a.dtype.kind in 'fc'


def np_array(x, dtype=None, *args, **k):
    dtype = _dtype(dtype)
    if has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object) or _contains_obj(x):
        ndmin = k.get('ndmin', 0)
        a = objarr(x)
        if isinstance(x, np.ndarray):
            a = a.copy()
        while a.ndim < ndmin:
            a = a[np.newaxis]
        return symview(a)
    a = np.array(x, dtype, *args, **k)
    if Engine.cur is not None and Engine.cur.objects and a.dtype.kind in 'fc' and a.ndim:
        return symview(objarr(a))
    return a


def _contains_obj(x):
    if isinstance(x, (list, tuple)):
        return any(_contains_obj(y) if isinstance(y, (list, tuple)) else isinstance(y, np.ndarray) and y.dtype == object for y in x)
    return False


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return symview(x)
    if has_sym(x) or _contains_obj(x):
        return np_array(x)
    return np.asarray(x, _dtype(dtype), *a, **k)


def _alloc(orig):
    def f(shape, *a, **k):
        if 'dtype' in k:
            k['dtype'] = _dtype(k['dtype'])
        a = tuple(_dtype(x) for x in a)
        r = orig(shape, *a, **k)
        if Engine.cur is not None and Engine.cur.objects and r.dtype.kind in 'fc':
            return symview(objarr(r))
        return r
    return f


def _alloc_like(orig):
    def f(x, *a, **k):
        if 'dtype' in k:
            k['dtype'] = _dtype(k['dtype'])
        if _needs(x):
            y = np.empty(objarr(x).shape)
            return symview(objarr(orig(y)))
        r = orig(x, *a, **k)
        return symview(objarr(r)) if Engine.cur is not None and Engine.cur.objects and r.dtype.kind in 'fc' else r
    return f


def np_full(shape, fill, *a, **k):
    if is_sym(fill):
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = fill
        return symview(r)
    return _alloc(lambda s, *aa, **kk: np.full(s, fill, *aa, **kk))(shape, *a, **k)


def np_dot(a, b, *r, **k):
    if _needs(a) or _needs(b):
        a, b = objarr(a), objarr(b)
        if a.ndim == 0 or b.ndim == 0:
            return _map2(lambda x, y: x * y, a, b)
        return _out(np.dot(np.asarray(a), np.asarray(b)))
    return np.dot(a, b, *r, **k)


def _out(r):
    if isinstance(r, np.ndarray):
        return symview(r) if r.ndim else r[()]
    return r


def _reduce(orig, red):
    def f(x, axis=None, *a, **k):
        if isinstance(x, types.GeneratorType):
            x = list(x)
        if _needs(x):
            o = objarr(x)
            if axis is None:
                return red(list(o.flat))
            keep = np.moveaxis(o, axis, -1)
            sh = keep.shape[:-1]
            out = np.empty(sh, dtype=object)
            for i in np.ndindex(sh):
                out[i] = red(list(keep[i]))
            return _out(out)
        return orig(x, axis=axis, *a, **k)
    return f


def _sum(l):
    r = 0
    for x in l:
        r = r + x
    return r


def _prod(l):
    r = 1
    for x in l:
        r = r * x
    return r


def _max(l):
    r = l[0]
    for x in l[1:]:
        if x > r:
            r = x
    return r


def _min(l):
    r = l[0]
    for x in l[1:]:
        if x < r:
            r = x
    return r


def _argmax(l):
    k = 0
    for i, x in enumerate(l):
        if x > l[k]:
            k = i
    return k


def _argmin(l):
    k = 0
    for i, x in enumerate(l):
        if x < l[k]:
            k = i
    return k


def _all(l):
    r = True
    for x in l:
        if is_sym(x):
            r = (x if isinstance(x, SymBool) else x != 0) & r
        elif not x:
            return False
    return r


def _any(l):
    r = False
    for x in l:
        if is_sym(x):
            r = (x if isinstance(x, SymBool) else x != 0) | r
        elif x:
            return True
    return r


def symnp_mean(x, axis=None):
    o = objarr(x)
    n = o.size if axis is None else o.shape[axis]
    return NPT['sum'](o, axis=axis) / n


def np_mean(x, axis=None, **k):
    if _needs(x):
        return symnp_mean(x, axis)
    return np.mean(x, axis=axis, **k)


def np_average(x, axis=None, weights=None, **k):
    if _needs(x) or _needs(weights):
        if weights is None:
            return symnp_mean(x, axis)
        o, w = objarr(x), objarr(weights)
        if axis is not None and w.ndim != o.ndim:
            raise eng_unsupported('average with axis')
        return NPT['sum'](_map2(lambda a, b: a * b, o, w), axis=axis) / NPT['sum'](w, axis=axis)
    return np.average(x, axis=axis, weights=weights, **k)


def np_var(x, axis=None, ddof=0, **k):
    if _needs(x):
        o = objarr(x)
        if axis is not None and o.ndim > 1:
            o2 = np.moveaxis(o, axis, 0)
            m = symnp_mean(o2, 0)
            n = o2.shape[0]
            return _sum([_map(lambda v: v * v, o2[i] - m) for i in range(n)]) / (n - ddof)
        m = symnp_mean(o)
        return _sum([(v - m) * (v - m) for v in o.flat]) / (o.size - ddof)
    return np.var(x, axis=axis, ddof=ddof, **k)


def np_std(x, axis=None, ddof=0, **k):
    if _needs(x):
        v = np_var(x, axis, ddof)
        return NPT['sqrt'](v)
    return np.std(x, axis=axis, ddof=ddof, **k)


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if _needs(m):
        o = objarr(m)
        if o.ndim == 1:
            o = o[None]
        if not rowvar and o.shape[0] != 1:
            o = o.T
        n = o.shape[1]
        d = (0 if bias else 1) if ddof is None else ddof
        c = [o[i] - symnp_mean(o[i]) for i in range(o.shape[0])]
        out = np.empty((len(c), len(c)), dtype=object)
        for i in range(len(c)):
            for j in range(len(c)):
                out[i, j] = _sum(list(c[i] * c[j])) / (n - d)
        return symview(out) if out.shape != (1, 1) else out[0, 0]
    return np.cov(m, y, rowvar=rowvar, bias=bias, ddof=ddof, **k)


def np_where(c, *a):
    if not a:
        if _needs(c):
            o = objarr(c)
            b = np.array([bool(x) for x in o.flat]).reshape(o.shape)
            return np.where(b)
        return np.where(c)
    x, y = a
    if _needs(c) or _needs(x) or _needs(y) or is_sym(c):
        co, xo, yo = np.broadcast_arrays(objarr(c), objarr(x), objarr(y))
        out = np.empty(co.shape, dtype=object)
        for i in np.ndindex(co.shape):
            out[i] = xo[i] if bool(co[i]) else yo[i]
        return _out(out)
    return np.where(c, x, y)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if _needs(a) or _needs(b):
        a, b = np.broadcast_arrays(objarr(a), objarr(b))
        r = True
        for i in np.ndindex(a.shape):
            d = abs(a[i] - b[i]) <= (atol + rtol * abs(b[i]))
            if isinstance(d, SymBool):
                r = d & r
            elif not d:
                return False
        return r if isinstance(r, bool) else bool(r)
    return np.allclose(a, b, rtol=rtol, atol=atol, **k)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if _needs(a) or _needs(b):
        return _map2(lambda x, y: abs(x - y) <= (atol + rtol * abs(y)), a, b)
    return np.isclose(a, b, rtol=rtol, atol=atol, **k)


def np_array_equal(a, b, **k):
    if _needs(a) or _needs(b):
        a, b = objarr(a), objarr(b)
        if a.shape != b.shape:
            return False
        return bool(_all([x == y for x, y in zip(a.flat, b.flat)]))
    return np.array_equal(a, b, **k)


def _minor(m, i, j):
    return np.delete(np.delete(m, i, 0), j, 1)


def sdet(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    r = 0
    for j in range(n):
        if not is_sym(m[0, j]) and m[0, j] == 0:
            continue
        r = r + (-1) ** j * m[0, j] * sdet(_minor(m, 0, j))
    return r


def la_det(m):
    if _needs(m):
        return sdet(np.asarray(objarr(m)))
    return np.linalg.det(m)


def la_inv(m):
    if _needs(m):
        m = np.asarray(objarr(m))
        n = m.shape[0]
        if n > 4:
            raise eng_unsupported('inverse of a %dx%d symbolic matrix' % (n, n))
        # an unconstrained direction: infinite variance, no covariances
        free = [i for i in range(n) if not is_sym(m[i, i]) and m[i, i] == E.INF and
                all(not is_sym(m[i, j]) and not is_sym(m[j, i]) and m[i, j] == 0 and m[j, i] == 0 for j in range(n) if j != i)]
        if free:
            keep = [i for i in range(n) if i not in free]
            out = np.zeros((n, n), dtype=object)
            if keep:
                out[np.ix_(keep, keep)] = np.asarray(objarr(la_inv(symview(m[np.ix_(keep, keep)]))))
            return symview(out)
        d = sdet(m)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                c = sdet(_minor(m, j, i)) if n > 1 else 1
                out[i, j] = (-1) ** (i + j) * c / d
        return symview(out)
    return np.linalg.inv(m)


def la_slogdet(m):
    if _needs(m):
        d = la_det(m)
        if bool(d > 0):
            return (1.0, d.log())
        if bool(d < 0):
            return (-1.0, (-d).log())
        return (0.0, -E.INF)
    return np.linalg.slogdet(m)


def la_eigvals(m):
    if _needs(m):
        m = np.asarray(objarr(m))
        if m.shape == (1, 1):
            return symview(m[0])
        if m.shape == (2, 2) and False:
            t = m[0, 0] + m[1, 1]
            d = sdet(m)
            disc = t * t / 4 - d
            s = NPT['sqrt'](disc)
            out = np.empty(2, dtype=object)
            out[0], out[1] = t / 2 - s, t / 2 + s
            return symview(out)
        return SymSpectrum(m)
    return np.linalg.eigvals(m)


def la_solve(a, b):
    if _needs(a) or _needs(b):
        return np_dot(la_inv(a), b)
    return np.linalg.solve(a, b)


def la_norm(x, *a, **k):
    if _needs(x):
        if a or k:
            raise eng_unsupported('norm with order')
        return NPT['sqrt'](_sum([abs(v) * abs(v) for v in objarr(x).flat]))
    return np.linalg.norm(x, *a, **k)


def np_einsum(s, *ops, **k):
    if any(_needs(o) for o in ops):
        return _out(np.einsum(s, *[np.asarray(objarr(o)) for o in ops], optimize=False)) if False else _einsum(s, ops)
    return np.einsum(s, *ops, **k)


def _einsum(s, ops):
    import itertools
    ops = [np.asarray(objarr(o)) for o in ops]
    s = s.replace(' ', '')
    if '->' in s:
        ins, out = s.split('->')
    else:
        ins = s
        letters = ''.join(ins.split(','))
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    dim = {}
    for i, o in zip(ins, ops):
        for c, n in zip(i, o.shape):
            dim[c] = n
    summed = [c for c in dim if c not in out]
    res = np.empty(tuple(dim[c] for c in out), dtype=object)
    for oi in itertools.product(*[range(dim[c]) for c in out]):
        env = dict(zip(out, oi))
        tot = 0
        for si in itertools.product(*[range(dim[c]) for c in summed]):
            env.update(zip(summed, si))
            t = 1
            for i, o in zip(ins, ops):
                v = o[tuple(env[c] for c in i)]
                if not is_sym(v) and v == 0:
                    t = 0
                    break
                t = t * v
            if is_sym(t) or t != 0:
                tot = tot + t
        res[oi] = tot
    return _out(res)


def np_outer(a, b, *r):
    if _needs(a) or _needs(b):
        a, b = objarr(a).ravel(), objarr(b).ravel()
        out = np.empty((a.size, b.size), dtype=object)
        for i in range(a.size):
            for j in range(b.size):
                out[i, j] = a[i] * b[j]
        return symview(out)
    return np.outer(a, b)


def np_heaviside(x, h):
    if is_sym(x):
        return 1.0 if bool(x > 0) else (h if bool(x == 0) else 0.0)
    return np.heaviside(x, h)


def np_sign(x):
    def s1(v):
        if is_sym(v):
            if bool(v > 0):
                return 1.0
            return -1.0 if bool(v < 0) else 0.0
        return float(np.sign(v))
    if _needs(x):
        return _map(s1, objarr(x)) if is_arraylike(x) else s1(x)
    return np.sign(x)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if has_sym([x]) or _needs(xp) or _needs(fp):
        if is_arraylike(x):
            return _map(lambda v: np_interp(v, xp, fp, left, right), objarr(x))
        xp, fp = list(objarr(xp)), list(objarr(fp))
        if bool(x < xp[0]):
            return fp[0] if left is None else left
        if bool(x > xp[-1]):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(x <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]
    return np.interp(x, xp, fp, left=left, right=right, period=period)


def np_trapz(y, x=None, dx=1.0, axis=-1):
    if _needs(y) or (x is not None and _needs(x)):
        y = list(objarr(y))
        n = len(y)
        if x is not None:
            x = list(objarr(x))
            return _sum([(x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2 for i in range(n - 1)])
        return _sum([dx * (y[i] + y[i + 1]) / 2 for i in range(n - 1)])
    return np.trapz(y, x, dx, axis)


def np_linspace(a, b, num=50, endpoint=True, **k):
    if has_sym([a, b]):
        n = int(num)
        if n == 1:
            return symview(objarr([a]))
        step = (b - a) / ((n - 1) if endpoint else n)
        return symview(objarr([a + step * i for i in range(n)]))
    return np.linspace(a, b, num, endpoint, **k)


def _antilog(a, base):
    """base**a, with base**log_base(x) = x"""
    n = term(a)
    if n.op == 'mul' and len(n.args) == 2 and n.args[0].op == 'const' and n.args[1].op == 'fn' and n.args[1].args[0] == 'log' \
            and abs(float(n.args[0].args[0]) * math.log(base) - 1) < 1e-12:
        return SymReal(n.args[1].args[1])
    return base ** a


def np_logspace(a, b, num=50, endpoint=True, base=10.0, **k):
    if has_sym([a, b]) and not has_sym(base):
        num = int(num)
        d = (num - 1) if endpoint else num
        lo, hi = _antilog(a, base), _antilog(b, base)
        out = []
        for i in range(num):
            t = i / d
            if 2 * i == d:
                out.append(SymReal(E.sqrt(term(lo * hi))))
            else:
                out.append(lo if i == 0 else hi if i == d else lo ** (1 - t) * hi ** t)
        return symview(objarr(out))
    return np.logspace(a, b, num, endpoint, base, **k)


def np_meshgrid(*xs, **k):
    if has_sym(list(xs)) and len(xs) == 2 and not k:
        x, y = [objarr(v).ravel() for v in xs]
        return [symview(np.repeat(x[None, :], len(y), axis=0)), symview(np.repeat(y[:, None], len(x), axis=1))]
    return np.meshgrid(*xs, **k)


def np_diff(a, n=1, **k):
    if _needs(a):
        o = objarr(a)
        return symview(np.asarray(o[1:] - o[:-1]))
    return np.diff(a, n, **k)


def np_cumsum(a, axis=None, **k):
    if _needs(a):
        o = objarr(a).ravel()
        out = np.empty(o.shape, dtype=object)
        r = 0
        for i, v in enumerate(o):
            r = r + v
            out[i] = r
        return symview(out)
    return np.cumsum(a, axis=axis, **k)


def np_searchsorted(a, v, side='left', sorter=None):
    if not (has_sym(v) or _needs(a) or _needs(v)):
        return np.searchsorted(a, v, side, sorter)
    A = list(objarr(a))

    def one(x):
        for i, y in enumerate(A):
            if bool(y >= x) if side == 'left' else bool(y > x):
                return i
        return len(A)
    if is_arraylike(v):
        return np.array([one(x) for x in objarr(v).ravel()]).reshape(np.shape(v))
    return one(v)


def np_isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


def np_ndim(x):
    return 0 if is_sym(x) else np.ndim(x)


def np_sort(a, *r, **k):
    if _needs(a):
        l = list(objarr(a))
        # insertion sort with symbolic comparisons
        out = []
        for v in l:
            i = len(out)
            while i > 0 and bool(v < out[i - 1]):
                i -= 1
            out.insert(i, v)
        return symview(objarr(out))
    return np.sort(a, *r, **k)


def np_vectorize(pyfunc, *a, **k):
    vf = np.vectorize(pyfunc, *a, **k)

    def call(*args, **kw):
        if has_sym(list(args)) or any(_needs(x) for x in args):
            if not any(is_arraylike(x) for x in args):
                return pyfunc(*args, **kw)
            arrs = np.broadcast_arrays(*[objarr(x) for x in args])
            out = np.empty(arrs[0].shape, dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = pyfunc(*[q[i] for q in arrs], **kw)
            return _out(out)
        return vf(*args, **kw)
    call.pyfunc = pyfunc
    return call


def np_nan_to_num(x, *a, **k):
    if _needs(x):
        return x
    return np.nan_to_num(x, *a, **k)


def np_piecewise(x, condlist, funclist, *a, **k):
    if _needs(x):
        xo = objarr(x)
        n = len(condlist)
        cl = [objarr(c) for c in condlist]
        out = np.empty(xo.shape, dtype=object)
        for i in np.ndindex(xo.shape):
            f = funclist[n] if len(funclist) > n else 0
            for c, g in zip(cl, funclist):
                ci = c[i] if c.ndim else c[()]
                if bool(ci):
                    f = g
                    # numpy: later conditions overwrite earlier ones
            out[i] = f(xo[i]) if callable(f) else f
        return _out(out)
    return np.piecewise(x, condlist, funclist, *a, **k)


def _bin(orig, f):
    def g(a, b, *r, **k):
        if _needs(a) or _needs(b):
            if is_arraylike(a) or is_arraylike(b):
                return _map2(f, a, b)
            return f(a, b)
        return orig(a, b, *r, **k)
    return g


def _meth(name, orig):
    def f(x):
        m = getattr(x, name, None)
        if m is not None and is_sym(x):
            return m()
        return orig(x)
    return f


def _sq(x):
    if isinstance(x, SymComplex):
        return x.sqrt()
    return ssqrt(x, 'np')


def _csafe(orig):
    return lambda x, *a, **k: orig(x, *a, **k)


def _delegating(name):
    orig = getattr(np, name)

    def f(*a, **k):
        if 'dtype' in k:
            k['dtype'] = _dtype(k['dtype'])
        if any(has_sym(x) or _contains_obj(x) for x in a):
            a = tuple(objarr(x) if (isinstance(x, (list, tuple)) and has_sym(x)) else x for x in a)
            r = orig(*a, **k)
            if isinstance(r, list):
                return [symview(x) for x in r]
            return symview(r)
        r = orig(*a, **k)
        return symview(r) if isinstance(r, np.ndarray) and r.dtype == object else r
    return f


def _seq(orig, nested=True):
    """functions taking a sequence of arrays first"""
    def f(seq, *a, **k):
        seq = list(seq)
        if any(_needs(x) for x in seq):
            seq = [np.asarray(objarr(x)) for x in seq]
            return symview(orig(seq, *a, **k))
        return orig(seq, *a, **k)
    return f


NPT = {
    'sqrt': _scal(_sq, np.sqrt), 'exp': _scal(lambda x: x.exp(), np.exp),
    'log': _scal(lambda x: x.log(), np.log), 'sin': _scal(lambda x: x.sin(), np.sin),
    'cos': _scal(lambda x: x.cos(), np.cos), 'tan': _scal(lambda x: x.tan(), np.tan),
    'arctan': _scal(lambda x: x.arctan(), np.arctan), 'arcsin': _scal(lambda x: x.arcsin(), np.arcsin),
    'arccos': _scal(lambda x: x.arccos(), np.arccos), 'sinh': _scal(lambda x: x.sinh(), np.sinh),
    'cosh': _scal(lambda x: x.cosh(), np.cosh), 'tanh': _scal(lambda x: x.tanh(), np.tanh),
    'arctanh': _scal(lambda x: x.arctanh(), np.arctanh), 'log10': _scal(lambda x: x.log10(), np.log10),
    'log1p': _scal(lambda x: x.log1p(), np.log1p), 'expm1': _scal(lambda x: x.expm1(), np.expm1),
    'abs': _scal(abs, np.abs), 'absolute': _scal(abs, np.absolute), 'fabs': _scal(abs, np.fabs),
    'real': _scal(lambda x: x.real, np.real), 'imag': _scal(lambda x: x.imag, np.imag),
    'iscomplex': _scal(lambda x: x.imag != 0, np.iscomplex), 'isreal': _scal(lambda x: x.imag == 0, np.isreal),
    'conj': _scal(_conj1, np.conj), 'conjugate': _scal(_conj1, np.conjugate),
    'angle': _scal(lambda z: _c(z).phase(), np.angle), 'square': _scal(lambda x: x * x, np.square),
    'isnan': _scal(lambda x: False, np.isnan), 'isinf': _scal(lambda x: False, np.isinf),
    'isfinite': _scal(lambda x: True, np.isfinite), 'isneginf': _scal(lambda x: False, np.isneginf),
    'isposinf': _scal(lambda x: False, np.isposinf),
    'floor': _scal(lambda x: x.__floor__(), np.floor), 'ceil': _scal(lambda x: x.__ceil__(), np.ceil),
    'arctan2': _bin(np.arctan2, satan2),
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'ascontiguousarray': np_asarray,
    'atleast_1d': lambda x: symview(np.atleast_1d(objarr(x))) if _needs(x) else np.atleast_1d(x),
    'zeros': _alloc(np.zeros), 'ones': _alloc(np.ones), 'empty': _alloc(np.empty), 'eye': _alloc(np.eye),
    'identity': _alloc(np.identity), 'full': np_full,
    'zeros_like': _alloc_like(np.zeros_like), 'ones_like': _alloc_like(np.ones_like),
    'empty_like': _alloc_like(np.empty_like),
    'dot': np_dot, 'matmul': np_dot, 'outer': np_outer, 'einsum': np_einsum,
    'vdot': lambda a, b: np_dot(NPT['conj'](a), b), 'inner': np_dot,
    'sum': _reduce(np.sum, _sum), 'prod': _reduce(np.prod, _prod),
    'max': _reduce(np.max, _max), 'min': _reduce(np.min, _min),
    'amax': _reduce(np.max, _max), 'amin': _reduce(np.min, _min),
    'nanmax': _reduce(np.nanmax, _max), 'nanmin': _reduce(np.nanmin, _min),
    'argmax': _reduce(np.argmax, _argmax), 'argmin': _reduce(np.argmin, _argmin),
    'all': _reduce(np.all, _all), 'any': _reduce(np.any, _any),
    'mean': np_mean, 'average': np_average, 'std': np_std, 'var': np_var, 'cov': np_cov,
    'where': np_where, 'allclose': np_allclose, 'isclose': np_isclose, 'array_equal': np_array_equal,
    'maximum': _bin(np.maximum, lambda a, b: _max([a, b])),
    'minimum': _bin(np.minimum, lambda a, b: _min([a, b])),
    'power': _bin(np.power, lambda a, b: a ** b), 'multiply': _bin(np.multiply, lambda a, b: a * b),
    'add': _bin(np.add, lambda a, b: a + b), 'subtract': _bin(np.subtract, lambda a, b: a - b),
    'divide': _bin(np.divide, lambda a, b: a / b), 'true_divide': _bin(np.divide, lambda a, b: a / b),
    'logical_and': _bin(np.logical_and, lambda a, b: a & b), 'logical_or': _bin(np.logical_or, lambda a, b: a | b),
    'logical_not': _scal(lambda x: ~x, np.logical_not),
    'less': _bin(np.less, lambda a, b: a < b), 'greater': _bin(np.greater, lambda a, b: a > b),
    'heaviside': np_heaviside, 'sign': np_sign, 'interp': np_interp, 'trapz': np_trapz,
    'linspace': np_linspace, 'logspace': np_logspace, 'diff': np_diff, 'cumsum': np_cumsum, 'isscalar': np_isscalar, 'ndim': np_ndim,
    'sort': np_sort, 'searchsorted': np_searchsorted, 'vectorize': np_vectorize, 'nan_to_num': np_nan_to_num, 'piecewise': np_piecewise,
    'clip': lambda x, a, b, **k: _map(lambda v: _min([_max([v, a]), b]), objarr(x)) if has_sym([x, a, b]) else np.clip(x, a, b, **k),
    'concatenate': _seq(np.concatenate), 'vstack': _seq(np.vstack), 'hstack': _seq(np.hstack),
    'stack': _seq(np.stack), 'column_stack': _seq(np.column_stack), 'block': np.block,
    'linalg': Proxy(np.linalg, {'det': la_det, 'inv': la_inv, 'slogdet': la_slogdet, 'eigvals': la_eigvals,
                                'eigvalsh': la_eigvals, 'solve': la_solve, 'norm': la_norm}),
}
for _n in ('diag', 'delete', 'insert', 'append', 'ravel', 'reshape', 'transpose', 'squeeze', 'fill_diagonal',
           'triu', 'tril', 'tile', 'repeat', 'roll', 'kron', 'trace', 'swapaxes', 'moveaxis', 'meshgrid', 'flip',
           'expand_dims', 'copy', 'take', 'tensordot', 'ix_', 'unique', 'arange'):
    NPT[_n] = _delegating(_n)
NPT['meshgrid'] = np_meshgrid
for _n in ('fromiter', 'loadtxt', 'histogram', 'arange', 'round'):
    NPT[_n] = _fixd(getattr(np, _n))

def _boolarr(f):
    def g(x, *a, **k):
        r = f(x, *a, **k)
        if isinstance(r, np.ndarray) and r.dtype == object:
            return np.vectorize(bool, otypes=[bool])(r) if r.size else r.astype(bool)
        return r
    return g


for _n in ('isnan', 'isinf', 'isfinite', 'isneginf', 'isposinf'):
    NPT[_n] = _boolarr(NPT[_n])

NP = Proxy(np, NPT)
MATHP = Proxy(math, MATH)
CMATHP = Proxy(cmath, CMATH)

# ------------------------------------------------------------ scipy


def _ufn(name, orig):
    E.FN_EVAL.setdefault(name, lambda *a: float(orig(*a)))

    def f(*a, **k):
        if has_sym(a):
            if any(is_arraylike(x) for x in a):
                arrs = np.broadcast_arrays(*[objarr(x) for x in a])
                out = np.empty(arrs[0].shape, dtype=object)
                for i in np.ndindex(out.shape):
                    out[i] = f(*[q[i] for q in arrs])
                return _out(out)
            if any(isinstance(x, SymComplex) for x in a):
                raise eng_unsupported(name + ' of a complex value')
            return SymReal(E.fn(name, *[term(x) for x in a]))
        return orig(*a, **k)
    return f


class SymFrozen:
    """symbolic scipy.stats distribution with closed-form densities"""


def _norm_logpdf(x, loc=0, scale=1):
    def one(v):
        z = (v - loc) / scale
        ls = scale.log() if is_sym(scale) else math.log(scale)
        return -z * z / 2 - ls - math.log(2 * math.pi) / 2
    if has_sym([x, loc, scale]):
        return _map(one, objarr(x)) if is_arraylike(x) else one(x)
    return scipy.stats.norm.logpdf(x, loc, scale)


def _norm_pdf(x, loc=0, scale=1):
    if has_sym([x, loc, scale]):
        return NPT['exp'](_norm_logpdf(x, loc, scale))
    return scipy.stats.norm.pdf(x, loc, scale)


def _unf(name, inv=None):
    """standardised distribution function as an uninterpreted function of z"""
    orig = getattr(scipy.stats.norm, name)
    key = 'norm' + name
    E.FN_EVAL.setdefault(key, lambda z: float(orig(z)))

    def f(x, loc=0, scale=1):
        if has_sym([x, loc, scale]):
            if is_arraylike(x):
                return _map(lambda v: f(v, loc, scale), objarr(x))
            if name in ('ppf', 'isf'):
                return loc + scale * normppf(x if name == 'ppf' else 1 - x)
            c = normcdf((x - loc) / scale)
            return 1 - c if name == 'sf' else c
        return orig(x, loc, scale)
    return f


def match_fn(t, name):
    """(application, complement): t equals an application of the function name, or one minus it"""
    if t.op == 'fn':
        return (t, False) if t.args[0] == name else (None, False)
    seen, todo, found = set(), [t], []
    while todo and len(seen) < 200:
        n = todo.pop()
        if id(n) in seen or not hasattr(n, 'op'):
            continue
        seen.add(id(n))
        if n.op == 'fn' and n.args[0] == name:
            found.append(n)
        else:
            todo += [x for x in n.args if hasattr(x, 'op')]
    if len(found) != 1:
        return None, False
    from .nf import NF
    from .explore import nf_difference
    for comp in (False, True):
        c = SymReal(found[0])
        try:
            if nf_difference(NF(), t, term(1 - c if comp else c))[0] == 'zero':
                return found[0], comp
        except Exception:
            return None, False
    return None, False


def normcdf(z):
    if is_sym(z):
        m, _ = match_fn(z.n, 'normppf')
        if m is not None and not _:
            return SymReal(m.args[1])
        return SymReal(E.fn('normcdf', z.n))
    return float(scipy.stats.norm.cdf(z))


def normppf(p):
    if is_sym(p):
        m, comp = match_fn(p.n, 'normcdf')
        if m is not None:
            return -SymReal(m.args[1]) if comp else SymReal(m.args[1])
        return SymReal(E.fn('normppf', p.n))
    return float(scipy.stats.norm.ppf(p))


def _mvn_logpdf(x, mean=None, cov=1, allow_singular=False):
    if has_sym([x]) or _needs(x) or _needs(mean) or _needs(cov):
        xo, mo, co = objarr(x), objarr(mean), np.asarray(objarr(cov))
        if xo.ndim == 2:
            out = np.empty(xo.shape[0], dtype=object)
            for i in range(xo.shape[0]):
                out[i] = _mvn_logpdf(xo[i], mo, co)
            return symview(out)
        if mo.ndim == 0:
            mo = mo.reshape(1)
        n = mo.size
        d = np.asarray(xo - mo).ravel()
        inv = np.asarray(la_inv(co))
        q = 0
        for i in range(n):
            for j in range(n):
                q = q + d[i] * inv[i, j] * d[j]
        det = sdet(co)
        ld = det.log() if is_sym(det) else math.log(det)
        return -q / 2 - ld / 2 - n * math.log(2 * math.pi) / 2
    return scipy.stats.multivariate_normal.logpdf(x, mean, cov, allow_singular)


def _mvn_pdf(x, mean=None, cov=1, allow_singular=False):
    r = _mvn_logpdf(x, mean, cov)
    return NPT['exp'](r)


class _Frozen:
    def __init__(self, table, a, k, orig):
        self.t, self.a, self.k, self.o = table, a, k, orig

    def __getattr__(self, n):
        f = self.__dict__['t'].get(n)
        if f is None:
            if not (has_sym(self.a) or has_sym(list(self.k.values()))):
                return getattr(self.o(*self.a, **self.k), n)
            raise eng_unsupported('method %s of a symbolic scipy distribution' % n)
        a, k = self.a, self.k
        return lambda x=None, **kw: f(x, *a, **k, **kw) if n != 'rvs' else f(*a, **k, **kw)


def _gamma(name):
    """standardised gamma distribution: cdf/ppf uninterpreted, inverse of each other"""
    orig = scipy.stats.gamma
    E.FN_EVAL.setdefault('gammacdf', lambda a, z: float(orig.cdf(z, a)))
    E.FN_EVAL.setdefault('gammappf', lambda a, q: float(orig.ppf(q, a)))
    E.FN_EVAL.setdefault('gammaln1', lambda a: float(scipy.special.gammaln(a)))

    def f(x, a, loc=0, scale=1):
        if not has_sym([x, a, loc, scale]):
            return getattr(orig, name)(x, a, loc=loc, scale=scale)
        if is_arraylike(x):
            return _map(lambda v: f(v, a, loc, scale), objarr(x))
        if name == 'ppf':
            if is_sym(x) and x.n.op == 'fn' and x.n.args[0] == 'gammacdf' and x.n.args[1] is term(a):
                z = SymReal(x.n.args[2])
            else:
                if not is_sym(x) and x == 0:
                    z = 0.0
                else:
                    z = SymReal(E.fn('gammappf', term(a), term(x)))
            return loc + scale * z
        z = (x - loc) / scale
        if bool(z <= 0):
            return 0.0 if name != 'logpdf' else -E.INF
        if name == 'cdf':
            if is_sym(z) and z.n.op == 'fn' and z.n.args[0] == 'gammappf' and z.n.args[1] is term(a):
                return SymReal(z.n.args[2])
            return SymReal(E.fn('gammacdf', term(a), term(z)))
        r = (a - 1) * NPT['log'](z) - z - SymReal(E.fn('gammaln1', term(a))) - NPT['log'](scale)
        return r if name == 'logpdf' else NPT['exp'](r)
    return f


def _chi2(name):
    orig = scipy.stats.chi2
    E.FN_EVAL.setdefault('chi2cdf', lambda x, n: float(orig.cdf(x, n)))
    E.FN_EVAL.setdefault('chi2ppf', lambda x, n: float(orig.ppf(x, n)))

    def f(x, df, loc=0, scale=1):
        if not has_sym([x, df, loc, scale]):
            return getattr(orig, name)(x, df, loc, scale)
        if is_arraylike(x):
            return _map(lambda v: f(v, df, loc, scale), objarr(x))
        if name == 'isf':
            return f.ppf(1 - x, df, loc, scale)
        if name == 'ppf':
            m, comp = match_fn(x.n, 'chi2cdf') if is_sym(x) else (None, False)
            if m is not None and not comp and m.args[2] is term(df):
                return loc + scale * SymReal(m.args[1])
            return loc + scale * SymReal(E.fn('chi2ppf', term(x), term(df)))
        z = (x - loc) / scale
        m, comp = match_fn(z.n, 'chi2ppf') if is_sym(z) else (None, False)
        if m is not None and not comp and m.args[2] is term(df):
            c = SymReal(m.args[1])
        else:
            c = SymReal(E.fn('chi2cdf', term(z), term(df)))
        return 1 - c if name == 'sf' else c
    if name == 'isf':
        f.ppf = _chi2('ppf')
    return f


def _fftconvolve(a, b, mode='full', axes=None):
    if not (_needs(a) or _needs(b)):
        return scipy.signal.fftconvolve(a, b, mode)
    A, B = objarr(a), objarr(b)
    if A.ndim != B.ndim:
        raise ValueError('in1 and in2 should have the same dimensionality')
    full = np.full(tuple(x + y - 1 for x, y in zip(A.shape, B.shape)), 0.0, dtype=object)
    for i in np.ndindex(A.shape):
        for j in np.ndindex(B.shape):
            k = tuple(x + y for x, y in zip(i, j))
            full[k] = full[k] + A[i] * B[j]
    if mode == 'full':
        return symview(full)
    if mode != 'same':
        raise eng_unsupported('convolution mode ' + mode)
    sl = tuple(slice((f - n) // 2, (f - n) // 2 + n) for f, n in zip(full.shape, A.shape))
    return symview(full[sl])


class RandStub:
    """stands for numpy.random: every draw is an arbitrary value of its range;
    make_real(name, lo, hi) and make_choice(name, options) come from the harness context"""

    def __init__(self, ctx, orig):
        self._c, self._o, self._n = ctx, orig, 0
        self.draws = []

    def _name(self):
        self._n += 1
        return 'draw%d' % self._n

    def _u(self):
        v = self._c.real(self._name(), 0.001, 0.999)
        self.draws.append(v)
        return v

    def _z(self):
        v = self._c.real(self._name(), -5, 5)
        self.draws.append(v)
        return v

    def _fill(self, size, f):
        if size is None:
            return f()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            out[i] = f()
        if not self._c.symbolic:
            return out.astype(float)
        return symview(out)

    def _bc(self, f, a, b, size):
        if size is None and (is_arraylike(a) or is_arraylike(b)):
            A, B = np.broadcast_arrays(objarr(a), objarr(b))
            out = np.empty(A.shape, dtype=object)
            for i in np.ndindex(A.shape):
                out[i] = f(A[i], B[i])
            return symview(out) if self._c.symbolic else out.astype(float)
        return self._fill(size, lambda: f(a, b))

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._bc(lambda a, b: a + (b - a) * self._u(), low, high, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._bc(lambda a, b: a + b * self._z(), loc, scale, size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return self._bc(lambda a, b: NPT['exp'](a + b * self._z()), mean, sigma, size)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def random(self, size=None):
        return self.uniform(size=size)

    random_sample = rand1 = random

    def rand(self, *s):
        return self.uniform(size=s if s else None)

    def randn(self, *s):
        return self.normal(size=s if s else None)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        r = list(range(int(low), int(high)))

        def f():
            v = self._c.choice(self._name(), r)
            self.draws.append(v)
            return v
        x = self._fill(size, f)
        return x

    def choice(self, a, size=None, **k):
        l = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)

        def f():
            v = self._c.choice(self._name(), l)
            self.draws.append(v)
            return v
        return self._fill(size, f)

    def multivariate_normal(self, mean, cov, size=None):
        n = len(mean)
        C = objarr(cov)
        L = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                t = C[i, j] - sum(L[i][k] * L[j][k] for k in range(j))
                L[i][j] = _sq(t) if i == j and is_sym(t) else (math.sqrt(max(t, 0.0)) if i == j else (t / L[j][j] if (is_sym(L[j][j]) or L[j][j] != 0) else 0.0))

        def one():
            z = [self._z() for _ in range(n)]
            return [mean[i] + sum(L[i][j] * z[j] for j in range(i + 1)) for i in range(n)]
        shape = () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))
        out = np.empty(shape + (n,), dtype=object)
        for i in np.ndindex(shape):
            out[i] = one()
        return symview(out) if self._c.symbolic else out.astype(float)

    def seed(self, *a):
        pass

    def __getattr__(self, k):
        if self.__dict__['_c'].symbolic:
            raise eng_unsupported('numpy.random.' + k)
        return getattr(self.__dict__['_o'], k)


class _Cls:
    def __init__(self, orig, table):
        self._orig = orig
        self._table = table

    def __getattr__(self, k):
        t = self.__dict__['_table']
        return t[k] if k in t else getattr(self.__dict__['_orig'], k)

    def __call__(self, *a, **k):
        return _Frozen(self._table, a, k, self._orig) if self._table else self._orig(*a, **k)


def _lognorm(name):
    def f(x, s, loc=0, scale=1):
        if has_sym([x, s, loc, scale]):
            if is_arraylike(x):
                return _map(lambda v: f(v, s, loc, scale), objarr(x))
            lsc = scale.log() if is_sym(scale) else math.log(scale)
            if name == 'ppf':
                return loc + NPT['exp'](lsc + s * normppf(x))
            if bool(x - loc <= 0):
                return -E.INF if name == 'logpdf' else 0.0
            y = (x - loc)
            ly = y.log() if is_sym(y) else math.log(y)
            z = (ly - lsc) / s
            if name == 'cdf':
                return normcdf(z)
            r = -z * z / 2 - (NPT['log'](s)) - ly - math.log(2 * math.pi) / 2
            return r if name == 'logpdf' else NPT['exp'](r)
        return getattr(scipy.stats.lognorm, name)(x, s, loc=loc, scale=scale)
    return f


def _halfnorm(name):
    def f(x, loc=0, scale=1):
        if has_sym([x, loc, scale]):
            if is_arraylike(x):
                return _map(lambda v: f(v, loc, scale), objarr(x))
            if name == 'ppf':
                return loc + scale * normppf((1 + x) / 2)
            if bool(x < loc):
                return -E.INF if name == 'logpdf' else 0.0
            if name == 'cdf':
                return 2 * normcdf((x - loc) / scale) - 1
            z = (x - loc) / scale
            r = -z * z / 2 - NPT['log'](scale) + math.log(2 / math.pi) / 2
            return r if name == 'logpdf' else NPT['exp'](r)
        return getattr(scipy.stats.halfnorm, name)(x, loc=loc, scale=scale)
    return f


class SymInterp1d:
    """linear interpolation with symbolic knots or abscissae"""

    def __init__(self, x, y, kind='linear', fill_value=None, bounds_error=None, **k):
        self.spline = None
        if kind in ('quadratic', 'cubic', 2, 3) and not has_sym(list(objarr(x))) and objarr(y).ndim == 1:
            # splines are linear in the ordinates
            xs = np.array([float(t) for t in objarr(x)])
            self.spline = scipy.interpolate.interp1d(xs, np.eye(len(xs)), kind=kind, axis=0)
        elif kind not in ('linear', 1):
            raise eng_unsupported('interp1d kind %s' % kind)
        self.x, self.y = list(objarr(x)), list(objarr(y))
        self.fill = fill_value
        self.bounds_error = bounds_error if bounds_error is not None else (fill_value is None)

    def _one(self, v):
        x, y = self.x, self.y
        if bool(v < x[0]) or bool(v > x[-1]):
            if self.bounds_error:
                raise ValueError('A value in x_new is outside the interpolation range.')
            f = self.fill
            if isinstance(f, str):
                raise eng_unsupported('extrapolating interp1d')
            if isinstance(f, tuple):
                return f[0] if bool(v < x[0]) else f[1]
            return float('nan') if f is None else f
        if self.spline is not None:
            if has_sym([v]):
                raise eng_unsupported('spline at a symbolic abscissa')
            return sum(float(w) * t for w, t in zip(self.spline(float(v)), y) if w != 0)
        for i in range(len(x) - 1):
            if bool(v <= x[i + 1]) or i == len(x) - 2:
                return y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])

    def __call__(self, v):
        if is_arraylike(v):
            return _map(self._one, objarr(v))
        return self._one(v)


def _interp1d(x, y, *a, **k):
    import scipy.interpolate
    if _needs(x) or _needs(y):
        return SymInterp1d(x, y, *a, **k)
    return scipy.interpolate.interp1d(np.asarray(x, dtype=float), np.asarray(y), *a, **k)


class SymGrid:
    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=float('nan')):
        if method != 'linear':
            raise eng_unsupported('grid interpolation ' + method)
        self.p = [list(objarr(x)) for x in points]
        self.v = objarr(values)
        self.be, self.fill = bounds_error, fill_value

    def _one(self, pt):
        idx, w = [], []
        for g, x in zip(self.p, pt):
            if bool(x < g[0]) or bool(x > g[-1]):
                if self.be:
                    raise ValueError('One of the requested xi is out of bounds')
                return self.fill
            for i in range(len(g) - 1):
                if bool(x <= g[i + 1]) or i == len(g) - 2:
                    idx.append(i)
                    w.append((x - g[i]) / (g[i + 1] - g[i]))
                    break
        import itertools
        r = 0
        for c in itertools.product((0, 1), repeat=len(idx)):
            t = self.v[tuple(i + d for i, d in zip(idx, c))]
            for d, ww in zip(c, w):
                t = t * (ww if d else 1 - ww)
            r = r + t
        return r

    def __call__(self, pt, method=None):
        a = objarr(pt)
        if a.ndim == 1:
            a = a[None]
        sh = a.shape[:-1]
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            out[i] = self._one(list(a[i]))
        return symview(out)


def _rgi(points, values, *a, **k):
    import scipy.interpolate
    if any(_needs(x) for x in points) or _needs(values):
        return SymGrid(points, values, *a, **k)
    return scipy.interpolate.RegularGridInterpolator(points, values, *a, **k)


class SymSpectrum:
    """eigenvalues of a symmetric symbolic matrix, known through definiteness:
    all > 0 iff the leading principal minors are (Sylvester)"""

    def __init__(self, m):
        self.m = m

    def _minors(self):
        return [sdet(self.m[:k, :k]) for k in range(1, self.m.shape[0] + 1)]

    def __gt__(self, o):
        if is_sym(o) or o != 0:
            raise eng_unsupported('eigenvalue comparison')
        return symview(objarr([x > 0 if is_sym(x) else bool(x > 0) for x in self._minors()]))

    def __getattr__(self, k):
        raise eng_unsupported('eigenvalues of a symbolic matrix (%s)' % k)


STATS = Proxy(scipy.stats, {
    'norm': _Cls(scipy.stats.norm, {'logpdf': _norm_logpdf, 'pdf': _norm_pdf, 'cdf': _unf('cdf'), 'ppf': _unf('ppf'), 'sf': _unf('sf'), 'isf': _unf('isf')}),
    'lognorm': _Cls(scipy.stats.lognorm, {n: _lognorm(n) for n in ('logpdf', 'pdf', 'cdf', 'ppf')}),
    'halfnorm': _Cls(scipy.stats.halfnorm, {n: _halfnorm(n) for n in ('logpdf', 'pdf', 'cdf', 'ppf')}),
    'multivariate_normal': _Cls(scipy.stats.multivariate_normal, {'logpdf': _mvn_logpdf, 'pdf': _mvn_pdf}),
    'gamma': _Cls(scipy.stats.gamma, {n: _gamma(n) for n in ('cdf', 'ppf', 'logpdf', 'pdf')}),
    'chi2': _Cls(scipy.stats.chi2, {n: _chi2(n) for n in ('cdf', 'ppf', 'sf', 'isf')}),
})


def _gegenbauer(n, alpha, x):
    if not has_sym([n, alpha, x]) or not isinstance(n, int):
        return scipy.special.eval_gegenbauer(n, alpha, x)
    a, b = 1, 2 * alpha * x
    if n == 0:
        return a
    for k in range(2, n + 1):
        a, b = b, (2 * (k + alpha - 1) * x * b - (k + 2 * alpha - 2) * a) / k
    return b


SPECIAL = Proxy(scipy.special, {
    'eval_gegenbauer': _gegenbauer,
    'expi': _ufn('expi', scipy.special.expi), 'spence': _ufn('spence', scipy.special.spence),
    'erf': _ufn('serf', scipy.special.erf), 'gamma': _ufn('sgamma', scipy.special.gamma),
    'gammaln': _ufn('sgammaln', scipy.special.gammaln),
})
import scipy.interpolate
INTERP = Proxy(scipy.interpolate, {'interp1d': _interp1d, 'RegularGridInterpolator': _rgi})
import scipy.signal
SIGNAL = Proxy(scipy.signal, {'fftconvolve': _fftconvolve, 'convolve': _fftconvolve})
SCIPY = Proxy(scipy, {'signal': SIGNAL, 'stats': STATS, 'special': SPECIAL, 'interpolate': INTERP})

MODMAP = {id(np): NP, id(math): MATHP, id(cmath): CMATHP, id(scipy): SCIPY, id(scipy.stats): STATS,
          id(scipy.special): SPECIAL, id(scipy.interpolate): INTERP, id(scipy.signal): SIGNAL}
FUNMAP = {}
for _tab, _mod in ((MATH, math), (CMATH, cmath), (NPT, np)):
    for _k, _v in _tab.items():
        _o = getattr(_mod, _k, None)
        if _o is not None and not isinstance(_o, types.ModuleType):
            FUNMAP.setdefault(id(_o), (_o, _v))


FUNMAP[id(scipy.special.eval_gegenbauer)] = (scipy.special.eval_gegenbauer, _gegenbauer)
FUNMAP[id(scipy.interpolate.interp1d)] = (scipy.interpolate.interp1d, _interp1d)
FUNMAP[id(scipy.interpolate.RegularGridInterpolator)] = (scipy.interpolate.RegularGridInterpolator, _rgi)


def install(prefixes=('flavio', 'ckmutil')):
    """replace numeric names in the globals of the loaded modules under test"""
    import sys
    undo = []
    seen = set()
    for name, mod in list(sys.modules.items()):
        if mod is None or not any(name == p or name.startswith(p + '.') for p in prefixes):
            continue
        if '.test_' in name or id(mod) in seen:
            continue
        seen.add(id(mod))
        d = mod.__dict__
        for k, v in list(d.items()):
            if k.startswith('__'):
                continue
            new = None
            if isinstance(v, types.ModuleType):
                new = MODMAP.get(id(v))
            elif id(v) in FUNMAP and FUNMAP[id(v)][0] is v and callable(v):
                new = FUNMAP[id(v)][1]
            elif isinstance(v, np.vectorize):
                new = np_vectorize(v.pyfunc)
            if new is not None:
                undo.append((d, k, v))
                d[k] = new
        for k, v in (('float', FloatProxy), ('complex', ComplexProxy), ('int', IntProxy)):
            if k not in d:
                d[k] = v
                undo.append((d, k, None))
    return undo


def uninstall(undo):
    for d, k, v in reversed(undo):
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
