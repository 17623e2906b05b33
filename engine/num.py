"""Scalar functions for reference models: work on symbolic and plain numbers."""
import cmath
import math
import numpy as np
from .sym import SymReal, SymComplex, SymBool, is_sym, ssqrt, slog, satan2, parts, term
from . import expr as E

pi = math.pi


def sqrt(x):
    if isinstance(x, SymComplex):
        return x.sqrt()
    if isinstance(x, SymReal):
        return SymReal(E.sqrt(x.n))
    if isinstance(x, (complex, np.complexfloating)):
        return cmath.sqrt(x)
    return math.sqrt(x)


def csqrt(x):
    """principal complex square root"""
    if is_sym(x):
        z = x if isinstance(x, SymComplex) else SymComplex(x.n, E.ZERO)
        return z.sqrt()
    return cmath.sqrt(x)


def _f(name, m, c):
    def f(x):
        if is_sym(x):
            return getattr(x, name)()
        if isinstance(x, (complex, np.complexfloating)):
            return c(x)
        return m(x)
    return f


exp = _f('exp', math.exp, cmath.exp)
log = _f('log', math.log, cmath.log)
cos = _f('cos', math.cos, cmath.cos)
sin = _f('sin', math.sin, cmath.sin)
tan = _f('tan', math.tan, cmath.tan)
atan = _f('arctan', math.atan, cmath.atan)
acos = _f('arccos', math.acos, cmath.acos)
asin = _f('arcsin', math.asin, cmath.asin)


def re(x):
    return x.real


def im(x):
    return x.imag


def conj(x):
    return x.conjugate()


def abs2(x):
    if is_sym(x):
        return x.real * x.real + x.imag * x.imag
    return abs(x) ** 2


def phase(z):
    if is_sym(z):
        z = z if isinstance(z, SymComplex) else SymComplex(z.n, E.ZERO)
        return z.phase()
    return cmath.phase(z)


def cexp(phi):
    """exp(i*phi)"""
    if is_sym(phi):
        return SymComplex(E.fn('cos', phi.n), E.fn('sin', phi.n))
    return cmath.exp(1j * phi)


def cplx(a, b):
    if is_sym(a) or is_sym(b):
        return SymComplex(term(a), term(b))
    return complex(a, b)


def lam(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + b * c + c * a)
