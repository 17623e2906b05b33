"""Symbolic values: numbers that record the real-arithmetic term computed on
them while CPython executes flavio's own bytecode."""
import math
import numbers
from fractions import Fraction
import numpy as np
from . import expr as E


class Unsupported(BaseException):
    """The code did something this encoding has no symbolic meaning for."""


class PathAbort(BaseException):
    """The current path is infeasible or excluded by an assumption."""


class Engine:
    cur = None


def eng():
    if Engine.cur is None:
        raise Unsupported('symbolic value used outside an exploration')
    return Engine.cur


def is_sym(x):
    return isinstance(x, (SymReal, SymComplex, SymBool))


def has_sym(x, depth=0):
    if isinstance(x, (SymReal, SymComplex, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(has_sym(y) for y in x.flat)
        return False
    if isinstance(x, (list, tuple, set, frozenset)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


def term(x):
    """term of a real-valued python object, or None"""
    if isinstance(x, SymReal):
        return x.n
    if isinstance(x, SymBool):
        return E.ite(x.c, E.ONE, E.ZERO)
    if isinstance(x, (bool, np.bool_)):
        return E.const(int(x))
    if isinstance(x, (int, np.integer)):
        return E.const(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (E.INF, -E.INF):
            return None
        return E.const(x)
    if isinstance(x, Fraction):
        return E.const(x)
    return None


def is_complexlike(x):
    return isinstance(x, (complex, np.complexfloating, SymComplex))


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def parts(x):
    """(re, im) terms of a number"""
    if isinstance(x, SymComplex):
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)):
        return E.const(float(x.real)), E.const(float(x.imag))
    t = term(x)
    if t is None:
        return None
    return t, E.ZERO


def mk(n):
    """wrap a real term; constants stay symbolic only if needed"""
    return SymReal(n)


def mkc(re, im):
    return SymComplex(re, im)


def _arr(op, a, b):
    """elementwise op with an ndarray operand"""
    out = np.empty(b.shape if isinstance(b, np.ndarray) else a.shape, dtype=object)
    from .symnp import symview
    if isinstance(b, np.ndarray):
        for i in np.ndindex(b.shape):
            out[i] = op(a, b[i])
    else:
        for i in np.ndindex(a.shape):
            out[i] = op(a[i], b)
    return symview(out)


def _lst(o):
    """a list combined with a number: numpy scalars turn it into an array"""
    from .symnp import symview
    return symview(np.array(o, dtype=object))


class SymBool:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return eng().decide(self.c)

    def _c(self, o):
        if isinstance(o, SymBool):
            return o.c
        if isinstance(o, (bool, np.bool_)):
            return E.TRUE if o else E.FALSE
        return None

    def __and__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else SymBool(E.band(self.c, c))
    __rand__ = __and__

    def __or__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else SymBool(E.bor(self.c, c))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return SymBool(E.bor(E.band(self.c, E.bnot(c)), E.band(E.bnot(self.c), c)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(E.bnot(self.c))

    def logical_not(self):
        return SymBool(E.bnot(self.c))

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def __eq__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return SymBool(E.bnot(E.bor(E.band(self.c, E.bnot(c)), E.band(E.bnot(self.c), c))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return self.c.nid

    # arithmetic use (masks)
    def __mul__(self, o):
        return SymReal(term(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return SymReal(term(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return 'SymBool(%r)' % self.c

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self


def _binop(name):
    def dec(f):
        def op(self, o):
            if isinstance(o, np.ndarray):
                if o.ndim == 0:
                    o = o.item()
                else:
                    return _arr(lambda a, b: getattr(a, name)(b) if is_sym(a) else NotImplemented, self, o)
            return f(self, o)
        op.__name__ = name
        return op
    return dec


class _Num(numbers.Number):
    __slots__ = ()
    __array_priority__ = 1000

    # never silently become concrete
    def __float__(self):
        t = self.const_value()
        if t is not None and not isinstance(t, complex):
            return float(t)
        raise eng_unsupported('float() of a symbolic value')

    def __complex__(self):
        t = self.const_value()
        if t is not None:
            return complex(t)
        raise eng_unsupported('complex() of a symbolic value')

    def __int__(self):
        t = self.const_value()
        if t is not None and not isinstance(t, complex):
            return int(t)
        raise eng_unsupported('int() of a symbolic value')

    def __index__(self):
        t = self.const_value()
        if t is not None and not isinstance(t, complex) and float(t).is_integer():
            return int(t)
        raise eng_unsupported('index from a symbolic value')

    def __round__(self, nd=None):
        raise eng_unsupported('round() of a symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def conjugate(self):
        raise NotImplementedError

    def conj(self):
        return self.conjugate()

    # numpy's object loops call these
    def square(self):
        return self * self

    def log10(self):
        return self.log() / math.log(10)

    def log2(self):
        return self.log() / math.log(2)

    def __truediv__(self, o):
        return self._div(o)

    def __pos__(self):
        return self


def eng_unsupported(msg):
    if Engine.cur is not None:
        Engine.cur.unsupported = msg
    return Unsupported(msg)


class SymReal(_Num):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def const_value(self):
        if self.n.op == 'const':
            f = self.n.args[0]
            return int(f) if f.denominator == 1 and False else float(f)
        return None

    def __repr__(self):
        return 'Sym(%s)' % E.to_str(self.n, 3)

    def __hash__(self):
        if self.n.op == 'const':
            return hash(float(self.n.args[0]))
        return hash(('sym', self.n.nid))

    def __bool__(self):
        return eng().decide(E.bnot(E.eq(self.n, E.ZERO)))

    real = property(lambda self: self)
    imag = property(lambda self: SymReal(E.ZERO))

    def conjugate(self):
        return self

    def is_integer(self):
        return float(self).is_integer()

    # -- arithmetic
    def _lift(self, o):
        return term(o)

    def _nf(self, o, op):
        """arithmetic with inf / nan"""
        o = float(o)
        if o != o:
            return float('nan')
        if op in ('add', 'radd'):
            return o
        if op == 'sub':
            return -o
        if op == 'rsub':
            return o
        if op in ('mul', 'rmul', 'rdiv'):
            if bool(self > 0):
                return o
            if bool(self < 0):
                return -o
            return float('nan')
        if op == 'div':
            return SymReal(E.ZERO)
        raise eng_unsupported('non-finite arithmetic')

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a + b, self, o) if o.ndim else self + o.item()
        if is_complexlike(o):
            return SymComplex(self.n, E.ZERO) + o
        t = term(o)
        if t is None:
            return self._nf(o, 'add') if _nonfinite(o) else NotImplemented
        return SymReal(E.add(self.n, t))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, list):
            o = _lst(o)
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a - b, self, o) if o.ndim else self - o.item()
        if is_complexlike(o):
            return SymComplex(self.n, E.ZERO) - o
        t = term(o)
        if t is None:
            return self._nf(o, 'sub') if _nonfinite(o) else NotImplemented
        return SymReal(E.sub(self.n, t))

    def __rsub__(self, o):
        if isinstance(o, list):
            o = _lst(o)
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a * b, self, o) if o.ndim else self * o.item()
        if is_complexlike(o):
            return SymComplex(self.n, E.ZERO) * o
        t = term(o)
        if t is None:
            return self._nf(o, 'mul') if _nonfinite(o) else NotImplemented
        return SymReal(E.mul(self.n, t))

    def __rmul__(self, o):
        return self.__mul__(o)

    def _div(self, o):
        if isinstance(o, list):
            o = _lst(o)
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a / b, self, o) if o.ndim else self / o.item()
        if is_complexlike(o):
            return SymComplex(self.n, E.ZERO) / o
        t = term(o)
        if t is None:
            return self._nf(o, 'div') if _nonfinite(o) else NotImplemented
        return safe_div(self.n, t)

    def __rtruediv__(self, o):
        if isinstance(o, list):
            o = _lst(o)
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a / b, o, self) if o.ndim else o.item() / self
        if is_complexlike(o):
            return SymComplex(*parts(o)) / self
        t = term(o)
        if t is None:
            return self._nf(o, 'rdiv') if _nonfinite(o) else NotImplemented
        return safe_div(t, self.n)

    def __neg__(self):
        return SymReal(E.neg(self.n))

    def __abs__(self):
        return SymReal(E.absv(self.n))

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a ** b, self, o)
        if is_complexlike(o):
            raise eng_unsupported('complex power')
        if isinstance(o, (bool, int, np.integer)):
            return ipow(self, int(o))
        if isinstance(o, Fraction) or isinstance(o, (float, np.floating)):
            if float(o).is_integer():
                return ipow(self, int(o))
            f = o if isinstance(o, Fraction) else E.simplest_fraction(o)
            if f.denominator == 2 and abs(f.numerator) < 40:
                k = (f.numerator - 1) // 2
                return ipow(self, k) * ssqrt(self, 'pow')
            need_nonneg(self.n, 'pow')
            return SymReal(E.fn('rpow', self.n, E.const(f)))
        if isinstance(o, SymReal):
            if o.n.op == 'const':
                return self ** o.n.args[0]
            need_nonneg(self.n, 'pow')
            return SymReal(E.fn('rpow', self.n, o.n))
        return NotImplemented

    def __rpow__(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        return SymReal(t) ** self

    def __mod__(self, o):
        # a - b*floor(a/b)
        q = (self / o).__floor__()
        return self - o * q

    def __rmod__(self, o):
        return SymReal(term(o)) % self

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __floor__(self):
        if self.n.op == 'const':
            return math.floor(self.n.args[0])
        if math.isfinite(self.n.lo) and math.isfinite(self.n.hi) and self.n.hi - self.n.lo < 12:
            k = math.floor(self.n.lo)
            while k <= math.floor(self.n.hi):
                if bool(self < k + 1):
                    return k
                k += 1
            return k
        raise eng_unsupported('floor of an unbounded symbolic value')

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if bool(self >= 0):
            return self.__floor__()
        return self.__ceil__()

    # -- comparison
    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: f(a, b), self, o) if o.ndim else f(self, o.item())
        return None

    def __lt__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _arr(lambda a, b: a < b, self, o)
        t = term(o)
        if t is None:
            if _nonfinite(o):
                return SymBool(E.TRUE if float(o) == E.INF else E.FALSE)
            return NotImplemented
        return mkbool(E.lt(self.n, t))

    def __le__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _arr(lambda a, b: a <= b, self, o)
        t = term(o)
        if t is None:
            if _nonfinite(o):
                return SymBool(E.TRUE if float(o) == E.INF else E.FALSE)
            return NotImplemented
        return mkbool(E.le(self.n, t))

    def __gt__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _arr(lambda a, b: a > b, self, o)
        t = term(o)
        if t is None:
            if _nonfinite(o):
                return SymBool(E.TRUE if float(o) == -E.INF else E.FALSE)
            return NotImplemented
        return mkbool(E.lt(t, self.n))

    def __ge__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _arr(lambda a, b: a >= b, self, o)
        t = term(o)
        if t is None:
            if _nonfinite(o):
                return SymBool(E.TRUE if float(o) == -E.INF else E.FALSE)
            return NotImplemented
        return mkbool(E.le(t, self.n))

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _arr(lambda a, b: a == b, self, o)
        if isinstance(o, SymComplex):
            return o == self
        if isinstance(o, (complex, np.complexfloating)):
            if o.imag != 0:
                return False
            o = o.real
        t = term(o)
        if t is None:
            return False
        return mkbool(E.eq(self.n, t))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is False:
            return True
        if isinstance(r, np.ndarray):
            return _arr(lambda a, b: a != b, self, o)
        return ~r if isinstance(r, SymBool) else (not r)

    # -- elementary functions (numpy's object loops use these methods)
    def sqrt(self):
        return ssqrt(self, 'np')

    def exp(self):
        return SymReal(E.fn('exp', self.n))

    def log(self):
        return slog(self)

    def sin(self):
        return SymReal(E.fn('sin', self.n))

    def cos(self):
        return SymReal(E.fn('cos', self.n))

    def tan(self):
        return self.sin() / self.cos()

    def arctan(self):
        return SymReal(E.fn('atan', self.n))

    def arctan2(self, x):
        return satan2(self, x)

    def arcsin(self):
        return SymReal(E.fn('asin', self.n))

    def arccos(self):
        return SymReal(E.fn('acos', self.n))

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def tanh(self):
        return self.sinh() / self.cosh()

    def arctanh(self):
        return ((1 + self) / (1 - self)).log() / 2

    def arccosh(self):
        return (self + (self * self - 1).sqrt()).log()

    def arcsinh(self):
        return (self + (self * self + 1).sqrt()).log()

    def log1p(self):
        return (1 + self).log()

    def expm1(self):
        return self.exp() - 1

    def fabs(self):
        return abs(self)

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def isinf(self):
        return False

    def rint(self):
        return self.__round__()


def mkbool(c):
    if c is E.TRUE:
        return SymBool(E.TRUE)
    return SymBool(c)


def safe_div(a, b):
    if b.op == 'const':
        if b.args[0] == 0:
            raise ZeroDivisionError('float division by zero')
        return SymReal(E.div(a, b))
    if a is E.ZERO and not (b.lo <= 0 <= b.hi):
        return SymReal(E.ZERO)
    if b.lo <= 0 <= b.hi:
        eng().nonzero(b)
    return SymReal(E.div(a, b))


def ipow(x, k):
    if k < 0:
        return safe_div(E.ONE, E.powi(x.n, -k)) if x.n.op == 'const' else _ipowneg(x, k)
    return SymReal(E.powi(x.n, k))


def _ipowneg(x, k):
    if x.n.lo <= 0 <= x.n.hi:
        eng().nonzero(x.n)
    return SymReal(E.powi(x.n, k))


def need_nonneg(n, what):
    """domain condition of sqrt/log/pow: fork on its violation"""
    if n.lo >= 0:
        return
    eng().domain(n, what)


def ssqrt(x, what='np'):
    if not isinstance(x, SymReal):
        raise eng_unsupported('sqrt')
    if x.n.lo < 0:
        if what == 'pow':
            # python: negative ** 0.5 is complex
            if bool(x < 0):
                raise eng_unsupported('negative base of a fractional power')
        elif bool(x < 0):
            if what == 'math':
                raise ValueError('math domain error')
            eng().note_nan('sqrt of a negative number')
            return float('nan')
    return SymReal(E.sqrt(x.n))


def slog(x, what='np'):
    if x.n.lo <= 0:
        if bool(x <= 0):
            if what == 'math':
                raise ValueError('math domain error')
            if bool(x < 0):
                eng().note_nan('log of a negative number')
                return float('nan')
            return -E.INF
    return SymReal(E.fn('log', x.n))


def satan2(y, x):
    ty, tx = term(y), term(x)
    if ty.op == 'const' and tx.op == 'const':
        return math.atan2(float(ty.args[0]), float(tx.args[0]))
    if ty is E.ZERO:
        # the phase of a real number
        return SymReal(E.ZERO) if bool(SymReal(tx) >= 0) else SymReal(E.const(math.pi))
    return SymReal(E.fn('atan2', ty, tx))


class SymComplex(_Num):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def const_value(self):
        if self.re.op == 'const' and self.im.op == 'const':
            return complex(float(self.re.args[0]), float(self.im.args[0]))
        return None

    def __repr__(self):
        return 'SymC(%s, %s)' % (E.to_str(self.re, 3), E.to_str(self.im, 3))

    def __hash__(self):
        return hash(('symc', self.re.nid, self.im.nid))

    @property
    def real(self):
        return SymReal(self.re)

    @property
    def imag(self):
        return SymReal(self.im)

    def conjugate(self):
        return SymComplex(self.re, E.neg(self.im))

    def __bool__(self):
        return eng().decide(E.bnot(E.band(E.eq(self.re, E.ZERO), E.eq(self.im, E.ZERO))))

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a + b, self, o) if o.ndim else self + o.item()
        p = parts(o)
        if p is None:
            return NotImplemented
        return SymComplex(E.add(self.re, p[0]), E.add(self.im, p[1]))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a - b, self, o) if o.ndim else self - o.item()
        p = parts(o)
        if p is None:
            return NotImplemented
        return SymComplex(E.sub(self.re, p[0]), E.sub(self.im, p[1]))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a * b, self, o) if o.ndim else self * o.item()
        p = parts(o)
        if p is None:
            return NotImplemented
        a, b = self.re, self.im
        c, d = p
        return SymComplex(E.sub(E.mul(a, c), E.mul(b, d)), E.add(E.mul(a, d), E.mul(b, c)))
    __rmul__ = __mul__

    def _div(self, o):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a / b, self, o) if o.ndim else self / o.item()
        p = parts(o)
        if p is None:
            if _nonfinite(o):
                return SymComplex(E.ZERO, E.ZERO)
            return NotImplemented
        c, d = p
        if d is E.ZERO:
            r = safe_div(E.ONE, c).n
            return SymComplex(E.mul(self.re, r), E.mul(self.im, r))
        den = E.add(E.powi(c, 2), E.powi(d, 2))
        r = safe_div(E.ONE, den).n
        a, b = self.re, self.im
        return SymComplex(E.mul(E.add(E.mul(a, c), E.mul(b, d)), r),
                          E.mul(E.sub(E.mul(b, c), E.mul(a, d)), r))

    def __rtruediv__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        return SymComplex(*p) / self

    def __neg__(self):
        return SymComplex(E.neg(self.re), E.neg(self.im))

    def __abs__(self):
        if self.im is E.ZERO:
            return SymReal(E.absv(self.re))
        if self.re is E.ZERO:
            return SymReal(E.absv(self.im))
        return SymReal(E.sqrt(E.add(E.powi(self.re, 2), E.powi(self.im, 2))))

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray):
            return _arr(lambda a, b: a ** b, self, o)
        if isinstance(o, SymReal) and o.n.op == 'const':
            o = float(o.n.args[0])
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            o = int(o)
        if isinstance(o, (int, np.integer)):
            k = int(o)
            if k < 0:
                return 1 / (self ** (-k))
            r = SymComplex(E.ONE, E.ZERO)
            for _ in range(k):
                r = r * self
            return r
        if self.im is E.ZERO:
            return SymReal(self.re) ** o + SymComplex(E.ZERO, E.ZERO)
        if isinstance(o, (float, np.floating)) and float(o) * 2 == int(float(o) * 2):
            return self.sqrt() * self ** int((2 * o - 1) / 2)
        raise eng_unsupported('complex power')

    def __rpow__(self, o):
        # real ** complex
        t = term(o)
        if t is None:
            return NotImplemented
        l = SymReal(t).log()
        return (self * l).exp()

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _arr(lambda a, b: a == b, self, o)
        p = parts(o) if not isinstance(o, (str, type(None))) else None
        if p is None:
            return False
        return SymBool(E.band(E.eq(self.re, p[0]), E.eq(self.im, p[1])))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)

    def __lt__(self, o):
        # numpy object arrays order complex lexicographically; python raises
        raise TypeError("'<' not supported between instances of 'complex' and 'float'")
    __gt__ = __le__ = __ge__ = __lt__

    def exp(self):
        e = E.fn('exp', self.re)
        return SymComplex(E.mul(e, E.fn('cos', self.im)), E.mul(e, E.fn('sin', self.im)))

    def sqrt(self):
        if self.im is E.ZERO:
            x = SymReal(self.re)
            if bool(x >= 0):
                return SymComplex(E.sqrt(self.re), E.ZERO)
            return SymComplex(E.ZERO, E.sqrt(E.neg(self.re)))
        # principal root: the larger component from the modulus, the other one from 2 u v = im
        m = abs(self)
        if bool(self.real > 0):
            u = E.sqrt(((m + self.real) / 2).n)
            return SymComplex(u, E.div(self.im, E.mul(E.const(2), u)))
        v = E.sqrt(((m - self.real) / 2).n)
        u = E.div(self.im, E.mul(E.const(2), v))
        if bool(SymReal(self.im) >= 0):
            return SymComplex(u, v)
        return SymComplex(E.neg(u), E.neg(v))

    def log(self):
        r2 = E.add(E.powi(self.re, 2), E.powi(self.im, 2))
        if self.im is E.ZERO:
            x = SymReal(self.re)
            if bool(x > 0):
                return SymComplex(E.fn('log', self.re), E.ZERO)
            return SymComplex(E.fn('log', E.neg(self.re)), E.const(math.pi))
        return SymComplex(E.mul(E.const(Fraction(1, 2)), E.fn('log', r2)),
                          term(satan2(SymReal(self.im), SymReal(self.re))))

    def phase(self):
        return satan2(SymReal(self.im), SymReal(self.re))

    def sin(self):
        i = SymComplex(E.ZERO, E.ONE)
        return ((i * self).exp() - (-(i * self)).exp()) / (2 * i)

    def cos(self):
        i = SymComplex(E.ZERO, E.ONE)
        return ((i * self).exp() + (-(i * self)).exp()) / 2

    def arctan(self):
        # i/2 (log(1-iz) - log(1+iz))
        i = SymComplex(E.ZERO, E.ONE)
        iz = i * self
        return i / 2 * ((1 - iz).log() - (1 + iz).log())

    def isfinite(self):
        return True

    def isnan(self):
        return False


class _One:
    pass
