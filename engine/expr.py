"""Hash-consed real-arithmetic terms.

Terms are immutable and interned: structural equality is object identity.
Real terms carry a float interval [lo, hi] (from the declared bounds of the
input variables), used to decide branches and signs cheaply.
"""
import math
from fractions import Fraction

INF = float('inf')
_table = {}
_counter = [0]
# term -> (lo, hi) refinements are not done; the interval is intrinsic


class Node:
    __slots__ = ('op', 'args', 'nid', 'lo', 'hi', '__weakref__')

    def __repr__(self):
        return to_str(self)

    def __hash__(self):
        return self.nid

    def __eq__(self, other):
        return self is other


def _mk(op, args, lo=-INF, hi=INF):
    key = (op,) + args
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        _counter[0] += 1
        n.nid = _counter[0]
        n.lo = lo
        n.hi = hi
        _table[key] = n
    return n


# ---------------------------------------------------------------- constants

def simplest_fraction(x):
    """The simplest rational that rounds to the double x."""
    x = float(x)
    if x != x or x in (INF, -INF):
        raise ValueError('non-finite constant')
    if x == 0:
        return Fraction(0)
    if x < 0:
        return -simplest_fraction(-x)
    if x.is_integer() and x < 2.0 ** 60:
        return Fraction(int(x))
    lo = (Fraction(x) + Fraction(math.nextafter(x, 0))) / 2
    hi = (Fraction(x) + Fraction(math.nextafter(x, INF))) / 2
    return _simplest_between(lo, hi)


def _simplest_between(lo, hi):
    # Stern-Brocot / continued fraction
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl) if fl > 0 or lo == 0 else lo
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = _simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_cf = {}


def const(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        f = Fraction(v)
    elif isinstance(v, Fraction):
        f = v
        if f.denominator.bit_length() > 220 or f.numerator.bit_length() > 2000:
            f = simplest_fraction(float(f))
    else:
        v = float(v)
        f = _cf.get(v)
        if f is None:
            f = simplest_fraction(v)
            if len(_cf) < 200000:
                _cf[v] = f
    c = float(f)
    return _mk('const', (f,), c, c)


ZERO = const(0)
ONE = const(1)
MONE = const(-1)


def is_const(n):
    return n.op == 'const'


def cval(n):
    return n.args[0]


def var(name, lo=-INF, hi=INF):
    return _mk('var', (name,), lo, hi)


# ---------------------------------------------------------------- intervals

def _down(x):
    return x if x in (INF, -INF) or x == 0 else math.nextafter(x, -INF)


def _up(x):
    return x if x in (INF, -INF) or x == 0 else math.nextafter(x, INF)


def _iadd(a, b):
    lo = a[0] + b[0]
    hi = a[1] + b[1]
    return (_down(lo) if lo == lo else -INF, _up(hi) if hi == hi else INF)


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def _imul(a, b):
    ps = [_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1])]
    return (_down(min(ps)), _up(max(ps)))


def _ipow(a, n):
    lo, hi = a
    if n < 0:
        if lo > 0 or hi < 0:
            r = _ipow(a, -n)
            l2 = 1 / r[1] if r[1] not in (0, INF, -INF) else 0.0
            h2 = 1 / r[0] if r[0] not in (0, INF, -INF) else (INF if r[0] == 0 else 0.0)
            if hi < 0 and n % 2:
                l2 = 1 / r[1] if r[1] not in (0, INF, -INF) else -INF
                h2 = 1 / r[0] if r[0] not in (0, INF, -INF) else 0.0
            return (_down(l2), _up(h2))
        if lo == 0:
            # strictly positive denominators assumed (b != 0 side condition)
            r = _ipow((lo, hi), -n)
            return (_down(1 / r[1]) if r[1] not in (0, INF) else 0.0, INF)
        if n % 2 == 0:
            return (0.0, INF)
        return (-INF, INF)
    try:
        if n % 2 == 0:
            if lo >= 0:
                return (_down(lo ** n), _up(hi ** n))
            if hi <= 0:
                return (_down(hi ** n), _up(lo ** n))
            return (0.0, _up(max(lo ** n, hi ** n)))
        return (_down(lo ** n), _up(hi ** n))
    except OverflowError:
        return (-INF if n % 2 and lo < 0 else 0.0, INF)


def iv(n):
    return (n.lo, n.hi)


# ---------------------------------------------------------------- real terms

def add(*xs):
    """n-ary sum, flattened, with constants and like terms collected."""
    c = Fraction(0)
    coef = {}
    order = []
    stack = list(xs)
    for x in stack:
        if x.op == 'const':
            c += x.args[0]
            continue
        terms = x.args if x.op == 'add' else (x,)
        for t in terms:
            if t.op == 'const':
                c += t.args[0]
                continue
            k = Fraction(1)
            b = t
            if t.op == 'mul' and t.args[0].op == 'const':
                k = t.args[0].args[0]
                rest = t.args[1:]
                b = rest[0] if len(rest) == 1 else _mulraw(rest)
            if b in coef:
                coef[b] += k
            else:
                coef[b] = k
                order.append(b)
    out = []
    for b in order:
        k = coef[b]
        if k == 0:
            continue
        if k == 1:
            out.append(b)
        else:
            out.append(mul(const(k), b))
    if not out:
        return const(c)
    if c != 0:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.nid)
    i = (0.0, 0.0)
    for o in out:
        i = _iadd(i, iv(o))
    return _mk('add', tuple(out), i[0], i[1])


def _mulraw(args):
    i = (1.0, 1.0)
    for a in args:
        i = _imul(i, iv(a))
    return _mk('mul', tuple(args), i[0], i[1])


def mul(*xs):
    c = Fraction(1)
    expo = {}
    order = []
    stack = list(xs)
    while stack:
        x = stack.pop(0)
        if x.op == 'const':
            c *= x.args[0]
            if c == 0:
                return ZERO
            continue
        if x.op == 'mul':
            stack = list(x.args) + stack
            continue
        if x.op == 'pow':
            b, e = x.args
        else:
            b, e = x, 1
        if b in expo:
            expo[b] += e
        else:
            expo[b] = e
            order.append(b)
    out = []
    again = []
    for b in order:
        e = expo[b]
        if e == 0:
            continue
        if b.op == 'sqrt' and (e > 1 or e < -1):
            q, r = divmod(e, 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            again.append(powi(b.args[0], q))
            if r:
                out.append(_powraw(b, r))
        elif b.op == 'abs' and e % 2 == 0:
            again.append(powi(b.args[0], e))
        else:
            out.append(_powraw(b, e) if e != 1 else b)
    if again:
        return mul(const(c), *out, *again)
    if not out:
        return const(c)
    if len(out) == 1 and c == 1:
        return out[0]
    out.sort(key=lambda n: n.nid)
    if len(out) == 1 and out[0].op == 'add' and len(out[0].args) <= 40:
        # distribute a constant over a sum (keeps like terms collectable)
        return add(*[mul(const(c), t) for t in out[0].args])
    if c != 1:
        out.insert(0, const(c))
    return _mulraw(out)


def _powraw(b, e):
    if e == 1:
        return b
    i = _ipow(iv(b), e)
    return _mk('pow', (b, e), i[0], i[1])


def powi(b, e):
    e = int(e)
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op == 'const':
        if b.args[0] == 0:
            if e < 0:
                raise ZeroDivisionError('division by zero')
            return ZERO
        return const(b.args[0] ** e)
    if b.op == 'pow':
        return powi(b.args[0], b.args[1] * e)
    if b.op == 'mul':
        return mul(*[powi(a, e) for a in b.args])
    if b.op == 'sqrt':
        return mul(_powraw(b, e)) if abs(e) == 1 else mul(_powraw(b, e))
    if b.op == 'abs' and e % 2 == 0:
        return powi(b.args[0], e)
    return _powraw(b, e)


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, powi(b, -1))


def _exact_sqrt(f):
    if f < 0:
        return None
    p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if p * p == f.numerator and q * q == f.denominator:
        return Fraction(p, q)
    return None


def sqrt(a):
    if a.op == 'const':
        if a.args[0] < 0:
            raise ValueError('math domain error')
        r = _exact_sqrt(a.args[0])
        if r is not None:
            return const(r)
        return const(math.sqrt(float(a.args[0])))
    if a.op == 'pow' and a.args[1] % 2 == 0:
        h = powi(a.args[0], a.args[1] // 2)
        return absv(h)
    if a.op == 'mul':
        # pull out constants and factors of known sign
        outer, inner = [], []
        for f in a.args:
            if f.op == 'const' and f.args[0] > 0:
                outer.append(sqrt(f))
            elif f.op == 'pow' and f.args[1] % 2 == 0:
                outer.append(absv(powi(f.args[0], f.args[1] // 2)))
            elif f.lo > 0 or (f.lo >= 0 and f.op != 'const'):
                if f.op == 'pow':
                    e = f.args[1]
                    b = f.args[0]
                    outer.append(powi(b, (e - 1) // 2))
                    outer.append(_sqrtraw(b))
                else:
                    outer.append(_sqrtraw(f))
            else:
                inner.append(f)
        if outer:
            if inner:
                outer.append(sqrt(mul(*inner)) if len(inner) == 1 else _sqrtraw(_mulraw(tuple(inner))))
            return mul(*outer)
    return _sqrtraw(a)


def _sqrtraw(a):
    if a.op == 'const':
        return sqrt(a)
    lo = math.sqrt(a.lo) if a.lo > 0 else 0.0
    hi = math.sqrt(a.hi) if 0 < a.hi < INF else (INF if a.hi == INF else 0.0)
    return _mk('sqrt', (a,), _down(lo) if lo > 0 else 0.0, _up(hi))


def absv(a):
    if a.op == 'const':
        return const(abs(a.args[0]))
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    if a.op == 'mul':
        return mul(*[absv(x) for x in a.args])
    if a.op == 'pow':
        if a.args[1] % 2 == 0:
            return a
        return powi(absv(a.args[0]), a.args[1])
    return _mk('abs', (a,), 0.0, max(abs(a.lo), abs(a.hi)))


_FN_RANGE = {'exp': (0.0, INF), 'cos': (-1.0, 1.0), 'sin': (-1.0, 1.0),
             'atan': (-math.pi / 2, math.pi / 2), 'atan2': (-math.pi, math.pi),
             'acos': (0.0, math.pi), 'asin': (-math.pi / 2, math.pi / 2),
             'rpow': (0.0, INF), 'cosh': (1.0, INF), 'normpdf': (0.0, INF),
             'normcdf': (0.0, 1.0), 'erf': (-1.0, 1.0)}

_FN_RANGE.update({'gammacdf': (0.0, 1.0), 'gammappf': (1e-200, INF), 'chi2cdf': (0.0, 1.0), 'chi2ppf': (0.0, INF)})
# functions increasing in the argument with this index
_MONOTONE = {'normcdf': 0, 'normppf': 0, 'gammacdf': 1, 'gammappf': 1, 'chi2cdf': 0, 'chi2ppf': 0, 'atan': 0, 'tanh': 0, 'sinh': 0}
_FN_CONST = {}


def _trig_range(a, b):
    """range of the sine between a and b"""
    x, y = math.sin(a), math.sin(b)
    lo, hi = min(x, y) - 1e-12, max(x, y) + 1e-12
    # maxima at pi/2 + 2 pi n, minima at -pi/2 + 2 pi n
    if math.floor((b - math.pi / 2) / (2 * math.pi) + 1e-12) > math.ceil((a - math.pi / 2) / (2 * math.pi) - 1e-12) - 1:
        hi = 1.0
    if math.floor((b + math.pi / 2) / (2 * math.pi) + 1e-12) > math.ceil((a + math.pi / 2) / (2 * math.pi) - 1e-12) - 1:
        lo = -1.0
    return max(lo, -1.0), min(hi, 1.0)


def fn(name, *args):
    """Application of an elementary (or uninterpreted) real function."""
    if all(a.op == 'const' for a in args):
        ev = FN_EVAL.get(name)
        if ev is not None:
            return const(ev(*[float(a.args[0]) for a in args]))
    if name == 'exp':
        a = args[0]
        lo = hi = None
        try:
            lo = math.exp(a.lo) if a.lo > -700 else 0.0
            hi = math.exp(a.hi) if a.hi < 700 else INF
        except OverflowError:
            lo, hi = 0.0, INF
        return _mk('fn', ('exp',) + args, _down(lo) if lo else 0.0, _up(hi))
    if name == 'log':
        a = args[0]
        lo = math.log(a.lo) if a.lo > 0 else -INF
        hi = math.log(a.hi) if 0 < a.hi < INF else INF
        return _mk('fn', ('log',) + args, _down(lo), _up(hi))
    if name == 'cos' or name == 'sin':
        a = args[0]
        if a.op == 'fn' and a.args[0] == 'atan2':
            y, x = a.args[1:]
            r = sqrt(add(powi(x, 2), powi(y, 2)))
            return div(x, r) if name == 'cos' else div(y, r)
        if a.op == 'mul' and a.args[0].op == 'const' and a.args[0].args[0] < 0:
            r = fn(name, neg(a))
            return r if name == 'cos' else neg(r)
        if a.op == 'add':
            # addition theorem for inverse functions
            for t in a.args:
                u = t.args[1] if t.op == 'mul' and len(t.args) == 2 and t.args[0] is MONE else t
                if u.op == 'fn' and u.args[0] in ('asin', 'acos', 'atan', 'atan2'):
                    b = sub(a, t)
                    if name == 'cos':
                        return sub(mul(fn('cos', t), fn('cos', b)), mul(fn('sin', t), fn('sin', b)))
                    return add(mul(fn('sin', t), fn('cos', b)), mul(fn('cos', t), fn('sin', b)))
        if a.op == 'fn' and a.args[0] == 'acos' and name == 'cos':
            return a.args[1]
        if a.op == 'fn' and a.args[0] == 'asin' and name == 'sin':
            return a.args[1]
        if a.op == 'fn' and a.args[0] == 'asin' and name == 'cos':
            return sqrt(sub(ONE, powi(a.args[1], 2)))
        if a.op == 'fn' and a.args[0] == 'acos' and name == 'sin':
            return sqrt(sub(ONE, powi(a.args[1], 2)))
        if a.op == 'fn' and a.args[0] == 'atan':
            t = a.args[1]
            c = powi(sqrt(add(ONE, powi(t, 2))), -1)
            return c if name == 'cos' else mul(t, c)
        if -1e3 < a.lo and a.hi < 1e3:
            lo, hi = _trig_range(a.lo + (math.pi / 2 if name == 'cos' else 0.), a.hi + (math.pi / 2 if name == 'cos' else 0.))
            return _mk('fn', (name,) + args, lo, hi)
    if name == 'rpow' and args[1].op == 'const':
        e = args[1].args[0]
        if e.denominator == 1:
            return powi(args[0], e.numerator)
        if e.denominator == 2:
            return mul(powi(args[0], (e.numerator - 1) // 2), sqrt(args[0]))
        e2 = float(e)
        if args[0].lo > 0 and args[0].hi < INF:
            try:
                xs = sorted([args[0].lo ** e2, args[0].hi ** e2])
                return _mk('fn', ('rpow',) + args, _down(xs[0]), _up(xs[1]))
            except OverflowError:
                pass
    lo, hi = _FN_RANGE.get(name, (-INF, INF))
    if name in _MONOTONE and name in FN_EVAL:
        i = _MONOTONE[name]
        if all(a.op == 'const' for j, a in enumerate(args) if j != i):
            a = args[i]

            def at(v):
                if abs(v) == INF:
                    return None
                try:
                    r = FN_EVAL[name](*[v if j == i else float(b.args[0]) for j, b in enumerate(args)])
                    return r if r == r else None
                except Exception:
                    return None
            l, h = at(a.lo), at(a.hi)
            if l is not None and l > lo:
                lo = l - 1e-12 * abs(l)
            if h is not None and h < hi:
                hi = h + 1e-12 * abs(h)
    return _mk('fn', (name,) + args, lo, hi)


def _np_rpow(x, y):
    return x ** y


FN_EVAL = {
    'exp': math.exp, 'log': math.log, 'cos': math.cos, 'sin': math.sin,
    'tan': math.tan, 'atan': math.atan, 'atan2': math.atan2,
    'acos': lambda x: math.acos(x), 'asin': lambda x: math.asin(x),
    'rpow': _np_rpow, 'cosh': math.cosh, 'sinh': math.sinh,
    'tanh': math.tanh, 'acosh': math.acosh, 'asinh': math.asinh,
    'atanh': math.atanh, 'erf': math.erf, 'lgamma': math.lgamma,
    'gamma': math.gamma, 'floor': math.floor,
}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk('ite', (c, a, b), min(a.lo, b.lo), max(a.hi, b.hi))


# ---------------------------------------------------------------- booleans

TRUE = _mk('true', ())
FALSE = _mk('false', ())


def lt(a, b):
    if a is b:
        return FALSE
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    d = sub(a, b)
    if d.op == 'const':
        return TRUE if d.args[0] < 0 else FALSE
    if d.hi < 0:
        return TRUE
    if d.lo >= 0:
        return FALSE
    return _mk('lt', (a, b))


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    d = sub(a, b)
    if d.op == 'const':
        # literal rounding noise counts as equality
        return TRUE if d.args[0] == 0 else FALSE
    if d.lo > 0 or d.hi < 0:
        return FALSE
    if a.nid > b.nid:
        a, b = b, a
    return _mk('eq', (a, b))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,))


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        if x.op == 'and':
            out += [y for y in x.args if y not in out]
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


# ---------------------------------------------------------------- printing

def to_str(n, depth=6):
    if n.op == 'const':
        f = n.args[0]
        return str(f) if f.denominator == 1 else repr(float(f))
    if n.op == 'var':
        return n.args[0]
    if depth == 0:
        return '…'
    if n.op == 'add':
        return '(' + ' + '.join(to_str(a, depth - 1) for a in n.args[:8]) + ')'
    if n.op == 'mul':
        return '*'.join(to_str(a, depth - 1) for a in n.args[:8])
    if n.op == 'pow':
        return '%s^%d' % (to_str(n.args[0], depth - 1), n.args[1])
    if n.op == 'fn':
        return '%s(%s)' % (n.args[0], ', '.join(to_str(a, depth - 1) for a in n.args[1:]))
    return '%s(%s)' % (n.op, ', '.join(to_str(a, depth - 1) if isinstance(a, Node) else str(a) for a in n.args))


# ---------------------------------------------------------------- evaluation

class EvalError(Exception):
    pass


def evaluate(n, env, cache=None, funcs=None):
    """Float evaluation (iterative post-order)."""
    if cache is None:
        cache = {}
    stack = [n]
    while stack:
        t = stack[-1]
        if t in cache:
            stack.pop()
            continue
        kids = [a for a in t.args if isinstance(a, Node) and a not in cache]
        if kids:
            stack.extend(kids)
            continue
        cache[t] = _ev1(t, env, cache, funcs)
        stack.pop()
    return cache[n]


def _ev1(t, env, c, funcs):
    op = t.op
    try:
        if op == 'const':
            return float(t.args[0])
        if op == 'var':
            return env[t.args[0]]
        if op == 'add':
            return math.fsum(c[a] for a in t.args)
        if op == 'mul':
            r = 1.0
            for a in t.args:
                r *= c[a]
            return r
        if op == 'pow':
            return c[t.args[0]] ** t.args[1]
        if op == 'sqrt':
            v = c[t.args[0]]
            if v < 0 and v > -1e-14:
                v = 0.0
            return math.sqrt(v)
        if op == 'abs':
            return abs(c[t.args[0]])
        if op == 'fn':
            f = FN_EVAL.get(t.args[0]) or (funcs or {}).get(t.args[0])
            if f is None:
                raise EvalError('no evaluation for ' + str(t.args[0]))
            return float(f(*[c[a] for a in t.args[1:]]))
        if op == 'ite':
            return c[t.args[1]] if c[t.args[0]] else c[t.args[2]]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'lt':
            return c[t.args[0]] < c[t.args[1]]
        if op == 'eq':
            return c[t.args[0]] == c[t.args[1]]
        if op == 'not':
            return not c[t.args[0]]
        if op == 'and':
            return all(c[a] for a in t.args)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError) as e:
        raise EvalError(str(e))
    raise EvalError(op)


def free_vars(*ns):
    seen = set()
    out = {}
    stack = list(ns)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'var':
            out[t.args[0]] = t
        for a in t.args:
            if isinstance(a, Node):
                stack.append(a)
    return out


def size(*ns):
    seen = set()
    stack = list(ns)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        for a in t.args:
            if isinstance(a, Node):
                stack.append(a)
    return len(seen)
