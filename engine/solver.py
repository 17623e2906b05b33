"""z3 back end: terms -> z3, satisfiability queries, model extraction."""
import sys
import time
import random
from fractions import Fraction
_Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _Z3DIR not in sys.path:
    sys.path.append(_Z3DIR)
import z3
from . import expr as E


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {'sat': 0, 'unsat': 0, 'unknown': 0}
        self.kinds = {}

    def add(self, kind, res, dt):
        self.queries += 1
        self.time += dt
        self.by[res] = self.by.get(res, 0) + 1
        k = self.kinds.setdefault(kind, {'n': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 's': 0.0})
        k['n'] += 1
        k[res] += 1
        k['s'] = round(k['s'] + dt, 4)


STATS = Stats()


def _rv(f):
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


class Conv:
    """one conversion context: caches node -> z3 term and its side conditions"""

    def __init__(self):
        self.cache = {}
        self.side = {}      # node -> list of z3 constraints attached
        self.kids = {}

    def conv(self, n):
        stack = [n]
        c = self.cache
        while stack:
            t = stack[-1]
            if t in c:
                stack.pop()
                continue
            kids = [a for a in t.args if isinstance(a, E.Node) and a not in c]
            if kids:
                stack.extend(kids)
                continue
            c[t] = self._c1(t)
            stack.pop()
        return c[n]

    def _bounds(self, t, z):
        s = []
        if t.lo != -E.INF:
            s.append(z >= _rv(Fraction(t.lo)))
        if t.hi != E.INF:
            s.append(z <= _rv(Fraction(t.hi)))
        return s

    def _c1(self, t):
        c = self.cache
        op = t.op
        if op == 'const':
            return _rv(t.args[0])
        if op == 'var':
            z = z3.Real(t.args[0])
            self.side[t] = self._bounds(t, z)
            return z
        if op == 'add':
            return z3.Sum([c[a] for a in t.args])
        if op == 'mul':
            return z3.Product([c[a] for a in t.args])
        if op == 'pow':
            b, e = t.args
            zb = c[b]
            if e > 0:
                r = zb
                for _ in range(e - 1):
                    r = r * zb
                return r
            # inverse as an auxiliary variable with i*b^|e| = 1
            i = z3.Real('inv!%d' % t.nid)
            p = zb
            for _ in range(-e - 1):
                p = p * zb
            self.side[t] = [i * p == 1] + self._bounds(t, i)
            return i
        if op == 'sqrt':
            y = z3.Real('sqrt!%d' % t.nid)
            self.side[t] = [y >= 0, y * y == c[t.args[0]]]
            return y
        if op == 'abs':
            a = c[t.args[0]]
            return z3.If(a >= 0, a, -a)
        if op == 'ite':
            return z3.If(c[t.args[0]], c[t.args[1]], c[t.args[2]])
        if op == 'fn':
            name = t.args[0]
            args = [c[a] for a in t.args[1:]]
            f = z3.Function('f!' + name, *([z3.RealSort()] * (len(args) + 1)))
            z = f(*args)
            s = self._bounds(t, z)
            if name == 'exp':
                s.append(z > 0)
                s.append(z >= 1 + args[0])
            elif name == 'log':
                s.append(z <= args[0] - 1)
                s.append((z > 0) == (args[0] > 1))
            elif name in ('cos', 'sin'):
                co = z3.Function('f!cos', z3.RealSort(), z3.RealSort())(*args)
                si = z3.Function('f!sin', z3.RealSort(), z3.RealSort())(*args)
                s.append(co * co + si * si == 1)
            elif name == 'rpow':
                s.append(z >= 0)
            elif name == 'atan':
                s.append((z > 0) == (args[0] > 0))
                s.append((z < 0) == (args[0] < 0))
            self.side[t] = s
            return z
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'lt':
            return c[t.args[0]] < c[t.args[1]]
        if op == 'eq':
            return c[t.args[0]] == c[t.args[1]]
        if op == 'not':
            return z3.Not(c[t.args[0]])
        if op == 'and':
            return z3.And([c[a] for a in t.args])
        raise ValueError(op)

    def sides(self, nodes):
        seen = set()
        out = []
        stack = list(nodes)
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            out.extend(self.side.get(t, ()))
            for a in t.args:
                if isinstance(a, E.Node):
                    stack.append(a)
        return out


_conv = Conv()


def reset():
    global _conv
    _conv = Conv()


def check(conds, timeout_ms=3000, kind='path', want_model=False, extra=None, tactic=None):
    """satisfiability of a list of boolean terms: 'sat'/'unsat'/'unknown'"""
    conds = [c for c in conds if c is not E.TRUE]
    if any(c is E.FALSE for c in conds):
        STATS.add(kind, 'unsat', 0.0)
        return ('unsat', None) if want_model else 'unsat'
    t0 = time.time()
    zs = [_conv.conv(c) for c in conds]
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout_ms))
    for z in zs:
        s.add(z)
    for z in _conv.sides(conds):
        s.add(z)
    if extra:
        for z in extra:
            s.add(z)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS.add(kind, r, time.time() - t0)
    if not want_model:
        return r
    m = None
    if r == 'sat':
        m = model_values(s.model())
    return r, m


def model_values(m):
    out = {}
    for d in m.decls():
        if d.arity() != 0:
            continue
        n = d.name()
        if n.startswith('inv!') or n.startswith('sqrt!'):
            continue
        v = m[d]
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            out[n] = float(v.as_fraction())
        except Exception:
            pass
    return out


def lra_monomials(coeffs, bounds, sense='ne', timeout_ms=10000, kind='lra', lemmas=()):
    """Decide sum c_i m_i (!= 0 | < 0) over monomials m_i abstracted as reals
    with the given sign/box bounds and linear lemmas [(coef dict, >=0)]."""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    vs = []
    for i, (c, b) in enumerate(zip(coeffs, bounds)):
        v = z3.Real('m!%d' % i)
        vs.append(v)
        if b[0] is not None:
            s.add(v >= _rv(Fraction(b[0])))
        if b[1] is not None:
            s.add(v <= _rv(Fraction(b[1])))
    for l in lemmas:
        s.add(z3.Sum([_rv(k) * vs[i] for i, k in l]) >= 0)
    tot = z3.Sum([_rv(E.simplest_fraction(c)) * v for c, v in zip(coeffs, vs)]) if vs else z3.RealVal(0)
    s.add(tot != 0 if sense == 'ne' else tot < 0)
    r = str(s.check())
    STATS.add(kind, r, time.time() - t0)
    return r
