"""Path exploration, obligations and their decision."""
import math
import random
import re
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
from . import expr as E
from . import solver
from .nf import NF, TooBig
from .adapt import adapt, interface_changed
from .sym import (SymReal, SymComplex, SymBool, Engine, Unsupported, PathAbort, is_sym, term, parts, has_sym)
from . import symnp


class Obligation:
    __slots__ = ('label', 'kind', 'a', 'b', 'cond', 'conds', 'path', 'status', 'how', 'point', 'scale', 'tol', 'atol')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


class Path:
    def __init__(self):
        self.decisions = []     # taken alternatives, one per decision point
        self.conds = []         # path condition (terms)
        self.obls = []
        self.notes = []
        self.exc = None
        self.unsupported = None
        self.choices = {}
        self.witness = None


class Ctx:
    """harness interface, symbolic side"""
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        self.seed = eng.seed

    # -- inputs
    def real(self, name, lo=None, hi=None, sample=None):
        lo = -E.INF if lo is None else float(lo)
        hi = E.INF if hi is None else float(hi)
        v = E.var(name, lo, hi)
        if (v.lo, v.hi) != (lo, hi):
            # intervals belong to names
            raise Unsupported('%s declared with different ranges' % name)
        self.e.vars[name] = (lo, hi, sample)
        return SymReal(v)

    def complex(self, name, b=2.0, lo=None, hi=None):
        return SymComplex(self.real(name + '.re', -b, b).n, self.real(name + '.im', -b, b).n)

    def choice(self, name, options):
        options = list(options)
        if name in self.e.path.choices:
            return options[self.e.path.choices[name]]
        k = self.e.choose(name, len(options))
        self.e.path.choices[name] = k
        return options[k]

    def ufun(self, name, lo=None, hi=None):
        """an arbitrary real function, the same one wherever the name is used"""
        key = 'u:' + name
        if key not in E.FN_EVAL:
            E.FN_EVAL[key] = ufun_concrete(name, lo, hi)
        if lo is not None or hi is not None:
            E._FN_RANGE[key] = (-E.INF if lo is None else lo, E.INF if hi is None else hi)

        def f(*args):
            ts = [term(a) for a in args]
            # keep applications symbolic even on constants
            return SymReal(E._mk('fn', (key,) + tuple(ts), *E._FN_RANGE.get(key, (-E.INF, E.INF))))
        return f

    def ucfun(self, name):
        re, im = self.ufun(name + '.re'), self.ufun(name + '.im')
        return lambda *a: SymComplex(re(*a).n, im(*a).n)

    def random(self):
        """numpy.random replaced by arbitrary draws"""
        from . import symnp
        stub = symnp.RandStub(self, np.random)
        self.e.patch(symnp.NPT, 'random', stub)
        return stub

    def number(self, name, ints=1, decs=2, trail=0):
        """(text, value): a decimal number with the given numbers of digits (the last `trail` ones 0), its
        digits being arbitrary: float() of the text, with sign and exponent added, gives the symbolic value"""
        toks = self.e.tokens.setdefault('num', {})
        d = str(2 + len(toks) % 8)
        text = number_text(d * ints, d * (decs - trail) + '0' * trail)
        if len(toks) >= 8 or text in toks:
            raise Unsupported('too many number tokens')
        v = self.real('%s.%d.%d' % (name, ints, decs - trail), 10.0 ** -(decs - trail), 10.0 ** ints)
        toks[text] = v
        self.e.tokens['float'] = num_token
        return text, v

    # -- environment
    def patch(self, target, attr, value):
        """replace a collaborator for the duration of this path"""
        self.e.patch(target, attr, value)

    def uncache(self, module):
        """functions of a module without their caches"""
        for k, v in list(module.__dict__.items()):
            if hasattr(v, 'cache_info') and hasattr(v, '__wrapped__'):
                self.patch(module, k, v.__wrapped__)

    def patch_name(self, fn, value, prefix='flavio'):
        """replace every module-global reference to the function object fn"""
        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith(prefix):
                continue
            for k, v in list(mod.__dict__.items()):
                if v is fn:
                    self.e.patch(mod, k, value)

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
            return
        if isinstance(cond, SymBool):
            self.e.assume(cond.c)
        elif not cond:
            raise PathAbort('assumption')

    # -- obligations
    def check_eq(self, label, a, b, scale=None, tol=None, atol=None):
        self.e.check_eq(label, a, b, scale, tol, atol)

    def check(self, label, cond):
        self.e.check_true(label, cond)

    def check_le(self, label, a, b):
        """a <= b (up to rounding)"""
        self.e.check_le(label, a, b)

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.e.check_true(label, True)
            return True
        except (Unsupported, PathAbort):
            raise
        self.e.check_true(label, False)
        return False

    def note(self, s):
        self.e.path.notes.append(s)


def number_text(i, d):
    return i + '.' + d if d else i


_NUM = re.compile(r'^\s*([+-]?)(\d+\.?\d*)(?:[eE]([+-]?\d+))?\s*$')


def num_token(s):
    m = _NUM.match(s)
    toks = Engine.cur.tokens['num']
    if m is None or m.group(2) not in toks:
        return None
    v = toks[m.group(2)]
    if m.group(3):
        k = int(m.group(3))
        v = v * (10.0 ** k)
    return -v if m.group(1) == '-' else v


def ufun_concrete(name, lo=None, hi=None):
    r = random.Random('ufun' + name)
    ks = [r.uniform(0.3, 1.7) for _ in range(12)]
    c0 = r.uniform(0, 6)

    def f(*a):
        s = c0 + sum(k * math.tanh(float(x)) * 2 + k * 0.1 * float(x) for k, x in zip(ks, a))
        v = 0.9 * math.sin(s) + 0.6 * math.cos(0.7 * s + 1)
        if lo is None and hi is None:
            return v
        if lo is not None and hi is None:
            return lo + 0.1 + abs(v)
        if lo is None:
            return hi - 0.1 - abs(v)
        return lo + (hi - lo) * (0.5 + v / 3.2)
    return f


class Explorer:
    objects = True

    def __init__(self, harness, seed=1, max_paths=400, deadline=None, branch_ms=2000, opts=None):
        self.harness = harness
        self.seed = seed
        self.max_paths = max_paths
        self.deadline = deadline
        self.branch_ms = branch_ms
        self.vars = {}
        self.paths = []
        self.incomplete = None
        self.assumed_nonzero = set()
        self.assumptions = set()
        self.tokens = {}
        self.rng = random.Random(seed)
        self.feas = {}
        self.forks = 0

    # ------------------------------------------------------------ running
    def run(self):
        work = [[]]
        while work:
            if len(self.paths) >= self.max_paths:
                self.incomplete = 'path limit %d' % self.max_paths
                break
            if self.deadline and time.time() > self.deadline:
                self.incomplete = 'time'
                break
            prefix = work.pop()
            self.prefix = prefix
            self.alts = []
            self.path = Path()
            self.unsupported = None
            self.undo = []
            self.tokens = {}
            self.nan = False
            self.ncond_set = set()
            Engine.cur = self
            clear_caches()
            aborted = False
            try:
                self.harness(Ctx(self))
            except PathAbort:
                aborted = True
            except Unsupported as e:
                self.path.unsupported = str(e) + where()
            except RecursionError as e:
                self.path.unsupported = 'RecursionError'
            except Exception as e:
                if self.unsupported:
                    self.path.unsupported = self.unsupported
                else:
                    self.path.exc = e
                    self.path.exc_tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
                    if interface_changed(e):
                        self.path.unsupported = 'internal interface: %s%s' % (e, where())
                        self.path.exc = None
                    elif symbolic_typeerror(e):
                        self.path.unsupported = 'symbolic value rejected by library code: %s%s' % (e, where())
                        self.path.exc = None
            finally:
                Engine.cur = None
                for t, k, v, had in reversed(self.undo):
                    if isinstance(t, dict):
                        if had:
                            t[k] = v
                        else:
                            t.pop(k, None)
                    elif had:
                        setattr(t, k, v)
                    else:
                        try:
                            delattr(t, k)
                        except AttributeError:
                            pass
            work.extend(self.alts)
            if aborted and not self.path.obls:
                continue
            self.paths.append(self.path)
        Engine.cur = None
        return self.paths

    def patch(self, target, attr, value):
        if isinstance(target, dict):
            self.undo.append((target, attr, target.get(attr), attr in target))
            target[attr] = value
            return
        if attr.startswith('__'):
            self.undo.append((target, attr, getattr(target, attr), True))
            setattr(target, attr, value)
            return
        d = target.__dict__
        had = attr in d
        if not had and not hasattr(target, attr) and attr == 'instances' and hasattr(target, 'clear_all'):
            # the registry of a class of named instances is created with its first instance
            self.undo.append((target, attr, None, False))
            setattr(target, attr, value)
            return
        if not had and not hasattr(target, attr):
            raise Unsupported('patch target %s.%s is missing' % (getattr(target, '__name__', target), attr))
        self.undo.append((target, attr, d.get(attr), had))
        setattr(target, attr, adapt(getattr(target, attr), value))

    # ------------------------------------------------------------ decisions
    def _next(self):
        i = len(self.path.decisions)
        return self.prefix[i] if i < len(self.prefix) else None

    def choose(self, name, n):
        k = self._next()
        if k is None:
            for j in range(n - 1, 0, -1):
                self.alts.append(self.path.decisions + [j])
            k = 0
        self.path.decisions.append(k)
        return k

    def add_cond(self, c):
        if c is E.TRUE:
            return
        if c.op == 'and':
            for x in c.args:
                self.add_cond(x)
            return
        if c not in self.ncond_set:
            self.ncond_set.add(c)
            self.path.conds.append(c)

    def decide(self, c):
        if c is E.TRUE:
            return True
        if c is E.FALSE:
            return False
        if c in self.ncond_set:
            return True
        nc = E.bnot(c)
        if nc in self.ncond_set:
            return False
        k = self._next()
        if k is None:
            if self.deadline and time.time() > self.deadline:
                self.incomplete = 'time'
                raise PathAbort('time')
            key = (frozenset(self.ncond_set), c)
            if key in self.feas:
                t, f = self.feas[key]
            else:
                t = solver.check(self.path.conds + [c], self.branch_ms, 'branch') != 'unsat'
                f = True if not t else solver.check(self.path.conds + [nc], self.branch_ms, 'branch') != 'unsat'
                self.feas[key] = (t, f)
            if t and f:
                self.forks += 1
                self.alts.append(self.path.decisions + [0])
                k = 1
            else:
                k = 1 if t else 0
        self.path.decisions.append(k)
        self.add_cond(c if k else nc)
        return bool(k)

    def assume(self, c):
        if c is E.FALSE:
            raise PathAbort('assumption')
        if c is E.TRUE:
            return
        k = self._next()
        if k is None:
            if solver.check(self.path.conds + [c], self.branch_ms, 'assume') == 'unsat':
                raise PathAbort('assumption')
        self.path.decisions.append(1)
        self.add_cond(c)

    def nonzero(self, b):
        """real division: the divisor is assumed nonzero (recorded)"""
        c = E.bnot(E.eq(b, E.ZERO))
        if c is E.TRUE:
            return
        if c is E.FALSE:
            raise ZeroDivisionError('division by zero')
        if c in self.ncond_set:
            return
        self.assumed_nonzero.add(E.to_str(b, 2))
        self.add_cond(c)

    def domain(self, n, what):
        if self.decide(E.lt(n, E.ZERO)):
            raise Unsupported('negative argument of ' + what)

    def note_nan(self, what):
        self.nan = True
        self.path.notes.append('nan: ' + what + where())

    def token_float(self, s):
        f = self.tokens.get('float')
        return f(s) if f else None

    # ------------------------------------------------------------ obligations
    def _obl(self, **k):
        o = Obligation(path=self.path, conds=list(self.path.conds), **k)
        self.path.obls.append(o)
        return o

    def check_eq(self, label, a, b, scale=None, tol=None, atol=None):
        for lab, x, y in pairs(label, a, b):
            if x is None:
                self._obl(label=lab, kind='true', cond=E.FALSE)
                continue
            if isinstance(x, (str, bytes, type(None), bool)) or isinstance(y, (str, bytes, type(None), bool)) and not is_sym(x):
                self._obl(label=lab, kind='true', cond=E.TRUE if x == y else E.FALSE)
                continue
            nfx, nfy = nonfin(x), nonfin(y)
            if nfx or nfy:
                same = nfx == nfy
                self._obl(label=lab, kind='true', cond=E.TRUE if same else E.FALSE)
                continue
            px, py = parts(x), parts(y)
            if px is None or py is None:
                raise Unsupported('check_eq on %r, %r' % (type(x), type(y)))
            sc = None if scale is None else term(abs(scale))
            self._obl(label=lab, kind='eq', a=px[0], b=py[0], scale=sc, tol=tol, atol=atol)
            if px[1] is not E.ZERO or py[1] is not E.ZERO:
                self._obl(label=lab + '.im', kind='eq', a=px[1], b=py[1], scale=sc or E.sqrt(E.add(E.powi(py[0], 2), E.powi(py[1], 2))) if py[1].op != 'const' or True else None, tol=tol, atol=atol)

    def check_true(self, label, cond):
        if isinstance(cond, SymBool):
            c = cond.c
        else:
            c = E.TRUE if bool(cond) else E.FALSE
        self._obl(label=label, kind='true', cond=c)

    def check_le(self, label, a, b):
        a, b = term(a), term(b)
        self._obl(label=label, kind='le', a=a, b=b)


def nonfin(x):
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
        return 'nan' if x != x else ('inf' if x > 0 else '-inf')
    if isinstance(x, (complex, np.complexfloating)) and not (math.isfinite(x.real) and math.isfinite(x.imag)):
        return 'nan'
    return None


def pairs(label, a, b):
    """align two (nested) values leaf by leaf; a mismatch yields (label, None, None)"""
    if isinstance(b, dict) or isinstance(a, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            yield label + ':keys', None, None
            return
        for k in b:
            yield from pairs('%s[%s]' % (label, k), a[k], b[k])
        return
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a[()]
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b[()]
    sa, sb = isinstance(a, (list, tuple, np.ndarray)), isinstance(b, (list, tuple, np.ndarray))
    if sa or sb:
        if not (sa and sb) or len(a) != len(b):
            yield label + ':shape', None, None
            return
        for i in range(len(b)):
            yield from pairs('%s[%d]' % (label, i), a[i], b[i])
        return
    yield label, a, b


def where():
    tb = sys.exc_info()[2]
    last = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/verif/engine' not in fn:
            last = ' [%s:%d]' % (fn.split('/repo/')[-1], tb.tb_lineno)
        tb = tb.tb_next
    return last


_SYM_MARK = ('SymReal', 'SymComplex', 'SymBool', "'object' dtype", 'dtype object', 'dtype(\'O\')', "object arrays")


def symbolic_typeerror(e):
    if isinstance(e, (TypeError, AttributeError, np.core._exceptions.UFuncTypeError)):
        s = str(e)
        return any(m in s for m in _SYM_MARK) or 'loop of ufunc' in s
    return False


_cached = None


def clear_caches():
    """memo tables must not carry symbolic results from one path to the next"""
    global _cached
    import functools
    if _cached is None:
        _cached = []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name.startswith('flavio') or name.startswith('ckmutil')):
                for v in list(mod.__dict__.values()):
                    if isinstance(v, functools._lru_cache_wrapper) and id(v) not in seen:
                        seen.add(id(v))
                        _cached.append(v)
    for f in _cached:
        f.cache_clear()


# ---------------------------------------------------------------- decision

def sample_var(rng, lo, hi, sample=None):
    if sample is not None:
        if callable(sample):
            return sample(rng)
        lo, hi = sample
    if lo == -E.INF and hi == E.INF:
        return rng.uniform(-2, 2)
    if lo == -E.INF:
        return hi - rng.uniform(0, 3)
    if hi == E.INF:
        return lo + rng.uniform(0.05, 3)
    u = rng.random()
    if lo > 0 and hi / lo > 1e3:
        return math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo)))
    return lo + (hi - lo) * u


class Decider:
    def __init__(self, ex, deadline=None, z3_ms=4000, crosscheck=False):
        self.ex = ex
        self.z3_ms = z3_ms
        self.rng = random.Random(ex.seed * 7919 + 13)
        self.deadline = deadline
        self.nfs = None
        self.crosscheck = crosscheck

    # -- points
    def random_point(self, names=None):
        p = {}
        for n, (lo, hi, s) in self.ex.vars.items():
            p[n] = sample_var(self.rng, lo, hi, s)
        return p

    def holds(self, conds, p):
        cache = {}
        try:
            for c in conds:
                if not E.evaluate(c, p, cache):
                    return False
        except E.EvalError:
            return False
        return True

    def find_points(self, conds, n=1, tries=150):
        """points satisfying conds: random first, then solver models, then
        solver models with most variables fixed"""
        out = []
        for _ in range(tries):
            p = self.random_point()
            if self.holds(conds, p):
                out.append(p)
                if len(out) >= n:
                    return out
        if out:
            return out
        for k in range(4):
            extra = []
            fv = E.free_vars(*conds)
            if k == 0 or k == 3:
                fix = {}
            else:
                names = sorted(fv)
                self.rng.shuffle(names)
                base = self.random_point()
                fix = {x: base[x] for x in names[:max(0, len(names) - 1 - k)] if x in base}
            cs = list(conds)
            cs += [E.eq(fv[x], E.const(float('%.6g' % v))) for x, v in fix.items()]
            if k == 0:
                # keep off the boundary when possible
                cs2 = [margin(c, Fraction(1, 1000)) for c in cs]
                r, m = solver.check(cs2, 2000, 'model', want_model=True)
                if r != 'sat':
                    r, m = solver.check(cs, 2000, 'model', want_model=True)
            else:
                r, m = solver.check(cs, 2000, 'model', want_model=True)
            if r == 'sat':
                p = self.random_point()
                p.update({x: v for x, v in m.items() if x in p})
                p = self.clamp(p)
                out.append(p)
                if self.holds(conds, p):
                    return [p]
            elif r == 'unsat' and k in (0, 3):
                return []
        return out[:n]

    def clamp(self, p):
        for n, (lo, hi, s) in self.ex.vars.items():
            if p[n] < lo:
                p[n] = lo
            if p[n] > hi:
                p[n] = hi
        return p

    # -- equality
    def newnf(self):
        return NF(deadline=min(time.time() + 45, self.deadline or 1e18))

    def decide(self, o):
        try:
            if o.kind == 'eq':
                self.decide_eq(o)
            elif o.kind == 'le':
                self.decide_le(o)
            else:
                self.decide_true(o)
        except (TooBig, RecursionError, MemoryError) as e:
            o.status, o.how = 'unknown', type(e).__name__
        return o

    def numeric_diff(self, o, p):
        """relative difference at p, or None"""
        try:
            c = {}
            a = E.evaluate(o.a, p, c)
            b = E.evaluate(o.b, p, c)
            s = max(abs(a), abs(b))
            if o.scale is not None:
                s = max(s, abs(E.evaluate(o.scale, p, c)))
            if o.atol:
                s = max(s, o.atol / (o.tol or 1e-6))
            if not (math.isfinite(a) and math.isfinite(b)):
                return None
            if s == 0:
                return 0.0
            return abs(a - b) / s
        except E.EvalError:
            return None

    def decide_eq(self, o):
        if o.a is o.b:
            r = solver.check([E.FALSE], 100, 'identical')
            o.status, o.how = 'proved', 'identical terms'
            return
        # 1. candidate counterexample on a concretised path point
        allpts = self.points_for(o)
        pts = [p for p in allpts if self.holds(o.conds, p)]
        bad = None
        nok = 0
        for p in pts:
            d = self.numeric_diff(o, p)
            if d is not None:
                nok += 1
                if d > (o.tol or 1e-6):
                    bad = p
                    break
        if bad is None and o.a.op == 'const' and o.b.op == 'const':
            d = abs(o.a.args[0] - o.b.args[0])
            if float(d) <= 1e-9 * max(abs(float(o.a.args[0])), abs(float(o.b.args[0])), 1e-300) or (o.atol and float(d) <= o.atol):
                solver.check([E.lt(E.const(1), E.const(0))], 100, 'const')
                o.status, o.how = 'proved', 'constants'
                return
        if bad is not None:
            o.status, o.how, o.point = 'cex', 'model', bad
            return
        # 2. normal form + LRA
        nf = self.newnf()
        try:
            res, items = nf_difference(nf, o.a, o.b)
            if res == 'zero':
                r = lra_tolerance(items, o)
                if r == 'unsat':
                    o.status, o.how = 'proved', 'nf+lra'
                    if self.crosscheck and E.size(o.a, o.b) < 400:
                        solver.check(o.conds + [E.bnot(E.eq(o.a, o.b))], self.z3_ms, 'crosscheck-nra')
                    return
        except ZeroDivisionError:
            res = None
        # 3. full nonlinear query
        r, m = solver.check(o.conds + [E.bnot(E.eq(o.a, o.b))], self.z3_ms, 'nra-eq', want_model=True)
        if r == 'unsat':
            o.status, o.how = 'proved', 'nra'
            return
        if r == 'sat':
            p = self.random_point()
            p.update({x: v for x, v in m.items() if x in p})
            p = self.clamp(p)
            d = self.numeric_diff(o, p)
            if d is not None and d > 1e-6 and self.holds(o.conds, p):
                o.status, o.how, o.point = 'cex', 'nra model', p
                return
            # require a visible difference
            k = Fraction(1, 1000)
            for kk in (k, Fraction(1, 10 ** 6)):
                diff = E.sub(o.a, o.b)
                gap = E.bor(E.lt(E.add(E.mul(E.const(kk), E.add(E.absv(o.a), E.absv(o.b))), E.ZERO), E.absv(diff)))
                r, m = solver.check(o.conds + [gap], self.z3_ms, 'nra-gap', want_model=True)
                if r == 'unsat' and kk == Fraction(1, 10 ** 6):
                    o.status, o.how = 'proved', 'nra up to 1e-6 relative'
                    return
                if r == 'sat':
                    p = self.random_point()
                    p.update({x: v for x, v in m.items() if x in p})
                    p = self.clamp(p)
                    d = self.numeric_diff(o, p)
                    if d is not None and d > 1e-6:
                        o.status, o.how, o.point = 'cex', 'nra model', p
                        return
        o.status, o.how = 'unknown', 'nf/nra undecided'

    def points_for(self, o):
        pw = getattr(o.path, 'points', None)
        if pw is None:
            pw = self.find_points(o.path.conds, n=3)
            o.path.points = pw
        return pw

    # -- inequalities
    def decide_le(self, o):
        """a <= b"""
        d = E.sub(o.b, o.a)
        if d.lo >= 0:
            solver.check([E.lt(d, E.ZERO)], 100, 'interval')
            o.status, o.how = 'proved', 'interval'
            return
        for p in self.points_for(o):
            try:
                v = E.evaluate(d, p)
                s = abs(E.evaluate(o.a, p)) + abs(E.evaluate(o.b, p))
                if v < -1e-7 * s:
                    o.status, o.how, o.point = 'cex', 'model', p
                    return
            except E.EvalError:
                pass
        try:
            nf = self.newnf()
            p = nf.nf(d)
            if nonneg_lra(nf, p) == 'unsat':
                o.status, o.how = 'proved', 'nf+lra(sos)'
                return
        except (TooBig, ZeroDivisionError):
            pass
        self.decide_true_z3(o, E.le(o.a, o.b))
        if o.status == 'unknown':
            # try harder to refute
            for _ in range(300):
                p = self.random_point()
                if not self.holds(o.conds, p):
                    continue
                try:
                    v = E.evaluate(d, p)
                    s = abs(E.evaluate(o.a, p)) + abs(E.evaluate(o.b, p))
                    if v < -1e-7 * s:
                        o.status, o.how, o.point = 'cex', 'model', p
                        return
                except E.EvalError:
                    pass

    def decide_true(self, o):
        c = o.cond
        if c is E.TRUE:
            solver.check([E.FALSE], 100, 'trivial')
            o.status, o.how = 'proved', 'trivial'
            return
        if c is E.FALSE:
            pts = self.points_for(o)
            if pts:
                o.status, o.how, o.point = 'cex', 'path model', pts[0]
            else:
                r = solver.check(o.conds, self.z3_ms, 'path')
                o.status, o.how = ('proved', 'infeasible path') if r == 'unsat' else ('unknown', 'no model of the path')
            return
        self.decide_true_z3(o, c)

    def decide_true_z3(self, o, c):
        nc = E.bnot(c)
        r, m = solver.check(o.conds + [nc], self.z3_ms, 'prop', want_model=True)
        if r == 'unsat':
            o.status, o.how = 'proved', 'smt'
            return
        if r == 'sat':
            r2, m2 = solver.check([margin(x, Fraction(1, 1000)) for x in o.conds + [nc]], self.z3_ms, 'prop-margin', want_model=True)
            for mm in (m2 if r2 == 'sat' else None, m):
                if mm is None:
                    continue
                p = self.random_point()
                p.update({x: v for x, v in mm.items() if x in p})
                p = self.clamp(p)
                o.status, o.how, o.point = 'cex', 'smt model', p
                if self.holds(o.conds + [nc], p):
                    return
            pts = self.find_points(o.conds + [nc])
            if pts:
                o.point = pts[0]
            return
        pts = [p for p in self.points_for(o) if self.holds([nc], p)]
        if pts:
            o.status, o.how, o.point = 'cex', 'path model', pts[0]
            return
        o.status, o.how = 'unknown', 'smt unknown'


def margin(c, eps):
    """strengthen a comparison so that models stay off its boundary"""
    e = E.const(eps)
    if c.op == 'lt':
        a, b = c.args
        return E.lt(E.add(a, e), b)
    if c.op == 'not' and c.args[0].op == 'lt':
        a, b = c.args[0].args
        return E.bnot(E.lt(a, E.add(b, e)))
    if c.op == 'not' and c.args[0].op == 'eq':
        a, b = c.args[0].args
        return E.lt(e, E.absv(E.sub(a, b)))
    if c.op == 'and':
        return E.band(*[margin(x, eps) for x in c.args])
    return c


def nf_difference(nf, a, b):
    """('zero', [(diff, mag)]) if every coefficient of a-b is rounding noise"""
    pa, pb = nf.nf(a), nf.nf(b)
    items = []
    rest = {}
    for m in set(pa) | set(pb):
        ca, ma = pa.get(m, (0.0, 0.0))
        cb, mb = pb.get(m, (0.0, 0.0))
        d, s = ca - cb, ma + mb
        if abs(d) <= 2e-10 * s:
            items.append((m, d, s))
        else:
            rest[m] = (d, s)
    if not rest:
        return 'zero', items
    try:
        r = nf.numerator(rest)
    except ZeroDivisionError:
        return 'nonzero', None
    bad = [m for m, (c, a_) in r.items() if abs(c) > 2e-10 * a_]
    for m, (c, a_) in r.items():
        if m not in bad:
            items.append((m, c, a_))
    if not bad:
        return 'zero', items
    return 'nonzero', None


def lra_tolerance(items, o, chunk=60):
    """z3/LRA: is |sum d_i m_i| > 1e-9 * sum s_i |m_i| possible (m_i free)? Decided for parts of the sum, the bounds of which add
    up; scaling a monomial does not matter, so that d_i and s_i are divided by s_i"""
    import z3
    items = [(m, d, sc) for m, d, sc in items if d != 0]
    for k in range(0, max(len(items), 1), chunk):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 20000)
        tot, tol = [], []
        for i, (m, d, sc) in enumerate(items[k:k + chunk]):
            v = z3.Real('m!%d' % i)
            t = z3.Real('t!%d' % i)
            s.add(t >= v, t >= -v)
            # rounded away from zero
            q = d / sc
            q = Fraction(math.ceil(abs(q) * 1e18), 10 ** 18) * (1 if q > 0 else -1)
            tot.append(z3.RealVal(str(q)) * v)
            tol.append(t)
        lhs = z3.Sum(tot) if tot else z3.RealVal(0)
        rhs = z3.RealVal('1/1000000000') * (z3.Sum(tol) if tol else z3.RealVal(0))
        s.add(z3.Or(lhs > rhs, -lhs > rhs))
        r = str(s.check())
        solver.STATS.add('lra-eq', r, time.time() - t0)
        if r != 'unsat':
            return r
    return 'unsat'


def nonneg_lra(nf, p):
    """polynomial nonnegativity: monomials as reals, sign facts for even/positive
    monomials and the AM-GM lemmas |2xy| <= x^2 + y^2 among them"""
    if not p:
        return 'unsat'
    if len(p) > 400:
        return 'unknown'
    monos = sorted(p)
    idx = {m: i for i, m in enumerate(monos)}

    def is_pos(m):
        for g, e in m:
            if not nf.pos[g] and not (isinstance(e, int) and e % 2 == 0):
                return False
        return True
    bounds = [(0.0, None) if is_pos(m) else (None, None) for m in monos]
    coeffs = [p[m][0] for m in monos]
    lemmas = []
    posm = [m for m in monos if is_pos(m) and p[m][0] > 0]
    if len(posm) <= 60:
        for i in range(len(posm)):
            for j in range(i + 1, len(posm)):
                d = dict(posm[i])
                for g, e in posm[j]:
                    d[g] = d.get(g, 0) + e
                h = {}
                ok = True
                for g, e in d.items():
                    if e == 0:
                        continue
                    if isinstance(e, int) and e % 2 == 0:
                        h[g] = e // 2
                    elif nf.pos[g]:
                        h[g] = nf._rexp(e / 2)
                    else:
                        ok = False
                if not ok:
                    continue
                hm = tuple(sorted(h.items()))
                if hm in idx and idx[hm] not in (idx[posm[i]], idx[posm[j]]):
                    # weighted AM-GM: l*a + b/l >= 2*sqrt(ab) with the weight that matches the coefficients
                    ca, cb = p[posm[i]][0], p[posm[j]][0]
                    if ca > 0 and cb > 0:
                        l = math.sqrt(ca / cb)
                        l = E.simplest_fraction(l)
                        for sgn in (1, -1):
                            lemmas.append([(idx[posm[i]], l), (idx[posm[j]], 1 / l), (idx[hm], Fraction(2 * sgn))])
    import z3
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', 10000)
    vs = [z3.Real('m!%d' % i) for i in range(len(monos))]
    for v, b in zip(vs, bounds):
        if b[0] is not None:
            s.add(v >= 0)
    for l in lemmas:
        s.add(z3.Sum([solver._rv(Fraction(k)) * vs[i] for i, k in l]) >= 0)
    # 1e-9 of slack on the positive part for literal rounding
    tot = z3.Sum([z3.RealVal(str(Fraction(c) + (Fraction(abs(c)) / 10 ** 9 if bounds[i][0] is not None else 0))) * vs[i] for i, c in enumerate(coeffs)])
    s.add(tot < 0)
    r = str(s.check())
    solver.STATS.add('lra-nonneg', r, time.time() - t0)
    return r
