"""Rational normal form of real terms.

A term is rewritten as a Laurent polynomial with numeric coefficients over
generators: input variables, inverses of multi-term denominators, square roots
(S^2 -> radicand), cos/sin of a monomial (s^2 -> 1-c^2), exp/log atoms and
uninterpreted applications.  Two terms are equal on the domain where they are
defined if the denominators-cleared difference has no coefficient left.

Coefficients are doubles; each carries the sum of the magnitudes that were
added into it, and a coefficient below TOL of that sum is rounding noise of the
source's float literals and is dropped.
"""
import math
from . import expr as E

TOL = 1e-11
MAXTERMS = 60000


# f: (inverse function, position of the argument, positions of parameters)
_INVERSE = {'normcdf': ('normppf', 0, ()), 'normppf': ('normcdf', 0, ()),
            'gammacdf': ('gammappf', 1, (0,)), 'gammappf': ('gammacdf', 1, (0,)),
            'chi2cdf': ('chi2ppf', 0, (1,)), 'chi2ppf': ('chi2cdf', 0, (1,))}


class TooBig(Exception):
    pass


class NF:
    def __init__(self, maxterms=MAXTERMS, deadline=None):
        self.maxterms = maxterms
        self.deadline = deadline
        self.gens = []          # gid -> (kind, payload)
        self.genkey = {}
        self.keys = []
        self.pos = []           # gid -> nonneg?
        self.cache = {}
        self.polyreg = {}
        self.npoly = 0
        self.polys = []
        self.logsign = {}

    # ------------------------------------------------------------ generators
    def gen(self, kind, key, payload=None, pos=False):
        k = (kind, key)
        g = self.genkey.get(k)
        if g is None:
            g = len(self.gens)
            self.genkey[k] = g
            self.gens.append((kind, payload))
            self.keys.append(key)
            self.pos.append(pos)
        return g

    # ------------------------------------------------------------ poly ops
    @staticmethod
    def pconst(c):
        c = float(c)
        return {(): (c, abs(c))} if c != 0 else {}

    def padd(self, *ps):
        out = {}
        for p in ps:
            for m, (c, a) in p.items():
                if m in out:
                    c0, a0 = out[m]
                    out[m] = (c0 + c, a0 + a)
                else:
                    out[m] = (c, a)
        return self.clean(out)

    def clean(self, p):
        bad = [m for m, (c, a) in p.items() if abs(c) <= TOL * a]
        for m in bad:
            del p[m]
        if len(p) > self.maxterms:
            raise TooBig()
        return p

    def pscale(self, p, k):
        ak = abs(k)
        return {m: (c * k, a * ak) for m, (c, a) in p.items()} if k else {}

    def mono_mul(self, m1, m2):
        """returns list of exponents merged, plus reductions needed"""
        if not m1:
            return m2, False
        if not m2:
            return m1, False
        d = dict(m1)
        red = False
        for g, e in m2:
            if g in d:
                n = d[g] + e
                if n == 0 or abs(n) < 1e-9:
                    del d[g]
                else:
                    if isinstance(n, float):
                        n = self._rexp(n)
                    d[g] = n
            else:
                d[g] = e
        for g, e in d.items():
            k = self.gens[g][0]
            if k in ('sqrt', 'sin', 'abs') and (e >= 2 or e < 0) and k != 'sin':
                red = True
            elif k == 'sin' and e >= 2:
                red = True
        return tuple(sorted(d.items())), red

    @staticmethod
    def _rexp(x):
        if x == int(x) if abs(x) < 1e15 else False:
            return int(x)
        r = float('%.11g' % x)
        return int(r) if r == int(r) else r

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > 40 * self.maxterms:
            raise TooBig()
        if len(p) == 1 and () in p:
            return self.pscale(q, p[()][0])
        self.tick()
        out = {}
        reds = []
        for m1, (c1, a1) in p.items():
            for m2, (c2, a2) in q.items():
                m, red = self.mono_mul(m1, m2)
                c, a = c1 * c2, a1 * a2
                if red:
                    reds.append((m, c, a))
                elif m in out:
                    c0, a0 = out[m]
                    out[m] = (c0 + c, a0 + a)
                else:
                    out[m] = (c, a)
        out = self.clean(out)
        if reds:
            # group equal monomials first
            g = {}
            for m, c, a in reds:
                if m in g:
                    g[m] = (g[m][0] + c, g[m][1] + a)
                else:
                    g[m] = (c, a)
            g = self.clean(g)
            for m, (c, a) in g.items():
                r = self.reduce_mono(m)
                for mm, (cc, aa) in r.items():
                    if mm in out:
                        c0, a0 = out[mm]
                        out[mm] = (c0 + c * cc, a0 + a * aa)
                    else:
                        out[mm] = (c * cc, a * aa)
            out = self.clean(out)
        return out

    def tick(self):
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise TooBig()

    def reduce_mono(self, m):
        res = {(): (1.0, 1.0)}
        rest = []
        facs = []
        for g, e in m:
            k, pl = self.gens[g]
            if k == 'sqrt' and (e >= 2 or e < 0):
                if e >= 2:
                    facs.append((pl, e // 2))
                    if e % 2:
                        rest.append((g, 1))
                else:
                    # S^-e = S^(e%2) * P^-ceil(e/2)
                    n = (-e + 1) // 2
                    facs.append((pl, -n))
                    if (-e) % 2:
                        rest.append((g, 1))
            elif k == 'abs' and (e >= 2 or e < 0):
                n = e // 2
                # |x|^e = x^(2n) |x|^(e-2n)
                facs.append((pl, 2 * n))
                if e - 2 * n:
                    rest.append((g, 1))
            elif k == 'sin' and e >= 2:
                cg = pl  # generator id of the cosine
                one_minus = {(): (1.0, 1.0), ((cg, 2),): (-1.0, 1.0)}
                facs.append((one_minus, e // 2))
                if e % 2:
                    rest.append((g, 1))
            else:
                rest.append((g, e))
        res = {tuple(rest): (1.0, 1.0)}
        for p, n in facs:
            res = self.pmul(res, self.ppow(p, n))
        return res

    def ppow(self, p, n):
        if n == 0:
            return self.pconst(1)
        if n < 0:
            return self.ppow(self.pinv(p), -n)
        if len(p) == 1:
            (m, (c, a)), = p.items()
            mm = tuple((g, self._rexp(e * n) if isinstance(e, float) else e * n) for g, e in m)
            cc = c ** n
            need = any((self.gens[g][0] in ('sqrt', 'abs') and (e >= 2 or e < 0)) or
                       (self.gens[g][0] == 'sin' and e >= 2) for g, e in mm)
            if need:
                return self.pscale(self.reduce_mono(mm), cc)
            return {mm: (cc, abs(cc))}
        r = None
        b = p
        while n:
            if n & 1:
                r = b if r is None else self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # content: monomial common to all terms
    def content(self, p, pred=None):
        it = iter(p)
        common = dict(next(it))
        for m in it:
            if not common:
                break
            d = dict(m)
            for g in list(common):
                if g in d:
                    common[g] = min(common[g], d[g])
                else:
                    common[g] = min(common[g], 0)
                if common[g] == 0:
                    del common[g]
        # negative exponents present in only some terms
        neg = {}
        for m in p:
            for g, e in m:
                if e < 0 and (g not in neg or e < neg[g]):
                    neg[g] = e
        for g, e in neg.items():
            k = self.gens[g][0]
            common[g] = min(common.get(g, 0), e)
        out = {}
        for g, e in common.items():
            k = self.gens[g][0]
            if k in ('sqrt', 'sin', 'abs') and e < 0:
                continue
            if pred is None or pred(g, e):
                out[g] = e
        return out

    def div_mono(self, p, mono):
        """p / mono (mono dict), assuming exponents combine freely"""
        inv = tuple(sorted((g, -e) for g, e in mono.items()))
        out = {}
        for m, ca in p.items():
            mm, _ = self.mono_mul(m, inv)
            out[mm] = ca
        return out

    def lead(self, p):
        return max(p, key=lambda m: tuple((-g, e) for g, e in m))

    def polyid(self, p):
        """canonical id of a polynomial up to coefficient rounding"""
        key = frozenset(p)
        lst = self.polyreg.setdefault(key, [])
        for i, q in lst:
            ok = True
            for m, (c, a) in p.items():
                c2, a2 = q[m]
                if abs(c - c2) > 1e-9 * max(abs(c), abs(c2)):
                    ok = False
                    break
            if ok:
                return i
        i = len(self.polys)
        self.polys.append(p)
        lst.append((i, p))
        return i

    def pinv(self, p):
        if not p:
            raise ZeroDivisionError('normal form: division by zero')
        if len(p) == 1:
            (m, (c, a)), = p.items()
            res = {(): (1.0 / c, 1.0 / abs(c))}
            mono = []
            extra = []
            for g, e in m:
                k, pl = self.gens[g]
                if k == 'inv':
                    extra.append((pl, e))
                elif k == 'sqrt':
                    mono.append((g, 1))
                    extra.append((pl, -1))
                elif k == 'abs':
                    mono.append((g, 1))
                    extra.append((pl, -2))
                else:
                    mono.append((g, -e))
            res = {tuple(sorted(mono)): (1.0 / c, 1.0 / abs(c))}
            for q, e in extra:
                res = self.pmul(res, self.ppow(q, e))
            return res
        cont = self.content(p)
        q = self.div_mono(p, cont) if cont else p
        lm = self.lead(q)
        lc = q[lm][0]
        q = self.pscale(q, 1.0 / lc)
        i = self.polyid(q)
        q = self.polys[i]
        g = self.gen('inv', i, q, pos=self.ppos(q))
        r = {((g, 1),): (1.0 / lc, 1.0 / abs(lc))}
        if cont:
            c1 = {tuple(sorted(cont.items())): (1.0, 1.0)}
            r = self.pmul(r, self.pinv(c1))
        return r

    def ppos(self, p):
        """syntactically nonnegative polynomial"""
        for m, (c, a) in p.items():
            if c < 0:
                return False
            for g, e in m:
                if not self.pos[g] and not (isinstance(e, int) and e % 2 == 0):
                    return False
        return True

    def grange(self, g):
        """interval of a generator (variables: their declared range)"""
        kind, payload = self.gens[g]
        if kind == 'var':
            return payload.lo, payload.hi
        if self.pos[g]:
            return 0.0, math.inf
        return -math.inf, math.inf

    def prange(self, p):
        """interval of a polynomial by interval arithmetic (slightly widened)"""
        lo = hi = 0.0
        for m, (c, a) in p.items():
            l = h = c
            for g, e in m:
                gl, gh = self.grange(g)
                if isinstance(e, int) and e > 0:
                    if e % 2 == 0:
                        gl, gh = (0.0 if gl <= 0 <= gh else min(abs(gl), abs(gh))), max(abs(gl), abs(gh))
                elif not gl > 0:
                    return -math.inf, math.inf
                try:
                    x = sorted((gl ** float(e), gh ** float(e))) if gl >= 0 else sorted((gl ** e, gh ** e))
                except (OverflowError, ZeroDivisionError):
                    return -math.inf, math.inf
                v = [u * w if u and w else 0.0 for u in (l, h) for w in x]
                l, h = min(v), max(v)
            lo, hi = lo + l, hi + h
        w = 1e-9 * sum(abs(x) for x in (lo, hi) if abs(x) < math.inf)
        return lo - w, hi + w

    # ------------------------------------------------------------ translation
    def nf(self, n):
        c = self.cache
        if n in c:
            return c[n]
        stack = [n]
        while stack:
            t = stack[-1]
            if t in c:
                stack.pop()
                continue
            if t.op == 'ite':
                kids = [a for a in t.args[1:] if a not in c]
            else:
                kids = [a for a in t.args if isinstance(a, E.Node) and a not in c]
            if kids:
                stack.extend(kids)
                continue
            c[t] = self._nf1(t)
            stack.pop()
        return c[n]

    def _nf1(self, t):
        op = t.op
        c = self.cache
        if op == 'const':
            return self.pconst(t.args[0])
        if op == 'var':
            g = self.gen('var', t.args[0], t, pos=t.lo >= 0)
            return {((g, 1),): (1.0, 1.0)}
        if op == 'add':
            return self.padd(*[c[a] for a in t.args])
        if op == 'mul':
            ps = sorted((c[a] for a in t.args), key=len)
            r = ps[0]
            for p in ps[1:]:
                r = self.pmul(r, p)
            return r
        if op == 'pow':
            return self.ppow(c[t.args[0]], t.args[1])
        if op == 'sqrt':
            return self.psqrt(self.canon(c[t.args[0]]))
        if op == 'abs':
            return self.pabs(self.canon(c[t.args[0]]))
        if op == 'ite':
            g = self.gen('ite', t.nid, t, pos=t.lo >= 0)
            return {((g, 1),): (1.0, 1.0)}
        if op == 'fn':
            return self.pfn(t.args[0], [self.canon(c[a]) for a in t.args[1:]], t)
        raise TooBig('cannot normalise ' + op)

    def pabs(self, p):
        if not p:
            return p
        if len(p) == 1:
            (m, (k, a)), = p.items()
            r = self.pconst(abs(k))
            for g, e in m:
                if self.pos[g] or (isinstance(e, int) and e % 2 == 0):
                    r = self.pmul(r, self.ppow({((g, 1),): (1.0, 1.0)}, e) if isinstance(e, int) else {((g, e),): (1.0, 1.0)})
                else:
                    ag = self.gen('abs', g, {((g, 1),): (1.0, 1.0)}, pos=True)
                    r = self.pmul(r, self.ppow({((ag, 1),): (1.0, 1.0)}, e))
            return r
        if self.ppos(p):
            return p
        lo, hi = self.prange(p)
        if lo > 0:
            return p
        if hi < 0:
            return self.pscale(p, -1.0)
        lm = self.lead(p)
        lc = p[lm][0]
        q = self.pscale(p, 1.0 / lc)
        i = self.polyid(q)
        g = self.gen('abs', ('p', i), self.polys[i], pos=True)
        return {((g, 1),): (abs(lc), abs(lc))}

    def psqrt(self, p):
        if not p:
            return p
        if len(p) == 1:
            (m, (k, a)), = p.items()
            if k < 0:
                inner = {m: (k, a)}
                return self._sqrtgen(inner)
            r = self.pconst(math.sqrt(k))
            rem = []
            for g, e in m:
                kind = self.gens[g][0]
                if kind == 'inv' and isinstance(e, int):
                    if e % 2 == 0:
                        r = self.pmul(r, self.pabs({((g, e // 2),): (1.0, 1.0)}))
                    else:
                        # sqrt(P^-e) = sqrt(P) |P|^-((e+1)/2)
                        r = self.pmul(r, self.pmul(self.psqrt(self.gens[g][1]), self.pabs({((g, (e + 1) // 2),): (1.0, 1.0)})))
                elif self.pos[g] and kind not in ('sqrt', 'abs'):
                    h = self._rexp(e / 2)
                    r = self.pmul(r, {((g, h),): (1.0, 1.0)})
                elif isinstance(e, int) and e % 2 == 0:
                    r = self.pmul(r, self.pabs({((g, e // 2),): (1.0, 1.0)}))
                elif isinstance(e, int) and abs(e) > 1:
                    h = (e - 1) // 2
                    r = self.pmul(r, self.pabs({((g, h),): (1.0, 1.0)}))
                    rem.append((g, 1))
                else:
                    rem.append((g, e))
            if rem:
                r = self.pmul(r, self._sqrtgen({tuple(sorted(rem)): (1.0, 1.0)}))
            return r

        cont = self.content(p)
        out = self.pconst(1)
        take = {}
        for g, e in cont.items():
            kind = self.gens[g][0]
            if kind in ('sqrt', 'abs', 'sin'):
                continue
            if kind == 'inv' and e % 2:
                e -= 1
                if e == 0:
                    continue
            if self.pos[g]:
                take[g] = e
                out = self.pmul(out, {((g, self._rexp(e / 2)),): (1.0, 1.0)})
            elif isinstance(e, int):
                e2 = e - (e % 2)
                if e2:
                    take[g] = e2
                    out = self.pmul(out, self.pabs({((g, e2 // 2),): (1.0, 1.0)}))
        q = self.div_mono(p, take) if take else p
        lc = abs(q[self.lead(q)][0])
        q = self.pscale(q, 1.0 / lc)
        sq = self.perfect_square(q)
        if sq is not None:
            return self.pmul(self.pscale(out, math.sqrt(lc)), self.pabs(sq))
        return self.pmul(self.pscale(out, math.sqrt(lc)), self._sqrtgen(q))

    def perfect_square(self, p):
        """q with q^2 == p, or None (leading-term method, polynomial p)"""
        if len(p) > 60:
            return None
        for m in p:
            for g, e in m:
                if not isinstance(e, int):
                    return None
        lm = self.lead(p)
        c = p[lm][0]
        if c < 0 or any(e % 2 for g, e in lm):
            return None
        q = {tuple((g, e // 2) for g, e in lm): (math.sqrt(c), math.sqrt(c))}
        lead = q.copy()
        linv = self.pinv(self.pscale(lead, 2.0)) if len(lead) == 1 else None
        for _ in range(12):
            r = self.padd(p, self.pscale(self.pmul(q, q), -1.0))
            if not r:
                return q
            m = self.lead(r)
            t = self.pmul({m: r[m]}, linv)
            if len(t) != 1:
                return None
            (tm, _), = t.items()
            if tm in q or any(e < 0 for g, e in tm):
                return None
            q = self.padd(q, t)
        return None

    def _sqrtgen(self, q):
        i = self.polyid(q)
        q = self.polys[i]
        g = self.gen('sqrt', i, q, pos=True)
        return {((g, 1),): (1.0, 1.0)}

    def patom(self, kind, key, payload=None, pos=False, e=1):
        g = self.gen(kind, key, payload, pos=pos)
        return {((g, e),): (1.0, 1.0)}

    def pfn(self, name, args, t):
        if name == 'exp':
            p, = args
            r = self.pconst(1)
            for m, (k, a) in p.items():
                if m == ():
                    r = self.pscale(r, math.exp(k))
                else:
                    x = self._exp_of_log(m, k)
                    if x is None:
                        x = self.patom('exp', m, None, True, self._rexp(float(k)))
                    r = self.pmul(r, x)
            return r
        if name == 'log':
            p, = args
            if not p:
                raise TooBig('log 0')
            cont = self.content(p)
            take = {}
            r = {}
            for g, e in cont.items():
                if self.pos[g] and self.gens[g][0] not in ('sqrt', 'abs', 'sin'):
                    take[g] = e
                    r = self.padd(r, self.pscale(self._loggen(g), float(e)))
            q = self.div_mono(p, take) if take else p
            if len(q) == 1:
                # the argument is positive: log x = log|k| + sum e log|g|
                (m, (k, a)), = q.items()
                odd = [g for g, e in m if not self.pos[g] and not (isinstance(e, int) and e % 2 == 0)]
                sign = (1 if k > 0 else -1) if len(odd) == 1 else None
                for g, e in m:
                    r = self.padd(r, self.pscale(self._loggen(g, sign), float(e)))
                return self.padd(r, self.pconst(math.log(abs(k))))
            return self.padd(r, self._logpoly(q, 1))
        if name in ('cos', 'sin'):
            co, si = self.trig(args[0])
            return co if name == 'cos' else si
        if name == 'rpow':
            b, e = args
            if len(e) == 0:
                return self.pconst(1)
            if len(e) == 1 and () in e:
                x = e[()][0]
                if len(b) == 1:
                    (m, (k, a)), = b.items()
                    if k > 0 and all(self.pos[g] and self.gens[g][0] not in ('sqrt', 'abs') for g, _ in m):
                        mm = tuple((g, self._rexp(ee * x)) for g, ee in m)
                        kk = k ** x
                        return {mm: (kk, kk)}
                # pull the leading coefficient out
                lc = abs(b[self.lead(b)][0]) if b else 1.0
                cont = {g: e2 for g, e2 in self.content(b).items() if self.pos[g] and self.gens[g][0] not in ('sqrt', 'abs', 'sin')} if b else {}
                q = self.div_mono(b, cont) if cont else b
                q = self.pscale(q, 1.0 / lc)
                i = self.polyid(q)
                g = self.gen('rpow', i, q, pos=True)
                mm = {g: self._rexp(x)}
                for g2, e2 in cont.items():
                    mm[g2] = self._rexp(e2 * x)
                kk = lc ** x
                return {tuple(sorted(mm.items())): (kk, kk)}
            i, j = self.polyid(b), self.polyid(e)
            return self.patom('rpowg', (i, j), None, True)
        inv = _INVERSE.get(name)
        if inv is not None:
            fi, pos, rest = inv
            q = args[pos]
            if len(q) == 1:
                (m, (k, a)), = q.items()
                if len(m) == 1 and m[0][1] == 1 and abs(k - 1) < 1e-12 and self.gens[m[0][0]][0] == 'fn':
                    key = self.keys[m[0][0]]
                    if key[0] == fi and all(self.polyid(args[r]) == key[1 + r] for r in rest):
                        return self.polys[key[1 + pos]]
            if name == 'normppf':
                q = self.padd(self.pconst(1), self.pscale(args[0], -1.0))
                if len(q) == 1:
                    (m, (k, a)), = q.items()
                    if len(m) == 1 and m[0][1] == 1 and abs(k - 1) < 1e-12 and self.gens[m[0][0]][0] == 'fn' and self.keys[m[0][0]][0] == 'normcdf':
                        return self.pscale(self.polys[self.keys[m[0][0]][1]], -1.0)
        ids = tuple(self.polyid(p) for p in args)
        return self.patom('fn', (name,) + ids, None, t.lo >= 0)

    def _logpoly(self, q, sign=None):
        """log |q|; sign: the known sign of q"""
        lc = q[self.lead(q)][0]
        i = self.polyid(self.pscale(q, 1.0 / lc))
        if sign is not None:
            self.logsign[i] = sign if lc > 0 else -sign
        return self.padd(self.pconst(math.log(abs(lc))), self.patom('log', ('p', i)))

    def _exp_of_log(self, m, k):
        """exp(k log u) = u^k"""
        if len(m) != 1 or m[0][1] != 1 or self.gens[m[0][0]][0] != 'log':
            return None
        kind, x = self.keys[m[0][0]]
        k = self._rexp(float(k))
        if kind == 'g':
            if self.pos[x]:
                return {((x, k),): (1.0, 1.0)} if isinstance(k, float) else self.ppow({((x, 1),): (1.0, 1.0)}, k)
            s = self.logsign.get(('g', x))
            p = {((x, 1),): (1.0, 1.0)}
        else:
            s = self.logsign.get(x)
            p = self.polys[x]
        p = self.pscale(p, float(s)) if s is not None else self.pabs(p)
        if isinstance(k, int):
            return self.ppow(p, k)
        if self._rexp(2 * k) == int(2 * k):
            return self.ppow(self.psqrt(p), int(2 * k))
        return None

    def _loggen(self, g, sign=None):
        """log |g|"""
        kind, pl = self.gens[g]
        if kind == 'inv':
            return self.pscale(self._logpoly(pl, sign), -1.0)
        if kind == 'sqrt':
            return self.pscale(self._logpoly(pl, 1), 0.5)
        if kind == 'abs':
            if len(pl) == 1:
                (m, (k, a)), = pl.items()
                return self.padd(self.pconst(math.log(abs(k))), *[self.pscale(self._loggen(h), float(e)) for h, e in m])
            return self._logpoly(pl)
        if kind == 'exp':
            return {self.keys[g]: (1.0, 1.0)}
        if sign is not None:
            self.logsign[('g', g)] = sign
        return self.patom('log', ('g', g))

    def trig(self, p):
        co, si = self.pconst(1), {}
        for m, (k, a) in p.items():
            if m == ():
                c1, s1 = self.pconst(math.cos(k)), self.pconst(math.sin(k))
                # exact zeros for multiples of pi/2
                q = k / (math.pi / 2)
                if abs(q - round(q)) < 1e-13 * max(1, abs(q)):
                    v = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(round(q)) % 4]
                    c1, s1 = self.pconst(v[0]), self.pconst(v[1])
            else:
                c1, s1 = self._trigmono(m, k)
            co, si = (self.padd(self.pmul(co, c1), self.pscale(self.pmul(si, s1), -1.0)),
                      self.padd(self.pmul(si, c1), self.pmul(co, s1)))
        return co, si

    def _trigmono(self, m, k):
        sgn = 1 if k > 0 else -1
        k = abs(k)
        n = round(k)
        if n >= 1 and abs(k - n) < 1e-10 and n <= 16:
            unit = 1.0
        else:
            n = 1
            unit = float('%.11g' % k)
        # atan2 atoms
        if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]][0] == 'fn' and unit == 1.0:
            key = [kk for kk, v in self.genkey.items() if v == m[0][0]][0]
            if key[1][0] == 'atan2':
                y, x = self.polys[key[1][1]], self.polys[key[1][2]]
                r = self.pinv(self.psqrt(self.padd(self.pmul(x, x), self.pmul(y, y))))
                c1, s1 = self.pmul(x, r), self.pmul(y, r)
                return self._multi(c1, s1, n, sgn)
        cg = self.gen('cos', (m, unit))
        sg = self.gen('sin', (m, unit), cg)
        c1 = {((cg, 1),): (1.0, 1.0)}
        s1 = {((sg, 1),): (1.0, 1.0)}
        return self._multi(c1, s1, n, sgn)

    def _multi(self, c1, s1, n, sgn):
        co, si = c1, s1
        for _ in range(n - 1):
            co, si = (self.padd(self.pmul(co, c1), self.pscale(self.pmul(si, s1), -1.0)),
                      self.padd(self.pmul(si, c1), self.pmul(co, s1)))
        if sgn < 0:
            si = self.pscale(si, -1.0)
        return co, si

    # ------------------------------------------------------------ one fraction
    def canon(self, p):
        """function arguments: one fraction in lowest terms (as far as the known
        denominators divide the numerator)"""
        if len(p) < 2 or len(p) > 400:
            return p
        seen = set()
        while True:
            dens = {}
            for m in p:
                for g, e in m:
                    if g not in seen and self.gens[g][0] == 'inv' and isinstance(e, int):
                        dens[g] = max(dens.get(g, 0), e)
            if not dens:
                return p
            g = max(dens)
            seen.add(g)
            k = dens[g]
            P = self.gens[g][1]
            by = {}
            for m, ca in p.items():
                e = 0
                mm = []
                for gg, ee in m:
                    if gg == g:
                        e = ee
                    else:
                        mm.append((gg, ee))
                by.setdefault(e, {})[tuple(mm)] = ca
            if len(p) * len(P) ** (k - min(by)) > 4000:
                continue
            N = self.padd(*[self.pmul(q, self.ppow(P, k - e)) if k != e else q for e, q in by.items()])
            while k and N:
                q = self.divide(N, P)
                if q is None:
                    break
                N, k = q, k - 1
            p = self.pmul(N, {((g, k),): (1.0, 1.0)}) if k else N

    def divide(self, n, p):
        """n / p if p divides n exactly, else None"""
        lm = self.lead(p)
        lc = p[lm][0]
        inv = tuple((g, -e) for g, e in lm)
        q = {}
        for _ in range(300):
            if not n:
                return q
            m = self.lead(n)
            d = dict(m)
            for g, e in lm:
                if not isinstance(d.get(g, 0), int) or d.get(g, 0) < e or not isinstance(e, int):
                    return None
            mm, red = self.mono_mul(m, inv)
            t = {mm: (n[m][0] / lc, n[m][1] / abs(lc))}
            q = self.padd(q, t)
            n2 = self.padd(n, self.pscale(self.pmul(t, p), -1.0))
            if m in n2:
                n2.pop(m)
            n = n2
        return None

    # ------------------------------------------------------------ zero test
    def numerator(self, p):
        """clear denominators; the result vanishes iff p does (where defined)"""
        while True:
            dens = {}
            for m in p:
                for g, e in m:
                    if self.gens[g][0] == 'inv' or self.gens[g][0] == 'abs' and e < 0:
                        dens[g] = max(dens.get(g, 0), e)
            if not p or not dens:
                return p
            g = max(dens)
            k = dens[g]
            P = self.gens[g][1]
            by = {}
            for m, ca in p.items():
                e = 0
                mm = []
                for gg, ee in m:
                    if gg == g:
                        e = ee
                    else:
                        mm.append((gg, ee))
                by.setdefault(e, {})[tuple(mm)] = ca
            out = []
            for e, q in by.items():
                out.append(self.pmul(q, self.ppow(P, k - e)) if k != e else q)
            p = self.padd(*out)

    def residual(self, n):
        """polynomial residual whose vanishing decides n == 0"""
        p = self.nf(n)
        if not p:
            return p
        return self.numerator(p)
