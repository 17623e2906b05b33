"""Concrete side of the harness interface: the same harness runs on plain,
unpatched flavio with the numbers of a solver model."""
import math
import sys
import traceback
import numpy as np
from .adapt import adapt, interface_changed
from .explore import pairs, nonfin, ufun_concrete, clear_caches


class AssumeFailed(BaseException):
    pass


class CCtx:
    symbolic = False

    def __init__(self, values, choices, seed=1, tol=1e-6):
        self.values = values
        self.choices = choices
        self.results = []
        self.undo = []
        self.tol = tol
        self.seed = seed

    def real(self, name, lo=None, hi=None, sample=None):
        return float(self.values[name])

    def complex(self, name, b=2.0, lo=None, hi=None):
        return complex(self.values[name + '.re'], self.values[name + '.im'])

    def choice(self, name, options):
        return list(options)[self.choices[name]]

    def number(self, name, ints=1, decs=2, trail=0):
        name = '%s.%d.%d' % (name, ints, decs - trail)
        v = min(max(abs(float(self.values[name])), 10.0 ** -(decs - trail)), 10.0 ** ints - 10.0 ** -(decs - trail))
        t = '%.*f' % (decs - trail, v)
        a, _, b = t.partition('.')
        t = a.zfill(ints)
        if decs:
            t += '.' + b + '0' * trail
        return t, float(t)

    def ufun(self, name, lo=None, hi=None):
        return ufun_concrete(name, lo, hi)

    def ucfun(self, name):
        re, im = self.ufun(name + '.re'), self.ufun(name + '.im')
        return lambda *a: complex(re(*a), im(*a))

    def random(self):
        from . import symnp
        stub = symnp.RandStub(self, np.random)
        self.patch(np, 'random', stub)
        return stub

    def patch(self, target, attr, value):
        if isinstance(target, dict):
            self.undo.append((target, attr, target.get(attr), attr in target))
            target[attr] = value
            return
        if attr.startswith('__'):
            self.undo.append((target, attr, getattr(target, attr), True))
            setattr(target, attr, value)
            return
        d = target.__dict__
        self.undo.append((target, attr, d.get(attr), attr in d))
        setattr(target, attr, adapt(getattr(target, attr, None), value))

    def uncache(self, module):
        """functions of a module without their caches"""
        for k, v in list(module.__dict__.items()):
            if hasattr(v, 'cache_info') and hasattr(v, '__wrapped__'):
                self.patch(module, k, v.__wrapped__)

    def patch_name(self, fn, value, prefix='flavio'):
        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith(prefix):
                continue
            for k, v in list(mod.__dict__.items()):
                if v is fn:
                    self.patch(mod, k, value)

    def assume(self, cond):
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
            return
        if not bool(cond):
            raise AssumeFailed()

    def _res(self, label, ok, detail=''):
        self.results.append((label, bool(ok), detail))

    def check_eq(self, label, a, b, scale=None, tol=None, atol=None):
        for lab, x, y in pairs(label, a, b):
            if x is None and y is None and lab != label:
                self._res(lab, False, 'different shape or keys')
                continue
            if isinstance(x, (str, bytes, type(None), bool)) or isinstance(y, (str, bytes, type(None), bool)):
                self._res(lab, x == y, '%r vs %r' % (x, y))
                continue
            nx, ny = nonfin(x), nonfin(y)
            if nx or ny:
                self._res(lab, nx == ny, '%r vs %r' % (x, y))
                continue
            s = max(abs(x), abs(y), abs(scale) if scale is not None else 0.0)
            t = self.tol if tol is None else max(tol, self.tol)
            d = abs(x - y)
            ok = d <= t * s or d <= (atol or 0.0) or d < 1e-300
            self._res(lab, ok, '%r vs %r' % (x, y))

    def check(self, label, cond):
        self._res(label, bool(cond), '')

    def check_le(self, label, a, b):
        s = abs(a) + abs(b)
        self._res(label, a <= b + 1e-8 * s, '%r <= %r' % (a, b))

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self._res(label, True)
            return True
        self._res(label, False, 'no %s raised' % (exc.__name__ if isinstance(exc, type) else exc))
        return False

    def note(self, s):
        pass


def run_concrete(fn, values, choices, seed=1, tol=1e-6):
    """returns dict(results, exc, assume)"""
    ctx = CCtx(values, choices, seed, tol)
    clear_caches()
    out = {'exc': None, 'assume': True}
    try:
        with np.errstate(all='ignore'):
            fn(ctx)
    except AssumeFailed:
        out['assume'] = False
    except KeyError as e:
        if e.args and (e.args[0] not in values and str(e.args[0]) in getattr(ctx, 'choices', {}) or True):
            tb = traceback.extract_tb(e.__traceback__)
            if tb and tb[-1].filename.endswith('concrete.py'):
                out['assume'] = False      # the replay left the modelled path
            else:
                out['exc'] = 'KeyError: %s' % e
                out['tb'] = traceback.format_exc()[-1500:]
    except Exception as e:
        if interface_changed(e):
            out['assume'] = False
        out['exc'] = '%s: %s' % (type(e).__name__, e)
        out['tb'] = traceback.format_exc()[-1500:]
    finally:
        for t, k, v, had in reversed(ctx.undo):
            if isinstance(t, dict):
                if had:
                    t[k] = v
                else:
                    t.pop(k, None)
            elif had:
                setattr(t, k, v)
            else:
                try:
                    delattr(t, k)
                except AttributeError:
                    pass
    out['results'] = ctx.results
    return out
