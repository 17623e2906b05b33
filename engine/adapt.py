"""Stand-ins accept the calls that the replaced function accepts; internal interfaces are not part of a property."""
import functools
import inspect
import re
import traceback

_cache = {}


def _signature(f):
    try:
        return inspect.signature(f)
    except (TypeError, ValueError):
        return None


def adapt(orig, value):
    """a stand-in for orig that may be called with keywords or positional arguments in any way in which orig may be"""
    if not inspect.isfunction(value) or orig is None or getattr(value, '_adapted', False):
        return value
    if not (inspect.isfunction(orig) or hasattr(orig, '__wrapped__')) or orig is value or getattr(orig, '__wrapped__', None) is value:
        return value
    so, sv = _signature(orig), _signature(value)
    if so is None or sv is None:
        return value
    star = any(p.kind is p.VAR_POSITIONAL for p in sv.parameters.values())
    used = {c for c in value.__code__.co_consts if isinstance(c, str)} | set(sv.parameters)
    pos = [p.name for p in so.parameters.values() if p.kind is p.POSITIONAL_OR_KEYWORD]

    def fits(a, k):
        try:
            sv.bind(*a, **k)
            return True
        except TypeError:
            return False

    def forms(a, k):
        try:
            b = so.bind(*a, **k)
        except TypeError:
            return
        yield b.args, b.kwargs
        flat = {n: v for n, v in b.arguments.items() if so.parameters[n].kind is not inspect.Parameter.VAR_KEYWORD}
        flat.update(b.arguments.get(next((p.name for p in so.parameters.values() if p.kind is p.VAR_KEYWORD), ''), {}))
        for n in range(len(pos) + 1):
            head = [flat[x] for x in pos[:n] if x in flat]
            if len(head) == n:
                yield head, {x: v for x, v in flat.items() if x not in pos[:n]}

    @functools.wraps(value)
    def call(*a, **k):
        if star and k:
            # keywords that the stand-in does not look at become positional, as far as possible
            a = list(a)
            while len(a) < len(pos) and pos[len(a)] in k and pos[len(a)] not in used:
                a.append(k.pop(pos[len(a)]))
        elif not fits(a, k):
            for x, y in forms(a, k):
                if fits(x, y):
                    a, k = x, y
                    break
        return value(*a, **k)
    call._adapted = True
    call.__signature__ = so
    return call


_CALL = re.compile(r'unexpected keyword argument|required (positional|keyword-only) argument|positional arguments? but|multiple values for argument')


def interface_changed(e):
    """whether an exception tells that an internal function called or replaced by a harness has another name or signature"""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return False
    here = re.search(r'/(checks|engine)/[^/]*\.py$', tb[-1].filename) is not None
    s = str(e)
    if isinstance(e, TypeError) and _CALL.search(s):
        return here or '<locals>' in s or '<lambda>' in s
    if isinstance(e, AttributeError) and here:
        return bool(re.search(r"^(partially initialized )?module 'flavio|^type object ", s))
    return False
