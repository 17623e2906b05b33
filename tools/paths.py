"""development helper: tools/paths.py CHECK HARNESS [N]: prints path conditions and obligations"""
import importlib
import os
import sys
import time
os.environ.setdefault('MPLBACKEND', 'Agg')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), REPO]
sys.setrecursionlimit(20000)
import numpy as np
np.seterr(all='ignore')
from engine import run, symnp, solver, expr as E
from engine.explore import Explorer, Decider
mod = importlib.import_module('checks.' + sys.argv[1])
h = [h for h in run._registry['checks.' + sys.argv[1]] if h.name == sys.argv[2]][0]
import flavio
symnp.install()
ex = Explorer(h.fn, max_paths=int(sys.argv[3]) if len(sys.argv) > 3 else 10, deadline=time.time() + 100)
ex.objects = h.objects
t = time.time()
for p in ex.run():
    print('---', p.choices, 'exc', p.exc, 'unsupported', p.unsupported, len(p.obls), 'obls')
    if p.exc is not None:
        print(p.exc_tb)
    for c in p.conds:
        print('   ', E.to_str(c, 6)[:300])
print('%.1fs' % (time.time() - t), ex.incomplete)
if '-d' in sys.argv:
    dec = Decider(ex, deadline=time.time() + 200, z3_ms=h.z3_ms)
    for p in ex.paths:
        for o in p.obls:
            t = time.time()
            dec.decide(o)
            print(o.label, o.status, o.how, '%.2f' % (time.time() - t))
            if o.status != 'proved' and '-v' in sys.argv:
                print('   L', E.to_str(o.a, 7)[:1500] if o.a is not None else E.to_str(o.cond, 7)[:1500])
                print('   R', E.to_str(o.b, 7)[:1500] if o.b is not None else '')
