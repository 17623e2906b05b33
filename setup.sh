#!/bin/bash
# nothing to build: checks that the interpreter, flavio and z3 are importable offline
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from engine import solver, expr as E
x = E.var('x', -2, 2)
assert solver.check([E.lt(E.mul(x, x), E.const(0))], 5000, 'setup') == 'unsat'
print('ok')"
