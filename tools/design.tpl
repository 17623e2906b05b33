# Solver-based checking of flavio

## Method

One engine (`engine/`) executes the *real* functions of flavio, imported from /repo's working tree on every run, on symbolic values.
Nothing of flavio is transcribed: the encoding is whatever the current source computes.

* `expr.py` hash-consed terms over the reals (polynomial and rational operations, sqrt, exp, log, sin/cos, powers, comparisons, uninterpreted functions) with interval
  bounds; `sym.py` the symbolic real / complex / boolean objects that overload Python's operators; `symnp.py` stands in for the numpy and scipy entry points used by the code under test
  when an argument is symbolic (array arithmetic, dot, inv, eigh of 2x2, cov, interp, searchsorted, cumulative sums, quad as an uninterpreted linear functional, ...).
  Concrete arguments go to the original functions. The shims are installed in the process only, no hook in /repo.
* `explore.py` path exploration: a branch on a symbolic condition asks the solver which sides are feasible and forks (re-execution with a decision prefix). `ctx.choice` forks over a finite
  set of discrete choices (operation sequences, forms, particles). Every path ends with *obligations* (`check_eq`, `check`, `check_le`, `raises`), quantified over all values of the
  variables satisfying the path condition.
* `solver.py`, `nf.py` decide the obligations: equality is first reduced to a rational normal form over atoms (square roots, exponentials, trigonometric functions with their algebraic
  relations rewritten: a*a=x for sqrt, sin^2+cos^2=1, exp(a)exp(b)=exp(a+b), |z|^2, ...): a difference with a normal form that is identically zero holds for all values (this is the decision procedure for
  the theory of commutative fields with these identities); everything else goes to z3 (nonlinear real arithmetic with the atoms as constrained variables, unsat = holds for all values on the path).
  `unknown` is never counted as discharged; it is reported as undecided in the evidence.
* A `sat` answer or a non-vanishing difference gives a candidate point; it is replayed on plain flavio (`concrete.py`, no shims, original numpy/scipy) and only a
  discrepancy reproduced there is a VIOLATION. The replay file under `evidence/replays/` holds the harness, the choices and the values.
  For each explored path a witness is also replayed concretely, which compares shimmed and plain execution (guards the shims) and covers code where floats matter.
* `run.py` time limits per harness, evidence (functions encoded, bounds, paths, obligations, queries by kind, solver time, replays).

Reals stand for floats, with relative tolerance 1e-6 (absolute where a scale is given) in equalities that contain decimal constants. Bounds (intervals, sizes, histories) are stated in each check (`BOUNDS`)
and in the evidence. Outside the bounds nothing is claimed. Collaborators replaced by *uninterpreted functions* (e.g. form factors, predictions, quadrature) stand for every function of that type.

`./check ID --tier quick|thorough` runs one property; `VERIF_REPO` (development only) points to a scratch copy. `tools/props.py` is the source of `properties.jsonl` and `MANIFEST.json` (`tools/gen.py`).

## Why this reaches what the tests cannot

The tests compare a few numbers. The obligations here are universally quantified over all parameter values, Wilson coefficients, predictions, random draws and the stated histories; an error in a
term that vanishes or is tiny for the tested numbers (an imaginary part, a lepton-mass term, a swapped index, a replaced constraint, a stale cache) is a satisfiable query.

## Outside the technique

Numerical accuracy of quadrature and of the external packages (scipy special functions, wilson's RG running, ODE solvers): they are uninterpreted or run concretely. Fitted numbers in data files (form-factor
parameters, measurements) are data, not code. Parallel execution with `multiprocessing` is only encoded through its sequential contract (map).

@@PROPS@@
## False alarms handled while building

* measurement files with a *list* for observables without arguments are rejected by flavio; that is outside the documented format, S07 does not generate it.
* an absolute bin width next to 0 made equalities of tiny quantities fail from rounding only: equalities carry a scale.
* S08: a likelihood dumped without parameter changes has no `par_obj` entry and is read with the defaults bound at import; the harness patches the default collection, so it only dumps changed ones.

## Defects found

`known_findings.json`: `fixed` lists the repaired defects with commit; `findings` the genuine ones that are recorded and not repaired (none is suppressed beyond the listed call site).

@@FIND@@
## Planted bugs

Each was confirmed in a scratch copy: applies, builds, the existing tests pass, demo passes without and fails with it.

@@SEEDS@@
