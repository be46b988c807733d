"""C03: semidefinite-programming prover certificates are exact and nonnegative."""
import itertools

import mpmath
import sympy as sp

from ..core import Family
from .. import oracle as O
from .. import problems as PB
from .. import sdpscript as SS
from . import c02

TITLE = 'semidefinite-programming prover certificates are exact and nonnegative'
BUDGET = {'quick': 170, 'thorough': 1500}
mpmath.mp.dps = O.MPDPS


def solver():
    from triples.core import SDPSOS
    return SDPSOS


def run_problem(ctx, case):
    PB.run(ctx, case, solver(), {}, label='SDPSOS')


def cases_problem(tier):
    return PB.all_problems(tier == 'quick')


EXTRA = [
    ['(a**2+b**2+c**2)**2-3*(a**3*b+b**3*c+c**3*a)', 'a b c', [], []],
    ['a**4+b**4+c**4+a*b*c*(a+b+c)-2*(a**2*b**2+b**2*c**2+c**2*a**2)*0-2*(a**2*b**2+b**2*c**2+c**2*a**2)', 'a b c', ['a', 'b', 'c'], []],
    ['x**4*y**2+x**2*y**4-3*x**2*y**2*z**2+z**6', 'x y z', [], []],
    ['(x-y)**2*(x+y)', 'x y', ['x', 'y'], []],
    ['a**2*b**2+b**2*c**2+c**2*a**2-a*b*c*(a+b+c)', 'a b c', [], []],
    ['x**2+y**2+z**2-2', 'x y z', ['x*y-1'], ['z']],
    ['x*y+y*z-x*z-y**2', 'x y z', ['x-y', 'y-z'], []],
    ['2*x+2*y-x*y-3', 'x y', ['x-1', 'y-1', '2-x', '2-y'], []],
]
PROBLEMS = c02.OPT_PROBLEMS + EXTRA
OPTS = [[('preordering', v) for v in ('linear-progressive', 'linear', 'none')], [('ineq_constraints_with_trivial', v) for v in (True, False)],
        [('symmetry', v) for v in ('auto', 'triv', 'full', 'manager')], [('degree_limit', v) for v in (12, 3)], [('solver', v) for v in (None, 'cvxopt', 'picos')], [('verbose', v) for v in (False, True)]]


def run_opts(ctx, case):
    i, opts = case
    problem = PROBLEMS[i]
    P, ineq, eq = PB.parse(problem)
    kw = {}
    for k, v in opts:
        if k == 'symmetry':
            g = c02.group_of(P, ineq, eq, v)
            if g is not None:
                kw[k] = g
        else:
            kw[k] = v
    PB.run(ctx, problem, solver(), kw, label='SDPSOS %s' % opts)


def cases_opts(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(PROBLEMS)):
        for o in itertools.product(*OPTS):
            d = sum(x != y[0] for x, y in zip(o, OPTS))
            if d <= (1 if q else 2) or (q and d == 2 and i in (0, 2, 5, 7, 15)):
                out.append([i, [list(x) for x in o]])
    return out


def run_script(ctx, case):
    i, script = case
    log = []
    with SS.scripted(script, log):
        PB.run(ctx, PROBLEMS[i], solver(), {}, label='SDPSOS with backend answers %s' % (script,))
    ctx.step(len(log))


def cases_script(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(PROBLEMS)):
        for r in (1, 2):
            for s in itertools.product(SS.ANSWERS, repeat=r):
                if r == 2 and (q and (s[0] not in ('none', 'nan', 'noise-1', 'huge') or i % 4)):
                    continue
                out.append([i, list(s)])
    return out


def families(tier):
    return [
        Family('problems', cases_problem(tier), run_problem, chunk=8, timeout=40, share=4, bound='all problems of mc/problems.py (1 to 5 variables, 11+ constraint shapes, equalities, inhomogeneous)'),
        Family('options', cases_opts(tier), run_opts, chunk=4, timeout=40, share=2, bound='20 problems x option combinations differing from the defaults in <= 1 or 2 dimensions'),
        Family('backend-answers', cases_script(tier), run_script, chunk=4, timeout=40, share=2, bound='all sequences of <= 2 answers of the SDP backend over an alphabet of 19, 20 problems'),
    ]
