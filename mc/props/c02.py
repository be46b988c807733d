"""C02: linear-programming prover certificates are exact and nonnegative."""
import contextlib
import itertools
from fractions import Fraction as F

import mpmath
import numpy as np
import sympy as sp

from ..core import Family
from .. import oracle as O
from .. import cert
from .. import problems as PB

TITLE = 'linear-programming prover certificates are exact and nonnegative'
BUDGET = {'quick': 170, 'thorough': 1500}
mpmath.mp.dps = O.MPDPS


def solver():
    from triples.core import LinearSOS
    return LinearSOS


def run_problem(ctx, case):
    problem, mode = case
    kw = {}
    if mode == 'triv':
        from sympy.combinatorics import Permutation, PermutationGroup
        kw['symmetry'] = PermutationGroup(Permutation(len(problem[1].split()) - 1))
    PB.run(ctx, problem, solver(), kw, label='LinearSOS[%s]' % mode)


def cases_problem(tier):
    q = tier == 'quick'
    return [[p, 'auto'] for p in PB.all_problems(q)]


OPT_PROBLEMS = [
    ['a**3+b**3+c**3-3*a*b*c', 'a b c', ['a', 'b', 'c'], []],
    ['a**2*b+b**2*c+c**2*a-3*a*b*c', 'a b c', ['a', 'b', 'c'], []],
    ['a**2+b**2+c**2-a*b-b*c-c*a', 'a b c', [], []],
    ['x*y-1', 'x y', ['x-1', 'y-1'], []],
    ['x+y-x*y', 'x y', ['x', 'y', '1-x', '1-y'], []],
    ['3-a*b-b*c-c*a', 'a b c', ['a', 'b', 'c'], ['a+b+c-3']],
    ['a**4+b**4+c**4-a**2*b*c-b**2*c*a-c**2*a*b', 'a b c', [], []],
    ['a**3+b**3+c**3-4*a*b*c', 'a b c', ['a', 'b', 'c'], []],
    ['(a-2*b+c)**2*a+b*c*(a-c)**2*0', 'a b c', ['a', 'b', 'c'], []],
    ['x**2-x+1', 'x', [], []],
    ['1-2*x*y', 'x y', [], ['x**2+y**2-1']],
    ['a*b*(a-b)**2+c**4', 'a b c', ['a', 'b'], []],
]
OPTS = [[('preordering', v) for v in ('linear', 'none')], [('quad_diff_order', v) for v in (0, 2, 8)], [('lift_degree_limit', v) for v in (0, 1, 2, 4)],
        [('symmetry', v) for v in ('auto', 'triv', 'full', 'manager')], [('tangents', v) for v in ('none', 'some')], [('rootsinfo', v) for v in ('auto', 'empty')]]


def group_of(P, ineq, eq, v):
    """a symmetry argument: nothing, the trivial group, or the full group the problem really has (own closure)"""
    from sympy.combinatorics import Permutation, PermutationGroup
    from triples.utils.monomials import MonomialManager
    n = len(P.gens)
    if v == 'auto':
        return None
    if v == 'triv':
        return PermutationGroup(Permutation(n - 1))
    els = []
    for perm in itertools.permutations(range(n)):
        m = dict(zip(P.gens, [P.gens[j] for j in perm]))
        same = lambda L: {sp.expand(e) for e in L} == {sp.expand(e.xreplace(m)) for e in L}
        if sp.expand(P.as_expr().xreplace(m) - P.as_expr()) == 0 and same(ineq) and same(eq):
            els.append(Permutation(list(perm)))
    G = PermutationGroup(*els)
    hom = P.is_homogeneous and all(sp.Poly(e, *P.gens).is_homogeneous for e in ineq + eq)
    return G if v == 'full' or not hom else MonomialManager(n, G)


def run_opts(ctx, case):
    i, opts = case
    problem = OPT_PROBLEMS[i]
    P, ineq, eq = PB.parse(problem)
    n = len(P.gens)
    kw = {}
    for k, v in opts:
        if k == 'symmetry':
            g = group_of(P, ineq, eq, v)
            if g is not None:
                kw[k] = g
        elif k == 'tangents':
            if v == 'some':
                kw[k] = [(P.gens[0] - P.gens[-1])**2, (P.gens[0] + P.gens[-1])**2, P.gens[0]**2] if n > 1 else [(P.gens[0] - 1)**2]
        elif k == 'rootsinfo':
            if v == 'empty':
                from triples.utils import RootsInfo
                kw[k] = RootsInfo()
        else:
            kw[k] = v
    PB.run(ctx, problem, solver(), kw, label='LinearSOS %s' % opts)


def cases_opts(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(OPT_PROBLEMS)):
        for o in itertools.product(*OPTS):
            d = sum(x != y[0] for x, y in zip(o, OPTS))
            if q and d > 2:
                continue
            out.append([i, [list(x) for x in o]])
    return out


# ------------------------------------------------------------------ any answer of the LP solver

ANSWERS = ['good', 'noise-12', 'noise-8', 'noise-5', 'noise-2', 'drop', 'swap', 'fail', 'raise', 'ones', 'interior']


@contextlib.contextmanager
def scripted_lp(script, log):
    """replace scipy's linprog by one that follows the script (one answer per call, then the last forever)"""
    import scipy.optimize as so
    import triples.core.linsos.linsos as L
    real = so.linprog

    def fake(c, A_eq=None, b_eq=None, **kw):
        k = script[min(len(log), len(script) - 1)]
        log.append(k)
        if k == 'raise':
            raise RuntimeError('scripted solver failure')
        if k == 'interior':
            kw = dict(kw, method='highs-ipm')
        res = real(c, A_eq=A_eq, b_eq=b_eq, **kw)
        if k == 'fail':
            res.success = False
            res.x = None
            return res
        if k in ('good', 'interior'):
            return res
        n = len(c)
        x = np.array(res.x) if res.success and res.x is not None else np.ones(n) / n
        idx = np.arange(n)
        if k.startswith('noise'):
            x = np.abs(x + 10.0 ** -int(k[6:]) * np.cos(idx * 1.7 + 0.3))
        elif k == 'drop':
            nz = np.nonzero(x > 1e-9)[0]
            if len(nz):
                x[nz[0]] = 0
        elif k == 'swap':
            x = x[::-1].copy()
        elif k == 'ones':
            x = np.ones(n)
        res.success = True
        res.x = x
        return res
    old = so.linprog
    so.linprog = fake
    has = getattr(L, 'linprog', None)
    if has is not None:
        L.linprog = fake
    try:
        yield
    finally:
        so.linprog = old
        if has is not None:
            L.linprog = has


def run_lp(ctx, case):
    i, script = case
    log = []
    with scripted_lp(script, log):
        PB.run(ctx, OPT_PROBLEMS[i], solver(), {'lift_degree_limit': 2}, label='LinearSOS with LP answers %s' % (script,))
    ctx.step(len(log))


def cases_lp(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(OPT_PROBLEMS)):
        for r in (1, 2):
            for s in itertools.product(ANSWERS, repeat=r):
                if r == 2 and (q and s[0] not in ('fail', 'raise', 'noise-2', 'ones')):
                    continue
                out.append([i, list(s)])
    return out


def families(tier):
    return [
        Family('problems', cases_problem(tier), run_problem, chunk=8, timeout=40, share=4, bound='all problems of mc/problems.py (1 to 5 variables, 11+ constraint shapes, equalities, inhomogeneous)'),
        Family('options', cases_opts(tier), run_opts, chunk=4, timeout=40, share=2, bound='12 problems x option combinations differing from the defaults in <= 2 (quick) or any number of dimensions'),
        Family('solver-answers', cases_lp(tier), run_lp, chunk=4, timeout=40, share=1.5, bound='all sequences of <= 2 answers of the LP backend over an alphabet of 11, 12 problems'),
    ]
