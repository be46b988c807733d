"""C20: the numeric SDP interface encodes and decodes problems faithfully."""
import contextlib
import io
import itertools
from fractions import Fraction as F

import numpy as np
import sympy as sp

from ..core import Family
from .c16 import rref, rank

TITLE = 'Numeric SDP interface encodes and decodes problems faithfully'
BUDGET = {'quick': 120, 'thorough': 900}
HANG = True    # cases take a second at most: one that never ends is reported
x, y, a, b = sp.symbols('x y a b')
TOL = 2e-4


@contextlib.contextmanager
def names(seed):
    """the backends draw random names for their variables; here they follow from the seed"""
    import random
    import uuid
    real, rnd = uuid.uuid4, random.Random(seed)
    uuid.uuid4 = lambda: uuid.UUID(int=rnd.getrandbits(128))
    try:
        yield
    finally:
        uuid.uuid4 = real


def solve(ctx, prob, solver, **kw):
    """picos may fail numerically on some variable orders (which follow from its random names): a failure counts only if every one of 8 fixed orders fails"""
    if solver != 'picos':
        ctx.step()
        return prob.solve(solver=solver, **kw)
    res = False
    for seed in range(8):
        with names(seed):
            ctx.step()
            res = prob.solve(solver=solver, solver_options={'max_iterations': 80}, **kw)
        if res:
            break
    return res


# ------------------------------------------------------------------ own linear programming oracle (vertex enumeration, exact)
def solve_sq(A, v):
    n = len(A)
    R, piv = rref([list(r) + [w] for r, w in zip(A, v)])
    if len(piv) < n or n in piv:
        return None
    return [R[i][n] for i in range(n)]


def lp(obj, ineqs, eqs):
    """min obj.z over {c.z >= d for (c, d) in ineqs} and {c.z = d for eqs}; returns (feasible, optimum); the feasible set is pointed and the optimum is attained"""
    n = len(obj)
    best = None
    k = rank([e[0] for e in eqs]) if eqs else 0
    base = []
    for e in eqs:
        if rank([q[0] for q in base] + [e[0]]) > len(base):
            base.append(e)
    for sub in itertools.combinations(ineqs, n - k):
        S = base + list(sub)
        p = solve_sq([list(c) for c, _ in S], [d for _, d in S])
        if p is None:
            continue
        if all(sum(ci * zi for ci, zi in zip(c, p)) >= d for c, d in ineqs) and all(sum(ci * zi for ci, zi in zip(c, p)) == d for c, d in eqs):
            v = sum(ci * zi for ci, zi in zip(obj, p))
            best = v if best is None else min(best, v)
    return best


# ------------------------------------------------------------------ polytopes as semidefinite problems: block -> list of eigenvalue forms (coefs of (u, v), constant)
def forms(code):
    """code: list of [cu, cv, c]"""
    return [tuple(F(t) for t in f) for f in code]


BOX = [[1, 0, 1], [-1, 0, 2], [0, 1, 0], [0, -1, 3]]     # -1 <= u <= 2, 0 <= v <= 3
TRI = [[1, 0, 0], [0, 1, 1], [-1, -2, 4]]
LAYOUTS = {
    'single': lambda fs: [[f] for f in fs],
    'diag': lambda fs: [fs],
    'pairs': lambda fs: [fs[:2], fs[2:]],
    'rot': lambda fs: [('rot', fs[:2]), ('rot', fs[2:4])] + [[f] for f in fs[4:]] if len(fs) % 2 == 0 else [('rot', fs[:2])] + [[f] for f in fs[2:]],
    'const': lambda fs: ['one', fs, 'empty'],
    'perm': lambda fs: [[f] for f in fs[::-1]],
}
NAMES = {2: [(x, y), (y, x), (b, a)], 1: [(x,), (b,)]}


def build(poly, layout, syms):
    """the symbolic blocks, and the eigenvalue forms of each"""
    fs = forms(poly)
    ex = lambda f: f[0] * syms[0] + (f[1] * syms[1] if len(syms) > 1 else 0) + f[2]
    E = lambda f: sp.expand(sp.Rational(f[0].numerator, f[0].denominator) * syms[0] + sp.Rational(f[1].numerator, f[1].denominator) * syms[1] + sp.Rational(f[2].numerator, f[2].denominator))
    mats, eig = {}, {}
    for i, blk in enumerate(LAYOUTS[layout](fs)):
        key = 'Q%d' % ((7 * i + 3) % 10)
        if blk == 'one':
            mats[key], eig[key] = sp.Matrix([[5]]), [(F(0), F(0), F(5))]
        elif blk == 'empty':
            mats[key], eig[key] = sp.zeros(0, 0), []
        elif isinstance(blk, tuple):
            s, t = blk[1]
            mats[key] = sp.Matrix([[E(s) + E(t), E(s) - E(t)], [E(s) - E(t), E(s) + E(t)]]) / 2
            eig[key] = [s, t]
        else:
            mats[key] = sp.diag(*[E(f) for f in blk])
            eig[key] = list(blk)
    return mats, eig


OBJS = [[1, 0, 0], [0, -1, 0], [-1, -2, 1], [3, -1, 0], [-2, 1, 5], [1, 1, 0]]
CONS = [[], [[1, 0, 1, '<=']], [[1, 1, 1, '>=']], [[1, -2, 0, '==']], [[0, 1, 1, '<'], [1, 0, 0, '>']], [[2, 1, 3, '=='], [0, 1, 2, '<=']], [[-1, -1, -4, '>=']], [[1, 0, 7, '>=']],
        [[1, 0, 0, '<=']], [[0, 1, 1, '>='], [1, 0, 0, '<=']], [[1, 1, 0, '<'], [1, 0, -1, '>='], [0, 1, 2, '<=']]]
OBJ_N = ['expr', 'array', 'column', 'list', 'ext', 'const']
CON_N = ['rel', 'swap', 'vec', 'tup', 'call', 'vecmat', 'word', 'mix']
EIGS = [0, '1/4', ['0', '1/4'], ['1', '0'], ['1', '1/8'], {'first': '1/2'}, {'last': ['0', '1/3']}, {'all': '1/8'}]
WORD = {'<=': '__le__', '>=': '__ge__', '<': '__lt__', '>': '__gt__', '==': '__eq__'}


def con_notation(c, notation, syms, mats):
    cu, cv, d, op = c
    e = cu * syms[0] + cv * syms[1]
    rel = {'<=': sp.Le, '>=': sp.Ge, '<': sp.Lt, '>': sp.Gt, '==': sp.Eq}[op]
    rev = {'<=': sp.Ge, '>=': sp.Le, '<': sp.Gt, '>': sp.Lt, '==': sp.Eq}[op]
    order = sorted(syms, key=lambda s: s.name)
    vec = [dict(zip(syms, (cu, cv)))[s] for s in order]
    if notation == 'rel':
        return rel(e, d)
    if notation == 'swap':
        return rev(sp.Integer(d) + syms[0], sp.expand(e + syms[0]), evaluate=False)
    if notation == 'vec':
        return (np.array(vec, dtype=float), d, op)
    if notation == 'vecmat':
        return (sp.Matrix([vec]), sp.Integer(d), op)
    if notation == 'word':
        return (np.array(vec), d, WORD[op])
    if notation == 'tup':
        return (e + 2, d + 2, op)
    if notation == 'call':
        key = list(mats)[0]
        return lambda loc: rel(e + loc[key].trace() - sp.trace(mats[key]), d)
    raise KeyError(notation)


def eig_value(e, keys):
    f = lambda v: float(F(v))
    one = lambda v: (f(v[0]), f(v[1])) if isinstance(v, list) else (int(v) if v == 0 else f(v))
    if isinstance(e, dict):
        (w, v), = e.items()
        ks = {'first': keys[:1], 'last': keys[-1:], 'all': keys}[w]
        return {k: one(v) for k in ks}, {k: (F(v[0]), F(v[1])) if isinstance(v, list) else (F(0), F(v)) for k in ks}
    kb = (F(e[0]), F(e[1])) if isinstance(e, list) else (F(0), F(e))
    return one(e), {k: kb for k in keys}


def run_opt(ctx, case):
    poly, layout, ni, obj, on, cons, cn, eig, scaling, solver = case
    from triples.sdp import SDPProblem
    syms = NAMES[2][ni]
    mats, E = build(poly, layout, syms)
    keys = list(mats)
    order = sorted(syms, key=lambda s: s.name)
    cu, cv, cc = obj
    oe = cu * syms[0] + cv * syms[1]
    ov = [dict(zip(syms, (cu, cv)))[s] for s in order]
    rcoef = 0
    if on == 'ext':
        rcoef = -1
    objective = {'expr': lambda: oe, 'const': lambda: 2 * (oe + cc) - oe - 2 * cc + sp.Rational(7, 3), 'array': lambda: np.array(ov, dtype=float), 'column': lambda: np.array(ov), 'list': lambda: [oe], 'ext': lambda: np.array(ov + [-1])}[on]()
    clist = [con_notation(c, cn if cn != 'mix' else ('vec', 'rel', 'tup', 'call')[(i + len(cons)) % 4], syms, mats) for i, c in enumerate(cons)]
    ev, kb = eig_value(eig, [k for k in keys])
    constraints, me = ([clist], [ev]) if on == 'list' else (clist, ev)
    kb = {k: kb.get(k, (F(0), F(0))) for k in keys}
    if on == 'ext' and all(v[0] == 0 for v in kb.values()):
        ctx.trivial()
        return
    # the reference
    ineqs = [((f[0], f[1], -kb[k][0]), kb[k][1] - f[2]) for k in keys for f in E[k]] + [((F(0), F(0), F(1)), F(0))]
    eqs = []
    for c in cons:
        v = (F(c[0]), F(c[1]), F(0))
        d = F(c[2])
        if c[3] in ('<=', '<'):
            ineqs.append((tuple(-t for t in v), -d))
        elif c[3] in ('>=', '>'):
            ineqs.append((v, d))
        else:
            eqs.append((v, d))
    best = lp([F(cu), F(cv), F(rcoef)], ineqs, eqs)
    label = '%s %s %s min %s(%s) s.t. %s(%s) eig %s scaling %s solver %s' % (poly, layout, syms, obj, on, cons, cn, eig, scaling, solver)
    before = {k: sp.ImmutableMatrix(m) for k, m in mats.items()}
    prob = SDPProblem.from_matrix(mats)
    res = solve(ctx, prob, solver, objective=objective, constraints=constraints, min_eigen=me, scaling=scaling, allow_numer=3)
    ctx.require(all(sp.ImmutableMatrix(mats[k]) == before[k] for k in before), label + ': the given matrices were changed')
    if best is None:
        ctx.outcome('infeasible')
        if res is True:
            p = prob.as_params()
            u, v = float(p[syms[0]]), float(p[syms[1]])
            bad = max([float(d) - sum(float(t) * w for t, w in zip(c[:2], (u, v))) for c, d in ineqs if c[2] == 0] + [abs(sum(float(t) * w for t, w in zip(c[:2], (u, v))) - float(d)) for c, d in eqs] + [0.0])
            ctx.require(bad <= TOL, lambda: '%s: an infeasible problem was reported solved by %s' % (label, p))
        return
    if not ctx.require(res is True, lambda: '%s: optimum %s but not solved' % (label, best)):
        return
    p = prob.as_params()
    ctx.require(list(p) == order, lambda: '%s: parameters %s' % (label, p))
    u, v = float(p[syms[0]]), float(p[syms[1]])
    ctx.step()
    for k in keys:
        got = np.array(prob.S[k]).astype(float) if prob.S[k].shape[0] else np.zeros((0, 0))
        want = np.array(mats[k].subs({syms[0]: u, syms[1]: v})).astype(float) if mats[k].shape[0] else np.zeros((0, 0))
        ctx.require(got.shape == want.shape and (not got.size or np.abs(got - want).max() < 1e-9), lambda: '%s: block %s is %s at %s' % (label, k, prob.S[k], p))
    # feasibility of the point: the relaxation variable is free, so the best one is min over blocks with k > 0
    if on != 'ext':
        slack = min([sum(float(t) * w for t, w in zip(c[:2], (u, v))) - float(d) for c, d in ineqs[:-0 or None] if c != (0, 0, 1)] + [-abs(sum(float(t) * w for t, w in zip(c[:2], (u, v))) - float(d)) for c, d in eqs])
        ctx.require(slack >= -TOL, lambda: '%s: the reported point %s violates the requirements by %g' % (label, p, -slack))
        val = cu * u + cv * v
        ctx.require(abs(val - float(best)) <= TOL * (1 + abs(float(best))), lambda: '%s: value %g, optimum %g at %s' % (label, val, float(best), p))
    else:
        rs = [(sum(float(t) * w for t, w in zip(c[:2], (u, v))) - float(d)) / float(-c[2]) for c, d in ineqs if c[2] < 0]
        val = cu * u + cv * v - min(rs)
        ctx.require(abs(val - float(best)) <= TOL * (1 + abs(float(best))), lambda: '%s: value %g, optimum %g at %s' % (label, val, float(best), p))
    ctx.outcome('optimal')


def cases_opt(tier):
    q = tier == 'quick'
    out = []
    S = ['cvxopt', 'picos']
    D = (BOX, 'single', 0, OBJS[2], 'expr', CONS[0], 'rel', EIGS[0], 6.0, None)
    axes = [[BOX, TRI], list(LAYOUTS), [0, 1, 2], OBJS, OBJ_N, CONS, CON_N, EIGS, [6.0, 0, 1, 50], [None] + S]
    seen = set()

    def add(c):
        k = repr(c)
        if k not in seen:
            seen.add(k)
            out.append(list(c))
    # every pair (quick) / triple (thorough) of non-default axes, with two further base points
    bases = [D, (TRI, 'rot', 1, OBJS[3], 'array', CONS[2], 'vec', EIGS[1], 1, 'picos'), (BOX, 'pairs', 2, OBJS[4], 'list', CONS[3], 'swap', EIGS[6], 50, 'cvxopt'), (TRI, 'diag', 1, OBJS[1], 'ext', CONS[1], 'call', EIGS[4], 0, 'cvxopt'), (BOX, 'const', 1, OBJS[5], 'const', CONS[5], 'tup', EIGS[3], 6.0, 'picos')]
    for B in bases:
        for r in ((1, 2) if q else (1, 2, 3)):
            for ax in itertools.combinations(range(len(axes)), r):
                for vals in itertools.product(*[axes[i] for i in ax]):
                    c = list(B)
                    for i, v in zip(ax, vals):
                        c[i] = v
                    add(c)
    if q:
        return out
    return out


# ------------------------------------------------------------------ discs and ellipses, closed forms
def run_disc(ctx, case):
    r2, obj, ni, solver, eig, scaling = case
    from triples.sdp import SDPProblem
    syms = NAMES[2][ni]
    u, v = syms
    M = sp.Matrix([[r2 + u, v], [v, r2 - u]])          # eigenvalues r2 +- |(u, v)|
    prob = SDPProblem.from_matrix([M])
    res = solve(ctx, prob, solver, objective=obj[0] * u + obj[1] * v, constraints=[], min_eigen=float(F(eig)), scaling=scaling, allow_numer=3)
    label = 'disc %s' % case
    if not ctx.require(res is True, label + ': not solved'):
        return
    p = prob.as_params()
    rad = r2 - float(F(eig))
    n = (obj[0] ** 2 + obj[1] ** 2) ** .5
    for i, s in enumerate(syms):
        ctx.require(abs(float(p[s]) + rad * obj[i] / n) < 1e-2 * rad, lambda: '%s: %s' % (label, p))
    val = obj[0] * float(p[u]) + obj[1] * float(p[v])
    ctx.require(abs(val + rad * n) < TOL * (1 + rad * n), lambda: '%s: value %g, optimum %g' % (label, val, -rad * n))
    ctx.outcome('optimal')


def cases_disc(tier):
    return [[r, list(o), ni, s, e, sc] for r in (1, 3) for o in itertools.product((-2, -1, 0, 1, 3), repeat=2) if any(o) for ni in range(3) for s in (None, 'cvxopt', 'picos') for e in ('0', '1/2') for sc in (6.0, 0)]


# ------------------------------------------------------------------ primal problems: trace-one matrices and simplices
PC = [[[0, 1], [1, 0]], [[1, 0], [0, 2]], [[2, -1], [-1, 0]], [[1, 1], [1, 1]]]


def run_primal(ctx, case):
    kind, C, c2, eig, notation, cons, scaling = case
    from triples.sdp import SDPPrimal
    k, bb = float(F(eig[0])), float(F(eig[1]))
    kb = (k, bb)
    (p, q_), (_, r) = C
    lam = (p + r) / 2 - (((p - r) / 2) ** 2 + q_ ** 2) ** .5
    label = 'primal %s' % case
    w = 3
    if kind == 'one':                                  # one block of trace 1
        prob = SDPPrimal(sp.Matrix([1]), {'S': sp.Matrix([[1, 0, 0, 1]])})
        obj = [p, q_, q_, r]
        best = lam * (1 - 2 * bb) + bb * (p + r)
        rmax = (1 - 2 * bb) / 2
    else:                                              # a block and a scalar: tr S + 3 t = 2
        sps = {'S': sp.Matrix([[1, 0, 0, 1]]), 'T': sp.Matrix([[w]])}
        obj = [p, q_, q_, r, c2]
        if kind == 'swap':
            sps = {'T': sp.Matrix([[w]]), 'S': sp.Matrix([[1, 0, 0, 1]])}
            obj = [c2, p, q_, q_, r]
        prob = SDPPrimal(sp.Matrix([2]), sps)
        rest = 2 - 2 * bb - w * bb
        best = bb * (p + r + c2) + rest * min(lam, c2 / w)
        rmax = rest / 5
    constraints = []
    n = len(obj)
    if cons:                                            # the trace of S fixed by a constraint (redundant for 'one')
        vec = [1, 0, 0, 1] if kind == 'one' else ([1, 0, 0, 1, 0] if kind == 'two' else [0, 1, 0, 0, 1])
        t = 1 if kind == 'one' else 0.5
        if kind != 'one':
            best = (t - 2 * bb) * lam + bb * (p + r) + (2 - t) / w * c2
            rmax = min((t - 2 * bb) / 2, ((2 - t) / w - bb))
        if cons == 'eq':
            constraints = [(np.array(vec), t, '==')]
        elif cons == 'pair':
            constraints = [(np.array(vec, dtype=float), t, '<='), (np.array(vec, dtype=float), t, '>=')]
        else:
            constraints = [(-np.array(vec, dtype=float), -t, '__ge__'), (np.array(vec), t, '__geq__')]
    if notation == 'relax':
        if k == 0:
            ctx.trivial()
            return
        objective, best = np.array([0] * n + [-1]), -rmax / k
    else:
        objective = np.array(obj, dtype=float)
    me = {'num': bb, 'tuple': kb, 'dict': {key: kb for key in prob.keys()}, 'relax': kb}[notation]
    if notation == 'num' and k != 0:
        ctx.trivial()
        return
    res = solve(ctx, prob, 'picos', objective=objective, constraints=constraints, min_eigen=me, scaling=scaling, allow_numer=3)
    if not ctx.require(res is True, label + ': not solved'):
        return
    S = {key: np.array(m).astype(float) for key, m in prob.S.items()}
    lhs = np.trace(S['S']) + (w * S['T'][0, 0] if 'T' in S else 0)
    ctx.require(abs(lhs - (2 if 'T' in S else 1)) < TOL, lambda: '%s: equation %g' % (label, lhs))
    ctx.require(abs(S['S'][0, 1] - S['S'][1, 0]) < TOL, label + ': asymmetric')
    mine = min(np.linalg.eigvalsh(m).min() for m in S.values())
    ctx.require(mine >= bb - TOL, lambda: '%s: eigenvalue %g' % (label, mine))
    if notation == 'relax':
        ctx.require(abs(-(mine - bb) / k - best) < 2 * TOL, lambda: '%s: relaxation %g, best %g' % (label, (mine - bb) / k, -best))
    else:
        val = sum(np.sum(S['S'] * np.array(C)) if key == 'S' else c2 * S['T'][0, 0] for key in S)
        ctx.require(abs(val - best) < 2 * TOL * (1 + abs(best)), lambda: '%s: value %g, optimum %g' % (label, val, best))
    if cons:
        ctx.require(abs(np.trace(S['S']) - t) < TOL, lambda: '%s: constraint %g' % (label, np.trace(S['S'])))
    ctx.outcome('optimal')


def cases_primal(tier):
    return [[kind, C, c2, eig, n, cons, sc] for kind in ('one', 'two', 'swap') for C in PC for c2 in ((-4, 1, 7) if kind != 'one' else (0,)) for eig in (['0', '0'], ['0', '1/8'], ['1', '0'], ['2', '1/16'])
            for n in ('num', 'tuple', 'dict', 'relax') for cons in ('', 'eq', 'pair', 'neg') for sc in ((6.0, 0) if tier == 'quick' else (6.0, 0, 1, 40))]


# ------------------------------------------------------------------ exact encoding of symbolic matrices and vectors
ENT = [0, 1, x, 2 * (x + 1), x / 3 - y, y + sp.sqrt(2) * (x + 1), (x + y) * 3 - 3 * y, sp.Rational(1, 7), -(y - 2) / 5, x + 2 * (y - x)]


def run_encode(ctx, case):
    codes, how, yv = case
    from triples.sdp import SDPProblem
    mats = []
    for code in codes:
        n = {1: 1, 3: 2, 6: 3}[len(code)]
        it = iter(code)
        M = sp.zeros(n, n)
        for i in range(n):
            for j in range(i, n):
                M[i, j] = M[j, i] = ENT[next(it)]
        mats.append(M)
    label = 'encode %s %s %s' % (mats, how, yv)
    arg = {'list': lambda: [m.copy() for m in mats], 'dict': lambda: {'z%d' % (9 - i): m.copy() for i, m in enumerate(mats)}, 'single': lambda: mats[0].copy()}[how]()
    prob = SDPProblem.from_matrix(arg)
    ctx.step()
    syms = sorted(set().union(*[set(sp.expand(e).free_symbols) for m in mats for e in m]), key=lambda s: s.name)
    free = list(prob.free_symbols)
    ctx.require(set(syms) <= set(free), lambda: '%s: free symbols %s' % (label, free))
    keys = list(arg) if how == 'dict' else list(prob.keys())
    ctx.equal(list(prob.keys()), keys, label + ': keys')
    if how == 'single':
        mats = mats[:1]
    vals = dict(zip((x, y), [sp.Rational(t) for t in yv]))
    vec = [vals[s] for s in free]
    n = len(free)
    ys = {'none': None, 'col': sp.Matrix(n, 1, vec), 'row': sp.Matrix(1, n, vec), 'np': np.array([int(v) for v in vec]) if all(v.is_integer for v in vec) else None, 'np2': np.array([int(v) for v in vec]).reshape(-1, 1) if all(v.is_integer for v in vec) else None,
          'dict': {s: vals[s] for s in free}, 'part': {s: vals[s] for s in free[:1]}}
    for name, yy in ys.items():
        if yy is None and name != 'none':
            continue
        S = prob.S_from_y(yy) if name != 'none' else prob.S_from_y()
        ctx.step()
        ctx.equal(list(S), keys, label + ': blocks of S_from_y')
        sub = {} if name == 'none' else ({free[0]: vals[free[0]]} if name == 'part' and free else ({} if name == 'part' else vals))
        for k, m in zip(keys, mats):
            D = (S[k] - m.subs(sub)).applyfunc(lambda e: sp.simplify(sp.expand(sp.nsimplify(e)) if not e.has(sp.sqrt(2)) else sp.expand(e)))
            ctx.require(all(e == 0 or abs(sp.N(e)) < 1e-9 if not e.free_symbols else False for e in D), lambda: '%s: S_from_y(%s) gives %s' % (label, name, S[k]))
    ctx.outcome('ok')


def cases_encode(tier):
    q = tier == 'quick'
    out = []
    ents = range(len(ENT))
    for c in ents:
        for yv in (['1', '2'], ['1/3', '-5/7']):
            for how in ('list', 'dict', 'single'):
                out.append([[[c]], how, yv])
    for c in itertools.product(ents, repeat=3):
        out.append([[list(c)], 'single', ['3', '-2']])
    for c in itertools.product(ents, ents):
        out.append([[[c[0]], [c[1], 2, 0]], 'dict', ['1/2', '-3']])
        out.append([[[c[0], 1, c[1], 2, 3, 4], [c[1]]], 'list', ['2', '7']])
    return out


# ------------------------------------------------------------------ equations and full spaces
def run_equations(ctx, case):
    sizes, rows, rhs, how = case
    from triples.sdp import SDPProblem, SDPPrimal
    n = sum(m * m for m in sizes)
    A = sp.Matrix(rows)
    bvec = sp.Matrix(rhs)
    splits = {'k%d' % i: m for i, m in enumerate(sizes)} if how == 'dict' else list(sizes)
    label = 'equations %s' % case
    # symmetric solutions, own elimination
    index, cnt = {}, 0
    off = 0
    for m in sizes:
        for i in range(m):
            for j in range(m):
                index[(off, i, j)] = None
        off += m * m
    cols = []
    off = 0
    for m in sizes:
        for i in range(m):
            for j in range(i, m):
                cols.append([off + i * m + j] if i == j else [off + i * m + j, off + j * m + i])
        off += m * m
    Q = [[F(int(sum(A[r, t] for t in cs))) for cs in cols] + [F(int(bvec[r]))] for r in range(A.rows)]
    R, piv = rref(Q)
    feasible = len(cols) not in piv
    dim = len(cols) - len(piv)
    try:
        prob = SDPProblem.from_equations(A, bvec, splits)
    except ValueError:
        ctx.require(not feasible, label + ': refused although the equations have symmetric solutions')
        ctx.outcome('inconsistent')
        return
    if not ctx.require(feasible, label + ': accepted although no symmetric matrices satisfy the equations'):
        return
    S = prob.S_from_y()
    ctx.step()
    ctx.equal([m.shape[0] for m in S.values()], list(sizes), label + ': sizes')
    vec = sp.Matrix([e for m in S.values() for e in m]) if n else sp.zeros(0, 1)
    ctx.require(all(sp.expand(e) == 0 for e in A * vec - bvec), lambda: '%s: matrices %s do not satisfy the equations' % (label, S))
    ctx.require(all(sp.expand(e) == 0 for m in S.values() for e in m - m.T), lambda: '%s: asymmetric %s' % (label, S))
    J = vec.jacobian(prob.free_symbols) if prob.free_symbols else sp.zeros(n, 0)
    ctx.equal(rank([[F(int(e.p), int(e.q)) for e in J.row(i)] for i in range(n)]) if J.cols else 0, dim, label + ': number of free parameters')
    ctx.require(prob.dof == dim, lambda: '%s: dof %s' % (label, prob.dof))
    # the primal form of the same equations
    P = SDPPrimal.from_full_x0_and_space(bvec, A, splits)
    T = P.S_from_y()
    ctx.equal(list(T), list(S), label + ': primal blocks')
    ctx.require(all(T[k].shape == S[k].shape and T[k] == T[k].T and len(T[k].free_symbols) == m * (m + 1) // 2 for (k, m) in zip(T, sizes)), lambda: '%s: symbolic primal matrices %s' % (label, T))
    num = sp.Matrix(range(1, n + 1))
    T = P.S_from_y(num)
    ctx.equal([e for m in T.values() for e in m], list(num), label + ': primal S_from_y')
    ctx.outcome('ok')


def cases_equations(tier):
    q = tier == 'quick'
    out = []
    for sizes in ([1], [2], [1, 1], [1, 2], [2, 1]):
        n = sum(m * m for m in sizes)
        vals = (0, 1) if n > 2 else (-1, 0, 2)
        for r in itertools.product(vals, repeat=n):
            for b0 in (0, 1):
                for how in ('list', 'dict'):
                    out.append([sizes, [list(r)], [b0], how])
        for r in itertools.product((0, 1), repeat=n):
            for s in ([1] * n, list(range(n)), [(-1) ** i for i in range(n)], [0, 1] + [0] * (n - 2), [0, 0, 1] + [0] * (n - 3)):
                if len(s) == n:
                    out.append([sizes, [list(r), s], [1, 2], 'list'])
                    if not q:
                        out.append([sizes, [list(r), s, [1] + [0] * (n - 1)], [1, 2, 3], 'list'])
    return out


# ------------------------------------------------------------------ vector forms of symmetric matrices
def run_vec(ctx, case):
    n, lib, shape = case
    from triples.sdp.utils import Mat2Vec
    vals = list(range(1, n * (n + 1) // 2 + 1))
    M = [[0] * n for _ in range(n)]
    it = iter(vals)
    for i in range(n):
        for j in range(i, n):
            M[i][j] = M[j][i] = next(it)
    S = sp.Matrix(n, n, [e for r in M for e in r]) if lib == 'sympy' else np.array(M, dtype=float).reshape(n, n)
    label = 'vector form %s' % case
    v = Mat2Vec.mat2vec(S)
    ctx.step()
    flat = [e for r in M for e in r]
    ctx.equal([int(e) for e in (v if lib == 'sympy' else v.flatten())], flat, label + ': mat2vec')
    if lib == 'numpy' and shape == 'col':
        v = v.reshape(-1, 1)
    W = Mat2Vec.vec2mat(v)
    ctx.require(tuple(W.shape) == (n, n) and all(int(W[i, j]) == M[i][j] for i in range(n) for j in range(n)), lambda: '%s: %s comes back as %s' % (label, M, W))
    ctx.equal(Mat2Vec.length_of_vec(n), n * n, label)
    ctx.equal(Mat2Vec.length_of_mat(n * n), n, label)
    ctx.equal(Mat2Vec.length_of_mat(n * (n + 1) // 2, mode=Mat2Vec.UPPER), n, label)
    ctx.equal([int(e) for e in Mat2Vec.upper_vec_of_symmetric_matrix(S)], vals, label + ': upper part')
    up = sp.Matrix(vals) if lib == 'sympy' else np.array(vals, dtype=float)
    W = Mat2Vec.symmetric_matrix_from_upper_vec(up)
    ctx.require(tuple(W.shape) == (n, n) and all(int(W[i, j]) == M[i][j] for i in range(n) for j in range(n)), lambda: '%s: upper part comes back as %s' % (label, W))


def cases_vec(tier):
    return [[n, lib, s] for n in range(1, 8 if tier == 'quick' else 30) for lib in ('sympy', 'numpy') for s in ('flat', 'col')]


# ------------------------------------------------------------------ a solve does not influence the next one
HIST = [('plain', {}), ('iter1', {'maxiters': 1}), ('tol', {'abstol': 1e-1, 'reltol': 1e-1, 'feastol': 1e-1}), ('badopt', {'maxiters': 'x'}), ('inf', {}), ('prim', {})]


def one_solve(name, opts, quiet=True):
    from triples.sdp import SDPProblem, SDPPrimal
    if name == 'prim':
        p = SDPPrimal(sp.Matrix([1]), {'S': sp.Matrix([[1, 0, 0, 1]])})
        return p.solve(objective=np.array([0., 1, 1, 0]), constraints=[], min_eigen=0, allow_numer=3), p
    M = [[1 + x, y], [y, 1 - x]] if name != 'inf' else [[-1, x], [x, 1]]
    p = SDPProblem.from_matrix(sp.Matrix(M))
    return p.solve(objective=x + y, constraints=[], min_eigen=0, allow_numer=3, solver='cvxopt', solver_options=opts), p


def run_history(ctx, case):
    import builtins
    from cvxopt import solvers
    saved, pr = dict(solvers.options), builtins.print
    try:
        for i in case:
            name, opts = HIST[i]
            given = dict(opts)
            try:
                one_solve(name, given)
            except Exception:
                ctx.outcome('raised')
            ctx.step()
            ctx.equal(given, opts, 'solver options given by the caller')
        ctx.require(builtins.print is pr, 'print was replaced')
        ok, p = one_solve('plain', {})
        val = float(sum(p.y)) if ok else None
        ctx.require(ok is True and abs(val + 2 ** .5) < 1e-5, lambda: 'after the solves %s: a plain solve gives %s (value %s), expected %s' % ([HIST[i][0] for i in case], ok, val, -2 ** .5))
    finally:
        solvers.options.clear()
        solvers.options.update(saved)


def cases_history(tier):
    r = range(len(HIST))
    return [list(c) for k in (1, 2) for c in itertools.product(r, repeat=k)] + ([list(c) for c in itertools.product(r, repeat=3)] if tier != 'quick' else [])


# ------------------------------------------------------------------ given and default configurations, directly and through derived problems
def run_configs(ctx, case):
    depth, use, given, allow, child = case
    from triples.sdp import SDPProblem
    prob = SDPProblem.from_matrix({'A': sp.Matrix([[1 + x, y], [y, 1 - x]]), 'B': sp.Matrix([[3 + x + y]]), 'Z': sp.Matrix([[0, 0], [0, 2]])})
    leaf = prob
    for _ in range(depth):
        leaf = leaf.constrain_zero_diagonals() if leaf is prob else leaf.constrain_nullspace({k: sp.zeros(m, 0) for k, m in leaf.size.items()})
    kw = {}
    if use is not None:
        kw['use_default_configs'] = use
    good, bad = [(y, [], 0)], [(y, [sp.Ge(0 * x + y, 5)], 0)]
    runs = {'none': [], 'good': good, 'bad': bad, 'badgood': bad + good}[given]
    if runs and depth:                                  # the symbols of derived problems may differ: constraints and objectives by arrays
        n = leaf.dof
        runs = [(np.array([0.] * (n - 1) + [1.]), [] if not c else [(np.array([0.] * (n - 1) + [1.]), 50, '>=')], e) for _, c, e in runs]
    if runs:
        kw.update(objective=[r[0] for r in runs], constraints=[r[1] for r in runs], min_eigen=[r[2] for r in runs])
    ctx.step()
    res = prob.solve(allow_numer=allow, solver='cvxopt', solve_child=child, **kw) if not (not child and depth and runs) else None
    if res is None:
        ctx.trivial()
        return
    default = use == 2 or (use in (None, 1) and not runs)
    want = default or 'good' in given
    ctx.require(res is want, lambda: 'problem with %d derived problems, use_default_configs=%s, configurations %s, solve_child=%s: solve returns %s, expected %s' % (depth, use, given, child, res, want))
    ctx.require((prob.y is not None) == want, 'the solution is recorded exactly when solved: %s' % case)


def cases_configs(tier):
    return [[d, u, g, al, ch] for d in (0, 1, 2) for u in (None, 0, 1, 2) for g in ('none', 'good', 'bad', 'badgood') for al in (0, 3) for ch in (True, False)]


def families(tier):
    return [
        Family('optimum', cases_opt(tier), run_opt, chunk=12, timeout=60, share=6, bound='polytopes x block layouts x objectives/constraints in every notation x eigenvalue bounds x scalings x solvers; all pairs (quick) or triples (thorough) of axes around 5 base points'),
        Family('disc', cases_disc(tier), run_disc, chunk=12, timeout=60, share=1, bound='linear objectives over discs with closed-form optimum'),
        Family('primal', cases_primal(tier), run_primal, chunk=12, timeout=60, share=3, bound='trace problems in primal form with closed-form optimum'),
        Family('encode', cases_encode(tier), run_encode, chunk=12, timeout=60, share=2, bound='all matrices up to size 2 (3) over 10 entries'),
        Family('equations', cases_equations(tier), run_equations, chunk=12, timeout=60, share=2, bound='all 0/1 equations over block structures up to 5 entries'),
        Family('vectors', cases_vec(tier), run_vec, chunk=12, timeout=60, share=1, bound='all sizes up to 7/29'),
        Family('configurations', cases_configs(tier), run_configs, chunk=4, timeout=60, share=1, bound='all combinations of given and default configurations, directly and through up to 2 derived problems'),
        Family('histories', cases_history(tier), run_history, chunk=4, timeout=60, share=1, bound='all sequences of up to 2 (3) earlier solves over 6 kinds'),
    ]
