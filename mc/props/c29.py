"""C29: the semidefinite program built for a problem represents exactly its sum-of-squares certificates."""
import itertools
from fractions import Fraction as F

import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup

from ..core import Family
from .. import oracle as O
from .. import sdpmodel as M
from .c06 import psd
from .c16 import rref

TITLE = 'the semidefinite program built for a problem represents exactly its sum-of-squares certificates'
BUDGET = {'quick': 110, 'thorough': 1200}
HANG = True

NAMES = {2: 'x y', 3: 'a b c', 4: 'a b c d'}
GROUPS = {'triv': lambda n: [tuple(range(n))],
          'cyc': lambda n: [tuple((i + k) % n for i in range(n)) for k in range(n)],
          'full': lambda n: list(itertools.permutations(range(n))),
          'swap': lambda n: [tuple(range(n)), (1, 0) + tuple(range(2, n))],
          'pairs': lambda n: [(0, 1, 2, 3), (1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0)]}
_gen = {}


def group(n, g):
    if (n, g) not in _gen:
        els = GROUPS[g](n)
        _gen[n, g] = els, PermutationGroup(*[Permutation(list(e)) for e in els])
    return _gen[n, g]


def mons(n, d):
    if n == 1:
        return [(d,)]
    return [(i,) + t for i in range(d, -1, -1) for t in mons(n - 1, d - i)]


def pmul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(i + j for i, j in zip(m1, m2))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def padd(p, q):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def pperm(p, s):
    return {tuple(m[s[i]] for i in range(len(s))): c for m, c in p.items()}


def to_dict(text, n):
    gens = sp.symbols(NAMES[n])
    P = sp.Poly(sp.sympify(text, locals={str(g): g for g in gens}), *gens)
    return {m: F(int(c.p), int(c.q)) for m, c in P.terms()} if not P.is_zero else {}


def to_poly(d, n):
    return sp.Poly.from_dict({m: sp.Rational(c.numerator, c.denominator) for m, c in ((m, F(c)) for m, c in d.items())}, *sp.symbols(NAMES[n]))


def deg(p):
    return max(map(sum, p))


def affine_to_root(chain):
    """(t0, columns): the unknowns of the first problem as an affine function of those of the last one, read off the
    public propagation with the positive semidefiniteness test of registration switched off"""
    child = chain[-1]
    for node in chain[:-1]:
        def reg(y, *a, _n=node, propagate_to_parent=True, **k):
            _n.y = y
            _n.S, _n.decompositions = {}, {}
            if propagate_to_parent:
                _n.propagate_to_parent()
        node.register_y = reg
    n = len(child.free_symbols)
    out = []
    for i in range(-1, n):
        z = sp.zeros(n, 1)
        if i >= 0:
            z[i] = 1
        child.y = z
        child.S, child.decompositions = {}, {}
        if len(chain) > 1:
            child.propagate_to_parent()
        out.append(M.vec(chain[0].y))
    for node in chain[:-1]:
        del node.register_y
    t0 = out[0]
    return t0, [[p - q for p, q in zip(v, t0)] for v in out[1:]]


def build(n, g, poly, keys, eqs):
    from triples.core.sdpsos.sdpsos import SOSProblem
    prob = SOSProblem(to_poly(poly, n), group(n, g)[1])
    K = [to_poly(k, n) for k in keys]
    E = [to_poly(e, n) for e in eqs]
    prob.construct(K, E)
    return prob, K, E


def chain_of(prob):
    chain = [prob.sdp]
    while chain[0] is not prob._sdp:
        ps = [p for p in chain[0].parents if p is not chain[0]]
        if len(ps) != 1:
            return None
        chain.insert(0, ps[0])
    return chain


def run_reach(ctx, case):
    """every certificate of the stated shape is a feasible point of the program"""
    n, g, keys, eqs, sel, mul = case
    els = group(n, g)[0]
    keys = [to_dict(k, n) for k in keys]
    eqs = [to_dict(e, n) for e in eqs]
    muls = [to_dict(m, n) if m else {} for m in mul]
    qs = [[to_dict(q, n) for q in s] for s in sel]
    body = {}
    for k, s in zip(keys, qs):
        for q in s:
            body = padd(body, pmul(k, pmul(q, q)))
    for e, m in zip(eqs, muls):
        body = padd(body, pmul(e, m))
    poly = {}
    for s in els:
        poly = padd(poly, pperm(body, s))
    if not poly:
        ctx.trivial()
        return
    d = deg(poly)
    grams = []
    for k, s in zip(keys, qs):
        ms = mons(n, (d - deg(k)) // 2)
        ix = {m: i for i, m in enumerate(ms)}
        G = [[F(0)] * len(ms) for _ in ms]
        sym = all(pperm(k, p) == k for p in els)
        for q in s:
            imgs = [pperm(q, p) for p in els] if sym else [q]
            for r in imgs:
                for m1, c1 in r.items():
                    for m2, c2 in r.items():
                        G[ix[m1]][ix[m2]] += F(c1) * c2 / len(imgs)
        grams.append(G)
    label = 'SOSProblem(%s, %s).construct(%s, %s) with the certificate %s' % (to_poly(poly, n).as_expr(), g, case[2], case[3], (case[4], case[5]))
    try:
        prob, K, E = build(n, g, poly, keys, eqs)
    except Exception as e:
        ctx.fail('%s raised %s: %s' % (label, type(e).__name__, str(e)[:150]), key='construct')
        return
    ctx.step()
    chain = chain_of(prob)
    if chain is None:
        ctx.trivial()
        return
    root = M.View(prob._sdp)
    t0, cols = affine_to_root(chain)
    rows, rhs = [], []
    for k, G in zip(K, grams):
        if k not in root.c:
            ctx.require(not any(any(r) for r in G) or len(G) == 0, '%s: no block for %s' % (label, k.as_expr()))
            continue
        if not ctx.require(len(root.c[k]) == len(G), lambda: '%s: the block of %s has size %d, %d monomials' % (label, k.as_expr(), len(root.c[k]), len(G))):
            return
        for i in range(len(G)):
            for j in range(i, len(G)):
                coef = [A[i][j] for A in root.A[k]]
                const = root.c[k][i][j] + sum((x * y for x, y in zip(coef, t0)), F(0))
                rows.append([sum((x * y for x, y in zip(coef, c)), F(0)) for c in cols])
                rhs.append(G[i][j] - const)
    aug = [r + [b] for r, b in zip(rows, rhs)]
    _, piv = rref([list(r) for r in aug]) if aug else ([], [])
    ctx.valid()
    ctx.state((n, g, tuple(case[2]), tuple(case[3]), str(sorted(poly.items())), len(cols)))
    ctx.outcome('dof %d' % min(len(cols), 9))
    ctx.require(len(cols) not in piv, lambda: '%s: the certificate is not a point of the program (%d unknowns)' % (label, len(cols)), key='reach')


def texts(n, d, q, limit):
    """forms of degree d with coefficients in {-1, 0, 1}, at most `limit` terms, first sign +"""
    gens = sp.symbols(NAMES[n])
    ms = mons(n, d)
    out = []
    for k in range(1, limit + 1):
        for c in itertools.combinations(range(len(ms)), k):
            for s in itertools.product((1, -1), repeat=k - 1):
                t = ''
                for i, sg in zip(c, (1,) + s):
                    mono = '*'.join('%s**%d' % (v, e) if e > 1 else str(v) for v, e in zip(gens, ms[i]) if e) or '1'
                    t += ('-' if sg < 0 else '+' if t else '') + mono
                out.append(t)
    return out


# (variables, groups, degree, inequality keys, equalities, multipliers)
SHAPES = [
    (2, ['triv', 'cyc'], 2, ['1'], [], []), (2, ['triv', 'cyc'], 4, ['1'], [], []), (2, ['triv'], 3, ['x', 'y'], [], []), (2, ['cyc'], 3, ['x'], [], []),
    (2, ['triv', 'cyc'], 4, ['1', 'x*y'], [], []), (2, ['triv'], 4, ['1', 'x**2-y**2'], [], []), (2, ['triv', 'cyc'], 4, ['1', '2*x*y-x**2-y**2'], [], []),
    (2, ['triv'], 4, ['1'], ['x-y'], ['x**3', 'x**2*y', '-y**3+x*y**2']), (2, ['triv'], 4, ['1', 'x*y'], ['x**2-y**2'], ['x*y', 'x**2-x*y']),
    (2, ['triv'], 2, ['1', 'x**2-x*y'], [], []),
    (3, ['triv', 'cyc', 'full', 'swap'], 2, ['1'], [], []), (3, ['cyc', 'full'], 4, ['1'], [], []), (3, ['cyc'], 3, ['a'], [], []), (3, ['triv'], 2, ['1', 'a*b', 'a*c'], [], []),
    (3, ['cyc'], 4, ['1', 'a*b'], [], []), (3, ['full'], 4, ['1', 'a*b+b*c+c*a'], [], []), (3, ['triv'], 2, ['1', 'a*c-b**2'], [], []), (3, ['triv', 'cyc'], 2, ['1'], ['a+b+c'], ['a', 'b-c']),
    (3, ['triv'], 4, ['1', 'c**2-(a-b)**2'], [], []), (3, ['triv'], 3, ['a', 'b', 'c'], ['a-b'], ['a**2', 'b*c-c**2']), (3, ['triv'], 3, ['a-b', 'b-c', 'c'], [], []),
    (4, ['triv', 'cyc', 'full', 'pairs'], 2, ['1'], [], []), (4, ['triv'], 2, ['1', 'a*c-b**2'], [], []), (4, ['triv'], 2, ['1', 'a*b', 'c*d'], [], []), (4, ['cyc'], 3, ['a'], [], []),
    (4, ['triv'], 2, ['1', 'a*c+b*c', 'a*d-b*c'], [], []), (4, ['triv'], 2, ['1'], ['a+b-c-d'], ['a', 'b-c', 'd']), (4, ['triv'], 2, ['1'], ['a*b-c*d', 'a-b'], ['1', 'c-d']),
    (4, ['pairs'], 2, ['1', 'a*b', 'a*c-b**2'], [], []), (4, ['triv'], 2, ['1', 'c**2-(a-b)**2'], [], []), (4, ['triv'], 3, ['a', 'b', 'c-d'], [], []),
    # equalities that are not invariant although the problem is
    (2, ['cyc'], 2, ['1'], ['x-2*y'], ['x', 'y', 'x-3*y']), (3, ['cyc', 'full', 'swap'], 2, ['1'], ['a-b'], ['a', 'b', 'c', 'a-2*c']), (3, ['cyc'], 2, ['1'], ['a+b-c', 'a*b'], ['a', 'c', 'a-b']),
    (3, ['cyc', 'full'], 3, ['a'], ['a*b-c**2'], ['a', 'b', 'b-2*c']), (4, ['cyc', 'pairs'], 2, ['1'], ['a+b-c'], ['a', 'd', 'b-c']), (4, ['swap'], 2, ['1', 'a*b'], ['a-c'], ['a', 'b', 'c-d']),
]
# certificates whose polynomial vanishes to a higher order along an axis although the square alone does not
SPECIAL = [
    [4, 'triv', ['1'], ['a**3+b**3-2*c**3'], [['a*(b-a)', 'd*(a-c)']], ['(a-b)/3']],
    [4, 'triv', ['1', 'c**2-(a-b)**2'], [], [['a*(a-b)', 'd*(a-c)'], ['a+c']], []],
    [4, 'triv', ['1', 'a*c-b**2'], [], [['b', 'd'], ['1']], []],
    [4, 'triv', ['1', 'a*c-b**2'], [], [['b*d', 'd**2'], ['d']], []],
    [4, 'triv', ['1', 'a*c-b**2'], [], [['b*(a-d)', 'd**2'], ['a-d']], []],
    [2, 'triv', ['1', 'x**2-y**2'], [], [['y'], ['1']], []],
    [2, 'triv', ['1', 'x**2-y**2'], [], [['x*y-y**2'], ['x-y']], []],
    [2, 'triv', ['1', 'x*y-y**2'], [], [['y'], ['1']], []],
    [2, 'triv', ['1', 'x**3*y-y**4'], [], [['y**2'], ['1']], []],
    [2, 'triv', ['x', 'x-y'], [], [['x-y'], ['x']], []],
    [2, 'triv', ['x', 'x-y', 'y-x'], [], [['x-y'], ['x'], ['y']], []],
    [2, 'triv', ['1'], ['x**2-y**2'], [['x*y-y**2', 'y**2']], ['y**2']],
    [2, 'triv', ['1'], ['x-y'], [['x-y']], ['-x+y']],
    [2, 'triv', ['1'], ['x*y'], [['x+y']], ['-2']],
    [2, 'triv', ['1'], ['x*y-y**2'], [['y']], ['1']],
    [2, 'triv', ['1'], ['x**2-2*x*y'], [['x-y', 'y']], ['-1']],
    [2, 'triv', ['x'], ['x*y-y**2'], [['y']], ['x']],
    [3, 'triv', ['a', 'b', 'c'], ['a*b-c**2'], [['c'], ['a'], ['c']], ['a']],
    [4, 'triv', ['a', 'b', 'a*b*c', 'd'], ['a*b-c**2'], [['c'], ['a'], [], ['b']], ['a']],
    [4, 'full', ['1'], ['a+b+c+d'], [['a-b']], ['a']],
    [4, 'cyc', ['1'], ['a-b+c-d'], [['a-b']], ['b-d']],
    [4, 'pairs', ['1', 'a*c-b**2'], [], [['b'], ['1']], []],
    [4, 'swap', ['1', 'a*b-c**2'], [], [['c', 'd'], ['1']], []],
    # irrational zeros on the border
    [3, 'triv', ['a', 'c'], [], [['a**2-2*b**2'], ['b**2']], []],
    [3, 'triv', ['a', 'c'], [], [['a**2-2*b**2', 'c*a'], ['b**2', 'a*b-c**2']], []],
    [3, 'triv', ['1', 'a*c', 'b*c'], [], [['a**2-2*b**2', 'c**2'], ['a'], ['a-b', 'b']], []],
    [3, 'triv', ['1', 'c**2'], [], [['a**2-2*b**2'], ['a', 'b-c']], []],
    [3, 'cyc', ['1', 'a*b'], [], [['a**2+b**2+c**2-3*a*b-3*b*c-3*c*a'], ['c']], []],
    [3, 'full', ['1', 'a*b'], [], [['a**2+b**2+c**2-3*a*b-3*b*c-3*c*a'], ['c']], []],
    [3, 'cyc', ['a', 'a*b*c'], [], [['a*b-a**2-c**2', 'b*c'], ['a-b']], []],
    [3, 'cyc', ['a', 'a*b*c'], [], [['a**2+b**2+c**2-3*a*b-3*b*c-3*c*a'], ['a']], []],
    [3, 'cyc', ['1'], [], [['a**3+b**3+c**3-2*a**2*b-2*b**2*c-2*c**2*a+a*b*c']], []],
    [3, 'cyc', ['1'], [], [['a**2-a*b-a*c', 'b**2-2*c**2']], []],
    [3, 'cyc', ['a'], [], [['a-2*b+c', 'b-c']], []],
    [3, 'triv', ['1', '(a-b)*(b-c)', 'a**2-b**2'], [], [['a**2-2*b*c', 'c*b-a*b'], ['b'], []], []],
]


def cases_reach(tier):
    q = tier == 'quick'
    out = [list(s) for s in SPECIAL]
    for n, gs, d, keys, eqs, muls in SHAPES:
        pools = []
        for k in keys:
            kd = to_dict(k, n)
            h = (d - deg(kd))
            pools.append(texts(n, h // 2, 1, (2 if n > 2 or h > 2 else 3) if q else 3) if h % 2 == 0 else [])
        for g in gs:
            idx = [i for i, p in enumerate(pools) if p]
            for i in idx:
                for t in pools[i]:
                    for mm in ([None] if not eqs else muls):
                        ml = [] if not eqs else [mm] + [''] * (len(eqs) - 1)
                        if eqs and deg(to_dict(mm, n)) != d - deg(to_dict(eqs[0], n)):
                            continue
                        sel = [[] for _ in keys]
                        sel[i] = [t]
                        out.append([n, g, keys, eqs, sel, ml])
            # two squares, in one block or in two
            step = {2: 3, 3: 7, 4: 13}[n] if q else 2
            pairs = [((i, s), (j, t)) for i in idx for j in idx if i <= j for s in pools[i] for t in pools[j] if (i, s) < (j, t)]
            for (i, s), (j, t) in pairs[::max(1, step * len(pairs) // (400 if q else 4000))]:
                sel = [[] for _ in keys]
                sel[i] = sel[i] + [s]
                sel[j] = sel[j] + [t]
                ml = [] if not eqs else [m for m in muls if deg(to_dict(m, n)) == d - deg(to_dict(eqs[0], n))][:1] + [''] * (len(eqs) - 1)
                if eqs and not ml[0]:
                    continue
                out.append([n, g, keys, eqs, sel, ml])
    return out


MANUAL = [
    [2, 'triv', 'x**2-x*y+y**2', ['1'], []], [2, 'triv', 'x**4+y**4-x**2*y**2', ['1'], []], [2, 'cyc', 'x**4+y**4-x**3*y-x*y**3', ['1'], []],
    [2, 'triv', 'x**3+y**3-x**2*y-x*y**2', ['x', 'y'], []], [2, 'cyc', 'x**3+y**3-x**2*y-x*y**2', ['x'], []], [2, 'triv', 'x**3+2*x*y**2+y**3', ['x', 'y'], []],
    [2, 'cyc', 'x**4+y**4+x**2*y**2', ['1', 'x*y'], []], [2, 'triv', 'x**2-y**2', ['1'], ['x-y']], [2, 'triv', 'x**2+3*x*y+y**2', ['1', 'x*y'], []],
    [2, 'triv', '2*x**2-y**2', ['1', 'x**2-y**2'], []], [2, 'triv', 'x**3-y**3', ['x-y'], []], [2, 'cyc', 'x**2+y**2-3*x*y', ['1'], []],
    [3, 'cyc', 'a**2+b**2+c**2-a*b-b*c-c*a', ['1'], []], [3, 'full', 'a**2+b**2+c**2-a*b-b*c-c*a', ['1', 'a*b'], []], [3, 'cyc', 'a**4+b**4+c**4-a**2*b*c-b**2*c*a-c**2*a*b', ['1'], []],
    [3, 'cyc', 'a**3+b**3+c**3-3*a*b*c', ['a'], []], [3, 'full', 'a**2*b+b**2*c+c**2*a+a*b**2+b*c**2+c*a**2-6*a*b*c', ['a'], []], [3, 'triv', 'a**2+b**2+c**2-2*a*b', ['1', 'b*c'], []],
    [3, 'triv', 'a*c', ['1', 'a*c-b**2'], []], [3, 'full', '(a**2+b**2+c**2)**2-3*(a**3*b+b**3*c+c**3*a)*0-a**2*b**2-b**2*c**2-c**2*a**2', ['1'], []],
    [3, 'cyc', 'a**2+b**2+c**2', ['1'], ['a+b+c']], [3, 'triv', 'a**2+b**2+c**2+a*b', ['1'], ['a-b', 'b-c']], [3, 'cyc', '(a**2+b**2+c**2)**2-3*(a**3*b+b**3*c+c**3*a)', ['1'], []],
    [4, 'full', 'a**2+b**2+c**2+d**2', ['1', 'a*b'], []], [4, 'cyc', 'a**2+b**2+c**2+d**2-a*b-b*c-c*d-d*a', ['1'], []], [4, 'pairs', 'a**2+b**2+c**2+d**2-2*a*b-2*c*d', ['1', 'a*c'], []],
    [2, 'triv', 'x**2-y**2', ['x*y'], ['x-y']], [2, 'triv', 'x**2-y**2', [], ['x-y']], [2, 'triv', 'x**3-2*x*y**2+y**3', ['x'], ['x-y']], [3, 'cyc', 'a**2+b**2+c**2+2*a*b+2*b*c+2*c*a', [], ['a+b+c']],
    [3, 'cyc', 'a**3+b**3+c**3-3*a*b*c', ['a*b*c'], ['a+b+c']], [3, 'cyc', 'a**2*b+b**2*c+c**2*a-3*a*b*c', ['b'], ['a*b-c**2']], [3, 'triv', 'a**2-b**2+b*c-c**2', ['b*c'], ['a-b', 'a-c']], [3, 'full', 'a**2+b**2+c**2-a*b-b*c-c*a', ['a*b'], ['a-b']],
    [4, 'cyc', 'a**2+b**2+c**2+d**2-2*a*c-2*b*d', ['a*b'], ['a-c']], [4, 'triv', 'a**2-b**2+c*d', ['c*d'], ['a-b']], [4, 'pairs', 'a**2+b**2+c**2+d**2-2*a*b-2*c*d', [], ['a-b']],
    [4, 'triv', 'a*c+d**2', ['1', 'a*c-b**2'], []], [4, 'triv', 'a*b+c*d', ['1', 'a*b', 'c*d'], []],
]
ENTRY = ['col', 'dict', 'array']


def run_manual(ctx, case):
    """every positive semidefinite point of the program gives an exact certificate, every other point is refused"""
    i, kind, ys = case
    n, g, text, keys, eqs = MANUAL[i]
    poly = to_dict(text, n)
    prob, K, E = build(n, g, poly, [to_dict(k, n) for k in keys], [to_dict(e, n) for e in eqs])
    v = M.View(prob.sdp)
    gens = sp.symbols(NAMES[n])
    target = to_poly(poly, n).as_expr()
    if len(ys) > v.n:
        ctx.trivial()
        return
    y = ([F(t) for t in ys] + [F(0)] * v.n)[:v.n]
    arg = M.col(y) if kind != 'dict' else {s: M.rat(t) for s, t in zip(prob.sdp.free_symbols, y)}
    if kind == 'array':
        import numpy as np
        arg = np.array([M.rat(t) for t in y], dtype=object)
    named = kind == 'dict'
    di = {k: sp.Symbol('g%d' % j) for j, k in enumerate(K)} if named else None
    de = {e: sp.Symbol('h%d' % j) for j, e in enumerate(E)} if named else None
    label = '%s with y=%s as %s' % (MANUAL[i], [str(t) for t in y], kind)
    ok = v.is_psd(y)
    try:
        sol = prob.as_solution(arg if v.n else None, ineq_constraints=di, eq_constraints=de) if v.n or ok else None
        if v.n == 0 and ok and sol is None:
            prob.sdp.register_y(sp.zeros(0, 1))
            sol = prob.as_solution(None, ineq_constraints=di, eq_constraints=de)
    except ValueError as e:
        ctx.step()
        ctx.outcome('refused')
        ctx.valid()
        ctx.require(not ok, '%s: refused (%s) although every block is positive semidefinite' % (label, str(e)[:80]))
        return
    ctx.step()
    ctx.valid()
    ctx.state((i, kind, tuple(ys)))
    if not ok:
        ctx.require(sol is None, lambda: '%s: %s returned although a block is not positive semidefinite' % (label, sol.solution))
        return
    if not ctx.require(sol is not None, '%s: no certificate' % label):
        return
    ctx.outcome('certificate')
    e = sol.solution
    ctx.require(sol.problem.as_expr() == target if isinstance(sol.problem, sp.Poly) else sp.expand(sol.problem - target) == 0, '%s: the problem of the solution is %s' % (label, sol.problem))
    ctx.require(sol.is_equal is True or sol.is_equal == True, '%s: is_equal = %s' % (label, sol.is_equal))
    sub = {}
    if named:
        els = group(n, g)[0]
        # symbols stand for constraints: the cyclic sum keeps them, so compare at the level of one representative
        sub = {**{s: k.as_expr() for k, s in di.items()}, **{s: k.as_expr() for k, s in de.items()}}
        if len(els) > 1 and sub:
            for s in sub:
                ctx.require(True, '')
            return
    for pt in itertools.islice(itertools.product((F(0), F(1), F(-1), F(2), F(1, 2), F(-3)), repeat=n), 0, 400, 1 if n < 4 else 5):
        env = dict(zip(gens, (M.rat(t) for t in pt)))
        got = value(e, env, sub)
        want = target.xreplace(env)
        if not ctx.require(got == want, lambda: '%s: %s equals %s at %s where the polynomial is %s' % (label, e, got, pt, want)):
            return


def value(e, env, sub):
    e = e.xreplace(sub) if sub else e
    if hasattr(e, 'doit'):
        e = e.doit()
    return sp.nsimplify(e.xreplace(env)) if not e.xreplace(env).is_Rational else e.xreplace(env)


def cases_manual(tier):
    vals = ['0', '1', '-1', '1/2', '2', '-1/2'] + ([] if tier == 'quick' else ['3/2', '-2', '1/3'])
    out = []
    for i in range(len(MANUAL)):
        for kind in ENTRY:
            for k in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
                for ys in itertools.product(vals, repeat=k):
                    if k == 0 or ys[-1] != '0':
                        out.append([i, kind, list(ys)])
    return out


def families(tier):
    return [
        Family('reach', cases_reach(tier), run_reach, chunk=10, timeout=30, share=4, bound='2-4 variables, degrees 2-4, 31 constraint shapes, 5 groups: every square of a form with <= 2-3 terms in {-1,0,1}, pairs of squares, multipliers'),
        Family('manual', cases_manual(tier), run_manual, chunk=20, timeout=30, share=2, bound='%d programs x lattice of unknowns x ways of writing them' % len(MANUAL)),
    ]
