"""C28: the fast constructions of nonnegative bases match their definitions."""
import itertools
from fractions import Fraction as F

import numpy as np
import sympy as sp

from ..core import Family
from .. import oracle as O
from .c09 import SUB, perm_group

TITLE = 'fast construction of nonnegative bases matches their definitions'
BUDGET = {'quick': 150, 'thorough': 1500}
HANG = True    # cases take a second at most: one that never ends is reported

NAMES = {1: ['a'], 2: ['a', 'b'], 3: ['a', 'b', 'c'], 4: ['a', 'b', 'c', 'd']}
ORDERS = {'id': lambda g: g, 'rev': lambda g: g[::-1], 'rot': lambda g: g[1:] + g[:1]}
GROUPS = dict(SUB)
GROUPS[1] = [[]]

TAN = {
    1: ['1', 'a', 'a**2', '2*a/3'],
    2: ['1', 'a', 'a+b', '(a-2*b)**2', 'a*b', 'a**2/3', '(a-b)**2*a'],
    3: ['1', 'a', 'a+b+c', '(a-b)**2', '(a+b-2*c)**2', 'a*b', 'a*b*c', '(a**2-b*c)**2', 'a-b', 'a**2*b/7-c**3/2', '3', '(a**2-sqrt(2)*b*c)'],
    4: ['1', 'a', '(a-b)**2', 'a*b+c*d', '(a+b-c-d)**2'],
}


def closure(gi, n):
    return O.group_closure(GROUPS[n][gi], n)


def make_group(gi, n):
    from sympy.combinatorics import Permutation, PermutationGroup
    if n == 1:
        return PermutationGroup(Permutation([0]))
    return perm_group(GROUPS[n][gi], n)


def padd(x, y):
    return tuple(i + j for i, j in zip(x, y))


def pmul(p, q):
    out = {}
    for m, c in p.items():
        for k, d in q.items():
            out[padd(m, k)] = out.get(padd(m, k), 0) + c * d
    return {m: c for m, c in out.items() if c != 0}


def num(c):
    return F(int(c.p), int(c.q)) if c.is_Rational else c


def as_dict(e, gens):
    P = sp.Poly(e, *gens, extension=True)
    return {m: num(c) for m, c in P.terms() if c != 0}


def symmetrise(p, els):
    """sum over the group of the polynomial with its variables permuted"""
    out = {}
    for m, c in p.items():
        for g in els:
            k = [0] * len(m)
            for i, x in enumerate(m):
                k[g[i]] += x
            out[tuple(k)] = out.get(tuple(k), 0) + c
    return {m: c for m, c in out.items() if c != 0}


def close(x, y):
    return abs(float(x) - float(y)) <= 1e-9 * max(1, abs(float(y)))


def definition(tan, n, degree, order, step):
    """the family as it is defined: monomial (exponents multiple of step) x squared differences (bounded) x tangent, exactly of the degree"""
    td = max(sum(m) for m in tan)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    diff = {}
    for i, j in pairs:
        e = lambda *ks: tuple(ks.count(x) for x in range(n))
        diff[(i, j)] = {e(i, i): F(1), e(j, j): F(1), e(i, j): F(-2)}
    out = []
    top = max(0, min(order, degree - td))
    for b in itertools.product(range(top // 2 + 1), repeat=len(pairs)):
        if 2 * sum(b) > top:
            continue
        rem = degree - td - 2 * sum(b)
        if rem < 0 or rem % step:
            continue
        q = dict(tan)
        for pr, k in zip(pairs, b):
            for _ in range(k):
                q = pmul(q, diff[pr])
        for e in itertools.product(range(0, rem + 1, step), repeat=n):
            if sum(e) == rem:
                out.append({padd(m, e): c for m, c in q.items()})
    return out


def key(p):
    return tuple(sorted((m, str(sp.nsimplify(c)) if not isinstance(c, F) else str(c)) for m, c in p.items()))


def run_quad(ctx, case, fresh=True):
    from triples.utils.monomials import MonomialManager
    try:
        from triples.core.linsos.basis import LinearBasisTangent, LinearBasisTangentEven
    except ImportError:
        ctx.trivial()
        return
    n, ti, alias, degree, qd, even, gi, order = case
    gens = [sp.Symbol(s) for s in NAMES[n]]
    tan = sp.sympify(TAN[n][ti], locals={s.name: s for s in gens})
    gens = tuple(ORDERS[order](gens))
    F0 = sp.Function('F')(*gens)
    tp = sp.Poly(tan, *gens, extension=True)
    cls = LinearBasisTangentEven if even else LinearBasisTangent
    G = make_group(gi, n)
    els = closure(gi, n)
    label = '%s.generate_quad_diff(%s, %s, %d, group %s, quad_diff_order=%s)' % (cls.__name__, tan, gens, degree, GROUPS[n][gi], qd)
    if degree < tp.total_degree():
        basis, mat = cls.generate_quad_diff(F0 if alias else tan, gens, degree, G, tangent_p=tp if alias else None, quad_diff_order=qd)
        ctx.step()
        ctx.require(len(basis) == 0 and np.asarray(mat).size == 0, '%s: %d terms although the tangent has a larger degree' % (label, len(basis)))
        ctx.trivial()
        return
    basis, mat = cls.generate_quad_diff(F0 if alias else tan, gens, degree, G, tangent_p=tp if alias else None, quad_diff_order=qd)
    ctx.step()
    td = as_dict(tan, gens)
    mat = np.asarray(mat, dtype=float)
    rows = mat.shape[0] if mat.size else 0
    if not ctx.require(len(basis) == rows, '%s: %d terms but %d rows' % (label, len(basis), rows)):
        return
    man = MonomialManager(n, G)
    cols = man.inv_monoms(degree)
    seen = {}
    for i, b in enumerate(basis):
        e = b.as_expr(gens)
        plain = sp.expand(e.xreplace({F0: tan}) if alias else e)
        p = as_dict(plain, gens)
        if i < 40:
            # the polynomial form is the same polynomial
            ctx.require(as_dict(b.as_poly(gens).as_expr(), gens) == p, '%s: term %s is the polynomial %s' % (label, e, b.as_poly(gens)))
        want = symmetrise(p, els)
        for m, v in zip(cols, mat[i]):
            if not close(v, want.get(tuple(m), 0)):
                ctx.fail('%s: row %d of the matrix has %s at %s; the term is %s, whose sum over the group has %s' % (label, i, v, m, e, want.get(tuple(m), 0)))
                return
        reps = set(tuple(m) for m in cols)
        ctx.require(all(any(tuple(rep) in reps for rep in orbit(m, els)) for m in want), '%s: the columns do not cover %s' % (label, e))
        seen[key(p)] = seen.get(key(p), 0) + 1
        if even:
            ctx.require(all(k % 2 == 0 for k in b.powers), '%s: odd powers %s' % (label, b.powers))
    ctx.valid(len(basis))
    bound = qd if not isinstance(qd, bool) else (10 ** 9 if qd else 0)
    if n > 1:
        want = {key(p) for p in definition(td, n, degree, bound, 2 if even else 1)}
        ctx.require(set(seen) <= want, lambda: '%s: contains %s, which is not of the announced form' % (label, sorted(set(seen) - want)[0]))
        ctx.require(want <= set(seen), lambda: '%s: misses %s' % (label, sorted(want - set(seen))[0]))
    ctx.state((n, ti, degree, str(qd), even, gi, order))


def orbit(m, els):
    for g in els:
        k = [0] * len(m)
        for i, x in enumerate(m):
            k[g[i]] += x
        yield tuple(k)


def cases_quad(tier):
    q = tier == 'quick'
    out = []
    for n in (2, 3, 4):
        top = {2: 6, 3: 5, 4: 3}[n] + (0 if q else (3, 2, 1)[n - 2])
        for ti in range(len(TAN[n])):
            for degree in range(top + 1):
                for qd in (0, 2, 3, 4, 8, True, False):
                    if q and qd in (3, False) and degree != 4:
                        continue
                    for even in (0, 1):
                        for gi in range(len(GROUPS[n])):
                            if n == 4 and (gi % 5 if q else gi % 3):
                                continue
                            for order in ORDERS:
                                alias = (ti + degree + gi) % 2
                                if q and order != ('id', 'rev', 'rot')[(ti + gi + degree) % 3]:
                                    continue
                                out.append([n, ti, alias, degree, qd, even, gi, order])
    return out


# ------------------------------------------------------------------ histories: cached results do not leak into each other

HIST = [
    [3, 0, 0, 3, 8, 0, 4, 'id'], [3, 0, 1, 3, 8, 0, 4, 'id'], [3, 0, 0, 3, 8, 1, 4, 'id'], [3, 0, 0, 3, 2, 0, 4, 'id'], [3, 0, 0, 3, 8, 0, 5, 'id'], [3, 0, 0, 3, 8, 0, 0, 'id'], [3, 1, 0, 3, 8, 0, 4, 'id'],
    [3, 1, 0, 3, 8, 0, 4, 'rev'], [3, 10, 0, 3, 8, 0, 4, 'id'], [3, 0, 0, 4, 8, 0, 4, 'id'], [3, 3, 0, 4, True, 0, 1, 'rot'], [2, 0, 0, 3, 8, 0, 1, 'id'], [2, 5, 1, 4, 4, 1, 1, 'id'], [3, 0, 0, 4, 8, 1, 3, 'rot'],
]


def clear():
    import triples.core.linsos.basis as B
    for v in vars(B).values():
        for nm in ('cache_clear', 'clear_cache'):
            f = getattr(v, nm, None)
            if callable(f) and not isinstance(v, type):
                f()
                break


def run_history(ctx, case):
    clear()
    for i in case:
        run_quad(ctx, HIST[i])
    clear()


def cases_history(tier):
    n = len(HIST)
    out = [list(p) for p in itertools.product(range(n), repeat=2)]
    if tier != 'quick':
        out = [list(p) for p in itertools.product(range(n), repeat=3)]
    return out


# ------------------------------------------------------------------ single terms

def run_term(ctx, case):
    from triples.utils.monomials import MonomialManager
    try:
        from triples.core.linsos.basis import LinearBasisTangent, LinearBasisTangentEven, LinearBasisExpr
    except ImportError:
        ctx.trivial()
        return
    n, ti, powers, kind, gi, order = case
    gens = [sp.Symbol(s) for s in NAMES[n]]
    tan = sp.sympify(TAN[n][ti], locals={s.name: s for s in gens})
    gens = tuple(ORDERS[order](gens))
    mon = sp.Mul(*[s**k for s, k in zip(gens, powers)])
    want = sp.expand(mon * tan)
    G = make_group(gi, n)
    els = closure(gi, n)
    b = LinearBasisExpr(mon * tan, gens) if kind == 'expr' else LinearBasisTangent(tuple(powers), tan, gens)
    if kind == 'neg':
        b = -b
        want = sp.expand(-want)
    if kind == 'even':
        b = b.to_even(list(gens))
        ctx.require(all(k % 2 == 0 for k in b.powers), 'to_even: powers %s' % (b.powers,))
    ctx.step()
    label = '%s term %s * %s over %s' % (kind, mon, tan, gens)
    ctx.require(sp.expand(b.as_expr(gens) - want) == 0, '%s: expression %s' % (label, b.as_expr(gens)))
    other = sp.symbols('u v w z')[:n]
    ren = dict(zip(gens, other))
    if kind != 'even':     # the factors to_even() splits off are fixed names of constraints
        ctx.require(sp.expand(b.as_expr(other) - want.xreplace(ren)) == 0, '%s in other symbols: %s' % (label, b.as_expr(other)))
    if kind == 'even':
        return
    p = b.as_poly(gens)
    ctx.require(isinstance(p, sp.Poly) and sp.expand(p.as_expr() - want) == 0, '%s: polynomial %s' % (label, p))
    d = sp.Poly(want, *gens, extension=True).total_degree()
    ctx.require(b.nvars() == n and b.degree() == d, '%s: nvars %s, degree %s' % (label, b.nvars(), b.degree()))
    hom = sp.Poly(want, *gens, extension=True).is_homogeneous
    if hom:
        man = MonomialManager(n, G)
        ref = symmetrise(as_dict(want, gens), els)
        vn = np.asarray(b.as_array_np(expand_cyc=True, symmetry=G)).ravel()
        vs = list(b.as_array_sp(expand_cyc=True, symmetry=G))
        cols = [tuple(m) for m in man.inv_monoms(d)]
        ctx.require(len(vn) == len(cols) == len(vs) and all(close(x, ref.get(m, 0)) for m, x in zip(cols, vn)), '%s: vector %s' % (label, vn))
        ctx.require(all(sp.simplify(x - sp.S(ref.get(m, 0)) if not isinstance(ref.get(m, 0), F) else x - sp.Rational(ref.get(m, 0).numerator, ref.get(m, 0).denominator)) == 0 for m, x in zip(cols, vs)), '%s: exact vector %s' % (label, vs))
        ctx.valid()
    ctx.state(case)


def cases_term(tier):
    out = []
    for n in (1, 2, 3):
        for ti in range(len(TAN[n])):
            for powers in itertools.product(range(3 if n < 3 else 2), repeat=n):
                for kind in ('plain', 'expr', 'neg', 'even'):
                    for gi in range(len(GROUPS[n])):
                        order = ('id', 'rev', 'rot')[(ti + gi + sum(powers)) % 3]
                        if kind == 'even' and gi:
                            continue
                        out.append([n, ti, list(powers), kind, gi, order])
    return out


# ------------------------------------------------------------------ all monomial multiples of one tangent

def run_generate(ctx, case):
    try:
        from triples.core.linsos.basis import LinearBasisTangent, LinearBasisTangentEven
    except ImportError:
        ctx.trivial()
        return
    n, ti, alias, degree, req, even = case
    gens = tuple(sp.Symbol(s) for s in NAMES[n])
    tan = sp.sympify(TAN[n][ti], locals={s.name: s for s in gens})
    F0 = sp.Function('F')(*gens)
    tp = sp.Poly(tan, *gens, extension=True)
    cls = LinearBasisTangentEven if even else LinearBasisTangent
    got = cls.generate(F0 if alias else tan, gens, degree, tangent_p=tp if alias else None, require_equal=req)
    ctx.step()
    rem = degree - tp.total_degree()
    step = 2 if even else 1
    want = set()
    if rem >= 0:
        want = {p for p in itertools.product(range(0, rem + 1, step), repeat=n) if (sum(p) == rem if req else sum(p) <= rem)}
    if even and rem % 2 and not req:
        ctx.trivial()      # what 'degree at most' means for an odd remainder is not stated
        return
    label = '%s.generate(%s, degree=%d, require_equal=%s)' % (cls.__name__, tan, degree, req)
    have = [tuple(b.powers) for b in got]
    ctx.require(set(have) == want and len(have) == len(want), '%s: monomials %s, expected %s' % (label, have, sorted(want)))
    for b in got:
        e = b.as_expr(gens)
        ctx.require(sp.expand((e.xreplace({F0: tan}) if alias else e) - sp.Mul(*[s**k for s, k in zip(gens, b.powers)]) * tan) == 0, '%s: term %s' % (label, e))
    ctx.valid(len(got))
    ctx.state(case)


def cases_generate(tier):
    return [[n, ti, al, d, r, e] for n in (1, 2, 3, 4) for ti in range(len(TAN[n])) for al in (0, 1) for d in range(6 if n < 4 else 4) for r in (True, False) for e in (0, 1)]


# ------------------------------------------------------------------ products of expressions and squared differences

def run_cross(ctx, case):
    try:
        from triples.core.linsos.basis import cross_exprs, quadratic_difference
    except ImportError:
        ctx.trivial()
        return
    texts, degree, order = case
    gens = [sp.Symbol(s) for s in NAMES[3]]
    L = {s.name: s for s in gens}
    gens = tuple(ORDERS[order](gens))
    ex = [sp.sympify(t, locals=L) for t in texts]
    got = cross_exprs(list(ex), gens, degree)
    ctx.step()
    live = [(e, sp.Poly(e, *gens).total_degree()) for e in ex if sp.Poly(e, *gens).total_degree() > 0]
    want = {}
    for p in itertools.product(*[range(degree // d + 1) for e, d in live]) if live else []:
        if sum(k * d for k, (e, d) in zip(p, live)) <= degree:
            t = sp.expand(sp.Mul(*[e**k for k, (e, d) in zip(p, live)]))
            want[t] = want.get(t, 0) + 1
    have = {}
    for e in got:
        have[sp.expand(e)] = have.get(sp.expand(e), 0) + 1
    ctx.require(set(have) == set(want), lambda: 'cross_exprs(%s, degree %d): %s; missing %s, unexpected %s' % (ex, degree, got, list(set(want) - set(have))[:3], list(set(have) - set(want))[:3]))
    qs = quadratic_difference(gens)
    ctx.require({sp.expand(e) for e in qs} == {sp.expand((x - y)**2) for x, y in itertools.combinations(gens, 2)} and len(qs) == 3, 'quadratic_difference(%s) = %s' % (gens, qs))
    ctx.valid(len(got))
    ctx.state(case)


def cases_cross(tier):
    E = ['a', 'a*b', 'a+b-c', '(a-b)**2', '2', 'a**3/2']
    return [[list(t), d, o] for k in (1, 2, 3) for t in itertools.permutations(E, k) for d in range(5) for o in ORDERS if k < 3 or d in (2, 4)]


# ------------------------------------------------------------------ degree multipliers

INEQ = {
    2: [[], ['a', 'b'], ['a'], ['a', 'b', 'a+b'], ['a-b', 'b'], ['a*b'], ['a', 'b', '(a-b)**2+a*b']],
    3: [[], ['a', 'b', 'c'], ['a', 'b'], ['b+c-a', 'c+a-b', 'a+b-c'], ['a', 'b', 'c', 'a+b-c'], ['a*b', 'c'], ['a+b', 'b+c', 'c+a']],
}


def run_lift(ctx, case):
    from triples.utils.monomials import MonomialManager
    try:
        from triples.core.linsos.updegree import lift_degree
    except ImportError:
        ctx.trivial()
        return
    n, ii, gi, limit, dlimit, alias, order = case
    gens = [sp.Symbol(s) for s in NAMES[n]]
    L = {s.name: s for s in gens}
    gens = tuple(ORDERS[order](gens))
    els = closure(gi, n)
    ineq = [sp.sympify(t, locals=L) for t in INEQ[n][ii]]
    polys = [sp.Poly(e, *gens) for e in ineq]
    # the problem and its constraints must be symmetric under the group
    pk = {key(as_dict(e, gens)) for e in ineq}
    for g in els:
        if {key({perm_mon(m, g): c for m, c in as_dict(e, gens).items()}) for e in ineq} != pk:
            ctx.trivial()
            return
    names = {}
    if alias:
        # names that are symmetric as functions of their arguments
        orb = {}
        for e, p in zip(ineq, polys):
            names[p] = sp.Function('G%d' % 0)(*[s for s in gens if s in e.free_symbols])
            orb[names[p]] = e
        if len(orb) < len(ineq):
            ctx.trivial()
            return
    else:
        names = {p: e for e, p in zip(ineq, polys)}
        orb = {}
    poly = sp.Poly(sum(s**2 for s in gens), *gens)
    got = list(lift_degree(poly, dict(names), MonomialManager(n, make_group(gi, n)), degree_limit=dlimit, lift_degree_limit=limit))
    ctx.step()
    label = 'lift_degree(%s, %s, group %s, degree_limit=%d, lift_degree_limit=%d)' % (poly.as_expr(), ineq, GROUPS[n][gi], dlimit, limit)
    prev = -1
    for item in got:
        k = item['add_degree']
        ctx.require(k > prev and k <= limit and poly.total_degree() + k <= dlimit and item['degree'] == poly.total_degree() + k, '%s: step %s' % (label, {x: y for x, y in item.items() if x != 'basis'}))
        prev = k
        for b in item['basis']:
            m = b.multiplier
            plain = sp.expand(m.xreplace(orb))
            P = sp.Poly(plain, *gens)
            ctx.require(plain != 0 and P.total_degree() == k and P.is_homogeneous, '%s: the multiplier %s at added degree %d' % (label, m, k))
            # listed as something nonnegative on the feasible set
            for pt in itertools.product([F(0), F(1), F(-1), F(2), F(-1, 2)], repeat=n):
                env = dict(zip(gens, pt))
                if all(O.ev(e, env) >= 0 for e in ineq) and O.ev(plain, env) < 0:
                    ctx.fail('%s: the multiplier %s is negative at the feasible point %s' % (label, m, env))
                    return
            bp = b.as_poly(gens)
            ctx.require(sp.expand(bp.as_expr() + poly.as_expr() * plain) == 0, '%s: the multiplier %s contributes %s' % (label, m, bp))
            ctx.valid()
        ctx.state((case[:3], k))


def perm_mon(m, g):
    k = [0] * len(m)
    for i, x in enumerate(m):
        k[g[i]] += x
    return tuple(k)


def cases_lift(tier):
    return [[n, ii, gi, lim, dl, al, o] for n in (2, 3) for ii in range(len(INEQ[n])) for gi in range(len(GROUPS[n])) for lim, dl in ((0, 1000), (2, 1000), (4, 1000), (4, 5), (3, 3))
            for al in (0, 1) for o in ORDERS]


def families(tier):
    return [
        Family('squared-differences', cases_quad(tier), run_quad, timeout=60, chunk=16, share=5, bound='tangents x degrees x difference orders x parity x groups x generator orders, 2-4 variables'),
        Family('histories', cases_history(tier), run_history, timeout=60, chunk=8, share=2, bound='every ordered %s of 14 constructions sharing cache keys' % ('pair' if tier == 'quick' else 'triple')),
        Family('terms', cases_term(tier), run_term, timeout=60, chunk=20, share=2, bound='tangents x powers x groups x generator orders, 1-3 variables'),
        Family('multiples', cases_generate(tier), run_generate, timeout=60, chunk=20, share=1, bound='tangents x degrees x exact/bounded degree x parity, 1-4 variables'),
        Family('products', cases_cross(tier), run_cross, timeout=60, chunk=20, share=1, bound='all selections of up to 3 of 6 expressions x degree bounds'),
        Family('multipliers', cases_lift(tier), run_lift, timeout=60, chunk=10, share=2, bound='constraint sets x groups x limits x names x generator orders'),
    ]
