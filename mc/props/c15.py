"""C15: reported symmetries are real, and form predicates agree with their definitions."""
import itertools

import sympy as sp

from .. import oracle as O
from ..core import Family
from .c09 import SUB, perm_group

TITLE = 'reported symmetries are real'
BUDGET = {'quick': 120, 'thorough': 1200}
HANG = True    # cases take a second at most: one that never ends is reported
S = sp.symbols('a b c d e f')


def act(terms, g):
    """image of a coefficient dict when variable i is replaced by variable g[i]"""
    out = {}
    n = len(g)
    for m, c in terms.items():
        k = [0] * n
        for i in range(n):
            k[g[i]] += m[i]
        out[tuple(k)] = c
    return out


def terms_of(p):
    return {m: c for m, c in p.terms() if c != 0}


def arr(perm, n):
    a = list(perm.array_form)
    return tuple(a + list(range(len(a), n)))


def invariant(terms, els):
    return all(act(terms, g) == terms for g in els)


def cycl(n):
    return O.group_closure([tuple(range(1, n)) + (0,)], n)


def symg(n):
    return list(itertools.permutations(range(n)))


def monos(n, d, hom):
    return sorted([m for m in itertools.product(range(d + 1), repeat=n) if (sum(m) == d if hom else sum(m) <= d)], reverse=True)


def mods():
    import triples.utils.polytools as pt
    import triples.utils.expression.coeff as co
    import triples.core.shared as sh
    return pt, co, sh


def run_poly(ctx, case):
    n, d, hom, vec = case
    pt, co, sh = mods()
    ms = monos(n, d, hom)
    terms = {m: sp.sympify(c) for m, c in zip(ms, vec) if c != 0}
    gens = S[:n]
    p = sp.Poly(terms, *gens) if terms else sp.Poly(0, *gens)
    ishom = len({sum(m) for m in terms}) <= 1
    cyc, sym = invariant(terms, cycl(n)), invariant(terms, symg(n))
    c = co.Coeff(p)
    ctx.step(6)
    if terms:
        ctx.equal(bool(c.is_homogeneous()), ishom, 'Coeff(%s).is_homogeneous' % p.as_expr())
        ctx.equal(bool(c.is_cyclic()), cyc, 'Coeff(%s).is_cyclic' % p.as_expr())
        ctx.equal(bool(c.is_symmetric()), sym, 'Coeff(%s).is_symmetric' % p.as_expr())
        ctx.equal(int(c.total_degree()), max(map(sum, terms)), 'Coeff(%s).total_degree' % p.as_expr())
        for gens_ in SUB.get(n, [])[:12] if n > 1 else []:
            want = invariant(terms, O.group_closure(gens_, n))
            ctx.step()
            ctx.equal(bool(c.is_symmetric(perm_group(gens_, n))), want, 'Coeff(%s).is_symmetric(%s)' % (p.as_expr(), gens_))
            ctx.equal(bool(c.is_cyclic(perm_group(gens_, n).generators)), want, 'Coeff(%s).is_cyclic(list %s)' % (p.as_expr(), gens_))
    if n == 3:
        for fast in (True, False):
            if not fast and not terms:
                continue
            h, k = pt.verify_hom_cyclic(p, fast=fast)
            ctx.step()
            ctx.equal(bool(h), ishom, 'verify_hom_cyclic(%s, fast=%s)[0]' % (p.as_expr(), fast))
            ctx.equal(bool(k), ishom and cyc, 'verify_hom_cyclic(%s, fast=%s)[1]' % (p.as_expr(), fast))
        if cyc:
            ctx.equal(bool(pt.verify_is_symmetric(p)), sym, 'verify_is_symmetric(%s)' % p.as_expr())
    for hz in (None, gens[-1]):
        G = co.identify_symmetry(p, hz)
        ctx.step()
        check_group(ctx, G, n, [[terms]], 'identify_symmetry(%s, %s)' % (p.as_expr(), hz))
        if sym and n > 1:
            ctx.require(G.order() == len(symg(n)), 'identify_symmetry(%s) misses the full symmetry: %s' % (p.as_expr(), G))
        elif cyc and n > 1:
            els = {arr(x, n) for x in G.elements}
            ctx.require(set(cycl(n)) <= els, 'identify_symmetry(%s) misses the cyclic symmetry: %s' % (p.as_expr(), G))
    if terms:
        # other views of the same coefficients
        r = c.as_poly(*gens)
        ctx.require(terms_of(sp.Poly(r, *gens)) == terms, 'Coeff(%s).as_poly = %s' % (p.as_expr(), r))
        for m in ms:
            ctx.equal(sp.sympify(c(m)), terms.get(m, 0), 'Coeff(%s)(%s)' % (p.as_expr(), m))
            ctx.equal(sp.sympify(c(*m)), terms.get(m, 0), 'Coeff(%s)(*%s)' % (p.as_expr(), m))
        ctx.equal(sp.sympify(c.poly111()), sum(terms.values()), 'Coeff(%s).poly111' % p.as_expr())
        if n == 3:
            ctx.equal({m: v for m, v in c.reflect().coeffs.items() if v != 0}, act(terms, (1, 0, 2)), 'Coeff(%s).reflect' % p.as_expr())
        if ishom:
            m0, c2 = c.cancel_abc()
            want = tuple(min(m[i] for m in terms) for i in range(n))
            ctx.equal(tuple(m0), want, 'Coeff(%s).cancel_abc monomial' % p.as_expr())
            ctx.equal({tuple(x + y for x, y in zip(m, m0)): v for m, v in c2.coeffs.items() if v != 0}, terms, 'Coeff(%s).cancel_abc rest' % p.as_expr())
            k, c3 = c.cancel_k()
            import math
            g = 0
            for m in terms:
                for x in m:
                    g = math.gcd(g, x)
            ctx.equal(int(k), g, 'Coeff(%s).cancel_k' % p.as_expr())
            if g:
                ctx.equal({tuple(x * g for x in m): v for m, v in c3.coeffs.items() if v != 0}, terms, 'Coeff(%s).cancel_k rest' % p.as_expr())
    ctx.outcome('sym' if sym else 'cyc' if cyc else 'none')
    ctx.state(tuple(sorted((m, str(v)) for m, v in terms.items())))


def check_group(ctx, G, n, lists, what):
    ctx.require(G.degree == n, '%s: group %s of degree %s for %d variables' % (what, G, G.degree, n))
    if G.degree != n:
        return
    gens = [arr(g, n) for g in G.generators]
    els = O.group_closure(gens, n)
    for lst in lists:
        keyed = {tuple(sorted(t.items(), key=lambda kv: kv[0])) for t in lst}
        for g in els:
            img = {tuple(sorted(act(t, g).items(), key=lambda kv: kv[0])) for t in lst}
            ctx.valid()
            if img != keyed:
                ctx.fail('%s reports %s, but the permutation %s maps %s to %s' % (what, G, g, sorted(keyed), sorted(img)))
                return


POOL = {
    2: ['a+b', 'a-b', 'a', 'b', 'a*b', 'a**2+b', 'b**2+a', '2*a+b', 'a+2*b', '(a-b)**2', 'a+b-2'],
    3: ['a+b+c', 'a', 'b', 'c', 'a-b', 'b-c', 'c-a', '2*a+b', '2*b+c', '2*c+a', 'a+b', 'a*b*c', 'a**2*b+b**2*c+c**2*a', 'a*b+c**2',
        'a**2+b**2+c**2-a*b-b*c-c*a', 'a+b-c', 'b+c-a', 'c+a-b', 'a*b+b*c+c*a-3', 'a-1', 'b-1', 'c-1'],
    4: ['a+b+c+d', 'a', 'b', 'c', 'd', 'a*b+c*d', 'a*b+b*c+c*d+d*a', 'a-b', 'c-d', 'a+b', 'c+d', 'a**2*b+b**2*c+c**2*d+d**2*a', 'a+b+c', 'a*b*c+d**3', 'a*c+b*d',
        'a*b+b*c+c*a+d**2', 'a**2*b+b**2*c+c**2*a+d**3', '(a-b)*(b-c)*(c-d)*(d-a)', '(a-b)*(b-c)*(c-a)*(d-a)*(d-b)*(d-c)'],
    5: ['a+b+c+d+e', 'a', 'b', 'c', 'd', 'e', 'a*b+c*d+e**2', 'a*b+b*c+c*d+d*e+e*a', 'a*b+b*c+c*d+d*a+e**2', 'a+b+c+d-4*e', 'a-b', 'c-d',
        'a**2*b+b**2*c+c**2*d+d**2*a', 'a+b', 'c+d', 'a**2*b+b**2*a+c**2*d+d**2*c'],
    1: ['a', 'a**2-1', '1-a'],
}


def subsets(k, m):
    return [c for r in range(0, m + 1) for c in itertools.combinations(range(k), r)]


def polyof(text, n):
    return sp.Poly(sp.sympify(text, locals=dict(zip('abcdef', S))), *S[:n])


def run_lists(ctx, case):
    n, p, ineq, eq, hz = case
    _, _, sh = mods()
    lists = [[POOL[n][p]], [POOL[n][i] for i in ineq], [POOL[n][i] for i in eq]]
    polys = [[polyof(t, n) for t in l] for l in lists]
    G = sh.identify_symmetry_from_lists([list(l) for l in polys], has_homogenized=hz)
    ctx.step()
    check_group(ctx, G, n, [[terms_of(q) for q in l] for l in polys], 'identify_symmetry_from_lists(%s, has_homogenized=%s)' % (lists, hz))
    full = all(all({tuple(sorted(act(terms_of(q), g).items())) for q in l} == {tuple(sorted(terms_of(q).items())) for q in l} for g in symg(n)) for l in polys)
    if full and n > 1:
        ctx.require(G.order() == len(symg(n)), 'fully symmetric lists %s get the group %s' % (lists, G))
    ctx.outcome('order-%d' % G.order())
    ctx.state((n, tuple(map(tuple, lists)), str(G)))


def list_cases(tier):
    out = []
    for n in (1, 2, 3, 4, 5):
        k = len(POOL[n])
        m = {1: 2, 2: 3, 3: 3, 4: 2, 5: 2}[n] + (0 if tier == 'quick' else 1)
        subs = subsets(k, m)
        # sets that can be invariant: also the complete orbits
        orbit_sets = {3: [(1, 2, 3), (4, 5, 6), (7, 8, 9), (15, 16, 17), (19, 20, 21), (1, 2, 3, 4, 5, 6)],
                      4: [(1, 2, 3, 4), (7, 8), (9, 10), (1, 2, 3), (1, 2)], 5: [(1, 2, 3, 4, 5), (1, 2, 3, 4), (10, 11), (1, 2), (13, 14)]}.get(n, [])
        for p in range(k):
            for s in subs + [o for o in orbit_sets if o not in subs]:
                if tier == 'quick' and n >= 3 and len(s) == m and (p + sum(s)) % (5 if n == 3 else 3):
                    continue
                for hz in ((False, True) if n > 1 else (False,)):
                    out.append((n, p, s, (), hz))
            for s in orbit_sets + [(i,) for i in range(k)]:
                for t in orbit_sets + [(i,) for i in range(0, k, 2)]:
                    if tier == 'quick' and n >= 4 and (p + sum(s) + sum(t)) % 2:
                        continue
                    out.append((n, p, s, t, False))
                    out.append((n, p, s, t, True))
    return out


def poly_cases(tier):
    out = []
    grids = [(1, 3, False, (0, 1, -2)), (2, 2, True, (0, 1, -2)), (2, 3, True, (0, 1, 3)), (2, 2, False, (0, 1)), (2, 2, False, (0, 1, -1)),
             (3, 1, False, (0, 1, 2)), (3, 2, True, (0, 1, -2)), (3, 3, True, (0, 1)), (3, 2, False, (0, 1)), (4, 1, False, (0, 1)), (4, 2, True, (0, 1))]
    if tier == 'thorough':
        grids += [(3, 3, True, (0, 1, 2)), (4, 1, False, (0, 1, 2)), (5, 1, False, (0, 1))]
    for n, d, hom, vals in grids:
        k = len(monos(n, d, hom))
        vecs = itertools.product(vals, repeat=k)
        for v in vecs:
            if tier == 'quick' and len(vals) ** k > 3000 and h(v) % (len(vals) ** k // 3000):
                continue
            out.append((n, d, hom, v))
    # every union of cyclic orbits of degree 4..6 with orbit-dependent coefficients, perturbed by one monomial
    for d in (4, 5, 6):
        from .c25 import orbits
        orb = orbits(3, d, True)
        ms = monos(3, d, True)
        for mask in range(1 << len(orb)):
            if tier == 'quick' and d == 6 and mask % 4:
                continue
            coef = {}
            for i, o in enumerate(orb):
                if mask >> i & 1:
                    for m in o:
                        coef[m] = 1 + i % 3
            for kick in [None] + ([mask % len(ms)] if coef else []):
                c2 = dict(coef)
                if kick is not None:
                    c2[ms[kick]] = c2.get(ms[kick], 0) + 1
                out.append((3, d, True, tuple(c2.get(m, 0) for m in ms)))
    return out


def h(v):
    x = 7
    for i in v:
        x = (x * 31 + i + 5) & 0xffffff
    return x


def run_clear(ctx, case):
    """duplicates removed by symmetry: exactly one member of each orbit stays"""
    n, gi, sel = case
    _, _, sh = mods()
    from triples.utils.monomials import MonomialManager
    gens = SUB[n][gi]
    els = O.group_closure(gens, n)
    texts = [POOL_HOM[n][i] for i in sel]
    mm = MonomialManager(n, perm_group(gens, n))
    items = [sp.sympify(t, locals=dict(zip('abcdef', S))) for t in texts]
    for wrap in (False, True):
        given = [(x, 'tag%d' % i) for i, x in enumerate(items)] if wrap else list(items)
        got = sh.clear_polys_by_symmetry(list(given), S[:n], mm)
        ctx.step()
        ctx.require(all(x in given for x in got), 'clear_polys_by_symmetry invents members: %s from %s' % (got, given))
        key = lambda x: min(tuple(sorted(act(terms_of(sp.Poly(x[0] if wrap else x, *S[:n])), g).items(), key=str)) for g in els) if True else None
        want = {key(x) for x in given}
        have = [key(x) for x in got]
        if len(els) == 1:
            ctx.require(set(have) == want, 'clear_polys_by_symmetry(%s) under the trivial group = %s' % (given, got))
        else:
            ctx.require(sorted(have, key=str) == sorted(want, key=str), 'clear_polys_by_symmetry(%s) under %s = %s' % (given, gens, got))
    ctx.state((n, gi, sel))


POOL_HOM = {2: ['a', 'b', 'a+b', 'a-b', 'b-a', 'a*b', 'a**2', 'b**2', 'a**2+2*b**2', '2*a**2+b**2'],
            3: ['a', 'b', 'c', 'a-b', 'b-c', 'b-a', 'a*b', 'b*c', '2*a+b', '2*b+a', '2*b+c', 'a*b*c', 'a**2*b', 'b**2*c', 'a*b**2', 'a+b-c'],
            4: ['a', 'd', 'a-b', 'c-d', 'a*b', 'c*d', 'a*c', 'b*d', 'a+b-c-d', 'a*b*c', 'a*b**2']}


def clear_cases(tier):
    out = []
    for n in (2, 3, 4):
        k = len(POOL_HOM[n])
        for sel in subsets(k, {2: 4, 3: 3, 4: 2}[n] if tier == 'quick' else 4):
            if not sel:
                continue
            for gi in range(len(SUB[n])):
                if tier == 'quick' and n == 4 and gi % 3:
                    continue
                out.append((n, gi, sel))
    return out


def families(tier):
    return [
        Family('polynomials', poly_cases, run_poly, timeout=60, chunk=64, share=3,
               bound='all coefficient vectors over the listed alphabets per (variables, degree); unions of cyclic orbits of degree 4-6 with and without one perturbation'),
        Family('lists', list_cases, run_lists, timeout=60, chunk=64, share=3, bound='all problems (polynomial, constraint subsets up to size 3) over a fixed pool per 1-5 variables'),
        Family('orbit-representatives', clear_cases, run_clear, timeout=60, chunk=64, share=2, bound='all subsets up to size 3 x all subgroups'),
    ]
