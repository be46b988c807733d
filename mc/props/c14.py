"""C14: monomial vectorisation is an exact, history-independent isomorphism for every group and degree."""
import itertools
from fractions import Fraction as F

import sympy as sp

from .. import oracle as O
from ..core import Family
from .c09 import SUB, G5, G6, perm_group

TITLE = 'monomial vectorisation is exact'
BUDGET = {'quick': 90, 'thorough': 900}
HANG = True    # cases take a second at most: one that never ends is reported
S = sp.symbols('a b c d e f')


def monoms(n, d, hom):
    """own enumeration of exponent vectors"""
    if n == 0:
        return [()] if (d == 0 or not hom) else []
    out = []
    for e in itertools.product(range(d + 1), repeat=n):
        if (sum(e) == d) if hom else (sum(e) <= d):
            out.append(e)
    return out


class Ref:
    """reference: orbits of exponent vectors under our own closure of the generators"""

    def __init__(self, n, gens, d, hom):
        self.els = O.group_closure(gens, n)
        self.all = monoms(n, d, hom)
        self.orbit = {}
        self.reps = []
        for m in self.all:
            orb = {tuple(m[g[i]] for i in range(n)) for g in self.els}
            self.orbit[m] = orb
        self.rep = {m: max(self.orbit[m]) for m in self.all}
        self.reps = sorted(set(self.rep.values()), reverse=True)

    def stab(self, m):
        return len(self.els) // len(self.orbit[m])


def mons():
    from triples.utils import monomials
    return monomials


def opts(n, gens, hom, how):
    """several ways to say the same symmetry"""
    g = perm_group(gens, n)
    if how == 'group':
        return dict(hom=hom, symmetry=g)
    if how == 'manager':
        return dict(symmetry=mons().MonomialManager(n, g, is_homogeneous=hom))
    if how == 'none':
        return dict(hom=hom)
    if how == 'cyc':
        return dict(hom=hom, cyc=True)
    if how == 'sym':
        return dict(hom=hom, sym=True)


def ways(n, gens):
    size = len(O.group_closure(gens, n))
    w = ['group', 'manager']
    if size == 1:
        w.append('none')
    if sorted(O.group_closure(gens, n)) == sorted(O.group_closure([tuple(range(1, n)) + (0,)], n)):
        w.append('cyc')
    import math
    if size == math.factorial(n):
        w.append('sym')
    return w


COEFFS = {
    'int': [1, -2, 3, 0, 5, -7],
    'rat': [sp.Rational(1, 2), sp.Rational(-3, 7), 0, 4],
    'big': [2**70, -3**50, sp.Rational(1, 10**30)],
    'ratio': [sp.Rational(10**420 + 1, 3 * 10**419), sp.Rational(-7**600, 7**598 * 2 + 1), 2],
    'sqrt': [sp.sqrt(2), 1 - sp.sqrt(2), 3],
    'param': [sp.Symbol('x'), sp.Symbol('x')**2 - sp.Symbol('y'), 2],
}


def orb_poly(ref, weights, n):
    d = {}
    for m in ref.all:
        w = weights[ref.rep[m]]
        if w != 0:
            d[m] = w
    return d


def mkpoly(d, n):
    return sp.Poly(d, *S[:n]) if d else sp.Poly(0, *S[:n])


def same(x, y):
    return sp.expand(sp.sympify(x) - sp.sympify(y)) == 0


def run(ctx, case):
    n, gi, d, hom, how = case
    gens = groups(n)[gi]
    M = mons()
    ref = Ref(n, gens, d, hom)
    o = opts(n, gens, hom, how)
    dic, inv = M.generate_monoms(n, d, **opts(n, gens, hom, how))
    ctx.step()
    inv = [tuple(m) for m in inv]
    ctx.require(len(inv) == len(set(inv)), 'generate_monoms lists an orbit twice: %s' % inv)
    ctx.require(sorted(inv, reverse=True) == ref.reps, 'generate_monoms(%s, %s) lists %s, the orbit representatives are %s' % (n, d, inv, ref.reps))
    ctx.require(dict(dic) == {m: i for i, m in enumerate(inv)}, 'index dictionary %s does not index the list %s' % (dict(dic), inv))
    if sorted(inv, reverse=True) != ref.reps:
        return
    mm = o['symmetry'] if how == 'manager' else M.MonomialManager(n, perm_group(gens, n), is_homogeneous=hom)
    ctx.require(mm.length(d) == len(ref.reps), 'length(%s)=%s' % (d, mm.length(d)))
    ctx.require(mm.order() == len(ref.els), 'order()=%s' % mm.order())
    for m in ref.all:
        ctx.step(3)
        ctx.equal(tuple(mm.standard_monom(m)), ref.rep[m], 'standard_monom(%s)' % (m,))
        ctx.equal(bool(mm.is_standard_monom(m)), ref.rep[m] == m, 'is_standard_monom(%s)' % (m,))
        if sum(m) == d:
            ctx.equal(mm.index(m), inv.index(ref.rep[m]), 'index(%s)' % (m,))
            ctx.equal(m in mm, ref.rep[m] == m, '%s in manager' % (m,))
        pm = sorted(tuple(x) for x in mm.permute(m))
        ctx.equal(pm, sorted(tuple(m[g[i]] for i in range(n)) for g in ref.els), 'permute(%s)' % (m,))
    # vectors -> polynomial -> vectors
    gs = S[:n]
    k = len(inv)
    for kind, pool in COEFFS.items():
        if (kind in ('sqrt', 'param', 'big', 'ratio')) and how != 'group':
            continue
        w = {m: sp.sympify(pool[i % len(pool)]) for i, m in enumerate(inv)}
        vec = [w[m] for m in inv]
        for container in (list, sp.Matrix):
            p = M.invarraylize(container(vec), list(gs), d, **opts(n, gens, hom, how))
            ctx.step()
            want = mkpoly(orb_poly(ref, w, n), n)
            ok = isinstance(p, sp.Poly) and p.gens == tuple(gs) and same(p.as_expr(), want.as_expr())
            ctx.require(ok, 'invarraylize(%s) = %s, expected %s' % (vec, p, want.as_expr()))
        if want.is_zero or want.total_degree() != d:
            continue
        v = M.arraylize_sp(want, **opts(n, gens, hom, how))
        ctx.step()
        ctx.require(v.shape == (k, 1) and all(same(x, y) for x, y in zip(v, vec)),
                    'arraylize_sp(%s) = %s, expected %s' % (want.as_expr(), list(v), vec))
        if kind != 'param':
            vn = M.arraylize_np(want, **opts(n, gens, hom, how))
            ctx.step()
            ctx.require(len(vn) == k and all(abs(float(x) - float(y)) <= 1e-12 * (1 + abs(float(y))) for x, y in zip(vn, vec)),
                        'arraylize_np(%s) = %s, expected %s' % (want.as_expr(), list(vn), vec))
            rt = M.invarraylize(v, list(gs), d, **opts(n, gens, hom, how))
            ctx.require(same(rt.as_expr(), want.as_expr()), 'round trip of %s gives %s' % (want.as_expr(), rt))
    # symmetrisation: expand_cyc is the vector of the sum over the group
    for j, m in enumerate(ref.all):
        if sum(m) != d:
            continue
        for extra in ([], [ref.all[(j + 1) % len(ref.all)]] if len(ref.all) > 1 else []):
            pd = {m: sp.Integer(2)}
            for x in extra:
                if x != m:
                    pd[x] = pd.get(x, 0) + sp.Rational(-1, 3)
            p = mkpoly(pd, n)
            if p.total_degree() != d:
                continue
            want = [0] * k
            for x, c in pd.items():
                if x in ref.rep:
                    want[inv.index(ref.rep[x])] += c * ref.stab(x)
            v = M.arraylize_sp(p, expand_cyc=True, **opts(n, gens, hom, how))
            ctx.step()
            ctx.require([sp.sympify(x) for x in v] == [sp.sympify(x) for x in want],
                        'arraylize_sp(%s, expand_cyc) = %s, the sum over the group has %s' % (p.as_expr(), list(v), want))
            vn = M.arraylize_np(p, expand_cyc=True, **opts(n, gens, hom, how))
            ctx.require(all(abs(float(x) - float(y)) < 1e-12 for x, y in zip(vn, want)) and len(vn) == k,
                        'arraylize_np(%s, expand_cyc) = %s, expected %s' % (p.as_expr(), list(vn), want))
            cs = mm.cyclic_sum(p.as_expr(), gs)
            env = dict(zip(gs, O.GENERIC[:n]))
            tot = sum(c * sum(sp.Mul(*[sp.Rational(*_pq(env[gs[i]])) ** x[g[i]] for i in range(n)]) for g in ref.els) for x, c in pd.items())
            ctx.require(O.close(O.ev(sp.sympify(cs), env), F(int(tot.p), int(tot.q))), 'cyclic_sum(%s) = %s' % (p.as_expr(), cs))
    # permutations of vectors over the ungrouped basis
    if hom and how == 'manager' and len(ref.els) <= 24 and len(ref.all) <= 60:
        b = mm.base()
        ctx.require(b.order() == 1, 'base() has order %s' % b.order())
        binv = [tuple(m) for m in b.inv_monoms(d)]
        ctx.equal(sorted(binv), sorted(ref.all), 'base monomials')
        vec = [i + 1 for i in range(len(binv))]
        mat = mm.permute_vec(sp.Matrix(vec), d)
        ctx.step()
        cols = sorted(tuple(int(mat[i, j]) for i in range(mat.shape[0])) for j in range(mat.shape[1]))
        want = []
        for g in ref.els:
            col = [0] * len(binv)
            for v, m in zip(vec, binv):
                col[binv.index(tuple(m[g[i]] for i in range(n)))] = v
            want.append(tuple(col))
        ctx.equal(cols, sorted(want), 'permute_vec columns')
        # column j is the image under the j-th listed element
        for j, el in enumerate(mm.perm_group.elements):
            col = [0] * len(binv)
            for v, m in zip(vec, binv):
                col[binv.index(tuple(el(m)))] = v
            ctx.require([int(x) for x in mat[:, j]] == col, 'column %d of permute_vec is not the image under element %s' % (j, el))
    ctx.state((n, gi, d, hom, tuple(inv)))


def groups(n):
    if n <= 4:
        return SUB[n] if n > 1 else [()]
    return (G5 if n == 5 else G6) + [()]


def cases(tier):
    out = []
    dmax = {1: 6, 2: 7, 3: 6, 4: 4, 5: 2, 6: 2} if tier == 'quick' else {1: 9, 2: 10, 3: 9, 4: 6, 5: 3, 6: 3}
    for n in range(1, 7):
        for d in range(0, dmax[n] + 1):
            for gi, g in enumerate(groups(n)):
                for hom in (True, False):
                    if not hom and d > dmax[n] - 2 and n > 2:
                        continue
                    for how in ways(n, g):
                        out.append((n, gi, d, hom, how))
    return sorted(out, key=lambda c: (c[0] + c[2], c))


# ---------------------------------------------------------------- histories
HIST = [(3, (), 2, True, 'none'), (3, ((1, 2, 0),), 2, True, 'cyc'), (3, ((1, 2, 0),), 3, True, 'cyc'),
        (3, ((1, 2, 0), (1, 0, 2)), 2, True, 'sym'), (3, ((1, 2, 0),), 2, False, 'cyc'), (2, ((1, 0),), 2, True, 'sym'),
        (4, ((1, 2, 3, 0),), 2, True, 'cyc'), (3, ((1, 0, 2),), 2, True, 'group'), (3, ((0, 2, 1),), 2, True, 'group'),
        (3, (), 2, False, 'none')]


def run_hist(ctx, case):
    """calls in any order, through the functional API and through one shared manager per symmetry"""
    M = mons()
    shared = {}
    for step in case:
        n, gens, d, hom, how = HIST[step]
        ref = Ref(n, gens, d, hom)
        key = (n, gens, hom)
        mm = shared.setdefault(key, M.MonomialManager(n, perm_group(gens, n), is_homogeneous=hom))
        dic, inv = M.generate_monoms(n, d, **opts(n, gens, hom, how))
        ctx.step(4)
        ctx.equal(sorted(map(tuple, inv), reverse=True), ref.reps, 'after %s: generate_monoms' % (case,))
        ctx.equal(sorted(map(tuple, mm.inv_monoms(d)), reverse=True), ref.reps, 'after %s: shared manager' % (case,))
        ctx.equal(list(map(tuple, mm.inv_monoms(d))), list(map(tuple, inv)), 'after %s: the two interfaces list differently' % (case,))
        p = mkpoly({m: 1 + i for i, m in enumerate(monoms(n, d, True))}, n)
        e1 = M.arraylize_sp(p, expand_cyc=True, **opts(n, gens, hom, how))
        want = [0] * len(inv)
        for i, m in enumerate(monoms(n, d, True)):
            want[[tuple(x) for x in inv].index(ref.rep[m])] += (1 + i) * ref.stab(m)
        ctx.equal([int(x) for x in e1], want, 'after %s: arraylize_sp' % (case,))
        ctx.equal([int(x) for x in mm.arraylize_sp(p, expand_cyc=True)], want, 'after %s: shared arraylize_sp' % (case,))
        q = M.invarraylize(want, list(S[:n]), d, **opts(n, gens, hom, how))
        w = {m: want[i] for i, m in enumerate(map(tuple, inv))}
        ctx.require(same(q.as_expr(), mkpoly(orb_poly(ref, w, n), n).as_expr()), 'after %s: invarraylize' % (case,))
        b = mm.base()
        ctx.equal(len(b.inv_monoms(d)), len(monoms(n, d, hom)), 'after %s: base()' % (case,))
        c2 = mm.copy()
        ctx.require(c2 == mm and c2.inv_monoms(d) == mm.inv_monoms(d), 'copy() differs')
    for (k1, m1), (k2, m2) in itertools.combinations(list(shared.items()), 2):
        ctx.require(not (m1 == m2), 'managers for %s and %s compare equal' % (k1, k2))
    ctx.state(case)


def hist_cases(tier):
    L = 2 if tier == 'quick' else 3
    return [c for k in range(1, L + 1) for c in itertools.product(range(len(HIST)), repeat=k)]


def families(tier):
    return [
        Family('vectors', cases, run, timeout=60, chunk=4, share=4,
               bound='all subgroups of S1..S4 and selected groups of degree 5, 6; degrees up to %s; homogeneous and not; every option spelling' % (
                   '6/7/6/4/2/2' if tier == 'quick' else '9/10/9/6/3/3')),
        Family('histories', hist_cases, run_hist, timeout=60, chunk=8, share=1, bound='all call sequences of length <= %d over 10 option settings' % (2 if tier == 'quick' else 3)),
    ]


def _pq(x):
    return x.numerator, x.denominator
