"""C24: the problems the documentation calls completely solved are solved.

Every polynomial of a box of coefficients is either proved or has a point of the domain where it is negative; every polynomial of
the families below that is nonnegative by construction is proved."""
import itertools
import warnings
from fractions import Fraction as F

import sympy as sp

from ..core import Family

warnings.filterwarnings('ignore')

TITLE = 'documented solvable classes are solved'
BUDGET = {'quick': 240, 'thorough': 3000}
HANG = True    # cases take a second at most: one that never ends is reported

A, B, C = sp.symbols('a b c')
GENS = {'abc': (A, B, C), 'xyz': sp.symbols('x y z'), 'cab': (C, A, B)}

_PTS = None


def points():
    global _PTS
    if _PTS is None:
        import numpy as np
        n = 60
        pts = [(i, j, n - i - j) for i in range(n + 1) for j in range(n + 1 - i)]
        ls = [0] + [float(2.0**(k / 4)) for k in range(-32, 33)]
        pts = [tuple(x / n for x in p) for p in pts] + [(x, y, 1.0) for x in ls for y in ls]
        _PTS = np.array(pts, float).T
    return _PTS


def value(terms, pt):
    t = F(0)
    for m, c in terms.items():
        v = F(c)
        for x, e in zip(pt, m):
            v *= x**e
        t += v
    return t


def witness(terms, degree):
    """a point of the nonnegative orthant where the polynomial is negative (checked exactly), or None"""
    import numpy as np
    P = points()
    vals = np.zeros(P.shape[1])
    for m, c in terms.items():
        vals += float(c) * P[0]**m[0] * P[1]**m[1] * P[2]**m[2]
    vals /= P.sum(0)**degree
    for i in np.argsort(vals)[:3]:
        pt = [F(float(x)) for x in P[:, i]]
        if value(terms, pt) < 0:
            return pt
        pt = [x.limit_denominator(1000) for x in pt]
        if value(terms, pt) < 0:
            return pt
    return None


def cyclic(coeffs):
    t = {}
    for m, c in coeffs.items():
        for k in range(3):
            mm = m[k:] + m[:k]
            t[mm] = t.get(mm, 0) + c
    return {m: c for m, c in t.items() if c}


def ask(terms, names, domain=None):
    from triples.core.structsos import StructuralSOS
    gens = GENS[names]
    P = sp.Poly.from_dict({m: (sp.Rational(F(c).numerator, F(c).denominator) if not isinstance(c, sp.Expr) else c) for m, c in terms.items()}, *gens)
    return P, StructuralSOS(P, {g: g for g in gens})


def agrees(P, sol):
    """the certificate has the value of the polynomial at some points (its exactness and its form are another property's business)"""
    e = sol.solution if hasattr(sol, 'solution') else sol
    for pt in ((2, 3, 5), (1, 0, 4)):
        sub = dict(zip(P.gens, pt))
        try:
            v = sp.N(e.doit().subs(sub) if hasattr(e, 'doit') else e.subs(sub), 30)
        except Exception:
            continue
        if v.is_number and v.is_finite and abs(v - sp.N(P.eval(pt), 30)) > 1e-15 * (1 + abs(v)):
            return False
    return True


def run_box(ctx, case):
    kind, names, scale, co = case
    mons = BOXES[kind]
    terms = dict(zip(mons, co)) if kind == 'quadratic' else cyclic(dict(zip(mons, co)))
    s = F(scale) if not isinstance(scale, list) else F(*scale)
    terms = {m: c * s for m, c in terms.items() if c}
    if not terms:
        ctx.trivial()
        return
    degree = sum(mons[0])
    P, sol = ask(terms, names)
    ctx.step()
    w = witness(terms, degree)
    if sol is None:
        ctx.require(w is not None, '%s is nonnegative for nonnegative variables, but no proof was found' % P.as_expr())
        ctx.outcome('negative')
    else:
        ctx.require(w is None, '%s is called nonnegative, but it is %s at %s' % (P.as_expr(), w and value(terms, w), w and tuple(map(str, w))))
        ctx.require(agrees(P, sol), '%s: the proof %s is one of something else' % (P.as_expr(), sol.solution))
        ctx.outcome('proved')
    ctx.valid()
    ctx.state((kind, names, str(s)) + tuple(co))


BOXES = {
    'linear': [(1, 0, 0)],
    'cyclic quadratic': [(2, 0, 0), (1, 1, 0)],
    'cubic': [(3, 0, 0), (2, 1, 0), (1, 2, 0), (1, 1, 1)],
    'quartic': [(4, 0, 0), (3, 1, 0), (2, 2, 0), (1, 3, 0), (2, 1, 1)],
    'quadratic': [(2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (0, 1, 1), (1, 0, 1)],
}


def box(kind, r, names='abc', scale=1, low=None, step=1):
    k = len(BOXES[kind])
    lo = -r if low is None else low
    rng = [range(lo, r + 1)] + [range(-r, r + 1, step)] * (k - 1)
    return [[kind, names, scale, list(co)] for co in itertools.product(*rng)]


def cases_cubic(tier):
    # leading coefficients below -1 are refused at sight
    out = box('cubic', 4, low=-1) + [c for i, c in enumerate(box('cubic', 12, low=0, step=3)) if i % 3 == 0] + box('cubic', 2, 'xyz', [2, 7], low=0) + box('cubic', 2, 'cab', 10**6, low=0)
    if tier != 'quick':
        out += box('cubic', 7, low=-1) + box('cubic', 20, low=0, step=4) + box('cubic', 3, 'xyz', [22, 7], low=0)
    return out


def cases_quartic(tier):
    out = [c for c in box('quartic', 3, low=-1) if abs(c[3][0]) <= 2] + box('quartic', 1, 'xyz', [3, 11], low=0)
    if tier != 'quick':
        out += box('quartic', 4, low=0) + box('quartic', 12, low=0, step=4) + box('quartic', 2, 'cab', 10**6, low=0)
    return out


def cases_quadratic(tier):
    out = box('linear', 5) + box('cyclic quadratic', 12) + box('cyclic quadratic', 5, 'xyz', [5, 9])
    sq = box('quadratic', 2)
    out += [c for c in sq if min(c[3][:3]) >= 0] + [c for i, c in enumerate(sq) if min(c[3][:3]) < 0 and i % 16 == 0]
    if tier != 'quick':
        out += [c for c in box('quadratic', 3, 'xyz') if min(c[3][:3]) >= 0]
        out += [['quadratic', 'abc', 1, list(d) + list(o)] for d in ((1, 4, 9), (2, 3, 5), (1, 1, 16), (4, 6, 25)) for o in itertools.product(range(-8, 9, 2), repeat=3)]
    return out


# ------------------------------------------------------------------ nonnegative by construction, with equality at prescribed places

def mul(p, q):
    r = {}
    for (m, c), (n, d) in itertools.product(p.items(), q.items()):
        k = tuple(x + y for x, y in zip(m, n))
        r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c != 0}


def add(*ps):
    r = {}
    for p in ps:
        for m, c in p.items():
            r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c != 0}


def lin(x, y, z):
    return {m: c for m, c in (((1, 0, 0), x), ((0, 1, 0), y), ((0, 0, 1), z)) if c != 0}


def quad(*co):
    return {m: c for m, c in zip(((2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (0, 1, 1), (1, 0, 1)), co) if c != 0}


def mono(m, c=1):
    return {m: c} if c != 0 else {}


def construct(kind, co):
    if kind == 'cubic square':
        x, y, z, k = co
        return cyclic(add(mul(mono((1, 0, 0)), mul(lin(x, y, z), lin(x, y, z))), mono((1, 1, 1), k)))
    if kind == 'cubic squares':
        x, y, z, w, u, t = co
        return cyclic(add(mul(mono((1, 0, 0)), mul(lin(x, y, z), lin(x, y, z))), mul(mono((1, 0, 0)), mul(lin(w, u, t), lin(w, u, t)))))
    if kind == 'quartic square':
        q = quad(*co)
        return cyclic(mul(q, q))
    if kind == 'quartic border':
        x, y, z, w, u, t = co
        q = quad(x, 0, -(x + y + z), y, z, 0)
        l = lin(w, u, -(w + u))
        return cyclic(add(mul(q, q), mul(mono((1, 1, 0), abs(t)), mul(l, l))))
    if kind == 'quartic product':
        # (a+b+c) times a nonnegative cubic
        x, y, z, k = co
        return mul(lin(1, 1, 1), construct('cubic square', co))
    if kind == 'copositive':
        x, y, z, w, u, t = co
        return add(mul(lin(x, y, z), lin(x, y, z)), mono((1, 1, 0), abs(w)), mono((0, 1, 1), abs(u)), mono((1, 0, 1), abs(t)))


def run_built(ctx, case):
    kind, names, scale, co = case
    terms = construct(kind, co)
    s = F(*scale) if isinstance(scale, list) else F(1) if scale == 'sqrt2' else F(scale)
    if scale == 'sqrt2':
        terms = {m: sp.sqrt(2) * c for m, c in terms.items()}
    else:
        terms = {m: c * s for m, c in terms.items()}
    if not terms:
        ctx.trivial()
        return
    P, sol = ask(terms, names)
    ctx.step()
    if ctx.require(sol is not None, '%s is nonnegative (%s %s), but no proof was found' % (P.as_expr(), kind, co)):
        ctx.require(agrees(P, sol), '%s: the proof %s is one of something else' % (P.as_expr(), sol.solution))
    ctx.valid()
    ctx.state((kind, names, str(scale)) + tuple(co))


def cases_built(tier):
    out = []
    deep = tier != 'quick'
    for x, y, z in itertools.product(range(-5, 6), repeat=3):
        if (x, y, z) > (0, 0, 0) and (deep or (x + 2 * y + 3 * z) % 2 == 0):
            for k in (0, 1, 7) if deep else (0, 2):
                out.append(['cubic square', 'abc', 1, [x, y, z, k]])
    for x, y, z in itertools.product(range(-4, 5), repeat=3):
        if (x, y, z) > (0, 0, 0) and (deep or (x + y + z) % 3 == 0):
            out.append(['quartic product', 'abc', 1, [x, y, z, 0]])
    for x, y, z in itertools.product((1, 2, -3), repeat=3):
        for scale in ([2, 7], 10**6, [1, 10**6]):
            out.append(['cubic square', 'xyz', scale, [x, y, z, 1]])
            out.append(['quartic square', 'cab', scale, [x, y, z, 1, -2, 0]])
    r = (-2, -1, 0, 1, 3) if deep else (-2, 0, 1)
    for co in itertools.product(r, repeat=6):
        if any(co[:3]) and co > (0,) * 6:
            out.append(['quartic square', 'abc', 1, list(co)])
            if any(co[3:5]) and co[5] > 0:
                out.append(['quartic border', 'abc', 1, list(co)])
    for co in itertools.product((-3, -1, 0, 2), repeat=6) if deep else itertools.product((-2, 0, 1), repeat=6):
        if co > (0,) * 6 and any(co[3:]):
            out.append(['cubic squares', 'abc', 1, list(co)])
            if min(co[3:]) >= 0 and any(co[:3]):
                out.append(['copositive', 'abc', 1, list(co)])
    for co in itertools.product((-2, 1, 3), repeat=3):
        out.append(['cubic square', 'abc', 'sqrt2', list(co) + [1]])
        out.append(['copositive', 'abc', 'sqrt2', list(co) + [1, 0, 2]])
    return out


# ------------------------------------------------------------------ quadratic forms in more variables, on all reals

def run_forms(ctx, case):
    from triples.core.structsos import StructuralSOS
    n, rows, free = case
    gens = sp.symbols('a b c d e')[:n]
    q = sp.expand(sum(sum(sp.Rational(*c) * g for c, g in zip(row, gens))**2 for row in rows))
    if q == 0 or len(q.free_symbols) < 1:
        ctx.trivial()
        return
    P = sp.Poly(q, *gens)
    sol = StructuralSOS(P, {} if free else {g: g for g in gens})
    ctx.step()
    ctx.require(sol is not None, 'the positive semidefinite form %s is not proved' % q)
    # a little less is negative somewhere: at a kernel vector when there is one
    M = sp.Matrix([[sp.Rational(*c) for c in row] for row in rows])
    ker = M.nullspace()
    if ker:
        P2 = sp.Poly(q - sp.Rational(1, 10**6) * sum(g**2 for g in gens), *gens)
        if free:
            sol = StructuralSOS(P2, {})
            ctx.require(sol is None, 'the indefinite form %s is called nonnegative' % P2.as_expr())
    ctx.valid()
    ctx.state(str(case))


def cases_forms(tier):
    out = []
    for n in (2, 3, 4, 5):
        base = list(itertools.product((-1, 0, 2), repeat=n))
        for i in range(0, len(base), 1 if n < 4 else 5):
            for j in range(i, len(base), (3 if n < 4 else 11) if tier != 'quick' else (7 if n < 4 else 61)):
                rows = [[[c, 1] for c in base[i]], [[c, 3] for c in base[j]]]
                for free in (True, False):
                    out.append([n, rows, free])
    return out


def families(tier):
    return [
        Family('quadratic', cases_quadratic(tier), run_box, timeout=60, chunk=64, share=2, bound='all coefficient vectors of a box (cyclic and not cyclic)'),
        Family('cubic', cases_cubic(tier), run_box, timeout=60, chunk=64, share=3, bound='all coefficient vectors of a box'),
        Family('quartic', cases_quartic(tier), run_box, timeout=60, chunk=64, share=4, bound='all coefficient vectors of a box'),
        Family('constructed', cases_built(tier), run_built, timeout=60, chunk=32, share=4, bound='sums of squares with all small integer parameters, equality at interior and boundary points'),
        Family('forms', cases_forms(tier), run_forms, timeout=60, chunk=16, share=2, bound='positive semidefinite forms of rank 1 and 2 in 2-5 variables'),
    ]
