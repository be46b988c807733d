"""C05: univariate, interval, bivariate and quadratic provers decide and certify."""
import itertools
from fractions import Fraction as F

import mpmath
import sympy as sp

from ..core import Family
from .. import oracle as O
from .. import cert

TITLE = 'univariate, interval, bivariate and quadratic provers decide and certify'
BUDGET = {'quick': 150, 'thorough': 900}
HANG = True    # cases take a second at most: one that never ends is reported
mpmath.mp.dps = O.MPDPS
X = sp.Symbol('x')
INF = 'oo'


# ------------------------------------------------------------------ reference decision on intervals

def trim(c):
    while c and c[-1] == 0:
        c = c[:-1]
    return c


def peval(c, x):
    s = F(0)
    for a in reversed(c):
        s = s * x + a
    return s


def pdivmod(a, b):
    a = list(a)
    q = [F(0)] * max(0, len(a) - len(b) + 1)
    while len(a) >= len(b) and a:
        k = a[-1] / b[-1]
        d = len(a) - len(b)
        q[d] = k
        for i, v in enumerate(b):
            a[i + d] -= k * v
        a = trim(a[:-1])
    return q, a


def pgcd(a, b):
    while b:
        a, b = b, pdivmod(a, b)[1]
    return [x / a[-1] for x in a]


def der(c):
    return trim([i * c[i] for i in range(1, len(c))])


def roots_iso(c):
    """disjoint open-ended isolating data of the distinct real roots: list of (lo, hi) with lo == hi for exact ones"""
    c = trim(c)
    if len(c) <= 1:
        return []
    sq = pdivmod(c, pgcd(c, der(c)))[0]
    chain = [sq, der(sq)]
    while chain[-1]:
        chain.append([-x for x in pdivmod(chain[-2], chain[-1])[1]])
    chain.pop()

    def var(x):
        s = [v for v in (peval(p, x) for p in chain) if v != 0]
        return sum((s[i] < 0) != (s[i + 1] < 0) for i in range(len(s) - 1))
    B = 1 + max(abs(x / sq[-1]) for x in sq[:-1])
    out = []

    def rec(lo, hi, n):
        """n roots in (lo, hi], neither end is a root unless listed"""
        if n == 0:
            return
        if n == 1:
            out.append((lo, hi))
            return
        mid = (lo + hi) / 2
        while peval(sq, mid) == 0:
            mid = (mid + hi) / 2
        k = var(lo) - var(mid)
        rec(lo, mid, k)
        rec(mid, hi, n - k)
    rec(-B - 1, B + 1, var(-B - 1) - var(B + 1))
    # shrink until disjoint with gaps
    res = []
    for lo, hi in out:
        for _ in range(40):
            mid = (lo + hi) / 2
            if peval(sq, mid) == 0:
                lo = hi = mid
                break
            if var(lo) - var(mid):
                hi = mid
            else:
                lo = mid
        res.append((lo, hi))
    return res


def status(c, a, b):
    """'pos', 'nonneg' (touches zero) or 'neg' (negative somewhere) on [a, b] (None: infinite)"""
    c = trim(c)
    if not c:
        return 'zero'
    iso = [(lo, hi) for lo, hi in roots_iso(c)]
    pts = []
    ends = sorted([lo for lo, hi in iso] + [hi for lo, hi in iso])
    cand = set()
    if ends:
        cand |= {ends[0] - 1, ends[-1] + 1}
    else:
        cand |= {F(0)}
    for i in range(len(iso) - 1):
        cand.add((iso[i][1] + iso[i + 1][0]) / 2)
    for lo, hi in iso:
        cand |= {lo, hi}
    for e in (a, b):
        if e is not None:
            cand |= {e, e + F(1, 10**9), e - F(1, 10**9)}
    if a is not None and b is not None:
        cand.add((a + b) / 2)
    if a is not None:
        cand.add(a + 1)
    if b is not None:
        cand.add(b - 1)
    inside = [x for x in cand if (a is None or x >= a) and (b is None or x <= b)]
    vals = [peval(c, x) for x in inside]
    if any(v < 0 for v in vals):
        return 'neg'
    # a root strictly inside or at an end?
    for lo, hi in iso:
        if lo == hi:
            if (a is None or lo >= a) and (b is None or lo <= b):
                return 'nonneg'
        elif (a is None or hi > a) and (b is None or lo < b):
            return 'nonneg'
    return 'pos'


# ------------------------------------------------------------------ univariate

def fr(x):
    return None if x in (None, INF) else F(x)


def sym(x):
    return None if x is None else sp.Rational(str(x))


def decide(ctx, c, interval, raw, expr, label, st):
    a, b = interval
    P = sum(sp.Rational(v.numerator, v.denominator) * X**i for i, v in enumerate(c))
    if st == 'neg':
        ctx.outcome('negative')
        ctx.require(raw is None and expr is None, lambda: '%s: certificate %s although the polynomial is negative on the domain' % (label, expr))
        return
    ctx.outcome(st)
    if not ctx.require(raw is not None and expr is not None, lambda: '%s: no certificate although the polynomial is %s on the domain' % (label, st)):
        return
    tot = sp.S.Zero
    for m, cs, ps in raw:
        m = sp.sympify(m)
        if not len(cs):
            continue   # an unused multiplier claims nothing
        ok = m == 1 or (m.is_polynomial(X) and mul_ok(sp.Poly(m, X), a, b))
        ctx.require(ok, lambda: '%s: multiplier %s is not nonnegative on [%s, %s]' % (label, m, a, b))
        ctx.require(len(cs) == len(ps) and all(sp.sympify(k).is_number and sp.sympify(k) >= 0 for k in cs), lambda: '%s: weights %s' % (label, cs))
        tot += m * sum(k * p.as_expr()**2 for k, p in zip(cs, ps))
    ctx.require(sp.expand(tot - P) == 0, lambda: '%s: the raw certificate %s is not the polynomial' % (label, raw))
    ctx.require(sp.expand(sp.sympify(expr) - P) == 0, lambda: '%s: the certificate %s is not the polynomial' % (label, expr))
    ctx.state((str(expr), str(interval)))


def mul_ok(m, a, b):
    c = [F(int(k.p), int(k.q)) for k in reversed(m.all_coeffs())]
    return status(c, a, b) in ('pos', 'nonneg', 'zero')


def run_uni(ctx, case):
    """case: coefficients (ascending), list of intervals"""
    cs, ivs = case
    c = [F(x) for x in cs]
    from triples.core.structsos.pivoting import prove_univariate, prove_univariate_interval
    P = sp.Poly([sp.Rational(v.numerator, v.denominator) for v in reversed(c)] or [0], X)
    for iv in ivs:
        a, b = fr(iv[0]), fr(iv[1])
        st = status(c, a, b)
        ctx.step(2)
        args = (None if a is None else sp.Rational(a.numerator, a.denominator), None if b is None else sp.Rational(b.numerator, b.denominator))
        raw = prove_univariate_interval(P, args, return_raw=True)
        expr = prove_univariate_interval(P, args)
        decide(ctx, c, (a, b), raw, expr, '%s on [%s, %s]' % (P.as_expr(), *iv), st)
    # R or R+
    st = status(c, F(0), None)
    ctx.step(2)
    raw, expr = prove_univariate(P, return_raw=True), prove_univariate(P)
    decide(ctx, c, (F(0), None), raw, expr, '%s on R+' % P.as_expr(), st)
    from triples.core.structsos.pivoting.univariate import check_univariate
    if trim(c):
        for pos in (True, False):
            ctx.step()
            want = status(c, F(0) if pos else None, None) != 'neg'
            ctx.equal(bool(check_univariate(P, pos)), want, 'check_univariate(%s, positive=%s)' % (P.as_expr(), pos))


ALPHA = {'1': [1], '1/3': ['1/3'], 'x': [0, 1], 'x+1': [1, 1], '3x+2': [2, 3], '(x-1)2': [1, -2, 1], '(x2-2)2': [4, 0, -4, 0, 1], 'x2+1': [1, 0, 1], 'x2-x+1': [1, -1, 1], 'x2+x+1/100': ['1/100', 1, 1],
         'x2-2x+5/4': ['5/4', -2, 1], 'x3+2': [2, 0, 0, 1], 'x4+1': [1, 0, 0, 0, 1], 'x3-x+5': [5, -1, 0, 1], 'x2-1/100x+1/10': ['1/10', '-1/100', 1], '(2x-1)2': [1, -4, 4], 'x4-x3+x2-x+1': [1, -1, 1, -1, 1],
         '(x+1)2': [1, 2, 1], 'x3-3x+3': [3, -3, 0, 1], '1-x': [1, -1], '2-x': [2, -1], 'x-1': [-1, 1], 'x2-2': [-2, 0, 1], '-1': [-1], 'x6-x5+1': [1, 0, 0, 0, 0, -1, 1]}


def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


IVS = [[None, None], ['0', None], [None, '0'], ['1', None], ['-1', '1'], ['0', '1'], ['1/2', '3'], [None, '2'], ['-3', '-1/3']]


def cases_uni(tier):
    q = tier == 'quick'
    out = [[[], IVS], [['0', '0'], IVS]]
    grid = []
    for d in range(0, 4):
        for c in itertools.product([-2, -1, 0, 1, 2] if d < 3 else [-1, 0, 1, 2], repeat=d + 1):
            grid.append(c)
    for c in itertools.product([-1, 0, 1] if q else [-2, -1, 0, 1, 2], repeat=5):
        grid.append(c)
    for c in itertools.product([-1, 0, 1], repeat=6):
        if (not q) or sum(map(abs, c)) >= 5:
            grid.append(c)
    for c in itertools.product([-1, 0, 1, 3], repeat=5):
        if c[-1] in (1, 3) and c[0] in (1, 3) and (not q or c[2] != 0):
            grid.append(('1/2', c[1], c[2], c[3], c[4]))
    for c in grid:
        if any(c):
            out.append([[str(x) for x in c], IVS if not q or len(c) <= 3 else [IVS[0], IVS[1], IVS[4], IVS[6]]])
    return out


def cases_prod(tier):
    q = tier == 'quick'
    out = []
    A = list(ALPHA.values())
    for r in (1, 2, 3):
        for t in itertools.combinations_with_replacement(range(len(A)), r):
            c = [F(1)]
            for k in t:
                c = pmul(c, [F(x) for x in A[k]])
            if len(c) > (9 if q else 13):
                continue
            if r == 3 and q and sum(t) % 4:
                continue
            out.append([[str(x) for x in c], IVS if r < 3 else IVS[:2] + IVS[4:6]])
    return out


def run_alg(ctx, case):
    """irrational coefficients or end points; the polynomial over an algebraic field or over the domain of expressions"""
    ctext, iv = case
    s2 = sp.sqrt(2)
    ns = {'x': X, 's': s2}
    P = sp.Poly(eval(ctext, {'__builtins__': {}}, ns), X, extension=True)
    decide_alg(ctx, ctext, iv, P, ns)
    if P.domain.is_Algebraic:
        decide_alg(ctx, ctext + ' (EX)', iv, sp.Poly(P.as_expr(), X), ns)


def decide_alg(ctx, ctext, iv, P, ns):
    from triples.core.structsos.pivoting import prove_univariate_interval, prove_univariate
    a, b = [None if e is None else sp.sympify(eval(e, {'__builtins__': {}}, ns)) for e in iv]
    # reference: exact minimum decided by dense exact evaluation and real roots
    ctx.step()
    expr = prove_univariate_interval(P, (a, b))
    # simple roots: the square-free part over the algebraic field
    _, parts = sp.Poly(P.as_expr(), X, extension=True).sqf_list()
    roots = [r for q, _ in parts for r in sp.Poly(q.as_expr(), X).nroots(n=40, maxsteps=200) if abs(sp.im(r)) < 1e-12]
    lo = a if a is not None else sp.S(-1000)
    hi = b if b is not None else sp.S(1000)
    cand = sorted([sp.re(r) for r in roots if lo <= sp.re(r) <= hi] + [lo, hi], key=lambda v: sp.N(v, 40))
    neg = any(sp.N(P.as_expr().subs(X, (u + v) / 2), 40) < -sp.Float(10)**-25 for u, v in zip(cand, cand[1:]) if v - u > sp.Float(10)**-15)
    if neg:
        ctx.require(expr is None, lambda: '%s on %s: certificate %s but negative' % (ctext, iv, expr))
        ctx.outcome('negative')
        return
    ctx.outcome('nonneg')
    if expr is None:
        ctx.outcome('nonneg-none')
        return
    ctx.require(sp.simplify(sp.expand(expr - P.as_expr())) == 0, lambda: '%s on %s: %s is not the polynomial' % (ctext, iv, expr))
    if iv == ['0', None]:
        ctx.step()
        half = prove_univariate(P)
        ctx.require(half is not None and sp.simplify(sp.expand(half - P.as_expr())) == 0, lambda: '%s on R+: %s is not the polynomial' % (ctext, half))
    raw = prove_univariate_interval(P, (a, b), return_raw=True)
    tot = sp.S.Zero
    for m, cs, ps in raw:
        m = sp.sympify(m)
        if not cs:
            continue
        for k in range(-30, 31):
            x = sp.Rational(k, 7)
            if (a is None or x >= a) and (b is None or x <= b):
                ctx.require(m.subs(X, x) >= 0, lambda: '%s on %s: multiplier %s is negative at %s' % (ctext, iv, m, x))
        ctx.require(len(cs) == len(ps) and all(sp.sympify(k).is_number and sp.N(k, 30) >= 0 for k in cs), lambda: '%s on %s: weights %s' % (ctext, iv, cs))
        tot += m * sum(k * p.as_expr()**2 for k, p in zip(cs, ps))
    ctx.require(sp.simplify(sp.expand(tot - P.as_expr())) == 0, lambda: '%s on %s: raw certificate %s is not the polynomial' % (ctext, iv, raw))
    ctx.state(str(expr))


def cases_alg(tier):
    f = ['x**2-s*x+1', 'x**2+s', '(x-s)**2', '(x-s)**2*(x+1)', 's*x+1', 'x**2-2*s*x+2', 'x**2-2*s*x+1', 'x**4+s*x+1', '(x**2-s)**2', 'x-s', 's-x', '(s+1)*x**2-x+1', 'x**3+s*x**2+1', '(x-1)**2*(x**2+s)', 's*x**2-s*x+s', '(x-s)*(x-1)', '3-s*x', 's*x**4', '(x-s)**4', 's*x**3*(x+1)**2', 's*(x**2-x+1)**3', 'x*(x+1)*(x**2-x+s)', 's*x*(x+s)*(x+1)*(x**2+1)', 'x**3*(x+s)', 'x*(x+1)*(x**4-x**3+s)', 'x*(x+1)*(x**2-x+s/3)*(x**2-x+1)', 's*x*(x+1)*(x**2-x+s/3)', 'x**2*(x+1)*(x**4-x**3+s)', 'x*(x**2-s*x+1)*(x+1)**2']
    iv = [[None, None], ['0', None], ['s', None], [None, 's'], ['0', 's'], ['-s', 's'], ['1', '2'], ['0', '1']]
    return [[p, i] for p in f for i in iv]


# ------------------------------------------------------------------ two variables

CONES = [[], ['a'], ['b'], ['a', 'b'], ['a', 'b', 'a-b'], ['2*a-b', 'b'], ['a+b'], ['a-b', '2*b-a', 'b'], ['a', '-b'], ['a', '-a', 'b'], ['b-a', 'a', 'b-2*a'], ['a+b', 'a-b'], ['-a', '-b'], ['a', '-a'], ['3*a', '2*b', 'a']]


def run_two(ctx, case):
    cs, cone = case
    a, b = sp.symbols('a b')
    d = len(cs) - 1
    P = sp.Poly(sum(sp.Rational(c) * a**(d - i) * b**i for i, c in enumerate(cs)), a, b)
    if P.is_zero:
        ctx.trivial()
        return
    from triples.core import StructuralSOS
    from triples.core.structsos.pivoting import structural_sos_2vars
    ineq = {}
    for i, t in enumerate(cone):   # constraints that are not plain symbols get a name, so that the certificate can be read
        g = sp.sympify(t, locals={'a': a, 'b': b})
        ineq[g] = g if g.is_Symbol else sp.Symbol('g%d' % i)
    pts = [(F(x), F(y)) for x in range(-4, 5) for y in range(-4, 5)] + [(F(1), F(7, 3)), (F(7, 3), F(1)), (F(-1), F(5, 2)), (F(5, 2), F(-1)), (F(10), F(9)), (F(1), F(99, 100)), (F(1), F(101, 100))]
    feas = [p for p in pts if all(O.ev(g, {a: p[0], b: p[1]}) >= 0 for g in ineq)]
    neg = cert.fast_negative(P, feas)

    class S:
        is_equal = True

    def direct():
        D = {sp.Poly(g, a, b): e for g, e in ineq.items()}
        r = structural_sos_2vars(P, D, {})
        if r is None:
            return None
        s = S()
        s.solution = r
        return s
    cert.check(ctx, direct, P.as_expr(), ineq, [], feas, must_none=neg, label='%s on %s' % (P.as_expr(), cone))
    cert.check(ctx, lambda: StructuralSOS(P, ineq), P.as_expr(), ineq, [], feas, must_none=neg, label='StructuralSOS %s on %s' % (P.as_expr(), cone))


def cases_two(tier):
    q = tier == 'quick'
    out = []
    for cone in CONES:
        for d in (1, 2):
            for c in itertools.product([-2, -1, 0, 1, 3], repeat=d + 1):
                out.append([[str(x) for x in c], cone])
        for c in itertools.product([-1, 0, 1] if q else [-2, -1, 0, 1], repeat=4):
            out.append([[str(x) for x in c], cone])
        for c in itertools.product([-1, 0, 1], [-2, 0, 1], [-1, 3], [-1, 0], [0, 1]) if q else itertools.product([-1, 0, 1], [-2, -1, 0, 1], [-1, 0, 3], [-2, 0, 1], [-1, 0, 1]):
            out.append([[str(x) for x in c], cone])
    return out


# ------------------------------------------------------------------ quadratics

def run_weight(ctx, case):
    c1, c2, c3 = [sp.sympify(x) for x in case]
    from triples.core.structsos.utils import quadratic_weighting
    a, b, u, v = sp.symbols('a b u v')
    ok = bool(c1 >= 0) and bool(c3 >= 0) and bool(4 * c1 * c3 - c2**2 >= 0)
    ctx.step(4)
    r = quadratic_weighting(c1, c2, c3, a, b)
    r2 = quadratic_weighting(c1, c2, c3, formal=True)
    r3 = quadratic_weighting(c1, c2, c3, u + v, u - 2*v)
    r4 = quadratic_weighting(c1, c2, c3, mapping=lambda x, y: (x*u**2 + y*v)**2)
    for k, w in ((r, 'expr'), (r2, 'formal'), (r3, 'substituted'), (r4, 'mapped')):
        if not ctx.require((k is None) == (not ok), lambda: '%s*a^2+%s*a*b+%s*b^2 (%s): %s' % (c1, c2, c3, w, k)):
            return
    ctx.state(tuple(case))
    if not ok:
        ctx.outcome('indefinite')
        return
    want = lambda x, y: c1*x**2 + c2*x*y + c3*y**2
    eq = lambda e1, e2: sp.simplify(sp.expand(e1 - e2)) == 0
    ctx.require(eq(r, want(a, b)), lambda: '%s: %s' % (case, r))
    ctx.require(all(w >= 0 for w, _ in r2) and eq(sum(w * (x*a + y*b)**2 for w, (x, y) in r2), want(a, b)), lambda: '%s: formal %s' % (case, r2))
    ctx.require(eq(r3, want(u + v, u - 2*v)), lambda: '%s: substituted %s' % (case, r3))
    ctx.require(eq(r4, want(u**2, v)), lambda: '%s: mapped %s' % (case, r4))


def minors_psd(rows):
    n = len(rows)

    def det(idx):
        M = [[rows[i][j] for j in idx] for i in idx]
        d = F(1)
        for k in range(len(M)):
            p = next((r for r in range(k, len(M)) if M[r][k] != 0), None)
            if p is None:
                return F(0)
            if p != k:
                M[k], M[p] = M[p], M[k]
                d = -d
            d *= M[k][k]
            for r in range(k + 1, len(M)):
                f = M[r][k] / M[k][k]
                for j in range(k, len(M)):
                    M[r][j] -= f * M[k][j]
        return d
    return all(det(idx) >= 0 for r in range(1, n + 1) for idx in itertools.combinations(range(n), r))


def run_quad(ctx, case):
    """quadratic form (or inhomogeneous quadratic) on R^n: certificate iff positive semidefinite"""
    n, cs, hom = case
    names = 'abcdef'[:n]
    G = sp.symbols(list(names))
    m = n if hom else n + 1
    V = list(G) + ([] if hom else [sp.S.One])
    it = iter(cs)
    Q = [[F(0)] * m for _ in range(m)]
    e = sp.S.Zero
    for i in range(m):
        for j in range(i, m):
            c = sp.Rational(next(it))
            e += c * V[i] * V[j]
            f = F(int(c.p), int(c.q))
            if i == j:
                Q[i][i] = f
            else:
                Q[i][j] = Q[j][i] = f / 2
    P = sp.Poly(e, *G)
    if P.is_zero:
        ctx.trivial()
        return
    psd = minors_psd(Q)
    from triples.core import StructuralSOS
    pts = cert.default_points(n, True)
    label = 'quadratic %s' % e
    sol = StructuralSOS(P)
    ctx.step()
    if not psd:
        ctx.require(sol is None, lambda: '%s is indefinite but has certificate %s' % (label, sol.solution))
        ctx.outcome('indefinite')
        return
    if sol is None:
        ctx.outcome('psd-none')
        ctx.require(P.total_degree() < 2, label + ' is positive semidefinite but no certificate is returned')
        return
    cert.check(ctx, lambda: sol, P.as_expr(), [], [], pts, label=label)


def cases_quad(tier):
    q = tier == 'quick'
    out = []
    for c in itertools.product([-1, 0, 1, 2], repeat=3):
        out.append([2, [str(x) for x in c], True])
    for c in itertools.product([-2, -1, 0, 1, 4], repeat=3):
        out.append([1, [str(x) for x in c], False])
    for c in itertools.product([0, 1, 2], [-2, -1, 0, 1, 2], [-2, 0, 1], [0, 1, 2], [-1, 0, 2], [0, 1, 3] if not q else [1, 3]):
        out.append([3, [str(x) for x in c], True])
        out.append([2, [str(x) for x in c], False])
    out.append([3, ['-1', '0', '0', '1', '0', '1'], True])
    for diag in (['1', '2', '1'], ['3', '1', '0']):
        pass
    for off in itertools.product(['-1', '0', '1'], repeat=6):
        if q and off.count('0') < 2:
            continue
        for dg in (['1', '1', '1', '1'], ['2', '1', '1', '3']):
            o = list(off)
            c = [dg[0], o[0], o[1], o[2], dg[1], o[3], o[4], dg[2], o[5], dg[3]]
            out.append([4, c, True])
            if not q:
                out.append([3, c, False])
    return out


def families(tier):
    w = ['-1', '0', '1', '2', '1/2', '4', 'sqrt(2)', '-2', '-4', '2*sqrt(2)', 'sqrt(3)-1', '-3']
    return [
        Family('weighting', [list(c) for c in itertools.product(w, repeat=3)], run_weight, chunk=16, timeout=60, share=1, bound='all triples of 12 values'),
        Family('univariate-grid', cases_uni(tier), run_uni, chunk=8, timeout=60, share=3, bound='all coefficient vectors up to degree 3-5 over small alphabets x 9 intervals'),
        Family('univariate-products', cases_prod(tier), run_uni, chunk=4, timeout=60, share=3, bound='products of <=3 of 25 factors x 9 intervals'),
        Family('algebraic', cases_alg(tier), run_alg, chunk=2, timeout=60, share=1, bound='17 polynomials x 8 intervals with sqrt(2)'),
        Family('bivariate-cones', cases_two(tier), run_two, chunk=8, timeout=60, share=3, bound='forms up to degree 4 x 15 cones'),
        Family('quadratics', cases_quad(tier), run_quad, chunk=8, timeout=60, share=2, bound='all small quadratic forms in <=4 variables, homogeneous or not'),
    ]
