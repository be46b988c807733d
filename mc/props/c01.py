"""C01: structural (formula-based) prover never returns a wrong certificate."""
import itertools
from fractions import Fraction as F

import sympy as sp

from .. import oracle as O
from ..cert import check, corpus, default_points, fast_negative, syms
from ..core import Family
from ..shorthand import parse

TITLE = 'structural prover certificates are exact and nonnegative'
BUDGET = {'quick': 440, 'thorough': 2400}
ASSUMPTIONS = [
    'identity of problem and certificate is decided by evaluation at generic rational points (exact fractions; '
    '60-digit arithmetic when radicals occur)',
    'nonnegativity is decided at every point of a finite grid of feasible points, summand by summand',
]


def _solver():
    from triples.core import StructuralSOS
    return StructuralSOS


def _cyc(mon, n):
    return [tuple(mon[(i - k) % n] for i in range(n)) for k in range(n)]


def _sym(mon, n):
    return sorted(set(itertools.permutations(mon)))


_pc = {}


def corpus_poly(i):
    if i not in _pc:
        v = corpus()[i]
        gens = syms(v['gens'])
        _pc[i] = sp.Poly(sp.expand(parse(v['text'], v['gens'])), *gens)
    return _pc[i]


VARIANTS = ['pos-list', 'pos-fun', 'pos-sym', 'real', 'rev', 'ren', 'scale', 'neg', 'ndh', 'sq', 'abc', 'a2',
            'dev:1/10', 'dev:-1/100', 'dev:1', 'devr:1/7', 'mul:a+b+c', 'acute']


def run_corpus(ctx, case):
    i, variant = case
    p = corpus_poly(i)
    gens = p.gens
    n = len(gens)
    real = variant == 'real'
    ineq, eq = list(gens), []
    v, _, arg = variant.partition(':')
    if v == 'pos-fun':
        G = sp.Function('G')
        ineq = {g: G(g) for g in gens}
    elif v == 'pos-sym':
        ineq = {g: sp.Symbol(g.name.upper()) for g in gens}
    elif v == 'real':
        ineq = []
    elif v == 'rev':
        p = sp.Poly(p.as_expr().subs({gens[1]: gens[2], gens[2]: gens[1]}, simultaneous=True), *gens)
    elif v == 'ren':
        new = sp.symbols('x y z w')[:n]
        p = sp.Poly(p.as_expr().xreplace(dict(zip(gens, new))), *new)
        gens, ineq = new, {g: sp.Function('F')(g) for g in new}
    elif v == 'scale':
        p = p * sp.Rational(3, 7)
    elif v == 'neg':
        p = -p
    elif v == 'ndh':
        p = sp.Poly(p.as_expr().subs(gens[-1], 1), *gens[:-1])
        gens, n = gens[:-1], n - 1
        ineq = list(gens)
        if p.total_degree() < 1:
            ctx.trivial()
            return
    elif v == 'sq':
        if p.total_degree() > 6:
            ctx.trivial()
            return
        p = sp.Poly.from_dict({tuple(2 * e for e in m): c for m, c in p.terms()}, *gens)
        ineq, real = [], True
    elif v == 'abc':
        p = p * sp.Poly(sp.Mul(*gens), *gens)
    elif v == 'a2':
        p = p * sp.Poly(sp.Mul(*gens) ** 2, *gens)
        ineq, real = [], True
    elif v in ('dev', 'devr'):
        # add a small multiple of the full symmetric polynomial of the middle monomial
        d = p.total_degree()
        mon = [0] * n
        for k in range(d if v == 'dev' else d // 2):
            mon[k % n] += 1
        if v == 'devr':
            mon[0] += d - sum(mon)
        extra = sp.Poly.from_dict({m: sp.Rational(arg) for m in _cyc(mon, n)}, *gens)
        p = p + extra
        if p.is_zero:
            ctx.trivial()
            return
    elif v == 'mul':
        p = p * sp.Poly(sum(gens), *gens)
        if p.total_degree() > 9:
            ctx.trivial()
            return
    elif v == 'acute':
        if n != 3 or p.total_degree() > 4:
            ctx.trivial()
            return
        a, b, c = gens
        A, B, C = sp.symbols('A B C')
        G = sp.Function('G')
        ineq = {a: G(a), b: G(b), c: G(c), b**2 + c**2 - a**2: A, c**2 + a**2 - b**2: B, a**2 + b**2 - c**2: C}
    pts = default_points(n, real)
    neg = None
    if v != 'acute':
        neg = fast_negative(p, pts)
    else:
        pts = ACUTE_POINTS
        neg = fast_negative(p, pts)
    S = _solver()
    check(ctx, lambda: S(p, ineq, eq), p, ineq, eq, pts, must_none=neg, label='%s [%s]' % (corpus()[i]['text'], variant))


ACUTE_POINTS = [tuple(map(F, t)) for t in [
    (1, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (5, 4, 3), (1, 1, F(7, 5)), (F(7, 5), 1, 1), (1, F(7, 5), 1), (6, 5, 4),
    (4, 5, 6), (5, 4, 6), (10, 10, 1), (1, 10, 10), (10, 1, 10), (7, 8, 9), (0, 1, 1), (1, 0, 1), (1, 1, 0), (13, 5, 12)]]


def cyclic_poly(coefs, monos, gens, how):
    d = {}
    for c, m in zip(coefs, monos):
        if c == 0:
            continue
        for mm in set((_cyc if how == 'c' else _sym)(m, len(gens))):
            d[mm] = d.get(mm, 0) + sp.Rational(c)
    return sp.Poly.from_dict(d, *gens) if d else sp.Poly(0, *gens)


def orbit_size(m, how):
    return len(set((_cyc if how == 'c' else _sym)(m, len(m))))


def enum_cases(name, how, monos, alphas, sums, tier, only_nonneg=True, keep_neg=23):
    """coefficient tuples for all but the last monomial; the last is fixed by the value at (1,..,1)."""
    out = []
    wl = orbit_size(monos[-1], how)
    w = [orbit_size(m, how) for m in monos]
    k = 0
    n = len(monos[0])
    vals = [F(0), F(1), F(2), F(1, 2), F(4)]
    test = list(itertools.product([F(0), F(1), F(3)], repeat=n)) + [(F(1), F(2)) + (F(1),) * (n - 2),
                                                                      (F(2), F(1)) + (F(1),) * (n - 2)]
    imgs = [sorted(set((_cyc if how == 'c' else _sym)(m, n))) for m in monos]
    tab = [[sum(_powprod(pt, mm) for mm in im) for im in imgs] for pt in test]
    for cs in itertools.product(*alphas):
        for s in sums:
            last = F(s) - sum(c * wi for c, wi in zip(cs, w))
            last = last / wl
            full = tuple(cs) + (last,)
            if all(c == 0 for c in full):
                continue
            bad = any(sum(c * t for c, t in zip(full, row)) < 0 for row in tab)
            if bad:
                k += 1
                if k % keep_neg:
                    continue
            out.append([str(c) for c in full])
    return out


def enum_irrational(how, monos, alphas, keep_neg=29):
    """like enum_cases for coefficients in Q(sqrt(2)), value 0 at (1, ..., 1); at least one coefficient is irrational"""
    n = len(monos[0])
    r2 = 2 ** 0.5
    w = [orbit_size(m, how) for m in monos]
    imgs = [sorted(set((_cyc if how == 'c' else _sym)(m, n))) for m in monos]
    test = list(itertools.product([0, 1, 3], repeat=n)) + [(1, 2) + (1,) * (n - 2), (2, 1) + (1,) * (n - 2), (1, r2) + (1,) * (n - 2)]
    tab = [[sum(_powprod(pt, mm) for mm in im) for im in imgs] for pt in test]
    out, k = [], 0
    for cs in itertools.product(*[[tuple(c) if isinstance(c, tuple) else (c, 0) for c in al] for al in alphas]):
        if all(c[1] == 0 for c in cs):
            continue
        last = [F(-sum(c[i] * wi for c, wi in zip(cs, w)), w[-1]) for i in (0, 1)]
        full = list(cs) + [last]
        num = [float(c[0]) + r2 * float(c[1]) for c in full]
        if any(sum(c * t for c, t in zip(num, row)) < -1e-9 for row in tab):
            k += 1
            if k % keep_neg:
                continue
        out.append(['%s+(%s)*sqrt(2)' % tuple(c) for c in full])
    return out


def run_irrational(how, monos, gens, real=False):
    gs = syms(gens)

    def fn(ctx, case):
        d = {}
        for c, m in zip(case, monos):
            for mm in set((_cyc if how == 'c' else _sym)(m, len(gs))):
                d[mm] = d.get(mm, 0) + sp.sympify(c)
        p = sp.Poly(sum(c * sp.prod(g**k for g, k in zip(gs, m)) for m, c in d.items()), *gs, extension=True)
        if p.is_zero:
            ctx.trivial()
            return
        pts = default_points(len(gs), real)
        G = sp.Function('G')
        ineq = {} if real else {g: G(g) for g in gs}
        S = _solver()
        check(ctx, lambda: S(p, ineq, {}), p, ineq, {}, pts, must_none=None, label='irrational %s' % (case,))
    return fn


def _powprod(pt, m):
    r = F(1)
    for x, e in zip(pt, m):
        r *= x ** e
    return r


def make_enum(name, how, monos, gens='abc', real=False, variant='fun'):
    gs = syms(gens)

    def fn(ctx, case):
        p = cyclic_poly(case, monos, gs, how)
        if p.is_zero:
            ctx.trivial()
            return
        pts = default_points(len(gs), real)
        neg = fast_negative(p, pts)
        G = sp.Function('G')
        ineq = {} if real else {g: G(g) for g in gs}
        S = _solver()
        check(ctx, lambda: S(p, ineq, {}), p, ineq, {}, pts, must_none=neg, label='%s%s' % (name, tuple(case)))
    return fn


def run_expr(ctx, case):
    """explicit problems: [text, gens, ineq texts, eq texts, kind]"""
    text, gens, ineq, eq, al = case
    loc = {g: sp.Symbol(g) for g in gens.split()}
    P = lambda t: sp.sympify(t, locals=loc)
    p = P(text)
    gl = [loc[g] for g in gens.split()]
    ine = [P(t) for t in ineq]
    e = [P(t) for t in eq]
    if al == 'fun':
        ine = {k: sp.Function('G%d' % i)(*sorted(k.free_symbols, key=str)) for i, k in enumerate(ine)}
        e = {k: sp.Symbol('h%d' % i) for i, k in enumerate(e)}
    elif al == 'sym':
        ine = {k: sp.Symbol('g%d' % i) for i, k in enumerate(ine)}
        e = {k: sp.Symbol('h%d' % i) for i, k in enumerate(e)}
    S = _solver()
    n = len(gl)
    pts = [pt for pt in O.grid(n, [F(0), F(1), F(-1), F(2), F(1, 2), F(-3), F(3), F(1, 3)] if n <= 3 else [F(0), F(1), F(-1), F(2)])]
    poly = sp.Poly(p, *gl)
    neg = O.negative_point(p, ine, e, gl, pts) if set(gl) >= p.free_symbols else None
    cpts = [tuple(pt[gl.index(s)] for s in _cert_syms(poly, ine, e)) for pt in pts]
    check(ctx, lambda: S(poly, ine, e), poly, ine, e, sorted(set(cpts)), must_none=neg, label=text + ' | ' + ', '.join(ineq) + ' | ' + ', '.join(eq))


def _cert_syms(p, ine, e):
    return O.Certificate(p, ine, e, sp.S.Zero).syms


EXPLICIT = [
    ['a**3', 'a b c', [], [], 'sym'], ['a**4', 'a b c', [], [], 'sym'], ['a*b', 'a b c', [], [], 'sym'],
    ['a**2*b**2', 'a b', [], [], 'sym'], ['a**3*b', 'a b', ['a', 'b'], [], 'sym'], ['a**3*b', 'a b', ['a'], [], 'sym'],
    ['-a**2', 'a', [], [], 'sym'], ['x**2-2*x+1', 'x', [], [], 'sym'], ['x**4-4*x+3', 'x', [], [], 'sym'],
    ['x**4+x**3-3*x+2', 'x', ['x'], [], 'sym'], ['x**3-3*x+2', 'x', ['x'], [], 'sym'],
    ['x', 'x', [], [], 'sym'], ['x+1', 'x', [], [], 'sym'], ['x+1', 'x', ['x'], [], 'sym'], ['x+y', 'x y', ['x', 'y'], [], 'fun'],
    ['x+y+z+w', 'x y z w', ['x', 'y', 'z', 'w'], [], 'fun'], ['x+2*y+3*z+w', 'x y z w', ['x', 'y', 'z', 'w'], [], 'fun'],
    ['x**2+y**2-2*x*y', 'x y', [], [], 'sym'], ['x**2+x*y+y**2+z**2+w**2+x*w', 'x y z w', [], [], 'sym'],
    ['x**2-4*x*y+4*y**2+z**2-2*z*w+2*w**2+1', 'x y z w', [], [], 'sym'],
    ['a**2+b**2+c**2+d**2-a*b-b*c-c*d-d*a', 'a b c d', [], [], 'sym'],
    ['a**2+b**2+c**2+d**2+e**2-a*b-b*c-c*d-d*e', 'a b c d e', [], [], 'sym'],
    ['a*b*c-1', 'a b c', ['a', 'b', 'c'], ['a*b*c-1'], 'sym'],
    ['a+b+c-3', 'a b c', ['a', 'b', 'c'], ['a*b*c-1'], 'sym'],
    ['a**2+b**2+c**2-3', 'a b c', ['a', 'b', 'c'], ['a+b+c-3'], 'sym'],
    ['a**2+b**2+c**2-3', 'a b c', [], ['a+b+c-3'], 'sym'],
    ['1-3*(a*b+b*c+c*a)', 'a b c', [], ['a+b+c-1'], 'sym'],
    ['1-3*(a*b+b*c+c*a)', 'a b c', ['a', 'b', 'c'], ['a+b+c-1'], 'sym'],
    ['1-27*a*b*c', 'a b c', ['a', 'b', 'c'], ['a+b+c-1'], 'fun'],
    ['a**2+b**2-2', 'a b', ['a', 'b'], ['a*b-1'], 'sym'], ['a+b-2', 'a b', ['a', 'b'], ['a*b-1'], 'sym'],
    ['a**3+b**3-2', 'a b', ['a', 'b'], ['a+b-2'], 'sym'], ['x**2-x', 'x', ['x-1'], [], 'sym'], ['x**2-1', 'x', ['x-1'], [], 'sym'],
    ['2-x', 'x', ['1-x'], [], 'sym'], ['x*(1-x)', 'x', ['x', '1-x'], [], 'sym'], ['x-x**3', 'x', ['x', '1-x'], [], 'sym'],
    ['1+x-x**2', 'x', ['1-x', '1+x'], [], 'sym'], ['x**2+y**2-1', 'x y', ['x+y-2'], [], 'sym'],
    ['x*y-1', 'x y', ['x-1', 'y-1'], [], 'sym'], ['x*y+y*z+z*x-3', 'x y z', ['x-1', 'y-1', 'z-1'], [], 'sym'],
    ['a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', 'a b c', ['a', 'b', 'c'], [], 'sym'],
    ['a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', 'a b c', ['b+c-a', 'c+a-b', 'a+b-c'], [], 'sym'],
    ['a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', 'a b c', ['2*a', '3*b', 'c/2'], [], 'sym'],
    ['a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', 'a b c', ['a**3', 'b**3', 'c**3'], [], 'sym'],
    ['a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', 'a b c', ['a', 'b'], [], 'sym'],
    ['a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', 'a b c', ['-a', '-b', '-c'], [], 'sym'],
    ['2*a*b+2*b*c+2*c*a-a**2-b**2-c**2', 'a b c', ['b**2+c**2-a**2', 'c**2+a**2-b**2', 'a**2+b**2-c**2', 'a', 'b', 'c'], [], 'sym'],
    ['2*a*b+2*b*c+2*c*a-a**2-b**2-c**2', 'a b c', ['b+c-a', 'c+a-b', 'a+b-c'], [], 'sym'],
    ['a**2+b**2+c**2-a*b-b*c-c*a', 'a b c d', [], [], 'sym'],
    ['x**4+y**4-2*x**2*y**2', 'x y', [], [], 'sym'], ['x**4+y**4+x*y**3', 'x y', [], [], 'sym'],
    ['x**6-3*x**2*y**2*z**2+y**6+z**6', 'x y z', [], [], 'sym'],
    ['x**4*y**2+y**4*z**2+z**4*x**2-3*x**2*y**2*z**2', 'x y z', [], [], 'sym'],
    ['x**4*y**2+x**2*y**4-3*x**2*y**2+1', 'x y', [], [], 'sym'],
]


def quad_cases(tier):
    """all ternary quadratics / all 4-var quadratics with unit-ish coefficients"""
    out = []
    vals = [-1, 0, 1, 2]
    for d in itertools.product([0, 1], [1, 2], [0, 1, 2]):
        for o in itertools.product([-2, -1, 0, 1], repeat=3):
            out.append(['abc', 'pos', list(d) + list(o)])
            if tier == 'thorough' or sum(o) <= 0:
                out.append(['abc', 'real', list(d) + list(o)])
    return out


def run_quad(ctx, case):
    g, mode, cs = case
    gs = syms(g)
    a, b, c = gs
    p = sp.Poly(cs[0]*a**2 + cs[1]*b**2 + cs[2]*c**2 + cs[3]*a*b + cs[4]*b*c + cs[5]*c*a, *gs)
    real = mode == 'real'
    pts = default_points(3, real)
    neg = fast_negative(p, pts)
    ineq = {} if real else {x: sp.Function('G')(x) for x in gs}
    S = _solver()
    check(ctx, lambda: S(p, ineq, {}), p, ineq, {}, pts, must_none=neg, label='quad%s %s' % (tuple(cs), mode))


def acyclic_cases(tier):
    """non-cyclic ternary cubics: all coefficient vectors over a small alphabet that are symmetric in two variables
    or supported on few monomials"""
    out = []
    mons = [m for m in itertools.product(range(4), repeat=3) if sum(m) == 3]
    base = [-2, -1, 1, 2, 3]
    for k in (2, 3):
        for sub in itertools.combinations(mons, k):
            for cs in itertools.product([1, 2], *([[-3, -2, 1]] * (k - 1))):
                if k == 3 and tier == 'quick' and (hash(sub) % 3 != 0):
                    continue
                for sgn in (1,):
                    out.append([[c, *m] for c, m in zip(cs, sub)])
    return out


def run_acyclic(ctx, case):
    gs = syms('abc')
    p = sp.Poly.from_dict({tuple(t[1:]): sp.Rational(t[0]) for t in case}, *gs)
    pts = default_points(3, False)
    neg = fast_negative(p, pts)
    ineq = {x: sp.Function('G')(x) for x in gs}
    S = _solver()
    check(ctx, lambda: S(p, ineq, {}), p, ineq, {}, pts, must_none=neg, label='acyclic%s' % (case,))


Q1 = ['a-b', 'a-2*b+c', '2*a-b-c', 'a-3*b+2*c', 'a-b+c']
Q2 = ['a**2-b*c', 'a**2-b**2', 'a**2-a*b', 'a*b-b*c', 'a**2-2*a*b+b*c', 'a**2-a*b+b*c-c**2', 'a**2-2*b*c+c**2', 'a*b+a*c-2*b*c', 'a**2+b**2-2*c**2',
      'a**2-3*a*b+2*b*c', 'a**2-3*b*c', 'a**2-a*b-b*c', 'a**2-b**2+2*a*c-2*b*c']
Q3 = ['a**3-a*b*c', 'a**3-a*b**2', 'a**2*b-a*b*c', 'a**2*b-b**2*c', 'a*b**2-2*a*b*c+c**2*a', 'a**3-3*a**2*b+2*a*b*c', 'a**2*b+b**2*c+c**2*a-3*a*b*c',
      'a**3-2*a*b**2+b*c**2', 'a**2*b-2*a**2*c+a*b*c']
Q4 = ['a**4-a**2*b*c', 'a**2*b**2-a*b*c**2', 'a**3*b-a**2*b*c', 'a**3*b-b**3*c', 'a**3*b-2*a**2*b*c+a*b**2*c']


QR = ['a-sqrt(2)*b+(sqrt(2)-1)*c', 'a**2-sqrt(2)*a*b+(sqrt(2)-1)*b*c', 'a**2-sqrt(3)*b**2+(sqrt(3)-1)*b*c']
QN = ['a+b-c', 'a**2-2*b**2', 'a**2-3*b*c', 'a-2*b', 'a**2+b**2-3*c**2', 'a**3-2*a*b*c', 'a**2*b-2*b*c**2']   # no zero at (1,1,1)
FACTORS = ['a+b+c', 'a**2+b**2+c**2-a*b-b*c-c*a', 'a*b*c', 'a*b+b*c+c*a', '(a-b)**2*(b-c)**2*(c-a)**2']
GROUPS3 = {'c': [(0, 1, 2), (1, 2, 0), (2, 0, 1)], 's': list(itertools.permutations(range(3))), '2': [(0, 1, 2), (1, 0, 2)]}
GROUPS5 = {'s': list(itertools.permutations(range(5)))}
GROUPS4 = {'c': [tuple((i + k) % 4 for i in range(4)) for k in range(4)], 's': list(itertools.permutations(range(4)))}


def _weights(e, n=3):
    return [m for m in itertools.product(range(e + 1), repeat=n) if sum(m) == e]


def _singles(d, lists, n=3, wlim=None):
    out = []
    for k, qs in lists:
        if 2 * k <= d:
            ms = _weights(d - 2 * k, n)
            if wlim is not None:
                ms = [m for m in ms if wlim(m)]
            out += [[list(m), t] for m in ms for t in qs]
    return out


FULL = ((1, Q1), (2, Q2), (3, Q3), (4, Q4))
IRR = ((1, QR[:1]), (2, QR[1:]))
OFF = ((1, [QN[0], QN[3]]), (2, [QN[1], QN[2], QN[4]]), (3, QN[5:]))
_near = lambda m: sorted(m)[-1] - sorted(m)[0] <= 2 or sorted(m)[1] == 0


def square_cases(tier):
    """[group, factor, parts]: the sum over the group of weight * form**2, of several parts, times a factor"""
    q = tier == 'quick'
    out = []

    def add(group, singles, factor='1', pairs=0):
        out.extend([group, factor, [x]] for x in singles)
        if pairs:
            # every pair of singles whose positions differ by a multiple of the stride
            sub = singles[::pairs]
            out.extend([group, factor, [x, y]] for x, y in itertools.combinations(sub, 2) if x[1] != y[1])
    for d in range(3, 10):
        add('c', _singles(d, FULL, wlim=_near if q and d > 6 else None), pairs=0 if q else 5)
        add('s', _singles(d, FULL, wlim=lambda m: _near(m) and (not q or sorted(m) == list(m) or d < 7)), pairs={3: 1, 4: 2}.get(d, 29 if q else 5))
        if d <= 6 or not q:
            add('c', _singles(d, OFF, wlim=_near), pairs=0 if q else 7)
            add('s', _singles(d, OFF, wlim=_near), pairs=0 if q else 7)
            add('c', _singles(d, IRR, wlim=_near))
            add('s', _singles(d, IRR, wlim=_near))
    for f in FACTORS:
        k = {'a+b+c': 1, 'a*b*c': 3}.get(f, 2 if f[0] != '(' else 6)
        for d in range(2, (7 if q else 10) - k):
            add('c', _singles(d, FULL, wlim=_near), f)
            add('s', _singles(d, FULL, wlim=_near), f)
    for d in (2, 3, 4):
        add('2', _singles(d, FULL), pairs={2: 1, 3: 3 if q else 1, 4: 13 if q else 3}[d])
        add('2', _singles(d, OFF), pairs={2: 1, 3: 3 if q else 1, 4: 7 if q else 3}[d])
    for d in (2, 3, 4):
        f4 = ((1, ['a-b', 'a-c', 'a-2*b+c', 'a+b-c-d', 'a-b+c-d', 'a-3*b+2*d']), (2, ['a**2-b*c', 'a*b-c*d', 'a**2-b**2', 'a**2-a*b', 'a*b-b*c', 'a**2-3*a*b+2*c*d']))
        add('4c', _singles(d, f4, 4), pairs={2: 1, 3: 2, 4: 0}[d] if q else {2: 1, 3: 1, 4: 3}[d])
        add('4s', _singles(d, f4, 4, lambda m: q is False or sorted(m) == list(m)), pairs={2: 1, 3: 3, 4: 5}[d] if q else {2: 1, 3: 1, 4: 2}[d])
    # every real point: even weights, no constraint
    even = lambda m: not any(k % 2 for k in m)
    for d in (2, 4, 6) if q else (2, 4, 6, 8):
        p = {2: 1, 4: 2, 6: 7, 8: 5} if q else {2: 1, 4: 1, 6: 2, 8: 11}
        add('cr', _singles(d, FULL + OFF + IRR, wlim=even), pairs=p[d])
        add('sr', _singles(d, FULL + OFF + IRR, wlim=even), pairs=p[d])
        if d < 6:
            add('2r', _singles(d, FULL + OFF, wlim=even), pairs=p[d])
        add('cr', _singles(d, FULL, wlim=even), FACTORS[1])
        add('sr', _singles(d, FULL, wlim=even), FACTORS[1])
        add('sr', _singles(d, FULL, wlim=even), FACTORS[4])
    f5 = ((1, ['a-b', 'a+b-c-d', 'a-b-c+e', 'a-3*b+2*d', '2*a+b']), (2, ['a**2-b*c', 'a*b-c*d', 'a**2-b**2', 'a**2-a*b', 'a*b-b*c', 'a**2-3*a*b+2*c*d', 'a**2+b**2-2*d*e', 'a**2+2*a*b']))
    add('5sr', _singles(4, f5, 5, lambda m: even(m) and sorted(m) == list(m)), pairs=3 if q else 1)
    add('4sr', _singles(4, [(k, [t for t in ts if 'e' not in t]) for k, ts in f5], 4, lambda m: even(m) and sorted(m) == list(m)), pairs=2 if q else 1)
    # acute triangles: the weights are powers of b**2+c**2-a**2, c**2+a**2-b**2, a**2+b**2-c**2
    for d in range(2, 9 if q else 11):
        ws = {}
        for k, qs in FULL + OFF + IRR:
            for j in range(0, d - 2 * k + 1):           # j: degree of the plain weight
                if (d - 2 * k - j) % 2 == 0 and j <= (1 if q else 2):
                    for m in _weights((d - 2 * k - j) // 2, 3):
                        for w in _weights(j, 3):
                            if max(w) == j:
                                ws.setdefault(k, []).extend([list(m) + list(w), t] for t in qs[:6 if q else None])
        one = [x for k in sorted(ws) for x in ws[k]]
        add('ca', one[::{7: 3, 8: 5}.get(d, 1) if q else 1], pairs={2: 1, 3: 1, 4: 5}.get(d, 0) if q else {2: 1, 3: 1, 4: 2, 5: 11}.get(d, 0))
        add('sa', one[::{7: 3, 8: 5}.get(d, 1) if q else 1], pairs={2: 1, 3: 1, 4: 5}.get(d, 0) if q else {2: 1, 3: 1, 4: 2, 5: 11}.get(d, 0))
    return out


def acute_cubics(tier):
    """-(a**3+b**3+c**3) + x*(a**2*b+...) + y*a*b*c on a grid and on the borders of the nonnegative region"""
    q = tier == 'quick'
    k = 4 if q else 10
    xs = ['%d/%d' % (i, k) for i in range(k - 1, 3 * k + 1)] + ['sqrt(2)', '(8*sqrt(2)-3)/7', '1+sqrt(2)/2', '9/7', '5/4+sqrt(2)/2']
    out = []
    for x in xs:
        ys = {'6-6*(%s)' % x, '4-6*(%s)' % x, '3-6*(%s)' % x, '(2*sqrt(2)+2-(2*sqrt(2)+6)*(%s))/sqrt(2)' % x, '3-6*(%s)+1/100' % x, '-4/3', '-2', '-32/7'}
        X = sp.sympify(x)
        # 7x^2 - 2xy - 2x - y^2 - 2y - 9 = 0
        disc = sp.sqrt((2 * X + 2)**2 + 4 * (7 * X**2 - 2 * X - 9))
        ys |= {str(sp.radsimp((-(2 * X + 2) + disc) / 2)), str(sp.radsimp((-(2 * X + 2) + disc) / 2 + sp.Rational(1, 20)))}
        ys |= {'%d/%d' % (j, 2) for j in range(-14 if q else -24, 6)}
        out += [[x, y] for y in sorted(ys)]
    return out


def run_acute_cubic(ctx, case):
    a, b, c = gs = syms('abc')
    x, y = map(sp.sympify, case)
    e = -a**3 - b**3 - c**3 + x * (a**2 * (b + c) + b**2 * (c + a) + c**2 * (a + b)) + y * a * b * c
    p = sp.Poly(sp.expand(e), *gs, extension=True)
    ineq = acute_constraints(gs)
    check(ctx, lambda: _solver()(p, ineq, {}), p, ineq, {}, ACUTE_POINTS, must_none=fast_negative(p, ACUTE_POINTS) if case[0].find('sqrt') < 0 and case[1].find('sqrt') < 0 else None,
          label='acute cubic %s' % (case,))


def acute_constraints(gs):
    a, b, c = gs
    G = sp.Function('G')
    A, B, C = sp.symbols('A B C')
    return {a: G(a), b: G(b), c: G(c), b**2 + c**2 - a**2: A, c**2 + a**2 - b**2: B, a**2 + b**2 - c**2: C}


def run_square(ctx, case):
    group, factor, parts = case
    real, acute = group[-1] == 'r', group[-1] == 'a'
    group = group.rstrip('ra')
    n = int(group[0]) if group[0] in '45' else 3
    gs = syms('abcde'[:n])
    loc = {g.name: g for g in gs}
    els = {3: GROUPS3, 4: GROUPS4, 5: GROUPS5}[n][group.lstrip('45')]
    e = 0
    for i, (m, t) in enumerate(parts):
        base = gs
        if acute:
            s = sum(g**2 for g in gs)
            base = [s - 2 * g**2 for g in gs] + list(gs)
        f = sp.Mul(*[g**k for g, k in zip(base, m)]) * sp.sympify(t, locals=loc)**2 * (i + 1)
        e += sum(f.xreplace({gs[k]: gs[x] for k, x in enumerate(p)}) for p in els)
    p = sp.Poly(sp.expand(e * sp.sympify(factor, locals=loc)), *gs, extension=True)
    if p.is_zero:
        ctx.trivial()
        return
    G = sp.Function('G')
    ineq = {} if real else acute_constraints(gs) if acute else {g: G(g) for g in gs}
    S = _solver()
    check(ctx, lambda: S(p, ineq, {}), p, ineq, {}, ACUTE_POINTS if acute else default_points(n, real), must_none=None, label='squares %s' % (case,))


def cyc_classes(d):
    seen, out = set(), []
    for i in range(d, -1, -1):
        for j in range(d - i, -1, -1):
            m = (i, j, d - i - j)
            if m not in seen:
                seen.update(_cyc(m, 3))
                out.append(m)
    return out


def sparse_cases(tier):
    """cyclic polynomials with few classes of monomials: differences of two, and three with weights 1, k, 1"""
    q = tier == 'quick'
    out = []
    for d in range(3, 10 if q else 13):
        cl = cyc_classes(d)
        for i, x in enumerate(cl):
            for j, y in enumerate(cl):
                if x == y or (min(x) and min(y)):
                    continue
                out.append([d, [[1, list(x)], [-1, list(y)]]])
    for d in range(4, 7 if q else 9):
        cl = cyc_classes(d)
        for x, y in itertools.combinations(cl, 2):
            for z in cl:
                if z in (x, y) or (min(x) and min(y) and min(z)):
                    continue
                out.append([d, [[1, list(x)], [1, list(y)], [-2, list(z)]]])
                if not q:
                    out.append([d, [[1, list(x)], [2, list(y)], [-3, list(z)]]])
                    out.append([d, [[2, list(x)], [1, list(y)], [-3, list(z)]]])
    keep, k = [], 0
    pts = [(F(1), F(2), F(0)), (F(2), F(1), F(0)), (F(1), F(0), F(0)), (F(1), F(1), F(0)), (F(1), F(2), F(3)), (F(2), F(1), F(3)),
           (F(1), F(1), F(2)), (F(1), F(1), F(1, 4)), (F(9), F(1), F(1, 9)), (F(1), F(9), F(1, 9))]
    for d, ms in out:
        if any(sum(c * sum(_powprod(p, mm) for mm in _cyc(m, 3)) for c, m in ms) < 0 for p in pts):
            k += 1
            if k % 41:
                continue
        keep.append([d, ms])
    return keep


def run_sparse(ctx, case):
    gs = syms('abc')
    d = {}
    for c, m in case[1]:
        for mm in _cyc(tuple(m), 3):
            d[mm] = d.get(mm, 0) + sp.Rational(c)
    _run_poly(ctx, sp.Poly.from_dict(d, *gs), gs, 'sparse %s' % (case,))


def _run_poly(ctx, p, gs, label, ineq=None):
    if p.is_zero:
        ctx.trivial()
        return
    pts = default_points(len(gs), ineq == {})
    G = sp.Function('G')
    ineq = {g: G(g) for g in gs} if ineq is None else ineq
    S = _solver()
    check(ctx, lambda: S(p, ineq, {}), p, ineq, {}, pts, must_none=fast_negative(p, pts), label=label)


def schur_cases(tier):
    """sums a^n (b^m+c^m)(a^r-b^r)(a^r-c^r) (b^n c^n in place of a^-n), products of two alternating sums, their sums"""
    top = 10 if tier == 'quick' else 13
    H, P = [], []
    for r in range(1, 5):
        for m in range(0, 7):
            for n in range(-4, 8):
                d = 2 * r + m + (n if n >= 0 else -2 * n)
                if d <= top:
                    H.append((d, ['H', n, m, r]))
    for n in range(2, 9):
        for r in range(1, n):
            for m in range(2, n + 1):
                for s in range(1, m):
                    if n + r + m + s <= top and (m, s) <= (n, r):
                        P.append((n + r + m + s, ['P', n, r, m, s]))
    out = [[t] for _, t in H + P]
    by = {}
    for d, t in H + P:
        by.setdefault(d, []).append(t)
    lo, hi = (7, 8) if tier == 'quick' else (7, 11)
    for d in range(lo, hi + 1):
        for x in by.get(d, []):
            for y in by.get(d, []):
                if x != y and y[0] == 'P':
                    out.append([x, y])
    for d in range(lo, min(hi, 9) + 1):
        for x, y in itertools.combinations([t for t in by[d] if t[0] == 'H'], 2):
            out.append([x, y])
    return out


def run_schur(ctx, case):
    gs = syms('abc')
    a, b, c = gs
    e = 0
    for t in case:
        k = t[1:]
        for x, y, z in ((a, b, c), (b, c, a), (c, a, b)) if t[0] == 'H' else ():
            n, m, r = k
            e += (x**n if n >= 0 else (y * z)**-n) * (y**m + z**m) * (x**r - y**r) * (x**r - z**r)
        if t[0] == 'P':
            f = lambda n, r: sum(x**n * (y**r - z**r) for x, y, z in ((a, b, c), (b, c, a), (c, a, b)))
            e += f(k[0], k[1]) * f(k[2], k[3])
    _run_poly(ctx, sp.Poly(sp.expand(e), *gs), gs, 'schur %s' % (case,))


def partial_cases(tier):
    """k1 (a+b+c) d^2 + k0 d^3 + c1 sum(a^2-ab) d + c2 sum(a^2-2ab) d + k abc, and d = 1"""
    q = tier == 'quick'
    out = [['hom', '4', '4', '5', '4', '4'], ['hom', '13/9', '3', '0', '87/9', '45'], ['hom', '1', '0', '1', '1', '3'], ['in', '4', '4', '5', '4', '4']]
    r = [0, 1, 2, 4] if q else [0, 1, 2, 3, 4, 6, 9]
    for k in ([1, 4] if q else [0, 1, 2, 3, 4]):
        for k1 in r + [-2]:
            for k0 in r:
                for c1 in ([0, 1] if q else [0, 1, 2, 3]):
                    for c2 in ([1, 2] if q else [0, 1, 2, 3]):
                        for how in ('hom', 'in'):
                            if how == 'in' and q and (c1 or k != 1):
                                continue
                            out.append([how, str(k1), str(k0), str(c1), str(c2), str(k)])
    return out


def run_partial(ctx, case):
    gs = syms('abcd')
    a, b, c, d = gs
    k1, k0, c1, c2, k = map(sp.Rational, case[1:])
    s1, s2, q = a + b + c, a**2 + b**2 + c**2, a * b + b * c + c * a
    e = k1 * s1 * d**2 + k0 * d**3 + c1 * (s2 - q) * d + c2 * (s2 - 2 * q) * d + k * a * b * c
    if case[0] == 'in':
        e, gs = e.subs(d, 1), gs[:3]
    _run_poly(ctx, sp.Poly(sp.expand(e), *gs), gs, 'partial %s' % (case,))


def families(tier):
    q = tier == 'quick'
    ncorp = len(corpus())
    fams = []
    variants = VARIANTS
    fams.append(Family('explicit', EXPLICIT, run_expr, timeout=60, chunk=2, share=0.5,
                       bound='%d hand written problems: constraints of every kind' % len(EXPLICIT)))
    fams.append(Family('corpus', [[i, v] for v in variants for i in range(ncorp)], run_corpus, timeout=20 if q else 60, chunk=8, share=14,
                       bound='%d quoted polynomials x %d problem variants' % (ncorp, len(variants))))
    fams.append(Family('quadratic', quad_cases(tier), run_quad, timeout=20, chunk=32, share=0.7, bound='all quadratics, |coef|<=2'))
    M3 = [(3, 0, 0), (2, 1, 0), (1, 2, 0), (1, 1, 1)]
    r = range
    fams.append(Family('cubic-cyclic', enum_cases('cubic', 'c', M3, [[0, 1, 2], r(-4, 5), r(-4, 5)], [0, 1, 3], tier),
                       make_enum('cubic', 'c', M3), timeout=20, chunk=16, share=1,
                       bound='a3 in 0..2, a2b,ab2 in -4..4, value at (1,1,1) in {0,1,3}'))
    M4 = [(4, 0, 0), (3, 1, 0), (2, 2, 0), (1, 3, 0), (2, 1, 1)]
    k = 4 if q else 6
    fams.append(Family('quartic-cyclic', enum_cases('quartic', 'c', M4, [[0, 1], r(-k, k), r(-3, k + 1), r(-k, k)], [0] if q else [0, 1, 3], tier),
                       make_enum('quartic', 'c', M4), timeout=20, chunk=16, share=1.5, bound='a4 in 0..1, others |c|<=%d, sum given' % k))
    fams.append(Family('quartic-cyclic-real', enum_cases('quartic', 'c', M4, [[1], r(-3, 4), r(-2, 5), r(-3, 4)], [0, 1], tier),
                       make_enum('quartic', 'c', M4, real=True), timeout=20, chunk=16, share=1, bound='over the reals'))
    M5 = [(5, 0, 0), (4, 1, 0), (3, 2, 0), (2, 3, 0), (1, 4, 0), (3, 1, 1), (2, 2, 1)]
    al = [[0, 1], [-1, 0, 1], [-2, -1, 0, 1, 2], [-2, 0, 1], [-1, 0, 1], [-3, -1, 0, 2]] if q else \
        [[0, 1], [-2, -1, 0, 1, 2], [-3, -2, -1, 0, 1, 2, 3], [-2, -1, 0, 1, 2], [-2, -1, 0, 1, 2], [-4, -3, -1, 0, 1, 2]]
    fams.append(Family('quintic-cyclic', enum_cases('quintic', 'c', M5, al, [0], tier, keep_neg=97), make_enum('quintic', 'c', M5), timeout=20,
                       chunk=8, share=2, bound='small coefficients, value 0 at (1,1,1)'))
    M5s = [(5, 0, 0), (4, 1, 0), (3, 2, 0), (3, 1, 1), (2, 2, 1)]
    fams.append(Family('quintic-symmetric', enum_cases('quintic', 's', M5s, [[0, 1, 2], r(-3, 4), r(-4, 4), r(-6, 6)], [0] if q else [0, 1, 3], tier,
                                                        keep_neg=97), make_enum('quintic', 's', M5s), timeout=20, chunk=8, share=1.5,
                       bound='symmetric, small coefficients'))
    M6s = [(6, 0, 0), (5, 1, 0), (4, 2, 0), (3, 3, 0), (4, 1, 1), (3, 2, 1), (2, 2, 2)]
    al = [[0, 1], [-2, -1, 0, 1], [-2, -1, 0, 1], [-3, -2, 0, 2], [-2, 0, 2], [-3, -1, 0, 1]] if q else \
        [[0, 1, 2], [-3, -2, -1, 0, 1], [-2, -1, 0, 1, 2], [-4, -3, -2, 0, 2], [-3, -2, 0, 1, 2], [-3, -2, -1, 0, 1]]
    fams.append(Family('sextic-symmetric', enum_cases('sextic', 's', M6s, al, [0], tier, keep_neg=97), make_enum('sextic', 's', M6s), timeout=20,
                       chunk=8, share=2, bound='symmetric, small coefficients'))
    M6 = [(4, 2, 0), (3, 3, 0), (2, 4, 0), (4, 1, 1), (3, 2, 1), (2, 3, 1), (2, 2, 2)]
    al = [[0, 1, 2], [-2, -1, 0, 1], [0, 1], [-1, 0, 1], [-2, -1, 0, 1], [-2, -1, 0]]
    fams.append(Family('sextic-cyclic', enum_cases('sextic', 'c', M6, al, [0], tier, keep_neg=97), make_enum('sextic', 'c', M6), timeout=20,
                       chunk=8, share=1.5, bound='no a6/a5b terms, small coefficients'))
    B, C, D, E, N = [-1, 0, 1], [-2, -1, 0, 1], [-2, 0, 1], [0, 1], [-1, 0]
    B2, C2 = ([-2, -1, 0, 1, 2], [-3, -2, -1, 0, 1, 2]) if not q else (B, C)
    hi = [('septic-cyclic', 'c', [(5, 2, 0), (4, 3, 0), (3, 4, 0), (2, 5, 0), (5, 1, 1), (4, 2, 1), (3, 3, 1), (2, 4, 1), (3, 2, 2)],
           [E, N if q else C2, B if q else C2, E, D, B, B, B], False),
          ('septic-symmetric', 's', [(7, 0, 0), (6, 1, 0), (5, 2, 0), (4, 3, 0), (5, 1, 1), (4, 2, 1), (3, 3, 1), (3, 2, 2)],
           [E, B, B2, C2, D, B, N if q else C2], False),
          ('octic-cyclic', 'c', [(6, 2, 0), (5, 3, 0), (4, 4, 0), (3, 5, 0), (2, 6, 0), (6, 1, 1), (5, 2, 1), (4, 3, 1), (4, 2, 2), (3, 3, 2)],
           [E, N, [-2, 0, 1], N if q else B, E, [-2, 0], [-1, 1], E, B2], False),
          ('octic-symmetric', 's', [(8, 0, 0), (7, 1, 0), (6, 2, 0), (5, 3, 0), (4, 4, 0), (6, 1, 1), (5, 2, 1), (4, 3, 1), (4, 2, 2), (3, 3, 2)],
           [E, N, E, N if q else B, [-2, 0, 1], [-2, 0], [-1, 1], E if q else B, B2], False),
          ('nonic-symmetric', 's', [(7, 2, 0), (6, 3, 0), (5, 4, 0), (7, 1, 1), (6, 2, 1), (5, 3, 1), (4, 4, 1), (5, 2, 2), (4, 3, 2), (3, 3, 3)],
           [E, N, B, [-2, 0], [-1, 1], E, N if q else B, [-1, 0, 2], [-1, 1]], False),
          ('sextic-symmetric-real', 's', M6s, [E, D, B, N if q else C2, [-2, 2] if q else C2, B if q else C2], True),
          ('sextic-cyclic-real', 'c', M6, [[1, 2], N if q else C2, E if q else [0, 1, 2], B, N if q else C, B2], True),
          ('octic-symmetric-real', 's', [(6, 2, 0), (5, 3, 0), (4, 4, 0), (6, 1, 1), (5, 2, 1), (4, 3, 1), (4, 2, 2), (3, 3, 2)],
           [[1], D, B, C, B, B, B2], True)]
    for name, how, ms, al, real in hi:
        fams.append(Family(name, enum_cases(name, how, ms, al, [0] if q else [0, 3], tier, keep_neg=997 if q else 97), make_enum(name, how, ms, real=real),
                           timeout=20, chunk=8, share=2, bound='small coefficients, value %s at (1,1,1)%s' % ('0' if q else '0 or 3', ', real' if real else '')))
    p2, m2, q2 = (0, 1), (0, -1), (1, -1)
    irr = [('cubic', 'c', M3, [[1, p2], [-2, m2, q2, 0, 1, p2], [-2, m2, q2, 0, 1, p2]], False),
           ('quartic', 'c', M4, [[1, p2], [m2, -1, q2, 0, 1], [-1, q2, 0, 1, p2], [m2, -1, 0, q2, p2]], False),
           ('quartic-real', 's', [(4, 0, 0), (3, 1, 0), (2, 2, 0), (2, 1, 1)], [[1, p2], [(-2, 0), m2, -1, q2, 0, 1, p2], [-1, q2, 0, 1, p2, (0, 2)]], True),
           ('quintic', 's', M5s, [[0, 1, p2], [m2, -1, q2, 0, 1], [m2, -1, 0, 1, p2], [(0, -2), -1, 0, p2]], False),
           ('quintic-cyclic', 'c', M5, [[0], [1, p2], [q2, 0, 1], [m2, 0, p2], [0, 1, p2], [-1, m2, 0]], False),
           ('sextic', 's', M6s, [[0, 1, p2], [-1, q2, 0], [0, p2], [m2, 0, 1], [-1, m2, 0], [q2, 0, 1]], False),
           ('4cubic', 's', [(3, 0, 0, 0), (2, 1, 0, 0), (1, 1, 1, 0)], [[1, p2, 2, (0, 2)], [m2, -1, q2, 0, 1, p2, (1, -2)]], False)]
    if not q:
        V = [(-1, -1), (0, -2), (-2, 0), m2, (-1, 0), q2, (0, 0), (-1, 1), (1, 0), p2, (2, 0), (1, 1)]
        irr += [('cubic-wide', 'c', M3, [[1, p2, (1, 1)], V, V], False), ('quartic-wide', 'c', M4, [[1, p2], V, V, V], False),
                ('quintic-wide', 's', M5s, [[0, 1, p2], V, V[1:-1], V], False), ('sextic-wide', 's', M6s, [[0, 1], V[3:8], V[3:], V[::2], V[1::2], V[2::3]], False),
                ('sextic-cyclic-real', 'c', M6, [[1, p2], V[3:7], [0, 1, p2], V[3:9], V[3:7], V[3:9]], True)]
    for name, how, ms, al, real in irr:
        fams.append(Family('irrational-' + name, enum_irrational(how, ms, al, keep_neg=97 if q else 11), run_irrational(how, ms, 'abcd'[:len(ms[0])], real), timeout=20,
                           chunk=4, share=2, bound='coefficients in Q(sqrt(2)), value 0 at (1,...,1)'))
    M4v3 = [(3, 0, 0, 0), (2, 1, 0, 0), (1, 1, 1, 0)]
    fams.append(Family('4var-cubic-symmetric', enum_cases('4cubic', 's', M4v3, [[0, 1, 2, 3], r(-3, 4)], [0, 1, 4], tier),
                       make_enum('4cubic', 's', M4v3, gens='abcd'), timeout=20, chunk=4, share=0.5, bound='all small'))
    M4v4 = [(4, 0, 0, 0), (3, 1, 0, 0), (2, 2, 0, 0), (2, 1, 1, 0), (1, 1, 1, 1)]
    al = [[0, 1, 2], r(-2, 3), r(-2, 4), r(-2, 3)] if q else [[0, 1, 2, 3], r(-3, 4), r(-3, 5), r(-3, 4)]
    fams.append(Family('4var-quartic-symmetric', enum_cases('4quartic', 's', M4v4, al, [0, 1], tier), make_enum('4quartic', 's', M4v4, gens='abcd'),
                       timeout=20, chunk=4, share=5, bound='small coefficients'))
    M4c4 = [(4, 0, 0, 0), (3, 1, 0, 0), (3, 0, 1, 0), (2, 2, 0, 0), (2, 0, 2, 0), (1, 1, 1, 1)]
    al = [[1], [-1, 0, 1], [-1, 0, 1], [-1, 0, 1], [-1, 0, 1]]
    fams.append(Family('4var-quartic-cyclic', enum_cases('4quartic', 'c', M4c4, al, [0, 1], tier), make_enum('4quartic', 'c', M4c4, gens='abcd', real=True),
                       timeout=20, chunk=4, share=0.5, bound='small coefficients, real'))
    sq = square_cases(tier)
    for name, last, what in (('squares', 'cs2', 'nonnegative variables'), ('squares-real', 'r', 'real variables'), ('squares-acute', 'a', 'acute triangles')):
        s = [x for x in sq if x[0][-1] in last and not (q and x == ['sa', '1', [[[1, 0, 1, 0, 0, 0], 'a-sqrt(2)*b+(sqrt(2)-1)*c']]])]
        fams.append(Family(name, s, run_square, timeout=20, chunk=4, share=3,
                           bound='%s; (cyclic, symmetric, two-symmetric) sums of weighted squares in 3 to 5 variables: %d combinations of weight, form, factor' % (what, len(s))))
    for name, s, fn, what in (('sparse', sparse_cases(tier), run_sparse, 'two or three classes of monomials'),
                              ('schur-like', schur_cases(tier), run_schur, 'generalised Schur sums, products of alternating sums, sums of two'),
                              ('4var-cubic-partial', partial_cases(tier), run_partial, 'cubics symmetric in three of four variables')):
        fams.append(Family(name, s, fn, timeout=20, chunk=4, share=2, bound='%s: %d' % (what, len(s))))
    ac = acute_cubics(tier)
    fams.append(Family('acute-cubic', ac, run_acute_cubic, timeout=20, chunk=4, share=1, bound='%d symmetric cubics, grid of (x, y) and the borders' % len(ac)))
    fams.append(Family('acyclic-cubic', acyclic_cases(tier), run_acyclic, timeout=20, chunk=16, share=1, bound='<=3 monomials, coefficients in {-3,-2,1,2}'))
    return fams
