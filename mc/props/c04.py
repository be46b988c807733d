"""C04: the symmetric-substitution prover is exact and its substitution is an identity."""
import itertools
from fractions import Fraction as F

import mpmath
import sympy as sp

from ..core import Family
from .. import oracle as O
from .. import cert
from .c25 import orbits

TITLE = 'symmetric substitution is an identity and its certificates are exact'
BUDGET = {'quick': 120, 'thorough': 1200}
mpmath.mp.dps = O.MPDPS
NAMES3 = ['a b c', 'x y z', 'c a b', 's t u']


def sympoly(spec, gens):
    """spec: [[degree, orbit index, coefficient]]"""
    n = len(gens)
    d = {}
    for deg, i, c in spec:
        for m in orbits(n, deg, False)[i]:
            d[m] = d.get(m, 0) + sp.Rational(c)
    return sp.Poly(d, *gens) if d else sp.Poly(0, *gens)


def coords3(pt, method):
    a, b, c = pt
    if method == 'real':
        return [a**3 + b**3 + c**3 - 3*a*b*c, (2*a - b - c)*(2*b - c - a)*(2*c - a - b)/2, F(27, 4)*(a - b)**2*(b - c)**2*(c - a)**2]
    return [a*(a - b)*(a - c) + b*(b - c)*(b - a) + c*(c - a)*(c - b), a*(b - c)**2 + b*(c - a)**2 + c*(a - b)**2, (a - b)**2*(b - c)**2*(c - a)**2*(a + b + c)**3/(a*b*c)]


def coords4(pt):
    a, b, c, d = pt

    def S(f):
        return sum((f(*q) for q in itertools.permutations(pt)), F(0))
    D = (a-b)**2*(b-c)**2*(c-d)**2*(d-a)**2*(a-c)**2*(b-d)**2
    R = (a+b-c-d)*(a+c-b-d)*(a+d-b-c)
    y0 = S(lambda a, b, c, d: (a-b)**2*(b-c)**2*(c-a)**2)
    s2 = S(lambda a, b, c, d: (a-b)**2)
    x = S(lambda a, b, c, d: a)*y0*s2/(144*R)
    y = y0/6
    z = S(lambda a, b, c, d: (a-b)**2*(c-d)**4)/2 - y
    w = D*s2**3/(4*R**2)
    return [x, y, z, w]


PTS3 = [(F(3, 7), F(5, 3), F(11, 2)), (F(2), F(1, 3), F(7, 5)), (F(-4), F(9, 2), F(1, 6)), (F(1, 3), F(3), F(-8, 3)), (F(7), F(2), F(5))]
PTS4 = [(F(3), F(1, 2), F(7), F(-2)), (F(1), F(4), F(9, 2), F(1, 3)), (F(-5), F(2, 3), F(6), F(11))]


def run_rep(ctx, case):
    n, spec, method, ni = case
    gens = sp.symbols(NAMES3[ni]) if n == 3 else sp.symbols('a b c d')
    P = sympoly(spec, gens)
    new = sp.symbols('X Y Z') if n == 3 else sp.symbols('X Y Z W')
    if ni == 2:
        new = tuple(sp.Dummy('s') for _ in gens)
    from triples.core.symsos import sym_representation, sym_representation_inv
    ctx.step(4)
    num, den = sym_representation(P, new, return_poly=True, method=method)
    full = sym_representation(P, new, return_poly=False, method=method)
    back = sym_representation_inv(sp.sympify(full), gens, new, method=method)
    back2 = sym_representation_inv(num.as_expr() / den, gens, new, method=method)
    ctx.require(isinstance(num, sp.Poly) and num.gens == tuple(new), lambda: 'numerator %s is not a polynomial in the new symbols' % (num,))
    done = 0
    for pt in (PTS3 if n == 3 else PTS4):
        env = dict(zip(gens, pt))
        want = O.ev(P.as_expr(), env)
        cs = coords3(pt, method) if n == 3 else coords4(pt)
        env2 = dict(env)
        env2.update(zip(new, cs))
        try:
            v1 = O.ev(num.as_expr(), env2)
            v2 = O.ev(sp.sympify(den), env2)
            v3 = O.ev(sp.sympify(full), env2)
            v4 = O.ev(back, env)
            v5 = O.ev(back2, env)
        except O.Undefined:
            continue
        lab = '%s (%s) at %s' % (P.as_expr(), method, pt)
        ctx.require(O.close(O._mixed(lambda x, y: x * y, want, v2), v1), lambda: '%s: numerator %s / denominator %s, polynomial is %s' % (lab, v1, v2, want))
        ctx.require(O.close(v3, want), lambda: '%s: representation is %s, polynomial is %s' % (lab, v3, want))
        ctx.require(O.close(v4, want) and O.close(v5, want), lambda: '%s: restored %s / %s, polynomial is %s' % (lab, v4, v5, want))
        done += 1
    ctx.require(done >= 1, 'representation undefined everywhere')
    ctx.state((str(num), str(den)))


def cases_rep(tier):
    q = tier == 'quick'
    out = []
    for d in range(0, 9 if q else 11):
        k = len(orbits(3, d, False))
        specs = [[[d, i, '1']] for i in range(k)]
        for i, j in itertools.combinations(range(k), 2):
            for c in (['-1', '2'] if d < 7 else ['-1']):
                specs.append([[d, i, '1'], [d, j, c]])
        if d <= 5:
            specs += [[[d, i, str(c[i])] for i in range(k) if c[i]] for c in itertools.product([-1, 0, 1] if q else [-2, -1, 0, 1, 3], repeat=k)]
        # the polynomials that vanish at equality, to several orders: subtract the value at (1, 1, 1)
        for i in range(k - 1):
            r = F(len(orbits(3, d, False)[i]), len(orbits(3, d, False)[-1]))
            specs.append([[d, i, '1'], [d, k - 1, str(-r)]])
        for s in specs:
            for m in ('real', 'positive'):
                out.append([3, s, m, (d + len(out)) % 4])
    for d in range(0, 5 if q else 7):
        k = len(orbits(4, d, False))
        specs = [[[d, i, '1']] for i in range(k)]
        specs += [[[d, i, '1'], [d, j, '-1']] for i, j in itertools.combinations(range(k), 2)]
        for s in specs:
            out.append([4, s, 'real', 0])
    return out


def cons(kind, gens):
    a, b, c = gens
    G = sp.Function('G')
    return {
        'real': [], 'pos': [a, b, c], 'alias': {a: sp.Symbol('A'), b: sp.Symbol('B'), c: sp.Symbol('C')}, 'fun': {g: G(g) for g in gens},
        'two': [a, b], 'scaled': {2*a: sp.Symbol('A'), b: sp.Symbol('B'), 3*c: sp.Symbol('C')}, 'cubes': {a**3: sp.Symbol('A'), b: sp.Symbol('B'), c: sp.Symbol('C')},
        'neg': [-a, -b, -c], 'both': {a: sp.Symbol('A'), a**3: sp.Symbol('U'), b: sp.Symbol('B'), c: sp.Symbol('C'), a*b: sp.Symbol('V')},
        'mixed': [a, b, -c], 'sum': {a + b + c: sp.Symbol('A')}, 'elem': {a + b + c: sp.Symbol('A'), a*b + b*c + c*a: sp.Symbol('B'), a*b*c: sp.Symbol('C')},
    }[kind]


def run_sos(ctx, case):
    spec, kind, ni = case
    gens = sp.symbols(NAMES3[ni])
    P = sympoly(spec, gens) if spec and not isinstance(spec, str) else sp.Poly(sp.sympify(spec, locals={'a': gens[0], 'b': gens[1], 'c': gens[2]}), *gens)
    if P.is_zero:
        ctx.trivial()
        return
    from triples.core import SymmetricSOS
    ineq = cons(kind, gens)
    vals = [F(0), F(1), F(-1), F(2), F(-3), F(1, 3), F(5)]
    pts = list(itertools.product(vals, repeat=3))
    order = sorted(gens, key=lambda s: s.name)     # Certificate sorts its symbols by name
    feas = []
    for p in pts:
        env = dict(zip(order, p))
        if all(O.ev(g, env) >= 0 for g in (ineq if isinstance(ineq, list) else list(ineq))):
            feas.append(p)
    neg = cert.fast_negative(sp.Poly(P.as_expr(), *order), feas)
    cert.check(ctx, lambda: SymmetricSOS(P, ineq), P.as_expr(), ineq, [], feas, must_none=neg, label='%s under %s' % (P.as_expr(), kind))


KINDS = ['pos', 'real', 'alias', 'fun', 'two', 'scaled', 'cubes', 'neg', 'both', 'mixed', 'sum', 'elem']
EXTRA = ['(a-b)**2*(b-c)**2*(c-a)**2', 'a**3+b**3+c**3-3*a*b*c', '(a+b+c)*(a*b+b*c+c*a)-9*a*b*c', 'a**4*(a-b)*(a-c)+b**4*(b-c)*(b-a)+c**4*(c-a)*(c-b)',
         'a**2*(a-b)*(a-c)+b**2*(b-c)*(b-a)+c**2*(c-a)*(c-b)', 'a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', '(a**2+b**2+c**2-a*b-b*c-c*a)**2', '(a**2+b**2+c**2-a*b-b*c-c*a)**3',
         '(a+b+c)**3-27*a*b*c', '(a*b+b*c+c*a)**3-27*a**2*b**2*c**2', 'a**3*(a-b)*(a-c)+b**3*(b-c)*(b-a)+c**3*(c-a)*(c-b)', 'a*b*c*(a**3+b**3+c**3-3*a*b*c)', 'a*b*c', '(a*b*c)**2', 'a+b+c', '1', '0*a+5',
         '(a+b)*(b+c)*(c+a)-8*a*b*c', '(a+b-2*c)**2*(b+c-2*a)**2*(c+a-2*b)**2', '(b+c-a)**2*(c+a-b)**2*(a+b-c)**2', 'a**2*b**2*(a-b)**2+b**2*c**2*(b-c)**2+c**2*a**2*(c-a)**2', '(a-b)**2*(a+b-c)**2+(b-c)**2*(b+c-a)**2+(c-a)**2*(c+a-b)**2',
         'a**6+b**6+c**6-3*a**2*b**2*c**2', 'a**5+b**5+c**5-a*b*c*(a*b+b*c+c*a)', 'a**2+b**2+c**2+1', 'a**2+b**2+c**2-a-b-c+1', 'a**3+b**3+c**3-3*a*b*c+a*b*c', 'a**2*b+b**2*c+c**2*a-3*a*b*c', '(a+b+c)*(a**2+b**2+c**2-a*b-b*c-c*a)*(a*b+b*c+c*a)', '4*(a**2+b**2+c**2-a*b-b*c-c*a)**3-27*(a-b)**2*(b-c)**2*(c-a)**2',
         '8*(a**6+b**6+c**6)+16*a**2*b**2*c**2+5*(a**4*(b**2+c**2)+b**4*(c**2+a**2)+c**4*(a**2+b**2))-16*(a*b*c)*(a*b*(a+b)+b*c*(b+c)+c*a*(c+a))', '(a**2+b**2+c**2)*(a+b+c)-9*a*b*c', '-(a-b)**2*(b-c)**2*(c-a)**2', '(a-b)**2*(b-c)**2*(c-a)**2*(a+b+c)', '-a*b*c', 'a**3+b**3+c**3+6*a*b*c-(a+b)*(b+c)*(c+a)']


def cases_sos(tier):
    q = tier == 'quick'
    out = [[e, k, i % 4] for i, e in enumerate(EXTRA) for k in KINDS]
    grids = {1: [-1, 0, 2], 2: [-2, -1, 0, 1, 2], 3: [-3, -2, -1, 0, 1, 2], 4: [-2, -1, 0, 1] if q else [-2, -1, 0, 1, 2], 5: [-1, 0, 1] if q else [-2, -1, 0, 1]}
    for d, al in grids.items():
        k = len(orbits(3, d, False))
        for c in itertools.product(al, repeat=k):
            s = [[d, i, str(c[i])] for i in range(k) if c[i]]
            if not s:
                continue
            for kind in (['pos', 'real'] if d > 3 else ['pos', 'real', 'two', 'scaled', 'elem']):
                if kind == 'real' and d % 2:
                    continue
                out.append([s, kind, (d + len(out)) % 4])
    # degree 6 and 7: all combinations of nonnegative building blocks and their negatives
    six = ['(a-b)**2*(b-c)**2*(c-a)**2', '(a**3+b**3+c**3-3*a*b*c)**2', '(a+b-2*c)*(b+c-2*a)*(c+a-2*b)*(a**3+b**3+c**3-3*a*b*c)', '(a**2+b**2+c**2-a*b-b*c-c*a)**3', 'a**2*b**2*c**2', 'a*b*c*(a**3+b**3+c**3-3*a*b*c)', '(a*b+b*c+c*a)**3-27*a**2*b**2*c**2']
    for c in itertools.product([0, 1, -1], repeat=len(six)):
        nz = sum(map(abs, c))
        if not nz or nz > (3 if q else 5):
            continue
        e = '+'.join('(%d)*%s' % (x, t) for x, t in zip(c, six) if x)
        for kind in ('pos', 'real'):
            out.append([e, kind, 0])
    return out


def families(tier):
    return [
        Family('representation', cases_rep(tier), run_rep, chunk=6, timeout=60, share=1.5, bound='symmetric ternary polynomials to degree 8, quaternary to degree 4, all small combinations x both substitutions'),
        Family('certificates', cases_sos(tier), run_sos, chunk=6, timeout=60, share=2, bound='symmetric polynomials of degree <= 6 over small coefficients x 12 constraint notations'),
    ]
