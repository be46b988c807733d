"""C10: solution transformations preserve the proved value; claims of equality are true."""
import itertools
import warnings
from fractions import Fraction as F

import mpmath
import sympy as sp

from ..core import Family
from .. import oracle as O
from .c09 import SUB, perm_group
from .c12 import build, TERMS
from .c11 import group

TITLE = 'solution transformations preserve the proved value'
BUDGET = {'quick': 150, 'thorough': 1500}
HANG = True    # cases take a second at most: one that never ends is reported
mpmath.mp.dps = O.MPDPS

G3 = sp.symbols('a b c')
POINTS = [[F(3, 7), F(5, 3), F(11, 2)], [F(2), F(1, 3), F(7, 5)], [F(13, 4), F(9, 2), F(1, 6)]]
SIGNS = [p for p in itertools.product([F(0), F(1), F(2), F(1, 3)], repeat=3) if any(p)]

OPS = ['signsimp', 'doit', 'shallow', 'collect_a', 'collect_S', 'swap', 'cycle', 'rw_cyc', 'rw_sym', 'rw_triv', 'rw_swap', 'simple', 'copy', 'frac', 'frac0', 'dehom', 'eq', 'eq0', 'eqn']
NOSIGN = {'collect_a', 'collect_S'}

STARTS = ['S(a)', 'S(a*(b-c)**2)', 'P(a+b)', 'P(a-b)**2', 'S(a)*S(a*b)', 'a*S(a*b**2)', 'S(a**2+2*b*c)', 'P(a)*S(a**2)', 'S(a/(b+c))', 'S(a*P(a+1))', 'P(a*S(a)+b)', '(a-b)**2', 'S(a*sqrt(b))',
          '(a+b)*P(a+2*b)', 'P(a)**2*S(a)**3', 'S(a*(b-c)**2)/S(a)', '(S(a**2)+2*P(a))/(2*S(a*b))', 'S((a-b)**2)/2+3*a*b', 'S(a**2/(b+2*c))/P(a+b)', '(2*S(a*b)+a*(b-c)**2/3)/(a+S(a))',
          'sqrt(2)*S(a*b)/(3*S(a)**2)', '(a*(b-c)**2+b*(c-a)**2)/(a+b)+c/(b+1)', 'S(S(a*b)*a)', '-(-S(a)-1)*(a+1)/(-a-2)/(-3)', '(S(a)-S(a*b)/(1+S(a*b)/S(a)))', 'S((a-b)**2*S(a**2*b))/(2*P(a+b)*S(a))', '7', 'a*0']
GROUPS = ['cyc', 'sym', 'swap']


def group3(name):
    return group(name, 3)


def add(x, y):
    return O._mixed(lambda p, q: p + q, x, y)


def mul(x, y):
    return O._mixed(lambda p, q: p * q, x, y)


def same_value(ctx, label, got, want, points=None):
    """got (expression) has the values of the tracked function at the generic points"""
    n = 0
    for pt in points or POINTS:
        env = dict(zip(G3, pt))
        try:
            w = want(env)
        except O.Undefined:
            continue
        try:
            v = O.ev(got, env)
        except O.Undefined:
            ctx.fail('%s: %s is undefined at %s where the value is %s' % (label, O._s(got), pt, O._s(w)))
            return False
        n += 1
        if not O.close(v, w):
            ctx.fail('%s: %s is %s at %s, expected %s' % (label, O._s(got), O._s(v), [str(x) for x in pt], O._s(w)))
            return False
    ctx.valid(n)
    return True


def apply(ctx, label, sol, op, track):
    """(new solution, tracked value) or None when the operation does not apply"""
    a, b, c = G3
    if op == 'signsimp':
        return sol.signsimp(), track
    if op == 'doit':
        return sol.doit(), track
    if op == 'shallow':
        return sol.doit(deep=False), track
    if op == 'collect_a':
        return sol.collect(a), track
    if op == 'collect_S':
        return sol.collect(build('S(a)', 'abc', None)), track
    if op in ('swap', 'cycle'):
        rule = {a: b, b: a} if op == 'swap' else {a: b, b: c, c: a}
        return sol.xreplace(rule), (lambda env: track({**env, **{k: env[v] for k, v in rule.items()}}))
    if op.startswith('rw_'):
        n = {'cyc': 'cyc', 'sym': 'sym', 'triv': 'triv', 'swap': 'swap'}[op[3:]]
        from sympy.combinatorics import Permutation, PermutationGroup
        perm = {'cyc': PermutationGroup(Permutation([1, 2, 0])), 'sym': PermutationGroup(Permutation([1, 2, 0]), Permutation([1, 0, 2])),
                'triv': PermutationGroup(Permutation([0, 1, 2])), 'swap': PermutationGroup(Permutation([1, 0, 2]))}[n]
        return sol.rewrite_symmetry(G3, perm), track
    if op == 'simple':
        return sol.as_simple_solution(), track
    if op == 'copy':
        return sol.copy(), track
    if op in ('frac', 'frac0'):
        num, den = sol.as_fraction(together=op == 'frac')
        same_value(ctx, label + ' numerator/multiplier', sp.Mul(num, sp.Pow(den, -1, evaluate=False), evaluate=False), track)
        if op == 'frac':
            # denested: neither part has a denominator outside cyclic expressions
            for part in (num, den):
                for e in sp.preorder_traversal(part):
                    if e.is_Pow and e.exp.is_Rational and e.exp < 0 and not e.is_number and not inside_cyclic(part, e):
                        ctx.fail('%s: the part %s of the fraction has a denominator' % (label, O._s(part)))
        s2 = sol.copy()
        s2.as_fraction(together=op == 'frac', inplace=True)
        return s2, track
    if op == 'dehom':
        return sol.dehomogenize(c), (lambda env: track({**env, c: F(1)}))
    if op in ('eq', 'eq0', 'eqn'):
        eq = sol.as_eq(together=op != 'eq0', cancel=op != 'eqn')
        lhs = sol.problem.as_expr()
        for pt in POINTS:
            env = dict(zip(G3, pt))
            try:
                l, r = O.ev(eq.lhs, env), O.ev(eq.rhs, env)
                p, v = O.ev(lhs, env), track(env)
            except O.Undefined:
                continue
            # lhs = problem * denominator, rhs = numerator: the same factor on both sides
            ctx.require(O.close(mul(l, v), mul(r, p)), '%s: as_eq of a solution with value %s for a problem with value %s is %s = %s' % (label, O._s(v), O._s(p), O._s(l), O._s(r)))
        return sol, track
    raise KeyError(op)


def inside_cyclic(root, e):
    return any(O.is_cyc(x) and x.has(e) for x in sp.preorder_traversal(root))


def nonneg(ctx, label, e, c1):
    """every summand of the expression is nonnegative on the orthant"""
    terms = O.summands(e)
    for pt in SIGNS:
        env = dict(zip(G3, pt))
        if c1:
            env[G3[2]] = F(1)
        for t in terms:
            try:
                v = F(1)
                for f in t:
                    v = mul(v, O.ev(f, env))
            except O.Undefined:
                continue
            if O.negative(v):
                return 'summand %s is %s at %s' % (O._s(sp.Mul(*t, evaluate=False)), O._s(v), [str(x) for x in pt])
    return None


def run_ops(ctx, case):
    from triples.utils.expression.solution import SolutionSimple
    txt, gname, ops = case
    perm, perms = group3(gname)
    value = build(txt, 'abc', perm)
    sol = SolutionSimple(problem=value, solution=value, is_equal=True)
    track = lambda env: O.ev(value, env)
    label = '%s over %s' % (txt, gname)
    signed = nonneg(ctx, label, value, False) is None
    c1 = False
    for op in ops:
        before = sp.srepr(sol.solution), sp.srepr(sol.problem)
        label += '.' + op
        old = sol
        sol, track2 = apply(ctx, label, sol, op, track)
        ctx.step()
        ctx.require((sp.srepr(old.solution), sp.srepr(old.problem)) == before, '%s: the operation changed the solution it was called on' % label)
        track = track2
        if op in NOSIGN:
            signed = False
        if op == 'dehom':
            c1 = True
        if not same_value(ctx, label, sol.solution, track):
            return
    ctx.state(sp.srepr(sol.solution)[:1500])
    if signed:
        msg = nonneg(ctx, label, sol.solution, c1)
        ctx.outcome('signed')
        if msg:
            ctx.fail('%s: the summands were nonnegative before; now %s (in %s)' % (label, msg, O._s(sol.solution)))


def cases_ops(tier):
    out = []
    D = 2 if tier == 'quick' else 3
    for d in range(1, D + 1):
        for ops in itertools.product(OPS, repeat=d):
            if d > 1 and any(ops[i] == ops[i + 1] for i in range(d - 1)):
                continue
            if ops.count('dehom') > 1 or any(o in ('swap', 'cycle', 'rw_cyc', 'rw_sym') for o in ops[ops.index('dehom'):]) if 'dehom' in ops else False:
                continue
            for i, t in enumerate(STARTS):
                if d == 3 and i % 4:
                    continue
                for g in GROUPS:
                    if (d > 1 and g != GROUPS[i % 3]):
                        continue
                    out.append([t, g, list(ops)])
    return out


# ------------------------------------------------------------------ dehomogenization of whole certificates

def run_dehom(ctx, case):
    """cyclic expressions over symbols including the homogenizer"""
    from triples.utils.expression.solution import SolutionSimple
    from triples.utils.expression.cyclic import CyclicSum, CyclicProduct
    body, kind, gi, hidx, nested = case
    syms = sp.symbols('a b t')
    order = {0: (0, 1, 2), 1: (0, 2, 1), 2: (2, 0, 1)}[hidx]
    gens = [syms[i] for i in order]
    a, b, t = syms
    e = sp.sympify(body, locals=dict(a=a, b=b, t=t))
    cls = CyclicSum if kind == 'S' else CyclicProduct
    obj = cls(e, tuple(gens), perm_group(SUB[3][gi], 3))
    if nested:
        obj = a * obj + CyclicSum(obj * a, (a, b)) + t**2
    problem = sp.Poly(a**2 + b * t, a, b, t)
    sol = SolutionSimple(problem=problem, solution=obj)
    got = sol.dehomogenize(t)
    ctx.step()
    if t in got.solution.free_symbols:
        ctx.fail('%s without %s still contains it: %s' % (obj, t, got.solution))
    ctx.require(sp.expand(got.problem.as_expr() - (a**2 + b)) == 0, 'problem %s after t=1' % got.problem)
    for pt in POINTS:
        env = {a: pt[0], b: pt[1], t: F(1)}
        try:
            w = O.ev(obj, env)
            v = O.ev(got.solution, {a: pt[0], b: pt[1]})
        except O.Undefined:
            continue
        ctx.valid()
        ctx.require(O.close(v, w), '%s at t=1 became %s: %s instead of %s at %s' % (obj, got.solution, O._s(v), O._s(w), [str(x) for x in pt[:2]]))
    ctx.state(sp.srepr(got.solution)[:500])


def cases_dehom(tier):
    return [[b, k, gi, h, n] for b in ['a', 'a**2*b', 'a*b+t', '(a-b)**2*t', 'a+2*b', 'a*t', '(a-t)**2', 'a*b*t+1', 'a/(b+t)', '2', 'b', 't**2*a+b']
            for k in 'SP' for gi in range(len(SUB[3])) for h in (0, 1, 2) for n in (0, 1)]


# ------------------------------------------------------------------ the claim that both sides are equal

EQ_PROBLEMS = ['a**2+b**2+c**2-a*b-b*c-c*a', 'a**3+b**3+c**3-3*a*b*c', 'a*b+1', 'sqrt(2)*a**2+b', '0', '7', 'a**4-2*a**2*b**2+b**4', 'a/3+b/7', 'a', 'c**2-2*c+1', '(a+b)/2+c**2*sqrt(3)']
DENOMS = ['1', 'S(a)', 'a+b', '2*S(a)*P(a+b)', '1+a**2', '3', 'sqrt(2)+a']
PERTURB = ['0', '1', 'a', 'a**2/10**9', 'S(a*b)', 'P(a-b)', 'sqrt(3)*b', '(a-a)*b', 'a*(b+c)-a*b-a*c', 'S(a)-a-b-c', 'S(a*b)/3-(a*b+b*c+c*a)/3', 'c-b']


def run_equal(ctx, case):
    from triples.utils.expression.solution import SolutionSimple, Solution
    text, den, per, form, flag = case
    a, b, c = G3
    e = sp.sympify(text, locals=dict(a=a, b=b, c=c))
    perm = group3('cyc')[0]
    D = build(den, 'abc', perm)
    E = build(per.replace('10**9', '1000000000'), 'abc', perm)
    # a certificate-like expression whose true difference from the problem is E / D
    expr = (sp.expand(e * D.doit()) + E) / D
    problem = {'poly': lambda: sp.Poly(e, a, b, c, extension=True), 'expr': lambda: e, 'polymin': lambda: sp.Poly(e, *(sorted(e.free_symbols, key=str) or [a]), extension=True), 'unexp': lambda: sp.factor(e)}[form]()
    truth = sp.simplify(sp.expand(E.doit())) == 0
    sol = SolutionSimple(problem=problem, solution=expr)
    ctx.step()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = sol.is_equal
        again = sol.is_equal
    ctx.outcome(str(bool(got)))
    ctx.valid()
    ctx.require(bool(got) == truth and again == got, 'problem %s, solution %s: is_equal is %s, the two sides are %s' % (problem, O._s(expr), got, 'equal' if truth else 'not equal'))
    if flag:
        # the printed sign is the claim
        for name in ('str_txt', 'str_formatted', 'str_latex'):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s = getattr(sol, name)
            approx = '≈' in s or '\\approx' in s
            ctx.require(approx != truth, '%s of %s for the problem %s is %r, the two sides are %s' % (name, O._s(expr), problem, s, 'equal' if truth else 'not equal'))
        ill = sol.is_ill
        ctx.require(not ill or sp.S(expr) == 0 and not (problem.is_zero if isinstance(problem, sp.Poly) else problem == 0), '%s of %s is called ill' % (expr, problem))
    ctx.state((str(problem), str(expr)[:500]))


def cases_equal(tier):
    return [[t, d, p, f, int(f == 'poly')] for t in EQ_PROBLEMS for d in DENOMS for p in PERTURB for f in ('poly', 'expr', 'polymin', 'unexp')]


# ------------------------------------------------------------------ collecting terms of a linear combination

def tangent_pool():
    a, b, c = G3
    G, H = sp.Function('_G0'), sp.Function('_H0')
    x, y = sp.symbols('gx hx')
    return [
        ('1', sp.S.One, None), ('sq', (a - b)**2, None), ('sq2', (a - 2*b + c)**2, None), ('G(a)', G(a), a), ('G(a)G(b)', G(a) * G(b), a * b), ('G(a)(a-b)2', G(a) * (a - b)**2, a * (a - b)**2),
        ('G(b)(a-b)2', G(b) * (a - b)**2, b * (a - b)**2), ('H', H(a, b, c), a + b + c - 3), ('aH', -2 * H(a, b, c), -2 * (a + b + c - 3)), ('H2', H(a, b, c)**2, (a + b + c - 3)**2), ('2sq', 2 * (a + b - c)**2, None),
        ('GGsq', G(a) * G(b) * (a - b)**2 / 3, a * b * (a - b)**2 / 3), ('sqsq', (a - b)**2 * (a + b - c)**2, None), ('-sq', -(b - c)**2, None),
    ]


MULT = ['1', 'a', 'a*b', 'a**2+1', '2*a/3', '4']


def run_linear(ctx, case):
    from triples.utils.monomials import MonomialManager
    try:
        from triples.core.linsos.solution import SolutionLinear
        from triples.core.linsos.basis import LinearBasisTangent
        from triples.core.linsos.updegree import LinearBasisMultiplier
    except ImportError:
        ctx.trivial()
        return
    items, mults, gi, collect = case
    a, b, c = G3
    pool = tangent_pool()
    perm = perm_group(SUB[3][gi], 3)
    els = O.group_closure(SUB[3][gi], 3)
    Gf, Hf = sp.Function('_G0'), sp.Function('_H0')
    problem = sp.Poly(a**2 + b * c, a, b, c)
    ineq = {sp.Poly(s, *G3): Gf(s) for s in G3}
    eq = {sp.Poly(a + b + c - 3, *G3): Hf(*G3)}
    y, basis = [], []
    val = sp.S.Zero
    positive = True
    for ti, powers, co in items:
        name, tan, plain = pool[ti]
        if plain is None:
            basis.append(LinearBasisTangent(tuple(powers), tan, G3))
        else:
            from triples.core.linsos.basis import _callable_expr
            basis.append(LinearBasisTangent.from_callable_expr(tuple(powers), _callable_expr.from_expr(tan, G3, sp.Poly(plain, *G3))))
        y.append(sp.Rational(co))
        val += sp.Rational(co) * sp.Mul(*[s**p for s, p in zip(G3, powers)]) * (plain if plain is not None else tan)
        positive &= sp.Rational(co) > 0 and name not in ('-sq',)
    den = sp.S.Zero
    for mi, co in mults:
        m = sp.sympify(MULT[mi], locals=dict(a=a, b=b, c=c))
        basis.append(LinearBasisMultiplier.from_expr(problem, m, sp.Poly(m, *G3)) if hasattr(LinearBasisMultiplier, 'from_expr') else None)
        y.append(sp.Rational(co))
        den += sp.Rational(co) * m

    def symsum(e, env):
        t = F(0)
        for p in els:
            e2 = {G3[i]: env[G3[p[i]]] for i in range(3)}
            t = add(t, O.ev(e, e2))
        return t
    by = [str(v) for v in y]
    sol = SolutionLinear._from_y_basis(problem, list(y), list(basis), MonomialManager(3, perm), ineq_constraints=dict(ineq), eq_constraints=dict(eq), collect=collect)
    ctx.step()
    ctx.require([str(v) for v in y] == by, 'coefficients changed')
    cert = O.Certificate(sp.Poly(1, *G3), {}, {}, sol.solution)
    cert.alias_fun = {Gf(a): a, Hf(a, b, c): a + b + c - 3}
    label = 'LinearSOS solution of %s over multipliers %s, group %s, collect=%s' % ([(str(pool[t][1]), p, k) for t, p, k in items], [(MULT[m], k) for m, k in mults], SUB[3][gi], collect)
    for pt in POINTS:
        env = dict(zip(G3, pt))
        w = symsum(val, env) / symsum(den, env)
        v = O.ev(sol.solution, env, cert.extra(env))
        ctx.valid()
        if not O.close(v, w):
            ctx.fail('%s is %s: value %s at %s, expected %s' % (label, O._s(sol.solution), O._s(v), [str(x) for x in pt], O._s(w)))
            break
    if positive:
        terms = O.summands(sol.solution)
        for pt in SIGNS[::3] + [(F(3), F(0), F(0)), (F(1), F(1), F(1)), (F(1, 2), F(2), F(1, 2)), (F(3, 2), F(3, 2), F(0)), (F(0), F(1), F(2))]:
            env = dict(zip(G3, pt))
            if any(n in ('H', 'aH') for n in (pool[t][0] for t, _, _ in items)) and sum(pt) != 3:
                continue
            f = cert.extra(env)
            for t in terms:
                try:
                    v = F(1)
                    for fac in t:
                        v = mul(v, O.ev(fac, env, f))
                except O.Undefined:
                    continue
                if O.negative(v):
                    ctx.fail('%s is %s: the summand %s is %s at %s' % (label, O._s(sol.solution), O._s(sp.Mul(*t, evaluate=False)), O._s(v), [str(x) for x in pt]))
                    return
    ctx.state(str(sol.solution)[:1500])


def cases_linear(tier):
    q = tier == 'quick'
    n = len(tangent_pool())
    P = [(0, 0, 0), (1, 0, 0), (0, 1, 2)]
    C = ['1', '2/3']
    out = []
    one = [[t, list(p), c] for t in range(n) for p in P for c in C]
    for it in one:
        for gi in (0, 1, 4, 5):
            out.append([[it], [[0, '1']], gi, True])
            out.append([[it], [[1, '2/5'], [0, '3']], gi, False])
    for i, j in itertools.combinations(range(len(one)), 2):
        if one[i][2] != '1' or one[j][2] == '1':
            continue
        for gi in (0, 4, 5):
            if q and (i + j + gi) % 2:
                continue
            out.append([[one[i], one[j]], [[(i + j) % 6, '3/2']], gi, True])
    for k, tri in enumerate(itertools.combinations(range(n), 3)):
        for gi in (0, 4, 5):
            if q and (k + gi) % 3:
                continue
            out.append([[[t, list(P[(t + s) % 3]), C[(t * 7 + s) % 2]] for s, t in enumerate(tri)], [[k % 6, '1/2'], [(k // 6) % 6, '5']], gi, True])
    if not q:
        for k, four in enumerate(itertools.combinations(range(n), 4)):
            out.append([[[t, list(P[(t + s) % 3]), C[(t + s) % 2]] for s, t in enumerate(four)], [[k % 6, '1/2'], [1, '5']], (0, 4, 5)[k % 3], True])
    return out


# ------------------------------------------------------------------ sums of squares from matrix decompositions

def run_sdp(ctx, case):
    from triples.utils.monomials import MonomialManager
    try:
        from triples.core.sdpsos.solution import SolutionSDP
    except ImportError:
        ctx.trivial()
        return
    if not hasattr(SolutionSDP, 'from_decompositions'):
        ctx.trivial()
        return
    key, rows, gi, withdict, eqrow = case
    a, b, c = G3
    perm = perm_group(SUB[3][gi], 3)
    els = O.group_closure(SUB[3][gi], 3)
    problem = sp.Poly(a**3 + b**3 + c**3 - 3*a*b*c, *G3) if key == 'a' else sp.Poly(a**2 + b**2 + c**2, *G3)
    names = {'a': a, '1': sp.S.One}
    K = sp.Poly(names[key], *G3)
    mons = [a, b, c]
    U = sp.Matrix([[sp.Rational(x) for x in r[1:]] for r in rows])
    S = sp.Matrix([sp.Rational(r[0]) for r in rows])
    val = sum(sp.Rational(r[0]) * names[key] * sum(sp.Rational(x) * m for x, m in zip(r[1:], mons))**2 for r in rows)
    eqvec, eqd = {}, {}
    if eqrow:
        h = sp.Poly(a + b - 2*c, *G3)
        d = problem.total_degree() - 1
        man = MonomialManager(3)
        mon = [m for m in man.inv_monoms(d)]
        vec = sp.Matrix([sp.Rational(eqrow[i % len(eqrow)]) for i in range(len(mon))])
        eqvec[h] = vec
        val += h.as_expr() * sum(v * sp.Mul(*[s**e for s, e in zip(G3, m)]) for v, m in zip(vec, mon))
        if withdict:
            eqd = {h: sp.Function('_H0')(a, b, c)}
    ineq = {K: sp.Function('_G0')(a)} if withdict and key == 'a' else {}
    sol = SolutionSDP.from_decompositions(problem, {K: (U, S)}, eqvec, MonomialManager(3, perm), ineq_constraints=ineq, eq_constraints=eqd)
    ctx.step()
    cert = O.Certificate(sp.Poly(1, *G3), {}, {}, sol.solution)
    cert.alias_fun = {sp.Function('_G0')(a): a, sp.Function('_H0')(a, b, c): a + b - 2*c}
    for pt in POINTS:
        env = dict(zip(G3, pt))
        w = F(0)
        for p in els:
            w = add(w, O.ev(val, {G3[i]: env[G3[p[i]]] for i in range(3)}))
        v = O.ev(sol.solution, env, cert.extra(env))
        ctx.valid()
        if not O.close(v, w):
            ctx.fail('SDP solution from %s over %s (group %s, names %s, eq %s) is %s: %s at %s, expected %s' % (rows, key, SUB[3][gi], withdict, eqrow, O._s(sol.solution), O._s(v), [str(x) for x in pt], O._s(w)))
            break
    ctx.state(str(sol.solution)[:800])


def cases_sdp(tier):
    out = []
    vals = ['0', '1', '-2', '1/3']
    vecs = list(itertools.product(vals, repeat=3))
    for key in ('a', '1'):
        for gi in ((0, 1, 4, 5) if key == '1' else (0, 4, 5)):
            for i, v in enumerate(vecs):
                for s in ('1', '3/7'):
                    for wd in (0, 1):
                        out.append([key, [[s] + list(v)], gi, wd, None])
                out.append([key, [['2'] + list(v), ['1/5'] + list(vecs[(i * 7 + 3) % len(vecs)])], gi, i % 2, ['1', '-1/2', '0'] if i % 3 else ['2']])
    return out


def families(tier):
    return [
        Family('programs', cases_ops(tier), run_ops, timeout=60, chunk=24, share=4, bound='%d solution expressions x groups x every sequence of up to %d of %d operations' % (len(STARTS), 2 if tier == 'quick' else 3, len(OPS))),
        Family('dehomogenize', cases_dehom(tier), run_dehom, timeout=60, chunk=20, share=1, bound='12 bodies x sums/products x all 6 permutation groups x 3 positions of the homogenizer x nesting'),
        Family('equality', cases_equal(tier), run_equal, timeout=60, chunk=20, share=2, bound='%d problems x %d denominators x %d perturbations x 4 notations' % (len(EQ_PROBLEMS), len(DENOMS), len(PERTURB))),
        Family('collect', cases_linear(tier), run_linear, timeout=60, chunk=20, share=3, bound='all pairs and triples of 14 kinds of terms x powers x coefficients x groups x multipliers'),
        Family('squares', cases_sdp(tier), run_sdp, timeout=60, chunk=20, share=1, bound='rows over a 4-letter alphabet x weights x groups x constraint names x equations'),
    ]
