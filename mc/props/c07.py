"""C07: the way a problem is written changes neither its validity nor the answer in the caller's symbols."""
import itertools
from fractions import Fraction as F

import sympy as sp

from ..core import Family
from .. import oracle as O
from .. import cert
from .. import problems as PB

TITLE = 'problem normalisation and restoration preserve the problem and its answer'
BUDGET = {'quick': 150, 'thorough': 1500}

BASE = [
    ['a**2+b**2+c**2-a*b-b*c-c*a', 'a b c', [], []],
    ['a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)', 'a b c', ['a', 'b', 'c'], []],
    ['a**2*b+b**2*c+c**2*a-3*a*b*c', 'a b c', ['a', 'b', 'c'], []],
    ['x*y-1', 'x y', ['x-1', 'y-1'], []],
    ['3-a*b-b*c-c*a', 'a b c', ['a', 'b', 'c'], ['a+b+c-3']],
    ['a*(b-c)**2+b*(c-a)**2+c*(a-b)**2', 'a b c', ['a', 'b', 'c'], []],
    ['x**2-x+1', 'x', [], []],
    ['a**3+b**3+c**3-4*a*b*c', 'a b c', ['a', 'b', 'c'], []],
    ['x+y-2', 'x y', ['x', 'y'], ['x*y-1']],
    ['x**2+y**2-2*x*y+x*y*(x+y)', 'x y', ['x', 'y'], []],
    ['(a+b+c)**2-3*(a*b+b*c+c*a)', 'a b c', ['a-b', 'b-c', 'c-a'], []],
    ['a**4+b**4-a**3*b-a*b**3', 'a b', [], []],
    ['x-2*y', 'x y', ['x', 'y', 'x-y'], []],
    ['x+y+z-x*y-y*z-z*x', 'x y z', ['x', 'y', 'z', '4-x*y-y*z-z*x-x*y*z'], []],
]

POLY = ['poly', 'expr', 'factored', 'perm', 'extra', 'fewer', 'QQ', 'scaled', 'cyclic', 'raw']
CONS = ['list', 'tuple', 'dict', 'alias', 'func', 'polykey', 'scaled', 'dup', 'const', 'square', 'reversed', 'factor']
NAMES = ['same', 't', 'order', 'swap', 'positive', 'alias-t', 'underscore', 'indexed']
SOLVERS = ['StructuralSOS', 'LinearSOS', 'SDPSOS', 'SymmetricSOS', 'sum_of_squares']
# these only change the notation: what is solved in one is solved in the other
PURE = {'poly': {'poly', 'expr', 'factored', 'QQ', 'raw'}, 'cons': {'list', 'tuple', 'dict', 'alias', 'polykey'}, 'names': {'same'}}


def rename(problem, how):
    """(polynomial expression, ordered symbols, ineq, eq) with renamed symbols"""
    P, ineq, eq = PB.parse(problem)
    gens = list(P.gens)
    if how in ('same', 'alias-t'):
        new = gens
    elif how == 't':
        new = [sp.Symbol(s) for s in ['t', 'u', 't_'][:len(gens)]]
    elif how == 'order':
        new = [sp.Symbol(s) for s in ['x10', 'x2', 'x1'][:len(gens)]]
    elif how == 'swap':
        new = gens[::-1]
    elif how == 'positive':
        new = [sp.Symbol(s.name, positive=True) for s in gens] if all(g in ineq for g in gens) else [sp.Symbol(s.name, real=True) for s in gens]
    elif how == 'underscore':
        new = [sp.Symbol(s) for s in ['_a', '_G0', '_H0'][:len(gens)]]
    else:
        new = [sp.Symbol(s) for s in ['C', 'S', 'N'][:len(gens)]]
    m = dict(zip(gens, new))
    return sp.expand(P.as_expr().xreplace(m)), new, [e.xreplace(m) for e in ineq], [e.xreplace(m) for e in eq], P.as_expr().xreplace(m)


def cyclic_form(e, gens):
    """e written as a cyclic sum over its generators, or None"""
    from triples.utils.expression import CyclicSum
    n = len(gens)
    if n < 2:
        return None
    m = dict(zip(gens, gens[1:] + gens[:1]))
    if sp.expand(e.xreplace(m) - e) != 0:
        return None
    out = sp.S.Zero
    done = set()
    P = sp.Poly(e, *gens)
    for mon, c in P.terms():
        orb = [mon[i:] + mon[:i] for i in range(n)]
        if mon in done:
            continue
        done |= set(orb)
        out = out + c * sp.Rational(len(set(orb)), n) * CyclicSum(sp.Mul(*[g**k for g, k in zip(gens, mon)]), tuple(gens))
    return out


def write(problem, pol, con, nam):
    """the problem in the given notation: (poly, ineq, eq, generators, scale, plain ineq, plain eq) or None"""
    e, gens, ineq, eq, raw = rename(problem, nam)
    scale = 1
    if pol == 'poly':
        p = sp.Poly(e, *gens)
    elif pol == 'expr':
        p = e
    elif pol == 'factored':
        p = sp.factor(e)
    elif pol == 'raw':
        p = raw
    elif pol == 'perm':
        if len(gens) < 2:
            return None
        p = sp.Poly(e, *(gens[1:] + gens[:1])[::-1])
    elif pol == 'extra':
        p = sp.Poly(e, *(gens + [sp.Symbol('w')]))
    elif pol == 'fewer':
        if len(gens) < 2:
            return None
        p = sp.Poly(e, *gens[1:])
    elif pol == 'QQ':
        p = sp.Poly(e, *gens, domain='QQ')
    elif pol == 'scaled':
        scale = sp.Rational(7, 3)
        p = sp.Poly(scale * e, *gens)
    else:
        p = cyclic_form(e, gens)
        if p is None:
            return None
    pin, peq = list(ineq), list(eq)
    tname = 't' if nam == 'alias-t' else 'g'
    alias = lambda i, k: sp.Symbol('t' if nam == 'alias-t' and i == 0 else '%s%d' % (tname, i))
    if con == 'list':
        ci, ce = list(ineq), list(eq)
    elif con == 'tuple':
        ci, ce = tuple(ineq), tuple(eq)
    elif con == 'dict':
        ci, ce = {k: k for k in ineq}, {k: k for k in eq}
    elif con == 'alias':
        ci = {k: alias(i, k) for i, k in enumerate(ineq)}
        ce = {k: sp.Symbol('h%d' % i) for i, k in enumerate(eq)}
    elif con == 'func':
        G, H = sp.Function('G'), sp.Function('H')
        ci = {k: sp.Function('G%d' % i)(*sorted(k.free_symbols, key=str)) if not k.is_Symbol else G(k) for i, k in enumerate(ineq)}
        ce = {k: sp.Function('H%d' % i)(*sorted(k.free_symbols, key=str)) for i, k in enumerate(eq)}
    elif con == 'polykey':
        ci = {sp.Poly(k, *gens): alias(i, k) for i, k in enumerate(ineq)}
        ce = {sp.Poly(k, *gens): sp.Symbol('h%d' % i) for i, k in enumerate(eq)}
    elif con == 'scaled':
        ci = {k * sp.Rational(2, 5): alias(i, k) for i, k in enumerate(ineq)}
        ce = {k * -3: sp.Symbol('h%d' % i) for i, k in enumerate(eq)}
    elif con == 'dup':
        ci = list(ineq) + list(ineq) + [2 * k for k in ineq]
        ce = list(eq) + [-k for k in eq]
    elif con == 'const':
        ci = [sp.S.One] + list(ineq) + [sp.S.Zero, sp.Integer(3)]
        ce = [sp.S.Zero] + list(eq)
    elif con == 'square':
        ci = {k * (gens[0]**2 + 1)**2: alias(i, k) for i, k in enumerate(ineq)}
        ce = {sp.expand(k**2): sp.Symbol('h%d' % i) for i, k in enumerate(eq)}
    elif con == 'reversed':
        ci, ce = list(ineq)[::-1], list(eq)[::-1]
    else:
        ci, ce = [sp.Mul(sp.Integer(2), sp.factor(k), evaluate=False) for k in ineq], [sp.expand(k) for k in eq]
    if not ineq and not eq and con in ('tuple', 'dict', 'alias', 'func', 'polykey', 'scaled', 'dup', 'square', 'reversed', 'factor'):
        return None
    return p, ci, ce, gens, scale, pin, peq


def snapshot(x):
    if isinstance(x, dict):
        return [(snapshot(k), snapshot(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snapshot(k) for k in x]
    return sp.srepr(x)


def prover(name):
    import triples.core as C
    from triples.core.sum_of_squares import sum_of_squares
    return sum_of_squares if name == 'sum_of_squares' else getattr(C, name)


_base = {}


def run_notation(ctx, case):
    i, solver, pol, con, nam = case
    w = write(BASE[i], pol, con, nam)
    if w is None:
        ctx.trivial()
        return
    p, ci, ce, gens, scale, pin, peq = w
    order = sorted(gens + ([sp.Symbol('w')] if pol == 'extra' else []), key=lambda s: s.name)
    plain = sp.Poly(p.doit().as_expr() if not isinstance(p, sp.Poly) else p.as_expr(), *order)
    # the same point space for every notation: feasible points of the plain problem, in the order of the renamed symbols
    src = [sp.Symbol(s) for s in BASE[i][1].split()]
    P0, in0, eq0 = PB.parse(BASE[i])
    names = sorted(src, key=lambda s: s.name)
    pts0 = PB.points(BASE[i][1], in0, eq0)
    pos = {g: names.index(s) for g, s in zip(gens, src)}
    pts = [tuple(p0[pos[g]] if g in pos else F(2, 3) for g in order) for p0 in pts0]
    neg = cert.fast_negative(plain, pts)
    before = (snapshot(p), snapshot(ci), snapshot(ce))
    label = '%s(%s; %s; %s)' % (solver, p, ci, ce)
    if peq and con == 'square':
        sol = check_feasible(ctx, prover(solver)(p, ci, ce), plain, ci, ce, pts, neg, label)
    else:
        # an equation without a name cannot be told from the rest of a term: then only the identity is decided
        named = not peq or con in ('alias', 'func', 'polykey', 'scaled')
        sol = cert.check(ctx, lambda: prover(solver)(p, ci, ce), plain, ci, ce, pts if named else [], must_none=neg, label=label)
    if (snapshot(p), snapshot(ci), snapshot(ce)) != before:
        ctx.fail('%s: the arguments of the caller were changed' % label)
    if pol in PURE['poly'] and con in PURE['cons'] and nam in PURE['names']:
        k = (i, solver)
        if k not in _base:
            p1, c1, e1 = write(BASE[i], 'poly', 'list', 'same')[:3]
            _base[k] = prover(solver)(p1, c1, e1) is not None
        if _base[k] != (sol is not None):
            ctx.fail('%s: %s, but the same problem written as a polynomial with lists of constraints is %s' % (
                label, 'solved' if sol is not None else 'not solved', 'solved' if _base[k] else 'not solved'))
    if sol is not None:
        # the solution object describes the problem of the caller
        if hasattr(sol, 'problem') and sp.expand(sp.S(sol.problem.as_expr().doit() - plain.as_expr())) != 0:
            ctx.fail('%s: solution.problem is %s' % (label, sol.problem))


def check_feasible(ctx, sol, problem, ci, ce, pts, neg, label):
    """a square as an equation is used through its root, whose sign only matters off the feasible set"""
    ctx.step()
    if sol is None:
        ctx.outcome('none')
        return sol
    if neg is not None:
        ctx.fail('%s: certificate %s returned but the problem is negative at the feasible point %s' % (label, O._s(sol.solution), neg))
        return sol
    c = O.Certificate(problem, ci, ce, sol.solution)
    for pt in pts[:40]:
        env = c.env(pt)
        try:
            got = O.ev(c.solution, env, c.extra(env))
        except O.Undefined:
            continue
        except KeyError as e:
            ctx.fail('%s: certificate %s contains a symbol without meaning: %s' % (label, O._s(sol.solution), e))
            return sol
        ctx.valid()
        if not O.close(got, O.ev(c.problem, env)):
            ctx.fail('%s: at the feasible point %s the problem is %s but the certificate %s is %s' % (label, pt, O._s(O.ev(c.problem, env)), O._s(sol.solution), O._s(got)))
            return sol
    n, msg = c.check_nonneg(pts)
    if msg:
        ctx.fail('%s: %s; certificate %s' % (label, msg, O._s(sol.solution)))
    ctx.outcome('solved')
    return sol


def cases_notation(tier):
    q = tier == 'quick'
    out = []
    for d in (0, 1, 2, 3):
        for pol, con, nam in itertools.product(POLY, CONS, NAMES):
            if (pol != POLY[0]) + (con != CONS[0]) + (nam != NAMES[0]) != d:
                continue
            for i in range(len(BASE)):
                for s in SOLVERS:
                    if q and (d > 2 or (d == 2 and (s in ('sum_of_squares',) or i not in (1, 3, 4, 8)))):
                        continue
                    out.append([i, s, pol, con, nam])
    return out


# ------------------------------------------------------------------ the normalising wrapper around any prover

SAN = [
    # polynomial, symbols, ineq, eq
    ['x**2+y', 'x y', ['x', '2*y', 'x-y'], ['x+y-1']],
    ['x**2+y**2', 'x y', ['x', 'y'], []],
    ['x*y', 'x y', ['-3*(x+y)**2*x', '-y'], ['5*(x+y)**2*x', '-2*x**3']],
    ['a*b+b*c+c*a', 'a b c', ['a', 'b', 'c'], ['a*b*c']],
    ['a*b+b*c+c*a-1', 'a b c', ['a', 'b', 'c'], ['a*b*c-1']],
    ['a+b+c', 'a b c', ['a+2*b', 'b+2*c', 'c+2*a'], []],
    ['a+b+c', 'a b c', ['a-b', 'b-c', 'c-a', 'a*b*c'], []],
    ['a+b+c-3', 'a b c', ['a*b', 'b*c', 'c*a', 'a+b-c', 'b+c-a', 'c+a-b'], ['a**2+b**2+c**2-3']],
    ['a*b+c*d', 'a b c d', ['a', 'b', 'c', 'd'], []],
    ['a*b+b*c+c*d+d*a+1', 'a b c d', ['a', 'b', 'c', 'd'], ['a+b+c+d-4']],
    ['x**2+1', 'x', ['x', '1-x'], []],
    ['x', 'x', [], ['x**2-x']],
    ['x**2+y**2+z**2', 'x y z', ['x**2*(y-z)', '2/3*(x-y)'], ['x**2*y', 'x**2*y**4*z**3']],
    ['5', 'x', ['x'], []],
    ['x-x', 'x y', ['x'], ['y']],
    ['x*y*z', 'x y z', ['x*(y+1)**2', '(x+1)**3', '-7*z'], ['(x-1)**2*(y-1)', '(x-y)**3*4', '-9*z**2']],
]
SAN_OPTS = [(h, s, w) for h in (False, True) for s in (False, True) for w in (False, True)]
SAN_CONS = ['dict', 'alias', 'func', 'alias-t', 'list']


def stub_solution(poly, ineq, eq, group, kind):
    """a 'solution' over what the wrapper handed to the prover, and the polynomial it stands for"""
    from triples.utils.expression import CyclicSum
    from triples.utils.expression.solution import SolutionSimple
    gens = poly.gens
    expr, val = sp.S.Zero, sp.S.Zero
    coef = 2
    for cons, tag in ((ineq, 'i'), (eq, 'e')):
        if tag == 'e' and kind == 'ineq' or tag == 'i' and kind == 'eq':
            continue
        for k, (g, alias) in enumerate(cons.items()):
            mon = gens[k % len(gens)]**(k % 3) * (coef + k)
            if kind == 'cyclic' and group is not None:
                els = list(group.elements)
                expr = expr + CyclicSum(mon * alias, gens, group)
                for s in els:
                    m = dict(zip(gens, s(list(gens))))
                    val = val + (mon * g.as_expr()).xreplace(m)
            else:
                expr = expr + mon * alias
                val = val + mon * g.as_expr()
    return SolutionSimple(problem=poly, solution=expr), val


def run_sanitize(ctx, case):
    import triples.core.shared as S
    i, opts, con, form, kind = case
    hom, sym, wrap = opts
    make = getattr(S, 'sanitize_input', None)
    if make is None:
        ctx.trivial()
        return
    text, names, ineq, eq = SAN[i]
    L = PB.locs(names)
    gens = list(L.values())
    e = sp.sympify(text, locals=L)
    p = sp.Poly(e, *gens) if form == 'poly' else e
    if form == 'expr' and not e.free_symbols:
        p = sp.S(e)
    ineq = [sp.sympify(t, locals=L) for t in ineq]
    eq = [sp.sympify(t, locals=L) for t in eq]
    if con == 'list':
        ci, ce = list(ineq), list(eq)
    elif con == 'dict':
        ci, ce = {k: k for k in ineq}, {k: k for k in eq}
    elif con in ('alias', 'alias-t'):
        ci = {k: sp.Symbol('t' if con == 'alias-t' and not j else 'g%d' % j) for j, k in enumerate(ineq)}
        ce = {k: sp.Symbol('h%d' % j) for j, k in enumerate(eq)}
    else:
        ci = {k: sp.Function('G%d' % j)(*sorted(k.free_symbols, key=str)) for j, k in enumerate(ineq)}
        ce = {k: sp.Function('H%d' % j)(*sorted(k.free_symbols, key=str)) for j, k in enumerate(eq)}
    seen = {}

    def stub(poly, ineq_constraints, eq_constraints, symmetry=None, _homogenizer=None):
        seen.update(poly=poly, ineq=dict(ineq_constraints), eq=dict(eq_constraints), hom=_homogenizer, sym=symmetry)
        group = getattr(symmetry, 'perm_group', None) if sym else None
        sol, val = stub_solution(poly, ineq_constraints, eq_constraints, group, kind)
        seen['val'] = val
        return sol
    before = (snapshot(p), snapshot(ci), snapshot(ce))
    label = 'sanitize_input(homogenize=%s, infer_symmetry=%s, wrap_constraints=%s) %s %s %s' % (hom, sym, wrap, p, ci, ce)
    sol = make(homogenize=hom, infer_symmetry=sym, wrap_constraints=wrap)(stub)(p, ci, ce)
    ctx.step()
    if (snapshot(p), snapshot(ci), snapshot(ce)) != before:
        ctx.fail('%s: the arguments of the caller were changed' % label)
    ctx.require('poly' in seen, '%s: the prover was not called' % label)
    q = seen['poly']
    ctx.require(isinstance(q, sp.Poly), '%s: the prover gets %r' % (label, q))
    t = seen['hom']
    one = {t: sp.S.One} if t is not None else {}
    ctx.require(sp.expand(q.as_expr().xreplace(one) - e) == 0, '%s: the prover gets the problem %s' % (label, q))
    if hom:
        ctx.require(q.is_homogeneous or q.is_zero, '%s: the prover gets the inhomogeneous problem %s' % (label, q))
        for g in list(seen['ineq']) + list(seen['eq']):
            ctx.require(g.is_homogeneous, '%s: the prover gets the inhomogeneous constraint %s' % (label, g))
    if t is not None:
        used = set(gens) | set().union(*[k.free_symbols | (v.free_symbols if isinstance(ci, dict) else set()) for k, v in list(O._asdict(ci).items()) + list(O._asdict(ce).items())])
        ctx.require(t not in used, '%s: the homogenizing variable %s is a symbol of the caller' % (label, t))
        ctx.require(t in q.gens and sp.Poly(t, *q.gens) in seen['ineq'], '%s: the homogenizing variable is not a constraint' % label)
    # the constraints handed on describe the same feasible set
    for g in list(seen['ineq']) + list(seen['eq']):
        ctx.require(isinstance(g, sp.Poly) and g.gens == q.gens, '%s: constraint %r is not a polynomial in %s' % (label, g, q.gens))
    order = sorted(gens, key=lambda s: s.name)
    vals = [F(0), F(1), F(-1), F(2), F(-3, 2)] if len(gens) <= 3 else [F(0), F(1), F(-2)]
    npts = 0
    for pt in itertools.product(vals, repeat=len(order)):
        env = dict(zip(order, pt))
        orig = all(O.ev(k, env) >= 0 for k in ineq) and all(O.ev(k, env) == 0 for k in eq)
        env2 = dict(env)
        if t is not None:
            env2[t] = F(1)
        if not set(q.gens) <= set(env2):
            ctx.fail('%s: generators %s' % (label, q.gens))
            return
        new_eq = all(O.ev(k.as_expr(), env2) == 0 for k in seen['eq'])
        new = new_eq and all(O.ev(k.as_expr(), env2) >= 0 for k in seen['ineq'])
        # dropping squared factors may only shrink the feasible set by (limits of) points where they vanish
        if new and not orig:
            ctx.fail('%s: the point %s satisfies the constraints given to the prover (%s; %s) but not those of the caller' % (label, env, list(seen['ineq']), list(seen['eq'])))
            return
        if orig and not new:
            sq = [f for k in ineq for f, d in sp.factor_list(k)[1] if d > 1]
            if not any(O.ev(f, env) == 0 for f in sq):
                ctx.fail('%s: the point %s satisfies the constraints of the caller but not those given to the prover (%s; %s)' % (label, env, list(seen['ineq']), list(seen['eq'])))
                return
        npts += 1
    ctx.valid(npts)
    # and the aliases mean their polynomials after restoration
    if sol is None:
        ctx.fail('%s: the answer of the prover was lost' % label)
        return
    want = sp.expand(seen['val'].xreplace(one))
    c = O.Certificate(sp.Poly(want, *order), ci, ce, sol.solution)
    try:
        if kind == 'eq':
            msg = eq_identity(c, want, order, eq)
        else:
            msg = c.check_identity(3)
    except KeyError as err:
        ctx.fail('%s: the restored answer %s contains a symbol without meaning: %s' % (label, O._s(sol.solution), err))
        return
    ctx.valid()
    ctx.state((i, str(sol.solution)[:2000]))
    ctx.outcome('hom' if t is not None else 'plain')
    if msg:
        ctx.fail('%s: %s; restored answer %s' % (label, msg, O._s(sol.solution)))


def eq_identity(c, want, order, eq):
    """equality constraints may be handed on up to sign on each side of their zero set"""
    for pt in O.generic_points(len(order), 6):
        for flip in (1, -1):
            env = c.env([flip * x for x in pt])
            try:
                got = O.ev(c.solution, env, c.extra(env))
            except O.Undefined:
                continue
            w = O.ev(want, env)
            if not (O.close(got, w) or O.close(got, -w)):
                return 'at %s the equations contribute %s but %s was meant' % (dict(zip(map(str, order), map(str, pt))), O._s(got), O._s(w))
    return None


def cases_sanitize(tier):
    out = []
    for i, (t, n, ci, ce) in enumerate(SAN):
        for opts in SAN_OPTS:
            for con in SAN_CONS:
                for form in ('poly', 'expr'):
                    for kind in ('ineq', 'eq', 'cyclic'):
                        if kind == 'eq' and len(ce) != 1:
                            continue
                        if kind == 'cyclic' and (ce and any('**' in x for x in ce) or not opts[1] or not opts[2]):
                            continue
                        out.append([i, list(opts), con, form, kind])
    return out


def families(tier):
    return [
        Family('sanitize', cases_sanitize(tier), run_sanitize, timeout=60, chunk=20, share=1,
               bound='%d problems x 8 wrapper settings x 5 constraint notations x 2 problem notations x 3 answers of the prover' % len(SAN)),
        Family('notation', cases_notation(tier), run_notation, timeout=60, chunk=4, share=4,
               bound='%d problems x 5 provers x every notation with up to %d deviations (of 10 x 12 x 8)' % (len(BASE), 2 if tier == 'quick' else 3)),
    ]
