"""Bounded problem spaces shared by the prover properties: polynomials x constraint sets, simplest first.

A problem is [polynomial text, variable names, [constraint texts >= 0], [constraint texts == 0]]."""
import itertools
from fractions import Fraction as F

import sympy as sp

from . import oracle as O
from . import cert

VALS = [F(0), F(1), F(-1), F(2), F(1, 2), F(-3), F(3), F(-1, 2), F(7, 5), F(9, 10)]
CIRCLE = [F(3, 5), F(4, 5), F(-3, 5), F(-4, 5), F(5, 13), F(12, 13), F(1, 3), F(2, 3), F(4, 3), F(5, 3), F(3, 2), F(1, 4), F(4)]


def locs(names):
    return {n: sp.Symbol(n) for n in names.split()}


def parse(problem):
    text, names, ineq, eq = problem
    L = locs(names)
    P = sp.Poly(sp.sympify(text, locals=L), *L.values())
    return P, [sp.sympify(t, locals=L) for t in ineq], [sp.sympify(t, locals=L) for t in eq]


_pts = {}


def points(names, ineq, eq):
    """feasible points (variables ordered by name, as oracle.Certificate orders them)"""
    key = (names, tuple(map(str, ineq)), tuple(map(str, eq)))
    if key in _pts:
        return _pts[key]
    order = sorted((sp.Symbol(n) for n in names.split()), key=lambda s: s.name)
    n = len(order)
    if n == 1:
        vals = VALS + CIRCLE + [F(11, 10), F(5), F(-7, 3)]
    elif n == 2:
        vals = VALS + (CIRCLE if eq else [F(5), F(1, 10)])
    elif n == 3:
        vals = [F(0), F(1), F(-1), F(2), F(1, 2), F(3)] + ([F(-3)] if not eq else [F(1, 3), F(4), F(1, 4), F(3, 2)])
    else:
        vals = [F(0), F(1), F(-1), F(3), F(1, 2)] if n == 4 else [F(0), F(1), F(2)]
    fs = [(sp.lambdify(order, g, 'math'), False) for g in ineq] + [(sp.lambdify(order, h, 'math'), True) for h in eq]
    out = []
    for p in itertools.product(vals, repeat=n):
        for f, iseq in fs:
            v = f(*p)
            if (v != 0) if iseq else (v < 0):
                break
        else:
            out.append(p)
    _pts[key] = out
    return out


def named(ineq, eq):
    """constraints that are not plain symbols get a name of their own so that a certificate can be read term by term"""
    di = {g: g if g.is_Symbol else sp.Symbol('g%d' % i) for i, g in enumerate(ineq)}
    de = {h: sp.Symbol('h%d' % i) for i, h in enumerate(eq)}
    return di, de


def run(ctx, problem, solver, kwargs=None, label='', key=None, plain=False):
    """run one prover on one problem and decide the certificate contract"""
    P, ineq, eq = parse(problem)
    if P.is_zero:
        ctx.trivial()
        return None
    pts = points(problem[1], ineq, eq)
    order = sorted(P.gens, key=lambda s: s.name)
    neg = cert.fast_negative(sp.Poly(P.as_expr(), *order), pts)
    if plain:
        di, de = ineq, eq
    else:
        di, de = named(ineq, eq)
    return cert.check(ctx, lambda: solver(P, di, de, **(kwargs or {})), P, di, de, pts,
                      must_none=neg, label='%s %s >=0:%s ==0:%s' % (label, problem[0], problem[2], problem[3]), key=key)


def poly(terms):
    return '+'.join('(%s)*%s' % (c, m) for c, m in terms if c) or '0'


POS3 = ['a', 'b', 'c']


def ternary(q):
    out = []
    # cyclic cubics on the orthant
    for p, s, r in itertools.product([-1, 0, 1], [-1, 0, 1], [-6, -3, 0, 1]):
        for l in (0, 1):
            t = poly([(l, '(a**3+b**3+c**3)'), (p, '(a**2*b+b**2*c+c**2*a)'), (s, '(a*b**2+b*c**2+c*a**2)'), (r, 'a*b*c')])
            if t != '0':
                out.append([t, 'a b c', POS3, []])
    # quadratics and quartics, real and positive
    for p, s in itertools.product([-2, -1, 0, 1, 2], repeat=2):
        out.append([poly([(p, '(a**2+b**2+c**2)'), (s, '(a*b+b*c+c*a)')]), 'a b c', [], []])
        out.append([poly([(p, '(a**2+b**2+c**2)'), (s, '(a*b+b*c+c*a)')]), 'a b c', POS3, []])
    for c in itertools.product([0, 1], [-2, 0, 1], [-2, 0, 1], [-1, 0, 3], [-3, 0, 1]):
        t = poly(list(zip(c, ['(a**4+b**4+c**4)', '(a**3*b+b**3*c+c**3*a)', '(a*b**3+b*c**3+c*a**3)', '(a**2*b**2+b**2*c**2+c**2*a**2)', 'a*b*c*(a+b+c)'])))
        if t != '0' and (not q or sum(map(abs, c)) <= 6):
            out.append([t, 'a b c', POS3, []])
            if c[0] and sum(map(abs, c)) <= 5:
                out.append([t, 'a b c', [], []])
    # acyclic
    for c in itertools.product([0, 1], [-1, 0, 1], [-2, 0, 1], [-1, 1]):
        t = poly(list(zip(c, ['a**2*b', 'b**2*c', 'a*b*c', 'c**3'])))
        out.append([t, 'a b c', POS3, []])
    for t in ['(a-b)**2*c+(b-c)**2*a', '(a-b)**2*(a+b)+c**3', 'a*(a-b)**2', 'a*b*(a-c)**2+c*(a-b)**4/(1)' , '(a-2*b+c)**2', 'a**2*(b-c)**2+(a-b)**2*c**2', 'a*(b-2*c)**2', '(a**2-b*c)**2', 'a*b*(a-2*b)**2', '(a-b)**2*(a-2*c)**2']:
        out.append([t, 'a b c', POS3, []])
        out.append([t, 'a b c', ['b'], []])
    # subsets of the variables nonnegative, differently signed
    for ineq in (['a'], ['a', 'b'], ['a', '-b'], ['-a', '-b', '-c'], ['a', 'b', 'a-c'], ['a-b', 'b-c', 'c'], ['b+c-a', 'c+a-b', 'a+b-c'], ['a+b', 'b+c', 'c+a'], ['a-b', 'b-a', 'c'], ['a*b', 'b*c', 'c*a'], ['a', 'b', 'c', 'a+b-c']):
        for t in ['a**3+b**3', 'a**2+b**2+c**2-a*b-b*c-c*a', 'a*b*c', 'a*b+b*c', '-a*b*c', 'a**3+b**3+c**3-3*a*b*c', 'a*c+b*c', '(a-b)*(b-c)', 'a**2*(a-b)*(a-c)+b**2*(b-c)*(b-a)+c**2*(c-a)*(c-b)', 'a**2*b+b**2*c+c**2*a-3*a*b*c', 'a*b+b*c+c*a', '(a+b-c)*(b+c-a)', '2*a*b+2*b*c+2*c*a-a**2-b**2-c**2', 'a-b', 'a+b+c', 'a**2-b**2', 'a*(a-b)*(a-c)+b*(b-c)*(b-a)+c*(c-a)*(c-b)']:
            out.append([t, 'a b c', ineq, []])
    return out


def univariate(q):
    out = []
    ivs = [[], ['x'], ['x', '1-x'], ['1-x**2'], ['x-1'], ['1-x', '1+x'], ['x**2-1', 'x'], ['x*(1-x)'], ['x**3'], ['-x'], ['x', '2-x', '1-x']]
    for c in itertools.product([-2, -1, 0, 1, 2], repeat=3):
        t = poly(list(zip(c, ['x**2', 'x', '1'])))
        for iv in ivs:
            if t != '0' and (not q or abs(sum(c)) <= 2):
                out.append([t, 'x', iv, []])
    for c in itertools.product([-1, 0, 1, 2], [-3, 0, 1], [-1, 0, 2], [0, 1]):
        t = poly(list(zip(c, ['x**3', 'x**2', 'x', '1'])))
        for iv in ivs[1:4] + ivs[6:8]:
            if t != '0':
                out.append([t, 'x', iv, []])
    return out


def bivariate(q):
    out = []
    cons = [[], ['x', 'y'], ['x', 'y', '1-x-y'], ['x-1', 'y-1'], ['1-x', '1+x', '1-y', '1+y'], ['x-y'], ['x', 'y', 'x-y'], ['1-x**2-y**2'], ['x*y-1', 'x'], ['x', '1-y', 'y'], ['x+y-2', 'x', 'y']]
    ts = ['x', 'y-x', 'x+y', 'x+y-1', 'x*y', 'x**2+y**2-x*y', 'x**2+y**2-3*x*y', '1-x*y', '2-x-y', 'x+y-x*y', 'x**2+y**2-1', '1-x**2', 'x**2-x*y+y**2-x-y+1', '(x-y)**2+x', 'x**2*y+x*y**2-2*x*y', 'x**3+y**3+1-3*x*y', '(x-1)**2*y', 'x*(1-x)+y', '(x+y)**2-4', 'x**2+y**2-2', 'x*y-1', '1-x*y+x**2*y**2', 'x**4+y**4-2*x**2*y**2+1', 'x+1/2-y', '(x-y)*(x+y)', 'x**2*y**2-x*y', '3-x-y', '-x', 'x**2-2*x+y**2-2*y+2', 'x*y*(1-x-y)', '1-27*x*y*(1-x-y)', '(1-x)*(1-y)', '1-x-y+2*x*y']
    for t in ts:
        for c in cons:
            out.append([t, 'x y', c, []])
    return out


def equality(q):
    out = []
    A = [('a b c', ['a', 'b', 'c'], ['a+b+c-3'], ['3-a*b-b*c-c*a', '1-a*b*c', 'a**2+b**2+c**2-3', 'a**3+b**3+c**3-3', 'a*b+b*c+c*a-3', '4-a**2*b-b**2*c-c**2*a', 'a-1', 'a**2+b**2+c**2-a-b-c', '9-(a*b+b*c+c*a)*(a+b+c)', 'a*b*c-1']),
         ('a b c', [], ['a+b+c'], ['a**2+b**2+c**2', '-a*b-b*c-c*a', 'a**3+b**3+c**3-3*a*b*c', 'a*b*c', '(a**2+b**2+c**2)**2-2*(a**4+b**4+c**4)', 'a', '2*(a**4+b**4+c**4)-(a**2+b**2+c**2)**2', 'a*b']),
         ('a b c', ['a', 'b', 'c'], ['a*b*c-1'], ['a+b+c-3', 'a*b+b*c+c*a-3', 'a**2+b**2+c**2-a-b-c', '3-a-b-c']),
         ('x y', [], ['x**2+y**2-1'], ['1-x', '1-x*y', '2-x-y', '1-2*x*y', '1+2*x*y', 'x', '1-x**2', '3/2-x-y', '1-x**4-y**4']),
         ('x y', ['x', 'y'], ['x-y'], ['x*y-y**2', 'x', 'y**2+x-y', 'x-2*y', 'y**3', '(x-y)*(x**5+3)', 'x**2*y-y**3']),
         ('x y', ['x', 'y'], ['x+y-1'], ['1-4*x*y', 'x**2+y**2-1/2', 'x*y', '1-x**2-y**2', 'x**3+y**3-1/4', 'x-y', '1-x', 'x**2*y+x*y**2-x*y']),
         ('x', [], ['x**2-1'], ['1-x', 'x**4-1', '2-x-x**2', 'x', 'x**3-x', '1-x**2']),
         ('x', [], ['x'], ['x', '-x**3', 'x+1', 'x-1']),
         ('x y z', [], ['x-y', 'y-z'], ['x**2+y**2-2*x*z', 'x-z', 'x*z-y**2', 'x*y', 'x', '1+x-y']),
         ('x y', ['x'], ['x*y'], ['x*y', '-3*x*y', 'x+x*y', 'y', 'x**2*y+x'])]
    for names, ineq, eq, ts in A:
        for t in ts:
            out.append([t, names, ineq, eq])
    return out


def quaternary(q):
    out = []
    P4 = ['a', 'b', 'c', 'd']
    for t in ['a**4+b**4+c**4+d**4-4*a*b*c*d', 'a**2+b**2+c**2+d**2-a*b-b*c-c*d-d*a', 'a*b+c*d', 'a**2+b**2-2*c*d', '(a+b+c+d)**2-8*(a*c+b*d)', '(a-b)**2*(c+d)', '(a-b+c-d)**2', 'a**3+b**3+c**3+d**3-a*b*c-b*c*d-c*d*a-d*a*b',
              'a*b*c*d', '(a*c-b*d)**2+(a*d-b*c)**2', 'a**2*b**2+c**2*d**2-2*a*b*c*d', '(a-b)*(c-d)', 'a+b-c-d', '3*(a**2+b**2+c**2+d**2)-2*(a*b+a*c+a*d+b*c+b*d+c*d)', '(a+b+c+d)**2-4*(a*b+b*c+c*d+d*a)', 'a**2*c+b**2*d-2*a*b*d']:
        out.append([t, 'a b c d', P4, []])
        out.append([t, 'a b c d', [], []])
        out.append([t, 'a b c d', ['a', 'c'], []])
    for t in ['a+b+c+d-2', 'a*b+c*d-2', 'a*d-b*c', 'a**2+b**2+c**2+d**2-4']:
        out.append([t, 'a b c d', ['a-1', 'b-1', 'c-1', 'd-1'], []])
        out.append([t, 'a b c d', P4, ['a+b+c+d-4']])
    out += [['a**2+b**2+c**2+d**2+e**2-a*b-b*c-c*d-d*e-e*a', 'a b c d e', [], []], ['a*b*c+d*e', 'a b c d e', ['a', 'b', 'c', 'd', 'e'], []]]
    return out


def constants():
    return [['1', 'x', [], []], ['-1', 'x', [], []], ['2', 'a b c', POS3, []], ['-2', 'a b c', POS3, []], ['5', 'x', ['x'], ['x-1']], ['-1', 'x', ['x', '-x-1'], []], ['x', 'x', ['x'], []], ['-x', 'x', ['x'], []], ['x**2', 'x', [], []], ['3/7', 'x y', ['x-y'], []]]


def all_problems(q):
    out, seen = [], set()
    for part in (constants(), univariate(q), bivariate(q), equality(q), ternary(q), quaternary(q)):
        for p in part:
            k = repr(p)
            if k not in seen:
                seen.add(k)
                out.append(p)
    return out
