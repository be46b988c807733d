"""Shared decision for 'a returned certificate proves the problem' (used by every prover property)."""
import json
import os
from fractions import Fraction as F

import sympy as sp

from . import oracle as O
from .core import VERIF

_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        _corpus = json.load(open(os.path.join(VERIF, 'data', 'corpus.json')))
    return _corpus


def syms(names):
    return [sp.Symbol(n) for n in names]


def poly_from_terms(terms, gens):
    """terms: [[coef (int or 'p/q'), e1, e2, ...], ...]"""
    return sp.Poly.from_dict({tuple(t[1:]): sp.Rational(t[0]) for t in terms}, *gens)


POS_VALS = [F(0), F(1), F(2), F(1, 3), F(5)]
REAL_VALS = [F(0), F(1), F(-1), F(2), F(-3)]
POS_SMALL = [F(0), F(1), F(3)]
REAL_SMALL = [F(0), F(1), F(-2)]


def default_points(n, real):
    if n <= 2:
        v = (REAL_VALS + [F(7, 2), F(-5, 7)]) if real else POS_VALS + [F(7, 2), F(9)]
    elif n == 3:
        v = REAL_VALS if real else POS_VALS
    else:
        v = REAL_SMALL if real else POS_SMALL
    pts = list(O.grid(n, v)) if n <= 5 else [p for p in O.grid(n, v) if sum(x != 0 for x in p) <= 3]
    return pts


def fast_negative(poly, pts):
    """first point of pts with poly < 0 (plain rational polynomials), else None"""
    terms = [(F(int(c.p), int(c.q)), m) for m, c in poly.terms()] if all(c.is_Rational for c in poly.coeffs()) else None
    if terms is None:
        return None
    for pt in pts:
        s = F(0)
        for c, m in terms:
            for x, e in zip(pt, m):
                if e:
                    c = c * x ** e
            s += c
        if s < 0:
            return pt
    return None


def check(ctx, call, problem, ineq, eq, points, must_none=None, label='', equal_flag=True, must_solve=None, key=None):
    """Run call() -> solution or None and decide the certificate contract.
    points: candidate points for the nonnegativity half; must_none: a feasible point where the problem is
    negative (then no certificate may be returned); must_solve: reason why a certificate must exist."""
    sol = call()
    ctx.step()
    if sol is None:
        ctx.outcome('none' + ('-negative' if must_none is not None else ''))
        if must_none is None and must_solve is None:
            ctx.trivial()
        if must_none is not None:
            ctx.valid()
        if must_solve is not None:
            ctx.fail('%s: no certificate although %s' % (label, must_solve), key)
        return None
    if must_none is not None:
        ctx.fail('%s: certificate %s returned but the problem is negative at the feasible point %s' % (
            label, O._s(sol.solution), [str(x) for x in must_none]), key)
        return sol
    if sol.solution is None:
        ctx.fail('%s: solution object without an expression' % label, key)
        return sol
    c = O.Certificate(problem, ineq, eq, sol.solution)
    try:
        msg = c.check_identity(3)
    except KeyError as e:
        ctx.fail('%s: certificate %s contains a symbol without meaning: %s' % (label, O._s(sol.solution), e), key)
        return sol
    ctx.valid()
    if msg and equal_flag:
        # an inexact certificate is allowed only when it says so
        if getattr(sol, 'is_equal', True):
            ctx.fail('%s: %s; certificate %s' % (label, msg, O._s(sol.solution)), key)
        else:
            ctx.outcome('declared-inexact')
        return sol
    n, msg = c.check_nonneg(points)
    ctx.valid(n)
    if msg:
        ctx.fail('%s: %s; certificate %s' % (label, msg, O._s(sol.solution)), key)
    ctx.outcome('solved')
    ctx.state(sp.srepr(sol.solution) if len(str(sol.solution)) < 3000 else str(sol.solution)[:3000])
    return sol
