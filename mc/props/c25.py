"""C25: conversion to elementary symmetric coordinates is an exact inverse of substitution."""
import itertools
from fractions import Fraction as F

import mpmath
import sympy as sp

from .. import oracle as O
from ..core import Family

mpmath.mp.dps = O.MPDPS

TITLE = 'elementary symmetric coordinates are exact'
BUDGET = {'quick': 90, 'thorough': 900}
HANG = True    # cases take a second at most: one that never ends is reported
NAMES = {0: 'a b c', 1: 'x y z', 2: 'c a b', 3: 'p q r', 4: 'r p q', 5: 's1 s2 s3', 6: 's3 s1 s2'}
PTS = [(F(3, 7), F(-5, 3), F(11, 2)), (F(2), F(-1, 3), F(7, 5)), (F(-4), F(9, 2), F(1, 6)), (F(1, 3), F(3), F(-8, 3))]


def pqr():
    import triples.utils.expression.pqr as m
    return m


def orbits(n, d, cyc):
    out, seen = [], set()
    els = O.group_closure([tuple(range(1, n)) + (0,)] if cyc else [tuple(range(1, n)) + (0,)] + ([(1, 0) + tuple(range(2, n))] if n > 1 else []), n)
    for m in itertools.product(range(d + 1), repeat=n):
        if sum(m) != d or m in seen:
            continue
        orb = sorted({tuple(m[g[i]] for i in range(n)) for g in els})
        seen |= set(orb)
        out.append(orb)
    return out


COEF = {'1': sp.S(1), '-2': sp.S(-2), '1/2': sp.Rational(1, 2), 's': sp.sqrt(2), 'k': sp.Symbol('k'), 'K': 2 * sp.Symbol('k')**2 - 3, 'h': sp.S(10)**25, 's1': sp.Symbol('s1'), 'S2': sp.Symbol('s2') - 2 * sp.Symbol('s3')}
ENVX = {sp.Symbol('k'): F(5, 4), sp.Symbol('s1'): F(7, 3), sp.Symbol('s2'): F(-5, 6), sp.Symbol('s3'): F(2, 11)}


def build(spec, n, cyc, gens):
    """spec: [(degree, orbit index, coefficient name)]"""
    d = {}
    for deg, i, c in spec:
        for m in orbits(n, deg, cyc)[i]:
            d[m] = d.get(m, 0) + COEF[c]
    return sp.Poly(d, *gens) if d else sp.Poly(0, *gens)


def elem(vals):
    """elementary symmetric values e1..en"""
    n = len(vals)
    out = []
    for k in range(1, n + 1):
        s = F(0)
        for c in itertools.combinations(vals, k):
            t = F(1)
            for x in c:
                t *= x
            s += t
        out.append(s)
    return out


def run(ctx, case):
    n, cyc, spec, ni, custom = case
    gens = sp.symbols(NAMES[ni])[:n] if n <= 3 else sp.symbols('a b c d e')[:n]
    if custom == 4:
        gens = sp.symbols('a b c d e', positive=True)[:n]
    if n == 1:
        gens = (gens[0],) if not isinstance(gens, sp.Symbol) else (gens,)
    poly = build(spec, n, cyc, gens)
    syms = sp.symbols('p q r') if not custom else sp.symbols('u v w s t')[:n]
    if custom == 2:
        syms = tuple(gens)[::-1]            # the caller may reuse the polynomial's own names
    if custom == 3:
        syms = sp.symbols('s2 s3 s1 s5 s4')[:n]   # names the conversion may use internally
    if custom == 4:
        syms = sp.symbols('u v w s t', real=True)[:n]
    extra = set().union(*(COEF[c].free_symbols for _, _, c in spec))
    m = pqr()
    if cyc:
        f, g = m.pqr_cyc(poly, syms if custom else None)
        ctx.step()
    else:
        f, g = m.pqr_sym(poly, syms if custom else None), sp.S(0)
        ctx.step()
        if n == 3:
            f2, g2 = m.pqr_cyc(poly, syms if custom else None)
            ctx.step()
            ctx.require(sp.sympify(g2) == 0, 'pqr_cyc of the symmetric %s has an antisymmetric part %s' % (poly.as_expr(), g2))
            ctx.require(sp.expand(f2 - f) == 0, 'pqr_cyc and pqr_sym differ on %s: %s / %s' % (poly.as_expr(), f2, f))
    bad = (set(sp.sympify(f).free_symbols) | set(sp.sympify(g).free_symbols)) - set(syms) - extra
    ctx.require(not bad, 'result %s, %s of %s has foreign symbols %s' % (f, g, poly.as_expr(), bad))
    if bad:
        return
    pts = [tuple(x[i % 3] + F(i // 3) * 5 for i in range(n)) for x in PTS]
    for pt in pts:
        env = {**ENVX, **dict(zip(gens, pt))}
        e = {**ENVX, **dict(zip(syms, elem(pt)))}
        want = O.ev(poly.as_expr(), env)
        got = O.ev(sp.sympify(f), e)
        if cyc:
            a, b, c = pt
            alt = (a - b) * (b - c) * (c - a)
            got = O._mixed(lambda x, y: x + y, got, O._mixed(lambda x, y: x * y, O.ev(sp.sympify(g), e), alt))
        ctx.require(O.close(got, want), '%s at %s is %s but its coordinates (%s, %s) give %s' % (poly.as_expr(), pt, want, f, g, got))
    ctx.state((str(f), str(g)))


def run_reject(ctx, case):
    """polynomials outside the class are refused, never mis-converted"""
    d, mask, cyc = case
    gens = sp.symbols('a b c')
    ms = [m for m in itertools.product(range(d + 1), repeat=3) if sum(m) == d]
    co = mask if isinstance(mask, (tuple, list)) else [mask >> i & 1 for i in range(len(ms))]
    terms = {m: sp.S(c) for m, c in zip(ms, co) if c}
    poly = sp.Poly(terms, *gens) if terms else sp.Poly(0, *gens)
    els = O.group_closure([(1, 2, 0)] if cyc else [(1, 2, 0), (1, 0, 2)], 3)
    inv = all({tuple(m[g[i]] for i in range(3)): v for m, v in terms.items()} == terms for g in els)
    try:
        r = pqr().pqr_cyc(poly) if cyc else pqr().pqr_sym(poly)
    except ValueError:
        r = None
    ctx.step()
    ctx.outcome('refused' if r is None else 'converted')
    ctx.require((r is not None) == inv, 'pqr_%s(%s) %s but the polynomial is %s' % (
        'cyc' if cyc else 'sym', poly.as_expr(), 'refused' if r is None else 'returned %s' % (r,), 'invariant' if inv else 'not invariant'))
    if r is None or not inv:
        return
    f, g = r if cyc else (r, sp.S(0))
    for pt in PTS[:3]:
        e = dict(zip(sp.symbols('p q r'), elem(pt)))
        a, b, c = pt
        got = O.ev(sp.sympify(f), e) + O.ev(sp.sympify(g), e) * (a - b) * (b - c) * (c - a)
        ctx.require(got == O.ev(poly.as_expr(), dict(zip(gens, pt))), '%s converts to %s' % (poly.as_expr(), r))


def run_ker(ctx, case):
    syms = None if case == 0 else sp.symbols('x y z')
    k = pqr().pqr_ker(syms)
    ctx.step()
    for pt in PTS + [(F(1), F(1), F(0)), (F(5), F(-2), F(1, 9))]:
        a, b, c = pt
        e = dict(zip(syms or sp.symbols('p q r'), elem(pt)))
        ctx.require(O.ev(k, e) == ((a - b) * (b - c) * (c - a)) ** 2, 'pqr_ker at %s' % (pt,))


def cases(tier):
    dmax = 10 if tier == 'quick' else 13
    out = []
    for d in range(0, dmax + 1):
        for cyc in (False, True):
            orb = orbits(3, d, cyc)
            for i in range(len(orb)):
                for c in COEF:
                    out.append((3, cyc, ((d, i, c),), 0, 0))
                for ni in (1, 2, 3, 4, 5, 6) if d <= 8 else (2, 6):
                    for cu in (0, 1, 2, 3) + ((4,) if ni == 2 else ()):
                        out.append((3, cyc, ((d, i, '1/2'),), ni, cu))
            if d <= (6 if tier == 'quick' else 8):
                for i, j in itertools.combinations(range(len(orb)), 2):
                    out.append((3, cyc, ((d, i, '1'), (d, j, '-2')), 0, 0))
                    out.append((3, cyc, ((d, i, '1/2'), (d, j, 'k')), 1, 1))
            for d2 in range(0, d):
                o2 = orbits(3, d2, cyc)
                for i in range(len(orb)):
                    j = i % len(o2)
                    out.append((3, cyc, ((d, i, '1'), (d2, j, '-2')), 0, 0))
    for n in (1, 2, 4, 5):
        for d in range(0, {1: 6, 2: 7, 4: 5, 5: 4}[n] + (0 if tier == 'quick' else 1)):
            orb = orbits(n, d, False)
            for i in range(len(orb)):
                for c in ('1', 'k', '1/2'):
                    out.append((n, False, ((d, i, c),), 0, 1))
    return out


def reject_cases(tier):
    out = []
    for d in (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3):
        k = (d + 1) * (d + 2) // 2
        for mask in range(1 << k):
            for cyc in (False, True):
                out.append((d, mask, cyc))
    return out


def tern_cases(tier):
    out = []
    for d in (1, 2) if tier == 'quick' else (1, 2, 3):
        k = (d + 1) * (d + 2) // 2
        for co in itertools.product((0, 1, -1), repeat=k):
            if -1 in co:
                for cyc in (False, True):
                    out.append((d, co, cyc))
    return out


def families(tier):
    return [
        Family('orbits', cases, run, timeout=60, chunk=8, share=3,
               bound='every cyclic/symmetric orbit sum of degree <= %d, pairs of them, mixed degrees, 9 coefficient kinds, 7 generator namings, 5 target namings; 1, 2, 4, 5 variables' % (10 if tier == 'quick' else 13)),
        Family('class', reject_cases, run_reject, timeout=60, chunk=32, bound='all 0/1 ternary forms of degree <= 3'),
        Family('class-signed', tern_cases, run_reject, timeout=60, chunk=32, bound='all -1/0/1 ternary forms of degree <= %d' % (2 if tier == 'quick' else 3)),
        Family('kernel', [0, 1], run_ker, bound='both'),
    ]
