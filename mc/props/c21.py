"""C21: rational approximation helpers honour their contracts."""
import itertools
import math
from fractions import Fraction as F

import sympy as sp

from ..core import Family

TITLE = 'rational approximation helpers honour their contracts'
BUDGET = {'quick': 150, 'thorough': 1200}
HANG = True    # cases take a second at most: one that never ends is reported


def mod():
    import triples.utils.roots as R
    return R


# ------------------------------------------------------------------ numbers

def numbers(tier):
    """exact values written as strings 'kind:value'; kind f = python float, F = sympy Float, r = Rational, i = int, n = numpy float"""
    base = [F(0), F(1), F(2), F(3), F(7), F(10), F(100), F(12345), F(1, 2), F(1, 3), F(2, 3), F(3, 7), F(22, 7), F(355, 113), F(1, 10), F(1, 100), F(1, 1000), F(999, 1000), F(1001, 1000),
            F(5, 2), F(17, 5), F(123, 1000), F(31, 32), F(1, 1024), F(4097, 4096), F(123457, 1000), F(10 ** 6), F(10 ** 6 + 1, 3), F(1, 10 ** 6), F(3, 10 ** 7), F(1, 10 ** 9), F(1, 10 ** 12), F(10 ** 9 + 7, 11)]
    base += [F(math.sqrt(2)), F(math.pi), F(math.e), F(math.sqrt(5) / 2 + .5), F(math.sqrt(3) / 1000), F(1000 * math.sqrt(7)), F(2 ** 0.25)]
    base += [F(p, q) for q in range(2, 8 if tier == 'quick' else 24) for p in range(1, q + 2) if math.gcd(p, q) == 1]
    base += [F(1) + s * F(1, 10 ** k) for k in (3, 5, 7, 9, 12) for s in (1, -1)]
    base += [F(1, 2) + s * F(1, 10 ** k) for k in (3, 5, 7, 9) for s in (1, -1)]
    seen, out = set(), []
    for b in base:
        for s in (1, -1):
            if s * b not in seen:
                seen.add(s * b)
                out.append(s * b)
    return out


def make(kind, v):
    import numpy as np
    if kind == 'f':
        return float(v)
    if kind == 'n':
        return np.float64(float(v))
    if kind == 'F':
        return sp.Float(sp.Rational(v.numerator, v.denominator))
    if kind == 'P':
        return sp.Float(sp.Rational(v.numerator, v.denominator), 40)
    if kind == 'r':
        return sp.Rational(v.numerator, v.denominator)
    return int(v)


def exact(x):
    """the exact rational a given number is"""
    if isinstance(x, (float, int)):
        return F(x)
    if isinstance(x, sp.Float):
        r = sp.Rational(x)
        return F(int(r.p), int(r.q))
    return F(int(x.p), int(x.q))


def ex(q):
    return F(int(q.p), int(q.q))


TOLS = [0.5, 0.2, 1e-1, 5e-2, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-10]


def run_rationalize(ctx, case):
    R = mod()
    kind, num, den = case
    v = make(kind, F(num, den))
    x = exact(v)
    for tol in TOLS:
        r = R.rationalize(v, rounding=tol, reliable=False)
        ctx.step()
        if not ctx.require(isinstance(r, sp.Rational), 'rationalize(%r, rounding=%g) = %r is not a rational number' % (v, tol, r)):
            return
        slack = abs(x) * F(1, 10 ** 14)      # the last digits of a float
        ctx.require(abs(ex(r) - x) <= F(tol) * F(1001, 1000) + slack, 'rationalize(%r, rounding=%g) = %s is off by %g' % (v, tol, r, abs(float(ex(r) - x))))
        if kind in 'ri':
            ctx.require(ex(r) == x, 'rationalize(%r, rounding=%g) = %s changes a rational number' % (v, tol, r))
    r = R.rationalize(v, reliable=True)
    ctx.step()
    if not ctx.require(isinstance(r, sp.Rational), 'rationalize(%r, reliable=True) = %r is not a rational number' % (v, r)):
        return
    slack = abs(x) * F(1, 10 ** 9)
    ctx.require(abs(ex(r) - x) <= F(1, 10 ** 6) + slack, 'rationalize(%r, reliable=True) = %s is off by %g' % (v, r, abs(float(ex(r) - x))))
    if kind in 'ri':
        ctx.require(ex(r) == x, 'rationalize(%r, reliable=True) = %s changes a rational number' % (v, r))
    else:
        # a number that was a short fraction before rounding is recognised
        q = F(num, den)
        if q.denominator <= 25 and 1e-3 < abs(q) < 50:
            ctx.require(ex(r) == q, 'rationalize(%r, reliable=True) = %s, the fraction is %s' % (v, r, q))
    ctx.valid()
    ctx.state(case)


def cases_rationalize(tier):
    out = []
    for v in numbers(tier):
        for kind in 'fFPnr':
            out.append([kind, v.numerator, v.denominator])
        if v.denominator == 1:
            out.append(['i', v.numerator, 1])
    return out


def run_bound(ctx, case):
    R = mod()
    kind, num, den, direction, roundings, compulsory = case
    v = make(kind, F(num, den))
    x = exact(v)
    kw = {} if roundings is None else {'roundings': tuple(roundings)}
    got = list(R.rationalize_bound(v, direction=direction, compulsory=compulsory, **kw))
    ctx.step(len(got))
    label = 'rationalize_bound(%r, direction=%d, roundings=%s, compulsory=%s)' % (v, direction, roundings, compulsory)
    for r in got:
        if not ctx.require(isinstance(r, (sp.Rational, int)), '%s yields %r' % (label, r)):
            return
    vals = [ex(sp.S(r)) for r in got]
    if isinstance(v, sp.Rational):
        ctx.require(vals == [x], '%s yields %s' % (label, got))
        ctx.valid()
        return
    for r in vals:
        if direction == 1:
            ctx.require(r > x, '%s yields %s, which is not larger' % (label, r))
        elif direction == -1:
            ctx.require(r < x, '%s yields %s, which is not smaller' % (label, r))
    tols = list(roundings or (.5, .2, .1, .05, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8))
    widest = max(4.1 * max(tols), 0.11 if compulsory else 0)
    for r in vals:
        ctx.require(abs(r - x) <= F(widest) + abs(x) * F(1, 10 ** 13), '%s yields %s, which is %g away' % (label, r, float(abs(r - x))))
    if compulsory and abs(x) < 10 ** 4:
        # the offers get close
        ctx.require(vals and min(abs(r - x) for r in vals) <= F(1, 10 ** 7), '%s comes only within %g' % (label, float(min([abs(r - x) for r in vals] or [10 ** 9]))))
    ctx.valid()
    ctx.state((case[:4], len(vals)))


def cases_bound(tier):
    out = []
    for v in numbers(tier):
        for kind in 'fFnr':
            for d in (1, -1, 0):
                for ro in (None, [1e-2, 1e-4], [.3], [1e-5]):
                    for comp in (True, False):
                        if tier == 'quick' and (kind == 'n' or ro == [.3]) and comp:
                            continue
                        out.append([kind, v.numerator, v.denominator, d, ro, comp])
    return out


def run_array(ctx, case):
    R = mod()
    items, tol, reliable = case
    xs, want = [], []
    t = sp.Symbol('t')
    for kind, num, den in items:
        q = F(num, den)
        if kind == 't':
            xs.append((sp.Integer(num), sp.Integer(den)))
            want.append(('=', q))
        elif kind == 'x':
            xs.append(sp.sqrt(2) * num / den + sp.sqrt(3))
            want.append(('x', xs[-1]))
        elif kind in 'ri':
            xs.append(make(kind, q))
            want.append(('=', q if kind == 'r' else F(int(q))))
        else:
            v = make(kind, q)
            xs.append(v)
            e = exact(v)
            want.append(('0', F(0)) if abs(e) < F(tol) else ('~', e))
    got = R.rationalize_array(list(xs), tol=tol, reliable=reliable)
    ctx.step()
    label = 'rationalize_array(%s, tol=%g, reliable=%s)' % (xs, tol, reliable)
    if not ctx.require(len(got) == len(xs), '%s has %d entries' % (label, len(got))):
        return
    for g, (k, w) in zip(got, want):
        if k == 'x':
            ctx.require(sp.simplify(sp.sympify(g) - w) == 0, '%s: %s became %s' % (label, w, g))
            continue
        g = sp.sympify(g)
        if not ctx.require(isinstance(g, sp.Rational), '%s: %s is not a rational number' % (label, g)):
            return
        e = ex(g)
        if k in '=0':
            ctx.require(e == w, '%s: %s became %s' % (label, w, e))
        else:
            ctx.require(abs(e - w) <= (F(1, 10 ** 6) + abs(w) * F(1, 10 ** 9) if reliable else F(101, 10000)), '%s: %s became %s' % (label, float(w), e))
    ctx.valid()
    ctx.state((str(items), tol, reliable))


def cases_array(tier):
    pool = [['f', 1, 3], ['f', 0, 1], ['F', -22, 7], ['f', 1, 10 ** 8], ['F', 1, 10 ** 6], ['f', -3, 10 ** 4], ['r', 5, 7], ['i', 4, 1], ['t', 3, 9], ['x', 1, 2], ['f', 12345, 7], ['n', 5, 6]]
    k = 3 if tier == 'quick' else 4
    return [[list(map(list, p)), tol, rel] for n in range(k) for p in itertools.product(pool, repeat=n) for tol in (1e-7, 1e-3) for rel in (True, False)]


# ------------------------------------------------------------------ roots of univariate polynomials

X = sp.Symbol('x')
FACT = ['x', 'x-1', 'x+1', '2*x-1', '3*x+2', 'x**2-2', 'x**2+1', 'x**2-x-1', 'x**3-2', 'x**3-3*x+1', '100*x-99', 'x**2+x+1', '10**6*x**2-2', 'x-1000', 'x**2-10**6+1', 'x**4-5*x**2+5', 'x**2-2*x-1']


def polynomial(idx, lead):
    e = sp.S(lead)
    for i in idx:
        e = e * sp.sympify(FACT[i], locals={'x': X})
    return sp.Poly(e, X)


def sturm(P):
    """Sturm sequence of the squarefree part, as lists of Fractions (own arithmetic)"""
    c = [F(int(sp.Rational(t).p), int(sp.Rational(t).q)) for t in P.all_coeffs()]
    c = squarefree(c)
    seq = [c, deriv(c)]
    while len(seq[-1]) > 1 or (seq[-1] and seq[-1][0] != 0 and len(seq[-1]) > 1):
        r = [-t for t in rem(seq[-2], seq[-1])]
        if not any(r):
            break
        seq.append(r)
    return c, seq


def strip(c):
    c = list(c)
    while len(c) > 1 and c[0] == 0:
        c.pop(0)
    return c


def deriv(c):
    n = len(c) - 1
    return strip([t * (n - i) for i, t in enumerate(c[:-1])] or [F(0)])


def rem(a, b):
    a, b = strip(a), strip(b)
    while len(a) >= len(b) and any(a):
        k = a[0] / b[0]
        a = [x - k * (b[i] if i < len(b) else 0) for i, x in enumerate(a)][1:] or [F(0)]
    return strip(a)


def quo(a, b):
    a, b = strip(a), strip(b)
    out = []
    while len(a) >= len(b):
        k = a[0] / b[0]
        out.append(k)
        a = [x - k * (b[i] if i < len(b) else 0) for i, x in enumerate(a)][1:]
    return out or [F(0)]


def squarefree(c):
    a, b = strip(c), deriv(c)
    if not any(b):
        return a
    while any(b):
        a, b = b, rem(a, b)
    return quo(strip(c), a)


def value(c, x):
    s = F(0)
    for t in c:
        s = s * x + t
    return s


def variations(seq, x):
    s = [v for v in (value(c, x) for c in seq) if v != 0]
    return sum(1 for p, q in zip(s, s[1:]) if (p > 0) != (q > 0))


def count(c, seq, lo, hi):
    """distinct roots in (lo, hi]"""
    return variations(seq, lo) - variations(seq, hi)


def bound(c):
    return 2 + sum(abs(t / c[0]) for t in c[1:]) if len(c) > 1 else F(1)


def run_nroots(ctx, case):
    R = mod()
    idx, lead, method, real, nonneg = case
    P = polynomial(idx, lead)
    mult = len(set(idx)) != len(idx)
    got = R.nroots(P, method=method, real=real, nonnegative=nonneg)
    ctx.step()
    label = 'nroots(%s, %s, real=%s, nonnegative=%s)' % (P.as_expr().factor(), method, real, nonneg)
    c, seq = sturm(P)
    B = bound(c)
    nreal = count(c, seq, -B, B) if len(c) > 1 else 0
    nneg = count(c, seq, -B, F(0)) - (1 if value(c, F(0)) == 0 else 0) if len(c) > 1 else 0
    vals = [complex(t) for t in got]
    tol = 1e-3 if mult else 1e-6
    allr = [complex(t) for i in set(idx) for t in sp.Poly(sp.sympify(FACT[i], locals={'x': X}), X).nroots(n=30)]
    for t in vals:
        near = min([abs(t - r) for r in allr] or [9e9])
        ctx.require(near <= tol * max(1, abs(t)), '%s: %s is not near a root' % (label, t))
    if not real and not nonneg:
        want = P.degree() if method != 'factor' else len(c) - 1
        ctx.require(len(vals) == want, '%s: %d roots, expected %d' % (label, len(vals), want))
        for r in allr:
            ctx.require(any(abs(t - r) <= tol * max(1, abs(r)) for t in vals), '%s misses %s' % (label, r))
    if real or nonneg:
        for t in got:
            ctx.require(sp.S(t).is_real is True, '%s: %s is not real' % (label, t))
        if nonneg:
            ctx.require(all(t >= 0 for t in got), '%s: %s is negative' % (label, got))
    if method == 'factor':
        rat = [v for v in got if isinstance(v, sp.Rational)]
        ctx.require(all(P.eval(v) == 0 for v in rat), '%s: %s are not all roots' % (label, rat))
        exact_rational = set()
        for i in set(idx):
            p = sp.Poly(sp.sympify(FACT[i], locals={'x': X}), X)
            if p.degree() == 1:
                exact_rational.add(-p.all_coeffs()[1] / p.all_coeffs()[0])
        if nonneg:
            exact_rational = {v for v in exact_rational if v >= 0}
        ctx.require(exact_rational <= set(rat), '%s: the rational roots are %s, got %s' % (label, exact_rational, got))
    if real and not nonneg and (method == 'factor' or (method == 'sympy' and not mult)):
        want = nreal
        ctx.require(len(got) == want, '%s: %d real roots, there are %d' % (label, len(got), want))
    if nonneg and (method == 'factor' or (method == 'sympy' and not mult)):
        ctx.require(len(got) == nreal - nneg, '%s: %d nonnegative roots, there are %d' % (label, len(got), nreal - nneg))
    ctx.valid()
    ctx.state(case)


def combos(tier, kmax):
    n = len(FACT)
    for k in range(1, kmax + 1):
        for idx in itertools.combinations_with_replacement(range(n), k):
            if k == 3 and tier == 'quick' and sum(idx) % 3:
                continue
            yield list(idx)


def cases_nroots(tier):
    out = []
    for idx in combos(tier, 2 if tier == 'quick' else 3):
        for lead in ('1', '-2', '1/3'):
            if lead != '1' and sum(idx) % 2:
                continue
            for method in ('numpy', 'sympy', 'factor'):
                if method == 'sympy' and len(set(idx)) != len(idx):
                    continue       # documented to be unstable for repeated roots
                for real, nn in ((False, False), (True, False), (True, True), (False, True)):
                    out.append([idx, lead, method, real, nn])
    return out


def run_intervals(ctx, case):
    R = mod()
    groups, single, which = case
    polys = [polynomial(g, '1') for g in groups]
    if which == 'lib':
        arg = polys[0] if single else polys
        got = list(R.univariate_intervals(arg))
    else:
        try:
            from triples.core.structsos.utils import intervals
        except ImportError:
            ctx.trivial()
            return
        got = list(intervals(polys))
    ctx.step(len(got))
    label = 'intervals of %s' % [p.as_expr().factor() for p in polys]
    c, seq = sturm(sp.Poly(sp.prod([p.as_expr() for p in polys]), X))
    B = bound(c)
    n = count(c, seq, -B, B) if len(c) > 1 else 0
    for v in got:
        if not ctx.require(isinstance(v, sp.Rational), '%s: %s is not rational' % (label, v)):
            return
    vs = [ex(v) for v in got]
    if n == 0:
        ctx.require(vs == ([] if which == 'lib' else [F(0)]), '%s: %s, there are no real roots' % (label, got))
        ctx.valid()
        return
    ctx.require(vs == sorted(vs) and len(set(vs)) == len(vs), '%s: %s are not increasing' % (label, got))
    # every root is one of the points or alone between two consecutive ones
    total = sum(1 for v in vs if value(c, v) == 0)
    for lo, hi in zip(vs, vs[1:]):
        k = count(c, seq, lo, hi) - (1 if value(c, hi) == 0 else 0)
        ctx.require(k <= 1, '%s: %d roots between %s and %s' % (label, k, lo, hi))
        total += k
    ctx.require(total == n, '%s: %s account for %d of %d roots' % (label, got, total, n))
    ctx.valid()
    ctx.state((str(groups), single, which))


def cases_intervals(tier):
    out = []
    sets = [[g] for g in combos(tier, 3)]
    one = list(combos(tier, 1)) if tier == 'quick' else [g for g in combos(tier, 2) if sum(g) % 2 == 0]
    sets += [[g, h] for g in one for h in one]
    sets += [[[i], [j], [k]] for i in range(0, len(FACT), 2) for j in range(1, len(FACT), 3) for k in range(0, len(FACT), 4)]
    for s in sets:
        if len(s) == 1:
            out.append([s, True, 'lib'])
        out.append([s, False, 'lib'])
        out.append([s, False, 'struct'])
    return out


# ------------------------------------------------------------------ search for a rational number near a root

CONDS = {
    'any': lambda t: True, 'positive': lambda t: t > 0, 'nonpositive': lambda t: t <= 0, 'small': lambda t: -2 <= t <= 2, 'band': lambda t: F(1, 2) < t < F(3, 2), 'never': lambda t: False,
    'sq': lambda t: t * t <= 2, 'sq2': lambda t: t * t >= 2, 'tight': lambda t: abs(t * t - 2) < F(1, 1000), 'cubic': lambda t: t ** 3 - 3 * t + 1 >= 0, 'golden': lambda t: t * t - t - 1 <= 0,
}


def run_func(ctx, case):
    try:
        from triples.core.structsos.utils import rationalize_func
    except ImportError:
        ctx.trivial()
        return
    idx, lead, cond, direction, initial = case
    P = polynomial(idx, lead)
    asked = []

    def validation(t):
        asked.append(t)
        return bool(CONDS[cond](t))
    kw = {}
    if initial:
        kw['validation_initial'] = lambda t: True
    got = rationalize_func(P, validation, direction=direction, **kw)
    ctx.step(len(asked) + 1)
    label = 'rationalize_func(%s, %s, direction=%d, initial=%s)' % (P.as_expr().factor(), cond, direction, initial)
    if got is None:
        # a rational root that satisfies the condition is always found
        for i in set(idx):
            p = sp.Poly(sp.sympify(FACT[i], locals={'x': X}), X)
            if p.degree() == 1:
                r = -p.all_coeffs()[1] / p.all_coeffs()[0]
                ctx.require(not CONDS[cond](r), '%s: nothing, but the root %s satisfies it' % (label, r))
        if initial and cond == 'any':
            c, seq = sturm(P)
            B = bound(c)
            ctx.require(len(c) <= 1 or (direction and len(set(idx)) < len(idx)) or count(c, seq, -B, B) == 0, '%s: nothing although there is a real root' % label)
        ctx.valid()
        ctx.state((idx, cond, direction, initial, 'none'))
        return
    if not ctx.require(isinstance(got, sp.Rational), '%s = %r is not rational' % (label, got)):
        return
    ctx.require(bool(CONDS[cond](got)), '%s = %s does not satisfy the condition' % (label, got))
    if direction:
        ctx.require(P.eval(got) * direction >= 0, '%s = %s where the polynomial is %s' % (label, got, P.eval(got)))
    # near a root
    real = [float(r) for i in set(idx) for r in sp.Poly(sp.sympify(FACT[i], locals={'x': X}), X).nroots(n=20) if r.is_real]
    ctx.require(real and min(abs(float(got) - r) for r in real) <= 2.6, '%s = %s is not near a root' % (label, got))
    ctx.valid()
    ctx.state((idx, cond, direction, initial, str(got)))


def cases_func(tier):
    return [[g, lead, c, d, i] for g in combos(tier, 2) for lead in ('1', '-2') for c in CONDS for d in (0, 1, -1) for i in (True, False)
            if tier != 'quick' or len(g) < 2 or (sum(g) % 3 == 0 and lead == '1')]


def run_const(ctx, case):
    try:
        from triples.core.structsos.utils import rationalize_func
    except ImportError:
        ctx.trivial()
        return
    kind, num, den, cond, direction = case
    v = make(kind, F(num, den))
    got = rationalize_func(v, lambda t: bool(CONDS[cond](t)), direction=direction)
    ctx.step()
    label = 'rationalize_func(%r, %s, direction=%d)' % (v, cond, direction)
    if got is None:
        if kind == 'r':
            ctx.require(not CONDS[cond](v), '%s: nothing although the number itself qualifies' % label)
        ctx.valid()
        return
    if not ctx.require(isinstance(got, (sp.Rational, int)), '%s = %r is not rational' % (label, got)):
        return
    ctx.require(bool(CONDS[cond](got)), '%s = %s does not satisfy the condition' % (label, got))
    if kind != 'r' and direction:
        ctx.require((ex(sp.S(got)) - exact(v)) * direction > 0, '%s = %s is on the wrong side' % (label, got))
    ctx.valid()
    ctx.state((case, str(got)))


def cases_const(tier):
    return [[k, v.numerator, v.denominator, c, d] for v in numbers(tier) if abs(v) < 10 for k in 'fr' for c in CONDS for d in (0, 1, -1)]


# ------------------------------------------------------------------ squares and denominators

def is_square(q):
    if q < 0:
        return False
    return math.isqrt(q.numerator) ** 2 == q.numerator and math.isqrt(q.denominator) ** 2 == q.denominator


def run_square(ctx, case):
    R = mod()
    p, q, times = case
    a, b = F(*p), F(*q)
    if is_square(a / b):
        ctx.trivial()
        return
    got = list(R.square_perturbation(sp.Rational(*p), sp.Rational(*q), times=times))
    ctx.step(len(got))
    label = 'square_perturbation(%s, %s, times=%d)' % (a, b, times)
    for t in got:
        if not ctx.require(isinstance(t, (sp.Rational, int)), '%s yields %r' % (label, t)):
            return
        t = ex(sp.S(t))
        ctx.require(0 <= t <= min(a, b), '%s yields %s' % (label, t))
        if t != b:
            ctx.require(is_square((a - t) / (b - t)), '%s yields %s; the quotient %s is not a square' % (label, t, (a - t) / (b - t)))
        else:
            ctx.fail('%s yields %s, which makes the denominator zero' % (label, t))
    ctx.require(len(got) <= times, '%s yields %d values' % (label, len(got)))
    if times >= 4:
        ctx.require(got, '%s yields nothing' % label)
    ctx.valid()
    ctx.state((case, len(got)))


def cases_square(tier):
    top = 13 if tier == 'quick' else 40
    vals = sorted({F(p, q) for p in range(1, top) for q in (1, 2, 3, 7)} | {F(1000), F(10 ** 6 + 3), F(1, 1000), F(999, 1000), F(10 ** 4 + 1, 10 ** 4)})
    return [[[a.numerator, a.denominator], [b.numerator, b.denominator], t] for a in vals for b in vals for t in (1, 4) if a != b]


def run_cancel(ctx, case):
    R = mod()
    xs = [sp.Rational(*v) if v != 'x' else sp.sqrt(2) for v in case]
    got = R.cancel_denominator(xs)
    ctx.step()
    rat = [F(*v) for v in case if v != 'x']
    label = 'cancel_denominator(%s)' % xs
    if not ctx.require(isinstance(got, (sp.Rational, int)), '%s = %r' % (label, got)):
        return
    g = ex(sp.S(got))
    if len(rat) <= 1:
        ctx.require(g == 1, '%s = %s' % (label, g))
    elif not any(rat):
        ctx.trivial()
        return
    else:
        if not ctx.require(g > 0, '%s = %s' % (label, g)):
            return
        z = [v / g for v in rat]
        ctx.require(all(v.denominator == 1 for v in z), '%s = %s leaves %s' % (label, g, z))
        k = 0
        for v in z:
            k = math.gcd(k, v.numerator)
        ctx.require(k == 1, '%s = %s leaves the common factor %d' % (label, g, k))
    ctx.valid()
    ctx.state(case)


def cases_cancel(tier):
    pool = [[1, 1], [2, 1], [-4, 1], [0, 1], [1, 2], [3, 4], [-5, 6], [12, 35], [6, 1], [9, 10], 'x']
    return [list(p) for k in range(5 if tier == 'quick' else 6) for p in itertools.combinations_with_replacement(pool, k)]


# ------------------------------------------------------------------ rational points of conics

def run_curve(ctx, case):
    R = mod()
    coef, mode, order, one = case
    x, y = sp.symbols('x y')
    gens = (x, y) if order == 'xy' else (y, x)
    e = conic(coef, x, y)
    P = sp.Poly(e, *gens)
    kw = {}
    pt = None
    if mode == 'point':
        if not any(t != '0' for t in coef[:3]):
            ctx.trivial()
            return
        pts = [(F(p), F(q)) for p in range(-3, 4) for q in range(-3, 4) if cval(coef, F(p), F(q)) == 0]
        if not pts:
            ctx.trivial()
            return
        pt = pts[0]
        val = {x: sp.Integer(int(pt[0])), y: sp.Integer(int(pt[1]))}
        kw['point'] = val if one else tuple(val[g] for g in gens)
    t = sp.Symbol('t')
    got = R.rationalize_quadratic_curve(P, one_point=one, **kw)
    ctx.step()
    label = 'rationalize_quadratic_curve(%s, %s, one_point=%s)' % (P, kw, one)
    if got is None:
        ctx.valid()
        ctx.state((coef, mode, one, 'none'))
        return
    if not ctx.require(isinstance(got, dict) and set(got) == {x, y}, '%s = %s' % (label, got)):
        return
    r = sp.cancel(sp.together(e.xreplace({x: got[x], y: got[y]})))
    ctx.require(sp.simplify(r) == 0, '%s = %s is not on the curve' % (label, got))
    if one:
        ctx.require(all(isinstance(sp.S(v), sp.Rational) for v in got.values()), '%s = %s is not a rational point' % (label, got))
    else:
        ctx.require(all(sp.S(v).free_symbols <= {t} for v in got.values()), '%s = %s' % (label, got))
    ctx.valid()
    ctx.state((coef, mode, one, str(got)))


def conic(c, x, y):
    a, b, d, e, f, g = [sp.Rational(t) for t in c]
    return a * x**2 + b * x * y + d * y**2 + e * x + f * y + g


def cval(c, x, y):
    a, b, d, e, f, g = [F(t) for t in c]
    return a * x * x + b * x * y + d * y * y + e * x + f * y + g


CONICS = ['1 0 1 0 0 -1', '1 0 1 0 0 -2', '1 0 1 0 0 -3', '1 0 2 0 0 -3', '2 0 1 0 0 -1', '1 0 -1 0 0 -1', '1 0 -2 0 0 -1', '1 0 -2 0 0 1', '3 0 1 0 0 -1', '1 1 1 0 0 -1', '1 1 1 0 0 -7', '1 0 1 1 0 -1', '1 0 1 2 4 -4', '2 1 3 1 0 -2',
          '-1 0 -1 0 0 1', '-1 0 -2 1 0 3', '1/2 0 1/3 0 0 -1', '1 0 1 0 0 1', '1 -1 2 0 1 -3', '1 3 1 0 0 -1', '2 0 3 0 0 -5', '1 0 1 -1 -1 0', '1 0 5 0 0 -6', '4 0 9 0 0 -36', '4 0 1 0 0 -1', '1 0 1 1 1 -1',
          # shifted and rotated parabolas, parallel lines, crossing lines
          '1 0 0 -2 -1 1', '1 0 0 -3 1 2', '1 0 0 -2 0 -3', '2 0 0 3 0 1', '1 2 1 2 2 -3', '1 2 1 -4 -4 3', '1 -2 1 1 0 0', '4 4 1 0 1 -1', '1 2 1 3 -1 2', '1 0 0 2 0 -1', '1 2 1 1 1 0', '1 0 -1 2 0 1', '1 1 -2 1 -1 0', '0 0 1 1 -2 1', '0 1 1 -1 -1 0', '-1 0 0 2 3 -1']


def cases_curve(tier):
    out = []
    cs = [c.split() for c in CONICS + REG if any(t != '0' for t in c.split()[:5])]
    if tier != 'quick':
        cs += [list(map(str, c)) for c in itertools.product((1, 2, 3), (0, 1), (-1, 1, 2), (0, 1), (0, -2), (-1, -3, 2))]
    for c in cs:
        for mode in ('free', 'point'):
            for order in ('xy', 'yx'):
                for one in (True, False):
                    out.append([c, mode, order, one])
    return out


REG = ['1 0 1 0 0 -1', '-1 0 -1 0 0 1', '-1 0 -1 0 0 1/100', '0 1 0 0 0 -1', '0 -1 0 0 0 4', '1 0 -1 0 0 0', '0 0 0 1 0 0', '0 0 0 0 1 -1', '0 0 0 -1 -1 1', '-1 0 0 0 1 0', '0 0 0 0 0 1', '0 0 0 0 0 -1', '-1 0 -1 0 0 0', '-1 0 -2 2 0 -1',
       '-1 0 -1 0 0 -1', '0 1 0 0 0 0', '-1 2 -1 0 0 0', '-2 1 -3 1 1 1', '1 0 1 -4 0 3', '0 0 0 0 0 0', '-1 0 -1 4 0 -3', '-1 1 -1 1 0 -1/3', '0 0 -1 0 0 2', '-1 0 0 2 0 -2', '-2 0 0 0 2 0']


def run_region(ctx, case):
    R = mod()
    idx, order = case
    x, y = sp.symbols('x y')
    gens = (x, y) if order == 'xy' else (y, x)
    cs = [REG[i].split() for i in idx]
    polys = [sp.Poly(conic(c, x, y), *gens, domain='QQ') for c in cs]
    got = R.common_region_of_conics(list(polys))
    ctx.step()
    label = 'common_region_of_conics(%s)' % [p.as_expr() for p in polys]
    if got is None:
        # plainly satisfiable at the centre of a region of some size: only the simplest cases are promised
        ctx.valid()
        ctx.state((idx, order, 'none'))
        return
    if not ctx.require(len(got) == 2 and all(isinstance(sp.S(v), sp.Rational) for v in got), '%s = %s is not a rational point' % (label, got)):
        return
    px, py = (ex(sp.S(v)) for v in (got if order == 'xy' else got[::-1]))
    for c in cs:
        ctx.require(cval(c, px, py) >= 0, '%s = %s where one of them is %s' % (label, got, cval(c, px, py)))
    ctx.valid()
    ctx.state((idx, order, str(got)))


def cases_region(tier):
    n = len(REG)
    out = [[list(p), o] for k in (1, 2) for p in itertools.permutations(range(n), k) for o in ('xy', 'yx') if tier != 'quick' or o == 'xy' or k == 1]
    out += [[list(p), 'xy'] for p in itertools.combinations(range(n), 3) if tier != 'quick' or sum(p) % 6 == 0]
    return out


def families(tier):
    return [
        Family('rationalize', cases_rationalize(tier), run_rationalize, timeout=20, chunk=20, share=1, bound='numbers (exact, near-exact, tiny, huge, irrational) x number types x 10 tolerances and the reliable mode'),
        Family('bounds', cases_bound(tier), run_bound, timeout=20, chunk=60, share=2, bound='numbers x number types x sides x rounding lists'),
        Family('arrays', cases_array(tier), run_array, timeout=20, chunk=60, share=1, bound='all arrays of up to %d entries of 12 kinds' % (2 if tier == 'quick' else 3)),
        Family('nroots', cases_nroots(tier), run_nroots, timeout=30, chunk=30, share=2, bound='all products of up to %d of 17 factors x methods x filters' % (2 if tier == 'quick' else 3)),
        Family('intervals', cases_intervals(tier), run_intervals, timeout=30, chunk=30, share=2, bound='products of up to 3 factors, pairs and triples of polynomials'),
        Family('search', cases_func(tier), run_func, timeout=30, chunk=30, share=2, bound='polynomials x 11 conditions x sides'),
        Family('search-constant', cases_const(tier), run_const, timeout=20, chunk=60, share=1, bound='numbers x 11 conditions x sides'),
        Family('squares', cases_square(tier), run_square, timeout=20, chunk=60, share=1, bound='all pairs of small fractions'),
        Family('denominators', cases_cancel(tier), run_cancel, timeout=20, chunk=60, share=1, bound='all multisets of up to %d of 11 numbers' % (4 if tier == 'quick' else 5)),
        Family('curves', cases_curve(tier), run_curve, timeout=30, chunk=4, share=1, bound='conics x given/searched points'),
        Family('regions', cases_region(tier), run_region, timeout=40, chunk=8, share=4, bound='all ordered pairs and triples of 25 conics'),
    ]
