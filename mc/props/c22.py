"""C22: exact root objects and root finding are truthful."""
import itertools
from fractions import Fraction as F

import mpmath
import sympy as sp

from ..core import Family

TITLE = 'exact root objects and root finding are truthful'
BUDGET = {'quick': 240, 'thorough': 1800}

X = sp.Symbol('x')
DIG = 60


# ------------------------------------------------------------------ number fields of our own: polynomials in theta modulo a monic polynomial

class Field:
    def __init__(self, mod, theta):
        self.mod = [F(c) for c in mod]      # low to high, monic, without the leading one
        self.d = len(mod)
        self.theta = theta                   # sympy expression
        with mpmath.workdps(DIG):
            self.num = mpmath.mpf(str(sp.N(theta, DIG))) if theta is not None else mpmath.mpf(0)

    def el(self, *c):
        c = [F(t) for t in c]
        return tuple(c + [F(0)] * (self.d - len(c)))

    def mul(self, a, b):
        out = [F(0)] * (2 * self.d - 1)
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    out[i + j] += x * y
        for k in range(len(out) - 1, self.d - 1, -1):
            t = out[k]
            if t:
                for j, m in enumerate(self.mod):
                    out[k - self.d + j] -= t * m
        return tuple(out[:self.d])

    def add(self, a, b):
        return tuple(x + y for x, y in zip(a, b))

    def scale(self, a, k):
        return tuple(x * k for x in a)

    def pw(self, a, n):
        r = self.el(1)
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def val(self, a):
        with mpmath.workdps(DIG):
            s = mpmath.mpf(0)
            for t in reversed(a):
                s = s * self.num + mpmath.mpf(t.numerator) / t.denominator
            return s


R2, R3 = sp.sqrt(2), sp.sqrt(3)
RHO = sp.rootof(X**3 - 3*X + 1, 2)


def field(name):
    if name not in _F:
        _F[name] = {
            'Q': lambda: Field([0], None),
            'r2': lambda: Field([-2, 0], R2),
            'r5': lambda: Field([-5, 0], sp.sqrt(5)),
            'c3': lambda: Field([1, -3, 0], RHO),
            'r2r3': lambda: Field([1, 0, -10, 0], R2 + R3),
        }[name]()
    return _F[name]


_F = {}
h = F(1, 2)
# name -> (sympy expression, coefficients in the field)
COORD = {
    'Q': {'0': (sp.S(0), [0]), '1': (sp.S(1), [1]), '2': (sp.S(2), [2]), '-1': (sp.S(-1), [-1]), '1/2': (sp.S(1) / 2, [h]), '-3/2': (sp.Rational(-3, 2), [-3 * h])},
    'r2': {'w': (R2, [0, 1]), '1+w': (1 + R2, [1, 1]), '-w/2': (-R2 / 2, [0, -h]), '3-2w': (3 - 2 * R2, [3, -2])},
    'r5': {'g': (sp.sqrt(5) / 2 + h, [h, h]), '1/g': (sp.sqrt(5) / 2 - h, [-h, h])},
    'c3': {'r': (RHO, [0, 1]), 'r2-2': (sp.rootof(X**3 - 3*X + 1, 0), None), '1-r': (1 - RHO, [1, -1])},
    'r2r3': {'w': (R2, [0, -F(9, 2), 0, h]), 'v': (R3, [0, F(11, 2), 0, -h]), 'w+v': (R2 + R3, [0, 1])},
}


def setup_c3():
    f = field('c3')
    r = f.el(0, 1)
    # the other two roots are t**2-2 and its conjugate -t-(t**2-2); pick by value
    with mpmath.workdps(DIG):
        lo = mpmath.mpf(str(sp.N(COORD['c3']['r2-2'][0], 40)))
        cands = [f.el(-2, 0, 1), f.el(2, -1, -1)]
        c = min(cands, key=lambda e: abs(f.val(e) - lo))
        assert abs(f.val(c) - lo) < 1e-30
    COORD['c3']['r2-2'] = (COORD['c3']['r2-2'][0], list(c))
    return r


setup_c3()


def point(fname, names):
    f = field(fname)
    ex, el = [], []
    for n in names:
        e, c = COORD[fname].get(n) or COORD['Q'][n]
        ex.append(e)
        el.append(f.el(*c))
    return f, ex, el


def close(expr, v, digits=40):
    """the sympy number is the given high-precision number"""
    e = sp.sympify(expr)
    try:
        n = sp.N(e, DIG)
        if n.is_real is not True and abs(sp.im(n)) > 1e-40:
            return False
        with mpmath.workdps(DIG):
            n = mpmath.mpf(str(sp.re(n)))
    except (ValueError, TypeError, AttributeError):
        return False
    with mpmath.workdps(DIG):
        return abs(n - v) <= mpmath.mpf(10) ** (-digits) * max(1, abs(v))


def mono(f, el, m):
    r = f.el(1)
    for x, k in zip(el, m):
        r = f.mul(r, f.pw(x, k))
    return r


def construct(cls, ex):
    import triples.utils.roots as R
    return getattr(R, cls)(tuple(ex))


OPTS = [{}, {'cyc': True}, {'sym': True}, {'hom': False}]


def rank(rows):
    rows = [list(r) for r in rows]
    rk = 0
    ncol = len(rows[0]) if rows else 0
    for c in range(ncol):
        p = next((i for i in range(rk, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[rk], rows[p] = rows[p], rows[rk]
        for i in range(rk + 1, len(rows)):
            if rows[i][c] != 0:
                k = rows[i][c] / rows[rk][c]
                rows[i] = [x - k * y for x, y in zip(rows[i], rows[rk])]
        rk += 1
    return rk


def run_object(ctx, case):
    from triples.utils.monomials import generate_monoms
    cls, fname, names = case
    f, ex, el = point(fname, names)
    n = len(ex)
    if cls == 'RootRational' and fname != 'Q':
        ctx.trivial()
        return
    r = construct(cls, ex)
    ctx.step()
    label = '%s(%s)' % (cls, tuple(ex))
    ctx.require(len(r) == n and r.nvars == n and tuple(r.root) == tuple(ex) and all(r[i] == ex[i] for i in range(n)), '%s has coordinates %s' % (label, r.root))
    zeros = sum(1 for e in el if not any(e))
    ctx.require(bool(r.is_corner) == (zeros > 1), '%s.is_corner = %s' % (label, r.is_corner))
    ctx.require(bool(r.is_border) == (zeros > 0), '%s.is_border = %s' % (label, r.is_border))
    ctx.require(bool(r.is_symmetric) == (len(set(el)) < n), '%s.is_symmetric = %s' % (label, r.is_symmetric))
    ctx.require(bool(r.is_centered) == (len(set(el)) == 1), '%s.is_centered = %s' % (label, r.is_centered))
    ctx.require(bool(r.is_nontrivial) == (zeros == 0 and len(set(el)) == n), '%s.is_nontrivial = %s' % (label, r.is_nontrivial))
    gens = sp.symbols('a b c d')[:n]
    ctx.require(r == construct(cls, ex) and hash(r) == hash(construct(cls, ex)), '%s differs from itself' % label)
    # values of polynomials
    a, b = gens[0], gens[-1]
    for e in (a**2 * b - 3 * a + b / 2 + 1, a * b, a - b, a**3 + b**3 - 7):
        P = sp.Poly(e, *gens)
        want = f.el(0)
        for m, c in P.terms():
            want = f.add(want, f.scale(mono(f, el, m), F(int(c.p), int(c.q))))
        v = f.val(want)
        ctx.require(close(r.eval(P), v), '%s.eval(%s) = %s' % (label, e, r.eval(P)))
        if fname == 'Q':
            ctx.require(close(r.eval(P, rational=True), v), '%s.eval(%s, rational) = %s' % (label, e, r.eval(P, rational=True)))
        ctx.require(close(r.subs(e, gens), v), '%s.subs(%s) = %s' % (label, e, r.subs(e, gens)))
        if v != 0 and any(want):
            ctx.require(close(r.subs((a + 2) / e, gens), plus2over(f.val(el[0]), v)), '%s.subs(%s) = %s' % (label, (a + 2) / e, r.subs((a + 2) / e, gens)))
        if any(want) and v > 0:
            ctx.require(close(r.subs(sp.sqrt(e), gens), sqrt60(v)), '%s.subs(sqrt(%s)) = %s' % (label, e, r.subs(sp.sqrt(e), gens)))
        ctx.step(3)
    M = sp.Matrix([[a, b], [a * b, 1], [a**2, a + b]])
    S = r.subs(M, gens)
    want = [el[0], el[-1], f.mul(el[0], el[-1]), f.el(1), f.mul(el[0], el[0]), f.add(el[0], el[-1])]
    ctx.require(S.shape == (3, 2) and all(close(x, f.val(w)) for x, w in zip(S, want)), '%s.subs(matrix) = %s' % (label, S))
    # vectors of monomials, their derivatives, their rational span
    for opt in OPTS:
        for deg in range(4 if n < 4 else 3):
            ms = generate_monoms(n, deg, **opt)[1]
            for diff in [None] + [d for d in itertools.product(range(2 + (n < 4)), repeat=n) if sum(d) <= 2][:10]:
                if diff is not None and opt.get('sym'):
                    continue
                coefs = []
                for m in ms:
                    if diff is None:
                        coefs.append(mono(f, el, m))
                    elif any(x < y for x, y in zip(m, diff)):
                        coefs.append(f.el(0))
                    else:
                        k = 1
                        for x, y in zip(m, diff):
                            for t in range(y):
                                k *= x - t
                        coefs.append(f.scale(mono(f, el, [x - y for x, y in zip(m, diff)]), F(k)))
                vec = r.as_vec(deg, diff=diff, **opt)
                ctx.step()
                if not ctx.require(len(vec) == len(ms) and all(close(x, f.val(c)) for x, c in zip(vec, coefs)), '%s.as_vec(%d, diff=%s, %s) = %s' % (label, deg, diff, opt, list(vec))):
                    return
                nv = r.as_vec(deg, diff=diff, numer=True, **opt)
                ctx.require(all(abs(float(x) - float(f.val(c))) <= 1e-9 * max(1, abs(float(f.val(c)))) for x, c in zip(nv, coefs)), '%s.as_vec(%d, diff=%s, numer) = %s' % (label, deg, diff, nv))
                if cls == 'Root' or not hasattr(r, 'span'):
                    continue
                sp_ = r.span(deg, diff=diff, **opt)
                ctx.step()
                if not ctx.require(sp_.shape[0] == len(ms) and all(isinstance(x, sp.Rational) for x in sp_), '%s.span(%d, diff=%s, %s) = %s' % (label, deg, diff, opt, sp_)):
                    return
                rows = [[F(int(x.p), int(x.q)) for x in sp_[i, :]] for i in range(len(ms))]
                k1, k2 = rank(rows), rank(coefs)
                k3 = rank([x + list(y) for x, y in zip(rows, coefs)])
                ctx.require(k1 == k2 == k3, '%s.span(%d, diff=%s, %s) = %s: rational polynomials vanishing on it are not those vanishing at the root' % (label, deg, diff, opt, sp_.tolist()))
    ctx.valid()
    ctx.state(case)


def plus2over(u, v):
    with mpmath.workdps(DIG):
        return (u + 2) / v


def sqrt60(v):
    with mpmath.workdps(DIG):
        return mpmath.sqrt(v)


def tuples(fname, n, tier):
    base = list(COORD[fname])
    pool = base + ([k for k in ('0', '1', '2') if fname != 'Q'])
    for t in itertools.product(pool, repeat=n):
        if fname != 'Q' and not any(k in base for k in t):
            continue
        yield list(t)


def cases_object(tier):
    out = []
    for fname in COORD:
        for n in (1, 2, 3, 4):
            for i, t in enumerate(tuples(fname, n, tier)):
                if n == 4 and (i % (97 if tier == 'quick' else 13)):
                    continue
                if n == 3 and i % ({'Q': 11, 'c3': 29, 'r2r3': 29}.get(fname, 14) if tier == 'quick' else 1):
                    continue
                for cls in ('Root', 'RootAlgebraic', 'RootRational') if fname == 'Q' else ('Root', 'RootAlgebraic'):
                    out.append([cls, fname, t])
    return out


# ------------------------------------------------------------------ ternary roots

HIGH = ((7, 0, 0), (3, 4, 0), (0, 5, 3), (8, 1, 0), (3, 2, 2), (2, 3, 2), (4, 2, 3), (2, 5, 2), (3, 3, 3), (6, 2, 3), (3, 7, 4))


def run_ternary(ctx, case):
    cls, fname, names = case
    f, ex, el = point(fname, names)
    zeros = sum(1 for e in el if not any(e))
    if zeros == 3:
        ctx.trivial()
        return
    r = construct(cls, ex)
    label = '%s(%s)' % (cls, tuple(ex))
    a, b, c = [f.val(e) for e in el]
    centred = len(set(el)) == 1
    with mpmath.workdps(DIG):
        if not centred and zeros < 2:
            u, v = r.uv()
            ctx.step()
            U, V = (mpmath.mpf(str(sp.N(t, DIG))) for t in (u, v))
            for x, y, z in ((a, b, c), (b, c, a), (c, a, b)):
                d = x * x - y * y + U * (x * y - x * z) + V * (y * z - x * y)
                ctx.require(abs(d) <= mpmath.mpf(10) ** -40 * (1 + abs(U) + abs(V)) * max(1, abs(x), abs(y), abs(z)) ** 2, '%s.uv() = %s: a^2-b^2+u(ab-ac)+v(bc-ab) = %s at the root' % (label, (u, v), mpmath.nstr(d, 10)))
            k = U * U - U * V + V * V + U + V + 1
            ctx.require(close(r.ker(), k), '%s.ker() = %s' % (label, r.ker()))
        s = a + b + c
        total = f.add(f.add(el[0], el[1]), el[2])
        if any(total):
            if not zeros >= 2:
                P = r.poly(sp.Symbol('t'))
                ctx.step()
                want = [mpmath.mpf(1), mpmath.mpf(-1), (a * b + b * c + c * a) / s**2, -a * b * c / s**3]
                got = P.all_coeffs()
                ctx.require(len(got) == 4 and all(close(x, y) for x, y in zip(got, want)), '%s.poly() = %s, expected coefficients %s' % (label, P, [mpmath.nstr(t, 12) for t in want]))
            for m in itertools.chain(itertools.product(range(5), repeat=3), HIGH):
                if (sum(m) > 6 and m not in HIGH) or (zeros >= 2 and cls == 'RootTernary' and fname != 'Q'):
                    continue
                if cls == 'RootTernary' and fname != 'Q' and sum(m) > (3 if fname in ('r2', 'r5') else 2):
                    continue      # expressions of radicals are not simplified: their size explodes
                g = r.cyclic_sum(m)
                ctx.step()
                w = sum(x**m[0] * y**m[1] * z**m[2] for x, y, z in ((a, b, c), (b, c, a), (c, a, b))) / s**sum(m)
                if not ctx.require(close(g, w, 30), '%s.cyclic_sum(%s) = %s, expected %s' % (label, m, g, mpmath.nstr(w, 15))):
                    return
            for cyc in (False, True):
                for inplace in (False, True):
                    q = construct(cls, ex)
                    t = q.standardize(cyc=cyc, inplace=inplace)
                    ctx.step()
                    got = [mpmath.mpf(str(sp.N(x, DIG))) for x in t.root]
                    cand = [tuple(3 * x / s for x in p) for p in ([(a, b, c)] if not cyc else [(a, b, c), (b, c, a), (c, a, b)])]
                    ok = [p for p in cand if all(abs(x - y) < mpmath.mpf(10) ** -30 for x, y in zip(p, got))]
                    ctx.require(ok, '%s.standardize(cyc=%s, inplace=%s) = %s' % (label, cyc, inplace, t.root))
                    if cyc and not centred:
                        ctx.require(got[0] >= max(got) - mpmath.mpf(10) ** -30, '%s.standardize(cyc=True) = %s does not start with the largest' % (label, t.root))
                        ctx.require(not (abs(got[2] - got[0]) < 1e-30 and got[1] < got[0]), '%s.standardize(cyc=True) = %s: of two largest the second comes next' % (label, t.root))
                    if inplace:
                        ctx.require(t is q, '%s.standardize(inplace=True) returns another object' % label)
                    else:
                        ctx.require(tuple(q.root) == tuple(ex), '%s.standardize() changes the root' % label)
    ctx.valid()
    ctx.state(case)


def cases_ternary(tier):
    out = []
    for fname in COORD:
        for i, t in enumerate(tuples(fname, 3, tier)):
            if i % ({'Q': 5, 'c3': 25, 'r2r3': 25}.get(fname, 11) if tier == 'quick' else 2):
                continue
            for cls in ('RootTernary', 'RootAlgebraicTernary') + (('RootRationalTernary',) if fname == 'Q' else ()):
                if cls == 'RootTernary' and fname == 'c3':
                    continue      # nested rootof expressions are beyond sympy's arithmetic
                out.append([cls, fname, t])
    return out


def run_uv(ctx, case):
    import triples.utils.roots as R
    u, v, cls = case
    U, V = (sp.Float(t[1:], 30) if t.startswith('~') else sp.sympify(t) for t in (u, v))
    k = U**2 - U * V + V**2 + U + V + 1
    if sp.N(k) == 0 or abs(sp.N(k)) < 1e-12:
        ctx.trivial()
        return
    inexact = not all(isinstance(t, sp.Rational) for t in (U, V))
    if inexact and cls != 'RootTernary':
        ctx.trivial()
        return
    r = getattr(R, cls).from_uv(U, V)
    ctx.step()
    label = '%s.from_uv(%s, %s)' % (cls, u, v)
    with mpmath.workdps(DIG):
        x = [complex(sp.N(t, 30)) for t in r.root]
        ctx.require(all(abs(t.imag) < 1e-9 for t in x), '%s = %s is not real' % (label, r))
        tol = mpmath.mpf(10) ** (-7 if inexact else -25)      # double roots are found to half the digits
        a, b, c = [mpmath.mpf(str(sp.re(sp.N(t, DIG)))) for t in r.root]
        u0, v0 = mpmath.mpf(str(sp.N(U, DIG))), mpmath.mpf(str(sp.N(V, DIG)))
        ctx.require(max(abs(a), abs(b), abs(c)) > 1e-12, '%s = %s' % (label, r))
        for p, q, w in ((a, b, c), (b, c, a), (c, a, b)):
            d = p * p - q * q + u0 * (p * q - p * w) + v0 * (q * w - p * q)
            ctx.require(abs(d) <= tol * (1 + abs(u0) + abs(v0)), '%s = %s: a^2-b^2+u(ab-ac)+v(bc-ab) = %s' % (label, r, mpmath.nstr(d, 8)))
        uu = r.uv()
        if not (U == 2 and V == 2) and abs(a * b * c) + abs(a * b) + abs(b * c) + abs(c * a) > 1e-9 and not (abs(a - b) < 1e-12 and abs(b - c) < 1e-12):
            ctx.require(all(abs(sp.N(x - y, 20)) < 1e-8 * (1 + abs(sp.N(y))) for x, y in zip(uu, (U, V))), '%s.uv() = %s' % (label, uu))
    ctx.valid()
    ctx.state(case)


def cases_uv(tier):
    vals = ['-3', '-2', '-1', '-1/2', '0', '1/3', '1/2', '1', '2', '3', '7/2', '5', '~1.25', '~-0.7', '~2.6180339887', 'sqrt(2)', '1-sqrt(3)']
    if tier == 'quick':
        vals = [v for i, v in enumerate(vals) if i not in (0, 5, 10)]
    return [[u, v, c] for u in vals for v in vals for c in ('RootTernary', 'RootAlgebraicTernary') if not ('sqrt' in u and 'sqrt' in v) and not (u == v and '~2' in u)]


def run_approx(ctx, case):
    import triples.utils.roots as R
    kind, coords, eps = case
    x = [F(t) for t in coords]
    if sum(x) <= 0:
        ctx.trivial()
        return
    root = tuple(sp.Float(float(t) + e * 10.0 ** -eps, 20) if kind == 'float' else sp.Rational(t.numerator, t.denominator) + e * sp.Rational(1, 10 ** eps) for t, e in zip(x, (1, -1, 2)))
    r = R.RootTernary(root)
    q = r.approximate()
    ctx.step()
    label = 'RootTernary(%s).approximate()' % (root,)
    s0, s1 = sum(root), sum(q.root)
    if not ctx.require(s1 > 0, '%s = %s' % (label, q)):
        return
    d = max(abs(3 * p / s0 - 3 * t / s1) for p, t in zip(root, q.root))
    ctx.require(d <= 4e-3, '%s = %s, moved by %g' % (label, q, d))
    n = [3 * t / sum(x) for t in x]
    apart = min(abs(n[i] - n[j]) for i in range(3) for j in range(i))
    if apart > F(1, 50) and min(abs(t) for t in n) > F(1, 50):
        ctx.require(d <= 2e-5, '%s = %s, moved by %g although it is near no axis' % (label, q, d))
    if eps >= 6:
        # roots on the border, on an axis, at the centre are recognised
        ctx.require(not any(t == 0 for t in x) or q.is_border, '%s = %s is near the border' % (label, q))
        ctx.require(len(set(x)) == 3 or q.is_symmetric, '%s = %s is near a symmetry axis' % (label, q))
        ctx.require(len(set(x)) > 1 or q.is_centered, '%s = %s is near the centre' % (label, q))
    ctx.valid()
    ctx.state(case)


def cases_approx(tier):
    vals = ['0', '1', '2', '1/2', '7/3', '1/10']
    return [[k, list(t), e] for k in ('float', 'exact') for t in itertools.product(vals, repeat=3) for e in ((4, 6, 9) if tier == 'quick' else (4, 5, 6, 7, 9, 12))]


# ------------------------------------------------------------------ closed-form roots near a number, stationarity systems

NEAR = ['x-2', '3*x+1', 'x**2-2', 'x**2-x-1', 'x**3-3*x+1', '(x-1)*(x-2)*(2*x-5)', 'x**2+x+1', '(x**2-2)*(x**2-3)', 'x**3-2', 'x**4-10*x**2+1', '2*x**2-3*x-2', 'x/2-1/3', '2*x/3+4/5']


def run_nearest(ctx, case):
    import triples.utils.roots as R
    text, i, off, method = case
    P = sp.Poly(sp.sympify(text, locals={'x': X}), X)
    rts = [complex(t) for t in P.nroots(n=30)]
    if i >= len(rts):
        ctx.trivial()
        return
    v = sp.N(P.nroots(n=30)[i], 25) + sp.Float(off)
    got = R.find_nearest_root(P, v, method=method)
    ctx.step()
    label = 'find_nearest_root(%s, %s, %s)' % (text, v, method)
    gc = complex(sp.N(got, 30))
    ctx.require(abs(complex(sp.N(P.eval(got), 40))) < 1e-18, '%s = %s is not a root' % (label, got))
    best = min(abs(t - complex(v)) for t in rts)
    ctx.require(abs(gc - complex(v)) <= best + 1e-9, '%s = %s is not the nearest' % (label, got))
    ctx.valid()
    ctx.state(case)


def cases_nearest(tier):
    return [[t, i, o, m] for t in NEAR for i in range(4) for o in ('0', '0.001', '-0.3', '0.45') for m in ('rootof', 'roots')]


def run_kkt(ctx, case):
    import triples.utils.roots as R
    ft, ineq, eq, as_poly, with_self, aspolys = case
    L = {s.name: s for s in sp.symbols('x y z')}
    f = sp.sympify(ft, locals=L)
    G = [sp.sympify(t, locals=L) for t in ineq]
    H = [sp.sympify(t, locals=L) for t in eq]
    syms = tuple(sorted(set().union(f.free_symbols, *[g.free_symbols for g in G + H]), key=lambda s: s.name))
    args = (f, G, H)
    if aspolys:
        args = (sp.Poly(f, *syms), [sp.Poly(g, *syms) for g in G], [sp.Poly(g, *syms) for g in H])
    before = [list(args[1]), list(args[2])]
    system, (s0, lam, mu, allsym) = R.kkt(*args, as_poly=as_poly, with_self=with_self)
    ctx.step()
    label = 'kkt(%s, %s, %s, as_poly=%s, with_self=%s)' % (f, G, H, as_poly, with_self)
    ctx.require([list(args[1]), list(args[2])] == before, '%s modifies its arguments' % label)
    ctx.require(set(s0) == set(syms) and len(s0) == len(syms) and len(lam) == len(G) and len(mu) == len(H) and tuple(allsym) == tuple(s0) + tuple(lam) + tuple(mu), '%s: symbols %s' % (label, (s0, lam, mu, allsym)))
    lag = f - sum(l * g for l, g in zip(lam, G)) + sum(m * g for m, g in zip(mu, H))
    want = [sp.diff(lag, s) for s in s0] + [l * g for l, g in zip(lam, G)] + list(H) + ([f] if with_self else [])
    if not ctx.require(len(system) == len(want), '%s: %d equations' % (label, len(system))):
        return
    for e, w in zip(system, want):
        if as_poly:
            ctx.require(isinstance(e, sp.Poly) and tuple(e.gens) == tuple(allsym), '%s: %s' % (label, e))
        ctx.require(sp.expand((e.as_expr() if isinstance(e, sp.Poly) else e) - w) == 0, '%s: equation %s instead of %s' % (label, e, w))
    ctx.valid()
    ctx.state(case)


def cases_kkt(tier):
    fs = ['2*x+3*y', 'x**2*y-y**3', 'x*y*z-1', 'x**4']
    gs = [[], ['x'], ['x', 'y-x**2'], ['1-z**2']]
    hs = [[], ['x**2+y**2-1'], ['x+y+z-3', 'x*y-2']]
    return [[f, g, e, p, w, q] for f in fs for g in gs for e in hs for p in (True, False) for w in (True, False) for q in (True, False)]


# ------------------------------------------------------------------ roots of ternary forms

A, B, C = sp.symbols('a b c')


def cyc(e):
    return sp.expand(e + e.xreplace({A: B, B: C, C: A}) + e.xreplace({A: C, B: A, C: B}))


def quad(u, v):
    u, v = sp.sympify(u), sp.sympify(v)
    return A**2 - B**2 + u * (A*B - A*C) + v * (B*C - A*B)


def polyset(tier):
    """forms that are nonnegative where all variables are: text -> (expression, cyclic?)"""
    out = []
    uvs = [(1, 2), (3, 1), (0, 1), (2, 0), ('1/2', '3/2'), (4, '1/3'), (-1, 3), (3, 3), (1, 1), ('5/2', 2)]
    for u, v in uvs:
        out.append(('s(q(%s,%s)^2)' % (u, v), cyc(quad(u, v)**2)))
    for u, v in uvs[:6]:
        out.append(('s(a q(%s,%s)^2)' % (u, v), cyc(A * quad(u, v)**2)))
    T = ['a**2-a*b', '(a-b)**2*(a+b-3*c)**2', 'a*(a-b)*(a-c)', 'a*(a-b)**2', 'a*b*(a-b)**2', 'a**2*(a-b)*(a-c)', '(a+b-2*c)**2', '(a**2-2*b*c)**2', 'a*(b-2*c)**2', 'a**2*(b-3*c)**2', 'a**3-a*b*c', 'a**4', '(a**2+b**2-3*c**2)**2', '(a-b)**2*(a-2*b)**2', '(a*b-2*c**2)**2']
    for t in T:
        out.append(('s(%s)' % t, cyc(sp.sympify(t, locals={'a': A, 'b': B, 'c': C}))))
    N = ['(a-b)**2+(b-2*c)**2', '(a-b)**2', '(a**2-2*b*c)**2+(b**2-c**2)**2', 'a*(b-c)**2+b*(a-2*c)**2', '(a-b)**2*(b-c)**2+(a-3*c)**2*b**2', '(a**2-2*c**2)**2+(b**2-3*c**2)**2', '(a+b-c)**2+(a-b)**2', 'a**2*(b-2*c)**2+b**2*(c-a)**2', '(a-2*b)**2+(c-b)**2', 'a*b*(a-b)**2+c**2*(2*a-b)**2', '(a**2-a*c-c**2)**2+(b-c)**2*c**2', '(a**3-3*a*c**2+c**3)**2+c**4*(b-a)**2', '(a*c-b**2)**2+(a-4*c)**2*c**2']
    for t in N:
        out.append((t, sp.expand(sp.sympify(t, locals={'a': A, 'b': B, 'c': C}))))
    return out


def run_findroot(ctx, case):
    import triples.utils.roots as R
    i, method, order, most = case
    name, e = polyset('thorough')[i]
    gens = {'abc': (A, B, C), 'bca': (B, C, A), 'xyz': (A, B, C)}[order]
    if order == 'xyz':
        x, y, z = sp.symbols('x y z')
        e = e.xreplace({A: x, B: y, C: z})
        gens = (x, y, z)
    P = sp.Poly(e, *gens)
    info = R.findroot(P, most=most, method=method)
    ctx.step()
    label = 'findroot(%s over %s, method=%s, most=%d)' % (name, gens, method, most)
    ctx.require(info.poly == P, '%s is about %s' % (label, info.poly))
    ctx.require(len(info.roots) <= most, '%s reports %d roots' % (label, len(info.roots)))
    scale = max(abs(float(c)) for c in P.coeffs())
    vals = []
    for r in info.roots:
        if not ctx.require(len(r) == 3 and all(sp.N(t).is_real for t in r.root), '%s reports %s' % (label, r)):
            return
        s = sum(abs(float(t)) for t in r.root)
        if not ctx.require(s > 0, '%s reports %s' % (label, r)):
            return
        x = [sp.N(t, 40) * 3 / sp.Float(s, 40) for t in r.root]
        vals.append(float(P.eval(tuple(x))))
    strict = set(map(lambda r: tuple(r.root), info.strict_roots))
    ctx.require(strict <= {tuple(r.root) for r in info.roots}, '%s: strict roots %s are not among the roots %s' % (label, info.strict_roots, info.roots))
    for r, v in zip(info.roots, vals):
        if tuple(r.root) in strict:
            ctx.require(abs(v) <= 2e-6 * scale, '%s: the value at the root %s is %g' % (label, r, v))
        ctx.require(v >= -1e-9 * scale or any(float(t) < 0 for t in r.root), '%s: value %g at %s of a nonnegative form' % (label, v, r))
    ctx.require({tuple(r.root) for r in info.normal_roots} == {tuple(r.root) for r in info.roots} - strict, '%s: other minima %s' % (label, info.normal_roots))
    text = info.gui_description
    ctx.step()
    lines = text.split('\n')[1:]
    ctx.require(len(lines) == len(info.roots), '%s: description %r' % (label, text))
    for line, r in zip(lines, info.roots):
        pt, val = line.strip().split('=')
        pt = [float(sp.sympify(t)) for t in pt.strip()[1:-1].split(',')]
        ref = [float(t) for t in r.root]
        if ref[2] != 0:
            ref = [t / ref[2] for t in ref]
        ctx.require(all(abs(p - q) <= 1e-6 * max(1, abs(q)) for p, q in zip(pt, ref)), '%s: the description says %s for the root %s' % (label, line, r))
        w = float(P.eval(tuple(sp.Float(t, 40) if not isinstance(t, sp.Rational) else t for t in ([u / r.root[2] for u in r.root] if r.root[2] != 0 else r.root))))
        ctx.require(abs(float(sp.sympify(val)) - w) <= 1e-7 * max(1, abs(w)), '%s: the description says %s for the value %g' % (label, line, w))
    ctx.valid()
    ctx.state((case, str(info.roots)))


def cases_findroot(tier):
    n = len(polyset(tier))
    out = [[i, m, o, k] for i in range(n) for m in ('nsolve', 'bfgs', 'l-bfgs-b', 'cg', 'trust-constr') for o in ('abc', 'bca', 'xyz') for k in (1, 5) if (m == 'nsolve' or o == 'abc') and (m == 'nsolve' or k == 5) and (m != 'trust-constr' or tier != 'quick' or i % 6 == 0)]
    return out


def run_resultant(ctx, case):
    import triples.utils.roots as R
    i, order = case
    name, e = polyset('thorough')[i]
    gens = {'abc': (A, B, C), 'bca': (B, C, A), 'cab': (C, A, B)}[order]
    P = sp.Poly(e, *gens)
    got = R.findroot_resultant(P)
    ctx.step()
    label = 'findroot_resultant(%s over %s)' % (name, gens)
    scale = max(abs(float(c)) for c in P.coeffs())
    grads = [P.diff(g) for g in gens]
    for r in got:
        x = [sp.N(t, 50) for t in r.root]
        if not ctx.require(len(x) == 3 and all(t.is_real for t in x) and any(abs(t) > 1e-9 for t in x), '%s reports %s' % (label, r)):
            return
        v = abs(P.eval(tuple(x)))
        m = max(abs(t) for t in x)
        ctx.require(v <= scale * m ** P.total_degree() * sp.Float(10) ** -35, '%s: the value at %s is %s' % (label, r.root, sp.N(v, 5)))
        ctx.require(all(not t.has(sp.Float) for t in map(sp.sympify, r.root)), '%s: %s is not exact' % (label, r.root))
    ctx.require(len({tuple(r.root) for r in got}) == len(got), '%s lists a root twice: %s' % (label, got))
    ctx.valid(len(got))
    ctx.state((case, len(got)))


def cases_resultant(tier):
    return [[i, o] for i in range(len(polyset(tier))) for o in ('abc', 'bca', 'cab')]


# ------------------------------------------------------------------ tangents

TPOLY = {
    'sym-centered': 'a**2+b**2+c**2-a*b-b*c-c*a', 'sym': 'a**2+b**2+c**2+a*b+b*c+c*a',
    'cyc-centered': 'a**3+b**3+c**3-a**2*b-b**2*c-c**2*a', 'cyc': 'a**3+b**3+c**3+a**2*b+b**2*c+c**2*a',
    'acyc-centered': 'a**2-b**2+a*b-c**2', 'acyc': 'a**2+2*b**2+a*b+c**2',
}
NONTRIV = [('1', '2'), ('3', '1'), ('0', '1'), ('2', '1/2+1/7'), ('4', '1/3'), ('3/2', '3'), ('3*sqrt(3)-4', '2'), ('sqrt(2)', '1+sqrt(2)'), ('7/3', '5/3')]
BORDER = ['1/2', '2', '1', '3', '2/5', '(3-sqrt(5))/2', '(3+sqrt(5))/2', 'sqrt(2)', '2-sqrt(3)']
SYMM = ['2', '1/2', '3', '0', '4/3', 'sqrt(2)', '1+sqrt(3)']


def build_root(desc, numeric):
    import triples.utils.roots as R
    kind, x = desc
    if kind == 'n':
        u, v = (sp.sympify(t) for t in x)
        r = R.RootTernary.from_uv(sp.N(u, 20), sp.N(v, 20)) if numeric or not all(isinstance(t, sp.Rational) for t in (u, v)) else R.RootTernary.from_uv(u, v)
        root = [sp.re(sp.N(t, 20)) for t in r.root]
        return R.Root(tuple(root))
    if kind == 'r':
        return R.Root(tuple(sp.sympify(t) for t in x))
    v = sp.sympify(x)
    if not isinstance(v, sp.Rational):
        v = sp.N(v, 20)
    elif numeric:
        v = sp.N(v, 20)
    return R.Root((v, sp.S(1), sp.S(0)) if kind == 'b' else (v, sp.S(1), sp.S(1)))


def run_tangent(ctx, case):
    import triples.utils.roots as R
    from triples.core.linsos import root_tangents
    pk, descs, numeric, order = case
    gens = (A, B, C)
    if order == 'xyz':
        gens = sp.symbols('x y z')
    P = sp.Poly(sp.sympify(TPOLY[pk], locals={'a': A, 'b': B, 'c': C}).xreplace(dict(zip((A, B, C), gens))), *gens)
    roots = [build_root(d, numeric) for d in descs]
    if any(not all(sp.N(t).is_real for t in r.root) for r in roots):
        ctx.trivial()
        return
    info = R.RootsInfo(poly=P, roots=list(roots), strict_roots=list(roots), with_tangents=root_tangents)
    ctx.step()
    label = 'tangents of roots %s of a %s form' % ([tuple(map(str, r.root)) for r in roots], pk)
    perms = [(0, 1, 2)] if pk.startswith('acyc') else ([(0, 1, 2), (1, 2, 0), (2, 0, 1)] if pk.startswith('cyc') else list(itertools.permutations(range(3))))
    pts = []
    for r in info.strict_roots:
        s = sum(abs(sp.N(t, 30)) for t in r.root) / 3
        pts.append([sp.N(t, 30) / s for t in r.root])
    nontriv = [p for p, r in zip(pts, info.strict_roots) if r.is_nontrivial]
    for t in info.tangents:
        tp = t.as_poly()
        ctx.step()
        ctx.require(sp.expand(t.as_expr().doit() - tp.as_expr()) == 0 and tuple(tp.gens) == tuple(gens), '%s: %s is the polynomial %s' % (label, t, tp))
        n = max(abs(float(c)) for c in tp.coeffs())
        ok = [any(abs(tp.eval(tuple(p[k] for k in q))) <= 3e-6 * n for q in perms) for p in pts]
        ctx.require(any(ok), '%s: %s vanishes at none of them' % (label, t.as_expr()))
        for p in nontriv:
            ctx.require(abs(tp.eval(tuple(p))) <= 1.1e-6 * max(1, n), '%s: %s is %g at the nontrivial root' % (label, t.as_expr(), tp.eval(tuple(p))))
    info.sort_tangents()
    ctx.require([len(t) for t in info.tangents] == sorted(len(t) for t in info.tangents), '%s: not sorted' % label)
    ctx.valid(len(info.tangents))
    ctx.state((case, len(info.tangents)))


def cases_tangent(tier):
    out = []
    R1 = [['n', list(x)] for x in NONTRIV] + [['b', x] for x in BORDER] + [['s', x] for x in SYMM]
    R2 = [['r', list(t)] for t in (('1', '2', '3'), ('2', '3', '1'), ('1/2', '3', '1'), ('5', '1', '2'), ('0', '1', '2'), ('3', '0', '1'), ('1', '4', '0'), ('1', '1', '3'), ('2', '1/2', '2'))]
    for pk in TPOLY:
        pool = R2 + R1[:2] + R1[9:12] + R1[18:20] if pk.startswith('acyc') else R1
        sets = [[d] for d in pool] + [list(p) for i, p in enumerate(itertools.combinations(pool, 2)) if tier != 'quick' or i % 3 == 0]
        if tier != 'quick':
            sets += [list(p) for p in itertools.combinations(pool, 3)]
        else:
            sets += [list(p) for i, p in enumerate(itertools.combinations(pool, 3)) if i % 149 == 0]
        for s in sets:
            for num in (True, False):
                if num and len(s) > 2:
                    continue
                out.append([pk, s, num, 'abc' if (len(out) % 3) else 'xyz'])
    return out


def families(tier):
    return [
        Family('objects', cases_object(tier), run_object, timeout=60, chunk=4, share=5, bound='points over five number fields, 1-4 variables x constructors x monomial options x derivatives'),
        Family('ternary', cases_ternary(tier), run_ternary, timeout=30 if tier == 'quick' else 60, chunk=1, share=4, bound='triples over five number fields x constructors'),
        Family('from-uv', cases_uv(tier), run_uv, timeout=60, chunk=8, share=2, bound='all pairs over an alphabet of rational, real and quadratic parameters'),
        Family('approximations', cases_approx(tier), run_approx, timeout=20, chunk=40, share=1, bound='all triples over 6 values x perturbations'),
        Family('nearest', cases_nearest(tier), run_nearest, timeout=40, chunk=10, share=1, bound='13 polynomials x roots x offsets'),
        Family('stationarity', cases_kkt(tier), run_kkt, timeout=20, chunk=20, share=1, bound='objectives x constraint sets x forms'),
        Family('findroot', cases_findroot(tier), run_findroot, timeout=120, chunk=1, share=5, bound='44 nonnegative forms x methods x generator orders'),
        Family('resultant', cases_resultant(tier), run_resultant, timeout=120, chunk=1, share=4, bound='44 nonnegative forms x generator orders'),
        Family('tangents', cases_tangent(tier), run_tangent, timeout=60, chunk=8, share=5, bound='form kinds x sets of up to 3 roots'),
    ]
