"""C26: grids, heat maps and global bounds tell the truth about the polynomial."""
import contextlib
import io
import itertools
import warnings
from fractions import Fraction as F

import sympy as sp

from ..core import Family

warnings.filterwarnings('ignore')

TITLE = 'grid values, colours, grid minima and global bounds agree with the polynomial'
BUDGET = {'quick': 300, 'thorough': 1500}

NAMES = 'a b c d'.split()


# ------------------------------------------------------------------ polynomials as dictionaries, evaluated by hand

def monomials(nvars, degree):
    return sorted((m for m in itertools.product(range(degree + 1), repeat=nvars) if sum(m) == degree), reverse=True)


def value(terms, pt):
    total = F(0)
    for m, c in terms.items():
        t = F(c)
        for x, e in zip(pt, m):
            t *= F(x)**e
        total += t
    return total


def scale(terms, pt):
    total = F(0)
    for m, c in terms.items():
        t = abs(F(c))
        for x, e in zip(pt, m):
            t *= abs(F(x))**e
        total += t
    return total


def as_poly(terms, nvars):
    gens = sp.symbols(NAMES[:nvars])
    return sp.Poly.from_dict({m: sp.Rational(F(c).numerator, F(c).denominator) for m, c in terms.items()}, *gens)


def points(nvars, size):
    return sorted((m for m in itertools.product(range(size + 1), repeat=nvars) if sum(m) == size), reverse=True)


# ------------------------------------------------------------------ values and colours

COEFS = [1, -1, F(1, 3), F(-2, 7), 2**61 + 1, -(10**17 + 3), F(10**12 + 1, 7)]


def polys(nvars, degree):
    mons = monomials(nvars, degree)
    out = []
    if degree == 0:
        return [{mons[0]: c} for c in COEFS]
    k = len(mons)
    for s in range(4):
        out.append({m: COEFS[(3 * i + s) % len(COEFS)] for i, m in enumerate(mons)})
        out.append({m: (i * 7 + s * 5) % 11 - 5 for i, m in enumerate(mons) if (i * 7 + s * 5) % 11 != 5})
    for s in range(3):
        out.append({mons[(s * 5) % k]: COEFS[s]})
        if k > 1 and (s * 5) % k != (s * 3 + 1) % k:
            out.append({mons[(s * 5) % k]: 3, mons[(s * 3 + 1) % k]: -3})
    # nonnegative, vanishing inside and on the boundary
    if degree >= 2 and degree % 2 == 0:
        h = degree // 2
        q = {}
        for (m1, c1), (m2, c2) in itertools.product([((h,) + (0,) * (nvars - 1), 1), ((0,) * (nvars - 1) + (h,), -1)], repeat=2):
            m = tuple(x + y for x, y in zip(m1, m2))
            q[m] = q.get(m, 0) + c1 * c2
        out += [q, {m: -c for m, c in q.items()}]
    return [p for p in out if p]


def run_values(ctx, case):
    from triples.utils import GridRender
    nvars, degree, i, size, vm, cm, color = case
    terms = polys(nvars, degree)[i]
    P = as_poly(terms, nvars)
    label = 'grid of %s with size %d, %s, %s' % (P.as_expr(), size, vm, cm)
    g = GridRender.render(P, size=size, value_method=vm, color_method=cm, with_color=color, handle_error=False)
    ctx.step()
    pts = points(nvars, size)
    ctx.require(g.size == size and g.poly == P, '%s: size %s, polynomial %s' % (label, g.size, g.poly))
    if not ctx.require([tuple(p) for p in g.grid_coor] == pts, '%s: points %s...' % (label, str(list(g.grid_coor)[:5]))):
        return
    vals = list(g.grid_value)
    if not ctx.require(len(vals) == len(pts), '%s: %d values for %d points' % (label, len(vals), len(pts))):
        return
    exact = all(F(c).denominator == 1 for c in terms.values())
    # the common factor of a normalised grid
    unit = F(1)
    if vm == 'integer_lambdify':
        for p, v in zip(pts, vals):
            w = value(terms, p)
            if abs(w) * 1000 > scale(terms, p):
                unit = F(float(v)) / w
                break
        ctx.require(unit > 0, '%s: the values have the opposite sign' % label)
    for p, v in zip(pts, vals):
        w = value(terms, p) * unit
        if vm == 'integer' and exact:
            ok = v == w
        else:
            ok = abs(F(float(v)) - w) <= scale(terms, p) * unit / 10**10
        if not ctx.require(ok, '%s: value %s at %s instead of %s' % (label, v, p, w)):
            return
    if not color:
        ctx.require(g.grid_color is None, '%s: colours nobody asked for' % label)
    else:
        cols = [tuple(int(x) for x in c[:3]) for c in g.grid_color]
        if not ctx.require(len(cols) == len(pts), '%s: %d colours' % (label, len(cols))):
            return
        pos, neg = [], []
        for p, v, c in zip(pts, vals, cols):
            if v > 0:
                ok = c[0] == 255 and c[2] == 0
                pos.append((v, c[1]))
            elif v < 0:
                ok = c[0] == 0 and c[2] == 255
                neg.append((-v, c[1]))
            else:
                ok = c == (255, 255, 255)
            if not ctx.require(ok, '%s: colour %s at %s where the value is %s' % (label, c, p, v)):
                return
        for part in (pos, neg):
            part.sort()
            ctx.require(all(x[1] >= y[1] for x, y in zip(part, part[1:])), '%s: the colours are not ordered like the values' % label)
            if part:
                ctx.require(part[-1][1] == 0, '%s: the extreme value has the colour %s' % (label, part[-1][1]))
    ctx.valid()
    ctx.state(tuple(case))


def cases_values(tier):
    out = []
    sizes = {1: (1, 5), 2: (1, 9, 60), 3: (1, 3, 8), 4: (1, 4)}
    if tier != 'quick':
        sizes = {1: (1, 5, 60), 2: (1, 2, 3, 4, 9, 60), 3: (1, 2, 3, 4, 5, 6, 7, 8, 12, 60), 4: (1, 2, 3, 4, 6, 18), 5: (1, 3)}
        NAMES.append('e')
    for nvars, ss in sizes.items():
        for degree in (0, 1, 2, 3, 4, 6, 8, 18) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 8, 11, 18):
            if degree > 8 and nvars > 3:
                continue
            n = len(polys(nvars, degree))
            for i in range(n) if tier != 'quick' else range(0, n, 2):
                for s in ss:
                    for vm in ('integer', 'integer_lambdify'):
                        for cm, color in (('numpy', True), ('integer', True), ('numpy', False)):
                            if color or s == ss[0]:
                                out.append([nvars, degree, i, s, vm, cm, color])
    out += [[3, d, 1, 60, vm, cm, True] for d in (3, 4, 18) for vm in ('integer', 'integer_lambdify') for cm in ('numpy', 'integer')]
    return out


# ------------------------------------------------------------------ heat map images

def run_image(ctx, case):
    from triples.utils import GridRender
    degree, i, size, bg = case
    terms = polys(3, degree)[i]
    P = as_poly(terms, 3)
    g = GridRender.render(P, size=size, with_color=True, handle_error=False)
    col = {tuple(p): tuple(c[:3]) for p, c in zip(g.grid_coor, g.grid_color)}
    img = g.save_heatmap(backgroundcolor=bg)
    ctx.step()
    n = size
    label = 'heat map of %s with size %d' % (P.as_expr(), n)
    if not ctx.require(img.shape == (n + 1, n + 1, 3), '%s: shape %s' % (label, img.shape)):
        return
    painted = 0
    for y in range(n + 1):
        for x in range(n + 1):
            c = tuple(int(t) for t in img[y, x])
            # an equilateral triangle of side n: the height above the base gives the third coordinate, to within two units
            h = y * 2 / 3**.5
            best = [p for p in ((n - r - j, j, r) for r in range(max(0, int(h) - 2), min(n, int(h) + 3) + 1) for j in range(n + 1 - r)) if abs(p[1] + p[2] / 2 - x) <= 1]
            if c == (bg,) * 3 and not any(col[p] == c for p in best):
                inside = y + 2 <= n * 3**.5 / 2 and h / 2 + 2 <= x <= n - h / 2 - 2
                ctx.require(not inside, '%s: pixel %s inside the triangle is not painted' % (label, (y, x)))
                continue
            painted += 1
            if not ctx.require(any(col[p] == c for p in best), '%s: pixel %s has the colour %s, nearby points have %s' % (label, (y, x), c, [col[p] for p in best][:6])):
                return
    ctx.valid(painted)
    ctx.state(tuple(case))


def cases_image(tier):
    return [[d, i, s, bg] for d in (1, 2, 3, 4, 6) for i in range(0, len(polys(3, d)), 1 if tier != 'quick' else 3) for s in ((6, 13, 24, 60) if tier == 'quick' else (3, 6, 9, 13, 24, 37, 60)) for bg in (211, 7) if bg == 211 or s == 13]


# ------------------------------------------------------------------ the coefficient triangle as an image text

def run_coeffs(ctx, case):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from triples.utils import GridRender
    degree, i = case
    terms = polys(3, degree)[i]
    P = as_poly(terms, 3)
    g = GridRender.render(P, size=3, handle_error=False)
    old = plt.savefig
    plt.savefig = lambda *a, **k: None
    try:
        s = g.save_coeffs('unused')
    finally:
        plt.savefig = old
        plt.close('all')
    ctx.step()
    rows = [r.split() for r in s.split('\n\n')]
    label = 'coefficients of %s' % P.as_expr()
    if ctx.require(len(rows) == degree + 1, '%s: %d rows' % (label, len(rows))):
        for j, row in enumerate(rows):
            want = [terms.get((degree - k, k - j, j), 0) for k in range(j, degree + 1)]
            got = [F(t) if 'e' not in t else F(float(t)) for t in row]
            ctx.require(len(got) == len(want) and all(abs(x - F(w)) <= max(F(1, 20000), abs(F(w)) / 10**15) and ('.' in t or 'e' in t or x == w) for x, w, t in zip(got, want, row)), '%s: row %d is %s instead of %s' % (label, j, row, want))
    ctx.valid()
    ctx.state(tuple(case))


def cases_coeffs(tier):
    return [[d, i] for d in range(1, 6) for i in range(len(polys(3, d)))]


# ------------------------------------------------------------------ local minima of a grid

def shapes():
    """cyclic polynomials with minima at various places, as dictionaries"""
    out = []

    def cyc(t):
        r = {}
        for m, c in t.items():
            for k in range(3):
                mm = m[k:] + m[:k]
                r[mm] = r.get(mm, 0) + c
        return {m: c for m, c in r.items() if c}

    def mul(p, q):
        r = {}
        for (m, c), (n, d) in itertools.product(p.items(), q.items()):
            k = tuple(x + y for x, y in zip(m, n))
            r[k] = r.get(k, 0) + c * d
        return {m: c for m, c in r.items() if c}
    A, B, C = (1, 0, 0), (0, 1, 0), (0, 0, 1)
    for u, v, w in itertools.product(range(-3, 4), repeat=3):
        if (u, v, w) > (0, 0, 0):
            # sum over the rotations of (product of two lines through a given point)^2 has small values near the rotations of it
            l1 = {A: u, B: v, C: w}
            l1 = {m: c for m, c in l1.items() if c}
            sq = mul(l1, l1)
            out.append(cyc(sq))
            rot = [{m[k:] + m[:k]: c for m, c in sq.items()} for k in range(3)]
            out.append(mul(mul(rot[0], rot[1]), rot[2]))
    return out


def run_minima(ctx, case):
    from triples.utils import GridRender
    kind, i, size, cyc, flt, vm = case
    terms = shapes()[i] if kind == 'cyc' else polys(3, i[0])[i[1]]
    P = as_poly(terms, 3)
    g = GridRender.render(P, size=size, value_method=vm, handle_error=False)
    with contextlib.redirect_stdout(io.StringIO()):
        got = g.local_minima(filter_nontrivial=flt, cyc=cyc)
    ctx.step()
    label = 'local minima of %s on the grid of size %d (cyc=%s, filter=%s)' % (P.as_expr(), size, cyc, flt)
    val = {tuple(p): v for p, v in zip(g.grid_coor, g.grid_value)}
    if vm == 'integer' and all(F(c).denominator == 1 for c in terms.values()):
        val = {p: value(terms, p) for p in val}
    want = set()
    for p in val:
        if min(p) >= 1:
            near = [(p[0] + x, p[1] + y, p[2] - x - y) for x, y in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (-1, 1))]
            if all(val[p] < val[q] for q in near):
                want.add(p)

    def trivial(p):
        return len(set(p)) < 3 or 0 in p

    def canon(p):
        return max(p, p[1:] + p[:1], p[2:] + p[:2]) if cyc else p
    pts = []
    for r in got:
        r = tuple(F(int(sp.Rational(x).p), int(sp.Rational(x).q)) for x in (r.root if hasattr(r, 'root') else r))
        s = sum(r)
        if not ctx.require(s != 0, '%s: %s' % (label, r)):
            return
        pts.append(canon(tuple(x * size / s for x in r)))
    exp = {canon(p) for p in want if not (flt and trivial(p))}
    if cyc and vm != 'integer':
        # rounding may tell the rotations of a point apart
        full = {p for p in exp if all(q in want for q in (p, p[1:] + p[:1], p[2:] + p[:2]))}
        ctx.require(full <= set(pts) <= exp, '%s: %s instead of %s' % (label, sorted(set(pts)), sorted(exp)))
    else:
        ctx.require(set(pts) == exp, '%s: %s instead of %s' % (label, [tuple(map(str, p)) for p in sorted(set(pts))], sorted(exp)))
    ctx.valid(1 + len(exp))
    ctx.state(tuple(map(str, case)))


def cases_minima(tier):
    out = []
    n = len(shapes())
    for i in range(0, n, 1 if tier != 'quick' else 2):
        for size in (3, 4, 5, 6, 9, 12, 14, 24) if tier != 'quick' else (4, 5, 9, 14):
            for flt in (True, False):
                for cyc in (True, False):
                    for vm in ('integer', 'integer_lambdify'):
                        if vm == 'integer' or size == 9:
                            out.append(['cyc', i, size, cyc, flt, vm])
    for d in (2, 3, 4):
        for i in range(len(polys(3, d))):
            for size in (5, 12):
                for flt in (True, False):
                    out.append(['any', [d, i], size, False, flt, 'integer'])
    return out


# ------------------------------------------------------------------ global optimisation under every early choice of the search

class Choices:
    """np.random.choice under control: the first choices from a script, then a fixed rule"""

    def __init__(self, script, rule):
        self.script, self.rule, self.n, self.width = list(script), rule, 0, []

    def choice(self, n, *a, **k):
        m = n if isinstance(n, int) or hasattr(n, '__index__') else len(n)
        m = int(m)
        self.width.append(m)
        i = self.script[self.n] if self.n < len(self.script) else (m - 1 if self.rule == 'last' else 0 if self.rule == 'first' else self.n * 7 % m)
        self.n += 1
        return min(i, m - 1) if isinstance(n, int) or hasattr(n, '__index__') else n[min(i, m - 1)]


X, Y, Z = sp.symbols('x y z')
RPA = [
    # objective, inequalities, equalities, lower, upper
    ('x*y', ['x+y-1'], [], 0, 1), ('x+y', ['x*y-1/4'], [], 0, 2), ('x**2+y**2', ['x+2*y-2'], [], 0, 2), ('x**2*y', ['x*y-1/2', '1-x'], [], 0, 2), ('x+2*y', ['y-1/2'], [], 0, 1),
    ('x*y', ['y-1/2'], [], 0, 1), ('x', ['x**2+y**2-1'], [], 0, 1), ('x-y', ['1-x*y'], [], 0, 2), ('-x*y', ['3-2*x-y'], [], 0, 2), ('x*y-x-y', [], [], 0, 2), ('x**2-2*x+y', [], [], 0, 2),
    ('x*y*(x-y)', [], [], 0, 1), ('x+y', ['x-3'], [], -1, 1), ('x+y', ['x*y-2'], [], 0, 1), ('y', ['x-1/2', '1/4-x'], [], 0, 1), ('x+y', [], ['x*y-1/2'], 0, 2), ('x-y', [], ['x-y'], 0, 1), ('x*y', ['x-y'], ['x+y-1'], 0, 1),
    ('3', [], [], 0, 1), ('3', ['x-1/3'], [], 0, 1), ('x', ['1'], [], 0, 1), ('x', ['-1'], [], 0, 1), ('y', [], ['1'], 0, 1), ('x+y', [], [], -1, 2), ('x**2', [], [], F(-1, 2), 1), ('-x**3-y', [], [], F(-1, 2), F(1, 2)),
    ('x**2+y', ['y-x'], [], -1, 1), ('x+y', ['2*y-1', 'x-1/3'], [], [0, F(1, 4)], [1, F(3, 4)]), ('x*y', ['1-2*x', '1-3*y', 'x-1/8'], [], [0, 0], [2, 2]), ('y**2', ['y-x**2', 'x-1/2'], [], 0, 1), ('-y', ['1-y-x**2'], [], 0, 2),
    ('x+y+z', ['x*y*z-1'], [], 0, 3), ('x*y+z', ['z-1/2', 'x-1/3'], [], 0, 1), ('z', ['x+y+z-2'], [], 0, 1), ('x', ['z-x'], [], 0, 1),
]


def dense(ctx, text, gens):
    e = sp.sympify(text, locals={'x': X, 'y': Y, 'z': Z})
    return sp.Poly(e, *gens)


def run_rpa(ctx, case):
    import numpy as np
    from triples.utils import rpa_polyopt
    i, tol, depth, rule, iters = case
    f, ineq, eq, lo, hi = RPA[i]
    gens = (X, Y, Z) if any('z' in t for t in [f] + ineq + eq) else (X, Y)
    k = len(gens)
    fp, gp, hp = dense(ctx, f, gens), [dense(ctx, t, gens) for t in ineq], [dense(ctx, t, gens) for t in eq]
    lo_ = [F(t) for t in lo] if isinstance(lo, list) else [F(lo)] * k
    hi_ = [F(t) for t in hi] if isinstance(hi, list) else [F(hi)] * k
    steps = 24 if k == 2 else 10
    axes = [[l + (h - l) * F(t, steps) for t in range(steps + 1)] for l, h in zip(lo_, hi_)]
    eqtol = F(1, 10)

    def terms(p):
        return {m: F(int(sp.Rational(c).p), int(sp.Rational(c).q)) for m, c in p.terms()}
    ft, gt, ht = terms(fp), [terms(p) for p in gp], [terms(p) for p in hp]
    best = None
    for pt in itertools.product(*axes):
        if all(value(t, pt) >= 0 for t in gt) and all(abs(value(t, pt)) <= eqtol for t in ht):
            v = value(ft, pt)
            if best is None or v < best[0]:
                best = (v, pt)
    label = 'minimum of %s subject to %s >= 0, %s = 0 on [%s, %s]' % (f, ineq, eq, lo, hi)
    pending = [()]
    runs = 0
    while pending:
        script = pending.pop()
        ch = Choices(script, rule)
        old = np.random.choice
        np.random.choice = ch.choice
        a_arg = [float(t) for t in lo_] if isinstance(lo, list) else float(lo)
        b_arg = [float(t) for t in hi_] if isinstance(hi, list) else float(hi)
        ga, ha = list(gp), list(hp)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = rpa_polyopt(fp, ga, ha, a_arg, b_arg, tol=tol, eqtol=float(eqtol), max_iter=iters)
        finally:
            np.random.choice = old
        runs += 1
        ctx.step()
        where = '%s with choices %s' % (label, list(script))
        ctx.require(ga == gp and ha == hp and a_arg == ([float(t) for t in lo_] if isinstance(lo, list) else float(lo)) and b_arg == ([float(t) for t in hi_] if isinstance(hi, list) else float(hi)), '%s changes its arguments' % where)
        if r.x is None:
            ctx.require(not r.converged or best is None, '%s: reported infeasible, but %s is feasible' % (where, best and tuple(map(str, best[1]))))
            ctx.require(r.f == float('inf'), '%s: no point, but the value %s' % (where, r.f))
        else:
            pt = [F(float(t)) for t in r.x]
            eps = F(1, 10**7)
            ctx.require(all(l - eps <= t <= h + eps for l, t, h in zip(lo_, pt, hi_)), '%s: the point %s is outside of the domain' % (where, r.x))
            for t, s in zip(gt, ineq):
                ctx.require(value(t, pt) >= -eps, '%s: %s is %s at %s' % (where, s, float(value(t, pt)), r.x))
            for t, s in zip(ht, eq):
                ctx.require(abs(value(t, pt)) <= eqtol + eps, '%s: %s is %s at %s' % (where, s, float(value(t, pt)), r.x))
            ctx.require(abs(F(float(r.f)) - value(ft, pt)) <= eps * (1 + scale(ft, pt)), '%s: value %s reported for %s' % (where, r.f, r.x))
            if r.converged and best is not None:
                ctx.require(best[0] >= F(float(r.f)) - F(tol) - eps, '%s: %s is called the minimum, but %s gives %s' % (where, r.f, tuple(map(str, best[1])), best[0]))
        ctx.outcome('infeasible' if r.x is None else 'converged' if r.converged else 'limit')
        if len(script) < depth and len(ch.width) > len(script):
            w = ch.width[len(script)]
            for c in range(w):
                # every alternative at this choice point
                pending.append(tuple(script) + (c,))
    ctx.valid(runs)
    ctx.state((i, tol, rule, runs))


def cases_rpa(tier):
    if tier == 'quick':
        return [[i, t, 2, rule, 40] for i in range(len(RPA)) for t in (.25,) for rule in ('first', 'last')]
    return [[i, t, d, rule, n] for i in range(len(RPA)) for t, d, n in ((.5, 4, 150), (.2, 3, 150), (.05, 1, 2000)) for rule in ('first', 'last', 'mixed')]


# ------------------------------------------------------------------ monotone and difference-of-monotone problems given as functions

MONO = {
    'sum': (lambda x: x[0] + x[1]), 'prod': (lambda x: x[0] * x[1]), 'max': (lambda x: max(x[0], x[1])), 'min': (lambda x: min(x[0], x[1])), 'cube': (lambda x: x[0]**3 + 2 * x[1]),
    'sqrt': (lambda x: max(x[0], 0)**.5 + x[1]), 'first': (lambda x: x[0]), 'second': (lambda x: x[1]), 'steps': (lambda x: float(int(2 * x[0])) + x[1]), 'zero': (lambda x: 0),
}


def run_mono(ctx, case):
    import numpy as np
    from triples.utils import rpa_monotonic, rpa_gmop
    mode, f, g, gc, h, hc, rule, tol, depth = case
    lo, hi = [0., 0.], [2., 1.]
    ff = MONO[f]

    def gg(x):
        return MONO[g](x) - gc

    def hh(x):
        return MONO[h](x) - hc
    steps = 40
    axes = [[l + (u - l) * t / steps for t in range(steps + 1)] for l, u in zip(lo, hi)]
    best = None
    if mode == 'gmop':
        obj = lambda x: ff(x) - MONO[h](x)
        feas = lambda x: gg(x) - MONO[h](x) <= 0
    else:
        obj = ff
        feas = lambda x: gg(x) <= 0 and hh(x) >= 0
    for pt in itertools.product(*axes):
        if feas(pt) and (best is None or obj(pt) < best[0]):
            best = (obj(pt), pt)
    pending = [()]
    while pending:
        script = pending.pop()
        ch = Choices(script, rule)
        old = np.random.choice
        np.random.choice = ch.choice
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if mode == 'gmop':
                    r = rpa_gmop((ff, MONO[h]), [(lambda x: MONO[g](x) - gc, MONO[h])], list(lo), list(hi), tol=tol, max_iter=150)
                else:
                    r = rpa_monotonic(ff, gg, hh, list(lo), list(hi), tol=tol, max_iter=300)
        finally:
            np.random.choice = old
        ctx.step()
        where = '%s: min %s, %s <= %s, %s >= %s with choices %s' % (mode, f, g, gc, h, hc, list(script))
        if r.x is None:
            ctx.require(not r.converged or best is None, '%s: infeasible, but %s is feasible' % (where, best))
        else:
            x = [float(t) for t in r.x]
            eps = 1e-6
            ctx.require(all(l - eps <= t <= u + eps for l, t, u in zip(lo, x, hi)), '%s: %s is outside' % (where, x))
            ok = feas(x) or (mode != 'gmop' and gg(x) <= eps and hh([min(t + eps, u) for t, u in zip(x, hi)]) >= -eps) or (mode == 'gmop' and gg(x) - MONO[h](x) <= eps)
            ctx.require(ok, '%s: %s is not feasible' % (where, x))
            ctx.require(abs(r.f - obj(x)) <= eps, '%s: value %s at %s' % (where, r.f, x))
            if r.converged and best is not None:
                ctx.require(best[0] >= r.f - tol - eps, '%s: %s is called the minimum, but %s gives %s' % (where, r.f, best[1], best[0]))
        ctx.outcome('infeasible' if r.x is None else 'converged' if r.converged else 'limit')
        if len(script) < depth and len(ch.width) > len(script):
            pending += [tuple(script) + (c,) for c in range(ch.width[len(script)])]
    ctx.valid()
    ctx.state(tuple(case))


def cases_mono(tier):
    out = []
    fs = ['sum', 'prod', 'max', 'cube', 'first', 'sqrt']
    for f in fs:
        for g, gc in (('zero', 0), ('sum', 2), ('first', 1), ('second', .4), ('max', .9), ('sum', -1)):
            for h, hc in (('prod', .5), ('sum', 1), ('min', .3), ('second', .5), ('zero', 0), ('sum', 5), ('prod', 2)):
                out.append(['mono', f, g, gc, h, hc, 'first' if len(out) % 2 else 'last', .1, 1 if tier == 'quick' else 3])
    for f in ('sum', 'prod', 'cube', 'first'):
        for g, gc in (('sum', 1), ('zero', 0), ('first', .5)):
            for h in ('prod', 'second', 'sum', 'zero'):
                out.append(['gmop', f, g, gc, h, 0, 'last', .3, 1 if tier == 'quick' else 2])
    return out


# ------------------------------------------------------------------ writing a polynomial as a difference of monotone ones

def run_dm(ctx, case):
    from triples.utils.roots import poly_as_dm
    nvars, degree, i, lower = case
    terms = polys(nvars, degree)[i]
    P = as_poly(terms, nvars)
    low = None if lower is None else [sp.Rational(F(t).numerator, F(t).denominator) for t in lower]
    f1, f2 = poly_as_dm(P, low) if low is not None else poly_as_dm(P)
    ctx.step()
    label = 'difference of monotone functions for %s above %s' % (P.as_expr(), lower)
    ctx.require(sp.expand(f1.as_expr() - f2.as_expr() - P.as_expr()) == 0, '%s: %s - %s' % (label, f1, f2))
    base = [F(t) for t in (lower or [0] * nvars)]
    grid = [[b + F(k, 2) for k in range(4)] for b in base]
    for name, q in (('first', f1), ('second', f2)):
        t = {m: F(int(sp.Rational(c).p), int(sp.Rational(c).q)) for m, c in sp.Poly(q.as_expr(), *P.gens).terms()}
        for pt in itertools.product(*grid):
            for k in range(nvars):
                up = list(pt)
                up[k] += F(1, 2)
                if not ctx.require(value(t, up) >= value(t, pt), '%s: the %s function decreases from %s to %s' % (label, name, pt, up)):
                    return
    ctx.valid()
    ctx.state(str(case))


def cases_dm(tier):
    return [[n, d, i, lo] for n, d in ((1, 3), (2, 2), (2, 3), (3, 2)) for i in range(len(polys(n, d))) for lo in (None, [0] * n, [-1] * n, [F(-1, 2), 1, -2][:n], [F(1, 3)] * n)]


# ------------------------------------------------------------------ errors give an empty grid of the size asked for

def run_error(ctx, case):
    from triples.utils import GridRender
    nvars, size, vm, color = case
    gens = sp.symbols(NAMES[:nvars])
    P = sp.Poly(sp.Symbol('k') * gens[0] + gens[-1], *gens)
    try:
        GridRender.render(P, size=size, value_method=vm, with_color=color, handle_error=False)
        failed = False
    except Exception:
        failed = True
    ctx.step()
    if failed:
        g = GridRender.render(P, size=size, value_method=vm, with_color=color)
        label = 'empty grid for %s, size %d' % (P, size)
        ctx.require([tuple(p) for p in g.grid_coor] == points(nvars, size) and len(g.grid_value) == len(g.grid_coor) and all(v == 0 for v in g.grid_value) and g.size == size, '%s: %d points, size %s' % (label, len(g.grid_coor), g.size))
    z = GridRender.zero_grid(nvars, size)
    ctx.require([tuple(p) for p in z.grid_coor] == points(nvars, size) and list(z.grid_value) == [0] * len(z.grid_coor) and len(z.poly.gens) == nvars and z.poly.is_zero, 'zero grid %s %s' % (nvars, size))
    ctx.valid()
    ctx.state(tuple(case))


def cases_error(tier):
    return [[n, s, vm, c] for n in (2, 3, 4) for s in (2, 5, 18) for vm in ('integer', 'integer_lambdify') for c in (True, False)]


def families(tier):
    return [
        Family('values', cases_values(tier), run_values, timeout=60, chunk=16, share=3, bound='polynomials of 1-4 variables, degrees 0-18, sizes 1-60, all value and colour methods'),
        Family('images', cases_image(tier), run_image, timeout=60, chunk=2, share=2, bound='heat maps of sizes 6-60, every pixel'),
        Family('coefficients', cases_coeffs(tier), run_coeffs, timeout=60, chunk=8, share=1, bound='coefficient triangles of degrees 1-5'),
        Family('minima', cases_minima(tier), run_minima, timeout=60, chunk=16, share=3, bound='cyclic and other polynomials on grids of sizes 3-60, every interior point'),
        Family('global', cases_rpa(tier), run_rpa, timeout=300, chunk=1, share=4, bound='problems in 2-3 variables, every choice of the search at its first 2 (thorough: 4) choice points'),
        Family('monotone', cases_mono(tier), run_mono, timeout=200, chunk=4, share=3, bound='objective x constraint functions, every first choice'),
        Family('splitting', cases_dm(tier), run_dm, timeout=60, chunk=8, share=1, bound='polynomials x lower bounds'),
        Family('errors', cases_error(tier), run_error, timeout=60, chunk=8, share=1, bound='variables x sizes x methods'),
    ]
