"""Independent meaning of the objects the package returns.

Nothing here calls the package's own doit/evaluation code: cyclic sums/products are expanded with our
own group closure, and expressions are evaluated at exact points with Python fractions (or, when radicals
or algebraic numbers occur, with 60-digit mpmath numbers).
"""
import itertools
from fractions import Fraction as F

import mpmath
import sympy as sp

MPDPS = 60


class Undefined(Exception):
    """the expression has no value at this point (division by zero, nan, complex)"""


def group_closure(gens, n):
    """all permutations (tuples) generated by gens; own code."""
    ident = tuple(range(n))
    seen = {ident}
    todo = [ident]
    while todo:
        g = todo.pop()
        for h in gens:
            k = tuple(h[i] for i in g)
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return sorted(seen)


_gc_cache = {}


def group_elements(perm):
    key = tuple(sorted(tuple(g.array_form) for g in perm.generators)) + (perm.degree,)
    if key not in _gc_cache:
        n = perm.degree
        _gc_cache[key] = group_closure([tuple(g.array_form) + tuple(range(len(g.array_form), n)) for g in perm.generators], n)
    return _gc_cache[key]


def is_cyc(e):
    return type(e).__name__ in ('CyclicSum', 'CyclicProduct') and len(e.args) == 3


def _num(x):
    """sympy number -> Fraction or mpf"""
    if x.is_Rational:
        return F(int(x.p), int(x.q))
    if x in (sp.nan, sp.oo, -sp.oo, sp.zoo):
        raise Undefined(str(x))
    v = sp.N(x, MPDPS + 10)
    re, im = v.as_real_imag()
    if abs(im) > 1e-40:
        raise Undefined('complex %s' % x)
    return mpmath.mpf(str(re)) if not isinstance(re, sp.Float) else mpmath.mpf(re._mpf_)


def to_mp(x):
    return mpmath.mpf(x.numerator) / x.denominator if isinstance(x, F) else x


def _mixed(op, x, y):
    if isinstance(x, F) and isinstance(y, F):
        return op(x, y)
    return op(to_mp(x), to_mp(y))


def ev(e, env, extra=None):
    """value of expression e with symbols env: {Symbol: Fraction}; extra(e, env) may give meaning to
    function applications.  Exact when possible."""
    with mpmath.workdps(MPDPS):
        return _ev(e, env, extra)


def _ev(e, env, extra):
    if isinstance(e, sp.Symbol):
        try:
            return env[e]
        except KeyError:
            raise KeyError('free symbol %s has no meaning' % e)
    if e.is_Rational:
        return F(int(e.p), int(e.q))
    if isinstance(e, sp.Add):
        tot = F(0)
        for a in e.args:
            tot = _mixed(lambda x, y: x + y, tot, _ev(a, env, extra))
        return tot
    if isinstance(e, sp.Mul):
        tot = F(1)
        for a in e.args:
            tot = _mixed(lambda x, y: x * y, tot, _ev(a, env, extra))
        return tot
    if isinstance(e, sp.Pow):
        b = _ev(e.base, env, extra)
        x = e.exp
        if x.is_Integer:
            x = int(x)
            if x < 0 and _iszero(b):
                raise Undefined('division by zero')
            return b ** x
        if x.is_Rational:
            if b < 0:
                raise Undefined('root of a negative number')
            if _iszero(b):
                if x < 0:
                    raise Undefined('division by zero')
                return F(0)
            if isinstance(b, F) and x.q == 2:
                import math
                n, d = math.isqrt(b.numerator), math.isqrt(b.denominator)
                if n * n == b.numerator and d * d == b.denominator:
                    return F(n, d) ** int(x.p)
            return to_mp(b) ** (mpmath.mpf(int(x.p)) / int(x.q))
        raise Undefined('power %s' % e)
    if is_cyc(e):
        return _ev_cyc(e, env, extra)
    if isinstance(e, sp.Abs):
        return abs(_ev(e.args[0], env, extra))
    if extra is not None:
        r = extra(e, env)
        if r is not None:
            return r
    if e.is_number:
        return _num(e)
    if isinstance(e, sp.Poly):
        return _ev(e.as_expr(), env, extra)
    raise TypeError('cannot evaluate %s of type %s' % (e, type(e)))


def _iszero(x):
    return x == 0 if isinstance(x, F) else abs(x) < mpmath.mpf(10) ** (-MPDPS + 15)


def _ev_cyc(e, env, extra):
    body, syms, perm = e.args
    syms = tuple(syms)
    els = group_elements(perm)
    if len(els) > 1 and perm.degree != len(syms):
        raise ValueError('ill-formed cyclic expression: %d symbols, degree %d' % (len(syms), perm.degree))
    base = [env[s] for s in syms]
    # the permuted environment must not leak into symbols other than syms
    prod = type(e).__name__ == 'CyclicProduct'
    tot = F(1) if prod else F(0)
    for p in els:
        env2 = dict(env)
        for i, s in enumerate(syms):
            env2[s] = base[p[i]]
        v = _ev(body, env2, extra)
        tot = _mixed((lambda x, y: x * y) if prod else (lambda x, y: x + y), tot, v)
    return tot


def close(x, y, tol=1e-30):
    if isinstance(x, F) and isinstance(y, F):
        return x == y
    with mpmath.workdps(MPDPS):
        x, y = to_mp(x), to_mp(y)
        return abs(x - y) <= tol * (1 + abs(x) + abs(y))


def negative(x, tol=1e-25):
    if isinstance(x, F):
        return x < 0
    return x < -tol


GENERIC = [F(3, 7), F(-5, 3), F(11, 2), F(13, 5), F(-17, 11), F(19, 4), F(-23, 9), F(29, 6), F(31, 10), F(-37, 8),
           F(41, 12), F(-43, 13), F(47, 15), F(53, 16)]


def generic_points(n, k=6):
    """k 'generic' rational points in dimension n, deterministic."""
    pts = []
    for j in range(k):
        pts.append([GENERIC[(i * 3 + j * 5 + (i * j) % 3) % len(GENERIC)] + F(j * 7 + i, 17) for i in range(n)])
    return pts


def grid(n, vals):
    return itertools.product(vals, repeat=n)


def ev_np(e, env, extra):
    """float evaluation over arrays (screening only)"""
    if isinstance(e, sp.Symbol):
        return env[e]
    if isinstance(e, sp.Add):
        return sum(ev_np(a, env, extra) for a in e.args)
    if isinstance(e, sp.Mul):
        r = 1.0
        for a in e.args:
            r = r * ev_np(a, env, extra)
        return r
    if isinstance(e, sp.Pow):
        b = ev_np(e.base, env, extra)
        if e.exp.is_Integer:
            n = int(e.exp)
            return b ** n if n >= 0 else 1.0 / (b ** (-n))
        if e.exp.is_Rational:
            import numpy as np
            return np.power(b, float(e.exp))
        raise TypeError
    if is_cyc(e):
        body, syms, perm = e.args
        base = [env[s] for s in syms]
        prod = type(e).__name__ == 'CyclicProduct'
        tot = 1.0 if prod else 0.0
        for p in group_elements(perm):
            e2 = dict(env)
            for i, s in enumerate(syms):
                e2[s] = base[p[i]]
            v = ev_np(body, e2, extra)
            tot = tot * v if prod else tot + v
        return tot
    if e.is_number:
        return float(e)
    if extra is not None:
        return extra(e, env)
    raise TypeError


# ---------------------------------------------------------------------------- certificates

def summands(e):
    """top-level summands of a certificate; common positive factors are distributed lazily:
    returns list of factor lists."""
    if isinstance(e, sp.Add):
        out = []
        for a in e.args:
            out += summands(a)
        return out
    if isinstance(e, sp.Mul):
        adds = [a for a in e.args if isinstance(a, sp.Add) and not a.is_number]
        if len(adds) == 1:
            rest = [a for a in e.args if a is not adds[0]]
            return [s + rest for s in summands(adds[0])]
        return [list(e.args)]
    return [[e]]


class Certificate:
    """A claim problem == solution with solution obviously >= 0 under the constraints.

    problem: Expr/Poly;  ineq, eq: dict expr -> alias (as given by the user; a list means alias == expr)."""

    def __init__(self, problem, ineq, eq, solution):
        self.problem = problem.as_expr()
        self.ineq = {sp.sympify(k).as_expr(): sp.sympify(v).as_expr() for k, v in _asdict(ineq).items()}
        self.eq = {sp.sympify(k).as_expr(): sp.sympify(v).as_expr() for k, v in _asdict(eq).items()}
        self.solution = solution
        syms = set(self.problem.free_symbols)
        if isinstance(problem, sp.Poly):
            syms |= set(problem.gens)
        for k in itertools.chain(self.ineq, self.eq):
            syms |= k.free_symbols
        self.syms = sorted(syms, key=lambda s: s.name)
        self.alias_sym = {}
        self.alias_fun = {}
        for k, v in itertools.chain(self.ineq.items(), self.eq.items()):
            if v == k:
                continue
            if isinstance(v, sp.Symbol):
                self.alias_sym[v] = k
            else:
                self.alias_fun[v] = k

    def env(self, pt):
        env = dict(zip(self.syms, pt))
        for s, k in self.alias_sym.items():
            env[s] = ev(k, dict(zip(self.syms, pt)))
        return env

    def extra(self, base_env):
        """meaning of G(x,...) aliases: a function symbol applied to permuted arguments means the constraint with
        its arguments permuted accordingly."""
        templates = {}
        for v, k in self.alias_fun.items():
            if v.func.is_Function and all(isinstance(a, sp.Symbol) for a in v.args):
                templates.setdefault((v.func, len(v.args)), []).append((v.args, k))

        def f(e, env):
            if not getattr(e, 'is_Function', False):
                return None
            # direct: same application evaluated in the current (possibly permuted) environment; by convention
            # G(sym..) denotes the expression it names, as a function of its arguments
            for args, k in templates.get((e.func, len(e.args)), []):
                if tuple(args) == tuple(e.args):
                    return _ev(k, env, f)
            for args, k in templates.get((e.func, len(e.args)), []):
                e2 = dict(env)
                vals = [_ev(a, env, f) for a in e.args]
                for a, v in zip(args, vals):
                    e2[a] = v
                return _ev(k, e2, f)
            return None
        return f

    def check_identity(self, npts=5):
        """None if problem == solution at generic exact points; else a message"""
        done = 0
        for pt in generic_points(len(self.syms), npts * 3):
            env = self.env(pt)
            try:
                want = ev(self.problem, env)
                got = ev(self.solution, env, self.extra(env))
            except Undefined:
                continue
            if not close(got, want):
                return 'at %s the problem is %s but the certificate evaluates to %s' % (
                    dict(zip(self.syms, map(str, pt))), _s(want), _s(got))
            done += 1
            if done >= npts:
                return None
        if done == 0:
            # roots of negative numbers: go to positive points
            for pt in generic_points(len(self.syms), npts * 2):
                env = self.env([abs(x) for x in pt])
                try:
                    want = ev(self.problem, env)
                    got = ev(self.solution, env, self.extra(env))
                except Undefined:
                    continue
                if not close(got, want):
                    return 'at %s the problem is %s but the certificate evaluates to %s' % (pt, _s(want), _s(got))
                done += 1
                if done >= npts:
                    return None
        if done == 0:
            return 'certificate undefined at every generic point'
        return None

    def feasible(self, pt):
        env = dict(zip(self.syms, pt))
        for k in self.eq:
            if not _iszero(ev(k, env)):
                return False
        for k in self.ineq:
            if negative(ev(k, env)):
                return False
        return True

    def check_nonneg(self, points):
        """(number of feasible points, None) if at every feasible point of `points` every summand is >= 0 and so is
        the problem.  A vectorised float pass selects the suspicious points; only those are decided (exactly)."""
        points = list(points)
        terms = summands(self.solution)
        nfeas = 0
        if len(points) > 4:
            try:
                points, nfeas = self._suspects(points, terms)
            except (TypeError, KeyError, ValueError, FloatingPointError):
                nfeas = 0
        n, msg = self._check_exact(points, terms)
        return max(n, nfeas), msg

    def _suspects(self, points, terms):
        import numpy as np
        arr = np.array([[float(x) for x in pt] for pt in points], dtype=float).T
        env = {s: arr[i] for i, s in enumerate(self.syms)} if len(self.syms) else {}
        base = dict(env)
        for s, k in self.alias_sym.items():
            env[s] = ev_np(k, base, None)
        f = self.extra_np(env)
        with np.errstate(all='ignore'):
            feas = np.ones(len(points), dtype=bool)
            for k in self.eq:
                feas &= np.abs(ev_np(k, env, None)) < 1e-9
            for k in self.ineq:
                feas &= ev_np(k, env, None) > -1e-9
            bad = ev_np(self.problem, env, None) < -1e-9
            for t in terms:
                v = np.ones(len(points))
                for fac in t:
                    v = v * ev_np(fac, env, f)
                bad |= ~(v > -1e-9)          # nan and -inf are suspicious as well
        idx = np.nonzero(feas & bad)[0]
        return [points[i] for i in idx], int(feas.sum())

    def extra_np(self, base_env):
        templates = {}
        for v, k in self.alias_fun.items():
            if v.func.is_Function and all(isinstance(a, sp.Symbol) for a in v.args):
                templates.setdefault((v.func, len(v.args)), []).append((v.args, k))

        def f(e, env):
            for args, k in templates.get((e.func, len(e.args)), []):
                if tuple(args) == tuple(e.args):
                    return ev_np(k, env, f)
            for args, k in templates.get((e.func, len(e.args)), []):
                e2 = dict(env)
                vals = [ev_np(a, env, f) for a in e.args]
                for a, v in zip(args, vals):
                    e2[a] = v
                return ev_np(k, e2, f)
            raise TypeError('no meaning for %s' % e)
        return f

    def _check_exact(self, points, terms):
        n = 0
        for pt in points:
            if not self.feasible(pt):
                continue
            env = self.env(pt)
            pv = ev(self.problem, env)
            if negative(pv):
                return n, 'claimed nonnegative but the problem is %s at the feasible point %s' % (
                    _s(pv), dict(zip(map(str, self.syms), map(str, pt))))
            f = self.extra(env)
            for t in terms:
                try:
                    v = F(1)
                    for fac in t:
                        v = _mixed(lambda x, y: x * y, v, ev(fac, env, f))
                except Undefined:
                    continue
                if negative(v):
                    return n, 'summand %s is %s at the feasible point %s' % (
                        _s(sp.Mul(*t, evaluate=False)), _s(v), dict(zip(map(str, self.syms), map(str, pt))))
            n += 1
        return n, None


def _asdict(x):
    return x if isinstance(x, dict) else {k: k for k in x}


def _s(x, n=200):
    s = str(x) if not isinstance(x, mpmath.mpf) else mpmath.nstr(x, 20)
    return s if len(s) <= n else s[:n] + '...'


def negative_point(problem, ineq, eq, syms, points):
    """a feasible point of `points` where problem < 0, or None"""
    c = Certificate(problem, ineq, eq, sp.S.Zero)
    assert not set(c.syms) - set(syms)
    c.syms = list(syms)
    for pt in points:
        if c.feasible(pt) and negative(ev(c.problem, c.env(pt))):
            return pt
    return None
