"""C12: printed forms round-trip to the same polynomial or solution value."""
import itertools
import re

import mpmath
import sympy as sp

from ..core import Family
from .. import oracle as O
from .. import shorthand as SH
from .. import texread as TR
from .c11 import group

TITLE = 'printed forms round-trip'
mpmath.mp.dps = O.MPDPS
BUDGET = {'quick': 150, 'thorough': 900}


def poly_of(terms, gens):
    G = sp.symbols(list(gens))
    return sp.Poly.from_dict({tuple(m): sp.sympify(c) for m, c in terms}, *G) if terms else sp.Poly(0, *G)


# ------------------------------------------------------------------ polynomials

def run_poly(ctx, case):
    """standard and factor form under every option, read by the reference reader and by the package"""
    text, gens, pname = case
    from triples.utils.expression.form import poly_get_standard_form, poly_get_factor_form
    from triples.utils.text_process import preprocess_text
    perm, perms = group(pname, len(gens))
    G = tuple(sp.symbols(list(gens)))
    e = sp.expand(read(text, gens, perms))
    P = sp.Poly(e, *G, extension=True) if not e.free_symbols - set(G) else sp.Poly(e, *G)
    for name, f in (('standard', poly_get_standard_form), ('factor', poly_get_factor_form)):
        if name == 'factor' and P.total_degree() > (24 if P.domain.is_QQ or P.domain.is_ZZ else 3):
            continue   # factoring over an extension is slow; not what is printed matters
        for om, op in itertools.product((True, False), repeat=2):
            ctx.step()
            s = f(P, perm, omit_mul=om, omit_pow=op)
            try:
                back = read(s, gens, perms)
            except (SH.Bad, TypeError) as ex:
                ctx.fail('%s form of %s over %s (%s) is unreadable: %r (%s)' % (name, e, gens, pname, s, ex))
                continue
            ctx.require(sp.expand(back - e) == 0, lambda: '%s form of %s over %s (%s, omit_mul=%s, omit_pow=%s) is %r, which denotes %s' % (name, e, gens, pname, om, op, s, sp.expand(back)))
            if len(s) < 200 and not (set('sp') & {str(x) for x in e.free_symbols}):
                again = preprocess_text(s, gens=G, perm=perm, return_type='expr')
                ctx.require(sp.expand(again - e) == 0, lambda: 'the package reads its own %s form %r of %s as %s' % (name, s, e, again))
            ctx.state(s)


def read(s, gens, perms):
    """reference reader of the shorthand; other lowercase letters are parameters"""
    return SH.P2(s, gens, perms).parse()


def run_triangle(ctx, case):
    """coefficient triangle: the entries in their positions are the coefficients"""
    terms, gens, degree = case
    from triples.utils.text_process import coefficient_triangle
    from triples.utils.expression.form import latex_coeffs
    P = poly_of([(m, c) for c, m in terms], gens)
    n = degree
    ctx.step()
    T = coefficient_triangle(P, degree)
    if len(gens) == 3:
        order = [(n - i, i - j, j) for i in range(n + 1) for j in range(i + 1)]
    else:
        order = sorted((m for m in itertools.product(range(n + 1), repeat=4) if sum(m) == n), reverse=True)
    if not ctx.require(len(T) == len(order), lambda: '%s of degree %d: %d entries, expected %d' % (P, n, len(T), len(order))):
        return
    got = {}
    for m, t in zip(order, T):
        c = read(t, 'zzz'[:0] or 'uvw', [(0, 1, 2)])
        if c != 0:
            got[m] = c
    want = {m: c for m, c in zip(P.monoms(), P.coeffs()) if c != 0}
    ctx.require(set(got) == set(want) and all(sp.nsimplify(got[m] - want[m]) == 0 for m in want), lambda: '%s: triangle %s' % (P, T))
    if not P.is_zero:
        ctx.require(coefficient_triangle(P) == T, lambda: '%s: the triangle depends on naming the degree' % P)
    if len(gens) == 3 and not P.is_zero:
        for tab, doc in itertools.product((True, False), repeat=2):
            s = latex_coeffs(P, tabular=tab, document=doc)
            body = s
            for k in ('\\left[\\begin{matrix}', '\\end{matrix}\\right]', '\\end{tabular}', '\\renewcommand*{\\arraystretch}{1.732}', '$'):
                body = body.replace(k, '')
            body = re.sub(r'\\begin\{tabular\}\{c*\}', '', body)
            rows = [[re.sub(r'^\\ |\\ ?$', '', x.strip()).strip() for x in r.split('&')] for r in body.split('\\\\')]
            rows = [[x for x in r if x] for r in rows]
            rows = [r for r in rows if r]
            exp = [[sp.latex(P.coeff_monomial((n - i, i - j, j))) for i in range(j, n + 1)] for j in range(n + 1)]
            clean = [[re.sub(r'\\textcolor\{lightgray\}\{0\}|textcolor\{lightgray\}\{0\}', '0', x) for x in r] for r in rows]
            ctx.require(clean == exp, lambda: '%s: LaTeX table %s, expected %s' % (P, clean, exp))
    ctx.state(tuple(T))


# ------------------------------------------------------------------ solutions

def split(s):
    for sep in ('≈', '\\approx', '='):
        if sep in s:
            a, b = s.split(sep, 1)
            return a.strip(), sep, b.strip()
    raise TR.Bad('no equality sign in %r' % s)


def forms(sol):
    yield 'txt', lambda: sol.str_txt
    yield 'formatted', lambda: sol.str_formatted
    yield 'latex', lambda: sol.str_latex
    for mode in ('latex', 'txt', 'formatted'):
        for tog, can in ((True, True), (True, False), (False, False)):
            yield 'to_string %s together=%s cancel=%s' % (mode, tog, can), (lambda mode=mode, tog=tog, can=can: sol.to_string(mode, together=tog, cancel=can))


def check_solution(ctx, sol, value, problem, gens, perms, label):
    """every printed form of sol denotes an equation that holds for the problem"""
    G = list(sp.symbols(list(gens)))
    names = {str(s): s for s in G}
    f = '(%s)' % ','.join(gens)
    before = str(value), sp.latex(value)
    for name, thunk in forms(sol):
        ctx.step()
        s = thunk()
        full = s
        if name == 'latex' or name == 'txt' or name == 'formatted':
            s = s.strip('$').replace('\\begin{aligned}', '').replace('\\end{aligned}', '').replace('\\\\', '').replace('&', '')
            lhs, sep, rhs = split(s)
            ctx.require((sep == '=') == bool(sol.is_equal), lambda: '%s: %s prints %r although is_equal is %s' % (label, name, sep, sol.is_equal))
            lhs = lhs.replace(' ', '') if name != 'latex' else lhs
            if not ctx.require(lhs.endswith('f' + f), lambda: '%s: left hand side %r' % (label, lhs)):
                continue
            lhs = lhs[:-len('f' + f)].strip() or '1'
        else:
            s2 = s
            lhs, sep, rhs = split(s2)
        reader = TR.read_latex if 'latex' in name else (TR.read_short if 'formatted' in name else TR.read_text)
        try:
            L = reader(lhs, names, G, perms)
            R = reader(rhs, names, G, perms)
        except TR.Bad as e:
            ctx.fail('%s: %s form %r cannot be read: %s' % (label, name, full, e))
            continue
        for pt in O.generic_points(len(G), 3):
            env = dict(zip(G, [abs(x) for x in pt]))
            l, r = O.ev(sp.sympify(L), env), O.ev(sp.sympify(R), env)
            if name in ('latex', 'txt', 'formatted'):
                l = O._mixed(lambda x, y: x * y, l, O.ev(problem, env))
            if not ctx.require(O.close(l, r), lambda: '%s: %s form %r does not hold: at %s the sides are %s and %s' % (label, name, full, [str(x) for x in pt], l, r)):
                break
    ctx.require((str(value), sp.latex(value)) == before, lambda: '%s: printing a solution changes how expressions print afterwards: %r, before %r' % (label, str(value), before[0]))


TERMS = {
    'aa': 'a**2', 'S(a)': 'S(a)', 'S(a2)': 'S(a**2)', 'S(a(b-c)2)': 'S(a*(b-c)**2)', 'P(a)': 'P(a)', 'P(a+b)': 'P(a+b)', 'P(a-b)2': 'P(a-b)**2', 'S(a)S(ab)': 'S(a)*S(a*b)',
    'S(a)2': 'S(a)**2', 'aS(b2)': 'a*S(a*b**2)', 'S(a-b)...': 'S((a-b)**2*(a+b-c)**2)', 'S(a12)': 'S(a**12)', 'a20': 'a**20*b', 'S(aa+bb)': 'S(a**2+2*b*c)', 'P(a)S(a)': 'P(a)*S(a**2)',
    'P(aa)': 'P(a**2+b)', 'S(a/(b+c))': 'S(a/(b+c))', 'S(aP)': 'S(a*P(a+1))', 'P(S)': 'P(a*S(a)+b)', '(a-b)2': '(a-b)**2', 'S(2a-b)': 'S((2*a-b)**2/3)', 'sqrtS': 'S(a*sqrt(b))',
    'S(abc)': 'S(a**2*b*c)/2', 'aP': '(a+b)*P(a+2*b)', 'one': 'S(1)*0+1', 'SP': 'P(a+b)*S(a)*S(a**2)', 'xS': '(a+1)**2*S(a*b)', 'bS': 'c*(b+1)*S(a**3)', 'P2S': 'P(a)**2*S(a)**3',
}
COEFS = ['1', '2', '-1', '2/3', '-7/2', 'sqrt(2)', '3*sqrt(5)', '3*2**Rational(1,3)', '5*2**Rational(2,3)', '(1+sqrt(2))', '-sqrt(3)']
DENS = ['1', 'S(a)', 'P(a+b)', 'S(a)+2', '2*S(a*b)', '(a+b)', 'a', '3', 'S(a)*P(a)', 'S(a)**2', 'sqrt(2)*S(a)']


def build(txt, gens, perm):
    from triples.utils.expression.cyclic import CyclicSum, CyclicProduct
    G = tuple(sp.symbols(list(gens)))
    args = (G,) if perm is None else (G, perm)
    ns = {str(s): s for s in G}
    ns.update(sqrt=sp.sqrt, Rational=sp.Rational, S=lambda e: CyclicSum(sp.sympify(e), *args), P=lambda e: CyclicProduct(sp.sympify(e), *args))
    t = re.sub(r'(?<![\w*])(\d+)/(\d+)', r'Rational(\1,\2)', txt)
    return sp.sympify(eval(t, {'__builtins__': {}}, ns))


def run_solution(ctx, case):
    txt, gens, pname = case
    from triples.utils.expression.solution import SolutionSimple
    perm, perms = group(pname, len(gens))
    value = build(txt, gens, perm)
    if value.is_number:
        ctx.trivial()
        return
    problem = value
    sol = SolutionSimple(problem=problem, solution=value, is_equal=True)
    # str_* show f(gens); an expression problem lists its free symbols, so use the generators in order
    sol.__class__ = type('Sol', (SolutionSimple,), {'gens': property(lambda self: tuple(sp.symbols(list(gens))))})
    check_solution(ctx, sol, value, problem, gens, perms, txt)
    ctx.state(txt)


def run_proved(ctx, case):
    """solutions of real provers after rewriting to one symmetry, read back against the polynomial"""
    text, gens, pname, prover = case
    import triples.core as core
    perm, perms = group(pname, len(gens))
    G = tuple(sp.symbols(list(gens)))
    P = sp.Poly(SH.parse(text, gens, perms), *G)
    sol = getattr(core, prover)(P, list(G))
    ctx.step()
    if sol is None:
        ctx.trivial()
        ctx.outcome('none')
        return
    from sympy.combinatorics import CyclicGroup
    s2 = sol.rewrite_symmetry(G, perm if perm is not None else CyclicGroup(len(G)))
    check_solution(ctx, s2, s2.solution, P.as_expr(), gens, perms, '%s by %s' % (text, prover))
    ctx.outcome('solved')
    ctx.state(str(s2.solution))


# ------------------------------------------------------------------ spaces

def cases_poly(tier):
    q = tier == 'quick'
    out = []
    shapes = ['{x}', '{x}2', '{x}{y}', '{x}2{y}', '1', '{x}12', '{x}2{y}3']
    coefs = ['', '-', '2', '-3/2', '1/2', 'sqrt(2)', '-12', '(1+sqrt(2))', 'k', '-k2', '(k+m)', '1/3']
    def add(t, g, n):
        out.append([t, g, n])
    for gens, names in [('abc', ['cyc', 'sym', 'triv', 'swap']), ('xy', ['cyc', 'triv']), ('abcd', ['cyc', 'sym', 'swap']), ('xyz', ['sym'])]:
        x, y = gens[:2]
        z = gens[2] if len(gens) > 2 else x
        S = [s.format(x=x, y=y) for s in shapes]
        cf = coefs if gens == 'abc' else coefs[:7]
        for name in names:
            for s, c in itertools.product(S, cf):
                t = c + s if s != '1' else (c if c not in ('', '-') else c + '1')
                add(t, gens, name)
                add('s(%s)' % t, gens, name)
            for (s1, s2), (c1, c2) in itertools.product(itertools.combinations(S, 2), [('', '-'), ('2', '-1/2'), ('-', ''), ('sqrt(2)', '3'), ('k', '-k'), ('-4', '-2')][:6 if gens == 'abc' else 3]):
                t = '%s%s' % (c1, s1 if s1 != '1' or c1 in ('', '-') else '')
                u = '%s%s' % (c2, s2 if s2 != '1' or c2 in ('', '-') else '')
                t = t + ('+' if not u.startswith('-') else '') + u
                add(t, gens, name)
                add('s(%s)' % t, gens, name)
        add('0{x}'.format(x=x), gens, 'cyc')
        facs = ['{x}', '{y}', '({x}-{y})', '({x}+{y})', '({y}-{z})' if z != x else '({x}-1)', '({x}2+{y})', 's({x})', 'p({x})', 'p({x}+{y})', 'p({x}-{y})', 'p({x}-2{y})', 'p({x}2+{y})', '3', '({x}-{z})' if z != x else '({y}-1)', '({x}2-{x}{y}+{y}2)']
        facs = [f.format(x=x, y=y, z=z) for f in facs]
        pw = ['', '2', '3']
        for name in names:
            if len(gens) == 4:
                big = [f for f in facs if not f.startswith('p')] + (['p({x}-{y})'.format(x=x, y=y), 'p({x}+{y})'.format(x=x, y=y), 'p(%s)' % x] if name != 'sym' else ['p(%s)' % x])
            else:
                big = facs
            for f, g in itertools.combinations_with_replacement(big, 2):
                for p1, p2 in itertools.product(pw, repeat=2) if (gens == 'abc' and name in ('cyc', 'sym')) else [('', ''), ('2', ''), ('', '3')]:
                    if f[0].isdigit():
                        f, g = g, f
                    if name == 'sym' and gens in ('abc', 'xyz') and p1 + p2 not in ('', '2') and 'p' in f + g:
                        continue
                    add((f + p1) + ('' if not g[0].isdigit() else '*') + g + (p2 if not g[0].isdigit() else ''), gens, name)
                    if p1 == '' and p2 in ('', '2'):
                        add('-' + f + '*' + g + (p2 if not g[0].isdigit() else '') + '/2', gens, name)
    if q:
        out = [c for i, c in enumerate(out) if c[1] == 'abc' or i % 1 == 0]
    return out


def cases_triangle(tier):
    out = []
    cs = ['1', '-1', '2', '-7/3', '123456', 'sqrt(2)', '1/2', '2**(1/3)', '3*2**(1/3)', '2*sqrt(3)', '1+sqrt(2)']
    for n in range(0, 5):
        ms = [(n - i, i - j, j) for i in range(n + 1) for j in range(i + 1)]
        for c in cs:
            for m in ms:
                out.append([[[c, m]], 'abc', n])
            out.append([[[c, m] for m in ms], 'abc', n])
        for m1, m2 in itertools.combinations(ms, 2):
            out.append([[['1', m1], ['-2', m2]], 'abc', n])
        for r in range(3, 5):
            if n == 2:
                for mm in itertools.combinations(ms, r):
                    out.append([[[str(k + 1), m] for k, m in enumerate(mm)], 'xyz', n])
        out.append([[], 'abc', n])
    for n in range(1, 4):
        ms = sorted((m for m in itertools.product(range(n + 1), repeat=4) if sum(m) == n), reverse=True)
        for m1, m2 in itertools.combinations(ms, 2):
            out.append([[['1', m1], ['-2/5', m2]], 'abcd', n])
        for m in ms:
            out.append([[['sqrt(2)', m]], 'abcd', n])
        out.append([[[str(k + 1), m] for k, m in enumerate(ms)], 'abcd', n])
        out.append([[], 'abcd', n])
    return out


def cases_solution(tier):
    q = tier == 'quick'
    out = []
    T = list(TERMS.values())
    for t in T:
        for c in COEFS:
            out.append(['(%s)*(%s)' % (c, t), 'abc', 'cyc'])
        for d in DENS:
            out.append(['(%s)/(%s)' % (t, d), 'abc', 'cyc'])
            out.append(['(2/3)*(%s)/(%s)' % (t, d), 'abc', 'cyc'])
    for t, u in itertools.combinations(T, 2):
        out.append(['(%s)+(2)*(%s)' % (t, u), 'abc', 'cyc'])
        out.append(['(sqrt(2))*(%s)+(7/2)*(%s)' % (t, u), 'abc', 'cyc'])
        if not q:
            for d in DENS[1:]:
                out.append(['((%s)+(2)*(%s))/(%s)' % (t, u, d), 'abc', 'cyc'])
    for t, u in itertools.combinations(T[:14], 2):
        for d in ['S(a)', 'P(a+b)', '2*S(a*b)', '(a+b)']:
            out.append(['((%s)+(2/3)*(%s))/(%s)' % (t, u, d), 'abc', 'cyc'])
    for t in T:
        out.append(['(1/2)*(%s)/(S(a))' % t, 'abc', 'sym'])
        out.append(['(1/2)*(%s)+S(a*b)' % t, 'abc', 'swap'])
        if 'P(' not in t or 'S(a*P' in t:
            out.append(['(3)*(%s)/(S(a))' % t, 'abcd', 'cyc'])
    return out


def cases_proved(tier):
    cyc3 = ['s(a2-ab)', 's(a2)2-3s(a3b)', 's(a3)-3abc', 's(a4)-s(a2bc)', 's(a(a-b)(a-c))', 's(a3b)-abcs(a)', 'p(a+b)-8abc', 's(ab(a-b)2)', 's(a5)-s(a4b)', 's(a2b)s(a)-s(ab)2/3-2s(ab)2/3', 's(a)3-27abc', 's(a4b)-abcs(ab)', 's((a-b)2(a+b-c)2)', 's(a6)-3p(a2)', '2s(a4)-s(a3b)-s(ab3)']
    out = []
    for t in cyc3:
        for pr in ('StructuralSOS', 'LinearSOS', 'SDPSOS', 'SymmetricSOS'):
            out.append([t, 'abc', 'cyc', pr])
            out.append([t, 'abc', 'triv', pr] if 's(' not in t and 'p(' not in t else [t, 'xyz'[:0] or 'abc', 'cyc', pr])
    for t in ['a2-2ab+b2', 'a2+b2+c2-ab-bc-ca', 'a4+b4-a3b-ab3', 'a2b+b2c+c2a-3abc']:
        for pr in ('StructuralSOS', 'LinearSOS', 'SDPSOS'):
            out.append([t, 'abc', 'cyc', pr])
            out.append([t, 'abc', 'triv', pr])
    for t in ['s(a2)-s(ab)', 's(a)2-2(a+c)(b+d)', 's(a3)-s(a2b)']:
        for pr in ('StructuralSOS', 'LinearSOS', 'SDPSOS'):
            out.append([t, 'abcd', 'cyc', pr])
    for t in ['s(a)2-3s(ab)'.replace('s(ab)', '(ab+bc+ca)').replace('s(a)2', '(a+b+c)2'), '(a+b+c)3-27abc']:
        for pr in ('StructuralSOS', 'LinearSOS', 'SDPSOS', 'SymmetricSOS'):
            out.append([t, 'abc', 'sym', pr])
    seen, res = set(), []
    for c in out:
        if tuple(c) not in seen:
            seen.add(tuple(c))
            res.append(c)
    return res


def families(tier):
    return [
        Family('polynomial-forms', cases_poly(tier), run_poly, chunk=8, timeout=60, share=4, bound='1-2 monomials x coefficients x groups, all pairs of 15 factors with powers'),
        Family('coefficient-triangle', cases_triangle(tier), run_triangle, chunk=16, timeout=30, share=1, bound='degree<=4, all monomial pairs'),
        Family('solution-forms', cases_solution(tier), run_solution, chunk=8, timeout=60, share=4, bound='29 term shapes x coefficients x denominators, all pairs of terms; 12 printed forms each'),
        Family('proved-solutions', cases_proved(tier), run_proved, chunk=1, timeout=60, share=2, bound='a fixed set of problems through every prover'),
    ]
