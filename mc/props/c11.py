"""C11: the text parser reads every formula as mathematics writes it."""
import itertools

import sympy as sp

from ..core import Family
from .. import shorthand as SH
from ..oracle import group_closure

TITLE = 'the text parser reads every formula as mathematics writes it'
BUDGET = {'quick': 120, 'thorough': 1800}

PERMS = {'cyc': None, 'triv': [], 'sym': 'sym', 'swap': [[1, 0]]}
PTS = [[2, 3, 5, 7], [sp.Rational(-3, 2), 4, sp.Rational(1, 3), -2], [7, -1, 11, sp.Rational(5, 2)]]


def group(name, n):
    """(argument for the package, list of index tuples of the reference)"""
    from sympy.combinatorics import Permutation, PermutationGroup
    if name == 'cyc':
        return None, [tuple((i + k) % n for i in range(n)) for k in range(n)]
    if name == 'triv':
        return PermutationGroup(Permutation(list(range(n)))), [tuple(range(n))]
    if name == 'sym':
        gens = [list(range(1, n)) + [0], [1, 0] + list(range(2, n))]
    else:
        gens = [[1, 0] + list(range(2, n))]
    return PermutationGroup(*[Permutation(g) for g in gens]), [tuple(x) for x in group_closure([tuple(g) for g in gens], n)]


def same(e1, e2, syms):
    """two radical-free (or explicit-radical) expressions agree: exactly when rational, else at points"""
    if e1 == e2:
        return True
    e1, e2 = sp.sympify(e1), sp.sympify(e2)
    if e1.has(sp.Float):
        # decimals may be read as floats: relative accuracy 1e-12 at the sample points
        for pt in PTS:
            env = {s: abs(pt[i % 4]) + i // 4 for i, s in enumerate(sorted(e1.free_symbols | e2.free_symbols, key=str))}
            u, v = sp.N(e1.xreplace(env), 20), sp.N(e2.xreplace(env), 20)
            if abs(u - v) > sp.Float(10)**-12 * (1 + abs(v)):
                return False
        return True
    d = e1 - e2
    free = sorted(d.free_symbols, key=str)
    if not d.has(sp.Pow) or not any(p.exp.is_Integer is not True for p in d.atoms(sp.Pow)):
        return sp.cancel(sp.together(d)) == 0
    for pt in PTS:
        env = {s: abs(pt[i % 4]) + i // 4 for i, s in enumerate(free)}
        if abs(sp.N(d.xreplace(env), 40)) > sp.Float(10)**-25:
            return False
    return True


def defined(e):
    return not e.has(sp.zoo, sp.nan, sp.oo)


def call(text, gens, perm, **kw):
    from triples.utils.text_process import preprocess_text
    return preprocess_text(text, gens=tuple(sp.symbols(list(gens))), perm=perm, **kw)


def compare(ctx, text, gens, pname, ref=None, all_types=True, **kw):
    """parse `text`; ref: reference text (defaults to text) for the reference parser"""
    n = len(gens)
    perm, perms = group(pname, n)
    G = sp.symbols(list(gens))
    want = sp.sympify(SH.parse(text if ref is None else ref, gens, perms))
    if not defined(want):
        ctx.trivial()
        return
    ctx.step()
    got = call(text, gens, perm, return_type='expr', **kw)
    if not ctx.require(same(got, want, G), lambda: '%r over %s (%s) reads %s, expected %s' % (text, gens, pname, got, want)):
        return
    ctx.state(str(want))
    if not all_types:
        return
    num, den = sp.fraction(sp.cancel(want))
    ispoly = not den.free_symbols and not any(p.exp.is_Integer is not True and p.free_symbols for p in want.atoms(sp.Pow))
    ctx.step(2)
    P = call(text, gens, perm, **kw)
    if P is None and ispoly and any(p.exp.is_negative and p.free_symbols for p in want.atoms(sp.Pow)):
        pass   # a quotient that happens to cancel may be refused as a polynomial
    elif ispoly:
        ctx.require(P is not None and P.gens == tuple(G) and same(P.as_expr(), want, G), lambda: '%r over %s (%s) as polynomial %s, expected %s' % (text, gens, pname, P, want))
    else:
        ctx.require(P is None, lambda: '%r is not a polynomial, but reads %s' % (text, P))
    fr = call(text, gens, perm, return_type='frac', **kw)
    if not any(p.exp.is_Integer is not True and p.free_symbols for p in want.atoms(sp.Pow)):
        ctx.require(fr[0] is not None and same(fr[0].as_expr() / fr[1].as_expr(), want, G), lambda: '%r over %s (%s) as fraction %s, expected %s' % (text, gens, pname, fr, want))
    ctx.step()
    txt = call(text, gens, perm, return_type='text', **kw)
    again = sp.sympify(txt.replace('^', '**'))
    ctx.require(same(again, want, G), lambda: '%r: text form %r denotes %s, expected %s' % (text, txt, again, want))


def run_text(ctx, case):
    text, gens, pname = case
    compare(ctx, text, gens, pname)


def run_tokens(ctx, case):
    """any token string: valid ones read as the reference reads them; unbalanced ones are rejected"""
    text = ''.join(case)
    depth, unbalanced = 0, False
    for ch in text:
        depth += (ch == '(') - (ch == ')')
        unbalanced |= depth < 0
    try:
        SH.parse(text, 'abc')
        ok = True
    except (SH.Bad, ZeroDivisionError):
        ok = False
    if ok:
        compare(ctx, text, 'abc', 'cyc', all_types=False)
        ctx.outcome('valid')
    elif unbalanced or depth:
        ctx.step()
        try:
            got = call(text, 'abc', None)
        except Exception:
            got = None
        ctx.require(got is None, lambda: 'unbalanced %r reads %s' % (text, got))
        ctx.outcome('unbalanced')
    else:
        ctx.trivial()
        ctx.outcome('not in the grammar')


def run_latex(ctx, case):
    text, ref, gens, pname = case
    compare(ctx, text, gens, pname, ref=ref)


def run_flags(ctx, case):
    text, kw, want, gens, pname = case
    perm, perms = group(pname, len(gens))
    ctx.step()
    got = call(text, gens, perm, return_type='expr', **kw)
    w = sp.sympify(want)
    ctx.require(same(got, w, gens), lambda: '%r with %s reads %s, expected %s' % (text, kw, got, w))
    ctx.state(want)


def run_degree(ctx, case):
    """(text, degree): texts of homogeneous expressions, most of which vanish identically"""
    text, want, gens, pname = case
    from triples.utils.text_process import degree_of_zero
    perm, _ = group(pname, len(gens))
    ctx.step()
    got = degree_of_zero(text, gens=tuple(sp.symbols(list(gens))), perm=perm)
    ctx.equal(got, want, 'degree of %r' % text)
    ctx.state((text, want))


def run_reader(ctx, case):
    """a list of lines: every valid line in order, blank ones skipped, bad ones reported"""
    lines, ignore = case
    from triples.utils.text_process import PolyReader
    import tempfile
    import os
    a, b, c = G = sp.symbols('a b c')
    kinds = {'good': 's(a2b)-3abc', 'good2': 'p(a+b)', 'blank': '   ', 'bad': 'a+(b', 'frac': 'a/b', 'pad': '  s(a)2 '}
    want = {'good': a**2*b + b**2*c + c**2*a - 3*a*b*c, 'good2': (a+b)*(b+c)*(c+a), 'pad': (a+b+c)**2}
    for src in ('list', 'file'):
        texts = [kinds[k] for k in lines]
        if src == 'file':
            fd, path = tempfile.mkstemp()
            with os.fdopen(fd, 'w') as fh:
                fh.write('\n'.join(texts) + '\n')
            texts = path
        try:
            ctx.step()
            R = PolyReader(texts, ignore_errors=ignore)
            live = [k for k in lines if k != 'blank']
            ctx.equal(len(R), len(live), '%s %s: length' % (src, lines))
            got = []
            for k in live:
                try:
                    got.append(next(R))
                except ValueError:
                    got.append('ValueError')
                    break
            exp = []
            for k in live:
                if k in ('bad', 'frac') and not ignore:
                    exp.append('ValueError')
                    break
                exp.append(None if k in ('bad', 'frac') else sp.Poly(want[k], *G))
            ok = len(got) == len(exp) and all((x is None) == (y is None) and (x is None or (x == y if isinstance(x, str) or isinstance(y, str) else x.as_expr() - y.as_expr() == 0)) for x, y in zip(got, exp))
            ctx.require(ok, lambda: '%s %s ignore=%s: %s, expected %s' % (src, lines, ignore, got, exp))
            if 'ValueError' not in got:
                try:
                    next(R)
                    ctx.fail('%s: yields more than there are lines' % (lines,))
                except StopIteration:
                    pass
        finally:
            if src == 'file':
                os.unlink(path)
    ctx.state((tuple(lines), ignore))


# ------------------------------------------------------------------ spaces

def factors(gens):
    x, y, z = gens[:3]
    return [x, y, '2', '3/4', '1.5', '.5'[0:0] + '12', x + '2', x + '^3', '(%s+%s)' % (x, y), '(%s-2%s)2' % (x, z), '(%s)^2' % z,
            's(%s)' % x, 's(%s2%s)' % (x, y), 'p(%s+2%s)' % (x, y), 's(%s)2' % x, 'p(%s-%s)^2' % (x, y), 's(%s(%s-%s)2)' % (x, x, z),
            'sqrt(2)', 's(p(%s+1)%s)' % (x, y), 'p(s(%s%s)-%s)' % (x, y, x), '(s(%s)-%s)' % (x, x)]


def cases_products(tier):
    out = []
    for gens in ['abc'] if tier == 'quick' else ['abc', 'xyz']:
        F = factors(gens)
        for f in F:
            out.append([f, gens, 'cyc'])
            for sgn in ('-', '+'):
                out.append([sgn + f, gens, 'cyc'])
        for f, g in itertools.product(F, repeat=2):
            for op in ('', '*', '/', '+', '-'):
                if op == '' and g[0].isdigit():
                    continue   # a digit after a factor is a power by the shorthand convention
                if f[-1].isdigit() and op == '' and g[0] == '.':
                    continue
                out.append([f + op + g, gens, 'cyc'])
    small = ['a', '2', 'b2', '(a-b)', 's(a2)', 'p(a+b)2']
    for f, g, h in itertools.product(small, repeat=3):
        for o1, o2 in itertools.product(['', '*', '/', '+', '-'], repeat=2):
            if (o1 == '' and g[0].isdigit()) or (o2 == '' and h[0].isdigit()):
                continue
            out.append([f + o1 + g + o2 + h, 'abc', 'cyc'])
    return out


def cases_groups(tier):
    out = []
    for gens, names in [('xy', ['cyc', 'triv']), ('abc', ['cyc', 'sym', 'triv', 'swap']), ('xyz', ['cyc', 'sym', 'swap']), ('abcd', ['cyc', 'sym', 'swap']), ('pqr', ['cyc']), ('qrst', ['cyc']), ('uvw', ['sym']), ('abcde', ['cyc'])]:
        x, y = gens[:2]
        z = gens[2] if len(gens) > 2 else gens[0]
        for name in names:
            for t in ['s({x})', 's({x}2{y})', 'p({x}+{y})', 's({x}2-{x}{y})', 's({x}({y}-{z})2)', 's({x})2-s({x}2)', 's({x}p({x}+{y}))',
                      's(s({x}{y}){x})', 's({x}3)/3-p({x})', '{x}2s({y})', '({x}-{y})2+s({x}-2{z})2', 's(1)', 'p(2)', 's(sqrt(2){x}{y})', 's({x}/({y}+1))', 's(sqrt({x}+{y}))', 's(1/{x})p({x})']:
                out.append([t.format(x=x, y=y, z=z), gens, name])
    return out


def cases_tokens(tier):
    al = ['a', 'b', '2', '(', ')', '+', '-', '*', '/', '^', 's(', 'p(', 'c', '3.5', 'sqrt(']
    out = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        out += [list(t) for t in itertools.product(al, repeat=n)]
    al2 = ['a', 'b', '2', '(', ')', '+', '*', 's('] if tier == 'quick' else ['a', 'b', '2', '(', ')', '+', '-', '*', '^', 's(', 'p(']
    for n in (4, 5):
        out += [list(t) for t in itertools.product(al2, repeat=n)]
    return out


def cases_latex(tier):
    atoms = [('a', 'a'), ('a^2b', 'a^2b'), ('a^{2}', 'a2'), ('\\left(a+b\\right)', '(a+b)'), ('\\left(a-b\\right)^{2}c', '(a-b)2c'), ('\\frac{a}{b}', '(a/b)'), ('\\sqrt{2}a', 'sqrt(2)a'),
             ('\\frac{a^2}{b+c}', '(a2/(b+c))'), ('\\frac12 a', '(1/2)a'), ('a\\frac{1}{3}b', 'a(1/3)b'), ('\\frac{\\frac{a}{2}}{b}', '(a/2/b)'), ('\\frac{1}{\\frac{a}{2}}', '(1/(a/2))')]
    out = []
    for (l1, r1) in atoms:
        out.append([l1, r1])
        out.append(['$%s$' % l1, r1])
        for op, rop in [('\\sum ', 's'), ('\\prod ', 'p')]:
            out.append([op + l1, '%s(%s)' % (rop, r1)])
            out.append([op + l1 + '+1', '%s(%s)+1' % (rop, r1)])
            out.append([op + l1 + '-2a+1', '%s(%s)-2a+1' % (rop, r1)])
            out.append(['2+' + op + l1, '2+%s(%s)' % (rop, r1)])
            out.append(['3' + op + l1 + '-c', '3%s(%s)-c' % (rop, r1)])
            out.append(['(' + op + l1 + ')b', '(%s(%s))b' % (rop, r1)])
            out.append(['(' + op + l1 + ')^2-(' + op + 'a)', '(%s(%s))2-%s(a)' % (rop, r1, rop)])
            out.append(['a/(' + op + l1 + ')+1', 'a/(%s(%s))+1' % (rop, r1)])
            out.append(['\\frac{' + op + l1 + '}{' + op + 'a}', '(%s(%s)/%s(a))' % (rop, r1, rop)])
            out.append([op + '(' + l1 + '+b)c', '%s((%s+b)c)' % (rop, r1)])
            out.append(['\\sum a' + op + l1, 's(a%s(%s))' % (rop, r1)])
        for (l2, r2) in atoms:
            for op in ('+', '-', '*', '/', ''):
                if op == '' and r2[0].isdigit():
                    continue
                if op == '' and r1[-1] == 'a' and '\\frac12' in l2:
                    pass
                out.append([l1 + op + l2, r1 + op + r2])
            for s1, t1 in [('\\sum ', 's'), ('\\prod ', 'p')]:
                for op in ('+', '-'):
                    out.append([s1 + l1 + op + '\\sum ' + l2, '%s(%s)%ss(%s)' % (t1, r1, op, r2)])
        out.append(['(%s)^2' % l1, '(%s)2' % r1])
        out.append(['\\frac{%s}{2}' % l1, '((%s)/2)' % r1])
        out.append(['1/%s' % l1 if 'frac{' in l1 else '\\frac{1}{%s}' % l1, '1/(%s)' % r1 if l1.startswith('\\frac{') or 'frac{' not in l1 else '1/%s' % r1])
    seen, res = set(), []
    for l, r in out:
        for gens in ['abc']:
            if (l, r) not in seen:
                seen.add((l, r))
                res.append([l, r, gens, 'cyc'])
    return res


def cases_flags(tier):
    cyc = lambda f: '+'.join('(%s)' % f.translate({97: x, 98: y, 99: z}) for x, y, z in ['abc', 'bca', 'cab'])
    out = []
    for pre, mul in [('', ''), ('a+', 'a+'), ('2', '2*'), ('b', 'b*')]:
        out += [[pre + 'sqrt(a)', {}, mul + 'sqrt(a)', 'abc', 'cyc'], [pre + 'sqrt(a)', {'preserve_sqrt': False}, mul + 's*q*r*t*a', 'abc', 'cyc'],
                [pre + 'cbrt(a)', {}, mul + 'c*b*r*t*a', 'abc', 'cyc'], [pre + 'cbrt(a)', {'preserve_cbrt': True}, mul + 'cbrt(a)', 'abc', 'cyc'],
                [pre + 'sqrt(a)cbrt(b)', {'preserve_cbrt': True}, mul + 'sqrt(a)*cbrt(b)', 'abc', 'cyc']]
    for f in ['sqrt(a)', 'a*sqrt(b+2)', 'sqrt(a*b)*c']:
        out.append(['s(%s)' % f, {}, cyc(f.replace('sqrt', 'SQRT')).replace('SQRT', 'sqrt'), 'abc', 'cyc'])
    for f in ['cbrt(a)', 'a*cbrt(b+2)']:
        out.append(['s(%s)' % f, {'preserve_cbrt': True}, cyc(f.replace('cbrt', 'CBRT')).replace('CBRT', 'cbrt'), 'abc', 'cyc'])
        out.append(['s(%s)' % f, {'preserve_sqrt': False, 'preserve_cbrt': True}, cyc(f.replace('cbrt', 'CBRT')).replace('CBRT', 'cbrt'), 'abc', 'cyc'])
    out.append(['s(sqrt(s2+t))', {}, 'sqrt(s**2+t)+sqrt(t**2+r)+sqrt(r**2+q)+sqrt(q**2+s)', 'strq', 'cyc'])
    out.append(['p(sqrt(s)t)', {}, '(sqrt(s)*t)*(sqrt(t)*r)*(sqrt(r)*q)*(sqrt(q)*s)', 'strq', 'cyc'])
    for t, off, on in [('1e2', '1*e**2', '100'), ('2e1a', '2*e*a', '20*a') if False else ('a*1e2', 'a*e**2', 'a*100'), ('3e2+a', '3*e**2+a', '300+a')]:
        out += [[t, {}, off, 'abc', 'cyc'], [t, {'scientific_notation': True}, on, 'abc', 'cyc']]
    for s, p in [('s', 'p')]:
        for tail in ['a', '2a', 'a(b+c)', '*a*(b+c)', 'a+b', '(a)'[0:0] + 'a2(a+1)']:
            full = {'a': 'a', '2a': None, 'a(b+c)': 'a*(b+c)', '*a*(b+c)': 'a*(b+c)', 'a+b': None, 'a2(a+1)': 'a**2*(a+1)'}[tail]
            for v in (s, p):
                w = {'2a': '%s**2*a' % v, 'a+b': '%s*a+b' % v}.get(tail) or '%s*%s' % (v, full)
                out.append([v + tail, {}, w, 'abc', 'cyc'])
                out.append(['3' + v + tail, {}, '3*' + w, 'abc', 'cyc'])
    return out


def cases_degree(tier):
    """products of homogeneous zero (and nonzero) sums; the degree is the sum of the degrees"""
    parts = [('a', 1), ('s(a)', 1), ('p(a)', 3), ('(a-a)', 1), ('(s(a2)2-s(a4+2a2b2))', 4), ('s(a(b-c))', 2), ('(-a+a)', 1), ('s(a2-ab)', 2), ('p(a-a)', 3), ('(2-1)', 0), ('3/4', 0), ('s(a3b-a3b)', 4), ('(a2-b2)2', 4), ('(a(b+c)-s(ab)+bc)', 2), ('(-(b-c)a)', 2)]
    out = []
    for t, d in parts:
        out.append([t, d, 'abc', 'cyc'])
        out.append(['-' + t if not t[0].isdigit() else t, d, 'abc', 'cyc'])
    for (t, d), (u, e) in itertools.product(parts, repeat=2):
        if u[0].isdigit():
            continue
        out.append([t + u, d + e, 'abc', 'cyc'])
        out.append([t + '*' + u, d + e, 'abc', 'cyc'])
        if d == e:
            out.append([t + '-' + u, d, 'abc', 'cyc'])
            out.append([t + '+2' + u, d, 'abc', 'cyc'])
    for t, d in [('s(a)-s(a)', 1), ('p(a)(s(a)-4a)', 5), ('s(a2)(a-a)', 3), ('p(a-b)-p(a-b)', 4)]:
        out.append([t, d, 'abcd', 'cyc'])
    for t, d in [('p(x)', 6), ('s(x2y)-s(y2x)', 3), ('p(x-y)s(x)', 7)]:
        out.append([t, d, 'xyz', 'sym'])
    return out


def cases_reader(tier):
    ks = ['good', 'bad', 'blank', 'frac', 'pad'] if tier == 'quick' else ['good', 'good2', 'bad', 'blank', 'frac', 'pad']
    return [[list(l), ig] for n in (0, 1, 2, 3) for l in itertools.product(ks, repeat=n) for ig in (False, True)]


def families(tier):
    return [
        Family('products', cases_products(tier), run_text, chunk=16, timeout=30, share=3, bound='all products/sums/quotients of 2 of 21 factors and of 3 of 6 factors'),
        Family('groups', cases_groups(tier), run_text, chunk=8, timeout=30, share=2, bound='18 shapes x generator sets x groups'),
        Family('latex', cases_latex(tier), run_latex, chunk=16, timeout=30, share=2, bound='12 LaTeX atoms, all binary combinations, sums and products at every nesting position'),
        Family('flags', cases_flags(tier), run_flags, chunk=8, timeout=30, share=1, bound='all option settings, operator letters used as variables'),
        Family('degree', cases_degree(tier), run_degree, chunk=16, timeout=30, share=1, bound='all pairs of 15 homogeneous factors'),
        Family('reader', cases_reader(tier), run_reader, chunk=16, timeout=30, share=1, bound='all line histories up to length 3'),
        Family('token-strings', cases_tokens(tier), run_tokens, chunk=256, timeout=30, share=4, bound='all token strings up to length 3 (15 tokens) and 5 (8 tokens)'),
    ]
