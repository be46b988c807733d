"""C09: cyclic sums/products under every group mean what they expand to, through every operation."""
import itertools
from fractions import Fraction as F

import mpmath
import sympy as sp
from sympy.combinatorics import Permutation, PermutationGroup

from .. import oracle as O
from ..core import Family

mpmath.mp.dps = O.MPDPS
TITLE = 'cyclic sums and products mean what they expand to'
BUDGET = {'quick': 120, 'thorough': 1500}
HANG = True    # cases take a second at most: one that never ends is reported

NAMES = 'abcdef'
S6 = sp.symbols('a b c d e f')
X, Y, U, V, W = sp.symbols('x y u v w')
NS = dict(zip(NAMES, S6))
NS.update(x=X, y=Y, u=U, v=V, w=W, sqrt=sp.sqrt, Q=sp.Rational, Abs=sp.Abs)
VALS = [F(3, 7), F(5, 3), F(11, 2), F(13, 5), F(17, 11), F(19, 4), F(23, 9), F(2, 13), F(29, 6), F(7, 10), F(37, 8)]
ENVS = [dict(zip(list(S6) + [X, Y, U, V, W], VALS)),
        dict(zip(list(S6) + [X, Y, U, V, W], VALS[4:] + VALS[:4]))]


def cs():
    from triples.utils.expression.cyclic import CyclicSum, CyclicProduct
    return {'S': CyclicSum, 'P': CyclicProduct}


# ---------------------------------------------------------------- groups
def subgroups(n):
    """all subgroups of S_n as tuples of generators (own enumeration: closures of at most two/three elements)"""
    els = list(itertools.permutations(range(n)))
    seen = {}
    for k in range(0, 3 if n <= 4 else 2):
        for gens in itertools.combinations(els, k):
            c = tuple(O.group_closure(gens, n))
            if c not in seen:
                seen[c] = gens
    return [g for _, g in sorted(seen.items(), key=lambda kv: (len(kv[0]), kv[0]))]


SUB = {n: subgroups(n) for n in (2, 3, 4)}
G5 = [((1, 2, 3, 4, 0),), ((1, 2, 3, 4, 0), (0, 4, 3, 2, 1)), ((1, 2, 3, 4, 0), (1, 0, 2, 3, 4)),
      ((1, 0, 3, 2, 4), (0, 1, 3, 4, 2)), ((1, 0, 2, 3, 4), (0, 1, 3, 4, 2)), ((1, 0, 3, 2, 4),), ((0, 1, 3, 4, 2),),
      ((1, 2, 0, 4, 3),), ((1, 0, 2, 4, 3), (0, 1, 3, 2, 4)), ((1, 2, 3, 4, 0), (0, 2, 4, 1, 3))]
G6 = [((1, 2, 0, 4, 5, 3),), ((1, 2, 3, 4, 5, 0),), ((1, 0, 3, 2, 4, 5), (0, 1, 3, 2, 5, 4)), ((1, 0, 2, 3, 4, 5), (0, 1, 3, 2, 5, 4)),
      ((1, 2, 0, 3, 4, 5), (0, 1, 2, 4, 5, 3)), ((1, 0, 2, 4, 3, 5), (1, 2, 0, 4, 5, 3))]


def perm_group(gens, n):
    if not gens:
        gens = (tuple(range(n)),)
    return PermutationGroup(*[Permutation(list(g), size=n) for g in gens])


def symbols_for(n, order=0):
    s = list(S6[:n])
    if order == 1:
        s = s[::-1]
    elif order == 2:
        s = s[1:] + s[:1]
        s[0], s[-1] = s[-1], s[0]
    return tuple(s)


def ref_value(kind, body, syms, gens, env):
    """own expansion: body under every element of the group"""
    els = O.group_closure(gens, len(syms))
    tot = F(1) if kind == 'P' else F(0)
    base = [env[s] for s in syms]
    for p in els:
        e2 = dict(env)
        for i, s in enumerate(syms):
            e2[s] = base[p[i]]
        v = O.ev(body, e2)
        tot = O._mixed((lambda a, b: a * b) if kind == 'P' else (lambda a, b: a + b), tot, v)
    return tot


def body(text):
    return sp.sympify(eval(text, {}, dict(NS, CS=lambda e, s, g: cs()['S'](e, s, g), CP=lambda e, s, g: cs()['P'](e, s, g),
                                         G=lambda n, k: perm_group(SUB[n][k], n), G3=lambda k: perm_group(SUB[3][k], 3))))


def cmp_values(ctx, got, want_fn, what, case):
    for env in ENVS:
        want = want_fn(env)
        try:
            g = O.ev(sp.sympify(got), env)
        except Exception as e:
            ctx.fail('%s: result %s cannot be evaluated: %s: %s' % (what, O._s(got), type(e).__name__, e))
            return False
        ctx.valid()
        if not O.close(g, want):
            ctx.fail('%s: value %s but the expansion gives %s; result %s' % (what, g, want, O._s(got)))
            return False
    return True


def rational_identity(e):
    return e


def op_factor_args(e):
    """rebuild from args"""
    return e.func(*e.args) if e.args else e


OPS = {
    'id': rational_identity,
    'doit': lambda e: e.doit(),
    'doit_shallow': lambda e: e.doit(deep=False),
    'expand': lambda e: e.expand(),
    'together': lambda e: e.together(),
    'factor': lambda e: e.factor(),
    'cancel': lambda e: e.cancel(),
    'simplify': lambda e: sp.simplify(e),
    'signsimp': lambda e: sp.signsimp(e),
    'radsimp': lambda e: sp.radsimp(e),
    'rebuild': op_factor_args,
    'content': lambda e: sp.Mul(*e.as_content_primitive()),
    'coeffmul': lambda e: sp.Mul(*e.as_coeff_Mul()),
    'coeffadd': lambda e: sp.Add(*e.as_coeff_Add()),
    'numden': lambda e: (lambda nd: nd[0] / nd[1])(e.as_numer_denom()),
    'neg': lambda e: -(-e),
    'dbl': lambda e: (e + e) / 2,
    'sqr': lambda e: e * e / e,
    'noeval': lambda e: e.replace(lambda t: O.is_cyc(t), lambda t: t.func(*t.args, evaluate=False)),
    'print': lambda e: (str(e), sp.latex(e), repr(e), sp.srepr(e), e)[-1],
    'xself': lambda e: e.xreplace({X: X}),
    'poly': lambda e: e.doit().as_poly(*sorted(e.doit().free_symbols, key=str)).as_expr(),
    'nfloat': lambda e: e.doit(),
    'collect': lambda e: sp.collect(e, S6[0]),
}
NEED_POLY = ('poly',)

BODIES3 = ['a', 'a*b', 'a**2*b', 'a*(b-c)**2', 'a/(b+c)', '2*a', 'a*x', 'x', 'Q(5)', 'Q(0)', 'a-b', '(a-b)**2', '(b-a)**2*c', 'a*b*c', 'a+b+c',
           '(a+b+c)**2*a', '-a', '-3*a*b/2', '4*a+6*b', 'sqrt(2)*a+b', 'x*a*(b+c)', '(x*a+y*b)**2', 'sqrt(a)*b', '2*(a-b)*(b-c)', 'a**2/2+b*c',
           '2*x+4', '(2*a+2*b)**2', '(a*b+b*c+c*a)*a**2', 'Q(2,3)*x*(a-2*b)**2*c']
BODIES4 = ['a', 'a*b', 'a*b*c', 'a*b*c*d', 'a**2*b*c', 'a*(b-c)**2', 'a*(b+d)', '2*a*x', 'x', '(a*c-b*d)**2', '(a+b)*(c-d)**2', 'a-b', '-3*a', 'a/(b+c)', '6*a+4*b*d',
           '(a+c)*(b+d)', '3*(a+b+c+d)*a']
BODIES5 = ['a', 'a*b**2', 'a*b**2*c**3', 'c', 'c*d**2', 'a*c*d**2', '2*x*a*d', 'e']


def cases_ops(tier):
    out = []
    for n, bodies in ((2, ['a', 'a*b', 'a**2*b', '2*a', 'a-b', '-a*x', '(a-b)**2', 'x', '3*(a+b)', '6*a+4*b']), (3, BODIES3), (4, BODIES4)):
        for bi, b in enumerate(bodies):
            for gi in range(len(SUB[n])):
                for kind in 'SP':
                    if n == 4 and kind == 'P' and tier == 'quick' and len(O.group_closure(SUB[n][gi], n)) > 8:
                        continue
                    order = (bi + gi) % 3
                    out.append((n, b, gi, kind, order))
    return out


def f_ops(ctx, case):
    n, b, gi, kind, order = case
    gens = SUB[n][gi]
    syms = symbols_for(n, order)
    e0 = body(b)
    obj = cs()[kind](e0, syms, perm_group(gens, n))
    ctx.step()
    size = len(O.group_closure(gens, n))
    wants = {}

    def want(env):
        k = id(env)
        if k not in wants:
            wants[k] = ref_value(kind, e0, syms, gens, env)
        return wants[k]
    heavy = kind == 'P' and size > 6 or size > 12
    for name, op in OPS.items():
        if heavy and name in ('expand', 'factor', 'cancel', 'simplify', 'poly', 'together', 'collect', 'radsimp', 'numden'):
            if not (size <= 8 and name in ('together', 'numden')):
                continue
        if name == 'simplify' and (size > 6 or n > 3 or 'sqrt' in b or '/' in b):
            continue
        if name == 'poly' and ('sqrt' in b or '/(' in b):
            continue
        try:
            got = op(obj)
        except Exception as ex:
            if name == 'poly' and not obj.doit().free_symbols:
                continue
            if name == 'sqr' and obj == 0:
                continue
            ctx.fail('%s on %s raised %s: %s' % (name, O._s(obj), type(ex).__name__, ex), key='%s:%s' % (name, case))
            continue
        ctx.step()
        if name == 'sqr' and got is sp.nan:
            continue
        if not cmp_values(ctx, got, want, '%s(%s over %d elements of S%d, %s)' % (name, b, size, n, kind), case):
            return
    ctx.state((sp.srepr(obj)[:400]))
    # the canonical object does not depend on which element of the orbit was written down
    for p in O.group_closure(gens, n):
        m = {s: syms[p[i]] for i, s in enumerate(syms)}
        e1 = e0.xreplace(m)
        o1 = cs()[kind](e1, syms, perm_group(gens, n))
        ctx.step()
        ctx.valid()
        if o1 != obj:
            if not cmp_values(ctx, o1, want, 'permuted body %s' % (e1,), case):
                return
            ctx.fail('%s of %s and of its permutation %s are different objects: %s / %s' % (kind, e0, e1, sp.srepr(obj)[:200], sp.srepr(o1)[:200]))
            return


# ---------------------------------------------------------------- nesting
NEST = ['a*CS(a,(a,b,c),G3(%d))', 'a*CS(b*a**2,(a,b,c),G3(%d))', 'a*CP(a,(a,b,c),G3(%d))', 'a**2*CP(a+b,(a,b,c),G3(%d))**2', '(a+CS(a*b,(b,c),G(2,1)))**2*G3',
        'CS(a,(a,b,c),G3(%d))', 'a*b*CS(a*x,(a,b,c),G3(%d))*x', '(a-CS(a**2*b,(a,b,c),G3(%d)))*b', 'a*CS(x*y**2,(x,y,u),G3(%d))', 'a*CS(a*b**2,(b,c,x),G3(%d))',
        '(a-b)*(1+CS(a,(a,b,c),G3(%d)))', 'a/CS(a*b,(a,b,c),G3(%d))', 'CP(CS(a,(a,b),G(2,1))+c,(a,b,c),G3(%d))*b']
NEST = [t for t in NEST if not t.endswith('*G3')]


def cases_nest(tier):
    return [(t, gi, gj, kind) for t in NEST for gi in range(6) for gj in range(6) for kind in 'SP']


def f_nest(ctx, case):
    t, gi, gj, kind = case
    e0 = body(t % gi)
    if e0 == 0:
        ctx.trivial()
    gens = SUB[3][gj]
    syms = symbols_for(3)
    obj = cs()[kind](e0, syms, perm_group(gens, 3))
    wants = {}

    def want(env):
        if id(env) not in wants:
            wants[id(env)] = ref_value(kind, e0, syms, gens, env)
        return wants[id(env)]
    ctx.state(sp.srepr(obj)[:400])
    for name in ('id', 'doit', 'doit_shallow', 'rebuild', 'print', 'content', 'together', 'noeval', 'xself', 'signsimp'):
        try:
            got = OPS[name](obj)
        except Exception as ex:
            ctx.fail('%s on %s raised %s: %s' % (name, O._s(obj), type(ex).__name__, ex))
            continue
        ctx.step()
        if not cmp_values(ctx, got, want, '%s(nested %s, inner group %d, outer group %d)' % (name, t, gi, gj), case):
            return


# ---------------------------------------------------------------- replacement
def rule_set(n, tier):
    syms = S6[:n]
    vals3 = ['a', 'b', 'c', 'x', '2', 'a*b', 'b+1']
    rules = []
    if n == 3:
        for combo in itertools.product([None] + vals3, repeat=3):
            r = {str(s): v for s, v in zip(syms, combo) if v is not None}
            if r:
                rules.append(r)
        rules += [{'a': 'u', 'b': 'v', 'c': 'w'}, {'a': 'u', 'b': 'v'}, {'a': 'b', 'b': 'c', 'c': 'a'}, {'a': 'b', 'b': 'a'}, {'x': 'a'}, {'x': 'y'}, {'x': 'a+b+c'}, {'x': '3'},
                  {'a': 'b+c', 'b': 'c+a', 'c': 'a+b'}, {'a': 'b*c', 'b': 'c*a', 'c': 'a*b'}, {'a': 'a*b', 'b': 'b*c', 'c': 'c*a'}, {'a': 'x*a', 'b': 'x*b', 'c': 'x*c'},
                  {'a': '1/a', 'b': '1/b', 'c': '1/c'}, {'a': 'u', 'b': 'v', 'c': 'w', 'x': 'a'}, {'a': '-a', 'b': '-b', 'c': '-c'}, {'a': 'a-b', 'b': 'b-c', 'c': 'c-a'},
                  {'a': 'sqrt(a)', 'b': 'sqrt(b)', 'c': 'sqrt(c)'}, {'a': 'x', 'x': 'a'}, {'a': 'a+x', 'b': 'b+x', 'c': 'c+x', 'x': 'y'}]
    else:
        vals = ['2', 'x', 'a', 'b', 'c*d', 'u']
        for s in syms:
            for v in vals:
                rules.append({str(s): v})
        for s1, s2 in itertools.combinations(syms, 2):
            for v1, v2 in (('2', '3'), ('x', 'y'), (str(s2), str(s1)), ('u', 'u'), ('c', 'd'), ('a+1', '2*b')):
                rules.append({str(s1): v1, str(s2): v2})
        if n >= 4:
            for comb in itertools.combinations(syms, 3):
                rules.append({str(s): str(7 + i) for i, s in enumerate(comb)})
                rules.append({str(s): str(t) for s, t in zip(comb, comb[1:] + comb[:1])})
        rules.append({str(s): str(syms[(i + 1) % n]) for i, s in enumerate(syms)})
        rules.append({str(s): '%s*%s' % (s, syms[(i + 1) % n]) for i, s in enumerate(syms)})
        rules.append({str(s): 'x+%s' % s for i, s in enumerate(syms)})
    return rules


RB3 = ['a*b**2', 'a*(b-c)**2', 'x*a+b', 'a*CS(a,(a,b,c),G3(4))', 'a+CS(a*b**2,(a,b,c),G3(5))', 'a*x*y']
RB4 = ['a*b**2', 'a*b**2*c**3*x', '(a-b)**2*(c+x)']
RB5 = ['a*b**2*c**3', 'a*c*d**2+x', 'c*d**2*e**3*a']


def cases_rep(tier):
    out = []
    for gi in range(1, 6):
        for b in (RB3 if tier == 'thorough' else RB3[:4]):
            for r in rule_set(3, tier):
                out.append((3, gi, b, r, 'S'))
        for r in rule_set(3, tier)[::7]:
            out.append((3, gi, 'a+b**2', r, 'P'))
    for gi in range(1, len(SUB[4])):
        for b in (RB4 if tier == 'thorough' else RB4[:2]):
            for r in rule_set(4, tier):
                out.append((4, gi, b, r, 'S'))
    for gi in range(len(G5)):
        for b in (RB5 if tier == 'thorough' else RB5[:2]):
            for r in rule_set(5, tier):
                out.append((5, gi, b, r, 'S'))
    for gi in range(len(G6)):
        for b in ['a*b**2*c**3*d**4'] if tier == 'quick' else ['a*b**2*c**3*d**4', 'a*c**2*x', 'c*d**2*e**3']:
            for r in rule_set(6, tier)[:: (3 if tier == 'quick' else 1)]:
                out.append((6, gi, b, r, 'S'))
    return out


def f_rep(ctx, case):
    n, gi, b, r, kind = case
    gens = {3: SUB[3], 4: SUB[4], 5: G5, 6: G6}[n][gi]
    if len(O.group_closure(gens, n)) > 24 and n >= 5:
        if len(O.group_closure(gens, n)) > 120:
            ctx.trivial()
            return
    syms = symbols_for(n)
    e0 = body(b)
    rule = {NS[k]: body(v) for k, v in r.items()}
    obj = cs()[kind](e0, syms, perm_group(gens, n))
    if not O.is_cyc(obj) and not obj.has(cs()['S'], cs()['P']):
        ctx.trivial()
    ctx.step()

    def want(env):
        e2 = dict(env)
        for k, v in rule.items():
            e2[k] = O.ev(v, env)
        return ref_value(kind, e0, syms, gens, e2)
    label = '%s{%s over %s}' % (kind, b, gens)
    got = obj.xreplace(rule)
    ctx.step()
    ctx.state(sp.srepr(got)[:300])
    if not cmp_values(ctx, got, want, '%s.xreplace(%s)' % (label, r), case):
        return
    if len(O.group_closure(gens, n)) <= 6:
        got = obj.subs(rule, simultaneous=True)
        ctx.step()
        if not cmp_values(ctx, got, want, '%s.subs(%s, simultaneous)' % (label, r), case):
            return
        if len(r) == 1:
            got = obj.subs(rule)
            if not cmp_values(ctx, got, want, '%s.subs(%s)' % (label, r), case):
                return
    ex = obj + X * obj ** 2
    if n == 3:
        def want2(env):
            w = want(env)
            e2 = O.ev(rule.get(X, X), env)
            return O._mixed(lambda a, b: a + b, w, O._mixed(lambda a, b: a * b, e2, O._mixed(lambda a, b: a * b, w, w)))
        cmp_values(ctx, ex.xreplace(rule), want2, '(E + x E^2).xreplace, E=%s rule %s' % (label, r), case)


# ---------------------------------------------------------------- rewriting to another group
def cases_rew(tier):
    out = []
    for n, bodies in ((3, BODIES3), (4, BODIES4[:11])):
        sg = range(len(SUB[n]))
        for b in bodies:
            for gi in sg:
                for gj in sg:
                    for kind in 'SP':
                        if n == 4:
                            if kind == 'P' and (len(O.group_closure(SUB[4][gi], 4)) > 6):
                                continue
                            if tier == 'quick' and (gi + gj) % 4 and not (gi in (17, 29) or gj in (17, 29)):
                                continue
                        out.append((n, b, gi, gj, kind))
    return out


def f_rew(ctx, case):
    from triples.utils.expression.cyclic import rewrite_symmetry
    n, b, gi, gj, kind = case
    e0 = body(b)
    syms = symbols_for(n)
    obj = cs()[kind](e0, syms, perm_group(SUB[n][gi], n))
    if not O.is_cyc(obj):
        ctx.trivial()
    got = rewrite_symmetry(3 * obj + X, syms, perm_group(SUB[n][gj], n))
    ctx.step()
    ctx.state(sp.srepr(got)[:300])

    def want(env):
        return O._mixed(lambda p, q: p + q, O._mixed(lambda p, q: p * q, F(3), ref_value(kind, e0, syms, SUB[n][gi], env)), env[X])
    cmp_values(ctx, got, want, 'rewrite_symmetry(3*%s{%s over %s}+x -> %s)' % (kind, b, SUB[n][gi], SUB[n][gj]), case)


# ---------------------------------------------------------------- operation programs
PROG_OPS = ['together', 'expand', 'rebuild', 'noeval', 'content', 'signsimp', 'print', 'xcyc', 'xuvw', 'xnum', 'add', 'mulx', 'rew3', 'rew6', 'doit']


def apply_prog(e, op, track):
    """apply op to e; track: function env->value of the reference"""
    from triples.utils.expression.cyclic import rewrite_symmetry
    a, b, c = S6[:3]
    if op == 'xcyc':
        rule = {a: b * c, b: c * a, c: a * b}
    elif op == 'xuvw':
        rule = {a: b, b: c, c: a}
    elif op == 'xnum':
        rule = {b: sp.Integer(2)}
    elif op == 'add':
        return e + a * e, lambda env: track(env) * (1 + env[a]) if True else None
    elif op == 'mulx':
        obj = cs()['S'](a * (e if e.is_commutative else e), (a, b, c))

        def f(env):
            tot = F(0)
            vals = [env[s] for s in (a, b, c)]
            for k in range(3):
                e2 = dict(env)
                for i, s in enumerate((a, b, c)):
                    e2[s] = vals[(i + k) % 3]
                tot += e2[a] * track(e2)
            return tot
        return obj, f
    elif op in ('rew3', 'rew6'):
        gens = SUB[3][4] if op == 'rew3' else SUB[3][5]
        return rewrite_symmetry(e, (a, b, c), perm_group(gens, 3)), track
    else:
        return OPS[op](e), track

    def g(env):
        e2 = dict(env)
        for k, v in rule.items():
            e2[k] = O.ev(v, env)
        return track(e2)
    return e.xreplace(rule), g


def cases_prog(tier):
    starts = [('a*b**2', 4, 'S'), ('a*(b-c)**2', 5, 'S'), ('(a+b)', 4, 'P'), ('a*CS(a*b,(a,b,c),G3(4))+x', 4, 'S'), ('a+2*b', 2, 'S')]
    depth = 2 if tier == 'quick' else 3
    for st in starts:
        for d in range(1, depth + 1):
            for ops in itertools.product(PROG_OPS, repeat=d):
                if d == 3 and (ops[0] == 'print' or ops[0] == ops[1] == ops[2] == 'mulx'):
                    continue
                yield (st, ops)


def f_prog(ctx, case):
    (b, gi, kind), ops = case
    e0 = body(b)
    syms = symbols_for(3)
    e = cs()[kind](e0, syms, perm_group(SUB[3][gi], 3))
    track = lambda env: ref_value(kind, e0, syms, SUB[3][gi], env)
    for op in ops:
        e, track = apply_prog(e, op, track)
        ctx.step()
    ctx.state(sp.srepr(e)[:500])
    cmp_values(ctx, e, track, 'program %s on %s' % (ops, (b, gi, kind)), case)


def families(tier):
    return [
        Family('operations', cases_ops, f_ops, timeout=60, chunk=4, bound='all subgroups of S2,S3,S4 x bodies x sum/product x every operation', share=2),
        Family('nesting', cases_nest, f_nest, timeout=40, chunk=8, bound='inner group x outer group (all subgroups of S3) x nesting shapes'),
        Family('replacement', cases_rep, f_rep, timeout=40, chunk=16, bound='all rules of the alphabets x subgroups of S3,S4 and listed groups of S5,S6', share=2),
        Family('rewrite', cases_rew, f_rew, timeout=40, chunk=16, bound='all pairs of subgroups of S3, S4'),
        Family('programs', cases_prog, f_prog, timeout=60, chunk=4, bound='all operation sequences of depth %d' % (2 if tier == 'quick' else 3)),
    ]
