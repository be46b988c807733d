"""C23: the web service answers each request of each client completely and separately."""
import contextlib
import copy
import io
import itertools
import json
import os
import re
import sys
import warnings

import sympy as sp

from ..core import Family
from .. import shorthand, texread, webx, oracle

TITLE = 'the web service answers each request of each client completely and separately'
BUDGET = {'quick': 300, 'thorough': 3000}

CYC = '[[1,2,0]]'
PERMS = {CYC: [(0, 1, 2), (1, 2, 0), (2, 0, 1)], '[[0,1,2]]': [(0, 1, 2)], '[[1,2,0],[1,0,2]]': list(itertools.permutations(range(3))),
         '[[1,2,3,0]]': [(0, 1, 2, 3), (1, 2, 3, 0), (2, 3, 0, 1), (3, 0, 1, 2)], '[[1,0]]': [(0, 1), (1, 0)], '[[0]]': [(0,)], '[[1,0,2]]': [(0, 1, 2), (1, 0, 2)]}


def perms_of(body):
    perm = body.get('perm', CYC)
    return PERMS[perm if isinstance(perm, str) else json.dumps(perm).replace(' ', '')]


REFS = {}


def reference(body):
    """the polynomial a request is about: (numerator expression, denominator expression) or None"""
    key = (body['poly'], body.get('gens', 'abc'), tuple(perms_of(body)))
    if key not in REFS:
        REFS[key] = _reference(body)
    return REFS[key]


def _reference(body):
    text, gens = body['poly'], body.get('gens', 'abc')
    if not all(ord(c) < 128 for c in text):
        return None
    try:
        e = shorthand.parse(text, gens, perms_of(body))
    except shorthand.Bad:
        return None
    num, den = sp.fraction(sp.together(e))
    if not sp.sympify(den).free_symbols:
        num, den = num / den, sp.S.One
    return sp.expand(num), den


# ------------------------------------------------------------------ scripted core stages

class Broken:
    """a tangent whose printing fails"""

    def __len__(self):
        return 1

    def as_factor_form(self, *a, **k):
        raise RuntimeError('printing fails')


class Memo:
    """the stages between scheduling points that depend on nothing but their arguments, computed once per process"""
    texts, grids, prints = {}, {}, {}

    @classmethod
    def stages(cls):
        import triples.gui.sos_manager as G
        real, render = G.preprocess_text, G.GridRender

        def preprocess_text(*a, **k):
            key = repr((a, sorted(k.items())))
            if key not in cls.texts:
                cls.texts[key] = real(*a, **k)
            return cls.texts[key]

        class Render:
            def __getattr__(self, name):
                return getattr(render, name)

            @staticmethod
            def render(poly, *a, **k):
                key = repr((poly, a, sorted(k.items())))
                if key not in cls.grids:
                    cls.grids[key] = render.render(poly, *a, **k)
                return cls.grids[key]
        return [(real, preprocess_text), (render, Render())]


def printed_once(sol):
    """the same solution, its printed forms computed once per process"""
    base, key = type(sol), (type(sol).__name__, str(sol.problem.as_expr()), str(sol.problem.gens))

    def form(name):
        def get(self):
            if (key, name) not in Memo.prints:
                Memo.prints[key, name] = getattr(base, name).fget(self)
            return Memo.prints[key, name]
        return property(get)
    names = [n for n in ('str_txt', 'str_latex', 'str_formatted') if isinstance(getattr(base, n, None), property)]
    sol.__class__ = type(base.__name__, (base,), {n: form(n) for n in names})
    return sol


def stages(script, log, memo=False):
    """script: {text of the polynomial (expanded): (root stage, proof stage)}"""
    import triples.gui.sos_manager as G
    import triples.utils.roots as R
    from triples.utils.expression.solution import SolutionSimple, Solution

    def entry(poly):
        return script.get(str(sp.expand(poly.as_expr())), ('ok', 'ok'))

    def findroot(poly, *a, **k):
        log.append(('roots', poly))
        how = entry(poly)[0]
        if how == 'raise':
            raise ValueError('root finding fails')
        g = poly.gens
        v = sp.Rational(len(poly.terms()), 1 + poly.total_degree())
        if how == 'broken':
            info = R.RootsInfo(poly=poly, roots=[R.RootRational((v, 1, 1))])
            info.tangents = [Broken()]
            return info
        tg = [R.RootTangent(g[0]**2 - v * g[1]**2 + g[1] * g[2], g), R.RootTangent(g[0] - g[2], g)] if how == 'ok' else []
        info = R.RootsInfo(poly=poly, roots=[R.RootRational((v, 1, 1))])
        info.tangents = list(tg)
        return info

    def sum_of_squares(poly, ineq_constraints=[], eq_constraints=[], method_order=None, configs=None):
        log.append(('proof', poly, list(ineq_constraints), list(eq_constraints), list(method_order or []), snapshot_configs(configs)))
        how = entry(poly)[1]
        if how == 'raise':
            raise RuntimeError('a prover fails')
        if how == 'none':
            return None
        sol = SolutionSimple(problem=poly, solution=poly.as_expr(), is_equal=True)
        if how == 'plain':
            sol = Solution(problem=poly, solution=poly.as_expr())
        if how == 'unprintable':
            class Unprintable(SolutionSimple):
                @property
                def str_txt(self):
                    raise RuntimeError('printing fails')
            sol = Unprintable(problem=poly, solution=poly.as_expr(), is_equal=True)
        elif memo:
            sol = printed_once(sol)
        return sol
    return [(G.findroot, findroot), (G.sum_of_squares, sum_of_squares)] + (Memo.stages() if memo else [])


def snapshot_configs(c):
    out = {}
    for k, v in (c or {}).items():
        out[k] = {}
        for kk, vv in (v or {}).items():
            out[k][kk] = ('info', str(vv.poly.as_expr()) if vv.poly is not None else None) if kk == 'rootsinfo' else (list(map(str, vv)) if isinstance(vv, list) else vv)
    return out


def settings(app):
    """the process-wide settings of the service"""
    from triples.gui.sos_manager import SOS_Manager
    from triples.core import sum_of_squares as S
    core = sys.modules['triples.core.sum_of_squares']
    from triples.utils.roots import GridRender, RootsInfo
    out = {}
    for cls in (SOS_Manager, GridRender, RootsInfo):
        for k, v in vars(cls).items():
            if k.startswith('__') or k == 'grid_precal' or callable(v) or isinstance(v, (classmethod, staticmethod, property)):
                continue
            out[cls.__name__ + '.' + k] = repr(v)
    for k, v in vars(core).items():
        if k.isupper():
            out[k] = repr(v)
    out['cwd'] = os.getcwd()
    out['recursion'] = sys.getrecursionlimit()
    out['app'] = repr(sorted((k, repr(v)) for k, v in app.main.app.config.items()))
    out['env'] = repr(sorted(os.environ.items()))
    return out


# ------------------------------------------------------------------ requests and what the protocol promises for them

def body_of(r, sid):
    b = {k: v for k, v in r.items() if k not in ('client', 'script')}
    b['sid'] = sid
    return b


def same(p, q):
    """equal up to a positive constant"""
    key = (p, q)
    if key not in SAME:
        SAME[key] = _same(p, q)
    return SAME[key]


SAME = {}


def _same(p, q):
    p, q = sp.expand(p), sp.expand(q)
    if p == 0 or q == 0 or p == q:
        return p == q
    k = sp.cancel(p / q)
    return not k.free_symbols and k.is_positive is True


def expect(ctx, label, r, answer, events, log):
    """answer: (status, json); events: those of this request's client with its timestamp; log: core calls about its polynomial"""
    ref = reference(r)
    status, js = answer
    ok = ctx.require(status == 200, '%s: HTTP status %s' % (label, status))
    if ref is None:
        ctx.require(not js, '%s: malformed input is answered by %s' % (label, str(js)[:200]))
        ctx.require(not events, '%s: malformed input is followed by %s' % (label, events))
        return ok
    num, den = ref
    gens = [sp.Symbol(g) for g in r.get('gens', 'abc')]
    if not ctx.require(isinstance(js, dict) and {'n', 'txt', 'triangle', 'heatmap'} <= set(js), '%s: answer %s' % (label, str(js)[:200])):
        return False
    script = r.get('script', ('ok', 'ok'))
    actions = r.get('actions', [])
    P = sp.Poly(num, *gens) if sp.expand(num) != 0 else sp.Poly(0, *gens)
    if r.get('homogenize') or r.get('dehomogenize') is not None:
        # which polynomial these make is judged by the text shown
        back = reference(dict(r, poly=js['txt']))
        if not ctx.require(back is not None, '%s: text %r' % (label, js['txt'])):
            return False
        num, den = back
        P = sp.Poly(num, *gens) if sp.expand(num) != 0 else sp.Poly(0, *gens)
    ternary = len(gens) == 3 and not P.is_zero and P.is_homogeneous and P.total_degree() >= 1
    names = [n for n, _ in events]
    want_tangents = 'findroot' in actions and r.get('tangents') is None
    fails = 'findroot' in actions and ternary and script[0] in ('raise', 'broken')
    ctx.require(all(isinstance(d, dict) and d.get('timestamp') == r.get('timestamp', 0) for _, d in events), '%s: events %s' % (label, events))
    n_rt, n_sos = names.count('rootangents'), names.count('sos')
    ctx.require(n_rt + n_sos == len(names), '%s: events %s' % (label, names))
    if want_tangents and not fails:
        ctx.require(n_rt == 1, '%s: %d root reports' % (label, n_rt))
    else:
        ctx.require(n_rt <= (1 if want_tangents else 0), '%s: %d root reports' % (label, n_rt))
    ctx.require(n_sos == (1 if 'sos' in actions else 0), '%s: %d proof reports (events %s)' % (label, n_sos, names))
    if n_rt and n_sos:
        ctx.require(names.index('rootangents') < names.index('sos'), '%s: the proof comes before the roots' % label)
    for n, d in events:
        if n == 'rootangents':
            ctx.require(isinstance(d.get('rootsinfo'), str) and isinstance(d.get('tangents'), list), '%s: %s' % (label, d))
            if ternary and script[0] == 'ok' and r.get('dehomogenize') is None:
                v = sp.Rational(len(P.terms()), 1 + P.total_degree())
                g = gens
                want = [g[0]**2 - v * g[1]**2 + g[1] * g[2], g[0] - g[2]]
                got = [sp.expand(shorthand.parse(t, r.get('gens', 'abc'), perms_of(r))) for t in d['tangents']]
                ok_ = len(got) == 2 and all(any(sp.cancel(x / w).is_Number for w in want) for x in got)
                ctx.require(ok_, '%s: tangents %s' % (label, d['tangents']))
        else:
            success = d.get('success')
            good = bool(r.get('methods')) and script[1] in ('ok', 'plain') and (script[1] == 'ok')
            if script[1] in ('none', 'raise'):
                ctx.require(success is False and d.get('latex') == '' and d.get('txt') == '' and d.get('formatted') == '', '%s: nothing was found but %s is reported' % (label, d))
            elif good and 'configs' in r and P.total_degree() >= 1:
                ctx.require(success is True, '%s: %s reported although a proof was found' % (label, d))
            if success:
                ctx.require(all(isinstance(d.get(k), str) and d[k] for k in ('latex', 'txt', 'formatted')), '%s: %s' % (label, d))
    # what the core was asked
    proofs = [c for c in log if c[0] == 'proof' and (len(log) <= 2 or same(c[1].as_expr(), num))]
    if 'sos' in actions and P.total_degree() >= 1 and 'configs' in r and r.get('methods'):
        if ctx.require(len(proofs) == 1, '%s: the provers were asked %d times' % (label, len(proofs))):
            _, poly, ineq, eq, order, configs = proofs[0]
            ctx.require(same(poly.as_expr(), num), '%s: the provers were asked about %s' % (label, poly))
            ctx.require(set(ineq) == set(num.free_symbols) and not eq, '%s: constraints %s %s' % (label, ineq, eq))
            want = [k for k, v in r['methods'].items() if v]
            ctx.require(order == want or (P.total_degree() > 8 and order == [m for m in want if m not in ('LinearSOS', 'SDPSOS')]), '%s: methods %s' % (label, order))
            if 'LinearSOS' in order:
                lin = configs.get('LinearSOS', {})
                if ternary and 'findroot' in actions and not fails:
                    ctx.require(lin.get('rootsinfo') == ('info', str(poly.as_expr())), '%s: the roots handed over are those of %s' % (label, lin.get('rootsinfo')))
                if r.get('tangents') is not None and 'findroot' in actions and not fails:
                    exp = []
                    for t in r['tangents'].split('\n'):
                        if t:
                            q = reference(dict(r, poly=t))
                            if q is not None:
                                exp.append(sp.expand(q[0])**2)
                    got = [sp.sympify(x, locals={s.name: s for s in gens}) for x in lin.get('tangents', [])]
                    ctx.require(len(got) == len(exp) and all(sp.expand(x - y) == 0 for x, y in zip(got, exp)), '%s: the tangents handed over are %s' % (label, got))
    elif 'sos' not in actions:
        ctx.require(not proofs, '%s: the provers were asked although nobody wanted it' % label)
    # heatmap and degree
    if den == 1 or not den.free_symbols:
        if not P.is_zero and not r.get('homogenize') and r.get('dehomogenize') is None:
            ctx.require(js['n'] == P.total_degree(), '%s: degree %s' % (label, js['n']))
    if r.get('homogenize') or r.get('dehomogenize') is not None:
        return ok
    hm = js['heatmap']
    if len(gens) in (3, 4) and P.is_homogeneous and not P.is_zero and P.total_degree() <= 18:
        pts = sorted((m for m in itertools.product(range((60 if len(gens) == 3 else 18) + 1), repeat=len(gens) - 1)), reverse=True)
        size = 60 if len(gens) == 3 else 18
        pts = [m + (size - sum(m),) for m in pts if sum(m) <= size]
        if ctx.require(isinstance(hm, list) and len(hm) == len(pts), '%s: heatmap %s' % (label, str(hm)[:100])):
            for m, c in list(zip(pts, hm))[::97]:
                v = P.eval(m)
                ctx.require((c[0] == 255 and c[2] == 0) if v > 0 else ((c[0] == 0 and c[2] == 255) if v < 0 else list(c) == [255] * 3), '%s: colour %s at %s' % (label, c, m))
    elif not (P.is_homogeneous and P.total_degree() > 18):
        ctx.require(hm is None, '%s: heatmap %s' % (label, str(hm)[:100]))
    ctx.require((js['triangle'] is not None) == (3 <= len(gens) <= 4), '%s: triangle %s' % (label, js['triangle']))
    if js['triangle'] is not None and P.is_homogeneous:
        n = js['n']
        order = sorted((m for m in itertools.product(range(n + 1), repeat=len(gens)) if sum(m) == n), reverse=True)
        want = [P.coeff_monomial(m) for m in order]
        got = [sp.sympify(x.replace('^', '**')) for x in js['triangle']]
        ctx.require(len(got) == len(want) and (all(abs(x - y) < 1e-4 * max(1, abs(y)) for x, y in zip(got, want))), '%s: triangle %s' % (label, js['triangle']))
    # the text shown denotes the polynomial
    back = reference(dict(r, poly=js['txt']))
    ctx.require(back is not None and sp.expand(back[0] * den - num * back[1]) == 0 or (back is not None and same(back[0], num) and back[1] == 1), '%s: text %r' % (label, js['txt']))
    if r.get('standardize_text') in ('factor', 'sort', 'expand') or den.free_symbols:
        ctx.require(back is not None and same(back[0], num) and back[1] == 1, '%s: text %r of the numerator' % (label, js['txt']))
    return ok


def drive(ctx, requests, deviations=None, extra_jobs=(), memo=False, grain='line'):
    """run the requests of one execution; returns (service transcript, scheduler)"""
    app = webx.application()
    log = []
    script = {}
    for r in requests:
        ref = reference(r)
        if ref is not None:
            script[str(sp.expand(ref[0]))] = r.get('script', ('ok', 'ok'))
    before = settings(app)
    svc = webx.Service(app, stages(script, log, memo), clients=2)
    try:
        jobs = []
        for i, r in enumerate(requests):
            jobs.append(('r%d' % i, (lambda i=i, r=r: svc.post(i, '/process/preprocess', body_of(r, svc.sids[r.get('client', 0)])))))
        for name, fn in extra_jobs:
            jobs.append((name, lambda fn=fn: fn(svc)))
        sched = svc.run(jobs, deviations or {}, grain)
        events = [svc.received(k) for k in range(2)]
        answers = dict(svc.answers)
    finally:
        svc.close()
    after = settings(app)
    return dict(answers=answers, events=events, log=log, settings=(before, after), errors=[(t.name, repr(t.error)) for t in sched.threads if t.error is not None], stuck=sched.stuck), sched


PASSED = set()


def judge(ctx, label, requests, out, quiet_clients=()):
    ctx.require(not out['stuck'], '%s: the service hangs' % label)
    for k in out['settings'][0]:
        if not ctx.require(out['settings'][0][k] == out['settings'][1].get(k), '%s: the setting %s was %s and is now %s' % (label, k, str(out['settings'][0][k])[:200], str(out['settings'][1].get(k))[:200])):
            return
    left = [list(e) for e in out['events']]
    for i, r in enumerate(requests):
        c = r.get('client', 0)
        ts = r.get('timestamp', 0)
        mine = [e for e in left[c] if isinstance(e[1], dict) and e[1].get('timestamp') == ts]
        left[c] = [e for e in left[c] if e not in mine]
        if i not in out['answers']:
            ctx.fail('%s: request %d was not answered (%s)' % (label, i, out['errors']))
            continue
        ref = reference(r)
        log = out['log']
        if len(requests) > 1:
            log = [x for x in log if ref is not None and (same(x[1].as_expr(), ref[0]) or r.get('homogenize') or r.get('dehomogenize') is not None)]
        if c in quiet_clients:
            continue
        key = repr((i, sorted(r.items(), key=str), out['answers'][i], mine, log))
        if key in PASSED:
            continue
        before = len(ctx.fails)
        expect(ctx, '%s, request %d %s' % (label, i, short(r)), r, out['answers'][i], mine, log)
        if len(ctx.fails) == before:
            PASSED.add(key)
    for c, e in enumerate(left):
        if c not in quiet_clients:
            ctx.require(not e, '%s: client %d got %s' % (label, c, str(e)[:300]))


def short(r):
    return {k: v for k, v in r.items() if k in ('client', 'poly', 'actions', 'script', 'tangents', 'gens', 'perm')}


ALL = {'StructuralSOS': True, 'LinearSOS': True, 'SymmetricSOS': True, 'SDPSOS': True}


def req(poly, actions=('findroot', 'sos'), client=0, ts=1, **kw):
    d = dict(poly=poly, gens='abc', perm=CYC, actions=list(actions), timestamp=ts, client=client, methods=dict(ALL), configs={'StructuralSOS': {}, 'LinearSOS': {'verbose': True}, 'SDPSOS': {'verbose': True}})
    d.update(kw)
    return {k: v for k, v in d.items() if v != 'omit'}


# ------------------------------------------------------------------ one request at a time

TEXTS = ['s(a2-ab)', 's(a2)2-3s(a3b)', 'a+b+c', 's(a(a-b)(a-c))', 's((a-b)2(a+b-3c)2)', '0', '1', 's(a-a)', 'a2+b', 's(a2)+1', 'a/b+b/c+c/a-3', 'b/a', 'c/b', 's(a/(b+c))-3/2', 'a2-2ab', '-s(a2)',
         's(1/3a2-2/7ab)', 'sqrt(2)a2-b2', 's(a', 'a+*b', 's(a2))', 'abc-', 'a3b2c-1/2abc4', 's(a)3', 'p(a+b)', 'p(a)-s(a)', 'a\u00b2+b', 'x+a', 's(xa2)', 'a19+b19+c19', 's(a6)-3p(a2)']


def run_single(ctx, case):
    r = tuple_req(case)
    out, _ = drive(ctx, [r])
    ctx.step(len(out['log']) + sum(map(len, out['events'])) + 1)
    judge(ctx, 'a request', [r], out)
    ctx.valid()
    ctx.state((json.dumps(case, sort_keys=True)))


def tuple_req(case):
    r = dict(case)
    if 'script' in r:
        r['script'] = tuple(r['script'])
    return r


def known_text(t):
    return not ('x' in t)


def cases_single(tier):
    out = []
    for t in TEXTS:
        if not known_text(t):
            continue
        for acts in ([], ['findroot'], ['findroot', 'sos'], ['sos']):
            out.append(req(t, acts))
        for st in ('factor', 'sort', 'expand'):
            for om in (True, False):
                for op in (True, False):
                    out.append(req(t, [], standardize_text=st, omit_mul=om, omit_pow=op))
        for hz in (True, False):
            for dh in (None, 0, 1, '2', '1/2', 'x+', 'a', True):
                out.append(req(t, ['findroot', 'sos'], homogenize=hz, dehomogenize=dh))
        for p in ('[[0,1,2]]', '[[1,2,0],[1,0,2]]', '[[1,0,2]]', [[1, 2, 0]]):
            out.append(req(t, ['findroot', 'sos'], perm=p))
    for t, g, p in (('x2+y2-2xy', 'xyz', CYC), ('s(x2-xy)', 'xyz', CYC), ('s(a2-ab)', 'abcd', '[[1,2,3,0]]'), ('a2+b2-2ab', 'ab', '[[1,0]]'), ('s(a)', 'ab', '[[1,0]]'), ('a2-2a+1', 'a', '[[0]]'), ('(a-b)2(c-d)2', 'abcd', '[[1,2,3,0]]'), ('s(a3)-3abc', 'abcd', '[[1,2,3,0]]')):
        for acts in ([], ['findroot'], ['findroot', 'sos'], ['sos']):
            for st in (None, 'factor', 'sort', 'expand'):
                out.append(req(t, acts, gens=g, perm=p, standardize_text=st))
    return out


FAIL_R = ['ok', 'raise', 'broken', 'bare']
FAIL_S = ['ok', 'none', 'raise', 'plain', 'unprintable']


def cases_fail(tier):
    out = []
    for t in ('s(a2-ab)', 'a2+b', 'c/b+a/c') if tier == 'quick' else ('s(a2-ab)', 's(a2)2-3s(a3b)', 'a+b+c', 'a2+b', 's(a2)+1', 'c/b+a/c'):
        for f in FAIL_R:
            for s in FAIL_S:
                for acts in (['findroot'], ['findroot', 'sos'], ['sos'], ['sos', 'findroot']):
                    for tg in (None, '', 'a-b\na2-2bc', 'a-b\n)(\n', 'c2-b2/2\nb'):
                        d = req(t, acts, script=[f, s])
                        if tg is not None:
                            d['tangents'] = tg
                        out.append(d)
                for k, v in (('configs', 'omit'), ('configs', {}), ('configs', {'LinearSOS': {}}), ('methods', {'StructuralSOS': True, 'LinearSOS': False, 'SymmetricSOS': False, 'SDPSOS': False}), ('methods', {'SDPSOS': True, 'LinearSOS': True}), ('methods', {}), ('methods', 'omit'), ('timestamp', 'omit'), ('perm', '[[0,1,2]]')):
                    for tg in (None, 'a-b'):
                        d = req(t, ['findroot', 'sos'], script=[f, s], **{k: v})
                        if tg is not None:
                            d['tangents'] = tg
                        out.append(d)
    return out


# ------------------------------------------------------------------ histories: each request answered as if it were the first

HIST = [req('s(a2-ab)'), req('s(a3)-3p(a)', tangents='a-b\na-2b'), req('s(a', ['findroot', 'sos']), req('s(a2)2-3s(a3b)', script=['raise', 'ok']), req('a2+b', script=['ok', 'raise']), req('x2+y2-2xy', gens='xyz'), req('s(a4)-p(a)', ['sos']), req('s(a2-ab)', script=['ok', 'none']),
        req('s(a2+ab)', methods={'SDPSOS': True}), req('s(a/b)-3', ['findroot', 'sos'], standardize_text='sort')]


def run_history(ctx, case):
    app = webx.application()
    for i, k in enumerate(case):
        r = dict(copy.deepcopy(HIST[k]), timestamp=i + 1, client=i % 2)
        out, _ = drive(ctx, [r])
        ctx.step()
        judge(ctx, 'request %d of the history %s' % (i, case), [r], out)
    ctx.valid()
    ctx.state(tuple(case))


def cases_history(tier):
    n = len(HIST)
    out = [list(t) for t in itertools.product(range(n), repeat=2)]
    if tier != 'quick':
        out += [list(t) for t in itertools.product(range(n), repeat=3)]
    else:
        out += [list(t) for i, t in enumerate(itertools.product(range(n), repeat=3)) if i % 5 == 0]
    return out


# ------------------------------------------------------------------ schedules of two clients

PAIRS = [
    (req('s(a2-ab)'), req('s(a2)2-3s(a3b)')),
    (req('s(a2-ab)', tangents='a-b\na-2b'), req('s(a3)-3p(a)', tangents='a2-bc')),
    (req('s(a2-ab)', script=['raise', 'ok']), req('s(a3)-3p(a)')),
    (req('s(a2-ab)', script=['ok', 'raise']), req('s(a3)-3p(a)', ['findroot'])),
    (req('s(a2-ab)', methods={'LinearSOS': True, 'StructuralSOS': True}, configs={}), req('s(a4)-p(a)', methods={'SDPSOS': True, 'StructuralSOS': False}, configs={})),
    (req('x2+y2-2xy', gens='xyz', perm='[[1,0,2]]', standardize_text='sort'), req('s(a2-ab)', perm='[[1,2,0],[1,0,2]]', standardize_text='factor')),
    (req('s(a', ['findroot', 'sos']), req('s(a2-ab)')),
    (req('a2+b', homogenize=True), req('a3-2ab+c', dehomogenize=1)),
    (req('s(a2-ab)', ['sos']), req('s(a2+ab)', ['sos'], tangents='a')),
    (req('(a-b)2(c-d)2', gens='abcd', perm='[[1,2,3,0]]'), req('s(a/b)-3')),
    (req('s(a2-ab)', configs='omit'), req('s(a3)-3p(a)', methods='omit')),
]
TRIPLES = [
    (req('s(a2-ab)'), req('s(a2)2-3s(a3b)'), req('s(a3)-3p(a)', tangents='a-b')),
    (req('s(a2-ab)', script=['raise', 'ok']), req('s(a2)2-3s(a3b)', script=['ok', 'raise']), req('a+b+c')),
]


def run_schedule(ctx, case):
    kind, i, clients, bound, part, parts, grain = case
    reqs = [dict(copy.deepcopy(r), client=c, timestamp=10 + k) for k, (r, c) in enumerate(zip((PAIRS if kind == 'pair' else TRIPLES)[i], clients))]
    n = 0
    seen = set()

    stack = [((), 0)]
    while stack:
        dev, cost = stack.pop()
        out, s = drive(ctx, copy.deepcopy(reqs), dict(dev), memo=True, grain=grain)
        n += 1
        ctx.step()
        judge(ctx, 'schedule %s of clients %s' % (list(dev), clients), reqs, out)
        seen.add(tuple((m, p) for m, _, d, p in s.trace if m != p))
        last = dev[-1][0] if dev else -1
        for idx in range(len(s.trace) - 1, last, -1):
            me, enabled, default, pick = s.trace[idx]
            extra = 1 if me is not None else 0
            if cost + extra > bound:
                continue
            for name in enabled:
                # the first preemption decides which part of the search this is
                if name != default and not (cost == 0 and extra and (idx + len(dev)) % parts != part):
                    stack.append((dev + ((idx, name),), cost + extra))
    ctx.valid(n)
    ctx.state((case, len(seen)))
    for x in seen:
        ctx.state((kind, i, tuple(clients), x))


def cases_schedule(tier):
    out = []
    for i in range(len(PAIRS)):
        for cl in ([0, 1], [0, 0]):
            if tier != 'quick' or (cl == [0, 1] and i not in (8, 9)) or i == 1:
                for part in range(4):
                    out.append(['pair', i, cl, 1, part, 4, 'line'])
    if tier != 'quick':
        for i in range(len(PAIRS)):
            for cl in ([0, 1], [0, 0]):
                for part in range(4):
                    out.append(['pair', i, cl, 2, part, 4, 'call'])
        for i in range(len(TRIPLES)):
            for part in range(4):
                out.append(['triple', i, [0, 1, 0], 1, part, 4, 'call'])
        for i in (4,):
            for part in range(24):
                out.append(['pair', i, [0, 1], 3, part, 24, 'call'])
    return out


# ------------------------------------------------------------------ a client that leaves in the middle

def run_leave(ctx, case):
    i, bound, others = case
    a, b = PAIRS[i]
    reqs = [dict(copy.deepcopy(r), client=c, timestamp=10 + c) for c, r in enumerate((a, b))]

    def leave(svc):
        svc.clients[0].disconnect()

    stack = [((), 0)]
    n = 0
    while stack:
        dev, cost = stack.pop()
        out, s = drive(ctx, copy.deepcopy(reqs), dict(dev), extra_jobs=[('leave', leave)], memo=True)
        n += 1
        ctx.step()
        judge(ctx, 'schedule %s, client 0 leaves' % list(dev), reqs, out, quiet_clients=(0,))
        last = dev[-1][0] if dev else -1
        for idx in range(len(s.trace) - 1, last, -1):
            me, enabled, default, pick = s.trace[idx]
            extra = 1 if me is not None else 0
            if cost + extra > bound:
                continue
            for name in enabled:
                if name != default and (name == 'leave' or (others and cost == 0)):
                    stack.append((dev + ((idx, name),), cost + extra))
    ctx.valid(n)
    ctx.state((case, n))


def cases_leave(tier):
    return [[i, 1, False] for i in (0, 2, 3, 8)] if tier == 'quick' else [[i, 1, True] for i in range(len(PAIRS))]


# ------------------------------------------------------------------ real stages behind the service

REAL = ['s(a2-ab)', 's(a2)2-3s(a3b)', 's(a3)-3p(a)', 's(a4-a2bc)', 's((a-b)2(a+b-3c)2)', 's(a2b)-3abc', 'a2-2ab+b2', '-s(a2)', 's(a(a-b)(a-c))', 's(a2(a-b)(a-c))', '(a-b)2+(b-2c)2', 's(ab(a-b)2)', 'a2-2ab', 's(2a2-3ab)', '5s(a4)+4s(a3b)-9s(a2bc)']


def run_real(ctx, case):
    text, perm, methods, tangents = case
    app = webx.application()
    r = req(text, ['findroot', 'sos'], perm=perm, methods={m: True for m in methods}, stub=False)
    if tangents is not None:
        r['tangents'] = tangents
    before = settings(app)
    svc = webx.Service(app, [], clients=2)
    try:
        body = body_of(r, svc.sids[0])
        body.pop('stub')
        sched = svc.run([('r0', lambda: svc.post(0, '/process/preprocess', body))], {})
        ev0, ev1 = svc.received(0), svc.received(1)
        ans = svc.answers.get(0)
    finally:
        svc.close()
    ctx.step()
    label = 'request %s with %s' % (text, methods)
    ctx.require(before == settings(app), '%s changes a setting' % label)
    ctx.require(not ev1, '%s: another client got %s' % (label, ev1))
    names = [n for n, _ in ev0]
    if not ctx.require(ans is not None and ans[0] == 200 and names == (['rootangents'] if tangents is None else []) + ['sos'], '%s: %s, events %s, errors %s' % (label, ans and ans[0], names, [t.error for t in sched.threads])):
        return
    num, _ = reference(r)
    a, b, c = gens = sp.symbols('a b c')
    P = sp.Poly(num, *gens)
    for n, d in ev0:
        if n == 'rootangents':
            for line in d['rootsinfo'].split('\n')[1:]:
                pt, v = line.split('=')
                pt = [sp.sympify(t) for t in pt.strip()[1:-1].split(',')]
                w = P.eval(tuple(pt))
                ctx.require(abs(w - sp.sympify(v)) <= 1e-5 * (1 + abs(w) + max(abs(float(x)) for x in pt)**P.total_degree()), '%s: the service says %s' % (label, line))
            for t in d['tangents']:
                e = sp.expand(shorthand.parse(t, 'abc', PERMS[perm]))
                ctx.require(e != 0, '%s: tangent %s' % (label, t))
        elif d['success']:
            for k, read in (('txt', texread.read_text), ('formatted', texread.read_short), ('latex', texread.read_latex)):
                s = d[k]
                if k == 'latex':
                    s = s.replace('$', '').replace('\\begin{aligned}', '').replace('\\end{aligned}', '').replace('&', '').replace('\\\\', '')
                lhs, s = (x.strip() for x in s.split('=', 1))
                m = re.search(r'f\(([a-z,]*)\)$', lhs)
                if not ctx.require(m is not None and {str(x) for x in num.free_symbols} <= set(m.group(1).split(',')), '%s: the proof %s is about %s' % (label, d[k], lhs)):
                    continue
                lhs = lhs[:m.start()].strip()
                try:
                    e = read(s, {g.name: g for g in gens}, gens, PERMS[perm])
                    mul = read(lhs, {g.name: g for g in gens}, gens, PERMS[perm]) if lhs else sp.S.One
                except texread.Bad as bad:
                    ctx.fail('%s: %s cannot be read: %s' % (label, d[k], bad))
                    continue
                for p in ((2, 3, 7), (sp.Rational(1, 3), 5, 2), (1, 0, 4)):
                    sub = dict(zip(gens, p))
                    try:
                        val, by = sp.nsimplify(sp.sympify(e).subs(sub)), sp.nsimplify(sp.sympify(mul).subs(sub))
                    except Exception:
                        continue
                    if val.has(sp.zoo, sp.nan) or by.has(sp.zoo, sp.nan):
                        continue
                    ctx.require(abs(sp.N(val - by * num.subs(sub), 20)) < 1e-9 and by > 0, '%s: the proof reported %r has value %s at %s instead of %s times %s' % (label, d[k], val, p, by, num.subs(sub)))
    neg = any(P.eval(p) < 0 for p in itertools.product(range(4), repeat=3))
    if neg:
        ctx.require(not ev0[-1][1]['success'], '%s: a proof of a false inequality' % label)
    ctx.valid()
    ctx.state((case, str(ev0)))


def cases_real(tier):
    ms = [['StructuralSOS'], ['LinearSOS'], ['SDPSOS'], ['SymmetricSOS'], list(ALL)]
    return [[t, p, m, tg] for t in REAL for p in (CYC, '[[1,2,0],[1,0,2]]', '[[0,1,2]]') for m in ms for tg in (None, 'a-b')
            if (tg is None or m == ['LinearSOS']) and (p == CYC or m == list(ALL)) and not ('s(' in t and p == '[[0,1,2]]')]


# ------------------------------------------------------------------ the manager called directly

def run_manager(ctx, case):
    from triples.gui.sos_manager import SOS_Manager
    app = webx.application()
    verbose, config, text, how, method, dflt = case
    gens = sp.symbols('a b c')
    e = sp.expand(shorthand.parse(text, 'abc', PERMS[CYC]))
    P = sp.Poly(e, *gens)
    log = []
    undo = []
    old = SOS_Manager.verbose
    SOS_Manager.verbose = verbose
    cfg = copy.deepcopy(config)
    try:
        before = settings(app)
        for o, n in stages({str(e): ('ok', how)}, log):
            webx.replace_everywhere(app, o, n, undo)
        kw = {} if dflt else {'configs': cfg}
        try:
            sol = SOS_Manager.sum_of_squares(P, ineq_constraints=list(gens), method_order=list(method), **kw)
            out = ('ok', sol)
        except RuntimeError:
            out = ('raise', None)
    finally:
        for o, k, v in reversed(undo):
            setattr(o, k, v)
        after = settings(app)
        SOS_Manager.verbose = old
    ctx.step()
    label = 'SOS_Manager.sum_of_squares(%s, verbose=%s, configs=%s) with a prover that does %s' % (text, verbose, 'default' if dflt else config, how)
    for k in before:
        ctx.require(before[k] == after[k], '%s changes the setting %s from %s to %s' % (label, k, str(before[k])[:200], str(after[k])[:200]))
    ctx.require(cfg == config, '%s changes the configuration it was given to %s' % (label, cfg))
    if how == 'none':
        ctx.require(out == ('ok', None), '%s: %s' % (label, out))
    elif how == 'ok':
        if ctx.require(out[1] is not None, '%s: no solution' % label):
            val = out[1].solution.doit() if hasattr(out[1].solution, 'doit') else out[1].solution
            ctx.require(sp.expand(val - e) == 0, '%s: solution %s' % (label, out[1].solution))
    if len(log) == 1:
        given = log[0][5]
        if verbose is False:
            ctx.require(all(given.get(m, {}).get('verbose') is False for m in ('LinearSOS', 'SDPSOS')), '%s: the provers were told %s' % (label, given))
    ctx.require(len(log) == 1, '%s: %d calls' % (label, len(log)))
    ctx.valid()
    ctx.state(json.dumps(case))


def cases_manager(tier):
    cfgs = [{}, {'LinearSOS': {}}, {'LinearSOS': {'verbose': True}, 'SDPSOS': {'verbose': True}}, {'StructuralSOS': {}}, {'SDPSOS': None}]
    return [[v, c, t, h, m, d] for v in (True, False) for c in cfgs for t in ('s(a2-ab)', 's(a3)-3p(a)', 'a2+b', '1') for h in ('ok', 'none', 'raise')
            for m in (['LinearSOS'], ['StructuralSOS', 'SDPSOS']) for d in ((True, False) if c == {} else (False,))]


def run_latex(ctx, case):
    from triples.utils.expression.form import latex_coeffs
    text, gens, perm = case
    app = webx.application()
    r = dict(poly=text, gens=gens, perm=perm)
    ans = app.main.app.test_client().post('/process/latexcoeffs', json=r)
    ctx.step()
    ref = reference(r)
    js = ans.get_json(silent=True)
    label = 'coefficients of %r over %s' % (text, gens)
    ctx.require(ans.status_code == 200 and isinstance(js, dict) and isinstance(js.get('coeffs'), str), '%s: %s %s' % (label, ans.status_code, js))
    if ref is None:
        ctx.require(js == {'coeffs': ''}, '%s: %s' % (label, js))
    elif isinstance(js, dict) and not sp.expand(ref[0]).is_zero:
        P = sp.Poly(ref[0], *[sp.Symbol(g) for g in gens])
        if P.is_homogeneous and len(gens) == 3:
            ctx.require(js['coeffs'] == latex_coeffs(P, tabular=True, document=True, zeros='\\textcolor{lightgray}'), '%s: %s' % (label, js))
    ctx.valid()
    ctx.state(tuple(case))


def cases_latex(tier):
    return [[t, g, p] for t in TEXTS if 'x' not in t and t.isascii() for g, p in (('abc', CYC), ('abc', '[[0,1,2]]'), ('abc', '[[1,2,0],[1,0,2]]'))] + [['s(x2-xy)', 'xyz', CYC], ['x2-z2', 'xyz', CYC], ['s(', 'xyz', CYC]]


def families(tier):
    return [
        Family('requests', cases_single(tier), run_single, timeout=60, chunk=4, share=3, bound='32 texts x actions x display options x groups'),
        Family('failures', cases_fail(tier), run_single, timeout=60, chunk=8, share=4, bound='6 texts x root stage outcomes x proof stage outcomes x actions x options'),
        Family('histories', cases_history(tier), run_history, timeout=60, chunk=4, share=2, bound='all sequences of 2 (and 3) of 10 requests'),
        Family('schedules', cases_schedule(tier), run_schedule, timeout=1200 if tier != 'quick' else 200, chunk=1, share=6, bound='all interleavings of the requests and tasks of two clients with at most one preemption before any line (thorough: also at most 2 and 3 at function entries and exits, and three requests)'),
        Family('leaving', cases_leave(tier), run_leave, timeout=1200 if tier != 'quick' else 200, chunk=1, share=3, bound='as schedules, with a client leaving at every point'),
        Family('real-stages', cases_real(tier), run_real, timeout=60, chunk=1, share=3, bound='15 problems x methods x groups'),
        Family('manager', cases_manager(tier), run_manager, timeout=20, chunk=8, share=1, bound='configurations x outcomes x verbosity'),
        Family('latexcoeffs', cases_latex(tier), run_latex, timeout=20, chunk=8, share=1, bound='texts x groups'),
    ]
