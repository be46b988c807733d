"""C08: proof driver order, fallback and batches are history independent."""
import contextlib
import copy
import csv
import io
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np
import sympy as sp

from ..core import Family
from .. import problems as PB

TITLE = 'Proof driver order, fallback and batches are history independent'
BUDGET = {'quick': 110, 'thorough': 700}
HANG = True    # cases take a second at most: one that never ends is reported
METHODS = ['LinearSOS', 'StructuralSOS', 'SymmetricSOS', 'SDPSOS']
DEFAULT = ['StructuralSOS', 'LinearSOS', 'SDPSOS', 'SymmetricSOS']
a, b, c, g = sp.symbols('a b c g')


class Boom(Exception):
    pass


def module():
    import triples.core.sum_of_squares as m
    import importlib
    import sys
    return sys.modules['triples.core.sum_of_squares']


@contextlib.contextmanager
def stubs(decide, log):
    """every prover known to the driver is replaced by decide(name, args, kwargs); whatever holds the original function in the driver module (a name or a table) is replaced"""
    m = module()
    import triples
    orig = {n: getattr(m, n) for n in METHODS}

    def make(name):
        def stub(*args, **kwargs):
            log.append((name, args, dict(kwargs)))
            return decide(name, args, kwargs)
        return stub
    new = {n: make(n) for n in METHODS}
    undo = []

    def visit(d):
        for k, v in list(d.items()):
            for n in METHODS:
                if v is orig[n]:
                    d[k] = new[n]
                    undo.append((d, k, v))
            if isinstance(v, dict) and d is vars(m) and not k.startswith('__'):
                visit(v)
    visit(vars(m))
    try:
        yield
    finally:
        for d, k, v in undo:
            d[k] = v


def certificate(name, equal=True):
    from triples.utils import SolutionSimple

    class Cert(SolutionSimple):
        method = name

        @property
        def is_equal(self):
            return equal
    s = Cert(problem=sp.Poly(a**2, a), solution=a**2)
    return s


ERR = {'raise': Boom, 'value': ValueError, 'zero': ZeroDivisionError, 'notimpl': NotImplementedError}


def outcome(kind, name):
    if kind in ERR:
        raise ERR[kind]('prover %s failed' % name)
    if kind == 'none':
        return None
    return certificate(name, kind == 'ok')


# ------------------------------------------------------------------ single calls against the reference driver
POLYS = [sp.Poly(a**2 + b**2, a, b), a**2 - 2 * a * b + b**2, sp.Poly(a, a, b, c)]
INEQ = [None, [], {}, [a, b], {a: g}]
EQ = [None, [], [a + b - 1], {a * b - 1: g}]
CONFIGS = ['absent', 'none', {}, {'LinearSOS': {'tangents': [a]}}, {'SDPSOS': {'verbose': True}, 'StructuralSOS': {'real': 0}, 'Other': {'x': 1}}]


def run_single(ctx, case):
    order, outs, ii, ei, ci, pi, positional = case
    m = module()
    poly = POLYS[pi]
    ineq, eq = copy.copy(INEQ[ii]), copy.copy(EQ[ei])
    kw = {}
    conf = {} if CONFIGS[ci] in ('absent', 'none') else copy.deepcopy(CONFIGS[ci])
    given_conf = copy.deepcopy(conf)
    if CONFIGS[ci] != 'absent':
        kw['configs'] = None if CONFIGS[ci] == 'none' else given_conf
    given_order = None
    if order != 'absent':
        given_order = None if order is None else list(order)
        kw['method_order'] = given_order
    want_order = DEFAULT if order in ('absent', None) else list(order)
    args = [poly]
    if positional and ineq is not None:
        args.append(ineq)
        if eq is not None:
            args.append(eq)
    else:
        if ineq is not None:
            kw['ineq_constraints'] = ineq
        if eq is not None:
            kw['eq_constraints'] = eq
    if positional and ineq is None and eq is not None:
        kw['eq_constraints'] = eq
    # reference
    want_calls, want_res = [], None
    for i, n in enumerate(want_order):
        k = outs[min(i, len(outs) - 1)]
        want_calls.append(n)
        if k != 'none':
            want_res = (k, n)
            break
    log = []

    def decide(name, ar, kwa):
        return outcome(outs[min(len(log) - 1, len(outs) - 1)], name)
    got, exc = None, None
    with stubs(decide, log):
        try:
            got = m.sum_of_squares(*args, **kw)
        except Exception as e:
            exc = e
    ctx.step(len(log))
    label = 'order %s outcomes %s configs %s' % (order, outs, CONFIGS[ci])
    ctx.equal([n for n, _, _ in log], want_calls, label + ': provers called')
    for n, ar, kwa in log:
        names = dict(zip(('poly', 'ineq_constraints', 'eq_constraints'), ar))
        full = {**names, **kwa}
        ctx.equal(full.pop('poly'), poly, label + ': polynomial passed to ' + n)
        for key, val in (('ineq_constraints', ineq), ('eq_constraints', eq)):
            v = full.pop(key, {})
            same = (v == val) or (not v and not val) or (isinstance(val, list) and v == {e: e for e in val})
            ctx.require(same, lambda: '%s: %s passed to %s is %s, expected %s' % (label, key, n, v, val))
        ctx.equal(full, conf.get(n, {}), label + ': options passed to ' + n)
    if want_res is None:
        ctx.require(got is None and exc is None, lambda: '%s: result %r, exception %r, expected nothing' % (label, got, exc))
        ctx.outcome('none')
    elif want_res[0] in ERR:
        ctx.require(isinstance(exc, ERR[want_res[0]]), lambda: '%s: result %r, exception %r, expected the failure of %s' % (label, got, exc, want_res[1]))
        ctx.outcome('raised')
    else:
        ctx.require(exc is None and got is not None and got.method == want_res[1], lambda: '%s: result %r, exception %r, expected the certificate of %s' % (label, got, exc, want_res[1]))
        if got is not None:
            ctx.require(got.problem == poly, lambda: '%s: the solution refers to problem %s' % (label, got.problem))
            for key, val in (('ineq_constraints', ineq), ('eq_constraints', eq)):
                v = getattr(got, key)
                ctx.require(v == val or (not v and not val) or (isinstance(val, list) and dict(v) == {e: e for e in val}), lambda: '%s: the solution refers to %s %s' % (label, key, v))
        ctx.outcome('certificate')
    ctx.equal(given_conf, conf, label + ': configs of the caller')
    ctx.require(given_order == (None if order in ('absent', None) else list(order)), label + ': method_order of the caller changed')
    ctx.require(ineq == INEQ[ii] and eq == EQ[ei], label + ': constraints of the caller changed')


def cases_single(tier):
    q = tier == 'quick'
    out = []
    K = ['ok', 'none', 'raise', 'inexact']
    orders = ['absent', None, []] + [list(p) for n in (1, 2, 3, 4) for p in itertools.permutations(METHODS, n)] + [list(p) for p in itertools.product(METHODS, repeat=2) if p[0] == p[1]]
    for o in orders:
        n = 4 if o in ('absent', None) else max(len(o), 1)
        for outs in itertools.product(K, repeat=min(n, 4)):
            # only prefixes that matter: after a decision, the rest is irrelevant, keep 'ok' there to see wrong continuation
            i = next((j for j, k in enumerate(outs) if k != 'none'), None)
            if i is not None and any(k != 'ok' for k in outs[i + 1:]):
                continue
            out.append([o, list(outs), 3, 0, 0, 0, False])
    for ii in range(len(INEQ)):
        for ei in range(len(EQ)):
            for ci in range(len(CONFIGS)):
                for pi in range(len(POLYS)):
                    for pos in (False, True):
                        for o in (['absent', None, ['SDPSOS', 'LinearSOS']] if q else ['absent', None, ['SDPSOS', 'LinearSOS'], ['StructuralSOS'], ['SymmetricSOS', 'StructuralSOS', 'SDPSOS']]):
                            for outs in (['none', 'ok'], ['none']):
                                out.append([o, outs, ii, ei, ci, pi, pos])
    for e in ERR:
        for k in range(4):
            out.append(['absent', ['none'] * k + [e], 0, 0, 0, 1, False])
    return out


# ------------------------------------------------------------------ batches
TEXTS = {'ok': 'a^2+b^2', 'ok2': 'a^2-ab+b^2+c4', 'bad': 'a^^(', 'empty': '', 'blank': '   ', 'poly': None, 'frac': 'a/(b'}


def expected_batch(items, outs):
    """own reading: blank lines vanish; unreadable problems are invalid; the others follow the script"""
    rows = []
    j = 0
    for it in items:
        if it in ('empty', 'blank'):
            continue
        if it in ('bad', 'frac'):
            rows.append((it, 'invalid', None))
            continue
        k = outs[j % len(outs)]
        j += 1
        rows.append((it, {'ok': 'success', 'inexact': 'inaccurate', 'none': 'fail'}.get(k, 'error'), k))
    return rows


def run_batch(ctx, case):
    items, outs, source, verbose, conf, prc, save = case
    m = module()
    P = sp.Poly(a**3 + b**3, a, b, c)
    polys = [P if it == 'poly' else TEXTS[it] for it in items]
    rows = expected_batch(items, outs)
    log = []
    tmp = tempfile.mkdtemp(prefix='c08_')
    cwd = os.getcwd()
    label = 'batch %s outcomes %s source %s verbose %s configs %s reader %s save %s' % tuple(case)
    try:
        os.chdir(tmp)
        if source == 'file':
            with open('in.txt', 'w') as fh:
                fh.write('\n'.join(polys) + '\n')
            arg = 'in.txt'
        elif source == 'path':
            os.mkdir('sub')
            with open('sub/in.txt', 'w') as fh:
                fh.write('\n'.join(polys))
            arg = os.path.join(tmp, 'sub', 'in.txt')
        elif source == 'tuple':
            arg = tuple(polys)
        else:
            arg = list(polys)
        given = copy.copy(arg)

        def decide(name, ar, kwa):
            calls = [r for r in rows if r[2] is not None]
            # each readable problem is tried with the first prover of the order only (the script makes the first answer final) except 'none'
            return outcome(state['k'], name)
        state = {'k': None, 'i': -1, 'last': None}

        def decide2(name, ar, kwa):
            if name == 'StructuralSOS':
                state['i'] += 1
                state['k'] = [r[2] for r in rows if r[2] is not None][state['i']]
            return outcome(state['k'], name)
        kw = dict(method_order=['StructuralSOS', 'LinearSOS'], verbose_sos=verbose, verbose_progress=False, save_result=save if save is not True else True)
        confd = {'none': None, 'lin': {'LinearSOS': {'verbose': not verbose, 'x': 1}}, 'struct': {'StructuralSOS': {'y': 2}}}[conf]
        if confd is not None:
            kw['configs'] = copy.deepcopy(confd)
        reader = None
        if prc != 'none':
            reader = {'empty': {}, 'gens': {'gens': (a, b, c)}}[prc]
            kw['poly_reader_configs'] = reader
        before = copy.deepcopy(reader)
        with stubs(decide2, log):
            df = m.sum_of_squares_multiple(arg, [a, b, c], **kw)
        ctx.step(len(log))
        ctx.require(arg == given, label + ': the given problems were changed')
        ctx.equal(reader, before, label + ': reader options of the caller')
        if confd is not None:
            ctx.equal(kw['configs'], confd, label + ': configs of the caller')
        ctx.equal(len(df), len(rows), label + ': number of answers')
        ctx.equal(list(df.index), list(range(1, len(rows) + 1)), label + ': index')
        for i, (it, status, k) in enumerate(rows):
            r = df.iloc[i]
            ctx.equal(r['status'], status, '%s: status of problem %d' % (label, i))
            want = P if it == 'poly' else TEXTS[it]
            ctx.equal(r['problem'], want, '%s: problem %d' % (label, i))
            if status in ('success', 'inaccurate'):
                ctx.require(r['solution'] is not None and r['method'] == 'StructuralSOS', lambda: '%s: answer %d: %s %s' % (label, i, r['solution'], r['method']))
            else:
                ctx.require(r['solution'] is None and r['method'] is None, lambda: '%s: answer %d: %s %s' % (label, i, r['solution'], r['method']))
            if status != 'invalid':
                ctx.equal(int(r['deg']), {'ok': 2, 'ok2': 4, 'poly': 3}[it], '%s: degree %d' % (label, i))
                ctx.require(r['time'] >= 0, label + ': time')
            else:
                ctx.require(np.isnan(r['time']), label + ': time of an invalid problem')
        # provers called, and what they saw
        want_calls = []
        for it, status, k in rows:
            if k is None:
                continue
            want_calls += ['StructuralSOS'] + (['LinearSOS'] if k == 'none' else [])
        ctx.equal([n for n, _, _ in log], want_calls, label + ': prover calls')
        for n, ar, kwa in log:
            wantkw = dict((confd or {}).get(n, {}))
            if n in ('LinearSOS', 'SDPSOS'):
                wantkw['verbose'] = verbose
            kwa = {k: v for k, v in kwa.items() if k not in ('ineq_constraints', 'eq_constraints', 'poly')}
            ctx.equal(kwa, wantkw, label + ': options passed to ' + n)
        # saved file
        files = [os.path.join(d, f) for d, _, fs in os.walk(tmp) for f in fs if not f.endswith('in.txt')]
        if save is False:
            ctx.equal(files, [], label + ': files written')
        elif ctx.require(len(files) == 1, lambda: '%s: files written: %s' % (label, files)):
            want_dir = tmp if source != 'path' else os.path.join(tmp, 'sub')
            if save is True:
                ctx.require(os.path.dirname(files[0]) == want_dir, lambda: '%s: saved as %s' % (label, files))
            else:
                ctx.equal(os.path.relpath(files[0], tmp) if save != 'dir' else 'dir', os.path.normpath(save), label + ': file name')
            with open(files[0]) as fh:
                rd = list(csv.DictReader(fh))
            ctx.equal([r['status'] for r in rd], [r[1] for r in rows], label + ': saved statuses')
            ctx.equal([bool(r['solution']) for r in rd], [r[1] in ('success', 'inaccurate') for r in rows], label + ': saved solutions')
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def cases_batch(tier):
    q = tier == 'quick'
    out = []
    it = ['ok', 'ok2', 'bad', 'empty', 'poly']
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        for items in itertools.product(it, repeat=n):
            for outs in (['ok'], ['none', 'ok'], ['raise', 'ok', 'inexact'], ['inexact', 'none', 'raise']):
                out.append([list(items), outs, 'list', False, 'none', 'none', False])
    for items in (['ok', 'bad', 'ok2'], ['blank', 'ok', 'empty', 'ok2', 'frac'], ['ok'], []):
        for source in ('list', 'file', 'path', 'tuple'):
            for v in (False, True):
                for conf in ('none', 'lin', 'struct'):
                    for prc in ('none', 'empty', 'gens'):
                        for save in (False, True, 'out.csv', 'x/y/out.csv'):
                            if not items and save:
                                continue
                            out.append([items, ['none', 'ok'], source, v, conf, prc, save])
    return out


# ------------------------------------------------------------------ histories of driver calls: defaults stay defaults
OPS = ['single-default', 'single-raise', 'single-conf', 'single-None', 'multi', 'multi-verbose', 'multi-reader', 'multi-raise', 'multi-conf', 'deprecated', 'order']


def do_op(op, m, log, ctx):
    mode = {'k': 'none'}

    def decide(name, ar, kwa):
        return outcome(mode['k'], name)
    with stubs(decide, log):
        if op.startswith('single'):
            kw = {}
            if op == 'single-raise':
                mode['k'] = 'raise'
            if op == 'single-conf':
                kw = dict(configs={'LinearSOS': {'q': 1}, 'SDPSOS': {'verbose': 5}}, method_order=['SDPSOS', 'LinearSOS'])
            if op == 'single-None':
                kw = dict(configs=None, method_order=None)
            m.sum_of_squares(POLYS[0], [a], **kw)
        elif op.startswith('multi'):
            kw = dict(verbose_progress=False, save_result=False)
            if op == 'multi-verbose':
                kw['verbose_sos'] = True
            if op == 'multi-reader':
                kw['poly_reader_configs'] = {'gens': (a, b), 'ignore_errors': False}
            if op == 'multi-raise':
                mode['k'] = 'raise'
            if op == 'multi-conf':
                kw['configs'] = {'StructuralSOS': {'z': 3}}
            m.sum_of_squares_multiple(['a^2+b^2', 'a^2'] + ([] if op == 'multi-reader' else ['b^(']), **kw)
        elif op == 'deprecated':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                m.sum_of_square(POLYS[0], [a])
                m.sum_of_square_multiple(['a^2'], verbose_progress=False, save_result=False)
        elif op == 'order':
            m.sum_of_squares(POLYS[0], method_order=['SymmetricSOS'])


def run_history(ctx, case):
    m = module()
    for op in case:
        try:
            do_op(op, m, [], ctx)
        except Boom:
            ctx.outcome('raised')
        ctx.step()
    label = 'after the calls %s' % (case,)
    log = []
    with stubs(lambda *t: None, log):
        m.sum_of_squares(POLYS[0], [a, b])
    ctx.equal([n for n, _, _ in log], DEFAULT, label + ': default order')
    ctx.require(all(not {k: v for k, v in kw.items() if k not in ('poly', 'ineq_constraints', 'eq_constraints')} for _, _, kw in log), lambda: '%s: default options are %s' % (label, [kw for _, _, kw in log]))
    log = []
    with stubs(lambda *t: None, log):
        df = m.sum_of_squares_multiple(['a^2', 'b^(', 'c'], verbose_progress=False, save_result=False)
    ctx.equal(list(df['status']), ['fail', 'invalid', 'fail'], label + ': a default batch')
    ctx.equal([n for n, _, _ in log], DEFAULT * 2, label + ': default batch order')
    for n, _, kw in log:
        kw = {k: v for k, v in kw.items() if k not in ('poly', 'ineq_constraints', 'eq_constraints')}
        ctx.equal(kw, {'verbose': False} if n in ('LinearSOS', 'SDPSOS') else {}, label + ': default batch options of ' + n)
    ctx.equal([p.gens for p in [ar[0] for n, ar, _ in log if n == 'StructuralSOS']], [(a, b, c)] * 2, label + ': default generators')


def cases_history(tier):
    return [list(h) for k in ((0, 1, 2) if tier == 'quick' else (0, 1, 2, 3)) for h in itertools.product(OPS, repeat=k)]


# ------------------------------------------------------------------ the real provers: answers do not depend on earlier problems
REAL = [
    # problem, generators, inequality constraints, equality constraints
    ('a**2+b**2+c**2-a*b-b*c-c*a', 'a b c', '', ''), ('x**2+y**2+z**2-x*y-y*z-z*x', 'z x y', '', ''), ('a**3+b**3+c**3-3*a*b*c', 'a b c', 'a b c', ''), ('a**3+b**3+c**3-3*a*b*c', 'a b c', '', ''),
    ('a**3+b**3+c**3-3*a*b*c', 'c b a', 'a+b+c', ''), ('a**4+b**4+c**4-a**2*b*c-a*b**2*c-a*b*c**2', 'a b c', '', ''), ('a**2-3*a*b+b**2', 'a b', '', ''), ('a*b+b*c+c*a', 'a b c', 'a b c', ''),
    ('(a-1)**2+(b-2)**2', 'a b', '', ''), ('a**2*b+b**2*c+c**2*a-3*a*b*c', 'a b c', 'a b c', ''), ('-a**2', 'a', 'a', ''), ('a**3-3*a+2', 'a', 'a', ''), ('x**2*y+y**2*z+z**2*x-3*x*y*z', 'y z x', 'x y z', ''),
    ('a**2+b**2-2*c', 'a b c', '', 'a*b-c'), ('a+b+c-3', 'a b c', 'a b c', 'a*b*c-1'), ('a**2+b**2+c**2+d**2-a*b-b*c-c*d-d*a', 'a b c d', '', ''),
]
_fresh = {}


def solve_real(i, via, method):
    from .. import oracle as O
    m = module()
    t, gens, ineq, eq = REAL[i]
    gl = sp.symbols(gens + ' ')
    gl = tuple(gl) if isinstance(gl, (tuple, list)) else (gl,)
    p = sp.Poly(sp.sympify(t), *gl)
    ine, eqs = [sp.sympify(x) for x in ineq.split()], [sp.sympify(x) for x in eq.split()]
    mo = None if method == 'all' else [method]
    with contextlib.redirect_stdout(io.StringIO()):
        if via == 'single':
            s = m.sum_of_squares(p, list(ine), list(eqs), method_order=mo)
            ok, me = s is not None, None if s is None else s.method
        else:
            df = m.sum_of_squares_multiple([p], list(ine), list(eqs), method_order=mo or DEFAULT, verbose_progress=False, save_result=False)
            r = df.iloc[0]
            s, ok, me = r['solution'], r['status'] == 'success', r['method']
    bad = None
    if s is not None:
        try:
            bad = O.Certificate(p, ine, eqs, s.solution).check_identity(3)
        except KeyError as e:
            bad = 'foreign symbol %s in %s' % (e, s.solution)
    return ok, me, bad


def run_real(ctx, case):
    hist, method = case
    res = []
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import pickle
            out = [solve_real(i, v, method) for i, v in hist]
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    import pickle
    if not ctx.require(bool(data), 'the sequence %s crashed' % (case,)):
        return
    res = pickle.loads(data)
    ctx.step(len(res))
    # each problem alone
    for key in sorted({(i, method) for i, _ in hist}):
        if key in _fresh:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.write(w, pickle.dumps(solve_real(key[0], 'single', method)))
            finally:
                os._exit(0)
        os.close(w)
        data = os.read(r, 65536)
        os.close(r)
        os.waitpid(pid, 0)
        _fresh[key] = pickle.loads(data) if data else None
    for k, (i, v) in enumerate(hist):
        label = 'problem %s (%s, %s) after %s' % (REAL[i][:1], method, v, [(REAL[q][0], w) for q, w in hist[:k]])
        ctx.require(res[k][2] is None, lambda: '%s: %s' % (label, res[k][2]))
        ctx.equal(res[k], _fresh[(i, method)], label)
        ctx.outcome('solved' if res[k][0] else 'unsolved')


def tour(n):
    """an Eulerian circuit of the complete digraph with loops: every ordered pair occurs as consecutive problems"""
    left = {i: list(range(n))[::-1] for i in range(n)}
    stack, out = [0], []
    while stack:
        u = stack[-1]
        if left[u]:
            stack.append(left[u].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def cases_real(tier):
    q = tier == 'quick'
    T = tour(len(REAL))
    out = []
    size = 16
    for vi, vs in enumerate([('single',), ('multi', 'single')] if q else [('single',), ('multi', 'single'), ('single', 'multi'), ('multi',)]):
        for m in ['all'] + (METHODS if not q or not vi else []):
            if q and m != 'all':
                seq = list(range(len(REAL))) + list(range(len(REAL)))[::-1]
                out.append([[(i, vs[k % len(vs)]) for k, i in enumerate(seq)], m])
                continue
            for s in range(0, len(T) - 1, size):
                out.append([[(i, vs[k % len(vs)]) for k, i in enumerate(T[s:s + size + 1])], m])
    return out


def families(tier):
    return [
        Family('single', cases_single(tier), run_single, chunk=20, timeout=60, share=2, bound='all method orders of up to 4 provers x all outcome sequences; all constraint/config notations'),
        Family('batch', cases_batch(tier), run_batch, chunk=10, timeout=60, share=3, bound='all batches of up to 3 (4) lines over 5 kinds x outcome scripts; sources, saving, configs'),
        Family('histories', cases_history(tier), run_history, chunk=6, timeout=60, share=3, bound='all sequences of up to 2 (3) driver calls over %d kinds, then default calls' % len(OPS)),
        Family('real', cases_real(tier), run_real, chunk=1, timeout=200, share=4, bound='all ordered pairs of %d problems through the real provers' % len(REAL)),
    ]
