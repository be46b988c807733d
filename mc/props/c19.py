"""C19: SDP results are exact feasible points whatever the numeric backend answers."""
import itertools
from fractions import Fraction as F

import numpy as np
import sympy as sp

from ..core import Family
from .. import sdpmodel as M
from .. import sdpscript as SS
from . import c18

TITLE = 'SDP results are exact feasible points whatever the numeric backend answers'
BUDGET = {'quick': 130, 'thorough': 1200}
HANG = True    # cases take a second at most: one that never ends is reported
a, b, c = sp.symbols('a b c')

INFEASIBLE = [
    [[[-1]]], [[[a]], [[-a - 1]]], [[[a, 1], [1, -a]]], [[[0, 1], [1, a]]], [[[1, 2], [2, 1]]], [[[a, b], [b, 1]], [[-a - b * 2 - 3]], [[b]]], [[[1, a], [a, 1]], [[a - 2]]],
]
BOUNDARY = [[[[1 - a, 0], [0, a - 1]]], [[[a, 1], [1, b]], [[2 - a - b]]], [[[a, a], [a, 1]], [[a - 1]]], [[[3 * a - 1]], [[1 - 3 * a]]], [[[2, a], [a, 1]], [[a - 1]]]]
PRIMAL_X = [
    ([-1], [[[1]]]), ([1, 2], [[[1], [1]]]), ([1, 1, 5], [[[1, 0, 0, 0], [0, 0, 0, 1], [0, 1, 1, 0]]]), ([1, 1, 2], [[[1, 0, 0, 0], [0, 0, 0, 1], [0, 1, 1, 0]]]), ([0, 1], [[[1, 0, 0, 0], [0, 1, 1, 0]]]),
    ([1, 2, 3], [[[1, 0, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0]]]), ([1, 2, 3, 4, 5], [[[1, 0, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0], [0, 0, 1, 0], [1, 1, 1, 1]]]),
    ([1, 1, 0, 0], [[[1, 0, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0], [0, 0, 1, 0]]]), ([2, 2, 1, 1, 7], [[[1, 0, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0], [0, 0, 1, 0], [1, 1, 1, 1]]]),
]


def make(root):
    from triples.sdp import SDPProblem, SDPPrimal
    kind, i = root
    if kind in ('inf', 'bnd'):
        L = INFEASIBLE if kind == 'inf' else BOUNDARY
        return SDPProblem.from_matrix({'K%d' % j: sp.Matrix(m) for j, m in enumerate(L[i])})
    if kind == 'pinf':
        x0, sps = PRIMAL_X[i]
        return SDPPrimal(sp.Matrix(x0), {'K%d' % j: sp.Matrix(m) for j, m in enumerate(sps)})
    return c18.build(root)


def interior(view):
    """a strictly feasible rational point of the lattice, own search (positive leading minors)"""
    aff = view.affine()
    if aff is None:
        return None
    from .c06 import det
    for y in c18.lattice(aff):
        B = view.blocks(y)
        if all(M.symmetric(m) and all(det([r[:k] for r in m[:k]]) > 0 for k in range(1, len(m) + 1)) for m in B.values()):
            return y
    return None


def is_exact(node):
    return node.y is not None and all(sp.sympify(v).is_Rational for v in node.y) and all(sp.sympify(x).is_Rational for S in node.S.values() for x in S) \
        and all(sp.sympify(x).is_Rational for D in node.decompositions.values() for m in D for x in m)


def check_numeric(ctx, node, label):
    for k, S in node.S.items():
        n = S.shape[0]
        D = node.decompositions[k]
        ok = len(D) == 2
        if ok and n:
            U, d = np.array(D[0]).astype(float), np.array(list(D[1])).astype(float)
            Sn = np.array(S).astype(float)
            ok = U.shape == (d.size, n) and (d >= -1e-12).all() and np.abs(U.T @ np.diag(d.flatten()) @ U - Sn).max() <= 1e-4 * (1 + np.abs(Sn).max())
        ctx.require(ok, lambda: '%s: numerical decomposition of %s does not reproduce it: %s vs %s' % (label, k, D, S))


def run_solve(ctx, case):
    root, pre, opts, script = case
    node = make(root)
    view = M.View(node)
    tree = [(node, view)]
    leaf = node
    if pre:
        thunk, _ = c18.apply(node, view, pre)
        try:
            leaf = thunk()
        except ValueError:
            ctx.trivial()
            return
        if leaf is not node:
            tree.append((leaf, M.View(leaf)))
    allow = opts.get('allow_numer', 0)
    log = []
    label = '%s after %s, %s, answers %s' % (root, pre, opts, script)
    res = None
    with SS.scripted(script, log):
        ctx.step()
        try:
            res = node.solve(**opts)
        except Exception as e:
            ctx.outcome('raised-' + type(e).__name__)
    ctx.step(len(log))
    if res is None or res is False:
        ctx.require(allow > 0 or all(n.y is None for n, _ in tree), lambda: '%s: no success reported (%s), yet a solution was recorded' % (label, ctx.out))
        ctx.outcome(ctx.out or 'unsolved')
    else:
        ctx.require(res is True, lambda: '%s: returned %r' % (label, res))
        for n, v in tree:
            if not ctx.require(n.y is not None, '%s: solved but a node of the chain has no solution' % label):
                return
            if is_exact(n):
                M.check_state(ctx, n, v, label)
            else:
                ctx.require(allow > 0, lambda: '%s: an inexact solution was reported: y=%s' % (label, list(n.y)))
                if root[0] not in ('inf', 'pinf') and n is leaf and interior(v) is not None and script == ['good']:
                    check_numeric(ctx, n, label)
        ctx.outcome('solved')
        return
    if allow == 0 and set(script) <= {'good'} and not opts.get('objective') and all(interior(v) is not None for _, v in tree[-1:]):
        ctx.fail('%s: the (derived) problem has interior solutions and the backend answered accurately, but no solution was reported (%s)' % (label, ctx.out))


def roots():
    return c18.roots_sym() + [['inf', i] for i in range(len(INFEASIBLE))] + [['bnd', i] for i in range(len(BOUNDARY))] + [['pinf', i] for i in range(len(PRIMAL_X))]


def cases_solve(tier):
    q = tier == 'quick'
    out = []
    pres = [None, ['null', ['e0']], ['zero'], ['null', ['1-']], ['dual'], ['eq', c18.EQS[0]]]
    for r in roots():
        primal = r[0] in ('primal', 'pinf')
        for p in pres:
            if p and (p[0] == 'dual') and not primal or p and p[0] == 'eq' and primal:
                continue
            for s in SS.ANSWERS:
                out.append([r, p, {}, [s]])
            for n in (1, 2, 3):
                for s in (('good',) if q else ('good', 'noise-9', 'noise-3', 'neg', 'none')):
                    out.append([r, p, {'allow_numer': n}, [s]])
        for s in itertools.product(['none', 'noise-1', 'neg', 'nan', 'raise', 'huge', 'col'] if q else SS.ANSWERS, ['good', 'noise-3', 'neg', 'ones', 'col'] if q else SS.ANSWERS):
            out.append([r, None, {}, list(s)])
        if not q:
            for s in itertools.product(['none', 'noise-1', 'neg', 'nan', 'good'], repeat=3):
                out.append([r, None, {}, list(s)])
    return out


# ------------------------------------------------------------------ rationalisation of given vectors
def run_rationalize(ctx, case):
    root, y, opt = case
    from triples.sdp import rationalize as RZ
    node = make(root)
    view = M.View(node)
    arr = np.array([float(F(v)) for v in y])
    rz = {'mask': [RZ.RationalizeWithMask()], 'sim': [RZ.RationalizeSimultaneously([1, 1260, 1260**3])], 'both': [RZ.RationalizeWithMask(), RZ.RationalizeSimultaneously()], 'none': []}[opt[0]]
    ctx.step()
    try:
        res = node.rationalize(arr, rationalizers=rz, check_pretty=opt[1])
    except ValueError:
        ctx.require(root[0] in ('pinf', 'inf'), lambda: 'feasible problem %s refuses to rationalise %s' % (root, y))
        ctx.outcome('refused')
        return
    if res is None:
        ctx.outcome('none')
        return
    yy, D = res
    yy = M.vec(yy)
    label = '%s rationalize %s %s' % (root, y, opt)
    ctx.require(view.satisfied(yy), lambda: '%s: %s does not satisfy the equations' % (label, yy))
    B = view.blocks(yy)
    ctx.require(set(D) == set(B), label + ': blocks')
    for k, m in B.items():
        S, U, d = D[k]
        ctx.require(M.symmetric(m) and M.psd(m), lambda: '%s: block %s is not positive semidefinite' % (label, m))
        if not m:
            continue
        ctx.equal(M.rows(S), m, label + ': block')
        U, d = M.rows(U), M.vec(d)
        ctx.require(all(x >= 0 for x in d) and all(sum((U[q][i] * d[q] * U[q][j] for q in range(len(d))), F(0)) == m[i][j] for i in range(len(m)) for j in range(len(m))), lambda: '%s: decomposition' % label)
    ctx.outcome('ok')


def cases_rationalize(tier):
    q = tier == 'quick'
    vals = ['0', '1', '-1', '1/3', '2', '1/1000000000', '12345/6789'] if not q else ['0', '1', '-1', '1/3', '12345/6789']
    out = []
    for r in roots():
        n = M.View(make(r)).n
        if not 0 < n <= (4 if not q else 3):
            continue
        for y in itertools.product(vals, repeat=n):
            for opt in (['mask', True], ['sim', True], ['both', False]):
                out.append([r, list(y), opt])
    return out


# ------------------------------------------------------------------ solutions given by hand
def run_register(ctx, case):
    root, pre, y, form = case
    node = make(root)
    leaf = node
    if pre:
        thunk, _ = c18.apply(node, M.View(node), pre)
        try:
            leaf = thunk()
        except ValueError:
            ctx.trivial()
            return
    view = M.View(leaf)
    if view.n != len(y):
        ctx.trivial()
        return
    y = [F(v) for v in y]
    col = M.col(y)
    if leaf.is_dual and form == 'dict':
        arg = dict(zip(leaf.free_symbols, col))
    elif leaf.is_dual and form == 'dict-reversed':
        arg = dict(list(zip(leaf.free_symbols, col))[::-1])
    elif form == 'row' and leaf.is_dual:
        arg = col.T
    elif form == 'array':
        arg = np.array([float(v) for v in y])
    elif form == 'array2' and all(v.denominator == 1 for v in y):
        arg = np.array([[int(v)] for v in y])
    elif form == 'col':
        arg = col
    else:
        ctx.trivial()
        return
    label = '%s after %s, registering %s as %s' % (root, pre, [str(v) for v in y], form)
    B = view.blocks(y)
    good = view.satisfied(y) and all(M.symmetric(m) and M.psd(m) for m in B.values())
    ctx.step()
    try:
        leaf.register_y(arg, project=False) if not leaf.is_dual and form == 'col' else leaf.register_y(arg)
        ok = True
    except ValueError:
        ok = False
    ctx.outcome('registered' if ok else 'refused')
    if leaf.is_dual or (form == 'col'):
        ctx.require(ok == good, lambda: '%s: %s although the matrices %s are %s' % (label, 'accepted' if ok else 'refused', B, 'fine' if good else 'not positive semidefinite or violate the equations'))
    if not ok:
        ctx.require(leaf.y is None and leaf.S is None and leaf.decompositions is None, lambda: '%s: refused, yet recorded' % label)
        ctx.require(node.y is None, lambda: '%s: refused, yet recorded in the root' % label)
        return
    if not good:
        return
    for n in ([node, leaf] if leaf is not node else [node]):
        if not ctx.require(n.y is not None, label + ': not propagated'):
            return
        v = M.View(n)
        if form == 'array':
            got = [float(t) for t in n.y]
            if n is leaf and leaf.is_dual:
                ctx.require(got == [float(t) for t in y], lambda: '%s: records %s' % (label, got))
            check_numeric(ctx, n, label)
        else:
            ctx.require(n is not leaf or not leaf.is_dual or M.vec(n.y) == y, lambda: '%s: records %s' % (label, list(n.y)))
            M.check_state(ctx, n, v, label)
            if n.is_dual:
                pars = n.as_params()
                ctx.require([M.fr(pars[t]) for t in n.free_symbols] == M.vec(n.y), lambda: '%s: as_params() = %s' % (label, pars))
                # another solution replaces it as a whole, a refused one changes nothing
                bad = sp.Matrix([-997 - 13 * i for i in range(v.n)])
                if v.n and not all(M.psd(m) for m in v.blocks(M.vec(bad)).values()):
                    try:
                        n.register_y(bad)
                        ctx.fail('%s: then accepts %s' % (label, list(bad)))
                    except ValueError:
                        pass
                    M.check_state(ctx, n, v, label + ' and refusing another')


def cases_register(tier):
    q = tier == 'quick'
    out = []
    for r in roots():
        for pre in (None, ['null', ['e0']], ['zero'], ['null', ['1-']]) if r[0] not in ('primal', 'pinf') else (None,):
            node = make(r)
            if pre:
                try:
                    node = c18.apply(node, M.View(node), pre)[0]()
                except ValueError:
                    continue
            n = M.View(node).n
            vals = ['0', '1', '-1', '2', '1/2'] if n <= 2 else ['0', '1', '1/2'] if n <= 4 else ['1']
            if not q and n <= 3:
                vals = ['0', '1', '-1', '2', '1/2', '-1/3', '100']
            for y in itertools.product(vals, repeat=n):
                for form in ('col', 'row', 'dict', 'dict-reversed', 'array', 'array2'):
                    out.append([r, pre, list(y), form])
    return out


def families(tier):
    return [
        Family('solve', cases_solve(tier), run_solve, chunk=6, timeout=60, share=6, bound='%d problems (feasible, boundary, infeasible; dual and primal) x transformations x all single answers of a 19-letter alphabet, pairs, numeric modes' % len(roots())),
        Family('register', cases_register(tier), run_register, chunk=16, timeout=60, share=2, bound='every vector over 5 values (3 beyond two unknowns) given by hand as column, row, mapping or array, to roots and derived problems'),
        Family('rationalize', cases_rationalize(tier), run_rationalize, chunk=16, timeout=60, share=2, bound='all vectors over 5-7 values for problems with up to 3-4 unknowns x rationalisers'),
    ]
