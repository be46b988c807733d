"""C18: SDP transformations keep parent and child problems consistent."""
import contextlib
import io
import itertools
from fractions import Fraction as F

import sympy as sp

from ..core import Family
from .. import sdpmodel as M
from .c16 import rank, rref

TITLE = 'SDP transformations keep parent and child problems consistent'
BUDGET = {'quick': 120, 'thorough': 1200}
HANG = True    # cases take a second at most: one that never ends is reported
a, b, c, t, u, w = sp.symbols('a b c t u w')
R = sp.Rational

DUAL = [
    [[[a]]],
    [[[1, a], [a, 1]]],
    [[[a, b], [b, 1]]],
    [[[0, a], [a, b]]],
    [[[a, b], [b, 2]], [[1 - a, b], [b, 1]]],
    [[[a, b, 0], [b, 1, a], [0, a, 2]]],
    [[[1, 0], [0, 2]]],
    [[[0, 0, a], [0, b, 0], [a, 0, 0]]],
    [[[a]], [[b]], [[2 - a - b]]],
    [[[a, a], [a, a]], [[b + 1, 0], [0, 1 - b]]],
    [[[a + b, 1, 0], [1, 2, b], [0, b, a]], [[c]]],
    [[[a, 0, b], [0, a, c], [b, c, 1]]],
    [[[0, 0], [0, 0]], [[a, b], [b, a]]],
    [[[a / 2 + R(1, 3), b], [b, R(3, 2) - a]]],
    [[[a - b, 0], [0, b]], [[a, 0, 0], [0, 0, 0], [0, 0, b]]],
    [[[a + b]]],
    [[[a + b, 0], [0, 1]], [[a + b]]],
    [[[a, b], [b, c]]],
    [[[a, b, c], [b, t, u], [c, u, w]]],
    [[[a, b, c], [b, 1, u], [c, u, 2 - a]], [[t, b], [b, 1]]],
    # zero diagonals whose rows determine unknowns
    [[[0, a - 1], [a - 1, b]]],
    [[[0, a + b - 2, 0], [a + b - 2, b, 1], [0, 1, a]]],
    [[[0, a - 1], [a - 1, b]], [[2 - b, a], [a, 1]]],
    [[[0, a - 1, c + 2], [a - 1, b, a], [c + 2, a, 1 - c]]],
    [[[a - b, a - 1], [a - 1, b]], [[0, a - b], [a - b, c]]],
    [[[0, a - 1], [a - 1, 3]], [[0, b + a], [b + a, 1 - b]]],
]
NONSYM = [
    [[[1, a], [b, 1]]],
    [[[a, b], [1, 2]]],
    [[[a, b, 1], [c, 1, 0], [1, b, 2]]],
    [[[1, a], [a + 1, 1]]],
    [[[a]], [[1, b], [a, 1]]],
]
# primal: (x0, {size: rows of the constraint matrix per block})
PRIMAL = [
    ([1], [[[1]]]),
    ([2], [[[1, 0, 0, 1]]]),
    ([1, 1], [[[1, 0, 0, 0], [0, 0, 0, 1]]]),
    ([0, 2], [[[1, 0, 0, 0], [0, 0, 0, 1]]]),
    ([0, 1], [[[1, 0, 0, 1], [0, 0, 0, 0]], [[0], [1]]]),
    ([1, 0], [[[1, 0, 0, 0], [0, 1, 1, 0]], [[1], [-1]]]),
    ([3], [[[1, 0, 0, 0, 1, 0, 0, 0, 1]]]),
    ([0, 1], [[[1, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0, 0, 0]]]),
    ([2, 0], [[[1, 1, 1, 1], [1, 0, 0, -1]]]),
    ([0, 0, 2], [[[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0]], [[0, 0, 0, 0], [-1, 0, 0, 0], [0, 0, 0, 1]]]),
    ([1], [[[0, 2, 0, 0]]]),
    ([2, 1], [[[1, 0, 1, 1], [0, 3, 1, 0]]]),
    ([0, 1], [[[1, 1, 0, 0], [0, 0, 0, 1]]]),
    ([0, 1], [[[1, 0, 1, 0], [0, 0, 0, 1]]]),
    ([0, 1], [[[1, 1, -1, 0], [0, 0, 0, 1]]]),
    ([0, 1, 0], [[[1, 0, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0]], [[0], [0], [1]]]),
    ([0, 1], [[[-1, 0, 0, 0], [0, 0, 0, 1]], [[-1], [0]]]),
    ([0, 2], [[[1, 0, 0, -1], [1, 0, 0, 1]]]),
]

VECS = {1: ['e0', '0', ''], 2: ['e0', 'e1', '11', '1-', '12', 'I', '0', ''], 3: ['e0', 'e2', '111', '1-0', 'e0e1', '120', 'I', '0', '']}


def mat(code, n):
    cols = {'0': [[0] * n], '': [], 'e0': [[1] + [0] * (n - 1)], 'e1': [[0, 1] + [0] * (n - 2)], 'e2': [[0, 0, 1]], '11': [[1, 1]], '1-': [[1, -1]], '12': [[1, 2]], '111': [[1, 1, 1]], '1-0': [[1, -1, 0]],
            'e0e1': [[1, 0, 0], [0, 1, 0]], '120': [[1, 2, 0], [2, 4, 0]], 'I': [[int(i == j) for j in range(n)] for i in range(n)]}[code]
    return sp.Matrix(n, len(cols), lambda i, j: cols[j][i])


def build(case):
    from triples.sdp import SDPProblem, SDPPrimal
    kind, i = case
    if kind == 'dual':
        ms = {'K%d' % j: sp.Matrix(m) for j, m in enumerate(DUAL[i])}
        return SDPProblem.from_matrix(ms)
    if kind == 'nonsym':
        return SDPProblem.from_matrix({'K%d' % j: sp.Matrix(m) for j, m in enumerate(NONSYM[i])})
    x0, sps = PRIMAL[i]
    return SDPPrimal(sp.Matrix(x0), {'K%d' % j: sp.Matrix(m) for j, m in enumerate(sps)})


def null_eqs(view, mats):
    """S_k V_k = 0"""
    out = []
    for k, V in mats.items():
        n = view.dim_of(k)
        V = M.rows(V)
        for q in range(len(V[0]) if V else 0):
            for i in range(n):
                row, cst = [F(0)] * view.n, F(0)
                for j in range(n):
                    if V[j][q]:
                        r, c0 = view.entry(k, i, j)
                        row = [x + V[j][q] * y for x, y in zip(row, r)]
                        cst += V[j][q] * c0
                out.append((row, -cst))
    return out


def complement(mats, view):
    """orthogonal complement of column spaces (own elimination)"""
    out = {}
    for k, U in mats.items():
        n = view.dim_of(k)
        Rw = M.rows(U.T) if U.shape[1] else []
        rr, piv = rref(Rw) if Rw else ([], [])
        cols = []
        for f in [j for j in range(n) if j not in piv]:
            v = [F(0)] * n
            v[f] = F(1)
            for r, p in zip(rr, piv):
                v[p] = -r[f]
            cols.append(v)
        out[k] = sp.Matrix(n, len(cols), lambda i, j: M.rat(cols[j][i]))
    return out


def zero_diag_eqs(view):
    """rows and columns whose diagonal entry vanishes identically are zero, repeated until nothing new appears (dual)"""
    extra = []
    masked = set()
    while True:
        aff = view.affine(extra)
        if aff is None:
            return [([F(0)] * view.n, F(1))]     # no solution at all
        p, dirs = aff
        new = set()
        for k in view.keys:
            for i in range(view.dim_of(k)):
                if (k, i) in masked:
                    continue
                r, c0 = view.entry(k, i, i)
                if sum((x * y for x, y in zip(r, p)), c0) == 0 and all(sum((x * y for x, y in zip(r, d)), F(0)) == 0 for d in dirs):
                    new.add((k, i))
        if not new:
            return extra
        masked |= new
        for k, i in new:
            for j in range(view.dim_of(k)):
                for e in ((i, j), (j, i)):
                    r, c0 = view.entry(k, *e)
                    extra.append((r, -c0))


def apply(node, view, op):
    """(thunk on the real code, equations the reference imposes or None when only soundness can be predicted, ok_to_refuse)"""
    name = op[0]
    sizes = {k: view.dim_of(k) for k in view.keys}
    if name in ('null', 'col'):
        codes = op[1]
        mats = {k: mat(codes[min(i, len(codes) - 1)] if codes[min(i, len(codes) - 1)] in VECS.get(n, ()) else '', n) for i, (k, n) in enumerate(sizes.items())}
        if name == 'null':
            return (lambda: node.constrain_nullspace(dict(mats))), null_eqs(view, mats)
        if all(m.is_zero_matrix or m.shape[1] == 0 for m in mats.values()):
            return None, None     # an empty column space is documented as nothing to do
        return (lambda: node.constrain_subspace(dict(mats))), null_eqs(view, complement(mats, view))
    if name == 'sym':
        eqs = []
        for k, n in sizes.items():
            for i in range(n):
                for j in range(i):
                    r1, c1 = view.entry(k, i, j)
                    r2, c2 = view.entry(k, j, i)
                    eqs.append(([x - y for x, y in zip(r1, r2)], c2 - c1))
        return (lambda: node.constrain_symmetry()), eqs
    if name == 'eq':
        ents, eqs = {}, []
        for k, n in sizes.items():
            L = []
            for (i, j), (p, q) in op[1]:
                if max(i, j, p, q) < n:
                    L.append(((i, j), (p, q)))
                    r1, c1 = view.entry(k, i, j)
                    r2, c2 = view.entry(k, p, q)
                    eqs.append(([x - y for x, y in zip(r1, r2)], c2 - c1))
            ents[k] = L
        return (lambda: node.constrain_equal_entries(ents)), eqs
    if name == 'zero':
        return (lambda: node.constrain_zero_diagonals()), (zero_diag_eqs(view) if view.dual else None)
    if name == 'dual':
        return (lambda: node.to_dual()), []
    raise KeyError(name)


VALS = [F(0), F(1), F(-1), F(2)]


def lattice(aff):
    d = len(aff[1])
    vals = VALS if d <= 2 else (VALS[:3] if d == 3 else VALS[:2] if d <= 6 else VALS[:1])
    return M.points(aff, vals)


def check_graph(ctx, tree, label):
    """own tree vs the reported graph; tree: list of (node, parent index)"""
    for i, (node, p) in enumerate(tree):
        kids = [n for n, q in tree if q == i]
        got = node.children
        ctx.require(len(got) == len(kids) and all(x is y for x, y in zip(got, kids)), lambda: '%s: node %d reports %d children, %d were derived' % (label, i, len(got), len(kids)), key='graph')
        par = [tree[p][0]] if p is not None else []
        got = node.parents
        ctx.require(len(got) == len(par) and all(x is y for x, y in zip(got, par)), lambda: '%s: node %d reports %d parents' % (label, i, len(got)), key='graph')
        j = i
        while True:
            ks = [q for q, (_, w) in enumerate(tree) if w == j]
            if not ks:
                break
            j = ks[-1]
        ctx.require(node.get_last_child() is tree[j][0], lambda: '%s: last child of node %d is not the latest leaf' % (label, i), key='graph')
    with contextlib.redirect_stdout(io.StringIO()):
        tree[0][0].print_graph()


def run_ops(ctx, case):
    root, ops = case
    node = build(root)
    tree = [(node, None)]
    views = [M.View(node)]
    eqs_of = [None]
    for op in ops:
        target = 0 if op[-1] == 'root' else len(tree) - 1
        parent, view = tree[target][0], views[target]
        if not view.dual and op[0] in ('eq', 'col') or view.dual and op[0] == 'dual':
            ctx.trivial()
            return
        if view.dual and op[0] != 'sym' and any(not M.symmetric(m) for y in M.points(view.affine(), [F(0), F(1)]) for m in view.blocks(y).values()):
            ctx.trivial()
            return
        thunk, eqs = apply(parent, view, op)
        if thunk is None:
            ctx.trivial()
            return
        label = '%s %s' % (root, ops)
        aff = view.affine(eqs or ())
        before = list(parent._transforms)
        ctx.step()
        try:
            child = thunk()
        except ValueError as e:
            # the only documented refusal: the constraints have no solution
            ctx.require(aff is None, lambda: '%s: refused (%s) although the constrained problem has solutions' % (label, str(e)[:200]))
            ctx.require(len(parent._transforms) == len(before), '%s: a refused transformation left a trace in the graph' % label)
            ctx.outcome('refused')
            return
        if aff is None:
            # dual problems solve the equations at once; primal ones only record them
            if view.dual:
                ctx.fail('%s: the constraints are inconsistent but a child was created' % label)
                return
            ctx.outcome('inconsistent-primal')
            return
        if child is parent:
            if view.dual or op[0] == 'sym':
                now = M.View(parent)
                ctx.require(len(aff[1]) == len(view.affine()[1]), lambda: '%s: returned the same problem although the constraints are not implied by it' % label)
                ctx.require(now.n == view.n and len(now.affine()[1]) == len(view.affine()[1]), lambda: '%s: the problem itself changed' % label)
                views[target] = now
            continue
        # removing zero diagonals may take several steps: every intermediate problem is a node of its own
        steps = [child]
        while op[0] == 'zero' and len(steps) < 6 and len(steps[0].parents) == 1 and steps[0].parents[0] is not parent:
            steps.insert(0, steps[0].parents[0])
        for node in steps:
            tree.append((node, target))
            views.append(M.View(node))
            eqs_of.append(eqs)
            eqs, target = None if node is not child else eqs, len(tree) - 1
        eqs = eqs_of[-len(steps)]
        cv = views[-1]
        if eqs is not None and cv.keys:      # without blocks left the remaining unknowns are arbitrary
            ca = cv.affine()
            ctx.require(ca is not None and len(ca[1]) == len(aff[1]), lambda: '%s: the child has %s degrees of freedom, the constrained parent %d' % (label, ca and len(ca[1]), len(aff[1])))
        ctx.state((case[0], op[0], cv.n, sorted((k, cv.dim_of(k)) for k in cv.keys)))
    check_graph(ctx, tree, str(case))
    # every exact value assigned to the last node reaches its ancestors
    leaf, lv = tree[-1][0], views[-1]
    chain = []
    i = len(tree) - 1
    while i is not None:
        chain.append(i)
        i = tree[i][1]
    aff = lv.affine()
    if aff is None:
        ctx.outcome('infeasible')
        return
    seen = []
    for z in lattice(aff):
        ok = lv.is_psd(z)
        ctx.step()
        for n, _ in tree:
            n.y = n.S = n.decompositions = None
        try:
            leaf.register_y(M.col(z))
        except ValueError as e:
            ctx.require(not ok, lambda: '%s: z=%s is feasible for the child but was refused: %s' % (case, z, str(e)[:200]))
            ctx.require(all(n.y is None for n, _ in tree), lambda: '%s: z=%s refused, yet a solution was recorded' % (case, z))
            continue
        ctx.require(ok, lambda: '%s: z=%s is not feasible for the child but was accepted' % (case, z))
        if not ok:
            continue
        ctx.equal(M.vec(leaf.y), z, '%s: y of the child' % (case,))
        below = None
        for i in chain:
            node, view = tree[i][0], views[i]
            if node.y is None:
                ctx.fail('%s: the solution z=%s did not reach ancestor %d' % (case, z, i))
                break
            y = M.check_state(ctx, node, view, '%s z=%s node %d' % (case, z, i))
            if below is not None and eqs_of[below]:
                ctx.require(view.satisfied(y, eqs_of[below]), lambda: '%s z=%s: y=%s of node %d does not satisfy the imposed constraints' % (case, z, y, i))
            below = i
            top = y
        others = [j for j in range(len(tree)) if j not in chain]
        ctx.require(all(tree[j][0].y is None for j in others), lambda: '%s: a sibling branch was given a value' % (case,))
        seen.append((z, top))
        if len(ctx.fails) > 3:
            return
    ctx.outcome('lifted' if seen else 'no-feasible-grid-point')
    complete(ctx, case, tree, views, eqs_of, chain, seen, lv)


def complete(ctx, case, tree, views, eqs_of, chain, seen, lv):
    """every feasible point of the root that satisfies all imposed constraints is the image of a feasible child point
    (decided when the registered points determine the affine correspondence; single step only)"""
    if len(chain) != 2 or not seen or not lv.keys:
        return
    d = len(lv.affine()[1])
    basis, pts = [], []
    for z, y in seen:
        cand = basis + [[p - q for p, q in zip(z, seen[0][0])]]
        if z is seen[0][0] or rank(cand) == len(cand):
            if z is not seen[0][0]:
                basis = cand
            pts.append((z, y))
    if len(basis) != d:
        return
    rv = views[chain[1]]
    raff = rv.affine(eqs_of[chain[0]] or ())
    if raff is None:
        return
    z0, y0 = pts[0]
    for y in lattice(raff):
        if not rv.is_psd(y):
            continue
        dy = [p - q for p, q in zip(y, y0)]
        cols = [[p - q for p, q in zip(yy, y0)] for _, yy in pts[1:]]
        aug = [[cc[i] for cc in cols] + [dy[i]] for i in range(len(dy))]
        rr, piv = rref(aug) if aug else ([], [])
        if len(cols) in piv:
            ctx.fail('%s: the feasible point y=%s of the parent is not the image of any child point' % (case, y))
            return
        w = [F(0)] * len(cols)
        for r, p in zip(rr, piv):
            w[p] = r[-1]
        z = [p + sum((wi * (zz[i] - z0[i]) for wi, (zz, _) in zip(w, pts[1:])), F(0)) for i, p in enumerate(z0)]
        ctx.step()
        try:
            tree[chain[0]][0].register_y(M.col(z))
        except ValueError:
            ctx.fail('%s: the feasible point y=%s of the parent corresponds to z=%s, which the child refuses' % (case, y, z))
            return
        ctx.equal(M.vec(tree[chain[1]][0].y), y, '%s: lifting z=%s' % (case, z))


EQS = [[((0, 0), (1, 1))], [((0, 1), (0, 0))], [((0, 0), (0, 0))], [((0, 0), (1, 1)), ((1, 1), (2, 2))], [((0, 1), (1, 0))]]


def alphabet(q):
    codes = [['e0'], ['e1'], ['11'], ['1-'], ['12'], ['I'], ['0'], [''], ['e2'], ['111'], ['1-0'], ['e0e1'], ['120'], ['e0', ''], ['', 'e0'], ['1-', 'e0'], ['e1', '11'], ['I', '']]
    ops = [['null', x] for x in codes] + [['col', x] for x in codes] + [['sym'], ['zero'], ['dual']] + [['eq', e] for e in EQS]
    return ops


def roots():
    return [['dual', i] for i in range(len(DUAL))] + [['nonsym', i] for i in range(len(NONSYM))] + [['primal', i] for i in range(len(PRIMAL))]


def roots_sym():
    return [r for r in roots() if r[0] != 'nonsym']


def cases_ops(tier):
    q = tier == 'quick'
    A = alphabet(q)
    out = []
    for r in roots():
        for op in A:
            out.append([r, [op]])
    short = [['null', ['e0']], ['null', ['1-']], ['null', ['', 'e0']], ['col', ['e1']], ['col', ['111']], ['sym'], ['zero'], ['dual'], ['eq', EQS[0]], ['null', ['']], ['null', ['I', '']]]
    for r in roots():
        for o1, o2 in itertools.product(short, repeat=2):
            out.append([r, [o1, o2]])
            if (not q or o1[0] != 'null') and o1 != o2:
                out.append([r, [o1, o2 + ['root']]])
    if not q:
        for r in roots():
            for o in itertools.product(short, repeat=3):
                out.append([r, list(o)])
    else:
        for r in roots():
            for o in itertools.product([short[1], short[5], short[6], short[7], short[8]], repeat=3):
                out.append([r, list(o)])
    return out


# ------------------------------------------------------------------ nullspaces given for the root, applied to its last descendant
def run_tochild(ctx, case):
    root, first, codes = case
    node = build(root)
    view = M.View(node)
    if not view.dual and first[0] in ('eq', 'col') or view.dual and first[0] == 'dual':
        ctx.trivial()
        return
    thunk, eqs1 = apply(node, view, first)
    if thunk is None or eqs1 is None and view.dual:
        ctx.trivial()
        return
    try:
        child = thunk()
    except ValueError:
        ctx.trivial()
        return
    sizes = {k: view.dim_of(k) for k in view.keys}
    mats = {k: mat(codes[0] if codes[0] in VECS.get(n, ()) else '', n) for k, n in sizes.items()}
    both = (eqs1 or []) + null_eqs(view, mats)
    aff = view.affine(both)
    ctx.step()
    try:
        leaf = node.constrain_nullspace(dict(mats), to_child=True)
    except ValueError as e:
        ctx.require(aff is None, lambda: '%s: refused (%s) although solutions exist' % (case, str(e)[:200]))
        return
    lv = M.View(leaf)
    la = lv.affine()
    if aff is None:
        ctx.require(la is None or first[0] == 'zero' or not lv.dual, '%s: inconsistent constraints accepted' % (case,))
        return
    if eqs1 is not None and la is not None and lv.keys:
        ctx.require(len(la[1]) == len(aff[1]), lambda: '%s: %d degrees of freedom, expected %d' % (case, len(la[1]), len(aff[1])))
    ctx.require(node.get_last_child() is leaf, '%s: the derived problem is not the last child' % (case,))
    if la is None:
        return
    n = 0
    for z in lattice(la):
        if not lv.is_psd(z):
            continue
        ctx.step()
        node.y = None
        leaf.register_y(M.col(z))
        if not ctx.require(node.y is not None, '%s: z=%s did not reach the root' % (case, z)):
            return
        y = M.check_state(ctx, node, view, '%s z=%s root' % (case, z))
        ctx.require(view.satisfied(y, both), lambda: '%s z=%s: y=%s of the root does not satisfy all constraints' % (case, z, y))
        n += 1
        if len(ctx.fails) > 3:
            return
    ctx.outcome('lifted' if n else 'none')


def cases_tochild(tier):
    firsts = [['null', ['e0']], ['null', ['1-']], ['null', ['']], ['null', ['1-0']], ['null', ['111']], ['null', ['120']], ['col', ['e0e1']], ['col', ['11']], ['zero'], ['sym'], ['dual'], ['eq', EQS[0]]]
    return [[r, f, [x]] for r in roots() if r[0] != 'nonsym' for f in firsts for x in ('e0', 'e1', 'e2', '1-', '12', '111', '1-0', '120', 'I', '0', '')]


# ------------------------------------------------------------------ parameters
PARAM = [
    ([[t]], [[1]], 1), ([[1], [t], [t], [1]], [[1], [0], [0], [0]], 1), ([[t], [u], [u], [1]], [[0], [0], [0], [0]], 1),
    ([[2], [t - 1], [t - 1], [u]], [[1, 0], [0, 1], [0, 1], [0, 0]], 2), ([[t + u], [1], [1], [2 * t]], [[0], [1], [1], [0]], 1), ([[1], [0], [0], [1]], [[1], [0], [0], [2]], 1),
]


def run_param(ctx, case):
    from triples.sdp import SDPProblem
    i, chain = case
    x0, space, dof = PARAM[i]
    node = SDPProblem({'K': (sp.Matrix(x0), sp.Matrix(space))})
    ps = sorted(sp.Matrix(x0).free_symbols, key=str)
    n = int(len(x0) ** .5 + .5)
    if chain:
        node.constrain_nullspace({'K': mat('', n)}, to_child=True)
    ctx.step()
    child = node.deparametrize()
    if not ps:
        ctx.require(child is node, 'a problem without parameters must stay as it is')
        return
    ctx.equal(len(child.free_symbols), dof + len(ps), 'degrees of freedom')
    ctx.equal(set(child.free_symbols), set(node.free_symbols) | set(ps), 'unknowns of the deparametrised problem')
    cv = M.View(child)
    for z in itertools.product(VALS, repeat=dof + len(ps)):
        env = dict(zip(child.free_symbols, map(M.rat, z)))
        want = (sp.Matrix(x0) + sp.Matrix(space) * sp.Matrix(dof, 1, node.free_symbols)).subs(env).reshape(n, n)
        ctx.equal(M.rows(child.S_from_y(M.col(z))['K']), M.rows(want), 'block of the deparametrised problem at %s' % (z,))
        node.y = child.y = None
        try:
            child.register_y(M.col(z))
        except ValueError:
            ctx.require(not cv.is_psd(z), '%s: refused' % (z,))
            continue
        ctx.require(cv.is_psd(z), 'accepted %s' % (z,))
        ctx.equal(M.vec(node.y), [M.fr(env[s]) for s in node.free_symbols], 'parent unknowns')
        ctx.equal(M.rows(node.S['K']), M.rows(want), 'parent block')
        if len(ctx.fails) > 3:
            return
    ctx.outcome('ok')


def families(tier):
    return [
        Family('operations', cases_ops(tier), run_ops, chunk=8, timeout=60, share=6, bound='%d problems (dual, nonsymmetric, primal; 1-3 blocks of size 1-3) x all operations, all pairs of 11 operations (on the last node or the root), triples' % len(roots())),
        Family('to-child', cases_tochild(tier), run_tochild, chunk=8, timeout=60, share=2, bound='a first transformation x a nullspace given in terms of the root'),
        Family('parameters', [[i, c] for i in range(len(PARAM)) for c in (0, 1)], run_param, chunk=1, timeout=60, share=0.5, bound='6 parametrised problems'),
    ]
