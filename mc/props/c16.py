"""C16: exact linear solvers return the complete affine solution set."""
import itertools
from fractions import Fraction as F

import sympy as sp

from ..core import Family

TITLE = 'exact linear solvers return exactly the affine solution set'
BUDGET = {'quick': 60, 'thorough': 900}
HANG = True    # cases take a second at most: one that never ends is reported


# ------------------------------------------------------------------ reference linear algebra (Fractions)
def rref(rows):
    rows = [list(r) for r in rows]
    piv = []
    r = 0
    ncol = len(rows[0]) if rows else 0
    for c in range(ncol):
        k = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        p = rows[r][c]
        rows[r] = [x / p for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                f = rows[i][c]
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
        if r == len(rows):
            break
    return rows[:r], piv


def rank(rows):
    return len(rref(rows)[1]) if rows and rows[0] else 0


def solvable(A, b, n):
    aug = [list(r) + [x] for r, x in zip(A, b)]
    return rank(aug) == (rank(A) if n else 0)


def tofrac(M):
    return [[F(int(x.p), int(x.q)) for x in M.row(i)] for i in range(M.rows)]


def matvec(A, x):
    return [sum((a * y for a, y in zip(r, x)), F(0)) for r in A]


def dec(x):
    return F(x)


def build(A, n, dom):
    m = len(A)
    M = sp.Matrix(m, n, [sp.Rational(x.numerator, x.denominator) for r in A for x in r])
    if dom != 'plain' and m * n:
        from sympy.polys.matrices import DomainMatrix
        dm = M._rep
        if dom == 'QQ':
            dm = dm.convert_to(sp.QQ)
        elif dom == 'dense':
            dm = dm.to_dense() if hasattr(dm, 'to_dense') else dm
        elif dom == 'sparse':
            dm = dm.to_sparse()
        M = sp.Matrix._fromrep(dm)
    return M


def check_sets(ctx, A, b, n, groups, fn, label, empty_ok=True):
    """fn() -> (x0, space) or raises ValueError; A, b reference data; groups: equal index groups"""
    rows = [list(r) for r in A]
    rhs = list(b)
    for g in groups:
        for i in g[1:]:
            row = [F(0)] * n
            row[g[0]], row[i] = F(1), F(-1)
            rows.append(row)
            rhs.append(F(0))
    ok = solvable(rows, rhs, n) if rows else True
    ctx.step()
    try:
        x0, space = fn()
    except ValueError as e:
        ctx.outcome('no-solution')
        ctx.require(not ok, lambda: '%s: solver says %r but the system has a solution' % (label, str(e)))
        return
    ctx.outcome('solved')
    if not ctx.require(ok, lambda: '%s: system has no solution but solver returned %s' % (label, x0.tolist())):
        return
    if not ctx.require(x0.shape == (n, 1) and space.rows == n, lambda: '%s: shapes %s %s' % (label, x0.shape, space.shape)):
        return
    x = [r[0] for r in tofrac(x0)]
    ctx.require(matvec(rows, x) == rhs, lambda: '%s: x0=%s does not solve the system' % (label, x))
    S = tofrac(space)
    cols = [[S[i][j] for i in range(n)] for j in range(space.cols)]
    for c in cols:
        ctx.require(all(v == 0 for v in matvec(rows, c)), lambda: '%s: direction %s leaves the solution set' % (label, c))
    want = n - (rank(rows) if rows else 0)
    got = rank(cols) if cols else 0
    ctx.require(got == want, lambda: '%s: returned directions span dimension %d, the solution space has dimension %d' % (label, got, want))
    ctx.require(len(cols) == want, lambda: '%s: %d directions returned for dimension %d' % (label, len(cols), want))
    ctx.state((tuple(map(tuple, S)), tuple(x)))


def run_undet(ctx, case):
    m, n, entries, bs, dom = case
    A = [[dec(entries[i * n + j]) for j in range(n)] for i in range(m)]
    from triples.sdp.arithmetic import solve_undetermined_linear
    M = build(A, n, dom)
    for b in itertools.product([dec(x) for x in bs], repeat=m):
        B = sp.Matrix(m, 1, [sp.Rational(x.numerator, x.denominator) for x in b])
        check_sets(ctx, A, b, n, [], lambda: solve_undetermined_linear(M, B), 'undetermined A=%s b=%s' % (A, b))
    ctx.require(tofrac(M) == A, 'input matrix was modified')


def run_csr(ctx, case):
    m, n, entries, bs, groups = case
    A = [[dec(entries[i * n + j]) for j in range(n)] for i in range(m)]
    from triples.sdp.arithmetic import solve_csr_linear
    M = build(A, n, 'plain')
    for b in itertools.product([dec(x) for x in bs], repeat=m):
        B = sp.Matrix(m, 1, [sp.Rational(x.numerator, x.denominator) for x in b])
        check_sets(ctx, A, b, n, groups, lambda: solve_csr_linear(M, B, [list(g) for g in groups]),
                   'csr A=%s b=%s equal=%s' % (A, b, groups))
    ctx.require(tofrac(M) == A, 'input matrix was modified')


def run_null(ctx, case):
    m, n, entries = case
    A = [[dec(entries[i * n + j]) for j in range(n)] for i in range(m)]
    from triples.sdp.arithmetic import solve_nullspace
    M = build(A, n, 'plain')
    ctx.step()
    N = solve_nullspace(M)
    # documented: N' A = 0, complete
    At = [[A[i][j] for i in range(m)] for j in range(n)]
    want = m - (rank(A) if m and n else 0)
    ctx.require(N.rows == m, 'nullspace has %d rows for %d' % (N.rows, m))
    S = tofrac(N)
    cols = [[S[i][j] for i in range(m)] for j in range(N.cols)]
    for c in cols:
        ctx.require(all(v == 0 for v in matvec(At, c)), lambda: 'A=%s: %s is not in the null space' % (A, c))
    ctx.require(len(cols) == want and (not cols or rank(cols) == want), lambda: 'A=%s: %d directions, expected %d' % (A, len(cols), want))
    ctx.state(tuple(map(tuple, S)))


def run_matrix_rhs(ctx, case):
    """B with several columns: every column is solved"""
    m, n, entries, B = case
    A = [[dec(entries[i * n + j]) for j in range(n)] for i in range(m)]
    from triples.sdp.arithmetic import solve_undetermined_linear
    M = build(A, n, 'plain')
    Bm = sp.Matrix(m, 2, [sp.Rational(x) for x in B])
    cols = [[F(x) for x in B[k::2]] for k in range(2)]
    ok = all(solvable(A, c, n) for c in cols)
    ctx.step()
    try:
        x0, space = solve_undetermined_linear(M, Bm)
    except ValueError:
        ctx.require(not ok, 'solver found no solution for A=%s B=%s' % (A, B))
        return
    if not ctx.require(ok, 'inconsistent system accepted A=%s B=%s' % (A, B)):
        return
    X = tofrac(x0)
    for k in range(2):
        ctx.require(matvec(A, [X[i][k] for i in range(n)]) == cols[k], lambda: 'A=%s B=%s: column %d of x0 wrong: %s' % (A, B, k, X))


def groupings(n, maxg=2):
    """all ways to declare disjoint groups of >=2 equal indices (as lists, order variations for the head)"""
    out = [[]]
    idx = list(range(n))
    for k in range(2, n + 1):
        for sub in itertools.combinations(idx, k):
            out.append([list(sub)])
            out.append([list(reversed(sub))])
            rest = [i for i in idx if i not in sub]
            for k2 in range(2, len(rest) + 1):
                for sub2 in itertools.combinations(rest, k2):
                    if sub < sub2:
                        out.append([list(sub), list(sub2)])
    return out


def und_cases(tier):
    out = []
    q = tier == 'quick'
    al = ['0', '1', '-2', '1/3']
    for m, n in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)]:
        for e in itertools.product(al, repeat=m * n):
            out.append([m, n, list(e), ['0', '1', '-1/2'], 'plain'])
    for e in itertools.product(['0', '1', '-1'] if q else al, repeat=6):
        out.append([2, 3, list(e), ['0', '1'], 'plain'])
        out.append([3, 2, list(e), ['0', '1'], 'plain'])
    for e in itertools.product(['0', '1'] if q else ['0', '1', '2'], repeat=9):
        out.append([3, 3, list(e), ['0', '1'], 'plain'])
    for dom in ('QQ', 'dense', 'sparse'):
        for e in itertools.product(['0', '1', '-2'], repeat=4):
            out.append([2, 2, list(e), ['0', '1'], dom])
        for e in itertools.product(['0', '3'], repeat=6):
            out.append([2, 3, list(e), ['0', '1'], dom])
    # numbers beyond machine precision
    big = str(10 ** 25 + 1)
    for e in itertools.product(['0', '1', big, '1/' + big], repeat=4):
        out.append([2, 2, list(e), ['0', big], 'plain'])
    return out


def csr_cases(tier, separated):
    out = []
    q = tier == 'quick'
    al = ['0', '1', '-2', '1/3']
    for m, n in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3)] + ([(3, 3), (2, 4)]):
        alpha = al if m * n <= 4 else (['0', '1', '-2'] if m * n <= 6 else ['0', '1'])
        if not q and m * n in (6, 8):
            alpha = ['0', '1', '-2']
        for e in itertools.product(alpha, repeat=m * n):
            sep = all(sum(e[i * n + j] != '0' for i in range(m)) <= 1 for j in range(n))
            if sep != separated:
                continue
            for g in groupings(n):
                if not separated and m * n > 6 and q and g and len(g[0]) != 2:
                    continue
                out.append([m, n, list(e), ['0', '1'], g])
    return out


def families(tier):
    q = tier == 'quick'
    null = [[m, n, list(e)] for m, n in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] for e in itertools.product(['0', '1', '-1/2'], repeat=m * n)]
    mr = [[2, 2, list(e), list(B)] for e in itertools.product(['0', '1', '2'], repeat=4) for B in itertools.product(['0', '1', '-3'], repeat=4)]
    return [
        Family('undetermined', und_cases(tier), run_undet, chunk=32, timeout=30, share=2, bound='all matrices up to 3x3 over small alphabets, all right sides'),
        Family('separated-equal', csr_cases(tier, True), run_csr, chunk=64, timeout=30, share=2, bound='all column-separated systems up to 3x3/2x4 with every grouping'),
        Family('csr-equal', csr_cases(tier, False), run_csr, chunk=64, timeout=30, share=2, bound='other systems up to 3x3/2x4 with groupings'),
        Family('nullspace', null, run_null, chunk=64, timeout=30, bound='all matrices up to 3x2'),
        Family('matrix-rhs', mr, run_matrix_rhs, chunk=64, timeout=30, bound='all 2x2 systems with two right sides'),
    ]
