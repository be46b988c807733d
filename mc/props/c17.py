"""C17: fast exact matrix products equal the textbook products."""
import itertools
from fractions import Fraction as F

import sympy as sp

from ..core import Family

TITLE = 'fast exact matrix products equal the textbook products'
BUDGET = {'quick': 60, 'thorough': 900}
HANG = True    # cases take a second at most: one that never ends is reported

M31, M62, M63 = 2**31, 2**62, 2**63
SYMB = {'r': sp.sqrt(2), 't': sp.Symbol('t')}


def num(x):
    """entry texts: ints, fractions, 2^k+-d, radicals, symbols"""
    if x in SYMB:
        return SYMB[x]
    return sp.Rational(x)


def naive(A, B):
    return [[sp.expand(sum((A[i][k] * B[k][j] for k in range(len(B))), sp.S.Zero)) for j in range(len(B[0]) if B else 0)] for i in range(len(A))]


def mat(rows, n):
    return sp.Matrix(len(rows), n, [x for r in rows for x in r])


def same(M, rows, ncols):
    if M.shape != (len(rows), ncols):
        return False
    return all(sp.expand(M[i, j] - rows[i][j]) == 0 for i in range(len(rows)) for j in range(ncols))


def flatten(rows):
    return [x for r in rows for x in r]


def T(rows):
    return [list(c) for c in zip(*rows)]


def run_matmul(ctx, case):
    (p, q, r), a, b = case
    A = [[num(a[i * q + j]) for j in range(q)] for i in range(p)]
    B = [[num(b[i * r + j]) for j in range(r)] for i in range(q)]
    from triples.sdp.arithmetic import matmul
    MA, MB = mat(A, q), mat(B, r)
    want = naive(A, B)
    C = matmul(MA, MB)
    ctx.step()
    ctx.require(same(C, want, r), lambda: 'A=%s B=%s: product %s, expected %s' % (A, B, C.tolist(), want))
    C2 = matmul(MA, MB, return_shape=(1, p * r))
    ctx.step()
    ctx.require(same(C2, [flatten(want)], p * r), lambda: 'A=%s B=%s as row: %s, expected %s' % (A, B, C2.tolist(), want))
    ctx.require(same(MA, A, q) and same(MB, B, r), 'inputs were modified')
    ctx.state(str(want))


def run_multi(ctx, case):
    """N stacked n x n matrices times n x m, and U^T A U for each"""
    N, n, m, a, b = case
    As = [[[num(a[(k * n + i) * n + j]) for j in range(n)] for i in range(n)] for k in range(N)]
    B = [[num(b[i * m + j]) for j in range(m)] for i in range(n)]
    from triples.sdp.arithmetic import matmul_multiple, symmetric_bilinear, symmetric_bilinear_multiple
    MA = sp.Matrix(N, n * n, [x for A in As for x in flatten(A)])
    MB = mat(B, m)
    want = [flatten(naive(A, B)) for A in As]
    C = matmul_multiple(MA, MB)
    ctx.step()
    ctx.require(same(C, want, n * m), lambda: 'A=%s B=%s: stacked product %s, expected %s' % (As, B, C.tolist(), want))
    want2 = [flatten(naive(T(B), naive(A, B))) for A in As]
    D = symmetric_bilinear_multiple(MB, MA)
    ctx.step()
    ctx.require(same(D, want2, m * m), lambda: 'A=%s U=%s: stacked U^T A U %s, expected %s' % (As, B, D.tolist(), want2))
    E = symmetric_bilinear(MB, MA[0, :], is_A_vec=True)
    ctx.step()
    ctx.require(same(E, [want2[0][i * m:(i + 1) * m] for i in range(m)], m), lambda: 'A=%s U=%s: U^T A U %s, expected %s' % (As[0], B, E.tolist(), want2[0]))
    E = symmetric_bilinear(MB, mat(As[0], n), return_shape=(1, m * m))
    ctx.step()
    ctx.require(same(E, [want2[0]], m * m), lambda: 'A=%s U=%s: reshaped U^T A U %s, expected %s' % (As[0], B, E.tolist(), want2[0]))
    ctx.require(same(MB, B, m) and list(MA) == [x for A in As for x in flatten(A)], 'inputs were modified')
    ctx.state(str(want2))


def run_empty(ctx, case):
    p, q, r = case
    from triples.sdp.arithmetic import matmul, matmul_multiple, symmetric_bilinear_multiple
    ctx.step()
    C = matmul(sp.zeros(p, q), sp.zeros(q, r))
    ctx.require(C.shape == (p, r) and all(x == 0 for x in C), 'zero-size product %s has shape %s' % (case, C.shape))
    C = matmul_multiple(sp.zeros(p, q * q), sp.zeros(q, r))
    ctx.require(C.shape == (p, q * r) and all(x == 0 for x in C), 'zero-size stacked product %s has shape %s' % (case, C.shape))
    if q:
        C = symmetric_bilinear_multiple(sp.zeros(q, r), sp.zeros(p, q * q))
        ctx.require(C.shape == (p, r * r) and all(x == 0 for x in C), 'zero-size bilinear %s has shape %s' % (case, C.shape))


def run_vec(ctx, case):
    """symmetric matrix <-> vector forms"""
    n, entries, kind = case
    from triples.sdp.utils import Mat2Vec
    import numpy as np
    it = iter(entries)
    rows = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            rows[i][j] = rows[j][i] = num(next(it))
    if kind == 'sympy':
        S = mat(rows, n)
        v = Mat2Vec.mat2vec(S)
        ctx.step()
        ctx.require(list(v) == flatten(rows), lambda: 'vector of %s is %s' % (rows, list(v)))
        ctx.require(same(Mat2Vec.vec2mat(v), rows, n), 'direct round trip changes %s' % (rows,))
        up = list(Mat2Vec.upper_vec_of_symmetric_matrix(S))
        ctx.require(up == [num(x) for x in entries], lambda: 'upper part of %s is %s' % (rows, up))
        back = Mat2Vec.vec2mat(sp.Matrix(up), mode=Mat2Vec.UPPER)
        ctx.require(same(back, rows, n), lambda: 'upper round trip of %s gives %s' % (rows, back.tolist()))
        up2 = list(Mat2Vec.upper_vec_of_symmetric_matrix(S, mul=2))
        want = [(1 if i == j else 2) * rows[i][j] for i in range(n) for j in range(i, n)]
        ctx.require(up2 == want, lambda: 'weighted upper part of %s is %s' % (rows, up2))
        idx = list(Mat2Vec.upper_vec_of_symmetric_matrix(n, return_inds=True))
        ctx.require(idx == [(i, j) for i in range(n) for j in range(i, n)], 'indices')
        ctx.require(Mat2Vec.length_of_vec(n) == n * n and Mat2Vec.length_of_mat(n * n) == n
                    and Mat2Vec.length_of_vec(n, Mat2Vec.UPPER) == n * (n + 1) // 2
                    and Mat2Vec.length_of_mat(n * (n + 1) // 2, Mat2Vec.UPPER) == n, 'lengths for n=%d' % n)
    else:
        S = np.array([[float(x) for x in r] for r in rows])
        ctx.step()
        ctx.require(list(Mat2Vec.mat2vec(S)) == [float(x) for x in flatten(rows)], 'numpy vector form')
        up = np.array(list(Mat2Vec.upper_vec_of_symmetric_matrix(S)))
        ctx.require((Mat2Vec.vec2mat(up, mode=Mat2Vec.UPPER) == S).all(), lambda: 'numpy upper round trip of %s' % (rows,))
        st = np.stack([up, 2 * up], axis=1)
        R = Mat2Vec.vec2mat(st, mode=Mat2Vec.UPPER)
        ctx.require((R[:, :, 0] == S).all() and (R[:, :, 1] == 2 * S).all(), 'numpy stacked upper form')
    ctx.state(str(rows))


def cases_matmul(tier):
    q = tier == 'quick'
    out = []
    al = ['0', '1', '-2', '1/3']
    for p_, q_, r_ in [(1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 2, 2)]:
        for e in itertools.product(al, repeat=p_ * q_ + q_ * r_):
            out.append([[p_, q_, r_], list(e[:p_ * q_]), list(e[p_ * q_:])])
    for e in itertools.product(['0', '1', '-2'] if not q else ['1', '-2'], repeat=8):
        out.append([[2, 2, 2], list(e[:4]), list(e[4:])])
    # machine word boundaries: every entry around the limits, every sign pattern
    edge = [1, M31 - 1, M31, M62, M63 - 1, M63, M63 + 1]
    vals = [str(s * v) for v in edge for s in (1, -1)]
    for x, y in itertools.product(vals, repeat=2):
        for u, v in itertools.product(['1', '2', '-1', str(M31), str(-M31), str(M62)], repeat=2):
            out.append([[1, 2, 1], [x, y], [u, v]])
    for x, y in itertools.product(vals, repeat=2):
        for k in (3, 4) if q else (3, 4, 5, 7):
            out.append([[1, k, 1], [x] + [y] * (k - 1), ['2', '-3'] + ['2'] * (k - 2)])
            out.append([[k, 1, 2], [x] + [y] * (k - 1), ['3', '2']])
    third = ['1/3', str(M62) + '/3', '-1/' + str(M62), '7']
    for e in itertools.product(third, repeat=4):
        out.append([[1, 2, 1], list(e[:2]), list(e[2:])])
    for e in itertools.product(['0', '1', 'r', 't'], repeat=4):
        out.append([[1, 2, 1], list(e[:2]), list(e[2:])])
        out.append([[2, 1, 2], list(e[:2]), list(e[2:])])
    return out


def cases_multi(tier):
    q = tier == 'quick'
    out = []
    for N, n, m in [(1, 1, 1), (2, 1, 1), (1, 1, 2), (3, 1, 2)]:
        for e in itertools.product(['0', '1', '-2', '1/3'], repeat=N * n * n + n * m):
            out.append([N, n, m, list(e[:N * n * n]), list(e[N * n * n:])])
    for e in itertools.product(['1', '-2', '0'] if not q else ['1', '-2'], repeat=8):
        out.append([1, 2, 2, list(e[:4]), list(e[4:])])
    for e in itertools.product(['0', '3'], repeat=10):
        out.append([2, 2, 1, list(e[:8]), list(e[8:])])
    edge = [1, M31, M62, M63 - 1, M63]
    vals = [str(s * v) for v in edge for s in (1, -1)]
    for x, y in itertools.product(vals, repeat=2):
        for u in ['1', '-2', str(M31), str(M31 - 1), str(-M31), str(M62)]:
            out.append([1, 2, 1, [x, y, y, '1'], [u, '1']])
            out.append([2, 1, 1, [x, y], [u]])
            out.append([2, 1, 2, [x, y], [u, '1']])
    for e in itertools.product(['1', 'r', 't'], repeat=3):
        out.append([1, 1, 2, [e[0]], list(e[1:])])
        out.append([2, 1, 1, list(e[:2]), [e[2]]])
    return out


def cases_tight(tier):
    """nearly constant matrices whose largest entries multiply to 2^63 / n^e: sums overflow although products do not"""
    sq, st = [], []
    for n in range(2, 7 if tier == 'quick' else 13):
        for e, t, off, s in itertools.product(range(4), (1, 7, 20, 30), (-1, 0, 1, 2), (1, -1)):
            u = 2**t
            for pw in (1, 2):
                a = M63 // (n**e * u**pw) + off
                if a < 2:
                    continue
                if pw == 1:
                    sq.append([[1, n, 1], [str(a)] * (n - 1) + [str(a - 1)], [str(s * u)] * (n - 1) + [str(s * (u - 1))]])
                m = 1 if n > 3 else 2
                st.append([1, n, m, [str(a)] * (n * n - 1) + [str(a - 1)], [str(s * u)] * (n * m - 1) + [str(s * (u - 1))]])
    return sq, st


def families(tier):
    tight = cases_tight(tier)
    vec = [[n, list(e), 'sympy'] for n in (1, 2, 3) for e in itertools.product(['0', '1', '-1/2'], repeat=n * (n + 1) // 2)]
    vec += [[n, list(e), 'numpy'] for n in (1, 2) for e in itertools.product(['0', '1', '-1/2'], repeat=n * (n + 1) // 2)]
    vec += [[4, [str(k) for k in range(1, 11)], 'sympy'], [5, [str(k) for k in range(1, 16)], 'sympy'], [5, [str(k) for k in range(1, 16)], 'numpy']]
    return [
        Family('product', cases_matmul(tier), run_matmul, chunk=64, timeout=30, share=2, bound='sizes <=2x2x2 over small alphabets; word-size boundary values, every sign pattern'),
        Family('stacked', cases_multi(tier), run_multi, chunk=64, timeout=30, share=2, bound='stacks of <=3 matrices of size <=2, boundary values'),
        Family('tight-product', tight[0], run_matmul, chunk=64, timeout=30, share=1, bound='sizes n up to %d, largest entries multiply to 2^63/n^e +- 2 units' % (6 if tier == 'quick' else 12)),
        Family('tight-stacked', tight[1], run_multi, chunk=64, timeout=30, share=1, bound='the same for stacks and U^T A U'),
        Family('empty', [list(c) for c in itertools.product(range(3), repeat=3)], run_empty, chunk=8, timeout=30, share=0.2, bound='all shapes with a zero dimension'),
        Family('vector-forms', vec, run_vec, chunk=64, timeout=30, share=1, bound='all symmetric matrices up to 3x3 over 3 values'),
    ]
