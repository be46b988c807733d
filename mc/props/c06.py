"""C06: the PSD decomposition is exact and decides positive semidefiniteness."""
import itertools
from fractions import Fraction as F

import sympy as sp

from ..core import Family

TITLE = 'PSD decomposition: exact when returned, refused exactly when not PSD'
BUDGET = {'quick': 60, 'thorough': 900}
HANG = True    # cases take a second at most: one that never ends is reported


def det(M):
    n = len(M)
    if n == 0:
        return F(1)
    if n == 1:
        return M[0][0]
    tot = F(0)
    for j in range(n):
        if M[0][j] != 0:
            tot += (-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
    return tot


def psd(M):
    """all principal minors >= 0"""
    n = len(M)
    for k in range(1, n + 1):
        for sub in itertools.combinations(range(n), k):
            if det([[M[i][j] for j in sub] for i in sub]) < 0:
                return False
    return True


def psd_pivot(M):
    """elimination by any positive diagonal entry; a matrix without one is PSD iff it is zero"""
    M = [list(r) for r in M]
    idx = list(range(len(M)))
    while idx:
        if any(M[i][i] < 0 for i in idx):
            return False
        k = next((i for i in idx if M[i][i] > 0), None)
        if k is None:
            return all(M[i][j] == 0 for i in idx for j in idx)
        idx = [i for i in idx if i != k]
        for i in idx:
            for j in idx:
                M[i][j] -= M[i][k] * M[k][j] / M[k][k]
    return True


def sym_rows(n, entries, conv):
    it = iter(entries)
    rows = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            rows[i][j] = rows[j][i] = conv(next(it))
    return rows


def verify(ctx, M, res, label, exact=True, zero=lambda x: sp.expand(x) == 0, nonneg=lambda x: x >= 0):
    U, S = res
    n = M.shape[0]
    if not ctx.require(U.shape == (n, n) and len(S) == n, lambda: '%s: shapes U%s S%s' % (label, U.shape, len(S))):
        return
    ctx.require(all(U[i, j] == 0 for i in range(n) for j in range(i)), lambda: '%s: U is not upper triangular: %s' % (label, U.tolist()))
    ctx.require(all(nonneg(S[i]) for i in range(n)), lambda: '%s: negative weight %s' % (label, list(S)))
    bad = [(i, j) for i in range(n) for j in range(n) if not zero(sum((U[k, i] * S[k] * U[k, j] for k in range(n)), sp.S.Zero if exact else 0.0) - M[i, j])]
    ctx.require(not bad, lambda: '%s: U^T S U differs from the matrix at %s (U=%s S=%s)' % (label, bad[:3], U.tolist(), list(S)))


def run_rational(ctx, case):
    n, entries, which = case
    rows = sym_rows(n, entries, F)
    if which == 'core':
        from triples.sdp import congruence
    elif which == 'struct':
        from triples.core.structsos.utils import congruence
    elif which == 'pivoting':
        from triples.core.structsos.pivoting.univariate import congruence
    else:
        from triples.sdp.utils import congruence_with_perturbation as congruence
    M = sp.Matrix(n, n, [sp.Rational(x.numerator, x.denominator) for r in rows for x in r])
    M0 = M.copy()
    ok = psd(rows) if n <= 3 else psd_pivot(rows)
    res = congruence(M)
    ctx.step()
    ctx.require(M == M0, 'input matrix was modified')
    ctx.outcome('psd' if ok else 'not-psd')
    if res is None:
        ctx.require(not ok, lambda: '%s refused although positive semidefinite' % (rows,))
        return
    if not ctx.require(ok, lambda: '%s accepted although not positive semidefinite: U=%s S=%s' % (rows, res[0].tolist(), list(res[1]))):
        return
    verify(ctx, M, res, str(entries))
    ctx.state(str(res))


def run_numpy(ctx, case):
    import numpy as np
    n, entries, dt = case
    rows = sym_rows(n, entries, F)
    from triples.sdp import congruence
    M = np.array([[float(x) for x in r] for r in rows], dtype=dt)
    M0 = M.copy()
    ok = psd(rows)
    res = congruence(M)
    ctx.step()
    ctx.require((M == M0).all(), 'input array was modified')
    if res is None:
        ctx.require(not ok, lambda: 'array %s refused although PSD' % (rows,))
        return
    if ctx.require(ok, lambda: 'array %s accepted although not PSD' % (rows,)):
        verify(ctx, M, res, 'array %s' % entries, exact=False, zero=lambda x: abs(x) < 1e-9, nonneg=lambda x: x >= -1e-12)


RAD = {'0': sp.S(0), '1': sp.S(1), '2': sp.S(2), '-1': sp.S(-1), 's': sp.sqrt(2), 'h': sp.sqrt(2) / 2, 'n': (sp.sqrt(2) + 2) / (sp.sqrt(2) + 1),
       'm': sp.sqrt(2) - 1, 'q': 1 / (sp.sqrt(2) - 1), 'z': 1 + sp.sqrt(3), '3': sp.S(3)}


def run_radical(ctx, case):
    n, entries, which = case
    rows = sym_rows(n, entries, lambda t: RAD[t])
    if which == 'struct':
        from triples.core.structsos.utils import congruence
    else:
        from triples.core.structsos.pivoting.univariate import congruence
    M = sp.Matrix(n, n, [x for r in rows for x in r])
    # exact sign of principal minors through 50-digit values: algebraic numbers of tiny height are either 0 or > 1e-6
    def sgn(x):
        v = sp.N(x, 50)
        return 0 if abs(v) < sp.Float('1e-30') else (1 if v > 0 else -1)
    ok = all(sgn(M.extract(list(s), list(s)).det(method='berkowitz').expand()) >= 0 for k in range(1, n + 1) for s in itertools.combinations(range(n), k))
    res = congruence(M)
    ctx.step()
    ctx.outcome('psd' if ok else 'not-psd')
    if res is None:
        ctx.require(not ok, lambda: '%s refused although positive semidefinite' % (rows,))
        return
    if ctx.require(ok, lambda: '%s accepted although not PSD' % (rows,)):
        verify(ctx, M, res, str(entries), zero=lambda x: sgn(x) == 0, nonneg=lambda x: sgn(x) >= 0)


def run_perturb(ctx, case):
    """perturbed decomposition: U^T S U = M + t I for some tiny excess t over what is needed"""
    n, entries = case
    rows = sym_rows(n, entries, F)
    from triples.sdp.utils import congruence_with_perturbation
    M = sp.Matrix(n, n, [sp.Rational(x.numerator, x.denominator) for r in rows for x in r])
    res = congruence_with_perturbation(M, perturb=True)
    ctx.step()
    if not ctx.require(res is not None, lambda: 'perturbed decomposition of %s refused' % (rows,)):
        return
    U, S = res
    R = sp.Matrix(n, n, lambda i, j: sum(U[k, i] * S[k] * U[k, j] for k in range(n))) - M
    t = sp.N(R[0, 0], 30)
    ctx.require(all(sp.N(s, 30) >= 0 for s in S), lambda: '%s: negative weight' % (rows,))
    off = max([abs(sp.N(R[i, j] - (R[0, 0] if i == j else 0), 30)) for i in range(n) for j in range(n)])
    ctx.require(off < 1e-8, lambda: '%s: perturbation is not a multiple of the identity (%s)' % (rows, R.tolist()))
    need = max(0.0, -float(min(sp.re(v) for v in M.n(20).eigenvals())))
    ctx.require(abs(float(t) - need) < 1e-4, lambda: '%s: shifted by %s where %s is needed' % (rows, t, need))


def flat(rows):
    n = len(rows)
    return [str(rows[i][j]) for i in range(n) for j in range(i, n)]


def far_cases(tier):
    """larger matrices whose definiteness hinges on one entry far from the diagonal"""
    out = []
    for n in range(4, 8 if tier == 'quick' else 10):
        for base in ('one', 'zero', 'band'):
            B = [[F(1 if i == j and base != 'zero' else 0) for j in range(n)] for i in range(n)]
            if base == 'band':
                for i in range(n):
                    B[i][i] = F(2)
                    if i:
                        B[i][i - 1] = B[i - 1][i] = F(-1)
            for i in range(n):
                for j in range(i + 1, n):
                    for off in ('1/3', '-1/3', '1', '-1', '2'):
                        for z in ((), (i,), (j,), (i, j)):
                            R = [list(r) for r in B]
                            R[i][j] = R[j][i] = F(off)
                            for k in z:
                                R[k][k] = F(0)
                            out.append([n, flat(R), 'core'])
    return out


def rank_cases(tier):
    """Gram matrices of rank one and two, exactly singular, then one diagonal or off-diagonal entry nudged"""
    out = []
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        vs = [v for v in itertools.product((0, 1, -1, 2) if n == 3 else (0, 1, -1), repeat=n)]
        vs = [v for v in vs if next((x for x in v if x), 1) > 0]
        for a, v in enumerate(vs):
            for w in [(0,) * n] + ([vs[(a * 7 + 3) % len(vs)], vs[(a * 5 + 1) % len(vs)]]):
                R = [[F(v[i] * v[j] + 3 * w[i] * w[j]) for j in range(n)] for i in range(n)]
                out.append([n, flat(R), 'core'])
                out.append([n, flat(R), 'pivoting'])
                for i in range(n):
                    for j in range(i, n):
                        for e in (F(1, 10**25), -F(1, 10**25)):
                            Q = [list(r) for r in R]
                            Q[i][j] = Q[j][i] = R[i][j] + e
                            out.append([n, flat(Q), 'core'])
    return out


def scale_cases(tier):
    """congruent rescalings: the answer must not depend on magnitudes"""
    out = []
    for e in itertools.product([0, 1, -1, 2], repeat=3):
        for D in ((F(1, 10**30), F(1, 10**30)), (F(10**30), F(10**30)), (F(1, 10**20), F(10**20)), (F(10**20), F(1, 10**20)), (F(2, 3**40), F(5**40, 7))):
            R = [[e[0] * D[0] * D[0], e[1] * D[0] * D[1]], [e[1] * D[0] * D[1], e[2] * D[1] * D[1]]]
            for w in ('core', 'struct', 'pivoting', 'wrap'):
                out.append([2, flat(R), w])
    for e in itertools.product([0, 1, -1] if tier == 'quick' else [0, 1, -1, 2], repeat=6):
        for D in ((F(1, 10**30),) * 3, (F(1, 10**20), F(1), F(10**20)), (F(10**20), F(1), F(1, 10**20))):
            ix = {(0, 0): 0, (0, 1): 1, (0, 2): 2, (1, 1): 3, (1, 2): 4, (2, 2): 5}
            R = [[e[ix[min(i, j), max(i, j)]] * D[i] * D[j] for j in range(3)] for i in range(3)]
            out.append([3, flat(R), 'core'])
    return out


def cases(tier):
    q = tier == 'quick'
    out = []
    al = ['0', '1', '-1', '2', '1/2']
    for n in (1, 2):
        for e in itertools.product(al + ['-1/3'], repeat=n * (n + 1) // 2):
            for w in ('core', 'struct', 'wrap', 'pivoting'):
                out.append([n, list(e), w])
    for e in itertools.product(['0', '1', '-1', '2'] if q else al, repeat=6):
        out.append([3, list(e), 'core'])
    for e in itertools.product(['0', '1', '-1'], repeat=6):
        out.append([3, list(e), 'struct'])
    for e in itertools.product(['0', '1'], repeat=10):
        out.append([4, list(e), 'core'])
    if True:
        for d in itertools.product(['0', '1', '2'], repeat=4) if not q else [('1',) * 4, ('2',) * 4, ('0', '1', '1', '1'), ('1', '1', '1', '0'), ('1', '2', '0', '2'), ('2', '0', '1', '0')]:
            for o in itertools.product(['0', '1', '-1'], repeat=6):
                o = list(o)
                e = [d[0], o[0], o[1], o[2], d[1], o[3], o[4], d[2], o[5], d[3]]
                out.append([4, e, 'core'])
    return out


def families(tier):
    q = tier == 'quick'
    rad = [[2, list(e)] for e in itertools.product(['0', '1', '2', 's', 'h', 'n', 'm', 'q', 'z', '-1'], repeat=3)]
    rad += [[3, list(e)] for e in itertools.product(['0', '1', 's', 'm'] if q else ['0', '1', 's', 'm', 'q'], repeat=6) if e[0] != '0' or e[1] == '0'][:1500 if q else None]
    rad = [r + [w] for r in rad for w in (('struct', 'pivoting') if r[0] == 2 or not q else ('struct',))]
    npc = [[n, list(e), dt] for dt in ('float', 'int') for n in (1, 2, 3) for e in itertools.product(['0', '1', '-1', '2'], repeat=n * (n + 1) // 2)]
    per = [[n, list(e)] for n in (1, 2) for e in itertools.product(['0', '1', '-1', '2', '-1/3'], repeat=n * (n + 1) // 2)]
    return [
        Family('rational', cases(tier), run_rational, chunk=128, timeout=30, share=2, bound='all symmetric matrices n<=3 over 4-6 values, n=4 over {0,1}'),
        Family('radical', rad, run_radical, chunk=16, timeout=30, share=3, bound='all 2x2 over 10 radicals, 3x3 over {0,1,sqrt2,sqrt2-1}'),
        Family('array', npc, run_numpy, chunk=128, timeout=30, bound='all numpy matrices n<=3 over {0,1,-1,2}'),
        Family('far', far_cases(tier), run_rational, chunk=64, timeout=60, bound='n=4..%d, one off-diagonal entry at every position, zeroed diagonals' % (7 if q else 9)),
        Family('singular', rank_cases(tier), run_rational, chunk=64, timeout=60, bound='Gram matrices of rank <= 2 over {0,1,-1(,2)}^n, n<=%d, each entry nudged by 1e-25' % (4 if q else 5)),
        Family('magnitudes', scale_cases(tier), run_rational, chunk=64, timeout=60, bound='all 2x2 and 3x3 over small values rescaled by 1e-30..1e30'),
        Family('perturbed', per, run_perturb, chunk=8, timeout=30, bound='all n<=2 over 5 values'),
    ]
