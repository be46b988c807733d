"""Reference view of a semidefinite problem: an affine set of unknowns and the blocks S_k(y) (exact Fractions)."""
import itertools
from fractions import Fraction as F

import sympy as sp

from .props.c16 import rref, rank
from .props.c06 import psd


def fr(x):
    x = sp.sympify(x)
    if not x.is_Rational:
        raise ValueError('not an exact rational: %r' % (x,))
    return F(int(x.p), int(x.q))


def rat(x):
    x = F(x)
    return sp.Rational(x.numerator, x.denominator)


def rows(M):
    return [[fr(M[i, j]) for j in range(M.shape[1])] for i in range(M.shape[0])]


def vec(y):
    return [fr(v) for v in y]


def col(v):
    return sp.Matrix(len(v), 1, [rat(x) for x in v])


def symmetric(M):
    return all(M[i][j] == M[j][i] for i in range(len(M)) for j in range(i))


def matmul(A, B):
    return [[sum((a * b for a, b in zip(r, c)), F(0)) for c in zip(*B)] for r in A] if B and B[0] else [[] for _ in A]


class View:
    """what a node denotes: unknown vectors y of length n restricted by equations, blocks affine in y"""

    def __init__(self, node):
        self.node = node
        self.dual = node.is_dual
        if self.dual:
            n = self.n = len(node.free_symbols)
            zero = node.S_from_y(sp.zeros(n, 1))
            self.keys = list(zero)
            self.c = {k: rows(zero[k]) for k in self.keys}
            self.A = {k: [] for k in self.keys}
            for i in range(n):
                e = sp.zeros(n, 1)
                e[i] = 1
                S = node.S_from_y(e)
                for k in self.keys:
                    M = rows(S[k])
                    self.A[k].append([[x - z for x, z in zip(r, q)] for r, q in zip(M, self.c[k])])
            self.eqs = []
        else:
            self.size = dict(node.size)
            self.keys = list(self.size)
            self.n = sum(m * m for m in self.size.values())
            sp_ = rows(node.full_space) if self.n else [[] for _ in range(node._x0.shape[0])]
            self.eqs = [(r, fr(b)) for r, b in zip(sp_, list(node._x0))]
            self.off = {}
            o = 0
            for k, m in self.size.items():
                self.off[k] = o
                for i in range(m):
                    for j in range(i):
                        r = [F(0)] * self.n
                        r[o + i * m + j], r[o + j * m + i] = F(1), F(-1)
                        self.eqs.append((r, F(0)))
                o += m * m

    def blocks(self, y):
        if self.dual:
            out = {}
            for k in self.keys:
                M = [list(r) for r in self.c[k]]
                for t, A in zip(y, self.A[k]):
                    if t:
                        for i, r in enumerate(A):
                            for j, x in enumerate(r):
                                M[i][j] += t * x
                out[k] = M
            return out
        return {k: [[y[self.off[k] + i * m + j] for j in range(m)] for i in range(m)] for k, m in self.size.items()}

    def entry(self, k, i, j):
        """(row, const): S_k[i,j] = row . y + const"""
        if self.dual:
            return [A[i][j] for A in self.A[k]], self.c[k][i][j]
        r = [F(0)] * self.n
        r[self.off[k] + i * self.size[k] + j] = F(1)
        return r, F(0)

    def dim_of(self, k):
        return len(self.c[k]) if self.dual else self.size[k]

    def satisfied(self, y, extra=()):
        return all(sum((a * t for a, t in zip(r, y)), F(0)) == b for r, b in list(self.eqs) + list(extra))

    def affine(self, extra=()):
        """None if inconsistent, else (point, directions) of the unknowns satisfying the equations"""
        E = list(self.eqs) + list(extra)
        n = self.n
        if not E:
            return [F(0)] * n, [[F(int(i == j)) for j in range(n)] for i in range(n)]
        R, piv = rref([list(r) + [b] for r, b in E])
        if n in piv:
            return None
        p = [F(0)] * n
        for r, c in zip(R, piv):
            p[c] = r[n]
        free = [c for c in range(n) if c not in piv]
        dirs = []
        for f in free:
            d = [F(0)] * n
            d[f] = F(1)
            for r, c in zip(R, piv):
                d[c] = -r[f]
            dirs.append(d)
        return p, dirs

    def is_psd(self, y):
        return all(symmetric(M) and psd(M) for M in self.blocks(y).values())


def points(aff, vals):
    p, dirs = aff
    for t in itertools.product(vals, repeat=len(dirs)):
        yield [x + sum((a * d[i] for a, d in zip(t, dirs)), F(0)) for i, x in enumerate(p)]


def check_state(ctx, node, view, label):
    """a node that reports a solution reports an exact feasible one with an exact decomposition"""
    y = vec(node.y)
    ctx.require(len(y) == view.n, lambda: '%s: y has %d entries, the problem %d unknowns' % (label, len(y), view.n))
    if len(y) != view.n:
        return None
    ctx.require(view.satisfied(y), lambda: '%s: y=%s does not satisfy the equations' % (label, y))
    B = view.blocks(y)
    ctx.require(node.S is not None and set(node.S) == set(B), lambda: '%s: blocks reported %s, expected %s' % (label, list(node.S or {}), list(B)))
    if node.S is None or set(node.S) != set(B):
        return y
    for k, M in B.items():
        ctx.require(rows(node.S[k]) == M if M else True, lambda: '%s: reported block %s is %s but y gives %s' % (label, k, node.S[k].tolist(), M))
        ctx.require(symmetric(M) and psd(M), lambda: '%s: block %s = %s is not positive semidefinite' % (label, k, M))
        if not M:
            continue
        U, D = node.decompositions[k]
        U, D = rows(U), vec(D)
        ok = len(U) == len(D) and all(len(r) == len(M) for r in U) and all(d >= 0 for d in D)
        ok = ok and all(sum((U[q][i] * D[q] * U[q][j] for q in range(len(D))), F(0)) == M[i][j] for i in range(len(M)) for j in range(len(M)))
        ctx.require(ok, lambda: '%s: decomposition of block %s does not reproduce it: U=%s D=%s S=%s' % (label, k, U, D, M))
    return y
