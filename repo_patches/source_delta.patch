From 8b21b3c2b41fb606cb317d1a879088b41e6966ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:31 +0000
Subject: [PATCH 01/99] fix: StructuralSOS accepted monomials with odd powers
 of unconstrained variables

---
 triples/core/structsos/structsos.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/structsos.py b/triples/core/structsos/structsos.py
index 02ea9ca..9c42544 100644
--- a/triples/core/structsos/structsos.py
+++ b/triples/core/structsos/structsos.py
@@ -48,6 +48,24 @@ def StructuralSOS(
     return solution
 
 
+def _structural_sos_monomial(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> Optional[sp.Expr]:
+    """
+    Prove a monomial with nonnegative coefficient. Odd powers must be ensured by the constraints.
+    """
+    nonneg = {p.monoms()[0]: e / p.LC() for p, e in ineq_constraints.items() if p.is_monomial and p.LC() > 0}
+    odd = tuple(d % 2 for d in poly.monoms()[0])
+    solution = (poly.LC() * sp.Mul(*[g**(d - d % 2) for g, d in zip(poly.gens, poly.monoms()[0])]))
+    if odd in nonneg:
+        return solution * nonneg[odd]
+    for i in range(len(odd)):
+        if odd[i]:
+            unit = tuple(int(j == i) for j in range(len(odd)))
+            if unit not in nonneg:
+                return None
+            solution = solution * nonneg[unit]
+    return solution
+
+
 def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}, eq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> sp.Expr:
     """
     Internal function of StructuralSOS, returns a sympy expression only.
@@ -58,7 +76,7 @@ def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}
     if poly.is_monomial:
         if poly.LC() >= 0:
             # since the poly is homogeneous, it must be a monomial
-            return poly.as_expr()
+            return _structural_sos_monomial(poly, ineq_constraints)
         return None
 
     poly, ineq_constraints, eq_constraints = clear_free_symbols(poly, ineq_constraints, eq_constraints)
-- 
2.43.0


From c43e66f1bc30af6886663fbea03611a54945edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:31 +0000
Subject: [PATCH 02/99] fix: quintic symmetric solver raised on a vanishing
 denominator

---
 triples/core/structsos/ternary/quintic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic_symmetric.py b/triples/core/structsos/ternary/quintic_symmetric.py
index b3dda5e..9342192 100644
--- a/triples/core/structsos/ternary/quintic_symmetric.py
+++ b/triples/core/structsos/ternary/quintic_symmetric.py
@@ -352,7 +352,7 @@ def sos_struct_quintic_symmetric(coeff, real = True):
             w3 * m / 2,
             rem / 2
         ])
-        if all(_ >= 0 for _ in y):
+        if all(_.is_finite and _ >= 0 for _ in y):
             multiplier = CyclicSum((a - b)**2)/2
             exprs = [
                 CyclicSum(c*(a-c)**2*(b-c)**2*((1-t1)*(a+b) + 2*c)**2),
-- 
2.43.0


From 1f3f2951692692f61a666735906dbce53ab51902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 03/99] fix: solve_column_separated_linear missed free
 variables, empty rows and groups across rows

---
 triples/sdp/arithmetic.py | 60 ++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 5245375..512bef9 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -442,51 +442,37 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
 
     x0 = []
     spaces = []
-    for i, row in A.items():
-        row = list(row.items())
+    used = set()
+    for i in sorted(set(A.keys()) | set(b.keys())):
+        # merge the entries that are required to be equal
+        merged = {}
+        for k, v in A.get(i, {}).items():
+            merged[ufs[k]] = merged.get(ufs[k], zero) + toK(v)
+        row = [(k, v) for k, v in merged.items() if v]
+        bi = b.get(i, {}).get(0, zero)
         if len(row):
-            pivot = row[0]
-            head = ufs[pivot[0]]
+            head, w = row[0]
             group = groups[head]
-            w = len(group) * toK(pivot[1])
-            bi = b.get(i, 0)
             if bi:
-                bi = bi.get(0, zero)
                 v = bi / w
                 for k in group:
                     x0.append((k, {0: v}))
 
-            for j in range(1, len(row)):
-                pivot2 = row[j]
-                head2 = ufs[pivot2[0]]
-                if pivot2[0] != head2 or head2 == head:
-                    continue
-                # only handle the case that pivot is the head of the group
-                group2 = groups[head2]
-                w2 = len(group2) * toK(pivot2[1])
-
+            for head2, w2 in row[1:]:
                 space = {}
-                if w2:
-                    for k in group:
-                        space[k] = w2
-                if w:
-                    for k in group2:
-                        space[k] = -w
+                for k in group:
+                    space[k] = w2
+                for k in groups[head2]:
+                    space[k] = -w
                 spaces.append(space)
+            used.update(k for k, v in row)
+        elif bi:
+            raise ValueError("Linear system has no solution")
 
-        else:
-            bi = b.get(i, 0)
-            if bi != 0 and bi.get(0, zero) != zero:
-                raise ValueError("Linear system has no solution")
-
-            for j in range(len(row)):
-                if ufs[row[j][0]] == row[j][0]:
-                    group = groups[row[j][0]]
-
-                    space = {}
-                    for k in group:
-                        space[k] = one
-                    spaces.append(space)
+    # entries that are not involved in any equation are free
+    for head, group in groups.items():
+        if not head in used:
+            spaces.append({k: one for k in group})
 
     x0 = dict(x0)
     spaces = dict(enumerate(spaces))
@@ -537,8 +523,10 @@ def solve_csr_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int
     if isinstance(A, RepMatrix) and isinstance(b, RepMatrix):
         _column_separated = True
         seen_cols = set()
+        heads = {i: group[0] for group in x0_equal_indices for i in group}
         for row in Arep.values():
-            for col, _ in row.items():
+            row_cols = set(heads.get(col, col) for col in row.keys())
+            for col in row_cols:
                 if col in seen_cols:
                     _column_separated = False
                     break
-- 
2.43.0


From 394b1782542ab99d894b061c8ac23093693da195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:31 +0000
Subject: [PATCH 04/99] fix: exact matrix products overflowed on -2**63 and
 failed on zero-column matrices

---
 triples/sdp/arithmetic.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 512bef9..9f36f1a 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -611,6 +611,12 @@ def _cast_sympy_matrix_to_numpy(sympy_mat_rep, dtype: str = 'int64'):
         arr[row_indices, col_indices] = data_list
     return arr
 
+def _max_abs(arr) -> int:
+    """Maximum absolute value of an integer array. Note that abs(-2**63) overflows in int64."""
+    if arr.size == 0:
+        return 0
+    return max(int(arr.max()), -int(arr.min()))
+
 def _cast_list_to_sympy_matrix(rows: int, cols: int, lst: List[int]) -> sp.Matrix:
     """Convert a list of INTEGER values to a sympy matrix efficiently."""
     sdm = {}
@@ -658,7 +664,7 @@ def matmul(A: sp.Matrix, B: sp.Matrix, return_shape = None) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXA = abs(A).max()
+    _MAXA = _max_abs(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, B0)
 
@@ -667,7 +673,7 @@ def matmul(A: sp.Matrix, B: sp.Matrix, return_shape = None) -> sp.Matrix:
         B = _cast_sympy_matrix_to_numpy(B, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXB = abs(B).max()
+    _MAXB = _max_abs(B)
     if isnan(_MAXB) or _MAXB == inf or _MAXB > _INT64_MAX or int(_MAXA) * int(_MAXB) * B.shape[0] > _INT64_MAX:
         return default(A0, B0)
 
@@ -722,7 +728,7 @@ def matmul_multiple(A: sp.Matrix, B: sp.Matrix) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXA = abs(A).max()
+    _MAXA = _max_abs(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, B0)
 
@@ -731,7 +737,7 @@ def matmul_multiple(A: sp.Matrix, B: sp.Matrix) -> sp.Matrix:
         B = _cast_sympy_matrix_to_numpy(B, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXB = abs(B).max()
+    _MAXB = _max_abs(B)
     if isnan(_MAXB) or _MAXB == inf or _MAXB > _INT64_MAX or int(_MAXA) * int(_MAXB) * n > _INT64_MAX:
         return default(A0, B0)
 
@@ -826,7 +832,7 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, U0)
-    _MAXA = abs(A).max()
+    _MAXA = _max_abs(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, U0)
 
@@ -835,7 +841,7 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         U = _cast_sympy_matrix_to_numpy(U, dtype = 'int64')
     except OverflowError:
         return default(A0, U0)
-    _MAXU = abs(U).max()
+    _MAXU = _max_abs(U)
     if isnan(_MAXU) or _MAXU == inf or _MAXU > _INT64_MAX or int(_MAXA) * int(_MAXU)**2 * n**2 > _INT64_MAX:
         return default(A0, U0)
     A = A.reshape((N, n, n))
-- 
2.43.0


From 5368747874f277fe0b123a8465290594fc28d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 05/99] fix: sparse AM-GM solver doubled a lone s(a^n)

---
 triples/core/structsos/ternary/sparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/ternary/sparse.py b/triples/core/structsos/ternary/sparse.py
index 5a6ee2b..1f8ef60 100644
--- a/triples/core/structsos/ternary/sparse.py
+++ b/triples/core/structsos/ternary/sparse.py
@@ -406,6 +406,9 @@ def _sos_struct_sparse_amgm(coeff):
     if len(monoms) == 1:
         degree = coeff.degree()
         monoms.append(CoeffMonom(degree, 0, 0))
+        if monoms[0] == monoms[1]:
+            # do not count s(a^degree) twice
+            monoms[1] = CoeffMonom(degree - 1, 1, 0)
 
     def getv(m):
         v = coeff(m)
-- 
2.43.0


From dfc3935b24c0d843e94ed217765314559e55059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 06/99] fix: symmetric sextic hexagon raised TypeError when no
 u is determined

---
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 32eead5..8be69d8 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -198,7 +198,7 @@ def _sos_struct_sextic_hexagon_symmetric_sdp(coeff):
             # when l22 == 0, there is no degree of freedom
             u = radsimp(6*w2/denom)
 
-        if l22 > 0 and not _is_valid(u):
+        if l22 > 0 and (u is None or not _is_valid(u)):
             eq_u = sp.Poly.from_list(
                 [-2*c321 + 10*c420 + 3*w1 - 9*w2, -9*c321 + 36*c420 + 9*w1 - 45*w2, -9*c321 + 36*c420 + 9*w1 - 81*w2, -54*w2],
                 sp.Symbol('u')
-- 
2.43.0


From 8eb92dfd5ee6c3a38ca868236043fd5a866c5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 07/99] fix: quintic solver dropped the remainder at (1,1,1)
 and produced float coefficients

---
 triples/core/structsos/ternary/quintic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 44e7a93..74a0f71 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -64,7 +64,7 @@ def _solve_sa2minusab_mul_cubic(x, y, mul = sp.S(1)):
     When (x, y) is not on the curve, it would be a linear combination of two points on the curve.
     """
     if x >= 0 and y >= 0:
-        cubic_poly = Coeff({(3,0,0): 1, (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
+        cubic_poly = Coeff({(3,0,0): sp.S(1), (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
         return sp.Rational(1,2) * mul * CyclicSum((a-b)**2) * sos_struct_cubic(cubic_poly)
 
     def _solve_t(t):
@@ -1473,6 +1473,13 @@ def _sos_struct_quintic_uncentered(coeff):
             CyclicSum(a*c*(a-b)**2*((r1-r1_)*c + (r2-r2_)/2*b)) * multiplier
         ]
 
+        # u, v are determined regardless of coeff((2,2,1)), so the value at (1,1,1) must be compensated
+        p111 = sum(y_ * expr.doit().xreplace({a: sp.S(1), b: sp.S(1), c: sp.S(1)}) for y_, expr in zip(y, exprs))
+        y.append(rem - radsimp(p111 / (9*(1 + phi))))
+        if y[-1] < 0:
+            return None
+        exprs.append(CyclicSum(a*b) * CyclicProduct(a) * multiplier)
+
         return sum_y_exprs(y, exprs) / multiplier
 
     return None
-- 
2.43.0


From 4c9c1b9a8837d6f7f609b323e5ec27447ffa0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 08/99] fix: prove_univariate raised or misaligned coefficients
 for odd degrees with fractional leading coefficients

---
 triples/core/structsos/pivoting/univariate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index af312ba..316a5fd 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -292,6 +292,8 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
         n = M.shape[0]
         if isinstance(poly, sp.Poly):
             all_coeffs = poly.all_coeffs()
+            # the leading coefficients might vanish after subtracting the minor matrix
+            all_coeffs = [sp.S(0)] * (2 * n - 1 - len(all_coeffs)) + all_coeffs
         for i in range(len(all_coeffs)):
             m = i // 2
             if i % 2 == 0:
@@ -311,6 +313,9 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
 
         M = M[1]
         n = M.shape[0]
+        if poly.degree() == 2 * n - 1:
+            # the leading coefficient of an odd-degree polynomial comes from the minor matrix only
+            M[0, 0] = poly.LC()
         all_coeffs = [0] * (M.shape[1] * 2 - 1)
         for i in range(len(all_coeffs)):
             m = i // 2
-- 
2.43.0


From aa638f1da449eb11b1fdd0a768e8fc7c89b8ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 09/99] fix: symmetric septic solver raised on a vanishing
 denominator

---
 triples/core/structsos/ternary/septic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/septic_symmetric.py b/triples/core/structsos/ternary/septic_symmetric.py
index 57f5bcf..0cc922c 100644
--- a/triples/core/structsos/ternary/septic_symmetric.py
+++ b/triples/core/structsos/ternary/septic_symmetric.py
@@ -246,7 +246,7 @@ class _septic_sym_axis():
                 return sol / p2, ker_coeff
 
         det = 6*x**2 + 9*x*y - 20*x + 3*y**2 - 15*y + 17
-        det2 = (6*x + 3*y - 8) * det / (x - 1)
+        det2 = (6*x + 3*y - 8) * det / (x - 1) if x != 1 else None
         if x != 1 and det2 >= 0:
             u = (2*x + y - 3) / (2*(x - 1))
             if 0 <= u <= 1:
-- 
2.43.0


From 17055c7f2018164d53062689464af536d7529a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 10/99] fix: symmetric octic hexagon solver produced nan when
 c611 + 2*c620 == 0

---
 triples/core/structsos/ternary/octic_symmetric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 58ec3da..46d7305 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -488,7 +488,7 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
         if c611 + 2*c620 == 0:
             # r = 0 is a must by the constraint M00 + M01 >= 0 and r >= 0.
             r = sp.S(0)
-            u111, u102, u201 = sp.S(0), sp.S(0), sp.S(0)
+            u102 = sp.S(0)
             M00t = c620
             M01t = -c620
             M02t = c530/2
@@ -507,7 +507,8 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
             M22t = w5 / (c611 + 2*c620)
 
         u210 = sp.S(1)
-        u102 = -c530/(c611 + 2*c620)
+        if c611 + 2*c620 != 0:
+            u102 = -c530/(c611 + 2*c620)
         u201 = sp.S(0)
         u111 = -2*u102 - 1
         quad_form = stack_quad_form(M00t, M01t, M02t, M22t)
-- 
2.43.0


From 3b0b3afe1b0faf615e329d5618e5a86fa4c05107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:46 +0000
Subject: [PATCH 11/99] fix: CyclicProduct raised invariant factors to the
 number of symbols instead of the group order

---
 triples/utils/expression/cyclic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 0e71db3..4522310 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -618,7 +618,7 @@ class CyclicProduct(CyclicExpr):
 
         if isinstance(expr, Mul):
             cyc_args = list(filter(lambda x: is_cyclic_expr(x, symbols, perm), expr.args))
-            cyc_args = [arg ** len(symbols) for arg in cyc_args]
+            cyc_args = [arg ** perm.order() for arg in cyc_args]
             uncyc_args = list(filter(lambda x: not is_cyclic_expr(x, symbols, perm), expr.args))
             obj0 = Mul(*[cls(arg, symbols, perm) for arg in uncyc_args])
             obj = Mul(obj0, *cyc_args)
@@ -629,7 +629,7 @@ class CyclicProduct(CyclicExpr):
         c, p = self.args[0].as_content_primitive(radical=radical, clear=clear)
         if c is S.One:
             return S.One, self
-        return c ** len(self.symbols), CyclicProduct(p, *self.args[1:])
+        return c ** self.perm.order(), CyclicProduct(p, *self.args[1:])
 
 
 def SymmetricSum(expr, symbols, **kwargs):
-- 
2.43.0


From 989270a22043ec7a7cb9ec4d33e9e497e9a3a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 12/99] fix: CyclicExpr.xreplace captured free symbols when
 renaming its symbols

---
 triples/utils/expression/cyclic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 4522310..8e32532 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -340,7 +340,9 @@ class CyclicExpr(sp.Expr):
             other_rules = [fs(k) | fs(v) for k, v in rule.items() if not k in changed_vars]
             if not any(_.intersection(self_vars) for _ in other_rules):
                 new_symbols = tuple(rule.get(s, s) for s in self.symbols)
-                if len(set(new_symbols)) == len(new_symbols):
+                # new symbols should not capture other symbols in the expression
+                other_vars = (self.args[0].free_symbols - self_vars).union(*other_rules)
+                if len(set(new_symbols)) == len(new_symbols) and other_vars.isdisjoint(new_symbols):
                     # distinct new symbols
                     return _xreplace_arg0(self, rule, new_symbols)
 
-- 
2.43.0


From 46550119106959a05d0daca9ef85d844522b1d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 13/99] fix: rewrite_symmetry used cosets of the wrong side for
 non-normal subgroups

---
 triples/utils/expression/cyclic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 8e32532..5d406c6 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -930,7 +930,7 @@ def _get_rewriting_replacement(symbols: Tuple[Symbol], perm_group: PermutationGr
             elif perm_group.is_subgroup(x.args[2]):
                 # 3. check whether the given permutation group is a subgroup of the expression's permutation group
                 transversals = x.args[2].coset_transversal(perm_group)
-                translations = [dict(zip(x.args[1], p(x.args[1]))) for p in transversals]
+                translations = [dict(zip(x.args[1], (p**-1)(x.args[1]))) for p in transversals] # left cosets
                 trans_perm_group = [dict(zip(x.args[1], p(x.args[1]))) for p in perm_group.elements]
                 exprs = [x.args[0].xreplace(t) for t in translations]
                 for i, expr in enumerate(exprs):
-- 
2.43.0


From 51744940171ceb2a21c6c4f56abf42602e6a4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:48 +0000
Subject: [PATCH 14/99] fix: partial CyclicExpr.xreplace dropped terms when the
 group is not a direct product

---
 triples/utils/expression/cyclic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 5d406c6..302a77f 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -378,9 +378,13 @@ class CyclicExpr(sp.Expr):
             new_args = []
             changed = False
             stab_perp = self.perm.pointwise_stabilizer(list(unchanged_inds))
-            for p in stab_perp.elements:
+            if stab.order() * stab_perp.order() == self.perm.order():
                 # make every unchanged inds unchanged
                 # i.e. stab_perp.contains(p)
+                transversal = stab_perp.elements
+            else:
+                transversal = [p**-1 for p in self.perm.coset_transversal(stab)]
+            for p in transversal:
                 trans = dict(zip(symbols, p(symbols)))
                 arg_perm = _replace_symbols(self.args[0], trans)
                 arg_perm, changed2 = arg_perm._xreplace(rule)
-- 
2.43.0


From a442152fd74e44a13f8e617b812e2516b3dbcaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 15/99] fix: latex sums, products and fractions were cut off or
 bound to the wrong operands

---
 triples/utils/text_process.py | 43 +++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index fafefb4..f0293a2 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -50,17 +50,40 @@ def cycle_expansion(
 #
 ##########################################################################
 
+def _read_latex_argument(poly: str, i: int) -> Tuple[str, int]:
+    """
+    Read a latex argument, either {...} or a single character, starting at index i.
+    Return the content and the index after the argument.
+    """
+    if i < len(poly) and poly[i] == '{':
+        depth = 0
+        for j in range(i, len(poly)):
+            if poly[j] == '{':
+                depth += 1
+            elif poly[j] == '}':
+                depth -= 1
+                if depth == 0:
+                    return poly[i+1:j], j + 1
+    elif i < len(poly) and poly[i].isalnum():
+        return poly[i], i + 1
+    raise ValueError('Invalid latex fraction: %s' % poly)
+
+
 def _preprocess_text_delatex(poly: str) -> str:
     """
     Convert a latex formula to standard representation.
     """
 
-    # \frac{..}{...} -> (..)/(...)
+    # \frac{..}{...} -> ((..)/(...))
     poly = poly.replace(' ','')
     poly = poly.replace('left','')
     poly = poly.replace('right','')
-    poly = poly.replace('}{' , ')/(')
-    poly = poly.replace('frac' , '')
+    while 'frac' in poly:
+        # the innermost fractions are converted first
+        i = poly.rfind('frac')
+        num, j = _read_latex_argument(poly, i + 4)
+        den, j = _read_latex_argument(poly, j)
+        poly = poly[:i] + '((' + num + ')/(' + den + '))' + poly[j:]
     poly = poly.translate({123: 40, 125: 41, 92: 32, 36: 32}) # { -> ( , } -> ) , \ -> space, $ -> space
     poly = poly.replace(' ','')
 
@@ -69,7 +92,7 @@ def _preprocess_text_delatex(poly: str) -> str:
     parenthesis = 0
     paren_depth = [-1]
     i = 0
-    while i < len(poly) - 4:
+    while i < len(poly):
         if poly[i:i+3] == 'sum':
             parenthesis += 1
             paren_depth.append(parenthesis)
@@ -80,14 +103,16 @@ def _preprocess_text_delatex(poly: str) -> str:
             paren_depth.append(parenthesis)
             poly = poly[:i] + 'p(' + poly[i+4:]
             i += 1
+        elif parenthesis == paren_depth[-1] and (poly[i] == ')' \
+                or (poly[i] in '+-' and poly[i-1] not in '(+-')):
+            # the sum or the product ends here
+            poly = poly[:i] + ')' + poly[i:]
+            parenthesis -= 1
+            paren_depth.pop()
         elif poly[i] == '(':
             parenthesis += 1
         elif poly[i] == ')':
             parenthesis -= 1
-        elif parenthesis == paren_depth[-1] and (poly[i] == '+' or poly[i] == '-'):
-            poly = poly[:i] + ')' + poly[i:]
-            parenthesis -= 1
-            paren_depth.pop()
         i += 1
     poly += ')' * (len(paren_depth) - 1)
 
@@ -109,7 +134,7 @@ def _preprocess_text_expansion(poly: str, gens: Tuple[Symbol], perm: Permutation
 
     i = 0
     while i < len(poly):
-        if (poly[i] == 's' and i+4 <= len(poly) and poly[i:i+4]!='sqrt')  or poly[i] == 'p':
+        if poly[i:i+2] == 's(' or poly[i:i+2] == 'p(':
             paren_depth.append(parenthesis)
             cycle_begin.append(i)
         elif poly[i] == '(':
-- 
2.43.0


From 297b61c16c8ac5e24da2974fa19c8b90fa73f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:04 +0000
Subject: [PATCH 16/99] fix: letters of sqrt and cbrt were permuted inside
 cyclic sums

---
 triples/utils/text_process.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index f0293a2..bd6593d 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -1,6 +1,6 @@
 from typing import Union, List, Tuple, Optional
 from functools import partial
-# import re
+import re
 
 from sympy import Expr, Poly, Rational, Float, Symbol, sympify, fraction, cancel, latex
 from sympy import symbols as sp_symbols
@@ -12,7 +12,8 @@ def cycle_expansion(
         f: str,
         symbol: str = 's',
         gens: Tuple[Symbol] = sp_symbols("a b c"),
-        perm: Optional[PermutationGroup] = None
+        perm: Optional[PermutationGroup] = None,
+        preserve: Tuple[str] = ('sqrt',)
     ) -> str:
     """
     Parameters
@@ -29,6 +30,8 @@ def cycle_expansion(
         The generators of the polynomial.
     perm: Optional[PermutationGroup]
         The permutation group of the expression. If None, it will be cyclic group.
+    preserve: Tuple[str]
+        The names of functions. Their letters are not regarded as generators.
 
     Return
     -------
@@ -42,7 +45,10 @@ def cycle_expansion(
         dict(zip(original_names, p(original_names))) for p in perm.elements
     ]
     symbol = ' * ' if symbol == 'p' else ' + '
-    return symbol.join(f.translate(t) for t in translations)
+    pieces = re.split('(%s)' % '|'.join('%s(?=\\()' % _ for _ in preserve), f) if preserve else [f]
+    return symbol.join(
+        ''.join(_.translate(t) if i % 2 == 0 else _ for i, _ in enumerate(pieces)) for t in translations
+    )
 
 ##########################################################################
 #
@@ -119,7 +125,13 @@ def _preprocess_text_delatex(poly: str) -> str:
     return poly
 
 
-def _preprocess_text_expansion(poly: str, gens: Tuple[Symbol], perm: PermutationGroup) -> str:
+def _preprocess_text_expansion(
+        poly: str,
+        gens: Tuple[Symbol],
+        perm: PermutationGroup,
+        preserve_sqrt: bool = True,
+        preserve_cbrt: bool = False
+    ) -> str:
     """
     Expand the polynomial with cycle expansion.
 
@@ -130,7 +142,8 @@ def _preprocess_text_expansion(poly: str, gens: Tuple[Symbol], perm: Permutation
     parenthesis = 0
     paren_depth = [-1]
     cycle_begin = []
-    _cyc_expand = partial(cycle_expansion, gens=gens, perm=perm)
+    preserve = ('sqrt',) * bool(preserve_sqrt) + ('cbrt',) * bool(preserve_cbrt)
+    _cyc_expand = partial(cycle_expansion, gens=gens, perm=perm, preserve=preserve)
 
     i = 0
     while i < len(poly):
@@ -240,7 +253,10 @@ def preprocess_text(
         perm = CyclicGroup(len(gens))
 
     poly = _preprocess_text_delatex(poly)
-    poly = _preprocess_text_expansion(poly, gens, perm)
+    poly = _preprocess_text_expansion(poly, gens, perm,
+        preserve_sqrt=preserve_sqrt,
+        preserve_cbrt=preserve_cbrt
+    )
     poly = _preprocess_text_completion(poly,
         scientific_notation=scientific_notation,
         preserve_sqrt=preserve_sqrt,
@@ -331,7 +347,10 @@ def degree_of_zero(
         perm = CyclicGroup(len(gens))
 
     poly = _preprocess_text_delatex(poly)
-    poly = _preprocess_text_expansion(poly, gens, perm)
+    poly = _preprocess_text_expansion(poly, gens, perm,
+        preserve_sqrt=preserve_sqrt,
+        preserve_cbrt=preserve_cbrt
+    )
     poly = _preprocess_text_completion(poly,
         scientific_notation=scientific_notation,
         preserve_sqrt=preserve_sqrt,
-- 
2.43.0


From 01d8be7eda99967f819759b4a9d39ac8cd483836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:18 +0000
Subject: [PATCH 17/99] fix: degree_of_zero dropped everything after a leading
 sign

---
 triples/utils/text_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index bd6593d..78fa03d 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -358,6 +358,8 @@ def degree_of_zero(
     )
     gen_names = set([_.name for _ in gens])
 
+    # leading signs are not additions, e.g. -a*(b-c)
+    poly = poly.lstrip('+-')
     i = 0
     length = len(poly)
     bracket = 0
-- 
2.43.0


From 3a5c473c5a30eaf421b86e5bfdd65b5df9c0f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:02 +0000
Subject: [PATCH 18/99] fix: coefficient display merged adjacent numbers when
 omitting multiplication signs

---
 triples/utils/text_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 78fa03d..370c917 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -424,7 +424,8 @@ def short_constant_parser(x):
         if len(txt) > 10 and not isinstance(x, Float):
             txt = '%.4f'%(x)
     else:
-        txt = str(x).replace('**','^').replace('*','').replace(' ','')
+        # multiplication signs are omitted except those in front of numbers, e.g. 3*2^(1/3)
+        txt = re.sub(r'\*(?!\d)', '', str(x).replace('**','^').replace(' ',''))
     return txt
 
 
-- 
2.43.0


From e5f6eead2d5682493f7992058e9e6f14c1fcc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:02 +0000
Subject: [PATCH 19/99] fix: solution text merged numbers, split large powers
 and left a global print setting changed

---
 triples/utils/expression/solution.py | 80 +++++++++-------------------
 1 file changed, 26 insertions(+), 54 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 7594421..0282aa5 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -158,34 +158,18 @@ class Solution():
 
     @property
     def str_txt(self) -> str:
-        CyclicExpr.PRINT_WITH_PARENS = False
         # s = _solution_latex_to_txt(self.str_latex)
-        s = str(self.solution)
+        s = _print_str(self.solution)
         equal_sign = '=' if self.is_equal else '≈'
-        replacements = dict([
-            ('**', '^'),
-            ('*', ' '),
-            *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
-        ])
-        for old, new in replacements.items():
-            s = s.replace(old, new)
+        s = _convert_superscript(_omit_mul(s.replace('**', '^'), ' '))
         s = '%s %s %s'%(self._str_f(), equal_sign, s)
         return s
 
     @property
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
-        s = str(self.solution)
+        s = _print_str(self.solution, 's', 'p', with_cyclic_parens=True)
         equal_sign = '=' if self.is_equal else '≈'
-        replacements = dict([
-            (' ',''),
-            ('**','^'),
-            ('*',''),
-            ('Σ', 's'),
-            ('∏', 'p'),
-        ])
-        for old, new in replacements.items():
-            s = s.replace(old, new)
+        s = _omit_mul(s.replace(' ', '').replace('**', '^'))
         s = '%s %s %s'%(self._str_f(), equal_sign, s)
         return s
 
@@ -344,10 +328,7 @@ class SolutionSimple(Solution):
                 cyclic_product_name=cyclic_product_name, with_cyclic_parens=with_cyclic_parens).replace('**','^')
 
             if mode == 'txt':
-                def _convert_superscript(s):
-                    pow_trans = str.maketrans('0123456789', '⁰¹²³⁴⁵⁶⁷⁸⁹')
-                    return re.sub(r'\^(\d+)', lambda m: m.group(1).translate(pow_trans), s)
-                to_str = lambda x: _convert_superscript(_to_str(x).replace('*',''))
+                to_str = lambda x: _convert_superscript(_omit_mul(_to_str(x)))
             else:
                 to_str = lambda x: _to_str(x)
         else:
@@ -380,7 +361,7 @@ class SolutionSimple(Solution):
                 s_multiplier = "%s %s"%(s_multiplier, self._str_f())
         return s_multiplier
 
-    def _str_extract_constant_afront(self, add_paren = None, get_str = None):
+    def _str_extract_constant_afront(self, add_paren = None, get_str = None, mul = '*'):
         """
         Util function for printing. Extract the constant of CyclicSum, e.g.
         4 CyclicSum(a) / 7 shall be written in the form of 4/7 CyclicSum(a).
@@ -409,7 +390,9 @@ class SolutionSimple(Solution):
             elif precedence_traditional(x_as_coeff_Mul[1]) < PRECEDENCE["Mul"]:
                 s_args.append(get_str(x_as_coeff_Mul[0]) + '%s'%add_paren(get_str(x_as_coeff_Mul[1])))
             else:
-                s_args.append(get_str(x_as_coeff_Mul[0]) + get_str(x_as_coeff_Mul[1]))
+                coeff_str, arg_str = get_str(x_as_coeff_Mul[0]), get_str(x_as_coeff_Mul[1])
+                # e.g. 3*2**(2/3) is not 32**(2/3)
+                s_args.append(coeff_str + (mul if arg_str[0].isdigit() else '') + arg_str)
 
         return s_args
 
@@ -423,7 +406,7 @@ class SolutionSimple(Solution):
 
         s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: sp.latex(x))
 
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: sp.latex(x))
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: sp.latex(x), mul = ' \\cdot ')
 
         s = _multiline_equation_latex(
             s_args, 
@@ -444,46 +427,26 @@ class SolutionSimple(Solution):
 
     @property
     def str_txt(self):
-        CyclicExpr.PRINT_WITH_PARENS = False
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-        s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: str(x))
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: str(x))
+        s_multiplier = self._str_multiplier(add_paren = parener, get_str = _print_str)
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = _print_str)
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
-
-        replacements = dict([
-            (' ',''),
-            ('**', '^'),
-            ('*', ''),
-            *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
-        ])
-        for old, new in replacements.items():
-            s = s.replace(old, new)
-        return s
+        return _convert_superscript(_omit_mul(s.replace(' ', '').replace('**', '^')))
 
     @property
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-        s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: str(x))
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: str(x))
+        get_str = lambda x: _print_str(x, 's', 'p', with_cyclic_parens=True)
+        s_multiplier = self._str_multiplier(add_paren = parener, get_str = get_str)
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = get_str)
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
-
-        replacements = dict([
-            (' ',''),
-            ('**','^'),
-            ('*',''),
-            ('Σ', 's'),
-            ('∏', 'p'),
-        ])
-        for old, new in replacements.items():
-            s = s.replace(old, new)
-        return s
+        return _omit_mul(s.replace(' ', '').replace('**', '^'))
 
     def dehomogenize(self, homogenizer: Optional[sp.Symbol] = None):
         """
@@ -545,6 +508,15 @@ class SolutionSimple(Solution):
         warn("Calling Solution.multiplier will be deprecated. Use Solution.as_fraction()[1] instead.", DeprecationWarning, stacklevel=2)
         return self.as_fraction()[1]
 
+def _omit_mul(s: str, mul: str = '') -> str:
+    """Omit the multiplication signs, except those in front of a number."""
+    return re.sub(r'\*(?!\d)', mul, s)
+
+def _convert_superscript(s: str) -> str:
+    """Convert integer powers to superscripts."""
+    pow_trans = str.maketrans('0123456789', '⁰¹²³⁴⁵⁶⁷⁸⁹')
+    return re.sub(r'\^(\d+)', lambda m: m.group(1).translate(pow_trans), s)
+
 def _print_str(expr: sp.Expr, cyclic_sum_name = 'Σ', cyclic_product_name = '∏',
                with_cyclic_parens = False, settings=None):
     """Advanced printing to handle cyclic expressions."""
-- 
2.43.0


From 7d21231eb981b1446aaa6ad834b29f0240eb503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:02 +0000
Subject: [PATCH 20/99] fix: latex of products of cyclic expressions was
 ambiguous

---
 triples/utils/expression/cyclic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 302a77f..0a241fb 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -654,6 +654,12 @@ def SymmetricProduct(expr, symbols, **kwargs):
 setattr(LatexPrinter, '_print_CyclicSum', lambda self, expr: CyclicSum._str_latex(self, expr))
 setattr(LatexPrinter, '_print_CyclicProduct', lambda self, expr: CyclicProduct._str_latex(self, expr))
 
+# A cyclic expression followed by other factors requires brackets, e.g. (\\prod a) (\\sum a)^2.
+# This is the same as the rule for sympy.Sum and sympy.Product.
+_LatexPrinter_needs_mul_brackets = LatexPrinter._needs_mul_brackets
+setattr(LatexPrinter, '_needs_mul_brackets', lambda self, expr, first=False, last=False:
+        (isinstance(expr, CyclicExpr) and not last) or _LatexPrinter_needs_mul_brackets(self, expr, first=first, last=last))
+
 setattr(StrPrinter, '_print_CyclicSum', lambda self, expr: CyclicSum._str_str(self, expr))
 setattr(StrPrinter, '_print_CyclicProduct', lambda self, expr: CyclicProduct._str_str(self, expr))
 
-- 
2.43.0


From 1924d991d1fec923932de03a7126fad4146e8304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:47 +0000
Subject: [PATCH 21/99] fix: prove_univariate_interval on the zero polynomial
 and with irrational end points or coefficients

---
 triples/core/structsos/pivoting/univariate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 316a5fd..21f0bab 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -22,7 +22,9 @@ def congruence(M: sp.Matrix) -> Optional[Tuple[sp.Matrix, sp.Matrix]]:
 
     Return None if M is not positive semidefinite.
     """
-    cong = _congruence(M)
+    # entries over algebraic fields must be simplified before their signs can be decided
+    sgn = lambda x: (lambda y: 1 if y > 0 else (-1 if y < 0 else 0))(radsimp(x))
+    cong = _congruence(M, signfunc=sgn)
     if cong is None:
         return None
     U, S = cong
@@ -778,7 +780,7 @@ def prove_univariate_interval(
                 trans = lambda p: p
                 trans_mul = lambda m: m
             else:
-                trans = lambda p: p.to_field().shift(-a)
+                trans = lambda p: p.compose((x - a).as_poly(x))
                 trans_mul = lambda m: m if m == 1 else (x - a)
         else:
             trans = lambda p: p.transform((b - x).as_poly(x), sp.S(1).as_poly(x))
@@ -803,7 +805,7 @@ def prove_univariate_interval(
         #     proof = proof.xreplace({x: (x - a)/(b - x)}).together()
 
         new_proof = []
-        n = poly.degree()
+        n = max(poly.degree(), 0) # the degree of the zero polynomial is -oo
         for multiplier, coeff_list, poly_list in proof:
             if multiplier == sp.S(1):
                 multiplier2 = sp.S(1) if n % 2 == 0 else (b - x)
-- 
2.43.0


From ca4bd6ae64ea49f23bad8021ef4d690e04646836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:47 +0000
Subject: [PATCH 22/99] fix: bivariate solver must not crash on a pair of
 opposite half planes

---
 triples/core/structsos/pivoting/bivariate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/pivoting/bivariate.py b/triples/core/structsos/pivoting/bivariate.py
index 854a21e..26fc9fa 100644
--- a/triples/core/structsos/pivoting/bivariate.py
+++ b/triples/core/structsos/pivoting/bivariate.py
@@ -174,6 +174,9 @@ def _sos_struct_bivariate_linear_ineq(poly, ineq_constraints, eq_constraints):
         # a = (v*y - z*x) / (v*w - u*z), b = (u*y - w*x) / (u*z - v*w)
         (u, v), expr1 = bound[0]
         (w, z), expr2 = bound[1]
+        if u*z - v*w == 0:
+            # opposite half planes, the feasible region is a line
+            return None
         y = uniquely_named_symbol('y', (a, b, *expr1.free_symbols, *expr2.free_symbols))
         poly2 = poly.subs({a: (v*y - z)/(v*w - u*z), b: (u*y - w)/(u*z - v*w)}).as_poly(y)
         sol = prove_univariate_interval(poly2, (0, sp.oo), return_raw=True)
-- 
2.43.0


From 7803d0a9c8c42ea78324daba61ea65c1c4c6e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:47 +0000
Subject: [PATCH 23/99] fix: LinearSOS must reject multipliers that vanish on
 the feasible set

---
 triples/core/linsos/linsos.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 8abb0a0..0afee8c 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -14,7 +14,7 @@ from scipy import __version__ as _SCIPY_VERSION
 from .basis import LinearBasis, LinearBasisTangent, LinearBasisTangentEven
 from .tangents import root_tangents
 from .correction import linear_correction
-from .updegree import lift_degree
+from .updegree import lift_degree, LinearBasisMultiplier
 from .solution import SolutionLinear
 from ..shared import homogenize_expr_list, clear_polys_by_symmetry, sanitize_input, sanitize_output
 from ...utils import findroot, RootsInfo, RootTangent
@@ -248,6 +248,31 @@ def _get_qmodule_list(poly: Poly, ineq_constraints: Dict[Poly, Expr],
     return (qmodule)
 
 
+def _is_valid_multiplier(y: List[Expr], basis: List[LinearBasis], symbols: Tuple[Symbol, ...], symmetry: MonomialManager,
+        ineq_constraints: Dict[Poly, Expr], eq_constraints: Dict[Poly, Expr]) -> bool:
+    """
+    The identity `f * multiplier = (something nonnegative)` proves nothing if the multiplier vanishes
+    on the feasible set. Reject multipliers that are zero or that are zero divisors modulo
+    an equality constraint (or a pair of opposite inequality constraints).
+    """
+    zero = Poly(0, *symbols)
+    part = sum((b._tangent(symbols, poly=True) * v for v, b in zip(y, basis) if isinstance(b, LinearBasisMultiplier)), zero)
+    multiplier = zero
+    for perm in symmetry.perm_group.elements:
+        multiplier = multiplier + Poly(part.as_expr().xreplace(dict(zip(symbols, perm(symbols)))), *symbols)
+    if multiplier.is_zero:
+        return False
+
+    ineqs = set(p.as_expr() for p in ineq_constraints)
+    eqs = list(eq_constraints) + [p for p in ineq_constraints if (-p).as_expr() in ineqs]
+    if any(multiplier.gcd(p).total_degree() > 0 for p in eqs):
+        return False
+    if len(eqs) > 1 and multiplier.total_degree() > 0 and \
+            sp.groebner([p.as_expr() for p in eqs], *symbols).contains(multiplier.as_expr()):
+        return False
+    return True
+
+
 @sanitize_output()
 @sanitize_input(homogenize=True, infer_symmetry=True, wrap_constraints=True)
 def LinearSOS(
@@ -363,6 +388,7 @@ def _LinearSOS(
     # remove duplicate tangents by symmetry
     # print('Tangents before removing duplicates:', tangents)
     tangents = clear_polys_by_symmetry(tangents, poly.gens, symmetry)
+    all_eq_constraints = eq_constraints
     eq_constraints = clear_polys_by_symmetry(eq_constraints.items(), poly.gens, symmetry)
     # print('Tangents after  removing duplicates:', tangents)
 
@@ -420,6 +446,11 @@ def _LinearSOS(
                 num_multipliers = len(lift_degree_info['basis']),
                 symmetry = symmetry
             )
+            if is_equal and not _is_valid_multiplier(y, basis, poly.gens, symmetry, ineq_constraints, all_eq_constraints):
+                # the multiplier vanishes on the feasible set, which does not prove anything
+                if verbose:
+                    print('The multiplier is degenerated.')
+                continue
             if is_equal or allow_numer > 0:
                 basis = _odd_basis_to_even(basis, poly.gens, ineq_constraints)
                 solution = SolutionLinear._from_y_basis(
-- 
2.43.0


From 48443cc16947455c6773ddc752fe820c5f505edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:52 +0000
Subject: [PATCH 24/99] fix: SDPSOS with preordering='none' must not crash on
 the constraint mapping

---
 triples/core/sdpsos/sdpsos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index 815d8cb..38e6a1d 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -589,7 +589,7 @@ def _SDPSOS(
 
     sos_problem = SOSProblem(poly, symmetry=symmetry)
 
-    qmodule_list = _get_qmodule_list(poly, ineq_constraints.items(),
+    qmodule_list = _get_qmodule_list(poly, list(ineq_constraints.items()),
                         ineq_constraints_with_trivial=ineq_constraints_with_trivial, preordering=preordering)
 
     # odd_degree_vars = [i for i in range(nvars) if poly.degree(i) % 2 == 1]
-- 
2.43.0


From 8bf7d1611a595ec99e8403b9f0ed8d906094c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:52 +0000
Subject: [PATCH 25/99] fix: a numerical SDP solution is registered with a (U,
 diag) decomposition

---
 triples/sdp/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 0715c4f..075812e 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -259,7 +259,7 @@ class SDPProblemBase(ABC):
 
                 def _force_return(self: SDPProblemBase, y):
                     self.register_y(y, perturb = True, propagate_to_parent = False)
-                    _decomp = dict((key, (s, d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
+                    _decomp = dict((key, (s, *d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
                     return y, _decomp
 
                 if allow_numer >= 3:
-- 
2.43.0


From 9f48f92431f61693ce7edc4fc5a3d73a60488d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 26/99] fix: an SDP transformation registers its child once,
 not twice

---
 triples/sdp/transform.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 0291108..c790514 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -90,9 +90,9 @@ class SDPCopyTransform(SDPTransformation):
 class SDPMatrixTransform(SDPTransformation):
     def __new__(cls, parent_node, columnspace = None, nullspace = None):
         if parent_node.is_dual:
-            return DualMatrixTransform(parent_node, columnspace, nullspace)
+            return DualMatrixTransform.__new__(DualMatrixTransform, parent_node, columnspace, nullspace)
         if parent_node.is_primal:
-            return PrimalMatrixTransform(parent_node, columnspace, nullspace)
+            return PrimalMatrixTransform.__new__(PrimalMatrixTransform, parent_node, columnspace, nullspace)
 
         raise ValueError("The parent node should be either primal or dual.")
         # return super().__new__(cls)
@@ -299,9 +299,9 @@ class SDPRowMasking(SDPMatrixTransform):
     """
     def __new__(cls, parent_node, masks: Dict[str, List[int]]):
         if parent_node.is_dual:
-            return DualRowMasking(parent_node, masks)
+            return DualRowMasking.__new__(DualRowMasking, parent_node, masks)
         if parent_node.is_primal:
-            return PrimalRowMasking(parent_node, masks)
+            return PrimalRowMasking.__new__(PrimalRowMasking, parent_node, masks)
         raise ValueError("The parent node should be either primal or dual.")
 
     def __init__(self, parent_node: 'SDPTransformMixin', masks: Dict[str, List[int]]):
@@ -506,7 +506,7 @@ class SDPVectorTransform(SDPTransformation):
 class SDPDeparametrization(SDPTransformation):
     def __new__(cls, parent_node):
         if parent_node.is_dual:
-            return DualDeparametrization(parent_node)
+            return DualDeparametrization.__new__(DualDeparametrization, parent_node)
         if parent_node.is_primal:
             raise NotImplementedError("Primal deparametrization is not implemented yet.")
         raise ValueError("The parent node should be either primal or dual.")
-- 
2.43.0


From b875f2e2b7b6f2995433ddc972073d73d072085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 27/99] fix: constraining an SDP to a full column space must
 not crash

---
 triples/sdp/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index c790514..7691931 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -196,8 +196,8 @@ class DualMatrixTransform(SDPMatrixTransform):
 
 
         # eq * y + x0 = 0 => y = trans_x0 + trans_space * z
-        eq_list = sp.Matrix.vstack(*eq_list)
-        x0_list = sp.Matrix(x0_list)
+        eq_list = sp.Matrix.vstack(sp.zeros(0, parent_node.dof), *eq_list)
+        x0_list = sp.Matrix(len(x0_list), 1, x0_list)
         trans_x0, trans_space = solve_undetermined_linear(eq_list, -x0_list)
         self._trans_x0, self._trans_space = trans_x0, trans_space
 
-- 
2.43.0


From e76614ecd7664dfe445309860db1ab95d1d175c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 28/99] fix: an SDP whose matrices are all constrained to zero
 lifts its solution

---
 triples/sdp/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 7691931..ee3f9ca 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -219,6 +219,10 @@ class DualMatrixTransform(SDPMatrixTransform):
 
             new_x0_and_space[key] = (new_x0, new_space)
 
+        if len(new_x0_and_space) == 0:
+            # all matrices are zero and nothing depends on the remaining variables
+            self._trans_space = trans_space[:, :0]
+
         # print('Used time', time() - time0)
         return self._create_dual_problem(new_x0_and_space)
 
-- 
2.43.0


From c8b882fa27601841ef979453ca8809172f3ef4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 29/99] fix: nullspaces passed to a child problem account for
 column spaces that are not orthonormal

---
 triples/sdp/transform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index ee3f9ca..0b3fa42 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -235,7 +235,13 @@ class DualMatrixTransform(SDPMatrixTransform):
         return parent_node
 
     def propagate_nullspace_to_child(self, nullspace: Dict[str, sp.Matrix]):
-        nullspace = {key: matmul(self._columnspace[key].T, nullspace[key]) for key in self.child_node.keys()}
+        # The child matrix is U' * S * U where S = U * M * U'. So S * N = 0 if and only if
+        # M * (U' * N) = 0, if and only if (U' * S * U) * ((U'U)^{-1} * U' * N) = 0.
+        def _pull(U, N):
+            if is_empty_matrix(N):
+                return sp.zeros(U.shape[1], 0)
+            return (U.T * U).LUsolve(matmul(U.T, N))
+        nullspace = {key: _pull(self._columnspace[key], nullspace[key]) for key in self.child_node.keys()}
         return nullspace
 
 class PrimalMatrixTransform(SDPMatrixTransform, SDPCopyTransform):
-- 
2.43.0


From fa8f926d67c68d50591fffe5120162412ed441ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 30/99] fix: constrain_zero_diagonals without zero diagonals
 returns the problem itself

---
 triples/sdp/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 0b3fa42..d02fb91 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -354,7 +354,7 @@ class SDPRowMasking(SDPMatrixTransform):
             if not recursive:
                 break
             zero_diagonals = sdp._get_zero_diagonals()
-        return sdp._transforms[-1] if sdp._transforms else SDPIdentityTransform(parent_node)
+        return sdp._transforms[-1] if sdp is not parent_node else SDPIdentityTransform(parent_node)
 
     def propagate_nullspace_to_child(self, nullspace: Dict[str, Matrix]):
         # extract the unmasked rows of the nullspace
-- 
2.43.0


From 641d55e36bb7ef001fe5bf3e9c706b547d6e08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:22 +0000
Subject: [PATCH 31/99] fix: nullspaces can be passed through a vector
 transformation of an SDP

---
 triples/sdp/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index d02fb91..bc125e3 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -512,6 +512,9 @@ class SDPVectorTransform(SDPTransformation):
             parent_node.propagate_to_parent(recursive = recursive)
         return parent_node
 
+    def propagate_nullspace_to_child(self, nullspace: Dict[str, sp.Matrix]):
+        return nullspace
+
 
 class SDPDeparametrization(SDPTransformation):
     def __new__(cls, parent_node):
-- 
2.43.0


From 6f44580903e96308fda4b6e8ed39e471d6e67a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 32/99] fix: a numerical SDP solution is registered as a sympy
 vector

---
 triples/sdp/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 075812e..5c90035 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -258,6 +258,7 @@ class SDPProblemBase(ABC):
                 self._ys.append(y)
 
                 def _force_return(self: SDPProblemBase, y):
+                    y = Matrix(y.size, 1, y.flatten().tolist())
                     self.register_y(y, perturb = True, propagate_to_parent = False)
                     _decomp = dict((key, (s, *d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
                     return y, _decomp
-- 
2.43.0


From ab36b25165dc87d2a193360074d9bbcd947214f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 33/99] fix: a dual SDP without matrices can be solved

---
 triples/sdp/backend/caller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/backend/caller.py b/triples/sdp/backend/caller.py
index 5ff9a5b..a890e4e 100644
--- a/triples/sdp/backend/caller.py
+++ b/triples/sdp/backend/caller.py
@@ -56,7 +56,7 @@ def _create_numerical_dual_sdp(
     """
     Create a numerical dual SDP problem.
     """
-    dof = next(iter(x0_and_space.values()))[1].shape[1]
+    dof = next(iter(x0_and_space.values()))[1].shape[1] if len(x0_and_space) else 0
     if dof == 0:
         # nothing to optimize
         return DegeneratedDualBackend(dof)
-- 
2.43.0


From 1d2bdb91f91b074a0b0fb0f6fab1716ba35c9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 34/99] fix: empty blocks of a primal SDP are not passed to the
 backend

---
 triples/sdp/backend/caller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/sdp/backend/caller.py b/triples/sdp/backend/caller.py
index a890e4e..cfc9065 100644
--- a/triples/sdp/backend/caller.py
+++ b/triples/sdp/backend/caller.py
@@ -195,6 +195,8 @@ def _create_numerical_primal_sdp(
 
     backend: PrimalBackend = _PRIMAL_BACKENDS[solver](x0)
     for key, space_mat in space.items():
+        if space_mat.shape[1] == 0:
+            continue
         backend.add_linear_matrix_equality(space_mat, min_eigen.get(key, 0))
 
     if add_relax_var_nonnegative_inequality:
-- 
2.43.0


From d2319008adc0b7c500b9caf609dffbcda7b0fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 35/99] fix: the CLARABEL primal backend requires clarabel

---
 triples/sdp/backend/clarabel_sdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/sdp/backend/clarabel_sdp.py b/triples/sdp/backend/clarabel_sdp.py
index 8b01c10..7578c61 100644
--- a/triples/sdp/backend/clarabel_sdp.py
+++ b/triples/sdp/backend/clarabel_sdp.py
@@ -99,6 +99,7 @@ class DualBackendCLARABEL(DualBackend):
 
 
 class PrimalBackendCLARABEL(PrimalBackend):
+    _dependencies = ('clarabel', 'scipy')
     def __init__(self, x0) -> None:
         super().__init__(x0)
 
-- 
2.43.0


From 0d65017688549afb51f984c4691261532dec5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 36/99] fix: SDPPrimal.project returns symmetric matrices that
 satisfy the equations or refuses

---
 triples/sdp/primal.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 5f6c801..caeaeda 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -146,21 +146,33 @@ class SDPPrimal(PrimalTransformMixin):
         if isinstance(y, ndarray):
             y = Matrix(y.flatten())
         A = self.full_space
+
+        # the matrices are symmetric, so we project onto the symmetric solutions
+        transpose, cnt = [], 0
+        for m in self.size.values():
+            transpose += [cnt + j*m + i for i in range(m) for j in range(m)]
+            cnt += m**2
+        y_transpose = y.extract(transpose, [0])
+        if y_transpose != y:
+            y = (y + y_transpose) / 2
+
         r = self._x0 - A * y
         if all(i == 0 for i in r):
             return y
+        A_sym = (A + A.extract(list(range(A.rows)), transpose)) / 2
         dy = None
-        if A.rows >= A.cols:
-            dy = A.LDLsolve(r)
-        elif allow_numerical_solver and any(isinstance(_, Float) for _ in r):
+        if allow_numerical_solver and any(isinstance(_, Float) for _ in r):
             # use numerical solver for float numbers
-            A2 = np.array(A).astype(np.float64)
+            A2 = np.array(A_sym).astype(np.float64)
             r2 = np.array(r).astype(np.float64)
             dy2 = np.linalg.lstsq(A2, r2, rcond=None)[0]
             dy = Matrix(dy2)
         else:
-            dy = A.pinv_solve(r, arbitrary_matrix=Matrix.zeros(A.cols, 1))
-        return y + dy
+            dy = A_sym.pinv_solve(r, arbitrary_matrix=Matrix.zeros(A.cols, 1))
+        y = y + dy
+        if all(i.is_Rational for i in y) and any(i != 0 for i in self._x0 - A * y):
+            raise ValueError("The equality constraints are inconsistent.")
+        return y
 
     def _get_defaulted_configs(self) -> List[List[Any]]:
         sum_trace = np.concatenate([np.eye(m).flatten() for m in self.size.values()])
-- 
2.43.0


From 027a41bb5214d79d8a86caf4c53277c354a85ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 37/99] fix: an unsolved primal child problem does not crash
 its parent

---
 triples/sdp/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index bc125e3..cc33da2 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -440,6 +440,8 @@ class PrimalRowMasking(SDPRowMasking):
 
     def propagate_to_parent(self, recursive: bool = True):
         parent_node, child_node = self.parent_node, self.child_node
+        if child_node.y is None:
+            return parent_node
         mats = {key: sp.zeros(m, m) for key, m in parent_node.size.items()}
         y = sp.zeros(parent_node.dof, 1)
         y_offset = 0
-- 
2.43.0


From 1acb4176ee5582fe49b8ac5a72fa03c078fd6fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 38/99] fix: use_default_configs reaches the derived problem
 that is solved

---
 triples/sdp/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 5c90035..b1b6334 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -360,6 +360,7 @@ class SDPProblemBase(ABC):
                     min_eigen = min_eigen,
                     scaling = scaling,
                     solver = solver,
+                    use_default_configs = use_default_configs,
                     allow_numer = allow_numer,
                     verbose = verbose,
                     solve_child = solve_child,
-- 
2.43.0


From c42d7c97b5b735c18c59f74a21a8f04ede4cfa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 39/99] fix: objectives and constraints of a primal SDP refer
 to the matrices, not to their shifts by min_eigen

---
 triples/sdp/backend/backend.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/triples/sdp/backend/backend.py b/triples/sdp/backend/backend.py
index 0256176..dc9ff9e 100644
--- a/triples/sdp/backend/backend.py
+++ b/triples/sdp/backend/backend.py
@@ -287,6 +287,26 @@ class PrimalBackend(SDPBackend, ABC):
         self._eigen_relaxations.append((k, b))
         return self._add_linear_matrix_equality(space)
 
+    def _shift_eigen(self, vector: np.ndarray) -> Tuple[np.ndarray, float]:
+        """
+        Given v with v @ vec(S), return (w, c) such that v @ vec(S) = w @ vec(S') + c
+        where Si = Si' + (ki * r + bi)*I.
+        """
+        vector = self.extend_vector(vector).flatten()
+        const = 0.
+        for m, (k, b), v in zip(self._mat_size, self._eigen_relaxations, self.split_vector(vector)):
+            trace = v[::m+1].sum()
+            vector[-1] += k * trace
+            const += b * trace
+        return vector, const
+
+    def add_constraint(self, constraint: np.ndarray, rhs: float = 0, operator='__ge__') -> None:
+        constraint, const = self._shift_eigen(constraint)
+        return super().add_constraint(constraint, float(rhs) - const, operator)
+
+    def set_objective(self, objective: np.ndarray) -> None:
+        return super().set_objective(self._shift_eigen(objective)[0])
+
     def _set_objective(self, objective: np.ndarray) -> None:
         self._objective = objective
 
-- 
2.43.0


From a3b40ca59e6ce92312b725d1ec8c614d068908d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 40/99] fix: min_eigen may be a dict of plain numbers

---
 triples/sdp/backend/caller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/backend/caller.py b/triples/sdp/backend/caller.py
index cfc9065..0c68b4c 100644
--- a/triples/sdp/backend/caller.py
+++ b/triples/sdp/backend/caller.py
@@ -71,7 +71,7 @@ def _create_numerical_dual_sdp(
 
     if isinstance(min_eigen, (float, int, tuple)):
         min_eigen = {key: min_eigen for key in x0_and_space.keys()}
-        min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
+    min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
 
 
     if scaling > 0:
@@ -178,7 +178,7 @@ def _create_numerical_primal_sdp(
 
     if isinstance(min_eigen, (float, int, tuple)):
         min_eigen = {key: min_eigen for key in space.keys()}
-        min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
+    min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
 
     x0 = np_array(x0, flatten=True)
     space = {key: np_array(space_mat) for key, space_mat in space.items()}
-- 
2.43.0


From d485c942332a399d5047200c7f306ddc3cdd0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 41/99] fix: CVXOPT options of one SDP solve do not leak into
 later ones

---
 triples/sdp/backend/cvxopt_sdp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triples/sdp/backend/cvxopt_sdp.py b/triples/sdp/backend/cvxopt_sdp.py
index f34e7c0..dc4c9e8 100644
--- a/triples/sdp/backend/cvxopt_sdp.py
+++ b/triples/sdp/backend/cvxopt_sdp.py
@@ -46,13 +46,13 @@ class DualBackendCVXOPT(DualBackend):
     def solve(self, solver_options = {}) -> np.ndarray:
         from cvxopt import solvers
 
-        solvers.options['show_progress'] = False
+        options = {**solvers.options, 'show_progress': False}
 
         # configure kktsolver to handle ValueError: Rank(A) < p or Rank([P; A; G]) < n
         # https://ask.csdn.net/questions/1102440
-        solvers.options['kktreg'] = 1e-9
-        solvers.options.update(solver_options)
-        sol = solvers.sdp(self._c, Gs=self._Gs, hs=self._hs, kktsolver='ldl')
+        options['kktreg'] = 1e-9
+        options.update(solver_options)
+        sol = solvers.sdp(self._c, Gs=self._Gs, hs=self._hs, kktsolver='ldl', options=options)
         self.y = sol['x']
         self.solution = sol
 
-- 
2.43.0


From 1e08452a8157daca27e9b38b907aea0e6def6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 42/99] fix: symbolic matrices of a primal SDP of size two or
 more

---
 triples/sdp/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index caeaeda..7e308b6 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -101,7 +101,7 @@ class SDPPrimal(PrimalTransformMixin):
         if y is None:
             y = []
             for i, m in enumerate(self.size.values()):
-                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(j, m)]
+                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(m)]
             y = Matrix(y)
         else:
             m = sum(space.shape[1] for space in self._space.values())
-- 
2.43.0


From 058c59ed315e98c2a0f71da2f25e2a3b3fc5df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 43/99] fix: Mat2Vec.vec2mat accepts the flat arrays that
 mat2vec returns

---
 triples/sdp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index cfe922e..ca14604 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -1,5 +1,5 @@
 from contextlib import contextmanager
-from math import sqrt
+from math import prod, sqrt
 from typing import Union, Optional, Tuple, List, Dict, Callable, Generator, Any
 
 from numpy import zeros as np_zeros
@@ -192,7 +192,7 @@ class Mat2Vec:
             Symmetric matrix.
         """
         if mode == cls.DIRECT:
-            n = round((v.shape[0] * v.shape[1]) ** .5)
+            n = cls.length_of_mat(prod(v.shape), mode)
             return v.reshape(n, n)
         elif mode == cls.UPPER:
             return cls.symmetric_matrix_from_upper_vec(v)
-- 
2.43.0


From feb91a10deacb49b05ebc1b80196ecb5cacd2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 44/99] fix: SDP matrix entries may be given in unexpanded form

---
 triples/sdp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index ca14604..480e2a0 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -412,7 +412,7 @@ def decompose_matrix(
     for i in range(rows):
         for j in range(cols):
             expr = M[i, j]
-            terms = collect(expr, variables, evaluate=False)
+            terms = collect(expr.expand(), variables, evaluate=False)
 
             constant_term = terms.pop(singleton.One, 0)  # Extract and remove constant term for x
             x[i * cols + j] = constant_term
-- 
2.43.0


From 174d7b9e344f78e5b2c9440c80c9ba727f5c5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 45/99] fix: the right hand side of (expr, rhs, operator)
 constraints was dropped

---
 triples/sdp/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index 480e2a0..e171e8b 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -448,6 +448,7 @@ def exprs_to_arrays(locals: Dict[str, Any], symbols: List[Symbol],
         If it is a Relational, it returns the operator also.
     """
     op_list = []
+    rhs_list = []
     vec_list = []
     index_list = []
     result = [None for _ in range(len(exprs))]
@@ -467,6 +468,7 @@ def exprs_to_arrays(locals: Dict[str, Any], symbols: List[Symbol],
         if isinstance(expr, (Expr, int, float)):
             vec_list.append(expr)
             op_list.append(op)
+            rhs_list.append(c)
             index_list.append(i)
         else:
             if op is not None:
@@ -479,9 +481,9 @@ def exprs_to_arrays(locals: Dict[str, Any], symbols: List[Symbol],
     for j in range(len(index_list)):
         i = index_list[j]
         if op_list[j] is not None:
-            result[i] = (A[j,:], -const[j], op_list[j])
+            result[i] = (A[j,:], rhs_list[j] - const[j], op_list[j])
         else:
-            result[i] = (A[j,:], -const[j])
+            result[i] = (A[j,:], rhs_list[j] - const[j])
     return result
 
 
-- 
2.43.0


From 5e37aa373fb2b056f17997ad5b3bf630ed5b4644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 46/99] fix: sum_of_squares_multiple does not change the
 poly_reader_configs it is given

---
 triples/core/sum_of_squares.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index ca73026..c9783bc 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -197,8 +197,7 @@ def sum_of_squares_multiple(
         if key in ('LinearSOS', 'SDPSOS'):
             configs[key]['verbose'] = verbose_sos
 
-    if 'ignore_errors' not in poly_reader_configs:
-        poly_reader_configs['ignore_errors'] = True
+    poly_reader_configs = {'ignore_errors': True, **poly_reader_configs}
     read_polys = PolyReader(polys, **poly_reader_configs)
     read_polys_zip = zip(read_polys.polys, read_polys)
     if verbose_progress:
-- 
2.43.0


From 93aafcc6003c6902468ab7ae460a505f6828a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 47/99] fix: sum_of_squares_multiple can save to a file in the
 current directory

---
 triples/core/sum_of_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index c9783bc..66d920a 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -305,7 +305,7 @@ def _process_records(
             filename = save_result
         else:
             raise ValueError('save_result must be a directory / csv file name / True.')
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         records_save.to_csv(filename)
 
     return records_pd
-- 
2.43.0


From bd0a31ffba6732124311e40c6aaa1c72ab0c26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 48/99] fix: rational multipliers over several equality
 constraints do not crash LinearSOS

---
 triples/core/linsos/linsos.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 0afee8c..4466b8b 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -267,9 +267,12 @@ def _is_valid_multiplier(y: List[Expr], basis: List[LinearBasis], symbols: Tuple
     eqs = list(eq_constraints) + [p for p in ineq_constraints if (-p).as_expr() in ineqs]
     if any(multiplier.gcd(p).total_degree() > 0 for p in eqs):
         return False
-    if len(eqs) > 1 and multiplier.total_degree() > 0 and \
-            sp.groebner([p.as_expr() for p in eqs], *symbols).contains(multiplier.as_expr()):
-        return False
+    if len(eqs) > 1 and multiplier.total_degree() > 0:
+        domain = multiplier.domain
+        for p in eqs:
+            domain = domain.unify(p.domain)
+        if sp.groebner([p.as_expr() for p in eqs], *symbols, domain=domain.get_field()).contains(multiplier.as_expr()):
+            return False
     return True
 
 
-- 
2.43.0


From c3bfd49c24acd41cb83ed13c83249f3f93cee041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:37 +0000
Subject: [PATCH 49/99] fix: dehomogenize leaves no cyclic expression over the
 homogenizer

---
 triples/utils/expression/solution.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 0282aa5..685d9e8 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -462,11 +462,14 @@ class SolutionSimple(Solution):
             # CyclicSum(a**2, (a,b,c,d), PermutationGroup(Permutation([1,2,0,3])))
             # => CyclicSum(a**2, (a,b,c), PermutationGroup(Permutation([1,2,0])))
             f, symbols, perm_group = expr.args
-            n = len(symbols)
-            if symbols[n-1] == homogenizer and len(perm_group.orbit(n-1)) == 1:
-                new_perm = PermutationGroup(*[Permutation(_.array_form[:-1]) for _ in perm_group.args])
-                return expr.func(f, symbols[:n-1], new_perm)
-            return expr
+            if homogenizer not in symbols:
+                return expr
+            i = symbols.index(homogenizer)
+            if len(symbols) > 1 and len(perm_group.orbit(i)) == 1:
+                new_perm = PermutationGroup(*[Permutation([j - (j > i) for j in _.array_form if j != i]) for _ in perm_group.args])
+                return expr.func(f, symbols[:i] + symbols[i+1:], new_perm)
+            # the homogenizer is only a dummy symbol of the cyclic expression
+            return expr.doit(deep=False).xreplace({homogenizer: S.One})
         def dehom(f):
             f = f.xreplace({homogenizer: 1})
             f = f.replace(lambda x: isinstance(x, CyclicExpr), _deflat_perm_group)
-- 
2.43.0


From 18466e0039fa2a84cdceccdc590d03e96ae7181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:22 +0000
Subject: [PATCH 50/99] fix: Solution.is_equal for problems without symbols

---
 triples/utils/expression/solution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 685d9e8..e2045db 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -293,7 +293,9 @@ class SolutionSimple(Solution):
         if self._is_equal is None:
             symbols = self.gens # | set(self.numerator.free_symbols) | set(self.multiplier.free_symbols)
             difference = (self.problem  * self.multiplier - self.numerator)
-            difference = difference.doit().as_poly(*symbols)
+            difference = difference.doit()
+            symbols = symbols or tuple(difference.free_symbols)
+            difference = difference.as_poly(*symbols) if symbols else difference.expand()
             self._is_equal = difference.is_zero
 
         return self._is_equal
-- 
2.43.0


From 7ba28a5708e0b36e52239da053a75e61d8f165de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 51/99] fix: _degree_combinations enumerates one variable
 exactly once

---
 triples/core/linsos/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/core/linsos/basis.py b/triples/core/linsos/basis.py
index a5dd767..c968cc1 100644
--- a/triples/core/linsos/basis.py
+++ b/triples/core/linsos/basis.py
@@ -259,6 +259,8 @@ def _degree_combinations(d_list: List[int], degree: int, require_equal = False)
                     current_powers[i] = (degree - current_degree) // d_list[i]
                     powers.append(tuple(current_powers))
             i -= 1
+            if i < 0:
+                break
             current_powers[i] += 1
             current_degree += d_list[i]
         else:
-- 
2.43.0


From bba412812bce4168b1e10cba5d329b3a8f91b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 52/99] fix: cross_exprs pairs the powers with the expressions
 they were computed for

---
 triples/core/linsos/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/linsos/basis.py b/triples/core/linsos/basis.py
index c968cc1..0f0753c 100644
--- a/triples/core/linsos/basis.py
+++ b/triples/core/linsos/basis.py
@@ -301,9 +301,9 @@ def cross_exprs(exprs: List[sp.Expr], symbols: Tuple[sp.Symbol, ...], degree: in
     poly_degrees = [_.total_degree() for _ in polys]
 
     # remove zero-degree polynomials
-    polys = [p for p, d in zip(polys, poly_degrees) if d > 0]
+    exprs = [e for e, d in zip(exprs, poly_degrees) if d > 0]
     poly_degrees = [d for d in poly_degrees if d > 0]
-    if len(polys) == 0:
+    if len(exprs) == 0:
         return []
 
     # find all a1*d1 + a2*d2 + ... + an*dn <= degree
-- 
2.43.0


From a1f8ffe3e53ddb1dfa1dd85955b0341a101d43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 53/99] fix: rationalize_bound yields strictly smaller numbers
 for direction -1

---
 triples/utils/roots/rationalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 132c58b..9da6a7d 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -221,7 +221,7 @@ def rationalize_bound(v, direction = 1, roundings = None, compulsory = True):
     if direction == 0:
         compare = lambda a, b: True
     else:
-        compare = lambda a, b: True if ((a > b) ^ (direction == -1)) else False
+        compare = lambda a, b: (a < b) if direction == -1 else (a > b)
 
     previous_v = None
     for rounding in roundings:
-- 
2.43.0


From 3127facc07fe819afc65359e5941be97bb3092b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 54/99] fix: common_region_of_conics accepts the rational point
 of a conic

---
 triples/utils/roots/rationalize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 9da6a7d..56550b5 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -425,7 +425,8 @@ def common_region_of_conics(polys: List[sp.Poly], _tol = 1e-10) -> Optional[Tupl
         gcd = sp.gcd(f1, f2).as_poly(x, y)
         if gcd.total_degree() == 2:
             # f1 is a multiple of f2
-            yield rationalize_quadratic_curve(f1, one_point=True)
+            point = rationalize_quadratic_curve(f1, one_point=True)
+            yield (point[x], point[y]) if point is not None else None
         elif gcd.total_degree() == 1:
             a, b, c = [gcd.coeff_monomial(_) for _ in [(1,0),(0,1),(0,0)]]
             # ax + by + c = 0
-- 
2.43.0


From 30a24c10677470920ce4ec5e3ade0ed27a67ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 55/99] fix: rationalize_quadratic_curve handles degenerate
 conics and always returns a mapping

---
 triples/utils/roots/rationalize.py | 32 +++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 56550b5..c1c52b3 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -324,9 +324,18 @@ def rationalize_quadratic_curve(
             raise ValueError(f"Given point does not {point} lie on the curve.")
     else:
         curve = curve.as_poly(x)
-        if curve.degree() == 1:
-            x = (-curve.coeffs()[1] / curve.coeffs()[0]).factor()
-            return (x, y)
+        if curve.degree() < 1:
+            # the curve is a union of lines parallel to the x-axis
+            y_ = next((_ for _ in sp.roots(curve.as_expr(), y) if isinstance(_, sp.Rational)), None)
+            if y_ is None:
+                return
+            return {x: sp.S(0) if one_point else gen, y: y_}
+        elif curve.degree() == 1:
+            x_ = (-curve.all_coeffs()[1] / curve.all_coeffs()[0]).factor()
+            if not one_point:
+                return {x: x_.subs(y, gen), y: gen}
+            # the denominator is at most linear in y
+            return next({x: x_.subs(y, _), y: _} for _ in (sp.S(0), sp.S(1)) if x_.subs(y, _).is_finite)
         elif curve.degree() > 2:
             return
         if curve.all_coeffs()[0] < 0:
@@ -336,12 +345,29 @@ def rationalize_quadratic_curve(
         curve_y = -curve.all_coeffs()[1]**2/4/curve.all_coeffs()[0] + curve.all_coeffs()[2]
         curve_y = curve_y.as_poly(y)
 
+        if curve_y.degree() < 2:
+            # a parabola or two lines parallel to each other
+            x_, y_ = sp.S(0), sp.S(0)
+            if curve_y.degree() == 1:
+                y_ = -curve_y.all_coeffs()[1] / curve_y.all_coeffs()[0]
+            else:
+                x_ = sp.sqrt(-curve_y.as_expr() / curve.all_coeffs()[0])
+                if not isinstance(x_, sp.Rational):
+                    return
+            x_ = x_ - (curve.all_coeffs()[1] / curve.all_coeffs()[0]).subs(y, y_) / 2
+            return rationalize_quadratic_curve(curve.as_expr().as_poly(x, y), gen, {x: x_, y: y_}, one_point)
+
         # curve = a*(x-...)^2 + b*(y-...)^2 + const = 0
         const = -curve_y.all_coeffs()[1]**2/4/curve_y.all_coeffs()[0] + curve_y.all_coeffs()[2]
         x0 = -curve.all_coeffs()[1]/2/curve.all_coeffs()[0]
         y0 = -curve_y.all_coeffs()[1]/2/curve_y.all_coeffs()[0]
         a, b, c = curve.all_coeffs()[0], curve_y.all_coeffs()[0], const
         
+        if c == 0:
+            # the center lies on the curve
+            point = {x: x0.subs(y, y0), y: y0}
+            return rationalize_quadratic_curve(curve.as_expr().as_poly(x, y), gen, point, one_point)
+
         # cancel the denominator
         r = cancel_denominator((a,b,c))
         a, b, c = a / r, b / r, c / r
-- 
2.43.0


From 9f7a95037b90d17deed6a89609a4e299b521c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 56/99] fix: algebraic roots whose coordinates generate a
 composite field

---
 triples/utils/roots/roots.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 4a20887..e88ce67 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -205,7 +205,13 @@ class RootAlgebraic(Root):
                 if self.K is not None:
                     break
         if self.root_anp is None:
-            self.root_anp = self.root
+            irrational = [r for r in root if not isinstance(r, sp.Rational)]
+            if len(irrational) > 1:
+                # no coordinate generates all the others
+                self.K = sp.QQ.algebraic_field(*irrational)
+                self.root_anp = [self.K.from_sympy(r) for r in root]
+            else:
+                self.root_anp = self.root
     
         if self.K is None:
             self._inv_sum = sp.S(1) / sum(self.root_anp)
-- 
2.43.0


From c5c35b6ddcca6b35fa4be7f03c5aad4c3599fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 57/99] fix: RootAlgebraic.subs returns expressions that are no
 rational functions as they are

---
 triples/utils/roots/roots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index e88ce67..b30f7f6 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -317,7 +317,7 @@ class RootAlgebraic(Root):
             results.append(s)
 
         if to_sympy:
-            results = [self.K.to_sympy(r) for r in results]
+            results = [r if isinstance(r, sp.Basic) else self.K.to_sympy(r) for r in results]
         if is_single_expr:
             return results[0]
         if not to_sympy:
-- 
2.43.0


From 193fd576e70fcc6888ba293a0edf39542d86f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 58/99] fix: a proof request without root finding is answered

---
 web_main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web_main.py b/web_main.py
index 8c91930..aab9fa1 100644
--- a/web_main.py
+++ b/web_main.py
@@ -194,6 +194,7 @@ def findroot(sid, **kwargs):
     tangents : list[str]
         The tangents to the roots.    
     """
+    rootsinfo = None
     if 'findroot' in kwargs['actions']:
         poly = kwargs['poly']
         grid = kwargs.get('grid', None)
-- 
2.43.0


From 6af27de02ecc11b2e1847c8328919c9e227fccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:52 +0000
Subject: [PATCH 59/99] fix: texts with a denominator in any variable are
 rewritten to the numerator

---
 triples/gui/sos_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 835367e..92bce60 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -138,7 +138,7 @@ class SOS_Manager():
                 elif standardize_text == 'expand':
                     triv_group = PermutationGroup([Permutation(list(range(len(poly.gens))))])
                     txt2 = poly_get_standard_form(poly, triv_group, omit_mul=omit_mul, omit_pow=omit_pow)
-            elif not denom.degree() == 0:
+            elif not denom.total_degree() == 0:
                 txt2 = poly_get_standard_form(poly, perm)
             if isinstance(txt2, str):
                 txt = txt2
-- 
2.43.0


From b04ff51d569c8bbfce0a634f8bdeb08f6518be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 60/99] fix: a failure while finding roots does not suppress
 the proof report

---
 web_main.py | 74 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/web_main.py b/web_main.py
index aab9fa1..2e5c7bf 100644
--- a/web_main.py
+++ b/web_main.py
@@ -196,41 +196,45 @@ def findroot(sid, **kwargs):
     """
     rootsinfo = None
     if 'findroot' in kwargs['actions']:
-        poly = kwargs['poly']
-        grid = kwargs.get('grid', None)
-        rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
-        tangents = kwargs.get('tangents')
-        if tangents is None:
-            tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
-            socketio.emit(
-                'rootangents',
-                {
-                    'rootsinfo': rootsinfo.gui_description,
-                    'tangents': tangents,
-                    'timestamp': kwargs.get('timestamp', 0)
-                },
-                to=sid
-            )
-        elif 'sos' in kwargs['actions']:
-            tangents = []
-            for tg in kwargs['tangents'].split('\n'):
-                if len(tg) > 0:
-                    try:
-                        tg = pl(tg, gens=kwargs['gens'], perm=kwargs['perm'])
-                        if tg is not None:
-                            # and (tg.domain in (sp.ZZ, sp.QQ)):
-                            tg = tg.as_expr()
-                            # tangents.append(RootTangent(tg))
-                            if 'configs' not in kwargs:
-                                kwargs['configs'] = {'LinearSOS': {'tangents': []}}
-                            elif 'LinearSOS' not in kwargs['configs']:
-                                kwargs['configs']['LinearSOS'] = {'tangents': []}
-                            elif 'tangents' not in kwargs['configs']['LinearSOS']:
-                                kwargs['configs']['LinearSOS']['tangents'] = []
-                            kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
-                    except:
-                        pass
-            rootsinfo.tangents = tangents
+        try:
+            poly = kwargs['poly']
+            grid = kwargs.get('grid', None)
+            rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
+            tangents = kwargs.get('tangents')
+            if tangents is None:
+                tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
+                socketio.emit(
+                    'rootangents',
+                    {
+                        'rootsinfo': rootsinfo.gui_description,
+                        'tangents': tangents,
+                        'timestamp': kwargs.get('timestamp', 0)
+                    },
+                    to=sid
+                )
+            elif 'sos' in kwargs['actions']:
+                tangents = []
+                for tg in kwargs['tangents'].split('\n'):
+                    if len(tg) > 0:
+                        try:
+                            tg = pl(tg, gens=kwargs['gens'], perm=kwargs['perm'])
+                            if tg is not None:
+                                # and (tg.domain in (sp.ZZ, sp.QQ)):
+                                tg = tg.as_expr()
+                                # tangents.append(RootTangent(tg))
+                                if 'configs' not in kwargs:
+                                    kwargs['configs'] = {'LinearSOS': {'tangents': []}}
+                                elif 'LinearSOS' not in kwargs['configs']:
+                                    kwargs['configs']['LinearSOS'] = {'tangents': []}
+                                elif 'tangents' not in kwargs['configs']['LinearSOS']:
+                                    kwargs['configs']['LinearSOS']['tangents'] = []
+                                kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
+                        except:
+                            pass
+                rootsinfo.tangents = tangents
+        except Exception:
+            # the proof is still attempted and reported
+            pass
     if 'sos' in kwargs['actions']:
         kwargs['rootsinfo'] = rootsinfo
         sum_of_squares(sid, **kwargs)
-- 
2.43.0


From 855828af8ba327b3df4c052f8ad123bf62ea31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 61/99] fix: a proof that cannot be formatted is reported like
 one not found

---
 web_main.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/web_main.py b/web_main.py
index 2e5c7bf..e53a3e1 100644
--- a/web_main.py
+++ b/web_main.py
@@ -291,6 +291,12 @@ def sum_of_squares(sid, **kwargs):
         )
 
         assert solution is not None, 'No solution found.'
+
+        # # remove the aligned environment
+        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
+        latex_ = solution.str_latex#.replace('aligned', 'align*')
+        txt_ = solution.str_txt
+        formatted_ = solution.str_formatted
     except Exception as e:
         # raise e
         return socketio.emit(
@@ -300,14 +306,9 @@ def sum_of_squares(sid, **kwargs):
             to=sid
         )
 
-    if isinstance(solution, SolutionSimple):
-        # # remove the aligned environment
-        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
-        latex_ = solution.str_latex#.replace('aligned', 'align*')
-
     return socketio.emit(
         'sos',
-        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
+        {'latex': latex_, 'txt': txt_, 'formatted': formatted_, 'success': True,
             'timestamp': kwargs.get('timestamp', 0)},
         to=sid
     )
-- 
2.43.0


From 3533026eab26568d22692de4da4e362df642f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 62/99] fix: SOS_Manager.sum_of_squares returns None when
 nothing is found

---
 triples/gui/sos_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 92bce60..edfdb63 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -246,7 +246,7 @@ class SOS_Manager():
             method_order = method_order,
             configs = configs
         )
-        if cls.CONFIG_STANDARDIZE_CYCLICEXPR:
+        if solution is not None and cls.CONFIG_STANDARDIZE_CYCLICEXPR:
             solution = solution.rewrite_symmetry(gens, perm)
         return solution
 
-- 
2.43.0


From 503630d80c9294d186f2b23c333f41ead52d6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:02 +0000
Subject: [PATCH 63/99] fix: silencing the provers does not change the
 configurations of the caller or the defaults

---
 triples/gui/sos_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index edfdb63..9d8ad42 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -233,6 +233,7 @@ class SOS_Manager():
                 poly = poly.as_poly(*nonzero_gens)
 
         if cls.verbose is False:
+            configs = {method: dict(config or {}) for method, config in configs.items()}
             for method in ('LinearSOS', 'SDPSOS'):
                 if configs.get(method) is None:
                     configs[method] = {}
-- 
2.43.0


From b5f730c97387bed91c203257f13aee1b288275fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 64/99] fix: bounds outside the domain of the polynomial in
 global optimisation

---
 triples/utils/roots/monotonic_opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 889fffb..688a291 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -376,7 +376,9 @@ def poly_as_dm(poly: sp.Poly, a=None):
         Two polynomials such that poly = f1 - f2.
     """
     if a is not None:
-        a = [min(ai, 0) for ai in a]
+        a = [sp.sympify(min(ai, 0)) for ai in a]
+        # the bounds need not lie in the domain of the polynomial
+        poly = poly.set_domain(sp.construct_domain(a)[0].unify(poly.domain))
         poly = poly.shift_list(a)
     terms = poly.terms()
     pos = [t for t in terms if t[1] >= 0]
-- 
2.43.0


From fb011ebd0d65abea256a7fd9ae007aa73da604cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 65/99] fix: constraints that do not involve the first variable
 are not dropped in global optimisation

---
 triples/utils/roots/monotonic_opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 688a291..636b145 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -474,11 +474,11 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         ineq_constraints.append(-eq + eqtol)
     for ineq in ineq_constraints:
         ineq = sp.Poly(ineq, gens)
-        if ineq.degree() <= 0:
+        if ineq.total_degree() <= 0:
             if ineq.LC() < 0:
                 return RPAResult(None, np.inf, 1, True, a, b)
             continue
-        elif ineq.degree() == 1 and len(ineq.free_symbols) == 1: # linear
+        elif ineq.total_degree() == 1 and len(ineq.free_symbols) == 1: # linear
             s = ineq.free_symbols.pop()
             ind = gens.index(s)
             lc = ineq.coeff_monomial(s)
-- 
2.43.0


From 887614bafa43e4299bbbc2534457d5b308aca342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 66/99] fix: global optimisation does not change the bounds of
 the caller

---
 triples/utils/roots/monotonic_opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 636b145..3e0b846 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -467,7 +467,9 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         v = vectorized_lambdify(gens, f.as_expr())
         return lambda x: v(*x)
 
-    ineq_constraints = ineq_constraints.copy()
+    # do not modify the arguments
+    a, b = list(a), list(b)
+    ineq_constraints = list(ineq_constraints)
     g_and_h = []
     for eq in eq_constraints:
         ineq_constraints.append(eq + eqtol)
-- 
2.43.0


From bbcd8399fab5499cc3a8ba14933ab1bfb8bd2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 67/99] fix: linear constraints that exclude the whole domain
 make the problem infeasible

---
 triples/utils/roots/monotonic_opt.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 3e0b846..0818b9e 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -470,7 +470,7 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
     # do not modify the arguments
     a, b = list(a), list(b)
     ineq_constraints = list(ineq_constraints)
-    g_and_h = []
+    g_and_h, general = [], []
     for eq in eq_constraints:
         ineq_constraints.append(eq + eqtol)
         ineq_constraints.append(-eq + eqtol)
@@ -492,6 +492,13 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
                 b[ind] = min(b[ind], -const/lc)
             continue
         # general case
+        general.append(ineq)
+
+    if any(ai > bi for ai, bi in zip(a, b)):
+        # no point of the domain satisfies the linear constraints
+        return RPAResult(None, np.inf, 1, True, a, b)
+
+    for ineq in general:
         f1, f2 = poly_as_dm(ineq, a)
         g_and_h.append((wrap(gens, f2), wrap(gens, f1))) # f2 - f1 <= 0
 
-- 
2.43.0


From f1f31003400dd8736092c799aeb0cef04835145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 68/99] fix: the colour of the smallest value of a grid with
 large integers

---
 triples/utils/roots/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/grid.py b/triples/utils/roots/grid.py
index 879cf5d..d0b2503 100644
--- a/triples/utils/roots/grid.py
+++ b/triples/utils/roots/grid.py
@@ -335,7 +335,7 @@ class GridRender():
                             grid_color[k] = (0, v, 255)
                             break
                     else:
-                        grid_color[k] = (0, 0, 0)
+                        grid_color[k] = (0, 0, 255)
                 else: # v == 0:
                     grid_color[k] = WHITE
 
-- 
2.43.0


From ee7c47111b587cd07d1cbac3ac5b36972d5d36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 69/99] fix: grids of constants have one value for each point

---
 triples/utils/roots/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/grid.py b/triples/utils/roots/grid.py
index d0b2503..03b7ae2 100644
--- a/triples/utils/roots/grid.py
+++ b/triples/utils/roots/grid.py
@@ -262,7 +262,8 @@ class GridRender():
         elif value_method == 'integer_lambdify':
             f = sp.lambdify(poly.gens, poly.as_expr())
             grid_coor_np = np.array(grid_coor) / cls.degree_limit # normalize
-            grid_value = f(*grid_coor_np.T)
+            # the value of a constant is a scalar
+            grid_value = np.broadcast_to(f(*grid_coor_np.T), len(grid_coor))
 
         return grid_value
 
-- 
2.43.0


From cc08c150488b7a3ac9c57be7e0a14600dba884da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 70/99] fix: local minima of a grid whose largest coordinate is
 a third of the size

---
 triples/utils/roots/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/grid.py b/triples/utils/roots/grid.py
index 03b7ae2..3c84cb4 100644
--- a/triples/utils/roots/grid.py
+++ b/triples/utils/roots/grid.py
@@ -164,8 +164,8 @@ class GridPoly():
         if not cyc:
             iterator = zip(grid_coor, grid_value)
         else:
-            # trunc = (2*n + 3 - n // 3) * (n // 3) // 2
-            trunc = (2*n//3) * (2*n//3 + 1) // 2
+            # the points with first coordinate at least n/3
+            trunc = (2*n//3 + 1) * (2*n//3 + 2) // 2
             iterator = zip(grid_coor[:trunc], grid_value[:trunc])
 
         def _get_local_checker(cyc = True):
-- 
2.43.0


From c71f04fca3a6d1178b2a791ffb1e3ea86c4c2022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 71/99] fix: the grid returned for an error has the size asked
 for

---
 triples/utils/roots/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/grid.py b/triples/utils/roots/grid.py
index 3c84cb4..40a2c78 100644
--- a/triples/utils/roots/grid.py
+++ b/triples/utils/roots/grid.py
@@ -419,7 +419,7 @@ class GridRender():
             )
         except Exception as e:
             if handle_error:
-                return cls.zero_grid()
+                return cls.zero_grid(len(poly.gens), size)
             else:
                 raise e
 
-- 
2.43.0


From 9bf53dc251282a43b60749792027058e3731b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 72/99] fix: global optimisation does not drop the boxes that
 reach out of a reduced domain

---
 triples/utils/roots/monotonic_opt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 0818b9e..caf222b 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -216,7 +216,9 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
                 cbv = f(x_k)
                 x_best = x_k
                 a, b = _red(f, g, h, a, b, cbv, root_solver=root_solver)
-                T = [z for z in T if np.all(z >= a) and np.all(z <= b) and f(z) < cbv - tol and g(z) <= 0]
+                # the box [z, b] meets the new domain in [max(z, a), b]
+                T = [np.maximum(z, a) for z in T if np.all(z <= b)]
+                T = [z for z in T if np.all(z <= b) and f(z) < cbv - tol and g(z) <= 0]
                 if verbose:
                     print(k, 'New best:', cbv, 'x =', x_best, 'L =', len(T))
                     print('New bounds:', a, b)
@@ -230,7 +232,8 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
                 continue
             z_new = z_k.copy()
             z_new[i] = x_k[i]
-            if f(z_new) < cbv - tol and g(z_new) <= 0:
+            z_new = np.maximum(z_new, a)
+            if np.all(z_new <= b) and f(z_new) < cbv - tol and g(z_new) <= 0:
                 T.append(z_new)
 
     if x_best is None:
-- 
2.43.0


From 39d97669c76f78cba51371979877e70f26fae81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 73/99] fix: infeasible monotone problems are reported instead
 of raising an error

---
 triples/utils/roots/monotonic_opt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index caf222b..8f4e158 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -192,7 +192,8 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
         x_best, cbv, k, T = None, np.inf, 0, []
     else:
         a, b = _red(f, g, h, a, b, cbv, root_solver=root_solver)
-        T = [a]
+        # no point of the reduced domain is feasible if the largest one is not
+        T = [a] if h(b) >= 0 else []
 
     for k in range(1, 1 + max_iter):
         if not T:  # Step 2: If T is empty, terminate
@@ -219,6 +220,9 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
                 # the box [z, b] meets the new domain in [max(z, a), b]
                 T = [np.maximum(z, a) for z in T if np.all(z <= b)]
                 T = [z for z in T if np.all(z <= b) and f(z) < cbv - tol and g(z) <= 0]
+                if h(b) < 0:
+                    T = []
+                    break
                 if verbose:
                     print(k, 'New best:', cbv, 'x =', x_best, 'L =', len(T))
                     print('New bounds:', a, b)
-- 
2.43.0


From afd0fb942518d2c34723fef3ecbe2606fcd011db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 74/99] fix: global optimisation of univariate polynomials

---
 triples/utils/roots/monotonic_opt.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 8f4e158..b4e26cc 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -363,6 +363,12 @@ def rpa_gmop(f1_and_f2, g_and_h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root
 
 
 
+def _shift(poly: sp.Poly, a) -> sp.Poly:
+    if len(poly.gens) == 1: # shift_list is not available for univariate polynomials
+        return poly.shift(a[0])
+    return poly.shift_list(a)
+
+
 def poly_as_dm(poly: sp.Poly, a=None):
     """
     Write a polynomial in the form of difference of two monotonic 
@@ -386,15 +392,15 @@ def poly_as_dm(poly: sp.Poly, a=None):
         a = [sp.sympify(min(ai, 0)) for ai in a]
         # the bounds need not lie in the domain of the polynomial
         poly = poly.set_domain(sp.construct_domain(a)[0].unify(poly.domain))
-        poly = poly.shift_list(a)
+        poly = _shift(poly, a)
     terms = poly.terms()
     pos = [t for t in terms if t[1] >= 0]
     neg = [t for t in terms if t[1] < 0]
     f1 = sp.Poly.from_dict(dict(pos), poly.gens, domain=poly.domain)
     f2 = -sp.Poly.from_dict(dict(neg), poly.gens, domain=poly.domain)
     if a is not None:
-        f1 = f1.shift_list([-ai for ai in a])
-        f2 = f2.shift_list([-ai for ai in a])
+        f1 = _shift(f1, [-ai for ai in a])
+        f2 = _shift(f2, [-ai for ai in a])
     return f1, f2
 
 
-- 
2.43.0


From 16372d6be544caa5ecd02e18542ed32bb11c854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 75/99] fix: long coefficients of an image are separated

---
 triples/utils/roots/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/grid.py b/triples/utils/roots/grid.py
index 40a2c78..81329c1 100644
--- a/triples/utils/roots/grid.py
+++ b/triples/utils/roots/grid.py
@@ -104,7 +104,7 @@ class GridPoly():
                         txt = f'{round(float(coeffs[t]),4)}'
                     else:
                         txt = f'{coeffs[t].p}' + (f'/{coeffs[t].q}' if coeffs[t].q != 1 else '')
-                        if len(txt) > distance:
+                        if len(txt) >= distance:
                             txt = f'{round(float(coeffs[t]),4)}'
                     t += 1
                 else:
-- 
2.43.0


From 16553e8fac03b5be23d79ca2ad27e85f0ae708d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:52 +0000
Subject: [PATCH 76/99] fix: reduction of a domain that rounding makes
 infeasible

---
 triples/utils/roots/monotonic_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index b4e26cc..723cd12 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -101,7 +101,7 @@ def _red(f, g, h, a, b, cbv, root_solver=_find_sup):
         b[i] = ai + res * (b[i] - ai) # inplace update
         a[i] = ai
 
-    if h(b) <= -_rtol: # infeasible
+    if h(b) < 0: # infeasible
         return b, b
 
     for i in range(n):
-- 
2.43.0


From f22f19fda0c062bec4944ec05cb9fa8a2175f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:10 +0000
Subject: [PATCH 77/99] fix: cubic proofs with irrational coefficients have
 nonnegative terms only

---
 triples/core/structsos/ternary/cubic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/cubic.py b/triples/core/structsos/ternary/cubic.py
index 0a5ad28..43213f4 100644
--- a/triples/core/structsos/ternary/cubic.py
+++ b/triples/core/structsos/ternary/cubic.py
@@ -241,8 +241,8 @@ def _sos_struct_cubic_nontrivial_irrational(coeff):
         y = radsimp([m / 2, p, q, rem])
         exprs = [
             CyclicSum(a) * CyclicSum((b-c)**2),
-            CyclicSum(a**2*b - CyclicProduct(a)),
-            CyclicSum(a**2*c - CyclicProduct(a)),
+            CommonExpr.amgm((2,1,0),(1,1,1)),
+            CommonExpr.amgm((2,0,1),(1,1,1)),
             CyclicProduct(a)
         ]
         return sum_y_exprs(y, exprs)
-- 
2.43.0


From 6c8668f84c109285f16ef9648843653d3c7ef88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 78/99] fix: the reader of polynomials reports texts that are
 not polynomials

---
 triples/utils/text_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 370c917..1272e60 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -580,9 +580,9 @@ class PolyReader:
             try:
                 poly = preprocess_text(poly, **self.kwargs)
             except:
-                if not self.ignore_errors:
-                    raise ValueError(f'Invalid polynomial at index {self.index}: {poly}')
                 poly = None
+            if poly is None and not self.ignore_errors:
+                raise ValueError(f'Invalid polynomial at index {self.index}: {self.polys[self.index]}')
         self.index += 1
         return poly
 
-- 
2.43.0


From 12aae4c8bf14120975c15cc7bdf3859420a6bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:20 +0000
Subject: [PATCH 79/99] fix: zero diagonals of primal problems consider both
 off-diagonal coefficients

---
 triples/sdp/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index cc33da2..61e1701 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -898,7 +898,7 @@ class PrimalTransformMixin(SDPTransformMixin):
                         for j in range(i):
                             if j in zeros:
                                 continue
-                            if space[eq, i*m+j] != 0: # nonzero off-diagonal constraint
+                            if space[eq, i*m+j] + space[eq, j*m+i] != 0: # nonzero off-diagonal constraint
                                 eq_fail = True
                                 break
                         if eq_fail:
-- 
2.43.0


From a4e27de897a9bb6fd13f56b1b67a8b8f27f34a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 80/99] fix: schurinv(2) is half of the sum of squared
 differences

---
 triples/core/structsos/ternary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/utils.py b/triples/core/structsos/ternary/utils.py
index 8997e39..d93dfc2 100644
--- a/triples/core/structsos/ternary/utils.py
+++ b/triples/core/structsos/ternary/utils.py
@@ -170,7 +170,7 @@ class CommonExpr:
         """
         a, b, c = cls.abc
         if n == 2:
-            return CyclicSum((a-b)**2)
+            return CyclicSum((a-b)**2)/2
         elif n == 4:
             return CyclicSum(a**2*(b-c)**2/2)
         elif n == 6:
-- 
2.43.0


From 3122493e61ffb410289c72e9e3fbaed6792008ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 81/99] fix: octic proofs at the vanishing pivot keep the
 square of the kernel

---
 .../core/structsos/ternary/octic_symmetric.py  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 46d7305..fdc07d8 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -308,12 +308,20 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
         if t is None:
             return None
 
-        u210 = sp.S(1)
-        u201 = t
-        u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)/(3*t*w2 - t*w4 - w4)
-        u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)/(3*t*w2 - t*w4 - w4)
+        p4 = 3*t*w2 - t*w4 - w4
         reg = 162*t**2*w4
-        r = (3*t*w2 - t*w4 - w4)**2 / reg
+        if p4 != 0:
+            u210 = sp.S(1)
+            u201 = t
+            u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)/p4
+            u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)/p4
+            r = p4**2 / reg
+        else:
+            # take the limit p4 -> 0 of r*ker^2
+            u210 = u201 = sp.S(0)
+            u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)
+            u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)
+            r = 1 / reg
         M00t, M01t, M02t, M22t = [f(t)/reg for f in (M00t, M01t, M02t, M22t)]
         quad_form = stack_quad_form(M00t, M01t, M02t, M22t)
         return u210, u102, u201, u111, r, quad_form
-- 
2.43.0


From 265b43b0ca1c140141e964d8f009992e8a855c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 82/99] fix: Newton steps of optimize_discriminant stay
 floating point

---
 triples/utils/roots/findroot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index 031e471..6d1a81e 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -146,7 +146,8 @@ def optimize_discriminant(discriminant, soft = False, verbose = False):
             if det_ == 0:
                 break
             else:
-                a , b = a - (db2_ * da_ - dab_ * db_) / det_ , b - (-dab_ * da_ + da2_ * db_) / det_
+                # keep floats: exact numbers would double their digits in every step
+                a , b = sp.Float(a - (db2_ * da_ - dab_ * db_) / det_), sp.Float(b - (-dab_ * da_ + da2_ * db_) / det_)
                 if abs(lasta - a) < 1e-9 and abs(lastb - b) < 1e-9:
                     break
         v = discriminant(a, b)
-- 
2.43.0


From 09183a37e93189f13e666101dd19b5d7c44232e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 83/99] fix: the node of the sextic tree is not a division by
 zero

---
 triples/core/structsos/ternary/sextic_symmetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 8be69d8..4bc380f 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -624,8 +624,8 @@ def _sos_struct_sextic_tree(coeff):
         # with t = -(3u + v) / (v + 6)
         # note: (2, -6) is the singular node of the strophoid
         t = radsimp(-(3*u + v) / (v + 6))
-        if -1 <= t:
-            # x = t**3 - 3*t
+        if -1 <= t and t != 2:
+            # x = t**3 - 3*t, note that t == 2 is the node itself
             w1 = radsimp((27*u**2 + 27*u*v + 54*u + v**3 + 18*v**2 + 54*v)/(27*(u - 2)*(u + v + 4)))
             w2 = 1 - w1
             # w2 = -(v + 6)**3/(27*(u - 2)*(u + v + 4))
-- 
2.43.0


From 0249de97d7822cc7cee750322b87cbe4aa755da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 84/99] fix: degenerated parameters of uncentered quintics are
 no proof

---
 triples/core/structsos/ternary/quintic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 74a0f71..6e3cec4 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1473,6 +1473,10 @@ def _sos_struct_quintic_uncentered(coeff):
             CyclicSum(a*c*(a-b)**2*((r1-r1_)*c + (r2-r2_)/2*b)) * multiplier
         ]
 
+        if not all(y_.is_finite for y_ in [*y, phi, rho, z, w]):
+            # degenerated u, v
+            return None
+
         # u, v are determined regardless of coeff((2,2,1)), so the value at (1,1,1) must be compensated
         p111 = sum(y_ * expr.doit().xreplace({a: sp.S(1), b: sp.S(1), c: sp.S(1)}) for y_, expr in zip(y, exprs))
         y.append(rem - radsimp(p111 / (9*(1 + phi))))
-- 
2.43.0


From b8425e2f2309243d2b330fe71c7d5936ffc0b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:31 +0000
Subject: [PATCH 85/99] fix: proofs of octics need finite bounds for the
 degenerated hessian

---
 triples/core/structsos/ternary/octic_symmetric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index fdc07d8..a3a0194 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -374,6 +374,10 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
 
 
         def _strict_psd():
+            if 2*c620 == c611 or 2*c620 + c611 == 0:
+                # the bounds of z have no finite value
+                return None
+
             _func_z_sym = [
                 (2*c530*w1 + 4*c611*w1 + 8*c620*w1 + 2*w1**2 + 3*w5)/(2*(c611 + 2*c620)),
                 w1*(c530 - c611 - 2*c620 + w1)/(c611 + 2*c620),
-- 
2.43.0


From 19d7310fa352042ce1442cd516432095102e060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:31 +0000
Subject: [PATCH 86/99] fix: sextic proofs by third-degree squares include the
 value at (1,1,1)

---
 triples/core/structsos/ternary/sextic_symmetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 4bc380f..5256145 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -703,7 +703,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
         c411 + 2*c420 + 4*c510 + 3*c600,
         2*c321 + 2*c330 + 2*c411 + 4*c420 + 6*c510 + 4*c600,
         c330 + 2*c420 + 2*c510 + 2*c600,
-        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600
+        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600,
+        c222 + 6*c321 + 3*c330 + 3*c411 + 6*c420 + 6*c510 + 3*c600
     ])
     if all(_ >= 0 for _ in y):
         # Case 3.
@@ -713,7 +714,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
             CyclicSum(a**2*(a*b+a*c-b**2-c**2)**2)/6,
             CyclicSum(a**2*b*c*(b-c)**2)/2,
             CyclicSum((a*b**2+a*c**2-b**2*c-b*c**2)**2)/6,
-            CyclicProduct((a-b)**2)
+            CyclicProduct((a-b)**2),
+            CyclicProduct(a**2)
         ]
         return sum_y_exprs(y, exprs)
 
-- 
2.43.0


From 3a6c19301a66bc2f9132ef28028bb0fd618b2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:01 +0000
Subject: [PATCH 87/99] fix: prove_univariate factors polynomials with
 irrational coefficients whatever their domain

---
 triples/core/structsos/pivoting/univariate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 21f0bab..94a7211 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -84,6 +84,10 @@ def _standardize_poly(poly: Union[sp.Expr, sp.Poly]) -> sp.Poly:
         else:
             raise ValueError(f'The input should be a univariate polynomial, but received {poly}.')
 
+    if poly.domain.is_EX and all(_.is_algebraic for _ in poly.coeffs()):
+        # the factors of a polynomial are not known in the domain of expressions
+        poly = sp.Poly(poly.as_expr(), poly.gen, extension = True)
+
     if not poly.domain.is_Field:
         poly = poly.to_field()
 
-- 
2.43.0


From 7c0aab9ce21710754d7a8a62890701f2430e7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:51 +0000
Subject: [PATCH 88/99] fix: prove_univariate of irrational polynomials with a
 root at zero

---
 triples/core/structsos/pivoting/univariate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 94a7211..36024c2 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -653,6 +653,14 @@ def prove_univariate(
     if lc < 0:
         return None
     mul = [(sp.S(1), [lc], [sp.S(1).as_poly(poly.gen)])]
+
+    # square-free factors may still be divisible by x
+    x = sp.Poly([1, 0], poly.gen, domain = poly.domain)
+    for factor, multiplicity in tuple(factors):
+        if factor.degree() > 1 and factor.eval(0) == 0:
+            factors.remove((factor, multiplicity))
+            factors.extend([(x, multiplicity), (factor.quo(x), multiplicity)])
+
     for factor, multiplicity in factors:
         if multiplicity % 2 == 0:
             mul.append([(sp.S(1), [sp.S(1)], [factor ** (multiplicity // 2)])])
-- 
2.43.0


From c43a91959d82fe9c259255d8d58a2884b2c8e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:51 +0000
Subject: [PATCH 89/99] fix: quintic proofs need a real root of the
 discriminant

---
 triples/core/structsos/ternary/quintic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 6e3cec4..4c269b2 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -535,8 +535,7 @@ def _sos_struct_quintic_full(coeff):
             else:
                 mul = None
                 # for index, ((left, right), __) in enumerate(det_z.intervals()[::-1]):
-                if True:
-                    (left, right), _ = det_z.intervals()[-1]
+                for (left, right), _ in det_z.intervals()[-1:]:
                     left, right = det_z.refine_root(left, right, eps = 1/rounding)#/24)
                     for val in (left, right):
                         if val >= z_min:
-- 
2.43.0


From 392b8f6c47eaf979f51758d1c4cc1026b65c7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:05 +0000
Subject: [PATCH 90/99] fix: zero diagonals that turn out to be infeasible
 leave no intermediate problem behind

---
 triples/sdp/transform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 61e1701..a6bdfdb 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -349,8 +349,14 @@ class SDPRowMasking(SDPMatrixTransform):
         """
         zero_diagonals = parent_node._get_zero_diagonals()
         sdp = parent_node
+        transforms = parent_node._transforms.copy()
         while any(zero_diagonals.values()):
-            sdp = SDPRowMasking(sdp, zero_diagonals).child_node
+            try:
+                sdp = SDPRowMasking(sdp, zero_diagonals).child_node
+            except Exception:
+                # abandon the intermediate problems
+                parent_node._transforms[:] = transforms
+                raise
             if not recursive:
                 break
             zero_diagonals = sdp._get_zero_diagonals()
-- 
2.43.0


From d1efe493faf869c17f4efc6cf61f7cc91950f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 91/99] fix: septic proofs need a real root of the discriminant

---
 triples/core/structsos/ternary/septic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/septic.py b/triples/core/structsos/ternary/septic.py
index 2d292d4..17c24a4 100644
--- a/triples/core/structsos/ternary/septic.py
+++ b/triples/core/structsos/ternary/septic.py
@@ -395,7 +395,10 @@ def _sos_struct_septic_hexagon(coeff):
                     break
 
         if isinstance(z, sp.Symbol):
-            z = min(nroots(det, method = 'factor', real = True))
+            roots = nroots(det, method = 'factor', real = True)
+            if len(roots) == 0:
+                return None
+            z = min(roots)
 
         # check whether we succeed if we subtract s(ab)s(a^4b + pa^3b^2 + qa^2b^3 + ab^4 + za^3bc - (p+q+z+2)a^2b^2c)
         # Theorem 2.
-- 
2.43.0


From c30ce71dcfab0d84691395019a70f74bba36081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 92/99] fix: octic symmetric hexagons without a double root
 keep all their terms

---
 triples/core/structsos/ternary/octic_symmetric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index a3a0194..e4175a1 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -583,7 +583,8 @@ def _sos_struct_octic_symmetric_hexagon(coeff):
             y_ = -2*(2*c1 + c2 + c3 + c4)/(2*c1 + c3) if 2*c1 + c3 != 0 else sp.S(0)
             z_ = (2*c1 - c3)/4
             w_ = (10*c1 + 6*c2 + c3 + 2*c4)/4
-            if x_ >= 0 and z_ >= 0 and z_ + w_ >= 0:
+            # if x_ == 0, then x_*y_ = -(2*c1 + c2 + c3 + c4)/4 must also be zero
+            if (x_ > 0 or (x_ == 0 and c2 + c4 == 0)) and z_ >= 0 and z_ + w_ >= 0:
                 m_ = coeff((4,4,0)) - (-2*w_ + 2*x_*y_**2 - 4*x_*y_ + 2*z_)
                 p_ = coeff((4,3,1)) - (w_ - 4*x_*y_**2 + 6*x_*y_ + 2*x_)
                 n_ = coeff((4,2,2)) - (2*w_ + 6*x_*y_**2 + 20*x_*y_ + 4*x_ - 4*z_)
-- 
2.43.0


From c9bd33a1dc758bf861207a46d206ffe0b105727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 93/99] fix: sextic hexagons need a positive semidefinite
 remainder

---
 triples/core/structsos/ternary/sextic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index 52115cc..dbd41c1 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -638,7 +638,7 @@ def _sos_struct_sextic_hexagon_sdp(coeff):
         c33 - 2*r*y*(x-2)
     ]
 
-    if quad_form[0] >= 0 and quad_form[0] * quad_form[1] * 4 >= quad_form[2]**2:
+    if quad_form[0] >= 0 and quad_form[1] >= 0 and quad_form[0] * quad_form[1] * 4 >= quad_form[2]**2:
         mapping = lambda x, y: CyclicSum((x*a**2*b + y*a*b**2 - (x+y)*a*b*c).together())**2
         quad_form_sol = quadratic_weighting(quad_form[0], quad_form[2], quad_form[1], mapping = mapping)
 
-- 
2.43.0


From 8956b8d38179aae9a51addcf501db4c2c5dac185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 94/99] fix: numerical roots of polynomials with multiple
 irrational roots

---
 triples/utils/roots/rationalize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index c1c52b3..0e57bd3 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -1,8 +1,17 @@
 from typing import Optional, Tuple, List, Dict, Union, Generator
 
 import sympy as sp
+from mpmath.libmp import NoConvergence
 from numpy import roots as nproots
 
+def _sympy_nroots(poly):
+    """Wrapper of sympy nroots, where multiple roots are separated if they do not converge."""
+    try:
+        return sp.polys.nroots(poly)
+    except NoConvergence:
+        return [r for part, mul in poly.sqf_list()[1] for r in sp.polys.nroots(part) for _ in range(mul)]
+
+
 def nroots(poly, method = 'numpy', real = False, nonnegative = False):
     """
     Wrapper function to find the numerical roots of a sympy polynomial.
@@ -23,7 +32,7 @@ def nroots(poly, method = 'numpy', real = False, nonnegative = False):
     if method == 'numpy':
         roots = [sp.S(_) for _ in nproots(poly.all_coeffs())]
     elif method == 'sympy':
-        roots = sp.polys.nroots(poly)
+        roots = _sympy_nroots(poly)
     elif method == 'factor':
         roots_rational = []
         roots = []
@@ -31,7 +40,7 @@ def nroots(poly, method = 'numpy', real = False, nonnegative = False):
             if part.degree() == 1:
                 roots_rational.append(-part.all_coeffs()[1] / part.all_coeffs()[0])
             else:
-                roots.extend(sp.polys.nroots(part))
+                roots.extend(_sympy_nroots(part))
         roots = roots_rational + roots
 
     if real:
-- 
2.43.0


From 17d9c051c1b266827e73f717e14416310b82d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:03 +0000
Subject: [PATCH 95/99] fix: elementary symmetric coordinates of polynomials
 with coefficients named s1, s2, ...

---
 triples/utils/expression/pqr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/pqr.py b/triples/utils/expression/pqr.py
index 96b9e1b..54abd6c 100644
--- a/triples/utils/expression/pqr.py
+++ b/triples/utils/expression/pqr.py
@@ -44,7 +44,9 @@ def pqr_sym(poly: sp.Poly, symbols: Optional[List[sp.Symbol]] = None) -> sp.Expr
     if len(poly.gens) != len(symbols):
         raise ValueError("Symbols must match the number of variables in the polynomial.")
 
-    f, g, rule = sp.symmetrize(poly.as_expr(), poly.gens, formal=True)
+    # use dummy symbols because the default symbols (s1, s2, ...) might occur in the coefficients
+    dummies = [sp.Dummy() for _ in symbols]
+    f, g, rule = sp.symmetrize(poly.as_expr(), poly.gens, formal=True, symbols=dummies)
     if g != 0:
         raise ValueError("The polynomial is not symmetric.")
     replacement = dict(zip([_[0] for _ in rule], symbols))
-- 
2.43.0


From 96edfe8f05a7beee572a87b37023cdd7f3072f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:46 +0000
Subject: [PATCH 96/99] fix: congruence of integer arrays

---
 triples/sdp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index e171e8b..1885707 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -45,6 +45,9 @@ def congruence(M: Union[Matrix, ndarray], signfunc = None) -> Union[None, Tuple[
         U, S = Matrix.zeros(n), Matrix.zeros(n, 1)
         One = singleton.One
     else:
+        if M.dtype.kind in 'iub':
+            # integer arrays cannot be updated by fractions in place
+            M = M.astype(float)
         U, S = np_zeros((n,n)), np_zeros(n)
         One = 1
     for i in range(n-1):
-- 
2.43.0


From 5150adf26c9381a812d151a367cf6d3e285b2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:57 +0000
Subject: [PATCH 97/99] fix: registering a solution given as a mapping or a row
 vector

---
 triples/sdp/abstract.py |  7 +++++++
 triples/sdp/dual.py     | 12 +++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index b1b6334..6073692 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -118,6 +118,12 @@ class SDPProblemBase(ABC):
         """
         return y
 
+    def _as_vector(self, y: Union[Matrix, ndarray, Dict]) -> Union[Matrix, ndarray]:
+        """
+        Convert a solution to the vector form that is stored by the problem.
+        """
+        return y
+
     def register_y(self,
             y: Union[Matrix, ndarray, Dict],
             project: bool = True,
@@ -143,6 +149,7 @@ class SDPProblemBase(ABC):
         """
         if len(y) == 0 and self.dof != 0:
             raise ValueError("No solution is given to be registered.")
+        y = self._as_vector(y)
         y2 = self.project(y)
         if (not (y2 is y)) and not project:
             # FIXME for numpy array
diff --git a/triples/sdp/dual.py b/triples/sdp/dual.py
index f644538..86bb963 100644
--- a/triples/sdp/dual.py
+++ b/triples/sdp/dual.py
@@ -239,11 +239,9 @@ class SDPProblem(DualTransformMixin):
 
         return SDPProblem(x0_and_space, free_symbols = free_symbols)
 
-    def S_from_y(self, y: Optional[Union[Matrix, np.ndarray, Dict]] = None) -> Dict[str, Matrix]:
+    def _as_vector(self, y: Union[Matrix, np.ndarray, Dict]) -> Matrix:
         m = self.dof
-        if y is None:
-            y = Matrix(self.free_symbols).reshape(m, 1)
-        elif isinstance(y, MatrixBase):
+        if isinstance(y, MatrixBase):
             if m == 0 and y.shape[0] * y.shape[1] == 0:
                 y = Matrix.zeros(0, 1)
             elif y.shape == (1, m):
@@ -256,8 +254,12 @@ class SDPProblem(DualTransformMixin):
             y = Matrix(m, 1, y.flatten().tolist())
         elif isinstance(y, dict):
             y = Matrix([y.get(v, v) for v in self.free_symbols]).reshape(m, 1)
+        return y
 
-        return S_from_y(y, self._x0_and_space)
+    def S_from_y(self, y: Optional[Union[Matrix, np.ndarray, Dict]] = None) -> Dict[str, Matrix]:
+        if y is None:
+            y = Matrix(self.free_symbols).reshape(self.dof, 1)
+        return S_from_y(self._as_vector(y), self._x0_and_space)
 
     def as_params(self) -> Dict[Symbol, Rational]:
         """
-- 
2.43.0


From bc1b88e6505adf3dd015085b2e0462eacd9ea6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:16 +0000
Subject: [PATCH 98/99] fix: derivatives at a root are only used where the
 constraints allow to leave it

A vanishing derivative along an axis was imposed on every term of the certificate, also when
an equality or a non-monomial inequality changes sign along that axis and terms may cancel.
Valid certificates were excluded and the semidefinite program became infeasible.
---
 triples/core/sdpsos/manifold.py | 63 +++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/triples/core/sdpsos/manifold.py b/triples/core/sdpsos/manifold.py
index 6020c9f..3231646 100644
--- a/triples/core/sdpsos/manifold.py
+++ b/triples/core/sdpsos/manifold.py
@@ -1,6 +1,6 @@
 from collections import defaultdict, deque
 from itertools import product
-from typing import Optional, Dict, List, Tuple
+from typing import Optional, Callable, Dict, List, Tuple
 
 import sympy as sp
 from sympy import Poly
@@ -113,7 +113,8 @@ def _hull_space(
     return sp.Matrix(space).T
 
 
-def _compute_diff_orders(poly: Poly, root: Root, mixed=False, only_binary_roots=True) -> List[Tuple[int, ...]]:
+def _compute_diff_orders(poly: Poly, root: Root, mixed=False, only_binary_roots=True,
+        is_admissible: Optional[Callable[[Tuple, int], bool]] = None) -> List[Tuple[int, ...]]:
     """
     Compute tuples (a1, ..., an) such that d^a1/dx1^a1 ... d^an/dxn^an f = 0 at the root.
     The root object is assumed to be indeed a root of the polynomial, which will not be checked.
@@ -131,6 +132,9 @@ def _compute_diff_orders(poly: Poly, root: Root, mixed=False, only_binary_roots=
     only_binary_roots : bool
         If True, only "binary" roots are computed. This is incomplete but
         is fast and sufficient for most cases.
+    is_admissible : Optional[Callable]
+        If given, is_admissible(root, i) tells whether derivatives with respect to the i-th
+        variable are allowed to be used.
 
     Examples
     --------
@@ -163,6 +167,8 @@ def _compute_diff_orders(poly: Poly, root: Root, mixed=False, only_binary_roots=
             poly2 = poly.diff(gens[i])
             j = 1
             while poly2.total_degree() and root.subs(poly2, gens) == 0:
+                if j == 1 and is_admissible is not None and not is_admissible(root.root, i):
+                    break
                 orders.append((0,) * i + (j,) + (0,) * (nvars - i - 1))
                 poly2 = poly2.diff(gens[i])
                 j += 1
@@ -170,12 +176,13 @@ def _compute_diff_orders(poly: Poly, root: Root, mixed=False, only_binary_roots=
 
 
 def _compute_nonvanishing_diff_orders(poly: Poly, root: Root, monomial: Tuple[int, ...],
-                                        only_binary_roots=True) -> List[Tuple[int, ...]]:
+                                        only_binary_roots=True,
+                                        is_admissible: Optional[Callable[[Tuple, int], bool]] = None) -> List[Tuple[int, ...]]:
     """
     Compute the differential orders that the root do not vanish at
     the given quadratic module (monomial).    
     """
-    orders = _compute_diff_orders(poly, root, only_binary_roots=only_binary_roots)
+    orders = _compute_diff_orders(poly, root, only_binary_roots=only_binary_roots, is_admissible=is_admissible)
     # if len(orders) <= 0 or (len(orders) == 1 and not any(orders[0])):
     #     return orders
     nvars = len(poly.gens)
@@ -220,7 +227,36 @@ def _compute_nonvanishing_diff_orders(poly: Poly, root: Root, monomial: Tuple[in
     return handled_zeros
 
 
-def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly) -> sp.Matrix:
+def _is_admissible_direction(root: Tuple, i: int, gens: Tuple[sp.Symbol, ...],
+        ineq_constraints: List[Poly], eq_constraints: List[Poly]) -> bool:
+    """
+    Check whether the constraints remain satisfied when the i-th variable moves away slightly from
+    the (rational) root, towards at least one side. If so, every term of the certificate is nonnegative
+    along the way, so it vanishes at the root to an order not lower than the polynomial. If not,
+    the vanishing derivatives of the polynomial impose nothing on the terms, since they could cancel.
+    """
+    x = gens[i]
+    others = {g: v for j, (g, v) in enumerate(zip(gens, root)) if j != i}
+    move = Poly(x + root[i], x)
+    def restrict(poly: Poly) -> Poly:
+        return Poly(poly.eval(others) if others else poly, x).compose(move)
+
+    if any(not restrict(eq).is_zero for eq in eq_constraints):
+        return False
+    sides = [1, -1]
+    for ineq in ineq_constraints:
+        ineq = restrict(ineq)
+        if ineq.is_zero:
+            continue
+        (order,), coeff = ineq.terms()[-1]
+        sides = [s for s in sides if (coeff * s**order).is_positive]
+        if not sides:
+            return False
+    return True
+
+
+def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly,
+        is_admissible: Optional[Callable[[Tuple, int], bool]] = None) -> sp.Matrix:
     """
     Compute the constraint nullspace spaned by a given root.
 
@@ -240,7 +276,7 @@ def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly)
         monomial = tuple(constraint.monoms()[0])
         for r_ in symmetry.permute(root.root):
             new_r = RootRational(r_)
-            orders = _compute_nonvanishing_diff_orders(manifold.poly, new_r, monomial)
+            orders = _compute_nonvanishing_diff_orders(manifold.poly, new_r, monomial, is_admissible=is_admissible)
             for order in orders:
                 spans.append(new_r.span(d, order, symmetry=base_symmetry))
 
@@ -305,6 +341,7 @@ class RootSubspace():
 
         # self.roots = [r for r in self.roots if not r.is_corner]
         self._additional_nullspace = {}
+        self._admissible_directions = {}
 
     @property
     def additional_nullspace(self) -> Dict[Tuple[int, ...], sp.Matrix]:
@@ -371,6 +408,18 @@ class RootSubspace():
     def _nullspace_from_roots(self, constraint: Poly, ineq_constraints: List[Poly] = [], eq_constraints: List[Poly] = [], roots: List[RootAlgebraic] = None) -> List[sp.Matrix]:
         nullspaces = []
         if roots is None: roots = self.roots
+
+        constraints = (tuple(ineq_constraints), tuple(eq_constraints))
+        cache = self._admissible_directions.setdefault(constraints, {})
+        def is_admissible(root: Tuple, i: int) -> bool:
+            direction = (0,) * i + (1,) + (0,) * (self._nvars - i - 1)
+            if (root, direction) not in cache:
+                # constraints are given up to permutations
+                orbit = set(zip(self._symmetry.permute(root), self._symmetry.permute(direction)))
+                admissible = all(_is_admissible_direction(r, d.index(1), self.poly.gens, *constraints) for r, d in orbit)
+                cache.update((pair, admissible) for pair in orbit)
+            return cache[(root, direction)]
+
         for root in roots:
             is_feasible = True
             for permed_root in self._symmetry.permute(root.root):
@@ -383,7 +432,7 @@ class RootSubspace():
             if not is_feasible:
                 continue
 
-            span = _root_space(self, root, constraint)
+            span = _root_space(self, root, constraint, is_admissible=is_admissible)
 
             if span.shape[1] > 0:
                 span = sp.Matrix.hstack(*span.columnspace())
-- 
2.43.0


From afcd2e2171cf20da2dabad7261d1ae4f70f2f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:46 +0000
Subject: [PATCH 99/99] fix: semidefinite programs with equalities only and
 several multipliers

---
 triples/core/sdpsos/sdpsos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index 38e6a1d..dbc80b6 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -417,7 +417,11 @@ class SOSProblem():
         decomp = self._sdp.decompositions
         if decomp is None:
             return None
-        eqvec = {eq: x + space * self._sdp.y for eq, (x, space) in self._eqvec.items()}
+        y = self._sdp.y
+        if len(decomp) == 0:
+            # without any semidefinite blocks, the multipliers of the equalities are arbitrary
+            y = sp.zeros(max((space.shape[1] for _, space in self._eqvec.values()), default=0), 1)
+        eqvec = {eq: x + space * y for eq, (x, space) in self._eqvec.items()}
         return SolutionSDP.from_decompositions(self.poly, decomp, eqvec, self._symmetry,
                                 ineq_constraints=ineq_constraints, eq_constraints=eq_constraints)
 
-- 
2.43.0

