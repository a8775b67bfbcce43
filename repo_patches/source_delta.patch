From 8ca2b9620f21bd7416a0d46ecb047931036b97d1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 01/43] fix: SU(N) Clebsch-Gordan coefficients for degenerate
 weights and multiple paths

The lowering step assigned J-|Mc> to a single GT-pattern, which is wrong as soon as
the weight is degenerate (e.g. SU3 3 x 3bar -> 8), and only filled the first path.
---
 lie_nn/_src/irreps/sun.py | 95 +++++++++++----------------------------
 1 file changed, 27 insertions(+), 68 deletions(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cd0ace2..7429611 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -304,78 +304,37 @@ def clebsch_gordan_eldest(S1: WEIGHT, S2: WEIGHT, M_3_eldest: GT_PATTERN) -> np.
     )
 
 
-def search_state(M_list: List[GT_PATTERN]) -> Tuple[GT_PATTERN, GT_PATTERN, int]:
-    M0 = M_list[0]
-    n = len(M0)
-    S3 = M0[0]
-
-    for Mc in M_list:
-        for Mp in S_to_Ms(S3):
-            if Mp in M_list:
-                continue
-
-            for l in range(n - 1):
-                if lower_ladder(l, Mp, Mc) != 0:
-                    return (Mc, Mp, l)
-
-    raise ValueError("No state found")
-
-
-def construct_lower_cg(
-    S1: WEIGHT,
-    S2: WEIGHT,
-    S3: WEIGHT,
-    Mp: GT_PATTERN,
-    Mc: GT_PATTERN,
-    l: int,
-    alpha: int,
-    C: np.array,
-) -> Tuple[np.ndarray, int]:
-    dimS1 = dim(S1)
-    dimS2 = dim(S2)
-    mc, mp = M_to_index(Mc), M_to_index(Mp)
-    CG = np.zeros((dimS1, dimS2))
-    for m1 in range(dimS1):
-        for m2 in range(dimS2):
-            for n1 in range(dimS1):
-                for n2 in range(dimS2):
-                    if n2 == m2:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S1, n1), index_to_M(S1, m1))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-                    if n1 == m1:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S2, n2), index_to_M(S2, m2))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-
-    return CG / np.linalg.norm(CG)
-
-
 def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
     dimS1 = dim(S1)
     dimS2 = dim(S2)
     dimS3 = dim(S3)
-    M_eldest = tuple(S_to_Ms(S3))[-1]
-    C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)
-    C = np.concatenate(
-        (
-            np.zeros((C_eldest.shape[0], dimS1, dimS2, dimS3 - 1)),
-            (C_eldest.reshape(C_eldest.shape[0], dimS1, dimS2, 1)),
-        ),
-        axis=-1,
-    )
-    M_list = [M_eldest]
-    for alpha in range(C.shape[0]):
-        while len(M_list) != dimS3:
-            Mc, Mp, l = search_state(M_list)
-            mp = M_to_index(Mp)
-            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
-            M_list.append(Mp)
-    return C
+    Ms = tuple(S_to_Ms(S3))
+    C_eldest = clebsch_gordan_eldest(S1, S2, Ms[-1])
+    C = np.zeros((C_eldest.shape[0], dimS1 * dimS2, dimS3))
+    C[:, :, -1] = C_eldest.reshape(-1, dimS1 * dimS2)
+    if C.shape[0] == 0 or dimS3 == 1:
+        return C.reshape(-1, dimS1, dimS2, dimS3)
+
+    J1, J2, J3 = (lower_ladder_matrices(S) for S in (S1, S2, S3))
+    J12 = [np.kron(j1, np.eye(dimS2)) + np.kron(np.eye(dimS1), j2) for j1, j2 in zip(J1, J2)]
+
+    # Group the states by weight. A weight can be degenerate, so all its states have to be
+    # determined together. The lower ladders decrease the sum of the entries of the GT-pattern.
+    weights = {}
+    for i, M in enumerate(Ms):
+        weights.setdefault(M_to_p_weight(M), []).append(i)
+    level = {w: sum(map(sum, Ms[states[0]])) for w, states in weights.items()}
+
+    for w in sorted(weights, key=level.get, reverse=True)[1:]:
+        states = weights[w]
+        # J12_l C[:, m] = sum_n C[:, n] J3_l[n, m] where n runs over the states of weight w
+        lm = [(l, m) for l in range(len(J3)) for m in np.nonzero(np.any(J3[l][states], axis=0))[0]]
+        coeffs = np.linalg.pinv(np.stack([J3[l][states, m] for l, m in lm], axis=1))
+        for alpha in range(C.shape[0]):
+            rhs = np.stack([J12[l] @ C[alpha, :, m] for l, m in lm], axis=1)
+            C[alpha, :, states] = (rhs @ coeffs).T
+
+    return C.reshape(-1, dimS1, dimS2, dimS3)
 
 
 def E_basis(k: int, l: int, Jp, Jm):
-- 
2.43.0


From 897d685800344ba92ce8d95f3598ea5299c0f401 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 02/43] fix: null space computation must not feed rounded
 vectors back into the orthogonalisation

Rounding the projector (and each vector before orthogonalising the next one)
leaves residuals above epsilon, so the null space of some exact inputs came out
with spurious vectors, e.g. SO13.clebsch_gordan((1,3),(1,3),(2,4)) failed its
own equivariance assertion.
---
 lie_nn/_src/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 93ec850..0c8fe88 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -225,9 +225,8 @@ def gram_schmidt(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.nda
             v -= np.dot(np.conj(w), v) * w
         norm = np.linalg.norm(v)
         if norm > epsilon:
-            v = round_fn(v / norm)
-            Q += [v]
-    return np.stack(Q) if len(Q) > 0 else np.empty((0, A.shape[1]))
+            Q += [v / norm]
+    return np.stack([round_fn(v) for v in Q]) if len(Q) > 0 else np.empty((0, A.shape[1]))
 
 
 def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="Q") -> np.ndarray:
@@ -289,7 +288,6 @@ def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarra
     val, vec = np.linalg.eigh(A)
     X = vec.T[np.abs(val) < epsilon]
     X = np.conj(X.T) @ X
-    X = round_fn(X)
     X = gram_schmidt(X, round_fn=round_fn, epsilon=epsilon)
     return X
 
-- 
2.43.0


From fd2a763d17b45ff8459e85489049140a925f00f3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 03/43] fix: tensor_product(ReducedRep, MulIrrep) swapped its
 operands

---
 lie_nn/_src/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 603f91e..b8bd592 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -114,7 +114,7 @@ def tensor_product(mulirrep1: MulIrrep, rep2: ReducedRep) -> ReducedRep:  # noqa
 
 @dispatch(ReducedRep, MulIrrep)
 def tensor_product(rep1: ReducedRep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
-    return tensor_product(ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None), rep1)
+    return tensor_product(rep1, ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None))
 
 
 @dispatch(ReducedRep, TabulatedIrrep)
-- 
2.43.0


From c364844b30b1debc8516a2a0d2136a9b6164254a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 04/43] fix: ReducedRep.continuous_generators crashed for
 groups without continuous generators

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 98eb03c..d67c43e 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -110,6 +110,8 @@ class ReducedRep(Rep):
         return self._A
 
     def continuous_generators(self) -> np.ndarray:
+        if self.lie_dim == 0:
+            return np.empty((0, self.dim, self.dim))
         Xs = []
         for i in range(self.lie_dim):
             X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
-- 
2.43.0


From 31fafbbc1bd4000c36eba728073456f2a71f6824 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 05/43] fix: MulIrrep generators crashed for multiplicity zero

---
 lie_nn/_src/reduced_rep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index d67c43e..9a458b0 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -30,14 +30,14 @@ class MulIrrep(Rep):
 
     def continuous_generators(self) -> np.ndarray:
         X = self.rep.continuous_generators()
-        if X.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if X.shape[0] == 0 or self.mul == 0:
+            return np.empty((X.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in X], axis=0)
 
     def discrete_generators(self) -> np.ndarray:
         H = self.rep.discrete_generators()
-        if H.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if H.shape[0] == 0 or self.mul == 0:
+            return np.empty((H.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
 
     def create_trivial(self) -> Rep:
-- 
2.43.0


From 67fa3a0e22f0b332f14666616a28b0ebd703914c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 06/43] fix: limit_denominator returned 0/1 when the
 denominator equals max_denominator

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 0c8fe88..1a7a7f6 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -74,7 +74,7 @@ def limit_denominator(n, d, max_denominator=1_000_000):
     with np.errstate(over="ignore"):
         mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))
     return np.where(
-        d0 < max_denominator,
+        d0 <= max_denominator,
         (n0, d0),
         np.where(mask, (n2, d2), (n1, d1)),
     )
-- 
2.43.0


From 4c1f8843eeac59bac7df628953e1759dc11857dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 07/43] fix: extend_basis(returns='E') crashed when there is
 nothing to add

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 1a7a7f6..a93b88b 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -257,7 +257,7 @@ def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="
     if returns == "Q":
         return np.stack(Q)
     if returns == "E":
-        return np.stack(E)
+        return np.stack(E) if len(E) > 0 else np.empty((0, A.shape[1]))
 
 
 def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarray:
-- 
2.43.0


From 8946a81addc26301a5948db3271b804c32cc4074 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 08/43] fix: block_diagonal discarded the imaginary part of
 complex blocks

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index a93b88b..38be9d2 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -162,7 +162,7 @@ def vmap(
 def block_diagonal(As: List[np.array]):
     size1 = sum([As[i].shape[1] for i in range(len(As))])
     size2 = sum([As[i].shape[2] for i in range(len(As))])
-    R = np.zeros((As[0].shape[0], size1, size2))
+    R = np.zeros((As[0].shape[0], size1, size2), dtype=np.result_type(float, *As))
     shape_x = 0
     shape_y = 0
     for i in range(len(As)):
-- 
2.43.0


From f4a253d1f51b3298a695f84ef99117b2c70b1db1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 09/43] fix: infer_algebra_from_generators discarded the
 imaginary part of the structure constants

---
 lie_nn/_src/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 38be9d2..47c9108 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -470,12 +470,15 @@ def infer_algebra_from_generators(
     n = X.shape[0]
     pinv = np.linalg.pinv(X.reshape((n, -1)))
 
-    algebra = np.zeros((n, n, n))
+    algebra = np.zeros((n, n, n), dtype=pinv.dtype)
     for i in range(n):
         for j in range(n):
             xij = commutator(X[i], X[j])
             algebra[i, j] = xij.reshape(-1) @ pinv
 
+    if np.allclose(algebra.imag, 0, rtol=rtol, atol=atol):
+        algebra = algebra.real
+
     algebra = round_fn(algebra)
 
     if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):
-- 
2.43.0


From 9ff41b30f3c00323f016e50a8be1d453ce5d742d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 10/43] fix: reduced_tensor_product_basis rejected equal irreps
 given for exchanged indices

---
 lie_nn/_src/reduced_tensor_product.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8d113f5..9201f62 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -89,6 +89,16 @@ def _to_reducedrep(irreps) -> ReducedRep:
     return irreps
 
 
+def _same_reducedrep(rep1: ReducedRep, rep2: ReducedRep) -> bool:
+    if rep1 is rep2:
+        return True
+    if tuple(rep1.irreps) != tuple(rep2.irreps):
+        return False
+    if rep1.Q is None or rep2.Q is None:
+        return rep1.Q is None and rep2.Q is None
+    return np.allclose(rep1.Q, rep2.Q)
+
+
 def reduced_tensor_product_basis(
     formula_or_irreps_list: Union[str, List[ReducedRep]],
     *,
@@ -136,7 +146,11 @@ def reduced_tensor_product_basis(
     for _sign, p in perm_repr:
         f = "".join(f0[i] for i in p)
         for i, j in zip(f0, f):
-            if i in irreps_dict and j in irreps_dict and irreps_dict[i] != irreps_dict[j]:
+            if (
+                i in irreps_dict
+                and j in irreps_dict
+                and not _same_reducedrep(irreps_dict[i], irreps_dict[j])
+            ):
                 raise RuntimeError(f"irreps of {i} and {j} should be the same")
             if i in irreps_dict:
                 irreps_dict[j] = irreps_dict[i]
-- 
2.43.0


From 5948fb1ea39ad83e9a1bd144b01fbe6eba04f85f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 11/43] fix: SUN.from_string did not accept surrounding
 whitespace, breaking sums of irreps

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 7429611..9846fe0 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -409,7 +409,7 @@ class SUN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SUN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-- 
2.43.0


From 5a36cb786892b32325c7301b9ac9e2ecaee5063b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 12/43] fix: SU2_, SU3 and SU4 skipped the validation of their
 labels

---
 lie_nn/_src/irreps/sun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 9846fe0..759c63d 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -449,6 +449,7 @@ class SUN(TabulatedIrrep):
 @dataclass(frozen=True)
 class SU2_(SUN):
     def __post_init__(rep):
+        SUN.__post_init__(rep)
         assert len(rep.S) == 2
 
     @classmethod
@@ -460,6 +461,7 @@ class SU2_(SUN):
 @dataclass(frozen=True)
 class SU3(SUN):
     def __post_init__(rep):
+        SUN.__post_init__(rep)
         assert len(rep.S) == 3
 
     @classmethod
@@ -472,6 +474,7 @@ class SU3(SUN):
 @dataclass(frozen=True)
 class SU4(SUN):
     def __post_init__(rep):
+        SUN.__post_init__(rep)
         assert len(rep.S) == 4
 
     @classmethod
-- 
2.43.0


From 8c01b9b4c706a19bf613722084d2d71f53c51f93 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 13/43] fix: check_algebra_vs_generators crashed when there are
 no continuous generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 47c9108..f90b591 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -440,7 +440,7 @@ def basis_intersection(
 def check_algebra_vs_generators(
     A: np.ndarray, X: np.ndarray, rtol: float = 1e-10, atol: float = 1e-10, assert_: bool = False
 ):
-    left_side = vmap(vmap(commutator, (0, None), 0), (None, 0), 1)(X, X)
+    left_side = commutator(X[:, None], X[None, :])
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
         np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
-- 
2.43.0


From 02d98766162d4bdb80a810229550172b07869e45 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 14/43] fix: infer_change_of_basis crashed when there are no
 generators at all

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index f90b591..49ee6ea 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -372,7 +372,7 @@ def infer_change_of_basis(
     assert X1.shape == (n, d1, d1)
     assert X2.shape == (n, d2, d2)
 
-    As = []
+    As = [np.zeros((0, d1 * d2))]
     for x1, x2 in zip(X1, X2):
         # X1 @ S - S @ X2 = 0
         # X1 @ S - (X2.T @ S.T).T = 0
-- 
2.43.0


From 5e09485dd9c9f4fd1e9a845288699caae8aea749 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 15/43] fix: decompose_rep_into_irreps projected on the
 conjugate of the invariant subspaces

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 49ee6ea..42acd3c 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -581,7 +581,7 @@ def decompose_rep_into_irreps(
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
         B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
 
-        Ys += [B @ X @ B.T.conj()]
+        Ys += [B.conj() @ X @ B.T]
     return Ys
 
 
-- 
2.43.0


From 3820c35170c020adec53faa8bfe10d53248c6602 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 16/43] fix: reduce failed on representations containing an
 irrep more than once

---
 lie_nn/_src/reduce.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduce.py b/lie_nn/_src/reduce.py
index 09d93e7..d3a2e7c 100644
--- a/lie_nn/_src/reduce.py
+++ b/lie_nn/_src/reduce.py
@@ -31,14 +31,19 @@ def reduce(rep: Rep) -> ReducedRep:  # noqa: F811
     Ys = sorted(Ys, key=lambda x: x.shape[1])
     d = rep.lie_dim
     Qs = []
-    irs = []
+    mul_irs = []
     for Y in Ys:
         ir = GenericRep(rep.A, Y[:d], Y[d:])
+        if any(
+            m.rep.dim == ir.dim and len(infer_change_of_basis(ir, m.rep)) > 0 for m in mul_irs
+        ):
+            continue  # all the copies of this irrep are already taken into account
         Q = infer_change_of_basis(ir, rep)
-        Q = np.einsum("mij->imj", Q).reshape((rep.dim, ir.dim))
+        mul = Q.shape[0]
+        Q = np.einsum("mij->imj", Q).reshape((rep.dim, mul * ir.dim))
         Qs.append(Q)
-        irs.append(ir)
+        mul_irs.append(MulIrrep(mul, ir))
 
     Q = np.concatenate(Qs, axis=1)
-    rep = ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
+    rep = ReducedRep(rep.A, tuple(mul_irs), Q)
     return rep
-- 
2.43.0


From 7233aa6bceea0ccdb470ebb7a2894030a7968ebd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 17/43] fix: is_real was True for pseudoreal and for partially
 self-conjugate representations

---
 lie_nn/_src/real.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index eefc524..4423456 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -5,8 +5,25 @@ import lie_nn as lie
 
 
 def is_real(rep: lie.Rep) -> bool:
-    S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
-    return S.shape[0] > 0
+    """Returns True if the representation is equivalent to one with real matrices."""
+    irreps = lie.reduce(lie.GenericRep.from_rep(rep)).irreps
+    for mul_ir in irreps:
+        conj = lie.conjugate(mul_ir.rep)
+        S = lie.infer_change_of_basis(mul_ir.rep, conj)
+        if S.shape[0] > 0:
+            # S @ conj(S) is a positive (real) or negative (pseudoreal) multiple of the identity
+            if np.trace(S[0] @ np.conj(S[0])).real < 0 and mul_ir.mul % 2 == 1:
+                return False
+        else:
+            # the conjugate has to appear the same number of times
+            if not any(
+                other.mul == mul_ir.mul
+                and other.rep.dim == mul_ir.rep.dim
+                and lie.infer_change_of_basis(other.rep, conj).shape[0] > 0
+                for other in irreps
+            ):
+                return False
+    return True
 
 
 def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
-- 
2.43.0


From 27d86c238f441cd50b8cd1d98788e3015c80525e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 18/43] fix: make_explicitly_real was unreliable at the branch
 cut of the matrix square root and ignored the discrete generators

---
 lie_nn/_src/real.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index 4423456..f5d0bab 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -31,7 +31,15 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     if S.shape[0] == 0:
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
-    rep = lie.change_basis(rep, la.sqrtm(S[0]))
-    if np.linalg.norm(rep.X.imag) > 1e-10:
+    S = S[0]
+    # The square root has a branch cut on the negative real axis, use the freedom of choosing the
+    # phase of S to keep its eigenvalues away from it.
+    angles = np.sort(np.angle(np.linalg.eigvals(S)))
+    if np.pi - np.max(np.abs(angles)) < 1e-2:
+        gaps = np.diff(np.append(angles, angles[0] + 2 * np.pi))
+        i = np.argmax(gaps)
+        S = S * np.exp(1j * (np.pi - angles[i] - gaps[i] / 2))
+    rep = lie.change_basis(rep, la.sqrtm(S))
+    if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From 5d9572bbe02064a4189e01ad9ce30adb3f2d04f9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 19/43] fix: basis_intersection was wrong for complex bases and
 missed solutions by rounding the Gram matrix

---
 lie_nn/_src/util.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 42acd3c..c7af34f 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -417,23 +417,17 @@ def basis_intersection(
     basis1 = np.reshape(basis1, (basis1.shape[0], -1))
     basis2 = np.reshape(basis2, (basis2.shape[0], -1))
 
-    p = np.concatenate(
-        [
-            np.concatenate([basis1 @ basis1.T, -basis1 @ basis2.T], axis=1),
-            np.concatenate([-basis2 @ basis1.T, basis2 @ basis2.T], axis=1),
-        ],
-        axis=0,
-    )
-    p = round_fn(p)
+    # x1 @ basis1 = x2 @ basis2
+    M = np.concatenate([basis1, -basis2], axis=0)
 
-    w, v = np.linalg.eigh(p)
+    w, v = np.linalg.eigh(np.conj(M) @ M.T)
     v = v[:, w < epsilon]
 
     x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(x1 @ x1.T, epsilon=epsilon, round_fn=round_fn)
+    x1 = gram_schmidt(np.conj(x1) @ x1.T, epsilon=epsilon, round_fn=round_fn)
 
     x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(x2 @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    x2 = gram_schmidt(np.conj(x2) @ x2.T, epsilon=epsilon, round_fn=round_fn)
     return x1, x2
 
 
-- 
2.43.0


From 1a76b924229e3cde66b58c6effb65302c53e065c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 20/43] fix: reduced_tensor_product_basis crashed when an irrep
 has no overlap with the permutation basis

For instance for the antisymmetric product of two vectors.
---
 lie_nn/_src/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index c7af34f..bc8650d 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -414,8 +414,9 @@ def basis_intersection(
         array([[1., 0., 0.]])
     """
     assert basis1.shape[1:] == basis2.shape[1:]
-    basis1 = np.reshape(basis1, (basis1.shape[0], -1))
-    basis2 = np.reshape(basis2, (basis2.shape[0], -1))
+    dim = prod(basis1.shape[1:])
+    basis1 = np.reshape(basis1, (basis1.shape[0], dim))
+    basis2 = np.reshape(basis2, (basis2.shape[0], dim))
 
     # x1 @ basis1 = x2 @ basis2
     M = np.concatenate([basis1, -basis2], axis=0)
-- 
2.43.0


From f3ef121ce5927620da0df53ce751fe31b9b2f8da Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 21/43] fix: dimensions of SPN and SON irreps were truncated
 instead of rounded

---
 lie_nn/_src/irreps/son.py | 2 +-
 lie_nn/_src/irreps/spn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index d0e5bbc..524f8ed 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -50,7 +50,7 @@ class SON(TabulatedIrrep):
     @property
     def dim(rep: "SON") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return round(weyl_dim(weights(rep), positiveroots, weylvector))
 
     def is_scalar(rep: "SON") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 0e27c8c..6c4f000 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -46,7 +46,7 @@ class SPN(TabulatedIrrep):
     @property
     def dim(rep: "SPN") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return round(weyl_dim(weights(rep), positiveroots, weylvector))
 
     def is_scalar(rep: "SPN") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
-- 
2.43.0


From b3789ee8e5a3afc4aa8ae589f9dedbe5501325c2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 22/43] fix: the fundamental weights of D_n were listed twice

---
 lie_nn/_src/lie_algebra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/lie_algebra_utils.py b/lie_nn/_src/lie_algebra_utils.py
index ace02ad..06e52ba 100644
--- a/lie_nn/_src/lie_algebra_utils.py
+++ b/lie_nn/_src/lie_algebra_utils.py
@@ -78,7 +78,7 @@ def RootsWeightsD(rank):
         weights_2 = np.concatenate(([0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)]))
     else:
         weights_2 = np.concatenate(
-            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], weight_sum, [0.5 * sum(epsilon)])
+            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)])
         )
     weights_3 = np.concatenate(([1, 1], np.zeros(rank - 2)))
     dynkin = " " * 4 * (rank - 2) + "0\n"
-- 
2.43.0


From 0f4ac0ad96c8bc0d0a29a07fc4144ea23f7b1493 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 23/43] fix: SON_adjoint generators were redundant and, for odd
 n, not in the algebra

---
 lie_nn/_src/irreps/son.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 524f8ed..b9756a8 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -100,48 +100,47 @@ class SON_adjoint(lie.Rep):
                 [
                     E(i, n2 + j, self.n) - E(j, n2 + i, self.n)
                     for i in range(n2)
-                    for j in range(n2)
-                    if i != j
+                    for j in range(i + 1, n2)
                 ]
             )
             Zs = np.stack(
                 [
                     E(n2 + i, j, self.n) - E(n2 + j, i, self.n)
                     for i in range(n2)
-                    for j in range(n2)
-                    if i != j
+                    for j in range(i + 1, n2)
                 ]
             )
             return np.concatenate([Hs, Xs, Ys, Zs])
         else:
             n2 = (self.n - 1) // 2
             Hs = np.stack([E(i, i, self.n) - E(i + n2, i + n2, self.n) for i in range(n2)])
-            Xs = np.stack(
+            Xs = np.reshape(
                 [
                     E(i, j, self.n) - E(n2 + j, n2 + i, self.n)
                     for i in range(n2)
                     for j in range(n2)
                     if i != j
-                ]
+                ],
+                (-1, self.n, self.n),
             )
-            Ys = np.stack(
+            Ys = np.reshape(
                 [
                     E(i, n2 + j, self.n) - E(j, n2 + i, self.n)
                     for i in range(n2)
-                    for j in range(n2)
-                    if i != j
-                ]
+                    for j in range(i + 1, n2)
+                ],
+                (-1, self.n, self.n),
             )
-            Zs = np.stack(
+            Zs = np.reshape(
                 [
                     E(n2 + i, j, self.n) - E(n2 + j, i, self.n)
                     for i in range(n2)
-                    for j in range(n2)
-                    if i != j
-                ]
+                    for j in range(i + 1, n2)
+                ],
+                (-1, self.n, self.n),
             )
             Us = np.stack(
-                [E(i, self.n - 1, self.n) - E(self.n - 1, i, self.n) for i in range(self.n)]
+                [E(i, self.n - 1, self.n) - E(self.n - 1, n2 + i, self.n) for i in range(n2)]
             )
             Vs = np.stack(
                 [E(n2 + i, self.n - 1, self.n) - E(self.n - 1, i, self.n) for i in range(n2)]
-- 
2.43.0


From e76ccfd66ba170e1c56c4cbe2fedb97b748a2e90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 24/43] fix: jax matrix_power failed for complex matrices

---
 lie_nn/_src/jax_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index 4e8fee8..eb3837e 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -13,7 +13,7 @@ def static_jax_pytree(cls):
 @jax.jit
 def matrix_power(F, n):
     upper_limit = 32
-    init_carry = n, F, jnp.eye(F.shape[0])
+    init_carry = n, F, jnp.eye(F.shape[0], dtype=F.dtype)
 
     def body(carry, _):
         # One step of the iteration
@@ -24,7 +24,7 @@ def matrix_power(F, n):
 
         # No more computation necessary if n = 0
         # Is there a better way to early break rather than just returning something empty?
-        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape), z)
+        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape, dtype=z.dtype), z)
 
         return (new_n, new_z, new_result), None
 
-- 
2.43.0


From 382ef1acd0e4a28e0dd7aeccddfd73b6d1ada1f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 25/43] fix: jax matrix_power returned a wrong matrix for
 negative exponents

---
 lie_nn/_src/jax_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index eb3837e..5f1be6f 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -12,6 +12,9 @@ def static_jax_pytree(cls):
 
 @jax.jit
 def matrix_power(F, n):
+    F = jax.lax.cond(n < 0, jnp.linalg.inv, lambda F: F, F)
+    n = jnp.abs(n)
+
     upper_limit = 32
     init_carry = n, F, jnp.eye(F.shape[0], dtype=F.dtype)
 
-- 
2.43.0


From 658552f9d0a2e4dd50337df8a78425a6c4dbfa25 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 26/43] fix: infer_algebra_from_generators failed without
 continuous generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index bc8650d..0373223 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -463,7 +463,7 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, -1)))
+    pinv = np.linalg.pinv(X.reshape((n, prod(X.shape[1:]))))
 
     algebra = np.zeros((n, n, n), dtype=pinv.dtype)
     for i in range(n):
-- 
2.43.0


From a172a9c45db3876bc305045de4f1d845da7df634 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 27/43] fix: the product of two SU(N) irreps lost their class,
 so its powers and trivial failed

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 759c63d..ccb29a4 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -413,7 +413,7 @@ class SUN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-        return map(SUN, sorted(set(mul_rep(rep1.S, rep2.S))))
+        return map(type(rep1), sorted(set(mul_rep(rep1.S, rep2.S))))
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SUN", rep2: "SUN", rep3: "SUN") -> np.ndarray:
-- 
2.43.0


From fcb5ce762e8fab73fa0e2006e60eeee8d4edd8c5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 28/43] fix: the comparison of Lie algebras broadcasted
 algebras of different dimensions

---
 lie_nn/_src/direct_sum.py            | 1 +
 lie_nn/_src/infer_change_of_basis.py | 1 +
 lie_nn/_src/reduced_rep.py           | 1 +
 lie_nn/_src/tensor_product.py        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/lie_nn/_src/direct_sum.py b/lie_nn/_src/direct_sum.py
index 02c3b34..fab1555 100644
--- a/lie_nn/_src/direct_sum.py
+++ b/lie_nn/_src/direct_sum.py
@@ -7,6 +7,7 @@ from .util import direct_sum as _direct_sum
 
 @dispatch(Rep, Rep)
 def direct_sum(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     assert rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension
     return GenericRep(
diff --git a/lie_nn/_src/infer_change_of_basis.py b/lie_nn/_src/infer_change_of_basis.py
index 21aecab..ff5d550 100644
--- a/lie_nn/_src/infer_change_of_basis.py
+++ b/lie_nn/_src/infer_change_of_basis.py
@@ -26,6 +26,7 @@ def infer_change_of_basis(rep1: Rep, rep2: Rep, round_fn=lambda x: x) -> np.ndar
         The change of basis matrix ``Q``.
     """
     # Check the group structure
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.algebra(), rep2.algebra())
 
     Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()])
diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 9a458b0..6800d4c 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -95,6 +95,7 @@ class ReducedRep(Rep):
             if A is None:
                 A = mul_ir.algebra()
             else:
+                assert A.shape == mul_ir.algebra().shape
                 assert np.allclose(A, mul_ir.algebra())
 
         dim = sum(mul_ir.dim for mul_ir in irreps)
diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index b8bd592..7843265 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -10,6 +10,7 @@ from .rep import GenericRep, Rep
 
 @dispatch(Rep, Rep)
 def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     X1, H1, I1 = rep1.X, rep1.H, np.eye(rep1.dim)
     X2, H2, I2 = rep2.X, rep2.H, np.eye(rep2.dim)
-- 
2.43.0


From c48d2cc06dbc7fdcf8da7a3c79b19785096260b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 29/43] fix: from_irreps accepted irreps with different numbers
 of discrete generators

---
 lie_nn/_src/reduced_rep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 6800d4c..d2058dd 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -97,6 +97,7 @@ class ReducedRep(Rep):
             else:
                 assert A.shape == mul_ir.algebra().shape
                 assert np.allclose(A, mul_ir.algebra())
+                assert len(irreps[0].rep.H) == len(mul_ir.rep.H)  # same discrete dimension
 
         dim = sum(mul_ir.dim for mul_ir in irreps)
         assert Q is None or Q.shape == (dim, dim)
-- 
2.43.0


From c8e6b6d934d247f340096664091fd4ed2eb125c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 30/43] fix: irreps of different families are not equal (SON,
 SPN, SUN compared only S)

---
 lie_nn/_src/irreps/son.py | 2 +-
 lie_nn/_src/irreps/spn.py | 2 +-
 lie_nn/_src/irreps/sun.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index b9756a8..ea4e9e8 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -45,7 +45,7 @@ class SON(TabulatedIrrep):
         return rep1.S < rep2.S
 
     def __eq__(rep1: "SON", rep2: "SON") -> bool:
-        return rep1.S == rep2.S
+        return isinstance(rep2, SON) and rep1.S == rep2.S
 
     @property
     def dim(rep: "SON") -> int:
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 6c4f000..681608e 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -41,7 +41,7 @@ class SPN(TabulatedIrrep):
         return rep1.S < rep2.S
 
     def __eq__(rep1: "SPN", rep2: "SPN") -> bool:
-        return rep1.S == rep2.S
+        return isinstance(rep2, SPN) and rep1.S == rep2.S
 
     @property
     def dim(rep: "SPN") -> int:
diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index ccb29a4..b4713b8 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -424,7 +424,7 @@ class SUN(TabulatedIrrep):
         return rep1.S < rep2.S
 
     def __eq__(rep1: "SUN", rep2: "SUN") -> bool:
-        return rep1.S == rep2.S
+        return isinstance(rep2, SUN) and rep1.S == rep2.S
 
     @property
     def dim(rep: "SUN") -> int:
-- 
2.43.0


From 0f36e20e1a0100dccfa0e00f9eb15b868df0071c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 31/43] fix: direct_sum of matrices recursed once per block,
 large multiples exceeded the recursion limit

---
 lie_nn/_src/util.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 0373223..36e4e65 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -194,18 +194,17 @@ def direct_sum(A, *BCD):
     """
     if len(BCD) == 0:
         return A
-    B = direct_sum(*BCD)
 
-    shape = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
-    A = np.broadcast_to(A, shape + A.shape[-2:])
-    B = np.broadcast_to(B, shape + B.shape[-2:])
+    shape = np.broadcast_shapes(A.shape[:-2], *[B.shape[:-2] for B in BCD])
+    m = A.shape[-2] + sum(B.shape[-2] for B in BCD)
+    n = A.shape[-1] + sum(B.shape[-1] for B in BCD)
 
-    m, n = A.shape[-2:]
-    p, q = B.shape[-2:]
-
-    output = np.zeros(shape=shape + (m + p, n + q), dtype=np.complex128)
-    output[..., :m, :n] = A
-    output[..., m:, n:] = B
+    output = np.zeros(shape=shape + (m, n), dtype=np.complex128)
+    i, j = 0, 0
+    for B in (A, *BCD):
+        p, q = B.shape[-2:]
+        output[..., i : i + p, j : j + q] = B
+        i, j = i + p, j + q
     return output
 
 
-- 
2.43.0


From 82c6c29ae2c10e81a87a38cc4c5b41acf2c4699f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 32/43] fix: jax matrix_power failed on integer matrices

---
 lie_nn/_src/jax_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index 5f1be6f..ca75ca0 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -12,6 +12,7 @@ def static_jax_pytree(cls):
 
 @jax.jit
 def matrix_power(F, n):
+    F = F.astype(jnp.result_type(F, float))  # the inverse of an integer matrix is not integer
     F = jax.lax.cond(n < 0, jnp.linalg.inv, lambda F: F, F)
     n = jnp.abs(n)
 
-- 
2.43.0


From 9de5a1216f1104cd317fb54e72689f07ff90a4d9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 33/43] fix: tensor_product of sums of irreps that are not
 tabulated raised AttributeError

---
 lie_nn/_src/tensor_product.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 7843265..3ff7551 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -46,6 +46,8 @@ def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # n
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
+    if not isinstance(tp_irreps, ReducedRep):  # the irreps are not tabulated
+        return tensor_product(GenericRep.from_rep(mulirrep1), GenericRep.from_rep(mulirrep2))
     Q = tp_irreps.Q
     irreps = tp_irreps.irreps
     Q_out = []
@@ -81,6 +83,8 @@ def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> ReducedRep:  # noqa: F
         j = 0
         for mulirrep2 in rep2.irreps:
             reducedrep = tensor_product(mulirrep1, mulirrep2)
+            if not isinstance(reducedrep, ReducedRep):  # the irreps are not tabulated
+                return tensor_product(GenericRep.from_rep(rep1), GenericRep.from_rep(rep2))
             mulir_list += reducedrep.irreps
             q = reducedrep.Q.reshape(mulirrep1.dim, mulirrep2.dim, reducedrep.dim)
             Q[i : i + mulirrep1.dim, j : j + mulirrep2.dim, k : k + reducedrep.dim] = q
-- 
2.43.0


From db8c2ab712266d360d1f3114640a4e0827b0c243 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 34/43] fix: the Dynkin diagram of D_n had n + 1 nodes and no
 label n - 1

---
 lie_nn/_src/lie_algebra_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lie_nn/_src/lie_algebra_utils.py b/lie_nn/_src/lie_algebra_utils.py
index 06e52ba..14d4faa 100644
--- a/lie_nn/_src/lie_algebra_utils.py
+++ b/lie_nn/_src/lie_algebra_utils.py
@@ -81,13 +81,13 @@ def RootsWeightsD(rank):
             (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)])
         )
     weights_3 = np.concatenate(([1, 1], np.zeros(rank - 2)))
-    dynkin = " " * 4 * (rank - 2) + "0\n"
-    dynkin += " " * 4 * (rank - 2) + "|\n"
-    dynkin += "---".join("0" for i in range(1, rank)) + "\n"
-    dynkin += "   ".join(str(i) for i in range(1, rank - 1)) + "   " + str(rank)
-    dynkin += " " * 4 * (rank - 2) + "\n"
-    dynkin += " " * 4 * (rank - 2) + "|\n"
-    dynkin += " " * 4 * (rank - 2) + "0\n"
+    # a chain of the first n - 2 nodes which forks into the last two
+    dynkin = " " * 4 * (rank - 3) + f"0 {rank - 1}\n"
+    dynkin += " " * 4 * (rank - 3) + "|\n"
+    dynkin += "---".join("0" for i in range(1, rank - 1)) + "\n"
+    dynkin += "   ".join(str(i) for i in range(1, rank - 1)) + "\n"
+    dynkin += " " * 4 * (rank - 3) + "|\n"
+    dynkin += " " * 4 * (rank - 3) + f"0 {rank}\n"
     return roots, weights_1, weights_2, weights_3, dynkin
 
 
-- 
2.43.0


From e4dd4a13fff64262ec75595e8b7976b162aa2b03 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:57:06 +0000
Subject: [PATCH 35/43] fix: keep the indices in order when reducing products
 of nine or more indices

The order in which a frozenset of integers is iterated is not sorted as soon as it
contains an integer above 7.
---
 lie_nn/_src/reduced_tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 9201f62..8c1e2dc 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -263,7 +263,7 @@ def _reduced_tensor_product_basis(
         i, j, f = best
         del bases[j]
         del bases[i]
-        sub_irreps = tuple(irreps_tuple[i] for i in f)
+        sub_irreps = tuple(irreps_tuple[i] for i in sorted(f))
         sub_perm_repr = subrepr_permutation(f, perm_repr)
         ab = _reduced_tensor_product_basis(sub_irreps, sub_perm_repr, epsilon)
         ab = ab.reshape(tuple(dims[i] if i in f else 1 for i in range(len(dims))) + (-1,))
@@ -397,7 +397,7 @@ def reduce_subgroup_permutation(
     return_dim: bool = False,
 ) -> np.ndarray:
     sub_perm_repr = subrepr_permutation(sub_f0, perm_repr)
-    sub_dims = tuple(dims[i] for i in sub_f0)
+    sub_dims = tuple(dims[i] for i in sorted(sub_f0))
     if len(sub_perm_repr) == 1:
         if return_dim:
             return prod(sub_dims)
-- 
2.43.0


From 964e35392df8565da338e9a4a18d3f4ad6c3ba0d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 36/43] fix: SL2C and SO13 labels refuse to be multiplied with
 labels of other groups

---
 lie_nn/_src/irreps/sl2c.py | 1 +
 lie_nn/_src/irreps/so13.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lie_nn/_src/irreps/sl2c.py b/lie_nn/_src/irreps/sl2c.py
index 4220a6e..3d00fc0 100644
--- a/lie_nn/_src/irreps/sl2c.py
+++ b/lie_nn/_src/irreps/sl2c.py
@@ -28,6 +28,7 @@ class SL2C(TabulatedIrrep):
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
     def __mul__(rep1: "SL2C", rep2: "SL2C") -> Iterator["SL2C"]:
+        assert isinstance(rep2, SL2C)
         for l in range(abs(rep1.l - rep2.l), rep1.l + rep2.l + 1, 2):
             for k in range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2):
                 yield SL2C(l=l, k=k)
diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index 9b32c92..ed8bd25 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -32,6 +32,7 @@ class SO13(
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
     def __mul__(rep1: "SO13", rep2: "SO13") -> Iterator["SO13"]:
+        assert isinstance(rep2, SO13)
         for rep in SL2C(l=rep1.l, k=rep1.k) * SL2C(l=rep2.l, k=rep2.k):
             yield SO13(l=rep.l, k=rep.k)
 
-- 
2.43.0


From 535396b84e192694300c296db63bc49fd408f42f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 37/43] fix: clebsch_gordan of irreps of different families
 uses the generic method, which refuses different groups

---
 lie_nn/_src/clebsch_gordan.py | 5 ++++-
 lie_nn/_src/group_product.py  | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/clebsch_gordan.py b/lie_nn/_src/clebsch_gordan.py
index 4879b0b..654e356 100644
--- a/lie_nn/_src/clebsch_gordan.py
+++ b/lie_nn/_src/clebsch_gordan.py
@@ -3,7 +3,7 @@ from multipledispatch import dispatch
 
 from .infer_change_of_basis import infer_change_of_basis
 from .irrep import TabulatedIrrep
-from .rep import Rep
+from .rep import GenericRep, Rep
 from .tensor_product import tensor_product
 
 
@@ -31,4 +31,7 @@ def clebsch_gordan(rep1: Rep, rep2: Rep, rep3: Rep, *, round_fn=lambda x: x) ->
 def clebsch_gordan(  # noqa: F811
     rep1: TabulatedIrrep, rep2: TabulatedIrrep, rep3: TabulatedIrrep, *, round_fn=lambda x: x
 ) -> np.ndarray:
+    if not type(rep1) is type(rep2) is type(rep3):
+        # the formulas of a family only apply to its own irreps
+        return clebsch_gordan(GenericRep.from_rep(rep1), rep2, rep3, round_fn=round_fn)
     return rep1.clebsch_gordan(rep1, rep2, rep3)
diff --git a/lie_nn/_src/group_product.py b/lie_nn/_src/group_product.py
index e5ad37e..1494289 100644
--- a/lie_nn/_src/group_product.py
+++ b/lie_nn/_src/group_product.py
@@ -6,6 +6,8 @@ from typing import Iterator
 import numpy as np
 from multipledispatch import dispatch
 
+import lie_nn as lie
+
 from .irrep import TabulatedIrrep
 from .rep import GenericRep, Rep
 
@@ -74,8 +76,8 @@ class TabulatedIrrepProduct(TabulatedIrrep):
         rep2: "TabulatedIrrepProduct",
         rep3: "TabulatedIrrepProduct",
     ) -> np.ndarray:
-        C1 = rep1.rep1.clebsch_gordan(rep1.rep1, rep2.rep1, rep3.rep1)  # [n_sol1, d1_1, d2_1, d3_1]
-        C2 = rep1.rep2.clebsch_gordan(rep1.rep2, rep2.rep2, rep3.rep2)  # [n_sol2, d1_2, d2_2, d3_2]
+        C1 = lie.clebsch_gordan(rep1.rep1, rep2.rep1, rep3.rep1)  # [n_sol1, d1_1, d2_1, d3_1]
+        C2 = lie.clebsch_gordan(rep1.rep2, rep2.rep2, rep3.rep2)  # [n_sol2, d1_2, d2_2, d3_2]
         C = np.einsum("aikm,bjln->abijklmn", C1, C2).reshape(
             len(C1) * len(C2), rep1.dim, rep2.dim, rep3.dim
         )
-- 
2.43.0


From 69bbc12a96b5fb04c3f19b74eddcf6778ce8cb1a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 38/43] fix: SUN labels refuse to be multiplied with labels of
 another N

---
 lie_nn/_src/irreps/sun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index b4713b8..07ce92a 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -413,6 +413,7 @@ class SUN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
+        assert isinstance(rep2, SUN) and len(rep1.S) == len(rep2.S)
         return map(type(rep1), sorted(set(mul_rep(rep1.S, rep2.S))))
 
     @classmethod
-- 
2.43.0


From c5d1347d1c45d9629c295ff650808537e1b488ef Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 39/43] fix: SO3, O3 and Z2 refuse labels that are not of the
 group, like the other families

---
 lie_nn/_src/irreps/o3_real.py  | 4 ++++
 lie_nn/_src/irreps/so3_real.py | 3 +++
 lie_nn/_src/irreps/z2.py       | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/lie_nn/_src/irreps/o3_real.py b/lie_nn/_src/irreps/o3_real.py
index 8380e57..958a9cb 100644
--- a/lie_nn/_src/irreps/o3_real.py
+++ b/lie_nn/_src/irreps/o3_real.py
@@ -13,6 +13,10 @@ class O3(TabulatedIrrep):
     l: int  # non-negative integer
     p: int  # 1 or -1
 
+    def __post_init__(rep):
+        assert rep.l >= 0
+        assert rep.p in (1, -1)
+
     @classmethod
     def from_string(cls, s: str) -> "O3":
         s = s.strip()
diff --git a/lie_nn/_src/irreps/so3_real.py b/lie_nn/_src/irreps/so3_real.py
index 1982bca..f45726a 100644
--- a/lie_nn/_src/irreps/so3_real.py
+++ b/lie_nn/_src/irreps/so3_real.py
@@ -25,6 +25,9 @@ def change_basis_real_to_complex(l: int) -> np.ndarray:
 class SO3(TabulatedIrrep):
     l: int
 
+    def __post_init__(rep):
+        assert rep.l >= 0
+
     @classmethod
     def from_string(cls, s: str) -> "SO3":
         return cls(l=int(s))
diff --git a/lie_nn/_src/irreps/z2.py b/lie_nn/_src/irreps/z2.py
index e3c2268..af955b1 100644
--- a/lie_nn/_src/irreps/z2.py
+++ b/lie_nn/_src/irreps/z2.py
@@ -10,6 +10,9 @@ from ..irrep import TabulatedIrrep
 class Z2(TabulatedIrrep):
     p: int  # 1 or -1
 
+    def __post_init__(rep):
+        assert rep.p in (1, -1)
+
     @classmethod
     def from_string(cls, s: str) -> "Z2":
         s = s.strip()
-- 
2.43.0


From 391b682c2de560d6b0907311d3618a51dd88537e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 40/43] fix: the tensor product of sums of irreps dropped the
 imaginary part of a small change of basis

---
 lie_nn/_src/tensor_product.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 3ff7551..0f3f7b3 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -95,7 +95,8 @@ def tensor_product(rep1: ReducedRep, rep2: ReducedRep) -> ReducedRep:  # noqa: F
     Q = Q.reshape(rep1.dim * rep2.dim, rep1.dim * rep2.dim)
     Q = Q_tp @ Q
 
-    if np.allclose(Q.imag, 0):
+    # Q may have any scale
+    if np.all(np.abs(Q.imag) <= 1e-8 * np.max(np.abs(Q), axis=1, keepdims=True, initial=0.0)):
         Q = Q.real
     if np.allclose(Q, np.eye(Q.shape[0])):
         Q = None
-- 
2.43.0


From ad78b6a5d466320df8aebe1843ed6b9ce6f96901 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:15:08 +0000
Subject: [PATCH 41/43] fix: reduced tensor products do not depend on the scale
 of the changes of basis of their operands

---
 lie_nn/_src/reduced_tensor_product.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8c1e2dc..8b246e2 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -96,7 +96,13 @@ def _same_reducedrep(rep1: ReducedRep, rep2: ReducedRep) -> bool:
         return False
     if rep1.Q is None or rep2.Q is None:
         return rep1.Q is None and rep2.Q is None
-    return np.allclose(rep1.Q, rep2.Q)
+    return np.allclose(rep1.Q, rep2.Q, atol=1e-8 * np.max(np.abs(rep2.Q), initial=0.0))
+
+
+def _normalize(Q: np.ndarray) -> np.ndarray:
+    """Bring Q to the scale 1, this changes neither the representation nor the digits of Q."""
+    norm = np.linalg.norm(Q)
+    return Q if norm == 0 else Q / 2.0 ** np.round(np.log2(norm / np.sqrt(len(Q))))
 
 
 def reduced_tensor_product_basis(
@@ -206,7 +212,11 @@ def _reduced_tensor_product_basis(
 
     def get_initial_basis(reduced_rep: ReducedRep, i: int) -> List[np.ndarray]:
         x = np.reshape(
-            np.eye(reduced_rep.dim) if reduced_rep.Q is None else np.linalg.inv(reduced_rep.Q).T,
+            (
+                np.eye(reduced_rep.dim)
+                if reduced_rep.Q is None
+                else np.linalg.inv(_normalize(reduced_rep.Q)).T
+            ),
             (1,) * i + (reduced_rep.dim,) + (1,) * (len(irreps_tuple) - i - 1) + (reduced_rep.dim,),
         )
         x_list = []
-- 
2.43.0


From 2f67111045b21daf7d0125d6a0ea1dad0251197e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 42/43] fix: text after a label, as in '(1,0)x', is refused

---
 lie_nn/_src/irreps/sl2c.py | 2 +-
 lie_nn/_src/irreps/so13.py | 2 +-
 lie_nn/_src/irreps/son.py  | 2 +-
 lie_nn/_src/irreps/spn.py  | 2 +-
 lie_nn/_src/irreps/sun.py  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/irreps/sl2c.py b/lie_nn/_src/irreps/sl2c.py
index 3d00fc0..b8d6b26 100644
--- a/lie_nn/_src/irreps/sl2c.py
+++ b/lie_nn/_src/irreps/sl2c.py
@@ -23,7 +23,7 @@ class SL2C(TabulatedIrrep):
 
     @classmethod
     def from_string(cls, s: str) -> "SL2C":
-        m = re.match(r"\((\d+),(\d+)\)", s.strip())
+        m = re.fullmatch(r"\((\d+),(\d+)\)", s.strip())
         assert m is not None
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index ed8bd25..a208928 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -27,7 +27,7 @@ class SO13(
 
     @classmethod
     def from_string(cls, s: str) -> "SO13":
-        m = re.match(r"\((\d+),(\d+)\)", s.strip())
+        m = re.fullmatch(r"\((\d+),(\d+)\)", s.strip())
         assert m is not None
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index ea4e9e8..8e4389d 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -30,7 +30,7 @@ class SON(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SON":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SON", rep2: "SON") -> List["SON"]:
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 681608e..99ddd62 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -26,7 +26,7 @@ class SPN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SPN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SPN", rep2: "SPN") -> List["SPN"]:
diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 07ce92a..22b168f 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -409,7 +409,7 @@ class SUN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SUN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-- 
2.43.0


From 38c8c422b3f9587722fe016211cb490cf1ecfe9b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 43/43] fix: rows with a tiny residual spoiled null spaces
 computed with a small tolerance

---
 lie_nn/_src/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 36e4e65..c655b4c 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -287,7 +287,9 @@ def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarra
     val, vec = np.linalg.eigh(A)
     X = vec.T[np.abs(val) < epsilon]
     X = np.conj(X.T) @ X
-    X = gram_schmidt(X, round_fn=round_fn, epsilon=epsilon)
+    # The largest residual of the rows of a projector (n, n) is at least 1/sqrt(n) until they are all
+    # spanned. Normalizing a tiny one would only amplify the rounding errors.
+    X = gram_schmidt(X, round_fn=round_fn, epsilon=max(epsilon, 0.1 / np.sqrt(max(len(X), 1))))
     return X
 
 
@@ -573,7 +575,10 @@ def decompose_rep_into_irreps(
     Ys = []
     for _, W in stable_spaces:
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
-        B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
+        P = B.T.conj() @ B
+        B = gram_schmidt(  # Make it sparse!!
+            P, epsilon=max(epsilon, 0.1 / np.sqrt(len(P))), round_fn=round_fn
+        )
 
         Ys += [B.conj() @ X @ B.T]
     return Ys
-- 
2.43.0

