From d75a26c3b17250a61585d0a9d9b2e85d2fa933b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 01/12] fix: index new operations by position in the list of
 unique primitive symmetries

---
 src/spgrep/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index c31dcae..4e917b1 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -84,7 +84,7 @@ def unique_primitive_symmetry(
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = i
+            mapping_to_primitive_symmetry[i] = len(rotations_int)
             rotations_int.append(rotation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
-- 
2.43.0


From 43a603b547b38f0b23d89f93c0316792a82c2027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 02/12] fix: transform real-type irreps into real matrices with
 the square root of the intertwiner

---
 src/spgrep/irreps.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 1aae7d9..6ddddbc 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -596,19 +596,17 @@ def get_physically_irrep(
             irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations
         )
 
-        # Take real or imaginary part of eigenvectors for new basis vectors
-        eigvals, eigvecs = np.linalg.eig(U)  # eigvecs[:, i] is the i-th eigenvector
-        real_eigvecs = []
-        for eigvec in np.transpose(eigvecs):
-            if not np.allclose(np.real(eigvec), 0, atol=atol):
-                real_eigvec = np.real(eigvec)
-            else:
-                real_eigvec = np.imag(eigvec)
-            real_eigvecs.append(real_eigvec / np.linalg.norm(real_eigvec))
-        S = np.transpose(real_eigvecs)
+        # U is symmetric and unitary, so that its real and imaginary parts are commuting real symmetric matrices.
+        # Diagonalize both with a real orthogonal matrix: U = S @ diag(eigvals) @ S.T
+        # S[:, i] is the i-th eigenvector. A generic combination separates distinct eigenvalues.
+        for phase in range(dim * dim):
+            _, S = np.linalg.eigh(np.real(np.exp(1j * phase) * (U + U.T) / 2))
+            eigvals = np.einsum("ji,jk,ki->i", S, U, S)
+            if np.allclose(S @ np.diag(eigvals) @ S.T, U, atol=atol):
+                break
 
-        # Square root of intertwiner
-        T = S.T @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S
+        # irrep @ U == U @ np.conj(irrep), then T @ irrep @ T^-1 is real with T = U^(-1/2)
+        T = S @ np.diag([1 / nroot(eigval, 2) for eigval in eigvals]) @ S.T
 
         real_irrep = np.real(np.einsum("il,klm,mj->kij", T, irrep, np.conj(T), optimize="greedy"))
 
-- 
2.43.0


From 54fbda9fc5c6388c085d4b4ff6e15ef179269b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 03/12] fix: regard small representations at k with 2k not a
 reciprocal vector as complex type

---
 src/spgrep/irreps.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 6ddddbc..126a82e 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -95,8 +95,16 @@ def enumerate_small_representations(
         )
         irreps.append(rep * phases[:, None, None])
 
+    # Small representations for k and -k are inequivalent and their summation over translations becomes zero
+    # unless `2*kpoint equiv 0`
+    two_kpoint = 2 * np.asarray(kpoint)
+    is_self_conjugate = np.allclose(two_kpoint - np.rint(two_kpoint), 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        if is_self_conjugate:
+            indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        else:
+            indicators = [0 for _ in irreps]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -124,13 +132,7 @@ def enumerate_small_representations(
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
 
-        indicator = frobenius_schur_indicator(irrep)
-        # summation over translations becomes zero unless `2*kpoint equiv 0`
-        two_kpoint = 2 * kpoint
-        two_kpoint -= np.rint(two_kpoint)
-        if not np.allclose(two_kpoint, 0):
-            indicator = 0
-
+        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate else 0
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
@@ -201,8 +203,14 @@ def enumerate_unitary_irreps(
     for irrep in irreps:
         irrep = purify_irrep_value(irrep, atol=atol)
 
+    # Projective irrep and its conjugate have the same factor system only if the factor system is real
+    is_self_conjugate = np.allclose(np.imag(factor_system), 0, atol=atol)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        if is_self_conjugate:
+            indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        else:
+            indicators = [0 for _ in irreps]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -215,7 +223,7 @@ def enumerate_unitary_irreps(
         visited[i] = True
         inequivalent = False
         for j, cj in enumerate(characters):
-            if visited[j]:
+            if visited[j] or not is_self_conjugate:
                 continue
             if is_equivalent_irrep(np.conj(ci), cj):
                 conjugated_pairs.append((i, j))
@@ -229,7 +237,7 @@ def enumerate_unitary_irreps(
     indicators = []
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
-        indicator = frobenius_schur_indicator(irrep)
+        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate else 0
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
-- 
2.43.0


From c78a4a2da7746dbaf9d3368bbf06dc5fd6b3b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 04/12] fix: take account of the transformation from given cell
 to the standardized one

---
 src/spgrep/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 112a1a8..0304cc2 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -98,7 +98,10 @@ def get_spacegroup_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # `transformation_matrix` maps given cell to the standardized one: (std_lattice)^T = lattice^T @ transformation_matrix^-1
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -379,7 +382,10 @@ def get_spacegroup_spinor_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # `transformation_matrix` maps given cell to the standardized one: (std_lattice)^T = lattice^T @ transformation_matrix^-1
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
-- 
2.43.0


From a497b6513c6672391b6bd30b8a710f71ec818699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 05/12] fix: take complex conjugate of representation matrices
 acted by anti-linear operator in co-representations

---
 src/spgrep/corep.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index b0fbafc..9e7ff51 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -189,16 +189,18 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
-                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ irrep
+                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
+                * U[None, :, :]
+                @ np.conj(irrep)
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
-            #   [0, conj_irrep]]
+            #   [0, irrep]]
             corep[xsg_indices, :dim, :dim] = irrep
-            corep[xsg_indices, dim:, dim:] = conj_irrep
+            corep[xsg_indices, dim:, dim:] = irrep
 
             # [ [0, -U],
             #   [U, 0] ]
@@ -209,7 +211,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         elif indicator == 0:
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
@@ -230,7 +232,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         else:
             raise ValueError("Unreachable!")
-- 
2.43.0


From e052bb45fea2f64c04e17114bac2aaa4b2b940e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 06/12] fix: take account of time reversal of wave vectors for
 small co-representations

---
 src/spgrep/core.py  |  2 +-
 src/spgrep/corep.py |  1 +
 src/spgrep/group.py | 18 ++++++++++++++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 0304cc2..e2f4781 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -549,7 +549,7 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
             raise ValueError("Specify symmetry operations in primitive cell!")
 
     little_rotations, little_translations, mapping_little_group = get_little_group(
-        rotations, translations, kpoint, atol=atol
+        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
     )
 
     if time_reversals is None:
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 9e7ff51..13fa71d 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -108,6 +108,7 @@ def enumerate_spinor_small_corepresentations(
         little_rotations,
         little_translations,
         kpoint,
+        little_time_reversals,
     )
     factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system
 
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 67e82ff..c8442e0 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -102,6 +102,7 @@ def get_factor_system_from_little_group(
     little_rotations: NDArrayInt,
     little_translations: NDArrayFloat,
     kpoint: NDArrayFloat,
+    little_time_reversals: NDArrayInt | None = None,
 ) -> NDArrayComplex:
     r"""Calculate factor system of projective representation of little co-group.
 
@@ -110,6 +111,7 @@ def get_factor_system_from_little_group(
        = \exp \left( -i \mathbf{g}_{i} \cdot \mathbf{w}_{j} \right) D^{\mathbf{k}}_{p}(S_{k})
 
     where :math:`S_{i}S_{j} = S_{k}` and :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} - \mathbf{k}`.
+    For anti-linear operations, :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} + \mathbf{k}`.
 
     Parameters
     ----------
@@ -118,6 +120,8 @@ def get_factor_system_from_little_group(
     little_translations: array, (order, 3)
         Translation parts of coset of little group stabilizing ``kpoint``.
     kpoint: array, (3, )
+    little_time_reversals: (Optional) array[int], (order, )
+        Time-reversal parts of coset of little group. If specified, ``little_time_reversals[i] == 1`` is anti-linear.
 
     Returns
     -------
@@ -129,7 +133,10 @@ def get_factor_system_from_little_group(
     residuals = np.zeros((n, 3))
     for i, rotation in enumerate(little_rotations):
         # Never take modulus!
-        residuals[i] = rotation.T @ kpoint - kpoint
+        if little_time_reversals is not None and little_time_reversals[i] == 1:
+            residuals[i] = rotation.T @ kpoint + kpoint
+        else:
+            residuals[i] = rotation.T @ kpoint - kpoint
 
     factor_system = np.zeros((n, n), dtype=np.complex_)
     for i, residual in enumerate(residuals):
@@ -144,6 +151,7 @@ def get_little_group(
     translations: NDArrayFloat,
     kpoint: NDArrayFloat,
     atol: float = 1e-8,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, NDArrayInt]:
     """Return coset of little group of given space group which stabilize kpoint under rotations.
 
@@ -152,6 +160,9 @@ def get_little_group(
     rotations: array, (order, 3, 3)
     translations: array, (order, 3)
     kpoint: array, (3, )
+    atol: float
+    time_reversals: (Optional) array[int], (order, )
+        If specified, operations with ``time_reversals[i] == 1`` additionally reverse ``kpoint``.
 
     Returns
     -------
@@ -166,7 +177,10 @@ def get_little_group(
     mapping_little_group = []
 
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        residual = rotation.T @ kpoint - kpoint
+        if time_reversals is not None and time_reversals[i] == 1:
+            residual = rotation.T @ kpoint + kpoint
+        else:
+            residual = rotation.T @ kpoint - kpoint
         residual = residual - np.rint(residual)
         if not np.allclose(residual, 0, atol=atol):
             continue
-- 
2.43.0


From e186e56ce54f2323ee21bc0cf54290d99a64260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 07/12] fix: distinguish time-reversal operations and duplicate
 spinor data in transformation from primitive to given cell

---
 src/spgrep/core.py      | 22 +++++++++++++++++-----
 src/spgrep/transform.py | 13 ++++++++++---
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index e2f4781..7a3724b 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -380,6 +380,7 @@ def get_spacegroup_spinor_irreps(
 
     rotations = dataset["rotations"]
     translations = dataset["translations"]
+    time_reversals = None if magmoms is None else dataset["time_reversals"]
 
     # Transform to primitive
     # `transformation_matrix` maps given cell to the standardized one: (std_lattice)^T = lattice^T @ transformation_matrix^-1
@@ -392,7 +393,7 @@ def get_spacegroup_spinor_irreps(
     prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T
     # mapping_to_prim: [0..num_sym) -> [0..order)
     uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(
-        prim_rotations, prim_translations
+        prim_rotations, prim_translations, time_reversals
     )
 
     if magmoms is None:
@@ -413,8 +414,9 @@ def get_spacegroup_spinor_irreps(
             max_num_random_generations=max_num_random_generations,
         )
     else:
-        time_reversals = dataset["time_reversals"]
-        uniq_prim_time_reversals = time_reversals[mapping_to_prim]
+        uniq_prim_time_reversals = np.array(
+            [time_reversals[mapping_to_prim.index(i)] for i in range(len(uniq_prim_rotations))]
+        )
         (
             prim_irreps,
             _,
@@ -443,6 +445,14 @@ def get_spacegroup_spinor_irreps(
         prim_irreps,
         mapping_prim_little_group,
     )
+    remapping_prim_little_group = {idx: i for i, idx in enumerate(mapping_prim_little_group)}
+    conv_to_prim_little = [
+        remapping_prim_little_group[mapping_to_prim[i]] for i in mapping_little_group
+    ]
+    little_spinor_factor_system = little_spinor_factor_system[
+        np.ix_(conv_to_prim_little, conv_to_prim_little)
+    ]
+    little_unitary_rotations = little_unitary_rotations[conv_to_prim_little]
 
     if magmoms is None:
         return (
@@ -458,7 +468,7 @@ def get_spacegroup_spinor_irreps(
             irreps,
             little_spinor_factor_system,
             little_unitary_rotations,
-            little_anti_linear,
+            little_anti_linear[conv_to_prim_little],
             rotations,
             translations,
             time_reversals,
@@ -542,7 +552,9 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
         kpoint = np.zeros(3)
 
     # Sanity check to use primitive cell
-    for rotation, translation in zip(rotations, translations):
+    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
+        if time_reversals is not None and time_reversals[i] == 1:
+            continue  # Primitive cell of type-IV MSG has an anti-translation
         if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
             translation, 0, atol=atol
         ):
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index 4e917b1..e9bcc19 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -53,7 +53,9 @@ def transform_symmetry_and_kpoint(
 
 
 def unique_primitive_symmetry(
-    rotations: NDArrayInt, translations: NDArrayFloat
+    rotations: NDArrayInt,
+    translations: NDArrayFloat,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, list[int]]:
     """Remove duplicated symmetry operations.
 
@@ -61,6 +63,8 @@ def unique_primitive_symmetry(
     ----------
     rotations: array, (num_sym, 3, 3)
     translations: array, (num_sym, 3)
+    time_reversals: (Optional) array[int], (num_sym, )
+        If specified, operations with different time-reversal parts are distinguished.
 
     Returns
     -------
@@ -69,13 +73,16 @@ def unique_primitive_symmetry(
     mapping_to_primitive_symmetry: array, (num_sym, )
         ``(rotations[i], translations[i])`` is transformed to ``(unique_rotations[j], unique_translations[j])`` where ``j = mapping_to_primitive_symmetry[i]``.
     """
-    rotations_int: list[tuple[tuple[int]]] = []
+    if time_reversals is None:
+        time_reversals = np.zeros(len(rotations), dtype=np.int_)
+
+    rotations_int: list[tuple[tuple[tuple[int]], bool]] = []
 
     unique_rotations = []
     unique_translations = []
     mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        rotation_int = ndarray2d_to_integer_tuple(rotation)
+        rotation_int = (ndarray2d_to_integer_tuple(rotation), bool(time_reversals[i]))
         try:
             j = rotations_int.index(rotation_int)
             # Duplicated symmetry operation
-- 
2.43.0


From 28ea57ebe997ead322cb46b9d2f8d0e4b2485801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 08/12] fix: return None in coset decomposition of type-I
 magnetic space group

---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index c8442e0..6dd69ca 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -238,7 +238,7 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
-    if np.all(time_reversals == 1):
+    if np.all(time_reversals == 0):
         # Type-I MSG
         return None
 
-- 
2.43.0


From 891b2ade7e9f29007d22e0f39f1ae2c2f698939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 09/12] fix: do not regard numbers less than two as prime

---
 src/spgrep/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spgrep/utils.py b/src/spgrep/utils.py
index 8fe16ca..55e8495 100644
--- a/src/spgrep/utils.py
+++ b/src/spgrep/utils.py
@@ -48,6 +48,8 @@ def get_symmetry_from_hall_number(hall_number: int) -> tuple[NDArrayInt, NDArray
 
 def is_prime(n: int) -> bool:
     """Return true if given number is prime."""
+    if n < 2:
+        return False
     for i in range(2, n):
         if n % i == 0:
             return False
-- 
2.43.0


From 30894967c928f4cc4cf1edb4a8cc406ff742ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 10/12] fix: raise ValueError for unsupported groups instead of
 discarding it

---
 src/spgrep/group.py      | 2 +-
 src/spgrep/pointgroup.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 6dd69ca..310e6f1 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -44,7 +44,7 @@ def get_cayley_table(
             trk = tri != trj
             k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))
             if table[i][j] != -1:
-                ValueError("Should specify a matrix group.")
+                raise ValueError("Should specify a matrix group.")
             table[i][j] = k
 
     return np.array(table)
diff --git a/src/spgrep/pointgroup.py b/src/spgrep/pointgroup.py
index 0fde970..73c61b2 100644
--- a/src/spgrep/pointgroup.py
+++ b/src/spgrep/pointgroup.py
@@ -714,5 +714,4 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
             generators = get_generators(pg_symbol, idx)
             return [mapping[g] for g in generators]
 
-    ValueError("Failed to match with tabulated point groups.")
-    return []  # This line is unreachable, just for persuading mypy!
+    raise ValueError("Failed to match with tabulated point groups.")
-- 
2.43.0


From 1ae85467953f75b6db09332e9c03295083d288c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 11/12] fix: decompose representations containing an irrep more
 than once

---
 src/spgrep/irreps.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 126a82e..938a77d 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -329,8 +329,11 @@ def decompose_representation(
     Returns
     -------
     irreps: list of unitary Irreps with (order, dim, dim)
+        Inequivalent irreps appeared in ``representation``
     """
+    order = representation.shape[0]
     dim0 = representation.shape[1]
+    character = get_character(representation)
 
     rng = np.random.default_rng(seed=0)
     for _ in range(max_num_random_generations):
@@ -350,7 +353,12 @@ def decompose_representation(
         # Decompose to subspaces corresponding to Irreps
         irreps = _get_irreps_from_matrix(representation, matrix, rtol=rtol)
 
-        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:
+        # Equivalent irreps in `representation` are returned only once
+        multiplicities = [
+            np.around(np.real(np.sum(np.conj(get_character(irrep)) * character)) / order)
+            for irrep in irreps
+        ]
+        if np.sum([m * irrep.shape[1] for m, irrep in zip(multiplicities, irreps)]) == dim0:
             return irreps
 
     warn("Failed to search all irreps. Try increasing max_num_random_generations.")
-- 
2.43.0


From 761e7035c1e54efbe74ba287eb4fb91353503c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 12/12] fix: keep independent symmetric tensors that are not
 nearly orthogonal

---
 src/spgrep/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/tensor.py b/src/spgrep/tensor.py
index 845718a..01a0b3f 100644
--- a/src/spgrep/tensor.py
+++ b/src/spgrep/tensor.py
@@ -104,12 +104,13 @@ def apply_intrinsic_symmetry(
         sym_tensor /= np.linalg.norm(sym_tensor)
 
         # Store if independent to other symmetric tensors
+        # Symmetrized tensors are not orthogonal in general, so that the tolerance should be small.
         if (
             len(list_sym_basis) > 0
             and grassmann_distance(
                 sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)
             )
-            < 0.5
+            < 1e-3
         ):
             continue
 
-- 
2.43.0

