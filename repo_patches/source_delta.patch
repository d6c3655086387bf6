From 1bdfd454a08ca327b0268e481debb12aebdd974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 01/24] fix: accept any array-like as transformed cell in
 get_transformation_matrix

---
 src/wulfric/cell/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_basic_manipulation.py b/src/wulfric/cell/_basic_manipulation.py
index c566a59..f169301 100644
--- a/src/wulfric/cell/_basic_manipulation.py
+++ b/src/wulfric/cell/_basic_manipulation.py
@@ -293,4 +293,4 @@ def get_transformation_matrix(original_cell, transformed_cell):
     :ref:`user-guide_conventions_basic-notation_transformation`
     """
 
-    return np.linalg.inv(original_cell).T @ transformed_cell.T
+    return np.linalg.inv(original_cell).T @ np.array(transformed_cell).T
-- 
2.43.0


From 0aaa09d8cdcc068c71845d91d7629de8e6a3a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 02/24] fix: decide signs in Niggli steps 3 and 4 with the
 tolerance of the reduction

Step 3/4 compared the product of three metric elements with the tolerance of a
single one and step 4 ignored the tolerance at all. For nearly orthogonal cells
the two steps could invert the cell (determinant -1) and leave elements of the
wrong sign.
---
 src/wulfric/cell/_niggli.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ab5356a..5c489ab 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -32,6 +32,20 @@ except ImportError:
 __all__ = ["get_niggli"]
 
 
+def _has_positive_product(xi, eta, zeta, eps):
+    # xi * eta * zeta > 0, decided from the signs of the factors with the tolerance eps as
+    # in Grosse-Kunstleve et al. (2004). The product itself can not be compared with eps:
+    # it has different units and may be small even if none of the factors is.
+    n_negative = 0
+    for value in (xi, eta, zeta):
+        if compare_with_tolerance(value, "==", 0, eps=eps):
+            return False
+        if compare_with_tolerance(value, "<", 0, eps=eps):
+            n_negative += 1
+
+    return n_negative in (0, 2)
+
+
 def _niggli_step_1(A, B, C, xi, eta, zeta, trans_matrix, eps):
     condition = compare_with_tolerance(A, ">", B, eps=eps) or (
         compare_with_tolerance(A, "==", B, eps=eps)
@@ -73,7 +87,7 @@ def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, ">", 0, eps=eps)
+    condition = _has_positive_product(xi, eta, zeta, eps=eps)
     if condition:
         if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = 1
@@ -105,28 +119,28 @@ def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, "<=", 0, eps=eps)
+    condition = not _has_positive_product(xi, eta, zeta, eps=eps)
     if condition:
         # Step 1
         i, j, k = 1, 1, 1
         p = None
 
         # Step 2
-        if compare_with_tolerance(xi, ">", 0):
+        if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = -1
-        elif not compare_with_tolerance(xi, "<", 0):
+        elif not compare_with_tolerance(xi, "<", 0, eps=eps):
             p = "i"
 
         # Step 3
-        if compare_with_tolerance(eta, ">", 0):
+        if compare_with_tolerance(eta, ">", 0, eps=eps):
             j = -1
-        elif not compare_with_tolerance(eta, "<", 0):
+        elif not compare_with_tolerance(eta, "<", 0, eps=eps):
             p = "j"
 
         # Step 4
-        if compare_with_tolerance(zeta, ">", 0):
+        if compare_with_tolerance(zeta, ">", 0, eps=eps):
             k = -1
-        elif not compare_with_tolerance(zeta, "<", 0):
+        elif not compare_with_tolerance(zeta, "<", 0, eps=eps):
             p = "k"
 
         # Step 5
-- 
2.43.0


From 2f3500d132a6380f72974d790d256be8824d09c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 03/24] fix: cure_negative with a single atom given as a list

---
 src/wulfric/crystal/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index fec00e4..35fb238 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -128,7 +128,7 @@ def cure_negative(atoms) -> None:
         Cr2 [0.6 0.5 0. ]
     """
 
-    min_values = atoms["positions"][0]
+    min_values = np.array(atoms["positions"][0])
     for position in atoms["positions"][1:]:
         min_values = np.minimum(min_values, position)
 
-- 
2.43.0


From 258646fd63ed70dd0efa8b544df417d33591195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 04/24] fix: get_unique_names could return repeated names

---
 src/wulfric/crystal/_atoms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index 9abdc4c..d7015c1 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -252,7 +252,9 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
     names_are_not_unique = not len(unique_names) == len(set(unique_names))
 
     if names_are_not_unique and strategy == "all":
-        unique_names = [f"{name}{i + 1}" for i, name in enumerate(atoms["names"])]
+        # Indexed names can still coincide ("A1" + "1" and "A" + "11")
+        while len(unique_names) != len(set(unique_names)):
+            unique_names = [f"{name}{i + 1}" for i, name in enumerate(unique_names)]
 
     if names_are_not_unique and strategy == "repeated-only":
         counter = {}
@@ -262,11 +264,16 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
             else:
                 counter[name][1] += 1
 
+        taken = set(unique_names)
         for i in range(len(unique_names)):
             name = unique_names[i]
             total = counter[name][1]
             if total > 1:
+                # Skip indices that lead to the name of some other atom
+                while f"{name}{counter[name][0]}" in taken:
+                    counter[name][0] += 1
                 unique_names[i] += str(counter[name][0])
+                taken.add(unique_names[i])
                 counter[name][0] += 1
 
     return unique_names
-- 
2.43.0


From cc21b9fd0ac78c78d0499a834ec7bc066c63409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 05/24] fix: HPKOT conventional-to-primitive matrix of hR (1/3,
 not 1/2)

---
 .../api/constants/hpkot_conventional_to_primitive.rst       | 6 +++---
 src/wulfric/constants/_hpkot_convention.py                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/docs/source/api/constants/hpkot_conventional_to_primitive.rst b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
index 87922f2..dc2ea76 100644
--- a/docs/source/api/constants/hpkot_conventional_to_primitive.rst
+++ b/docs/source/api/constants/hpkot_conventional_to_primitive.rst
@@ -90,9 +90,9 @@ Data are from the Table 3 of [1]_.
         ),
         "hR" : np.array(
             [
-                [1.0, -0.5, -0.5],
-                [0.5, 0.5, -1.0],
-                [0.5, 0.5, 0.5],
+                [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
             ]
         ),
         "mP" : np.array(
diff --git a/src/wulfric/constants/_hpkot_convention.py b/src/wulfric/constants/_hpkot_convention.py
index a4a31c9..6c70513 100644
--- a/src/wulfric/constants/_hpkot_convention.py
+++ b/src/wulfric/constants/_hpkot_convention.py
@@ -111,9 +111,9 @@ HPKOT_CONVENTIONAL_TO_PRIMITIVE = {
     ),
     "hR": np.array(
         [
-            [1.0, -0.5, -0.5],
-            [0.5, 0.5, -1.0],
-            [0.5, 0.5, 0.5],
+            [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+            [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+            [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
         ]
     ),
     "mP": np.array(
-- 
2.43.0


From 0c94eb9511a5a9ae76e133b65104f421ceadd20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 06/24] fix: coordinates of the Z point of the HPKOT aP2
 lattices (0, 0, 1/2)

---
 src/wulfric/kpoints/_hpkot_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/kpoints/_hpkot_points.py b/src/wulfric/kpoints/_hpkot_points.py
index e69e8d6..ee1141d 100644
--- a/src/wulfric/kpoints/_hpkot_points.py
+++ b/src/wulfric/kpoints/_hpkot_points.py
@@ -454,7 +454,7 @@ def _get_points_table_90(a, b, c, beta):
 def _get_points_table_91():
     return {
         "GAMMA": np.array([0.0, 0.0, 0.0]),
-        "Z": np.array([0.0, 0.0, 0.0]),
+        "Z": np.array([0.0, 0.0, 1 / 2]),
         "Y": np.array([0, 1 / 2, 0.0]),
         "X": np.array([1 / 2, 0.0, 0.0]),
         "V": np.array([1 / 2, 1 / 2, 0.0]),
-- 
2.43.0


From 82e1268d9aa00047b6964c6d6f84803776cf9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 07/24] fix: plot label of the F3 point

---
 docs/source/api/constants/hs_plot_names.rst | 4 ++--
 src/wulfric/constants/_kpoints.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/docs/source/api/constants/hs_plot_names.rst b/docs/source/api/constants/hs_plot_names.rst
index 4363984..5f582f6 100644
--- a/docs/source/api/constants/hs_plot_names.rst
+++ b/docs/source/api/constants/hs_plot_names.rst
@@ -61,8 +61,8 @@ Names of high-symmetry k points written in LaTex.
         "F1_P" : "F$_1^{\prime}$",
         "F2" : "F$_2$",
         "F2_P" : "F$_2^{\prime}$",
-        "F3" : "F$_4$",
-        "F3_P" : "F$_4^{\prime}$",
+        "F3" : "F$_3$",
+        "F3_P" : "F$_3^{\prime}$",
         "F4" : "F$_4$",
         "F4_P" : "F$_4^{\prime}$",
         "G" : "G",
diff --git a/src/wulfric/constants/_kpoints.py b/src/wulfric/constants/_kpoints.py
index 33c9410..35495ae 100644
--- a/src/wulfric/constants/_kpoints.py
+++ b/src/wulfric/constants/_kpoints.py
@@ -74,8 +74,8 @@ HS_PLOT_NAMES = {
     "F1_P": "F$_1^{\prime}$",
     "F2": "F$_2$",
     "F2_P": "F$_2^{\prime}$",
-    "F3": "F$_4$",
-    "F3_P": "F$_4^{\prime}$",
+    "F3": "F$_3$",
+    "F3_P": "F$_3^{\prime}$",
     "F4": "F$_4$",
     "F4_P": "F$_4^{\prime}$",
     "G": "G",
-- 
2.43.0


From 7710ee5438711753fbae3282e4f7c81372b41b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 08/24] fix: SC conventional cell of orthorhombic lattices with
 equal lengths of the lattice vectors

---
 src/wulfric/crystal/_conventional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 4dbc7b1..6372185 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -136,7 +136,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     Choose the cell with the lattice parameters that satisfy
 
-    * ``a < b < c``
+    * ``a <= b <= c``
     * ``alpha = beta = gamma = 90``
 
     Parameters
@@ -152,9 +152,9 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b < c:  # No change
+    if a <= b <= c:  # No change
         matrix = np.eye(3, dtype=float)
-    elif a < c < b:  # -> -a1, -a3, -a2
+    elif a <= c <= b:  # -> -a1, -a3, -a2
         matrix = np.array(
             [
                 [-1, 0, 0],
@@ -163,7 +163,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < a < c:  # -> -a2, -a1, -a3
+    elif b <= a <= c:  # -> -a2, -a1, -a3
         matrix = np.array(
             [
                 [0, -1, 0],
@@ -172,7 +172,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < c < a:  # -> a2, a3, a1
+    elif b <= c <= a:  # -> a2, a3, a1
         matrix = np.array(
             [
                 [0, 0, 1],
@@ -181,7 +181,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < a < b:  # -> a3, a1, a2
+    elif c <= a <= b:  # -> a3, a1, a2
         matrix = np.array(
             [
                 [0, 1, 0],
@@ -190,7 +190,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < b < a:  # -> -a3, -a2, -a1
+    elif c <= b <= a:  # -> -a3, -a2, -a1
         matrix = np.array(
             [
                 [0, 0, -1],
@@ -213,7 +213,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     Choose the cell with the lattice parameters that satisfy
 
-    * ``a < b``
+    * ``a <= b``
     * ``alpha = beta = gamma = 90``
 
     Parameters
@@ -229,7 +229,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b:  # No change
+    if a <= b:  # No change
         matrix = np.eye(3, dtype=float)
     # Have to keep a3 in place
     elif b < a:  # -> a2, -a1, a3
-- 
2.43.0


From c4148ca4e9a5bff9d36b176fa342bf5f8bb40ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 09/24] fix: SC conventional cell of rhombohedral lattices
 whose primitive vectors have 180 - alpha, alpha, 180 - alpha angles

---
 src/wulfric/crystal/_conventional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 6372185..b4feecd 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -519,7 +519,7 @@ def _sc_get_conventional_hR(
             ]
         )
     elif cwt(alpha, "==", 180 - beta, eps=angle_tolerance) and cwt(
-        beta, "==", gamma, eps=angle_tolerance
+        alpha, "==", gamma, eps=angle_tolerance
     ):  # -> -a1, a2, -a3
         matrix = np.array(
             [
-- 
2.43.0


From 18c982da3a9647c67c84defda4b71f9ce7c0d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 10/24] fix: data of the primitive atoms come from the last
 atom of each type, as documented and as in get_conventional

---
 src/wulfric/crystal/_primitive.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index add4bfa..2351e3b 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -288,10 +288,9 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
     prim_atoms = dict(positions=prim_positions)
 
     # Get mapping from original atoms to primitive ones through types
-    types_mapping = {}
-    for index, type_index in enumerate(spglib_data.original_types):
-        if type_index not in types_mapping:
-            types_mapping[type_index] = index
+    types_mapping = {
+        type_index: index for index, type_index in enumerate(spglib_data.original_types)
+    }
 
     # Populate primitive_atoms with all keys that have been defined in the original atoms.
     for key in atoms:
-- 
2.43.0


From 642cc64cc18d0e3cb60c30a7591df3a0e64c0ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 11/24] fix: get_primitive recognises equivalent atoms whose
 rounded coordinates fall on both sides of a cell boundary

---
 src/wulfric/crystal/_primitive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 2351e3b..04a45d9 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -77,11 +77,12 @@ def _get_unique(
     # Done twice it fixes some problems of finite precision arithmetics
     non_unique_positions = non_unique_positions % 1
 
-    # Compute pair-wise distances between atoms
-    distances = np.linalg.norm(
-        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :],
-        axis=2,
+    # Compute pair-wise distances between atoms. Relative coordinates are periodic (e.g.
+    # 0.99999999 and 0 are the same coordinate within the tolerance).
+    differences = (
+        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
     )
+    distances = np.linalg.norm(differences - np.round(differences), axis=2)
 
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
-- 
2.43.0


From 456654a969eeaf431e5d1838b0f7156f4b379a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 12/24] fix: Kpoints does not alter the list of names it was
 built from

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index a0ae811..b45b028 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -114,7 +114,7 @@ class Kpoints:
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
-        self.hs_names = names
+        self.hs_names = list(names)
 
         self._n = n
 
-- 
2.43.0


From e19d6152fda9b62f23e859fa7f671351ceb9afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 13/24] fix: Kpoints without points or with a single point
 (coordinates and path are optional)

---
 src/wulfric/_kpoints_class.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index b45b028..206c7c7 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -120,7 +120,8 @@ class Kpoints:
 
         self._path = None
         if path is None:
-            path = "-".join(self.hs_names)
+            # Path has to contain at least two points
+            path = "-".join(self.hs_names) if len(self.hs_names) > 1 else []
         self.path = path
 
     @staticmethod
@@ -571,7 +572,7 @@ class Kpoints:
         """
 
         d = decimals
-        nd = max([len(name) for name in self.hs_names])
+        nd = max([len(name) for name in self.hs_names], default=len("Name"))
         table = [
             (
                 f"{'Name':<{nd}}  "
-- 
2.43.0


From 14ac8978241aebc8c749e662d8f9b75bbee80a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 14/24] fix: negative scale factor in POSCAR is the volume of
 the cell

---
 src/wulfric/io/_vasp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 281d652..02f6011 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -100,7 +100,8 @@ def load_poscar(file_object=None):
     cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
-            scale_factor = abs(scale_factor[0] / get_volume(cell))
+            # Negative scale factor is the volume of the scaled cell
+            scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
         cell[0] *= scale_factor[0]
-- 
2.43.0


From 8c76eae71c689ba879bb4b88b6e9ec236fb6e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 15/24] fix: three scale factors in POSCAR scale x, y and z
 components of the lattice vectors

---
 src/wulfric/io/_vasp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 02f6011..ecf8f6f 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -104,9 +104,8 @@ def load_poscar(file_object=None):
             scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
-        cell[0] *= scale_factor[0]
-        cell[1] *= scale_factor[1]
-        cell[2] *= scale_factor[2]
+        # Scale x, y and z components of all vectors
+        cell *= scale_factor
     else:
         raise ValueError(
             "Scale factor has to be a single positive ot negative number or "
-- 
2.43.0


From b7ff6ae6df8acf98ed108f3114f0814d60f4f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 16/24] fix: dump_poscar raises ValueError and not KeyError if
 it can not deduce species from the name

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index ecf8f6f..1d2a95a 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -235,7 +235,7 @@ def dump_poscar(
             atom_type = get_atom_species(atoms["names"][i])
             if atom_type == "X":
                 raise ValueError(
-                    f"Can not deduce atom's type from the name '{atoms['name'][i]}', while dumping to POSCAR."
+                    f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR."
                 )
         if mode == "Direct":
             atom_position = atoms["positions"][i]
-- 
2.43.0


From a9bd876144e7b8f6ad96a9fb1b319b475c45dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 17/24] fix: dump_poscar replaces carriage returns in the
 comment

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 1d2a95a..485e3de 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -220,7 +220,7 @@ def dump_poscar(
             f"at {cd.hour}:{cd.minute}:{cd.second}"
         )
     else:
-        comment = comment.replace("\n", " ")
+        comment = comment.replace("\n", " ").replace("\r", " ")
 
     # Check mode
     if mode not in ("Direct", "Cartesian"):
-- 
2.43.0


From 3ec58483c25984847ce34a7911c0e1989e4ab2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 18/24] fix: load_poscar looks for the POSCAR file in the given
 directory

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 485e3de..06a25dd 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -81,7 +81,7 @@ def load_poscar(file_object=None):
     elif isinstance(file_object, str):
         try:
             file_object = open(file_object, "r", encoding="utf-8")
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             try:
                 file_object = open(
                     os.path.join(file_object, "POSCAR"), "r", encoding="utf-8"
-- 
2.43.0


From a21f0c3a1dc3dc1f5c6dd41ee6b719d90143363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:47 +0000
Subject: [PATCH 19/24] fix: account for every section of the k-path in the
 range of the plot

PlotlyEngine.plot_kpath() updated the displayed range only once, with the
coordinates of the last section, so the earlier sections could be drawn
outside of the displayed axes. A k-path without sections raised
UnboundLocalError.
---
 src/wulfric/_plotly_engine.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index e7d6b7c..091e286 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -764,17 +764,17 @@ class PlotlyEngine:
             if legend_label is not None:
                 legend_label = None
 
-        # Fix for plotly #7143
-        self._update_range(
-            x_min=xyz[0].min(),
-            x_max=xyz[0].max(),
-            y_min=xyz[1].min(),
-            y_max=xyz[1].max(),
-            z_min=xyz[2].min(),
-            z_max=xyz[2].max(),
-            row=row,
-            col=col,
-        )
+            # Fix for plotly #7143
+            self._update_range(
+                x_min=xyz[0].min(),
+                x_max=xyz[0].max(),
+                y_min=xyz[1].min(),
+                y_max=xyz[1].max(),
+                z_min=xyz[2].min(),
+                z_max=xyz[2].max(),
+                row=row,
+                col=col,
+            )
 
     def plot_kpoints(
         self,
-- 
2.43.0


From 4fa2d24a2a67474f27ee25fb78608cf6b142a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 20/24] fix: keep the drawn objects inside of the displayed
 range of the plot

The limits of the axes were 1.05 times the range of the drawn objects, which
is a margin only if the range is symmetric with respect to zero: objects
between 10 and 12 were displayed with the axis from 10.5 to 12.6. A scene that
is flat along z was displayed with infinite aspect ratio.
---
 src/wulfric/_plotly_engine.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 091e286..f2b7583 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -125,9 +125,26 @@ class PlotlyEngine:
     # Fix for plotly #7143
     def _update_fig_aspect_range(self):
         for row, col in self.x_range:
-            xlim = 1.05 * self.x_range[(row, col)]
-            ylim = 1.05 * self.y_range[(row, col)]
-            zlim = 1.05 * self.z_range[(row, col)]
+            ranges = [
+                self.x_range[(row, col)],
+                self.y_range[(row, col)],
+                self.z_range[(row, col)],
+            ]
+            extents = [r[1] - r[0] for r in ranges]
+            longest = max(extents)
+
+            # Margins on both sides of the drawn objects. A flat scene (with respect to
+            # any of the axes) has to be displayed with the axis of non-zero length.
+            limits = []
+            for r, extent in zip(ranges, extents):
+                if longest == 0:
+                    margin = 1.0
+                elif extent <= 1e-8 * longest:
+                    margin = 0.5 * longest
+                else:
+                    margin = 0.025 * extent
+                limits.append(np.array([r[0] - margin, r[1] + margin]))
+            xlim, ylim, zlim = limits
 
             self.fig.update_scenes(
                 xaxis=dict(range=xlim),
-- 
2.43.0


From dfe5b72e3e7258009e5055d7e51170fd681e1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:30 +0000
Subject: [PATCH 21/24] fix: accept any documented colour of atoms in
 PlotlyEngine.plot_atoms()

A single colour for all atoms was iterated over by its characters and colours
that are not written as #RRGGBB were parsed as hexadecimal numbers: both raised
ValueError, while the documentation allows "str or list of str" with any value
supported by plotly.
---
 src/wulfric/_plotly_engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index f2b7583..f5cc75a 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -18,6 +18,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #
 # ================================ END LICENSE =================================
+import re
 from random import choices
 from string import ascii_lowercase as ASCII_LOWERCASE
 
@@ -50,6 +51,10 @@ _LEGEND_SETTINGS = {
 
 # Source: https://gamedev.stackexchange.com/questions/38536/given-a-rgb-color-x-how-to-find-the-most-contrasting-color-y
 def _get_good_contrast(hex_color):
+    # Only "#RRGGBB" can be analyzed, but plotly supports other formats as well
+    if re.fullmatch("#[0-9a-fA-F]{6}", str(hex_color)) is None:
+        return "#000000"
+
     hex_color = hex_color[1:]
     R, G, B = [int(hex_color[i : i + 2], 16) / 255 for i in (0, 2, 4)]
 
@@ -1046,6 +1051,9 @@ class PlotlyEngine:
 
             colors = [ATOM_COLORS[_] for _ in species]
 
+        if isinstance(colors, str):
+            colors = [colors] * len(points[0])
+
         text_color = [_get_good_contrast(color) for color in colors]
 
         # Prepare hover info
-- 
2.43.0


From bc95e298bdebaf05fe456fcade3de7597c473ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 22/24] fix: hpkot_get_example("oA", with_inversion=True)
 raises ValueError

The missing example was reported as FileNotFoundError, because the check
was done before the two-letter symbol is expanded.
---
 src/wulfric/crystal/_hpkot_examples/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/crystal/_hpkot_examples/__init__.py b/src/wulfric/crystal/_hpkot_examples/__init__.py
index fdad11f..3982adb 100644
--- a/src/wulfric/crystal/_hpkot_examples/__init__.py
+++ b/src/wulfric/crystal/_hpkot_examples/__init__.py
@@ -69,11 +69,6 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
            Computational Materials Science, 128, pp.140-184.
     """
 
-    if extended_bl_symbol in ["oF2", "oI2", "oA1", "oA2"] and with_inversion:
-        raise ValueError(
-            '"oF2", "oI2", "oA1", "oA2" with with_inversion=True currently are not supported.'
-        )
-
     supported_symbols = list(HPKOT_EXTENDED_BL_SYMBOLS)
 
     supported_symbols += list(set([_[:2] for _ in supported_symbols]))
@@ -90,6 +85,11 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
         else:
             extended_bl_symbol += "1"
 
+    if extended_bl_symbol in ["oF2", "oI2", "oA1", "oA2"] and with_inversion:
+        raise ValueError(
+            '"oF2", "oI2", "oA1", "oA2" with with_inversion=True currently are not supported.'
+        )
+
     POSCAR_filename = os.path.join(
         os.path.split(os.path.abspath(__file__))[0], "POSCAR-files", extended_bl_symbol
     )
-- 
2.43.0


From 8aacf5816d333ad73af20452a3796f9ac526f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 23/24] fix: spglib_types of conventional and primitive atoms
 are integers

numpy integers were returned, which validate_atoms() rejects, so the
returned atoms could not be passed to other functions.
---
 src/wulfric/crystal/_conventional.py | 2 +-
 src/wulfric/crystal/_primitive.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index b4feecd..96ed1f9 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -812,6 +812,6 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in conv_atoms:
-        conv_atoms["spglib_types"] = conv_types
+        conv_atoms["spglib_types"] = [int(type_index) for type_index in conv_types]
 
     return conv_cell, conv_atoms
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 04a45d9..3eda68b 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -302,6 +302,6 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in prim_atoms:
-        prim_atoms["spglib_types"] = prim_types
+        prim_atoms["spglib_types"] = [int(type_index) for type_index in prim_types]
 
     return prim_cell, prim_atoms
-- 
2.43.0


From f594ef9f443a884d2d0227693715882f7d02c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 24/24] fix: conventional and primitive cells do not share
 arrays with spglib_data

Editing the returned cell or positions in place changed the data of
spglib, and hence the results of the later calls with it.
---
 src/wulfric/crystal/_conventional.py | 6 +++---
 src/wulfric/crystal/_primitive.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 96ed1f9..decaffc 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -573,7 +573,7 @@ def _sc_get_conventional_no_hR(
     """
     # Run over possible crystal families but hR
     if crystal_family in ["c", "t"] or (crystal_family == "h" and centring_type == "P"):
-        conv_cell = spglib_std_lattice
+        conv_cell = spglib_std_lattice.copy()
     elif crystal_family == "o":
         if centring_type in ["P", "F", "I"]:
             conv_cell = _sc_get_conventional_oPFI(spglib_std_lattice=spglib_std_lattice)
@@ -742,8 +742,8 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
                 @ np.linalg.inv(conv_cell)
             )
         else:
-            conv_cell = spglib_data.conventional_cell
-            conv_positions = spglib_data.conventional_positions
+            conv_cell = spglib_data.conventional_cell.copy()
+            conv_positions = spglib_data.conventional_positions.copy()
 
         conv_types = spglib_data.conventional_types
 
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 3eda68b..92128a1 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -248,8 +248,8 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Straightforward interface to spglib
     if convention == "spglib":
-        prim_cell = spglib_data.primitive_cell
-        prim_positions = spglib_data.primitive_positions
+        prim_cell = spglib_data.primitive_cell.copy()
+        prim_positions = spglib_data.primitive_positions.copy()
         prim_types = spglib_data.primitive_types
     # Some work needed for other conventions
     elif convention in ["hpkot", "sc"]:
-- 
2.43.0

