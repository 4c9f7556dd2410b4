From 914bd4a5f16b15f02e44a646ce532d78ba6327b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 01/75] fix: copy float arrays given to LinearProgram instead
 of aliasing them

---
 pytimize/programs/_linear.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 94e9de5..ab07536 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1663,10 +1663,7 @@ class LinearProgram:
             if not np.issubdtype(source.dtype, np.number):
                 raise ValueError()
 
-            if not np.issubdtype(source.dtype, np.floating):
-                source = source.astype(float)
-
-            return source
+            return source.astype(float)
 
         if isinstance(source, list):
             length = None
-- 
2.43.0


From ef881b270158f006718da2bd7cdb79cc10b30494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 02/75] fix: clear_steps without in_place recursed forever

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ab07536..beba80d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1644,7 +1644,7 @@ class LinearProgram:
 
         """
         if not in_place:
-            return self.copy().clear_steps()
+            return self.copy().clear_steps(True)
 
         self._steps = []
 
-- 
2.43.0


From 6fe81db925dbf00e8e3323d3e21efce4f35c2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 03/75] fix: is_feasible_basic_solution compared the size with
 the vector c

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index beba80d..6659751 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -620,7 +620,7 @@ class LinearProgram:
         """
         x = self.__to_ndarray(x)
 
-        if not self.__is_vector_of_size(x, self._c):
+        if not self.__is_vector_of_size(x, self._c.shape[0]):
             raise ValueError()
 
         return Comparator.is_close_compare(x, ">=", 0) and self.is_basic_solution(
-- 
2.43.0


From d38f3fb737dece400dfd0574c27a1b174cb38919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 04/75] fix: is_canonical_form_for mixed index bases and looked
 at rows of A

---
 pytimize/programs/_linear.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6659751..a384c3b 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -532,14 +532,14 @@ class LinearProgram:
 
         """
         basis = self.__array_like_to_list(basis)
+
+        if not self.is_basis(basis):
+            return False
+
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
 
-        return all(
-            [
-                self.is_basis(basis),
-                np.allclose(self._A[basis], np.eye(len(basis))),
-                np.allclose(self._c[basis], 0),
-            ]
+        return np.allclose(self._A[:, basis], np.eye(len(basis))) and np.allclose(
+            self._c[basis], 0
         )
 
     def optimal_value(self):
-- 
2.43.0


From a747d910043c04ac4f3b00e2fc443319089a01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 05/75] fix: basic solution of an unsorted basis was assigned
 to the wrong variables

---
 pytimize/programs/_linear.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a384c3b..4fdc4bd 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1703,8 +1703,6 @@ class LinearProgram:
         components = np.linalg.inv(self._A[:, basis]) @ self._b
         solution = np.zeros(self._c.shape[0])
 
-        basis.sort()  # TODO copy? To prevent reference
-
         for index, value in zip(basis, components):
             solution[index] = value
 
-- 
2.43.0


From a93d134d014ca72332bfca1c084a8e98cf37ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 06/75] fix: comparing two linear programs raised on array
 truth value

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 4fdc4bd..b14733a 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -393,9 +393,9 @@ class LinearProgram:
     def __eq__(self, other: "LinearProgram") -> bool:
         # TODO Work in progress
         return (
-            other._A == self._A
-            and other._b == self._b
-            and other._c == self._c
+            np.array_equal(other._A, self._A)
+            and np.array_equal(other._b, self._b)
+            and np.array_equal(other._c, self._c)
             and other._z == self._z
             and other._objective == self._objective
             and other._inequality_indices == self._inequality_indices
-- 
2.43.0


From 482e0237567e20e072c52f4678e7fda313f6f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 07/75] fix: solve started simplex from an infeasible slack
 basis and gave up

---
 pytimize/programs/_linear.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index b14733a..f6ee451 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -926,13 +926,10 @@ class LinearProgram:
 
         if columns >= rows:
             basis_candidate = [i for i in range(rows + 1, columns + 1)]
-            if sef.is_basis(basis_candidate):
-                try:
-                    solution = sef.simplex(basis_candidate, show_steps)[0]
+            if sef.is_basis_feasible(basis_candidate):
+                solution = sef.simplex(basis_candidate, show_steps)[0]
 
-                    if solution is None:
-                        return None
-                except ArithmeticError:
+                if solution is None:
                     return None
 
         if solution is None:
-- 
2.43.0


From 0c5b5972792ec5c4a500eba60590a5a213be9e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 08/75] fix: simplex left rows negated in the program when it
 raised

---
 pytimize/programs/_linear.py | 50 +++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index f6ee451..06144dc 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1077,33 +1077,35 @@ class LinearProgram:
         show_steps and self.__append_to_steps(("5.02", counter))
         show_steps and self.__append_to_steps(("5.01", self))
 
-        while solution is None and basis is not None:
-            solution, basis, updated_lp = self.simplex_iteration(basis, show_steps)
-            counter += 1
+        try:
+            while solution is None and basis is not None:
+                solution, basis, updated_lp = self.simplex_iteration(basis, show_steps)
+                counter += 1
 
-            show_steps and self.__append_to_steps(("5.02", counter))
-            show_steps and self.__append_to_steps(("5.01", updated_lp))
+                show_steps and self.__append_to_steps(("5.02", counter))
+                show_steps and self.__append_to_steps(("5.01", updated_lp))
 
-        if basis is None:
-            certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
-            k = np.argmax(updated_lp.c > 0)
-            certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
-            certificate[1][k] = 1
+            if basis is None:
+                certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
+                k = np.argmax(updated_lp.c > 0)
+                certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
+                certificate[1][k] = 1
 
-            show_steps and self.__append_to_steps("5.05")
-        else:
-            converted_basis = self.__to_array_indexing(basis)
-            certificate = (
-                np.linalg.inv(self._A[:, converted_basis].T) @ self._c[converted_basis]
-            )
-            certificate[negative_indices] *= -1
-
-            show_steps and self.__append_to_steps(("5.03", solution))
-            show_steps and self.__append_to_steps(("5.04", basis))
-            show_steps and self.__append_to_steps(("5.06", certificate))
-
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
+                show_steps and self.__append_to_steps("5.05")
+            else:
+                converted_basis = self.__to_array_indexing(basis)
+                certificate = (
+                    np.linalg.inv(self._A[:, converted_basis].T)
+                    @ self._c[converted_basis]
+                )
+                certificate[negative_indices] *= -1
+
+                show_steps and self.__append_to_steps(("5.03", solution))
+                show_steps and self.__append_to_steps(("5.04", basis))
+                show_steps and self.__append_to_steps(("5.06", certificate))
+        finally:
+            self._b[negative_indices] *= -1
+            self._A[negative_indices] *= -1
 
         return solution, basis, certificate
 
-- 
2.43.0


From b5d92f5ed9d58b5d1d3322ce3444e6f099999c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 09/75] fix: unboundedness certificate could follow a rounding
 error instead of the ray

---
 pytimize/programs/_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 06144dc..02a4b13 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1087,7 +1087,7 @@ class LinearProgram:
 
             if basis is None:
                 certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
-                k = np.argmax(updated_lp.c > 0)
+                k = updated_lp._entering_variable
                 certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
                 certificate[1][k] = 1
 
@@ -1175,6 +1175,7 @@ class LinearProgram:
         if Comparator.is_close_compare(Ak, "<=", 0):
             self._feasible_solution = x
             self._feasible_basis = basis
+            self._entering_variable = k
 
             return None, None, self
 
-- 
2.43.0


From 0c8f5c53a1de2419567649ac9904d39beea6b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 10/75] fix: ratio test treated clearly different ratios as
 ties

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 02a4b13..a07c388 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1183,7 +1183,7 @@ class LinearProgram:
             if Comparator.is_positive(Ak[i]):
                 ratio = self._b[i] / Ak[i]
 
-                if Comparator.is_close_compare(ratio, "<", t):
+                if Comparator.is_positive(t - ratio):
                     t = ratio
                     leave = i
 
-- 
2.43.0


From a025f2d9086d38c37dd304490d11a6e73931a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 11/75] fix: two phase simplex failed on feasible programs with
 dependent rows

---
 pytimize/programs/_linear.py | 59 +++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a07c388..c212815 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -649,7 +649,7 @@ class LinearProgram:
         if not self._A.shape[0] == len(basis):
             return False
 
-        if max(basis) >= self._A.shape[1] or min(basis) < 0:
+        if any(i >= self._A.shape[1] or i < 0 for i in basis):
             return False
 
         return not Comparator.is_close_to_zero(np.linalg.det(self._A[:, basis]))
@@ -989,6 +989,13 @@ class LinearProgram:
         solution, basis, certificate = p_aux.simplex(basis)
 
         if Comparator.is_close_to_zero(p_aux.evaluate(solution)):
+            independent_rows = self.__independent_rows()
+
+            if len(independent_rows) < rows:
+                return self.__simplex_without_dependent_rows(
+                    independent_rows, show_steps
+                )
+
             p_basis = basis
 
             if not self.is_basis(p_basis):
@@ -1033,6 +1040,56 @@ class LinearProgram:
 
         return None, None, certificate
 
+    def __independent_rows(self) -> List[int]:
+        """
+        Finds a maximal set of linearly independent rows of the constraints.
+
+        Returns
+        -------
+        result : List[int]
+            The indices of the rows. First item index starts at 0.
+
+        """
+        rows = []
+
+        for i in range(self._A.shape[0]):
+            if np.linalg.matrix_rank(self._A[rows + [i]]) > len(rows):
+                rows.append(i)
+
+        return rows
+
+    def __simplex_without_dependent_rows(self, rows: List[int], show_steps: bool):
+        """
+        Computes two phase simplex using only the given rows of the constraints, which must
+        imply all the other ones. The entries of the optimality certificate corresponding to
+        the other rows are zero.
+
+        Parameters
+        ----------
+        rows : List[int]
+            The indices of the rows to be used. First item index starts at 0.
+
+        show_steps : bool
+            Whether or not the steps should be displayed.
+
+        Returns
+        -------
+        result : Tuple[Optional[np.ndarray], Optional[List[int]], Union[np.ndarray, Tuple[np.ndarray, np.ndarray]]]
+            The solution vector, the basis, and the certificate.
+
+        """
+        p = LinearProgram(self._A[rows], self._b[rows], self._c, self._z)
+        solution, basis, certificate = p.two_phase_simplex(show_steps)
+
+        self._steps.extend(p._steps)
+
+        if basis is not None:
+            expanded = np.zeros(self._b.shape[0])
+            expanded[rows] = certificate
+            certificate = expanded
+
+        return solution, basis, certificate
+
     def simplex(
         self, basis: List[int], show_steps: bool = True
     ) -> Tuple[
-- 
2.43.0


From 50d1fa7623f8c02b0e06ea169d4d74decb6aafbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 12/75] fix: is_feasible rejected feasible points of general
 programs on rounding errors

---
 pytimize/programs/_linear.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index c212815..ea63f54 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1401,10 +1401,10 @@ class LinearProgram:
 
         for i, entry in enumerate(x):  # TODO free vars and negative vars should be set
             if i in self._negative_variables:
-                if not entry <= 0:
+                if not Comparator.is_close_compare(entry, "<=", 0):
                     is_feasible = False
             elif i not in self._free_variables:
-                if not entry >= 0:
+                if not Comparator.is_close_compare(entry, ">=", 0):
                     is_feasible = False
 
         for i, row in enumerate(self._A):
@@ -1413,11 +1413,9 @@ class LinearProgram:
             if i in self._inequality_indices:
                 current = self._inequality_indices[i]
 
-                if current == "<=" and value > self._b[i]:
+                if not Comparator.is_close_compare(value, current, self._b[i]):
                     is_feasible = False
-                elif current == ">=" and value < self._b[i]:
-                    is_feasible = False
-            elif not math.isclose(value, self._b[i]):
+            elif not np.isclose(value, self._b[i]):
                 is_feasible = False
         # TODO Add steps back
         if is_feasible:
-- 
2.43.0


From 86635ff11723e746eb52180057f8b3143f0d8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 13/75] fix: show_steps was not passed on by solve and
 verify_unboundedness

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ea63f54..e0c5b55 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -918,7 +918,7 @@ class LinearProgram:
 
         """
         if self._is_sef:
-            return self.two_phase_simplex()[0]
+            return self.two_phase_simplex(show_steps)[0]
 
         sef = self.to_sef(show_steps)
         rows, columns = sef.A.shape
@@ -986,7 +986,7 @@ class LinearProgram:
         basis = [i for i in range(columns + 1, rows + columns + 1)]
         negative_indices = np.where(self._b < 0)
 
-        solution, basis, certificate = p_aux.simplex(basis)
+        solution, basis, certificate = p_aux.simplex(basis, show_steps)
 
         if Comparator.is_close_to_zero(p_aux.evaluate(solution)):
             independent_rows = self.__independent_rows()
@@ -1313,7 +1313,7 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         x = self.__to_ndarray(x)
 
-        if not self.is_feasible(x):
+        if not self.is_feasible(x, show_steps):
             return False
 
         if Comparator.is_close_compare(self._c @ certificate, "<=", 0):
-- 
2.43.0


From 65feccfbd8992c136150a824959be266835a0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 14/75] fix: add_variable changed the program before failing on
 a column of wrong size

---
 pytimize/programs/_linear.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e0c5b55..e9dc784 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -501,6 +501,12 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        if column is not None:
+            column = self.__to_ndarray(column)
+
+            if not self.__is_vector_of_size(column, self._b.shape[0]):
+                raise ValueError()
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
@@ -508,7 +514,6 @@ class LinearProgram:
             self._negative_variables.append(self._c.shape[0])
             self._is_sef = False
 
-        # TODO validation checks are needed
         self._A = np.c_[
             self._A, column if column is not None else [0] * self._A.shape[0]
         ]
-- 
2.43.0


From fb1cae5528a5fb7d9f0c254a5692144cf892ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 15/75] fix: graph_polyhedron left the window bounds in the
 program when it failed

---
 pytimize/programs/_linear.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e9dc784..6adb592 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1460,11 +1460,7 @@ class LinearProgram:
             copy_b, [graph_limit, -graph_limit, graph_limit, -graph_limit]
         )
 
-        num_inequalities = len(self._inequality_indices)
-        self._inequality_indices[num_inequalities] = "<="
-        self._inequality_indices[num_inequalities + 1] = ">="
-        self._inequality_indices[num_inequalities + 2] = "<="
-        self._inequality_indices[num_inequalities + 3] = ">="
+        inequalities = self.inequalities + ["<=", ">=", "<=", ">="]
 
         A = np.array([[0, 0], [0, 0]])
         b = np.array([0, 0])
@@ -1502,10 +1498,10 @@ class LinearProgram:
             for i in range(len(copy_A)):
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
-                if self._inequality_indices[i] == "<=":
+                if inequalities[i] == "<=":
                     if value > copy_b[i] and not math.isclose(value, copy_b[i]):
                         valid_point = False
-                elif self._inequality_indices[i] == ">=":
+                elif inequalities[i] == ">=":
                     if value < copy_b[i] and not math.isclose(value, copy_b[i]):
                         valid_point = False
 
@@ -1536,12 +1532,6 @@ class LinearProgram:
         # prepare the points for plotting
         xs, ys = zip(*points)
 
-        # remove added boundary inequalities so data isn't mutated
-        del self._inequality_indices[num_inequalities + 3]
-        del self._inequality_indices[num_inequalities + 2]
-        del self._inequality_indices[num_inequalities + 1]
-        del self._inequality_indices[num_inequalities]
-
         # plot and display the feasible region
         plt.figure()
         plt.plot(xs, ys)
-- 
2.43.0


From 4de63bc4eb1a3773894011fbaf6bff1fa8feb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 16/75] fix: graph_polyhedron truncated constraint coefficients
 to integers

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6adb592..0e7fd65 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1462,8 +1462,8 @@ class LinearProgram:
 
         inequalities = self.inequalities + ["<=", ">=", "<=", ">="]
 
-        A = np.array([[0, 0], [0, 0]])
-        b = np.array([0, 0])
+        A = np.zeros((2, 2))
+        b = np.zeros(2)
 
         shape = copy_A.shape
         points = []
-- 
2.43.0


From dc5a1abfa8e50078829031b9051182bcedcab401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 17/75] fix: graph_polyhedron raised on parallel constraints

---
 pytimize/programs/_linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 0e7fd65..4f9032d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1479,11 +1479,9 @@ class LinearProgram:
                     b[0] = copy_b[i]
                     b[1] = copy_b[j]
 
-                    # if both lines are horizontal/vertical, skip point
+                    # if both lines are parallel, skip point
                     # (these lines will never intersect and thus solving will cause an error)
-                    if A[0][0] == 0 and A[1][0] == 0:
-                        continue
-                    elif A[0][1] == 0 and A[1][1] == 0:
+                    if Comparator.is_close_to_zero(np.linalg.det(A)):
                         continue
 
                     point = np.linalg.solve(A, b)
-- 
2.43.0


From 0acc1f811bafd2dfd39f1cd70aefe083393ec6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 18/75] fix: graph_polyhedron dropped corners on rounding
 errors of constraints with value zero

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 4f9032d..9afcf00 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1497,10 +1497,10 @@ class LinearProgram:
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
                 if inequalities[i] == "<=":
-                    if value > copy_b[i] and not math.isclose(value, copy_b[i]):
+                    if value > copy_b[i] and not np.isclose(value, copy_b[i]):
                         valid_point = False
                 elif inequalities[i] == ">=":
-                    if value < copy_b[i] and not math.isclose(value, copy_b[i]):
+                    if value < copy_b[i] and not np.isclose(value, copy_b[i]):
                         valid_point = False
 
             if valid_point:
-- 
2.43.0


From 48db4277105f71dda099e485a0de34b155574de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 19/75] fix: to_rref converted to an abstract dtype and failed

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 9afcf00..122690d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1945,7 +1945,7 @@ class LinearProgram:
         :return: An m x n matrix in RREF that is row equivalent to the given matrix.
 
         """
-        arr = arr.astype(np.floating)
+        arr = arr.astype(float)
         shape = arr.shape
         col = 0
         for row in range(shape[0]):
-- 
2.43.0


From 043d6b4e37538d4b3ca2b94681b8c2625a38b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 20/75] fix: to_rref took rounding errors for pivots

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 122690d..50caca2 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1952,7 +1952,7 @@ class LinearProgram:
             # Get a 1 in the row,col entry
             if not math.isclose(arr[row, col], 1):
                 i = 0
-                while math.isclose(arr[row, col], 0):
+                while Comparator.is_close_to_zero(arr[row, col]):
                     # If number in row,col is 0, find a lower row with a non-zero entry
                     # If all lower rows have a 0 in the column, move on to the next column
                     if math.isclose(i + row, shape[0]):
@@ -1961,7 +1961,7 @@ class LinearProgram:
                         if math.isclose(col, shape[1]):
                             break
                         continue
-                    if not math.isclose(arr[row + i, col], 0):
+                    if not Comparator.is_close_to_zero(arr[row + i, col]):
                         # Found a lower row with non-zero entry, swap rows
                         arr[[row, row + i]] = arr[[row + i, row]]
                         break
-- 
2.43.0


From 104dd5c35d9efb2c1807aa9ff9ada880e8f012f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 21/75] fix: is_in_rref ignored the order of the leading ones
 and rounding errors

---
 pytimize/programs/_linear.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 50caca2..d105ec5 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1901,6 +1901,7 @@ class LinearProgram:
         shape = arr.shape
         row_has_leading_one = False
         has_zero_row = False
+        last_leading_column = -1
 
         # Check that all rows either have a leading one or are zero rows
         # For all leading ones, check that the rest of the column is empty, then ignore rest of row
@@ -1908,7 +1909,7 @@ class LinearProgram:
         for row in range(shape[0]):
             row_has_leading_one = False
             for col in range(shape[1]):
-                if math.isclose(arr[row, col], 0):
+                if Comparator.is_close_to_zero(arr[row, col]):
                     # have not found a non-zero entry yet, search rest of row
                     continue
 
@@ -1919,8 +1920,17 @@ class LinearProgram:
                 elif math.isclose(arr[row, col], 1):
                     # found a leading one, check rest of column for zeros
                     row_has_leading_one = True
+
+                    if col < last_leading_column:
+                        # leading one is to the left of the one in the row above
+                        return False
+
+                    last_leading_column = col
+
                     for r in range(shape[0]):
-                        if not r == row and not math.isclose(arr[r, col], 0):
+                        if not r == row and not Comparator.is_close_to_zero(
+                            arr[r, col]
+                        ):
                             return False
                     break
 
-- 
2.43.0


From 41cb1bebb98235f2240fa4d45ddf7cccac564b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 22/75] fix: branch and bound kept the worse branch of a
 minimization

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index d47d31a..baf2971 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -136,7 +136,7 @@ class IntegerProgram(LinearProgram):
                     if higher_result[1] > lower_result[1]:
                         return higher_result
                     return lower_result
-                elif higher_result[1] > lower_result[1]:
+                elif higher_result[1] < lower_result[1]:
                     return higher_result
                 return lower_result
 
-- 
2.43.0


From c9d7a22cabe26039b61488e16040e24429f84231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 23/75] fix: branch and bound forgot free and negative
 variables after branching

---
 pytimize/programs/_integer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index baf2971..c0243b3 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -107,7 +107,14 @@ class IntegerProgram(LinearProgram):
                 new_b = np.append(copy_b, np.floor(value))
                 new_inequalities.append("<=")
                 lp_lower = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 lower_result = self.__branch(lp_lower)
@@ -116,7 +123,14 @@ class IntegerProgram(LinearProgram):
                 new_b[len(lp.b)] = np.ceil(value)
                 new_inequalities[len(new_inequalities) - 1] = ">="
                 lp_higher = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 higher_result = self.__branch(lp_higher)
-- 
2.43.0


From 2fc69ae082e51c8970016aa790418ee222bdc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 24/75] fix: integral variables were read with array indexing
 instead of math indexing

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c0243b3..e9c1d20 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -88,7 +88,7 @@ class IntegerProgram(LinearProgram):
             # if value is not integer, make sure it is has the integral constraint before branching - not working atm
             if (
                 self._integral_variables is not None
-                and position not in self._integral_variables
+                and position + 1 not in self._integral_variables
             ):
                 position += 1
                 continue
-- 
2.43.0


From 847908fda469d71d536724f5ce3ff4f836c195a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 25/75] fix: copying an integer program dropped its integrality

---
 pytimize/programs/_integer.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index e9c1d20..b71e4bc 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -28,7 +28,9 @@ class IntegerProgram(LinearProgram):
             A, b, c, z, objective, inequalities, free_variables, negative_variables
         )
 
-        self._integral_variables = integral_variables
+        self._integral_variables = (
+            list(integral_variables) if integral_variables is not None else None
+        )
 
     def __repr__(self) -> str:  # TODO add integral constraint
         output = super().__repr__().rstrip("\n")
@@ -215,6 +217,31 @@ class IntegerProgram(LinearProgram):
             self.negative_variables,
         )
 
+    def copy(self) -> "IntegerProgram":
+        """
+        Creates a deep copy of the integer program.
+
+        Returns
+        -------
+        result : IntegerProgram
+            The copy of the program.
+
+        """
+        p = IntegerProgram(
+            self._A,
+            self._b,
+            self._c,
+            self._z,
+            self._objective,
+            self.inequalities,
+            self.free_variables,
+            self.negative_variables,
+            self._integral_variables,
+        )
+        p._steps = self._steps.copy()
+
+        return p
+
     def is_feasible(self, x, show_steps: bool = True) -> bool:
         result = super().is_feasible(x, show_steps)
         return result
-- 
2.43.0


From 7d2850c640e71ea7c5dc1840d3d606e56ed3755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 26/75] fix: is_feasible of an integer program ignored
 integrality

---
 pytimize/programs/_integer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index b71e4bc..c9d7c42 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -243,7 +243,10 @@ class IntegerProgram(LinearProgram):
         return p
 
     def is_feasible(self, x, show_steps: bool = True) -> bool:
-        result = super().is_feasible(x, show_steps)
-        return result
+        return super().is_feasible(x, show_steps) and all(
+            Comparator.is_integer(value)
+            for i, value in enumerate(x, 1)
+            if self._integral_variables is None or i in self._integral_variables
+        )
 
     # TODO override evaluate of base to take consideration of integers
-- 
2.43.0


From b603026a2d3af384e6bdd39595c8803680ae07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 27/75] fix: maximizing an unconstrained program minimized it
 and negated the point

---
 pytimize/programs/_unconstrained.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 3b53e2e..fd1e52f 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -24,7 +24,9 @@ class UnconstrainedProgram:
         """
         if objective == "max":
             self._f = lambda x: -f(x)
-        self._f = f
+        else:
+            self._f = f
+
         self._minimize = objective == "min"
 
     def steepest_descent(
@@ -66,10 +68,11 @@ class UnconstrainedProgram:
 
         """
         for _ in range(int(max_iteration)):
-            d = -df(x)
+            gradient = df(x) if self._minimize else -df(x)
+            d = -gradient
             a = alpha
 
-            while self._f(x + a * d) > self._f(x) + c * a * df(x) @ d:
+            while self._f(x + a * d) > self._f(x) + c * a * gradient @ d:
                 a *= p
 
             x += a * d
@@ -77,7 +80,7 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
 
     def newton_method(
         self,
@@ -116,4 +119,4 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
-- 
2.43.0


From 30a531c086a4fab5464d19af7bcc642765816da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 28/75] fix: descent methods overwrote the starting point and
 failed on integer arrays

---
 pytimize/programs/_unconstrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index fd1e52f..eee2168 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -67,6 +67,8 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
+
         for _ in range(int(max_iteration)):
             gradient = df(x) if self._minimize else -df(x)
             d = -gradient
@@ -111,6 +113,7 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
 
         for _ in range(int(max_iteration)):
             d = np.linalg.solve(d2f(x), -df(x))
-- 
2.43.0


From 1f9b89551b81bf9d44635de702bfbaead88ab6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 29/75] fix: linear parser accepted | as an operator

---
 pytimize/parsers/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index d71e7ed..cd09ec0 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,6 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+|-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+-]\d+(?:\.\d+)?x_\d+)*$")
 
         return validation.match(candidate) is not None
-- 
2.43.0


From 1f25ee4d10f78d6786d8c7fe21bf3d50da4fc420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 30/75] fix: linear parser accepted variables numbered zero

---
 pytimize/parsers/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index cd09ec0..3380722 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,6 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(r"^-?\d+(?:\.\d+)?x_0*[1-9]\d*(?:[+-]\d+(?:\.\d+)?x_0*[1-9]\d*)*$")
 
         return validation.match(candidate) is not None
-- 
2.43.0


From 8ad0047770739a94d6b146c8908d48d7ee86b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 31/75] fix: parsers accepted a trailing newline

---
 pytimize/parsers/_graph.py  | 8 ++++----
 pytimize/parsers/_linear.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytimize/parsers/_graph.py b/pytimize/parsers/_graph.py
index 84a0d49..921fe14 100644
--- a/pytimize/parsers/_graph.py
+++ b/pytimize/parsers/_graph.py
@@ -38,13 +38,13 @@ class GraphParser:
         )
         result = -1
 
-        if validation_one.match(candidate) is not None:
+        if validation_one.fullmatch(candidate) is not None:
             result = 0
-        elif validation_two.match(candidate) is not None:
+        elif validation_two.fullmatch(candidate) is not None:
             result = 1
-        elif validation_three.match(candidate) is not None:
+        elif validation_three.fullmatch(candidate) is not None:
             result = 2
-        elif validation_four.match(candidate) is not None:
+        elif validation_four.fullmatch(candidate) is not None:
             result = 3
 
         return result
diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index 3380722..cff78cc 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -44,4 +44,4 @@ class LinearParser:
     def validate_expression(candidate):
         validation = re.compile(r"^-?\d+(?:\.\d+)?x_0*[1-9]\d*(?:[+-]\d+(?:\.\d+)?x_0*[1-9]\d*)*$")
 
-        return validation.match(candidate) is not None
+        return validation.fullmatch(candidate) is not None
-- 
2.43.0


From fffe70303121da83c0598013f88a0ee068fd0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 32/75] fix: remove_edge left the edge in the edge table

---
 pytimize/graphs/_undirected.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5ceebbe..ef1f80d 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -139,6 +139,7 @@ class UndirectedGraph:
         if not self.has_edge(edge):
             raise ValueError("The given edge is not in graph.")
 
+        del self._edges[tuple(sorted(edge))]
         self._graph[edge[0]].remove(edge[1])
         self._graph[edge[1]].remove(edge[0])
 
-- 
2.43.0


From 27db5bd0f028404ea3ec65ad129d1ffea62b7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 33/75] fix: graph copies and views shared the adjacency sets

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index ef1f80d..b92b614 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -734,7 +734,9 @@ class UndirectedGraph:
       vertices that are connected to that vertex.
 
     """
-        return self._graph.copy()
+        return {
+            vertex: connections.copy() for vertex, connections in self._graph.items()
+        }
 
     @property
     def vertices(self) -> Dict[str, float]:
-- 
2.43.0


From e6426f7487b30480835db7ffe5369a8552de2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 34/75] fix: is_cyclic called every graph with an edge cyclic

---
 pytimize/graphs/_undirected.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index b92b614..b44afc1 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -517,17 +517,21 @@ class UndirectedGraph:
         unexplored = set(self._vertices.keys())
 
         while len(unexplored) > 0:
-            queue = deque([next(iter(unexplored))])
+            queue = deque([(next(iter(unexplored)), None)])
             visited = set()
 
             while len(queue) > 0:
-                current = queue.popleft()
+                current, parent = queue.popleft()
 
                 if current in visited:
                     return True
 
                 visited.add(current)
-                queue.extend(self._graph[current])
+                queue.extend(
+                    (vertex, current)
+                    for vertex in self._graph[current]
+                    if not vertex == parent
+                )
 
             unexplored = unexplored.difference(visited)
 
-- 
2.43.0


From 0524033d055f35816c93f4b1c8aaa180da944344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 35/75] fix: partition failed on every nonempty graph

---
 pytimize/graphs/_undirected.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index b44afc1..bf5800e 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -581,15 +581,14 @@ class UndirectedGraph:
                 if current in visited:
                     continue
 
-                for vertex, connections in self._graph[current].items():
-                    for connection in connections:
-                        edge = tuple(sorted((vertex, connection)))
+                for connection in self._graph[current]:
+                    edge = tuple(sorted((current, connection)))
 
-                        subedges.setdefault(edge, self._edges[edge])
+                    subedges.setdefault(edge, self._edges[edge])
 
                 visited.add(current)
                 queue.extend(self._graph[current])
-                subgraph.setdefault(current, self._graph.copy())
+                subgraph.setdefault(current, self._graph[current].copy())
                 subvertices.setdefault(current, self._vertices[current])
 
             g = UndirectedGraph()
-- 
2.43.0


From 9f98e79579ea550f0c06175553e6b7b86cf28652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 36/75] fix: random traversal yielded nothing

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index bf5800e..686fd6e 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -473,7 +473,9 @@ class UndirectedGraph:
 
             random.shuffle(vertices)
 
-            return iter(vertices)
+            yield from vertices
+
+            return
 
         visited = set()
         queue = deque([start])
-- 
2.43.0


From 3456e595db509475cce38d960bcc83ce684324b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 37/75] fix: depth first traversal was breadth first

---
 pytimize/graphs/_undirected.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 686fd6e..b750fc7 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -464,7 +464,6 @@ class UndirectedGraph:
       The iterator giving the current vertex of the walk.
 
     """
-        # TODO Add dfs
         if not self.has_vertex(start):
             raise ValueError("The starting vertex is not in graph.")
 
@@ -481,13 +480,19 @@ class UndirectedGraph:
         queue = deque([start])
 
         while len(queue) > 0:
-            current = queue.popleft()
+            current = queue.pop() if method == "dfs" else queue.popleft()
 
             if current in visited:
                 continue
 
             visited.add(current)
-            queue.extend(sorted(self._graph[current], key=order))
+
+            connections = sorted(self._graph[current], key=order)
+
+            if method == "dfs":
+                connections.reverse()
+
+            queue.extend(connections)
 
             yield current
 
-- 
2.43.0


From db0a86233f3c6a08794663bafc98772773faf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 38/75] fix: cut of a single vertex split its name into
 characters

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index b750fc7..439f5ad 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -385,7 +385,9 @@ class UndirectedGraph:
       The set of edges that satisfies the above condition.
 
     """
-        if not isinstance(vertices, set):
+        if isinstance(vertices, str):
+            vertices = {vertices}
+        elif not isinstance(vertices, set):
             vertices = set(vertices)
 
         return set(
-- 
2.43.0


From f928ebb422eec4fe8c1bac1de7632d273729f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 39/75] fix: shortest_path read single characters of names as
 vertices and weights

---
 pytimize/graphs/_undirected.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 439f5ad..ed72118 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -263,7 +263,7 @@ class UndirectedGraph:
 
         potential = {}
         visited = {start}
-        directed_graph = {}
+        previous_vertex = {}
 
         while end not in visited:
             best_slack = math.inf
@@ -271,38 +271,34 @@ class UndirectedGraph:
             edges = set()
 
             for vertex in visited:
-                for edge in self._graph[vertex]:
-                    if edge[0] not in visited:
-                        edge_hash = self._hash_edge((edge[0], vertex))
-                        slack = edge[1] - (
-                            potential[edge_hash] if edge_hash in potential else 0
-                        )
+                for connection in self._graph[vertex]:
+                    if connection not in visited:
+                        edge = tuple(sorted((vertex, connection)))
+                        slack = self._edges[edge] - potential.get(edge, 0)
 
-                        # print(edge_hash, slack)
-
-                        edges.add(edge_hash)
+                        edges.add(edge)
 
                         if slack < best_slack:
                             best_slack = slack
-                            best_edge = vertex, edge[0], edge_hash
+                            best_edge = vertex, connection
 
-                        # print(visited, best_slack)
+            if best_edge is None:
+                raise ValueError("There is no path between the vertices.")
 
-            for edge_hash in edges:
-                previous = potential.setdefault(edge_hash, 0)
-                potential[edge_hash] = previous + best_slack
+            for edge in edges:
+                potential[edge] = potential.get(edge, 0) + best_slack
 
             visited.add(best_edge[1])
-            directed_graph.setdefault(best_edge[1], []).append(best_edge[0])
+            previous_vertex[best_edge[1]] = best_edge[0]
 
         current = end
         path = []
 
         while not current == start:
-            previous = current
-            current = directed_graph[current][0]
+            following = current
+            current = previous_vertex[current]
 
-            path.insert(0, (current, previous))
+            path.insert(0, (current, following))
 
         return path
 
-- 
2.43.0


From 1787b951ab5bf82f9e0b35c3988071406f8b5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 40/75] fix: formulate_shortest_path used the former graph
 representation and failed

---
 pytimize/graphs/_undirected.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index ed72118..f91ce76 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -311,7 +311,7 @@ class UndirectedGraph:
         if end not in self._graph:
             raise ValueError("Ending vertex is not in graph.")
 
-        vertices = self.vertices
+        vertices = list(self._vertices)
 
         vertices.remove(start)
         vertices.remove(end)
@@ -328,27 +328,21 @@ class UndirectedGraph:
             current_set.add(start)
             power_set.append(current_set)
 
-        graph_edges = self.edges
-        A = {
-            self._hash_edge((edge[0], edge[1])): np.zeros(len(power_set))
-            for edge in graph_edges
-        }
+        A = {edge: np.zeros(len(power_set)) for edge in self._edges}
 
         for i, group in enumerate(power_set):
             edges = set()
 
             for vertex in group:
                 edges = edges.union(
-                    map(lambda x: self._hash_edge((vertex, x[0])), self._graph[vertex])
+                    map(lambda x: tuple(sorted((vertex, x))), self._graph[vertex])
                 )
 
             for edge in filter(lambda x: x[0] not in group or x[1] not in group, edges):
                 A[edge][i] = 1
 
         ordered_A = []
-        ordered_edges = (
-            []
-        )  # ordered edges must point back to actual edges not hash TODO
+        ordered_edges = []
 
         for edge, coefficients in A.items():
             ordered_A.append(coefficients)
@@ -359,8 +353,8 @@ class UndirectedGraph:
         result_c = np.zeros(len(ordered_edges))
         constraints = result_A.shape[0]
 
-        for edge in graph_edges:
-            result_c[edge_positions[self._hash_edge((edge[0], edge[1]))]] = edge[2]
+        for edge, weight in self._edges.items():
+            result_c[edge_positions[edge]] = weight
 
         return LinearProgram(
             result_A, np.ones(constraints), result_c, 0, "min", [">="] * constraints
-- 
2.43.0


From 7e25a8ed92258300ebcb5a896dbbe1d56569a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 41/75] fix: formulate_max_stable_set failed on graphs without
 edges

---
 pytimize/graphs/_undirected.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index f91ce76..8590117 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -395,7 +395,7 @@ class UndirectedGraph:
         mapping = {vertex: i for i, vertex in enumerate(self._vertices)}
         rows = len(self._edges)
         columns = len(mapping)
-        A = np.empty(columns)
+        A = np.empty((0, columns))
 
         for a, b in self._edges:
             row = np.zeros(columns)
@@ -403,7 +403,6 @@ class UndirectedGraph:
             row[mapping[b]] = 1
             A = np.vstack((A, row))
 
-        A = A[1:]
         b = np.ones(rows)
         c = np.zeros(columns)
         inequalities = ["<="] * (rows + columns)  # Includes x <= 1 columns
-- 
2.43.0


From 5599d30ddcf914886a34e54d5f0e223cd6835d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 42/75] fix: cuts of a single node split its name into
 characters

---
 pytimize/graphs/_directed.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b0b7b67..94665fa 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -195,7 +195,9 @@ class DirectedGraph:
             The list of arcs that satisfies the above condition.
 
         """
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return set(
@@ -220,7 +222,9 @@ class DirectedGraph:
 
         """
 
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return list(
-- 
2.43.0


From cd354ab2257d3df0d6b487e9d9cac954c4d2045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 43/75] fix: add_arc failed on a single demand and left half an
 arc behind when refusing one

---
 pytimize/graphs/_directed.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 94665fa..241dd37 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -97,24 +97,28 @@ class DirectedGraph:
         if arc[0] == arc[1]:
             raise ValueError("Cannot create an arc with the same endpoints.")
 
-        self._graph.setdefault(arc[0], set()).add(arc[1])
-        self._arcs.setdefault(arc, weight)
-
         a_exists = self.has_node(arc[0])
         b_exists = self.has_node(arc[1])
 
-        if not a_exists and not b_exists:
-            if demands and not isinstance(demands, tuple):
+        if isinstance(demands, tuple):
+            if not len(demands) == 2:
+                raise TypeError("Demands must have one entry for each endpoint.")
+        else:
+            if demands and not a_exists and not b_exists:
                 raise TypeError(
                     "Demands must be a tuple of floats when both endpoints are new nodes."
                 )
 
-            self.add_node(arc[0], demands[0] if demands else 0)
-            self.add_node(arc[1], demands[1] if demands else 0)
-        elif not a_exists:
-            self.add_node(arc[0], demands[0] if demands else 0)
-        elif not b_exists:
-            self.add_node(arc[1], demands[1] if demands else 0)
+            demands = demands or 0, demands or 0
+
+        self._graph.setdefault(arc[0], set()).add(arc[1])
+        self._arcs.setdefault(arc, weight)
+
+        if not a_exists:
+            self.add_node(arc[0], demands[0])
+
+        if not b_exists:
+            self.add_node(arc[1], demands[1])
 
     def add_node(self, node, demand=0):
         """
-- 
2.43.0


From dd4c876d7d8ab6d6d20e03b701fd0786ff79961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 44/75] fix: residual of antiparallel arcs kept only one of
 them

---
 pytimize/graphs/_directed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 241dd37..e72af91 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -353,10 +353,12 @@ class DirectedGraph:
                 raise ArithmeticError("Given flow is infeasible.")
 
             if capacity > value:
-                residual.setdefault(u, {})[v] = capacity - value
+                residual.setdefault(u, {}).setdefault(v, 0)
+                residual[u][v] += capacity - value
 
             if value > 0:
-                residual.setdefault(v, {})[u] = value
+                residual.setdefault(v, {}).setdefault(u, 0)
+                residual[v][u] += value
 
         return residual
 
-- 
2.43.0


From 1ed9513f38852a8664773505df3e5cf045b017e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 45/75] fix: max flow algorithms kept wrong residuals for
 cancelled flow and antiparallel arcs

---
 pytimize/graphs/_directed.py | 97 ++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 49 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index e72af91..d4f397d 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -362,6 +362,52 @@ class DirectedGraph:
 
         return residual
 
+    def _push_flow(
+        self,
+        flow: Dict[Tuple[str, str], float],
+        residual: Dict[str, Dict[str, float]],
+        arc: Tuple[str, str],
+        value: float,
+    ) -> None:
+        """
+        Sends flow along an arc of the residual, updating both the flow and the residual. Flow
+        on the opposite arc is cancelled before more is sent on the arc itself.
+
+        Parameters
+        ----------
+        flow : Dict[Tuple[str, str], float]
+            The flow to be updated.
+
+        residual : Dict[str, Dict[str, float]]
+            The residual of the flow to be updated.
+
+        arc : Tuple[str, str]
+            The arc of the residual.
+
+        value : float
+            The amount of flow to be sent. Must be at most the residual of the arc.
+
+        """
+        u, v = arc
+        cancelled = 0
+
+        if (v, u) in flow:
+            cancelled = min(value, flow[(v, u)]) if arc in flow else value
+            flow[(v, u)] -= cancelled
+
+        if arc in flow:
+            flow[arc] += value - cancelled
+
+        residual[u][v] -= value
+        residual.setdefault(v, {}).setdefault(u, 0)
+        residual[v][u] += value
+
+        if residual[u][v] == 0:
+            del residual[u][v]
+
+        if len(residual[u]) == 0:
+            del residual[u]
+
     def preflow_push(
         self, source: str, sink: str
     ) -> Tuple[float, Dict[Tuple[str, str], float]]:
@@ -417,35 +463,9 @@ class DirectedGraph:
                 for endpoint, value in residual[node].items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
-                        is_reversed = False
-                        arc = (node, endpoint)
                         push_value = min(excess[node], value)
-                        u, v = node, endpoint
-
-                        if arc not in flow:
-                            is_reversed = True
-                            arc = (endpoint, node)
-                            flow[arc] -= push_value
-                        else:
-                            flow[arc] += push_value
-
-                        if is_reversed:
-                            u, v = v, u
-
-                        residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                        residual.setdefault(v, {})[u] = flow[arc]
-
-                        if residual[u][v] == 0:
-                            del residual[u][v]
-
-                        if residual[v][u] == 0:
-                            del residual[v][u]
-
-                        if len(residual[u]) == 0:
-                            del residual[u]
 
-                        if len(residual[v]) == 0:
-                            del residual[v]
+                        self._push_flow(flow, residual, (node, endpoint), push_value)
 
                         if not node == source and not node == sink:
                             excess[node] -= push_value
@@ -542,28 +562,7 @@ class DirectedGraph:
             v = sink
 
             while u is not None:
-                arc = (u, v)
-
-                if arc not in flow:
-                    arc = (v, u)
-                    flow[arc] -= min_residual
-                else:
-                    flow[arc] += min_residual
-
-                residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                residual.setdefault(v, {})[u] = flow[arc]
-
-                if residual[u][v] == 0:
-                    del residual[u][v]
-
-                if residual[v][u] == 0:
-                    del residual[v][u]
-
-                if len(residual[u]) == 0:
-                    del residual[u]
-
-                if len(residual[v]) == 0:
-                    del residual[v]
+                self._push_flow(flow, residual, (u, v), min_residual)
 
                 v = u
                 u = path.get(u, None)
-- 
2.43.0


From 4df91d1a3bc9207db8a608372466e71957b2cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:20 +0000
Subject: [PATCH 46/75] fix: preflow_push failed when there are only the source
 and the sink

---
 pytimize/graphs/_directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index d4f397d..99224dd 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -487,8 +487,8 @@ class DirectedGraph:
             else:
                 index += 1
 
-            value = sum(flow[arc] for arc in self.cut(source))
-            value -= sum(flow[arc] for arc in self.ncut(source))
+        value = sum(flow[arc] for arc in self.cut(source))
+        value -= sum(flow[arc] for arc in self.ncut(source))
 
         return value, flow
 
-- 
2.43.0


From d2f091aff313867bc3b762a03ec9cc1874e4b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 47/75] fix: preflow_push could not return excess left by
 rounding errors

---
 pytimize/graphs/_directed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 99224dd..aba6321 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -2,6 +2,8 @@ import math
 from collections import deque
 from typing import Dict, Iterable, List, Optional, Set, Tuple, Union
 
+from ..utilities import Comparator
+
 
 class DirectedGraph:
     def __init__(
@@ -457,7 +459,7 @@ class DirectedGraph:
         while index < len(nodes):
             node = nodes[index]
 
-            if excess[node] > 0:
+            if Comparator.is_positive(excess[node]):
                 pushed = False
 
                 for endpoint, value in residual[node].items():
-- 
2.43.0


From f8c0fdd70a203131faf1806231e39e21ab163fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 48/75] fix: operators changed the expressions they were
 applied to and dropped constants

---
 pytimize/formulations/linear/_equation.py | 35 ++++++++++++-----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 50b75f1..19bd581 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -13,29 +13,30 @@ class LinearEquation:
         self._constant = constant
 
     def __neg__(self) -> "LinearEquation":
-        self._terms = {
-            label: -coefficient for label, coefficient in self._terms.items()
-        }
-
-        return self
+        return self * -1
 
     def __pos__(self) -> "LinearEquation":
         return self
 
     def __add__(self, other) -> "LinearEquation":
+        terms = self._terms.copy()
+        constant = self._constant
+
         if isinstance(other, LinearEquation):
             for label, coefficient in other.terms.items():
-                self._terms.setdefault(label, 0)
+                terms.setdefault(label, 0)
 
-                self._terms[label] += coefficient
+                terms[label] += coefficient
+
+            constant += other.constant
         elif isinstance(other, float) or isinstance(other, int):
-            self._constant += other
+            constant += other
         elif hasattr(other, "key"):
-            self._terms.setdefault(other.key, 0)
+            terms.setdefault(other.key, 0)
 
-            self._terms[other.key] += 1
+            terms[other.key] += 1
 
-        return self
+        return LinearEquation(terms, constant)
 
     def __radd__(self, other) -> "LinearEquation":
         return self + other
@@ -54,11 +55,13 @@ class LinearEquation:
 
     def __mul__(self, other: float) -> "LinearEquation":
         if isinstance(other, float) or isinstance(other, int):
-            self._terms = {
-                label: coefficient * other for label, coefficient in self._terms.items()
-            }
-
-            return self
+            return LinearEquation(
+                {
+                    label: coefficient * other
+                    for label, coefficient in self._terms.items()
+                },
+                self._constant * other,
+            )
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
-- 
2.43.0


From 7a2b28c12e236461284eabf07dee841309ca5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 49/75] fix: comparing with a variable on the right side failed

---
 pytimize/formulations/linear/_equation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 19bd581..28f07c7 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -84,6 +84,7 @@ class LinearEquation:
         if isinstance(other, float) or isinstance(other, int):
             other = LinearEquation({}, other)
 
+        other = getattr(other, "equation", other)
         constant = other.constant - self._constant
         coefficients = self._broadcast_subtract(self.coefficients, other.coefficients)
 
-- 
2.43.0


From 7a593dfc570684da0e46a8f2644685370809d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 50/75] fix: comparing a constant with an expression lost the
 sign of the expression

---
 pytimize/formulations/linear/_equation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 28f07c7..5e17a1c 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -96,14 +96,14 @@ class LinearEquation:
     def _broadcast_subtract(
         self, array_one: Optional[np.ndarray], array_two: Optional[np.ndarray]
     ) -> Optional[np.ndarray]:
-        if array_one is None:
-            return array_two
-
         if array_two is None:
             return array_one
 
         array_two = -array_two
 
+        if array_one is None:
+            return array_two
+
         if array_one.shape[0] == array_two.shape[0]:
             return array_one + array_two
 
-- 
2.43.0


From 9dcc137ae1939387107ae50e234dfefcd89a4fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 51/75] fix: a single variable could not be the objective

---
 pytimize/formulations/linear/_objective.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1102556..0e93e57 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -10,6 +10,7 @@ from ._utilities import pad_right
 
 class ObjectiveFunction:
     def __init__(self, equation: LinearEquation, objective: str):
+        equation = getattr(equation, "equation", equation)
         self._c = equation.coefficients
         self._z = equation.constant
         self._objective = objective
-- 
2.43.0


From 05adcd20db00af7f455063b1587710fff4f0480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 52/75] fix: an objective using more variables than the
 constraints failed

---
 pytimize/formulations/linear/_objective.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 0e93e57..9bcb3b0 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -25,6 +25,10 @@ class ObjectiveFunction:
 
         inequalities = []
         length = max(constraint.coefficients.shape[0] for constraint in constraints)
+
+        if self._c is not None:
+            length = max(length, self._c.shape[0])
+
         A = np.empty(length)
         b = np.empty(1)
 
-- 
2.43.0


From d1fe86dba33354351746c78ad7d2900bcd4704d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 53/75] fix: a refused sign condition stayed in the formulated
 program

---
 pytimize/formulations/linear/_abstract.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 8af7a6b..fa9271f 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -34,25 +34,30 @@ class AbstractLinearProgram:
         return getattr(self.program, key)
 
     def where(self, *constraints: VariableConstraint) -> "AbstractLinearProgram":
+        positive_variables = self._positive_variables.copy()
+        negative_variables = self._negative_variables.copy()
+
         for constraint in constraints:
             self._add_variable_constraint(
-                constraint.positive_variables, self._positive_variables
+                constraint.positive_variables, positive_variables
             )
             self._add_variable_constraint(
-                constraint.negative_variables, self._negative_variables
+                constraint.negative_variables, negative_variables
             )
 
-        positive_set = set(self._positive_variables)
-        negative_set = set(self._negative_variables)
+        positive_set = set(positive_variables)
+        negative_set = set(negative_variables)
 
-        if not len(positive_set) == len(self._positive_variables) or not len(
+        if not len(positive_set) == len(positive_variables) or not len(
             negative_set
-        ) == len(self._negative_variables):
+        ) == len(negative_variables):
             raise ValueError("Duplicated variable constraints detected.")
 
         if len(positive_set.intersection(negative_set)) > 0:
             raise ValueError("Variable cannot be both positive and negative.")
 
+        self._positive_variables = positive_variables
+        self._negative_variables = negative_variables
         self._recompile = True
 
         return self
-- 
2.43.0


From 2e260bfdf4bbb5e3b95c6aa6ef447055c2901558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 54/75] fix: keep the program intact when an in-place simplex
 iteration fails

---
 pytimize/programs/_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index d105ec5..ea343ab 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1207,6 +1207,7 @@ class LinearProgram:
             raise ValueError("The given basis is invalid.")
 
         basis = self.__to_array_indexing(basis)
+        original = self._A.copy(), self._b.copy(), self._c, self._z
         negative_indices = np.where(self._b < 0)
         self._b[negative_indices] *= -1
         self._A[negative_indices] *= -1
@@ -1220,6 +1221,8 @@ class LinearProgram:
 
         if Comparator.is_close_compare(self._c[N], "<=", 0):
             if any(Comparator.is_negative(i) for i in x):
+                self._A, self._b, self._c, self._z = original
+
                 raise ArithmeticError("The given linear program is infeasible.")
 
             return x, self.__to_math_indexing(basis), self
-- 
2.43.0


From 8783f8efde23f7a5e9c906e10482286fe4c8b3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 55/75] fix: the verdict on a basic solution named the basis
 with array indices

---
 pytimize/programs/_linear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index ea343ab..b8d886b 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -601,6 +601,8 @@ class LinearProgram:
 
             result = False
 
+        basis = self.__to_math_indexing(basis)
+
         show_steps and not result and self.__append_to_steps(("4.05", x, basis))
         show_steps and result and self.__append_to_steps(
             ["4.06", "4.07", ("4.04", x, basis)]
-- 
2.43.0


From 3d78ebdb4977af2f3e7acea1353886d14c33c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 56/75] fix: a program without rows could not be printed

---
 pytimize/programs/_linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index b8d886b..236e2fa 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -369,7 +369,8 @@ class LinearProgram:
                 output += " " * spaces
 
             output += "]\n"
-            positive = self.positive_variables
+
+        positive = self.positive_variables
 
         if len(self._negative_variables) == shape[1]:
             output += "x ≤ 0\n"
-- 
2.43.0


From 9220b2ef11fbd7fdfa53b69c36163fe4d282f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 57/75] fix: the explanation of feasibility called nonpositive
 entries nonnegative

---
 pytimize/parsers/_description.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_description.py b/pytimize/parsers/_description.py
index 5737821..163864a 100644
--- a/pytimize/parsers/_description.py
+++ b/pytimize/parsers/_description.py
@@ -20,7 +20,7 @@ _steps = {
     "2.12": "* {} • {} = {} and {} is Not ≥ {}",
     "2.13": "* {} • {} = {} and {} is Not ≠ {}",
     "2.14": "* Constraints are Satisfied",
-    "2.15": "* All Entries are Either Nonnegative or is a Free Variable",
+    "2.15": "* All Entries Satisfy Their Sign Restrictions",
     "3.01": "Convert to SEF",
     "3.02": "Take Negative of Coefficient Vector to Set Objective to Maximization",
     "3.03": "{} => {}",
-- 
2.43.0


From e69ea270624b7747cfa67a6621fd36855d4b5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 58/75] fix: displayed matrices ended in an unmatched bracket

---
 pytimize/parsers/_description.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_description.py b/pytimize/parsers/_description.py
index 163864a..39ff8b2 100644
--- a/pytimize/parsers/_description.py
+++ b/pytimize/parsers/_description.py
@@ -40,7 +40,7 @@ _steps = {
     "5.06": "Optimality Certificate: {}",
 }
 
-_cleanup_rules = [("[ ", "["), (" ]", "]"), ("[[", "["), ("]] ", "]"), (" [", "[")]
+_cleanup_rules = [("[ ", "["), (" ]", "]"), ("[[", "["), ("]]", "]"), (" [", "[")]
 
 # TODO minor format bug
 def render_descriptor(key, arguments):
-- 
2.43.0


From dc2c85eac6639dcdf6d26a43f2ea306846f11cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 59/75] fix: integer programs were printed without a separate
 line for integrality

---
 pytimize/programs/_integer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c9d7c42..a7233b0 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -4,6 +4,7 @@ from typing import List, Optional, Tuple, Union
 
 import numpy as np
 
+from ..parsers._symbol import SymbolParser
 from ..utilities import Comparator
 from ._linear import LinearProgram
 
@@ -32,11 +33,18 @@ class IntegerProgram(LinearProgram):
             list(integral_variables) if integral_variables is not None else None
         )
 
-    def __repr__(self) -> str:  # TODO add integral constraint
-        output = super().__repr__().rstrip("\n")
+    def __repr__(self) -> str:
+        output = super().__repr__()
 
         if self._integral_variables is None:
-            output += "x ∈ Z"
+            output += "x ∈ Z\n"
+        elif len(self._integral_variables) > 0:
+            output += (
+                SymbolParser.subscript(
+                    ", ".join(f"x{i}" for i in self._integral_variables)
+                )
+                + " ∈ Z\n"
+            )
 
         return output
 
-- 
2.43.0


From ceb5e70d99bd618283c52a213311dc9e353e4152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 60/75] fix: integer programs with different integral variables
 compared equal

---
 pytimize/programs/_integer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index a7233b0..c91918e 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -48,6 +48,19 @@ class IntegerProgram(LinearProgram):
 
         return output
 
+    def __eq__(self, other: "LinearProgram") -> bool:
+        return (
+            isinstance(other, IntegerProgram)
+            and super().__eq__(other)
+            and self.__integral_indices() == other.__integral_indices()
+        )
+
+    def __integral_indices(self) -> set:
+        if self._integral_variables is None:
+            return set(range(1, self._c.shape[0] + 1))
+
+        return set(self._integral_variables)
+
     def branch_and_bound(self) -> Optional[np.ndarray]:
         """
         Applies the branch and bound solution method.
-- 
2.43.0


From 77d460e71db576bbe8680d0438fa66677b3e2be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 61/75] fix: integer formulations gave linear programs without
 integrality

---
 pytimize/formulations/integer/_abstract.py  | 3 ++-
 pytimize/formulations/integer/_objective.py | 3 ++-
 pytimize/formulations/linear/_abstract.py   | 4 +++-
 pytimize/formulations/linear/_objective.py  | 4 +++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytimize/formulations/integer/_abstract.py b/pytimize/formulations/integer/_abstract.py
index 90dc3e4..9861814 100644
--- a/pytimize/formulations/integer/_abstract.py
+++ b/pytimize/formulations/integer/_abstract.py
@@ -1,5 +1,6 @@
+from ...programs import IntegerProgram
 from ..linear._abstract import AbstractLinearProgram
 
 
 class AbstractIntegerProgram(AbstractLinearProgram):
-    pass
+    _program_class = IntegerProgram
diff --git a/pytimize/formulations/integer/_objective.py b/pytimize/formulations/integer/_objective.py
index 384e34c..d3b365c 100644
--- a/pytimize/formulations/integer/_objective.py
+++ b/pytimize/formulations/integer/_objective.py
@@ -2,10 +2,11 @@ from typing import Union
 
 from ..linear._equation import LinearEquation
 from ..linear._objective import ObjectiveFunction as LinearObjective
+from ._abstract import AbstractIntegerProgram
 
 
 class ObjectiveFunction(LinearObjective):
-    pass
+    _formulation_class = AbstractIntegerProgram
 
 
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index fa9271f..2e51e56 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -7,6 +7,8 @@ from ._constraint import VariableConstraint
 
 
 class AbstractLinearProgram:
+    _program_class = LinearProgram
+
     def __init__(
         self,
         A: np.ndarray,
@@ -99,7 +101,7 @@ class AbstractLinearProgram:
                 filter(lambda x: x not in union, range(1, self._c.shape[0] + 1))
             )
 
-            self._program = LinearProgram(
+            self._program = self._program_class(
                 self._A,
                 self._b,
                 self._c,
diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 9bcb3b0..44fc1b9 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -9,6 +9,8 @@ from ._utilities import pad_right
 
 
 class ObjectiveFunction:
+    _formulation_class = AbstractLinearProgram
+
     def __init__(self, equation: LinearEquation, objective: str):
         equation = getattr(equation, "equation", equation)
         self._c = equation.coefficients
@@ -41,7 +43,7 @@ class ObjectiveFunction:
         A = A[1:]
         b = b[1:]
 
-        return AbstractLinearProgram(
+        return self._formulation_class(
             A, b, pad_right(self._c, length), self._z, self._objective, inequalities
         )
 
-- 
2.43.0


From e2954eeb26a5009539ec3e516df677e4b7983f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 62/75] fix: integer programs accepted integral variables that
 do not exist

---
 pytimize/programs/_integer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c91918e..f9a757d 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -29,6 +29,15 @@ class IntegerProgram(LinearProgram):
             A, b, c, z, objective, inequalities, free_variables, negative_variables
         )
 
+        if integral_variables is not None:
+            if not len(set(integral_variables)) == len(integral_variables):
+                raise ValueError(
+                    "Duplicate indices are not allowed in integral variables."
+                )
+
+            if not set(integral_variables) <= set(range(1, self._c.shape[0] + 1)):
+                raise ValueError("Some integral variable indices are invalid.")
+
         self._integral_variables = (
             list(integral_variables) if integral_variables is not None else None
         )
-- 
2.43.0


From be2c7a527e3f53ec604cb498e167ebffc7a72bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 63/75] fix: keep the integrality of an integer program
 converted to standard equality form

---
 pytimize/programs/_integer.py | 46 +++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index f9a757d..4203ab1 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -272,6 +272,52 @@ class IntegerProgram(LinearProgram):
 
         return p
 
+    def to_sef(
+        self, show_steps: bool = True, in_place: bool = False
+    ) -> "IntegerProgram":
+        """
+        Converts the integer program to standard equality form. Both parts of a free
+        integral variable are integral and slack variables are not.
+
+        Parameters
+        ----------
+        show_steps : bool (default=True)
+            Whether or not the steps should be displayed.
+
+        in_place : bool (default=False)
+            Whether or not the operation should be performed in place.
+
+        Returns
+        -------
+        result : IntegerProgram
+            The program in standard equality form.
+
+        """
+        if not in_place or self._is_sef:
+            return super().to_sef(show_steps, in_place)
+
+        integral_variables = []
+        position = 1
+
+        for i in range(1, self._c.shape[0] + 1):
+            width = 2 if i in self.free_variables else 1
+
+            if i in self.__integral_indices():
+                integral_variables.extend(range(position, position + width))
+
+            position += width
+
+        super().to_sef(show_steps, True)
+
+        # None means that all variables are integral
+        if (
+            self._integral_variables is not None
+            or len(integral_variables) < self._c.shape[0]
+        ):
+            self._integral_variables = integral_variables
+
+        return self
+
     def is_feasible(self, x, show_steps: bool = True) -> bool:
         return super().is_feasible(x, show_steps) and all(
             Comparator.is_integer(value)
-- 
2.43.0


From f4f0626a87adb2d9b1ffe9b3f008af92fa85da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 64/75] fix: is_basis judged linear independence by the
 absolute size of the determinant

---
 pytimize/programs/_linear.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 236e2fa..800cb7f 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -660,7 +660,18 @@ class LinearProgram:
         if any(i >= self._A.shape[1] or i < 0 for i in basis):
             return False
 
-        return not Comparator.is_close_to_zero(np.linalg.det(self._A[:, basis]))
+        columns = self._A[:, basis]
+
+        # Linear independence does not depend on the magnitude of the rows or of the columns
+        for axis in (1, 0):
+            magnitudes = abs(columns).max(axis=axis, keepdims=True, initial=0)
+
+            if not magnitudes.all():
+                return False
+
+            columns = columns / magnitudes
+
+        return bool(np.linalg.cond(columns) < 1.0e10) if basis else True
 
     # TODO experimental
     def cs_conditions(self) -> str:
-- 
2.43.0


From 6ef6747f5c9a329b6f9d022a0da29a7135dbc7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 65/75] fix: graph_polyhedron judged lines parallel by the
 absolute size of their coefficients

---
 pytimize/programs/_linear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 800cb7f..c0cf38a 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1477,6 +1477,13 @@ class LinearProgram:
             copy_b, [graph_limit, -graph_limit, graph_limit, -graph_limit]
         )
 
+        # scale every line to a unit normal, so that the size of its
+        # coefficients does not decide what counts as parallel or satisfied
+        norms = np.linalg.norm(copy_A, axis=1)
+        norms[norms == 0] = 1
+        copy_A = copy_A / norms[:, None]
+        copy_b = copy_b / norms
+
         inequalities = self.inequalities + ["<=", ">=", "<=", ">="]
 
         A = np.zeros((2, 2))
-- 
2.43.0


From c46b65df4f424ce169dfca4076d769b3ed738273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 66/75] fix: formulations dropped or misread NumPy numbers and
 indices

---
 pytimize/formulations/linear/_equation.py  |  7 ++++++-
 pytimize/formulations/linear/_utilities.py | 15 ++++++++++++++-
 pytimize/formulations/linear/_variable.py  | 12 ++++++++++--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 5e17a1c..7d2333d 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -3,7 +3,7 @@ from typing import Dict, Optional, Union
 import numpy as np
 
 from ._constraint import LinearConstraint
-from ._utilities import pad_right
+from ._utilities import as_number, pad_right
 
 
 class LinearEquation:
@@ -19,6 +19,7 @@ class LinearEquation:
         return self
 
     def __add__(self, other) -> "LinearEquation":
+        other = as_number(other)
         terms = self._terms.copy()
         constant = self._constant
 
@@ -54,6 +55,8 @@ class LinearEquation:
         return self + -other
 
     def __mul__(self, other: float) -> "LinearEquation":
+        other = as_number(other)
+
         if isinstance(other, float) or isinstance(other, int):
             return LinearEquation(
                 {
@@ -81,6 +84,8 @@ class LinearEquation:
     def _generate_constraint(
         self, inequality: str, other: Union["LinearEquation", float]
     ) -> LinearConstraint:
+        other = as_number(other)
+
         if isinstance(other, float) or isinstance(other, int):
             other = LinearEquation({}, other)
 
diff --git a/pytimize/formulations/linear/_utilities.py b/pytimize/formulations/linear/_utilities.py
index 69d9d32..ab37fe5 100644
--- a/pytimize/formulations/linear/_utilities.py
+++ b/pytimize/formulations/linear/_utilities.py
@@ -1,4 +1,5 @@
-from typing import Optional
+from numbers import Real
+from typing import Any, Optional
 
 import numpy as np
 
@@ -17,3 +18,15 @@ def pad_right(array: Optional[np.ndarray], max_length: int) -> np.ndarray:
         return array
 
     return np.r_[array, np.zeros(max_length - array.shape[0])]
+
+
+def as_number(value: Any) -> Any:
+    """
+    Converts the real numbers of other libraries, such as the entries of an array
+    of integers, to plain numbers. Anything else is left as it is.
+
+    """
+    if isinstance(value, Real) and not isinstance(value, (int, float)):
+        return float(value)
+
+    return value
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index 312f989..dfbcd13 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -1,16 +1,18 @@
+from numbers import Integral
 from typing import Tuple, Union
 
 from ._constraint import LinearConstraint, VariableConstraint
 from ._equation import LinearEquation
+from ._utilities import as_number
 
 
 class MetaVariable(type):
     def __getitem__(cls, key: Union[int, slice]) -> LinearEquation:
-        if isinstance(key, int):
+        if isinstance(key, Integral):
             if key <= 0:
                 raise ValueError("Variable indexing must starts at 1.")
 
-            key -= 1
+            key = int(key) - 1
         elif isinstance(key, tuple):
             # TODO implement
             pass
@@ -35,6 +37,8 @@ class Variable:
         self._key = key
 
     def __mul__(self, other: float) -> LinearEquation:
+        other = as_number(other)
+
         if isinstance(other, float) or isinstance(other, int):
             return LinearEquation({self._key: other})
 
@@ -69,6 +73,8 @@ class Variable:
         return self + -other
 
     def __le__(self, other: Union[LinearEquation, float]) -> LinearConstraint:
+        other = as_number(other)
+
         if isinstance(other, int) or isinstance(
             other, float
         ):  # Could be optimized TODO
@@ -80,6 +86,8 @@ class Variable:
         return self.equation <= other
 
     def __ge__(self, other: Union[LinearEquation, float]) -> LinearConstraint:
+        other = as_number(other)
+
         if isinstance(other, int) or isinstance(other, float):
             if other == 0:
                 return VariableConstraint(positive_variables=[self._key + 1])
-- 
2.43.0


From a872e3666632ebb89ab22ca770baec1a30e33166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 67/75] fix: formulations silently dropped operands that are
 not numbers

---
 pytimize/formulations/linear/_equation.py | 6 +++++-
 pytimize/formulations/linear/_variable.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 7d2333d..ddd7492 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -36,6 +36,8 @@ class LinearEquation:
             terms.setdefault(other.key, 0)
 
             terms[other.key] += 1
+        else:
+            return NotImplemented
 
         return LinearEquation(terms, constant)
 
@@ -66,8 +68,10 @@ class LinearEquation:
                 self._constant * other,
             )
 
+        return NotImplemented
+
     def __rmul__(self, other) -> "LinearEquation":
-        return self * other
+        return self.__mul__(other)
 
     def __imult__(self, other) -> "LinearEquation":
         return self * other
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index dfbcd13..5412f8d 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -42,8 +42,10 @@ class Variable:
         if isinstance(other, float) or isinstance(other, int):
             return LinearEquation({self._key: other})
 
+        return NotImplemented
+
     def __rmul__(self, other: float) -> LinearEquation:
-        return self * other
+        return self.__mul__(other)
 
     def __imul__(self, other: float) -> LinearEquation:
         return self * other
-- 
2.43.0


From eb7e04abb3f095e27a957eca869d71af9b030a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 68/75] fix: completing a basis after phase one searched
 exponentially many column sets

---
 pytimize/programs/_linear.py | 59 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index c0cf38a..58ace05 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -2,7 +2,6 @@ import copy
 import functools
 import math
 import random
-from collections import deque
 from decimal import Decimal
 from typing import List, Optional, Tuple, Union
 
@@ -660,18 +659,36 @@ class LinearProgram:
         if any(i >= self._A.shape[1] or i < 0 for i in basis):
             return False
 
-        columns = self._A[:, basis]
+        return self.__is_independent(basis)
+
+    def __is_independent(self, indices: List[int]) -> bool:
+        """
+        Checks if the columns of the coefficient matrix at the given indices are
+        linearly independent.
+
+        Parameters
+        ----------
+        indices : array of int
+            The column indices of the coefficient matrix. Use array indexing for format.
+
+        Returns
+        -------
+        result : bool
+            Whether or not the columns are linearly independent.
+
+        """
+        if len(indices) > self._A.shape[0]:
+            return False
+
+        columns = self._A[:, indices]
 
         # Linear independence does not depend on the magnitude of the rows or of the columns
         for axis in (1, 0):
             magnitudes = abs(columns).max(axis=axis, keepdims=True, initial=0)
-
-            if not magnitudes.all():
-                return False
-
+            magnitudes[magnitudes == 0] = 1
             columns = columns / magnitudes
 
-        return bool(np.linalg.cond(columns) < 1.0e10) if basis else True
+        return bool(np.linalg.cond(columns) < 1.0e10) if indices else True
 
     # TODO experimental
     def cs_conditions(self) -> str:
@@ -1027,29 +1044,13 @@ class LinearProgram:
                     else:
                         zero_set.append(i)
 
-                subset_size = self._A.shape[0] - len(p_basis)
-                queue = deque()
-
-                for i in range(0, len(zero_set) - subset_size + 1):
-                    queue.append((i, [zero_set[i]]))
-
-                while len(queue) > 0:
-                    current = queue.pop()
-
-                    if len(current[1]) == subset_size:
-                        basis_candidate = p_basis + current[1]
-
-                        basis_candidate.sort()
-
-                        if self.is_basis(basis_candidate):
-                            p_basis = basis_candidate
-
-                            break
-                    else:
-                        for i in range(current[0] + 1, len(zero_set)):
-                            copy = current[1] + [zero_set[i]]
+                # Every column that is independent of the ones chosen so far belongs
+                # to a basis that contains them, so there is no need to search
+                for i in reversed(zero_set):
+                    if self.__is_independent(self.__to_array_indexing(p_basis + [i])):
+                        p_basis.append(i)
 
-                            queue.append((i, copy))
+                p_basis.sort()
 
             return self.simplex(p_basis, show_steps)
 
-- 
2.43.0


From 56a533304e345d26c88ea10993b39d3fd26d5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 69/75] fix: subtracting a small NumPy integer from an
 expression wrapped around

---
 pytimize/formulations/linear/_equation.py | 4 ++--
 pytimize/formulations/linear/_variable.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index ddd7492..1057f29 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -48,13 +48,13 @@ class LinearEquation:
         return self + other
 
     def __sub__(self, other) -> "LinearEquation":
-        return self + -other
+        return self + -as_number(other)
 
     def __rsub__(self, other) -> "LinearEquation":
         return -self + other
 
     def __isub__(self, other) -> "LinearEquation":
-        return self + -other
+        return self + -as_number(other)
 
     def __mul__(self, other: float) -> "LinearEquation":
         other = as_number(other)
diff --git a/pytimize/formulations/linear/_variable.py b/pytimize/formulations/linear/_variable.py
index 5412f8d..13fe1ad 100644
--- a/pytimize/formulations/linear/_variable.py
+++ b/pytimize/formulations/linear/_variable.py
@@ -66,13 +66,13 @@ class Variable:
         return self.equation + other
 
     def __sub__(self, other) -> LinearEquation:
-        return self + -other
+        return self + -as_number(other)
 
     def __rsub__(self, other) -> LinearEquation:
         return -self + other
 
     def __isub__(self, other) -> LinearEquation:
-        return self + -other
+        return self + -as_number(other)
 
     def __le__(self, other: Union[LinearEquation, float]) -> LinearConstraint:
         other = as_number(other)
-- 
2.43.0


From 6b572b034bede16db7e46a99efca6173f1c31fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 70/75] fix: rounding kept preflow push from terminating with
 capacities of different magnitudes

---
 pytimize/graphs/_directed.py | 40 ++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index aba6321..9057647 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -1,8 +1,26 @@
 import math
 from collections import deque
+from fractions import Fraction
+from numbers import Rational
 from typing import Dict, Iterable, List, Optional, Set, Tuple, Union
 
-from ..utilities import Comparator
+
+def _to_exact(value: float) -> Union[Fraction, float]:
+    """
+    Converts a finite number to an exact one, so that no flow is created, lost or stuck
+    because of rounding when capacities of very different magnitudes are combined.
+    """
+    if not math.isfinite(value):
+        return value
+
+    return Fraction(value) if isinstance(value, Rational) else Fraction(float(value))
+
+
+def _to_number(value: Union[Fraction, float]) -> float:
+    if not isinstance(value, Fraction):
+        return value
+
+    return int(value) if value.denominator == 1 else float(value)
 
 
 class DirectedGraph:
@@ -343,11 +361,13 @@ class DirectedGraph:
         return DirectedGraph(arcs=arcs)
 
     def _compute_residual(
-        self, flow: Dict[Tuple[str, str], float]
+        self,
+        flow: Dict[Tuple[str, str], float],
+        capacities: Optional[Dict[Tuple[str, str], float]] = None,
     ) -> Dict[str, Dict[str, float]]:
         residual = {}
 
-        for arc, capacity in self._arcs.items():
+        for arc, capacity in (capacities or self._arcs).items():
             u, v = arc
             value = flow.get(arc, 0)
 
@@ -443,8 +463,9 @@ class DirectedGraph:
         index = 0
         excess = {}
         source_cut = self.cut(source)
-        flow = {arc: self._arcs[arc] if arc in source_cut else 0 for arc in self._arcs}
-        residual = self._compute_residual(flow)
+        capacities = {arc: _to_exact(weight) for arc, weight in self._arcs.items()}
+        flow = {arc: capacities[arc] if arc in source_cut else 0 for arc in self._arcs}
+        residual = self._compute_residual(flow, capacities)
         height = {
             node: len(self._nodes) if node == source else 0 for node in self._nodes
         }
@@ -459,7 +480,7 @@ class DirectedGraph:
         while index < len(nodes):
             node = nodes[index]
 
-            if Comparator.is_positive(excess[node]):
+            if excess[node] > 0:
                 pushed = False
 
                 for endpoint, value in residual[node].items():
@@ -492,7 +513,7 @@ class DirectedGraph:
         value = sum(flow[arc] for arc in self.cut(source))
         value -= sum(flow[arc] for arc in self.ncut(source))
 
-        return value, flow
+        return _to_number(value), {arc: _to_number(flow[arc]) for arc in flow}
 
     def _bfs_path(self, source, target, graph):
         queue = deque([source])
@@ -546,8 +567,9 @@ class DirectedGraph:
         if source == sink:
             raise ValueError("Source cannot be the same as the sink.")
 
+        capacities = {arc: _to_exact(weight) for arc, weight in self._arcs.items()}
         flow = {arc: 0 for arc in self._arcs}
-        residual = self._compute_residual(flow)
+        residual = self._compute_residual(flow, capacities)
         path = self._bfs_path(source, sink, residual)
 
         while path is not None:
@@ -574,7 +596,7 @@ class DirectedGraph:
         value = sum(flow[arc] for arc in self.cut(source))
         value -= sum(flow[arc] for arc in self.ncut(source))
 
-        return value, flow
+        return _to_number(value), {arc: _to_number(flow[arc]) for arc in flow}
 
     def formulate_max_flow(self):
         pass
-- 
2.43.0


From c914104f6179675d1016beb7066e6300d4b412c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:47 +0000
Subject: [PATCH 71/75] fix: steps left out entries of vectors and matrices
 with more than a thousand numbers

---
 pytimize/parsers/_description.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/parsers/_description.py b/pytimize/parsers/_description.py
index 39ff8b2..105f95c 100644
--- a/pytimize/parsers/_description.py
+++ b/pytimize/parsers/_description.py
@@ -1,4 +1,4 @@
-from numpy import ndarray
+from numpy import array2string, ndarray
 
 _steps = {
     "1.01": "Convert to Canonical Form for Base Indices of {}",
@@ -49,7 +49,9 @@ def render_descriptor(key, arguments):
 
     for i in range(len(arguments)):
         if isinstance(arguments[i], ndarray):
-            text = " ".join(filter(None, str(arguments[i]).split(" ")))
+            # Every entry is displayed, as by default large arrays are summarized
+            text = array2string(arguments[i], threshold=arguments[i].size + 1)
+            text = " ".join(filter(None, text.split(" ")))
 
             for rule in _cleanup_rules:
                 text = text.replace(rule[0], rule[1])
-- 
2.43.0


From a83bb50ca0d295765d975ed3880eb779080ca896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 72/75] fix: arrays of complex numbers and durations were
 accepted and altered

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 58ace05..9c67aa6 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1733,7 +1733,7 @@ class LinearProgram:
 
         """
         if isinstance(source, np.ndarray):
-            if not np.issubdtype(source.dtype, np.number):
+            if source.dtype.kind not in "iuf":
                 raise ValueError()
 
             return source.astype(float)
-- 
2.43.0


From 68430b62337b326e2ff03649b50dfc2b61557182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:51 +0000
Subject: [PATCH 73/75] fix: fractional indices of free and negative variables
 were accepted

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 9c67aa6..6062d13 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -95,7 +95,7 @@ class LinearProgram:
             if not len(free_set) == len(free_variables):
                 raise ValueError("Duplicate indices are not allowed in free variables.")
 
-            if min(free_variables) < 0 or max(free_variables) >= c.shape[0]:
+            if not free_set <= set(range(c.shape[0])):
                 raise ValueError("Some free variable indices are invalid.")
 
         if len(negative_variables) > 0:
@@ -104,7 +104,7 @@ class LinearProgram:
                     "Duplicate indices are not allowed in negative variables."
                 )
 
-            if min(negative_variables) < 0 or max(negative_variables) >= c.shape[0]:
+            if not negative_set <= set(range(c.shape[0])):
                 raise ValueError("Some negative variable indices are invalid.")
 
         if len(free_set.intersection(negative_set)) > 0:
-- 
2.43.0


From 65e2441701ac9dcc0cf51c845278dae72eae97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:53 +0000
Subject: [PATCH 74/75] fix: a program was accepted with a constant that is not
 a number

---
 pytimize/programs/_linear.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6062d13..a743774 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -3,6 +3,7 @@ import functools
 import math
 import random
 from decimal import Decimal
+from numbers import Real
 from typing import List, Optional, Tuple, Union
 
 import numpy as np
@@ -74,6 +75,9 @@ class LinearProgram:
         ):
             raise ValueError("Dimension mismatch between `A`, `b`, or `c`.")
 
+        if not isinstance(z, Real):
+            raise ValueError("The constant `z` must be a number.")
+
         inequality_indices = {}
         free_variables = (
             self.__to_array_indexing(free_variables)
-- 
2.43.0


From cd6233f7be8c7f29e75783add263053305ebab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 75/75] fix: adding a row or variable with a value that is not
 a number damaged the program

---
 pytimize/programs/_linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a743774..70e54c8 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -452,6 +452,9 @@ class LinearProgram:
         if not inequality in ["=", ">=", "<="]:
             raise ValueError()
 
+        if not isinstance(value, Real):
+            raise ValueError()
+
         if inequality == ">=" or inequality == "<=":
             self._inequality_indices[self._A.shape[0]] = inequality
             self._is_sef = False
@@ -505,6 +508,9 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        if not isinstance(coefficient, Real):
+            raise ValueError()
+
         if column is not None:
             column = self.__to_ndarray(column)
 
-- 
2.43.0

