From d7ca395d9b883800047d89234aa73ea8a2567bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 01/37] fix: normal form uses the rank over GF(2) and finds
 second-block pivots in every row and column

---
 PyQCodes/codes.py | 78 ++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 7bf06f8..1e41fb2 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -697,6 +697,25 @@ class StabilizerCode():
         normalizer = self.normalizer()
         return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
 
+    @staticmethod
+    def _binary_rank(matrix):
+        r"""Rank of a binary matrix over the integers modulo two."""
+        output = np.array(matrix, dtype=int) % 2
+        rank = 0
+        for j in range(0, output.shape[1]):
+            rows = np.flatnonzero(output[rank:, j])
+            if len(rows) == 0:
+                continue
+            # Move the first one found to the row 'rank' and clear the rest of the column.
+            output[[rank, rank + rows[0]]] = output[[rank + rows[0], rank]]
+            for i in range(rank + 1, output.shape[0]):
+                if output[i, j] == 1:
+                    output[i] = (output[i] + output[rank]) % 2
+            rank += 1
+            if rank == output.shape[0]:
+                break
+        return rank
+
     def _gaussian_elimination_first_block(self):
         r"""
         Perform Gaussian Elimination On the first block G1 from binary representation [G1 | G2].
@@ -721,7 +740,7 @@ class StabilizerCode():
         """
         output = self.stab_bin_rep.copy()
 
-        rank = np.linalg.matrix_rank(self.stab_bin_rep[:, :self.n])
+        rank = self._binary_rank(self.stab_bin_rep[:, :self.n])
         numb_stabs = self.numb_stab
         assert self.stab_bin_rep.shape[0] == numb_stabs
 
@@ -786,52 +805,43 @@ class StabilizerCode():
 
         Notes
         -----
-        - Unlike "_gaussian_elimination_first_block", this does not have sophicasted swapping
-        (ie being able to swap diagonally). It only attempts to swap the based on row then
-        based on columns.
+        - Similar to "_gaussian_elimination_first_block", a zero on the diagonal is swapped
+        diagonally with a row below it and a column to the right of it.
 
         """
         if rank == binary_rep.shape[0]:
             return binary_rep
 
         output = binary_rep.copy()
-        rank_E = np.linalg.matrix_rank(output[rank:, self.n + rank:])
+        rank_E = self._binary_rank(output[rank:, self.n + rank:])
 
-        # Swap rows to ensure the diagonal elements are all ones.
-        # TODO: Add More "Powerful" Swaps like in _gaussian_elimination_first_block
+        # Perform Gaussian elimination by going through each column up to rank.
         for j in range(self.n + rank, self.n + rank + rank_E):
+            # If diagonal element of E is zero.
             if output[j - self.n, j] == 0:
+                # Find a one to the right or below of the diagonal and swap with it.
+                did_not_swap = True
+                for i_col in range(j, 2 * self.n):
+                    for j_row in range(j - self.n, self.numb_stab):
+                        if output[j_row, i_col] == 1 and did_not_swap:
+                            # Swap with respect to Z component of binary representation [G1 | G2]
+                            copy = output[:, i_col].copy()
+                            output[:, i_col] = output[:, j]
+                            output[:, j] = copy
 
-                for i in range(j - self.n + 1, self.numb_stab):
-                    # Find a row below it to swap below it!
-                    if output[i, j] == 1:
-                        copy = output[i, :].copy()
-                        output[i, :] = output[j - self.n, :]
-                        output[j - self.n, :] = copy
-                        break
+                            # Swap same part for G1
+                            copy = output[:, i_col - self.n].copy()
+                            output[:, i_col - self.n] = output[:, j - self.n]
+                            output[:, j - self.n] = copy
 
-        # Perform Gaussian elimination by going through each column up to rank.
-        for j in range(self.n + rank, self.n + rank + rank_E):
-            diag_elem_E = output[j - self.n, j]  # Diagonal element of E.
-
-            # If diagonal element is zero.
-            if diag_elem_E == 0:
-                # Find column with a one in diagonal and swap with it.
-                for i_col in range(j + 1, 2 * self.n):
-                    if output[j - self.n, i_col] == 1:
-                        # Swap with respect to X component of G1 binary representation [G1 | G2]
-                        copy = output[:, i_col].copy()
-                        output[:, i_col] = output[:, j]
-                        output[:, j] = copy
-
-                        # Swap same part for G2
-                        copy = output[:, i_col - self.n].copy()
-                        output[:, i_col - self.n] = output[:, j - self.n]
-                        output[:, j - self.n] = copy
-                        break
+                            # Swap row too.
+                            copy = output[j - self.n, :].copy()
+                            output[j - self.n, :] = output[j_row, :]
+                            output[j_row, :] = copy
+                            did_not_swap = False
 
             # If it is still zero. Return a warning.
-            if diag_elem_E == 0:
+            if output[j - self.n, j] == 0:
                 warnings.warn("Gaussian Elimination on Binary Representation Is Not Going to "
                               "Work.  It could not find a row or column replacement to make sure "
                               "diagonal element is one.")
-- 
2.43.0


From ded36639118f5cde2aeb780ddb37f8c2b482a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 02/37] fix: record how the standard normal form relabels the
 qubits of the generators

---
 PyQCodes/codes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 1e41fb2..083214b 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -87,6 +87,9 @@ class StabilizerCode():
         The number of encoded qubits from (n, k) code.
     k : int
         The number of un-encoded qubits from (n, k) code.
+    qubit_order : list
+        The ith qubit of the normal form (and of the logical operators and circuits that are
+        constructed from it) is the qubit 'qubit_order[i]' of the stabilizer generators.
     stab_bin_rep : np.ndarray
         Two-dimensional binary array representing the binary representation of a stabilizer code.
     logical_x : np.ndarray
@@ -697,6 +700,12 @@ class StabilizerCode():
         normalizer = self.normalizer()
         return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
 
+    def _swap_qubit_order(self, i, j):
+        r"""Record that the qubits/columns i and j of the normal form were swapped."""
+        order = list(self.qubit_order)
+        order[i], order[j] = order[j], order[i]
+        self.qubit_order = order
+
     @staticmethod
     def _binary_rank(matrix):
         r"""Rank of a binary matrix over the integers modulo two."""
@@ -740,6 +749,9 @@ class StabilizerCode():
         """
         output = self.stab_bin_rep.copy()
 
+        # Column/qubit i of the normal form is the qubit 'qubit_order[i]' of the generators.
+        self.qubit_order = list(range(self.n))
+
         rank = self._binary_rank(self.stab_bin_rep[:, :self.n])
         numb_stabs = self.numb_stab
         assert self.stab_bin_rep.shape[0] == numb_stabs
@@ -762,6 +774,7 @@ class StabilizerCode():
                             copy = output[:, i_col + self.n].copy()
                             output[:, i_col + self.n] = output[:, j + self.n]
                             output[:, j + self.n] = copy
+                            self._swap_qubit_order(i_col, j)
 
                             # Swap row too.
                             copy = output[j, :].copy()
@@ -833,6 +846,7 @@ class StabilizerCode():
                             copy = output[:, i_col - self.n].copy()
                             output[:, i_col - self.n] = output[:, j - self.n]
                             output[:, j - self.n] = copy
+                            self._swap_qubit_order(i_col - self.n, j - self.n)
 
                             # Swap row too.
                             copy = output[j - self.n, :].copy()
-- 
2.43.0


From bd0f1a298326e874a9c72ff0a4d77b81a5ec128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 03/37] fix: constructor checks the dimensions of codes given
 as Pauli strings

---
 PyQCodes/codes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 083214b..58657c5 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -174,8 +174,8 @@ class StabilizerCode():
             stabilizer_group = StabilizerCode.pauli_str_to_binary_representation(stabilizer_group)
         elif isinstance(stabilizer_group[0], (list, np.ndarray)):
             stabilizer_group = np.array(stabilizer_group)
-            assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
-            assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
+        assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
+        assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
 
         self._stab_bin_rep = stabilizer_group
         self.numb_stab = self.stab_bin_rep.shape[0]
-- 
2.43.0


From c51b35ae9b1a089c2491cf2252c68329d9b220c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 04/37] fix: apply_stabilizer_circuit accepts Pauli strings as
 documented

---
 PyQCodes/codes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 58657c5..91a6348 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -530,6 +530,7 @@ class StabilizerCode():
         >> apply_stabilizer_circuit(eng, register, "XXY")
 
         """
+        pauli_str = stabilizer
         if isinstance(stabilizer, (list, np.ndarray)):
             # Convert to Pauli String.
             pauli_str = StabilizerCode.binary_rep_to_pauli_str(stabilizer)
-- 
2.43.0


From 0a274a496e21e70ddcf1e63bab041f1acab6de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 05/37] fix: normalizer and undetectable_errors run and leave
 out the stabilizer group

---
 PyQCodes/codes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 91a6348..b20326f 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -699,7 +699,7 @@ class StabilizerCode():
 
         """
         normalizer = self.normalizer()
-        return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
+        return [StabilizerCode.binary_rep_to_pauli_str(x) for x in normalizer]
 
     def _swap_qubit_order(self, i, j):
         r"""Record that the qubits/columns i and j of the normal form were swapped."""
@@ -980,6 +980,9 @@ class StabilizerCode():
 
         """
         normalizer = []
+        # All of the elements of the stabilizer group S.
+        stabilizer_group = {tuple(np.array(coeff).dot(self.stab_bin_rep) % 2)
+                            for coeff in itertools.product([0, 1], repeat=self.numb_stab)}
         # Worse-case algorithm. Go through every permutation
         all_pauli_reps = itertools.product([0, 1], repeat=2 * self.n)
         # all_pauli_reps = self.generator_set_pauli_elements()
@@ -989,11 +992,11 @@ class StabilizerCode():
 
             # TODO: Vectorize this.
             for stab in self.stab_bin_rep:
-                if not self._commute(stab, pauli):
+                if StabilizerCode.inner_prod(stab, np.array(pauli)) != 0:
                     does_commute = False
                     break
-            # If it commutes and satisfies couple of generator conditions.
-            if does_commute:
+            # If it commutes and it is not inside the stabilizer group.
+            if does_commute and tuple(pauli) not in stabilizer_group:
                 normalizer.append(pauli)
         return np.array(normalizer)
 
-- 
2.43.0


From 21afefd2bff1cf187c1e4ac521afbedaa195ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 06/37] fix: concatenate_codes raises the documented ValueError

---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index b20326f..d0ef076 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1036,7 +1036,7 @@ class StabilizerCode():
         m, l = stab2.n, stab2.k
 
         if n % l != 0:
-            assert ValueError("Code concatenation only works when l divides n, ie n | l.")
+            raise ValueError("Code concatenation only works when l divides n, ie n | l.")
 
         generator = []
         # Suppose l = 1
-- 
2.43.0


From 0bd6b477d84b45a3ca65704c678d7b8b9b318e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 07/37] fix: concatenate_codes uses both parts of the logical
 operators, the right block and qubit order

---
 PyQCodes/codes.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index d0ef076..cb932e3 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -199,6 +199,8 @@ class StabilizerCode():
             assert logical_ops[1].shape[1] == 2*n, "Number of columns of Z logical operators " \
                                                    "should be 2*n."
             self._logical_x, self._logical_z = logical_ops
+        # Logical operators from the normal form follow its order of the qubits.
+        self._logical_order = self.qubit_order if logical_ops is None else list(range(n))
 
     @property
     def n(self):
@@ -894,6 +896,12 @@ class StabilizerCode():
         e = standard_form[rank:, 2 * self.n - self.k:]
         return a2, e, c1, c2
 
+    def _logicals_in_generator_order(self):
+        r"""Return logical X and Z operators, with qubits ordered as in the generators."""
+        columns = np.argsort(self._logical_order)
+        columns = np.hstack((columns, columns + self.n))
+        return self.logical_x[:, columns], self.logical_z[:, columns]
+
     def logical_operators(self):
         r"""
         Obtain the binary representation of the logical operators retrieved from the standard form.
@@ -1058,8 +1066,8 @@ class StabilizerCode():
                     generator.append(new_gen_x + new_gen_z)
 
             # Go through each generator from stab1.
-            logical_x = stab2.logical_x[0]
-            logical_z = stab2.logical_z[0]
+            logical_x, logical_z = [x[0] for x in stab2._logicals_in_generator_order()]
+            logical_y = (logical_x + logical_z) % 2
             for i in range(0, stab1.numb_stab):
                 stabilizer = stab1.stab_bin_rep[i]
                 new_gen_x = []
@@ -1067,13 +1075,13 @@ class StabilizerCode():
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer.
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Operator.
                         new_gen_x.extend(logical_x[:m])
-                        new_gen_z += [0] * m
+                        new_gen_z.extend(logical_x[m:])
                     elif pauli == 0 and stabilizer[n + j] == 1:  # Z Operator.
-                        new_gen_x += [0] * m
+                        new_gen_x.extend(logical_z[:m])
                         new_gen_z.extend(logical_z[m:])
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Operator.
-                        new_gen_x.extend(logical_x[:m])
-                        new_gen_z.extend(logical_z[m:])
+                        new_gen_x.extend(logical_y[:m])
+                        new_gen_z.extend(logical_y[m:])
                     else:
                         new_gen_x += [0] * m
                         new_gen_z += [0] * m
@@ -1098,17 +1106,16 @@ class StabilizerCode():
 
                     generator.append(new_gen_x + new_gen_z)
             # Go through each generator from stab1.
-            logical_x = stab2.logical_x
-            logical_z = stab2.logical_z
+            logical_x, logical_z = stab2._logicals_in_generator_order()
             for i in range(0, stab1.numb_stab):
                 stabilizer = stab1.stab_bin_rep[i]
                 new_gen_x = np.zeros((total_qubits), dtype=np.int)
                 new_gen_z = np.zeros((total_qubits), dtype=np.int)
 
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer element.
-                    which_logical_op = j % numb_blocks  # Modulo the number of blocks.
+                    which_logical_op = j % l  # Each block holds l qubits of the first code.
 
-                    which_block = int(np.floor(j / numb_blocks))
+                    which_block = j // l
 
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Block Operator.
                         current_logical = logical_x[which_logical_op]
@@ -1117,10 +1124,11 @@ class StabilizerCode():
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Block Operator
                         current_logical = (logical_z[which_logical_op] +
                                            logical_x[which_logical_op]) % 2
+                    else:  # Identity Block Operator
+                        continue
 
                     # Get the range of qubits that it acts on.
-                    # TODO: should this be n or m.
-                    range_qubits = (n * which_block, n * (which_block + 1))
+                    range_qubits = (m * which_block, m * (which_block + 1))
 
                     new_gen_x[range_qubits[0]: range_qubits[1]] = \
                         (new_gen_x[range_qubits[0]: range_qubits[1]] + current_logical[:m]) % 2
-- 
2.43.0


From 40aa9b7ba86c6352368f7de38fe32bf558de1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 08/37] fix: decoding_circuit does not return supplied ancilla
 qubits twice

---
 PyQCodes/codes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index cb932e3..a604f40 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -632,6 +632,8 @@ class StabilizerCode():
                 register_ancilla = register[self.n:]
                 del register[:self.n]
             return register_ancilla
+        if not add_ancilla_bits:
+            return register
         return register + register_ancilla
 
     def logical_circuit(self, eng, register, pauli_op):
-- 
2.43.0


From 82f7bbb58b747c28704c57f99f1177ee44a6bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 09/37] fix: encoding isometry of generators with an odd number
 of Y

---
 PyQCodes/codes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index a604f40..660d687 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -293,6 +293,9 @@ class StabilizerCode():
 
         # Diagonalize first stabilizer element and get only plus one eigenspace.
         stabilizers = StabilizerCode.binary_rep_to_pauli_mat(self.stab_bin_rep)
+        # Y = XZ is anti-hermitian, an odd number of them needs a phase to have eigenvalue one.
+        stabilizers = [1.j * mat if pauli.count("Y") % 2 == 1 else mat
+                       for mat, pauli in zip(stabilizers, self.pauli_stab)]
         stab1 = stabilizers[0]
         eigs, evecs = np.linalg.eigh(stab1)
         evecs = _obtain_eigenspace_one(eigs, evecs)
-- 
2.43.0


From 2429a0b20c2c29036e00b66045e522dd4545c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 10/37] fix: syndrome measurement of elements with an odd
 number of Y

---
 PyQCodes/codes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 660d687..d2a9da3 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -414,6 +414,9 @@ class StabilizerCode():
             pauli_str = self.binary_rep_to_pauli_str(np.array(stabilizer))
         print(pauli_str)
         H | measure_qubit
+        if pauli_str.count("Y") % 2 == 1:
+            # Y = XZ is anti-hermitian, an odd number of them needs a phase to be measurable.
+            S | measure_qubit
         eng.flush()
         with Control(eng, measure_qubit):
             for i, pauli_element in enumerate(pauli_str):
-- 
2.43.0


From 3ac74f059213d5c1f19898c4207e7bf379c5a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 11/37] fix: encoding circuit of generators with an odd number
 of Y

---
 PyQCodes/codes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index d2a9da3..eee3444 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -494,6 +494,9 @@ class StabilizerCode():
             eng.flush()
             # Get pauli operator of normal stabilizer generator.
             pauli = self.binary_rep_to_pauli_str(self.normal_form[i])
+            if pauli.count("Y") % 2 == 1:
+                # Y = XZ is anti-hermitian, an odd number of them needs a phase.
+                S | register[i]
 
             # Apply controlled operators with the ith-qubit being controlled.
             for j, pauli_op in enumerate(pauli):
-- 
2.43.0


From b82682b9407b280bf1d025a22a39d55f3c58e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 12/37] fix: kraus_operators_correcting_errors works on sparse
 errors

---
 PyQCodes/codes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index eee3444..d189d4d 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -346,6 +346,9 @@ class StabilizerCode():
 
         for i, error in enumerate(pauli_errors):
             found_decoder = False
+            if sparse:
+                # Same sparse format as the stabilizers.
+                error = error.tocsr() if hasattr(error, "tocsr") else csr_matrix(error)
             # Go through each stabilizer element.
             for p in stabilizers:
                 # Check whether they commute or not.
@@ -353,7 +356,7 @@ class StabilizerCode():
                 error_p = error.dot(p)
 
                 # Check if they are anti-commuting.
-                if np.all(abs(error_p + p_error) < 1e-5):
+                if abs(error_p + p_error).max() < 1e-5:
                     # Append stabilier multipled by error for entire error-correcting procedure.
                     kraus.append(p.dot(error))
                     found_decoder = True  # Error is correctable.
-- 
2.43.0


From 11aa8469296e56ed2abadad63a5350a88bea95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 13/37] fix: sparse channel on several density matrices

---
 PyQCodes/chan/_kraus.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 9a5a471..62c724f 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -487,7 +487,8 @@ class SparseKraus(Kraus):
         Parameters
         ----------
         rho : array
-            Trace one, positive-semidefinite, hermitian matrix.
+            Trace one, positive-semidefinite, hermitian matrix. If rho is three-dimensional with
+            shape (M, d, d), then the channel is computed on each of the M density matrices.
 
         adjoint : bool
             Compute the adjoint of the channel instead.
@@ -499,6 +500,12 @@ class SparseKraus(Kraus):
             rho.
 
         """
+        if rho.ndim == 3:
+            # Axis zero runs over the density matrices and axis one over the kraus operators.
+            left, right = self.nth_kraus_ops, self.nth_kraus_ops_conj
+            if adjoint:
+                left, right = right, left
+            return np.sum(matmul(matmul(left, rho[:, None, :, :]), right), axis=1)
         if adjoint:
             left_mult = matmul(self.nth_kraus_ops_conj, rho)
             return np.sum(matmul(left_mult, self.nth_kraus_ops), axis=0)
-- 
2.43.0


From 8f1245beaf890139913365f878b5f4a21b86288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 14/37] fix: blocks of the complementary channel start at the
 given indices

---
 PyQCodes/chan/_kraus.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 62c724f..a39ebc6 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -850,7 +850,6 @@ class DenseKraus(Kraus):
         # and A_2 correponds to {k_1, k_2}.
 
         """
-        numb_rows = self.numb_kraus ** n
         # Compute adjoint of the complementary channel.
         if adjoint:
             return np.einsum("ijkl,ij->kl", self.nth_kraus_exch, rho, dtype=np.complex128)
@@ -867,11 +866,10 @@ class DenseKraus(Kraus):
                 W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:orthogonal_split,
                               count:orthogonal_split, :, :], rho)
                 output.append(W.T)
-                count += orthogonal_split
+                count = orthogonal_split
 
             # Last section of kraus operators
-            diff = (numb_rows - count)
-            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[diff:, diff:, :, :], rho)
+            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:, count:, :, :], rho)
             output.append(W.T)
         return output
 
-- 
2.43.0


From e1d444d9a9b44bdf45cf4fd472e80fd9d66218dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 15/37] fix: sparse kraus operators back at n=1 use the
 matching adjoint operators

---
 PyQCodes/chan/_kraus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index a39ebc6..ff20045 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -154,7 +154,7 @@ class Kraus(ABC):
 
     @nth_kraus_ops_conj.setter
     def nth_kraus_ops_conj(self, kraus):
-        self.nth_kraus_ops_conj = kraus
+        self._nth_kraus_ops_conj = kraus
 
     @property
     def nth_kraus_exch(self):
@@ -439,11 +439,11 @@ class SparseKraus(Kraus):
         r"""Tensor kraus operators together needed for channel and entropy exchange computation."""
         output = kron(array1, array2)
         output.enable_caching()
-        self._nth_kraus_ops_conj = output.conj().transpose((0, 2, 1))
-        self._nth_kraus_ops_conj.enable_caching()
         return output
 
     def _kraus_operators_exchange(self, n):
+        self._nth_kraus_ops_conj = self.nth_kraus_ops.conj().transpose((0, 2, 1))
+        self._nth_kraus_ops_conj.enable_caching()
         self._nth_kraus_exch = tensordot(self.nth_kraus_ops_conj, self.nth_kraus_ops,
                                          axes=((2), (1))).transpose(axes=(0, 2, 1, 3))
 
-- 
2.43.0


From 4f032ec72ca6a8e7f3fd323d7e63008e0a14860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 16/37] fix: serial concatenation of kraus objects has the
 input particles of the second and the output particles of the first

---
 PyQCodes/chan/_kraus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index ff20045..9c17d86 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -405,7 +405,7 @@ class SparseKraus(Kraus):
         assert isinstance(other, SparseKraus), "Kraus object should be of type 'SparseKraus'."
         if self.dim_in**self.numb_qubits[0] != other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return SparseKraus(SparseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
@@ -722,7 +722,7 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         if not self.dim_in**self.numb_qubits[0] == other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return DenseKraus(DenseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
-- 
2.43.0


From e0ce82d53c25aab1f1ae43ea887bd91af77cdaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 17/37] fix: dimensions of parallel concatenation of channels
 on several particles

---
 PyQCodes/chan/_kraus.py  | 6 ++++--
 PyQCodes/chan/channel.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 9c17d86..c8018bc 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -416,7 +416,8 @@ class SparseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in = self.input_dim * other.input_dim
+        dim_out = self.output_dim * other.output_dim
         return SparseKraus(SparseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
 
@@ -733,7 +734,8 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in = self.input_dim * other.input_dim
+        dim_out = self.output_dim * other.output_dim
         return DenseKraus(DenseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 8a27261..9da5238 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -352,8 +352,8 @@ class AnalyticQChan():
         else:
             new_kraus_ops = DenseKraus.parallel_concatenate(self.kraus, other.kraus)
         numb_qubits = [1, 1]
-        dim_in = self.dim_in * other.dim_in
-        dim_out = self.dim_out * other.dim_out
+        dim_in = self.dim_in**self.numb_qubits[0] * other.dim_in**other.numb_qubits[0]
+        dim_out = self.dim_out**self.numb_qubits[1] * other.dim_out**other.numb_qubits[1]
         return AnalyticQChan(new_kraus_ops, numb_qubits, dim_in, dim_out, sparse=issparse)
 
     def _is_qubit_channel(self):
-- 
2.43.0


From 26033a09c9b98a6e544bb3529270453f570d0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 18/37] fix: serial concatenation of sparse kraus operators

---
 PyQCodes/chan/_kraus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index c8018bc..1641e65 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -26,7 +26,7 @@ THE SOFTWARE.
 """
 import numpy as np
 from scipy.sparse import kron
-from sparse import COO, kron, tensordot, matmul, SparseArray
+from sparse import COO, kron, tensordot, matmul, stack, SparseArray
 from abc import ABC, abstractmethod, abstractstaticmethod
 
 r"""
@@ -617,8 +617,8 @@ class SparseKraus(Kraus):
         # Multiply all kraus operators with one another
         kraus_ops = [matmul(kraus1[j], kraus2[i]) for j in range(0, len(kraus1))
                      for i in range(0, len(kraus2))]
-        # Reshape them to be three-dimensional.
-        return COO(np.array(kraus_ops, dtype=np.complex128),)
+        # Put them together to be three-dimensional.
+        return stack(kraus_ops, axis=0)
 
 
 class DenseKraus(Kraus):
-- 
2.43.0


From a3155aea439328dc0dc8eb28402610dc4296ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 19/37] fix: number of kraus operators of a channel

---
 PyQCodes/chan/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 9da5238..e051289 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -258,7 +258,7 @@ class AnalyticQChan():
     def numb_krauss(self):
         r"""Return the number of kraus operators for the single (n=1) channel."""
         assert self._type == "kraus", "Function only works with kraus operators."
-        return self.krauss.numb_krauss
+        return self.krauss.numb_kraus
 
     @property
     def kraus(self):
-- 
2.43.0


From ce895ac27f6c59d54469e1e3d796d8e587883799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 20/37] fix: complementary channel of a choi matrix keeps
 double precision

---
 PyQCodes/chan/_choi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index e6f5b83..d778512 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -25,7 +25,6 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 import numpy as np
-from scipy.linalg import sqrtm
 
 from qutip import Qobj, ptrace
 
@@ -216,7 +215,10 @@ class ChoiQutip():
             Quantum Channel." PhD diss., 2015.
         """
         # Follows from Tong's Thesis, Bei's Student.
-        square_root = sqrtm(rho)
+        # Rho is positive-semidefinite, so its square root comes from its eigen-decomposition.
+        eigenvalues, eigenvectors = np.linalg.eigh(rho)
+        eigenvalues = np.sqrt(np.maximum(eigenvalues, 0.))
+        square_root = (eigenvectors * eigenvalues).dot(eigenvectors.conj().T)
         tensored = np.kron(square_root.T, np.eye(self.output_dim))
         return tensored.dot(self.choi).dot(tensored)
 
-- 
2.43.0


From fc518bef454f6422a9170f0e9906295fa31ccbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 21/37] fix: fidelity of two states works for singular density
 matrices

---
 PyQCodes/chan/channel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index e051289..e9130fb 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -29,7 +29,6 @@ from PyQCodes.chan._choi import ChoiQutip
 from PyQCodes.chan._coherent import optimize_procedure
 
 import numpy as np
-from scipy.linalg import sqrtm
 from sparse import SparseArray
 
 r"""
@@ -392,10 +391,11 @@ class AnalyticQChan():
 
         """
         chan = self.channel(rho, n)
-        sqrt_rho = sqrtm(rho)
-        fidel = np.trace(sqrtm(sqrt_rho.dot(chan).dot(sqrt_rho)))
-        assert np.abs(np.imag(fidel)) < 1e-5
-        return np.real(fidel)
+        # Square root from the eigen-decomposition, since rho is allowed to be singular.
+        eigs, vecs = np.linalg.eigh(rho)
+        sqrt_rho = (vecs * np.sqrt(np.maximum(eigs, 0.))).dot(vecs.conj().T)
+        eigs = np.linalg.eigvalsh(sqrt_rho.dot(chan).dot(sqrt_rho))
+        return np.sum(np.sqrt(np.maximum(eigs, 0.)))
 
     def average_entanglement_fidelity(self, probs, states):
         r"""
-- 
2.43.0


From 5eb98956ed2afb3aede8c976a814c5ab72936b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 22/37] fix: entropy of a list of matrices of different sizes

---
 PyQCodes/chan/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index e9130fb..cc8bafe 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -519,8 +519,9 @@ class AnalyticQChan():
             The von neumann entropy.
 
         """
-        if self.sparse:
-            eigs = np.linalg.eigvalsh(mat)
+        if isinstance(mat, (list, tuple)):
+            # The matrices can have different sizes.
+            eigs = np.concatenate([np.ravel(np.linalg.eigvalsh(x)) for x in mat])
         else:
             eigs = np.ravel(np.linalg.eigvalsh(mat))
         no_zeros = eigs[np.abs(eigs) > cut_off]
-- 
2.43.0


From 460c9c96812e0a1d34f4d649517180d0f1b7fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 23/37] fix: channel of a choi matrix with different numbers of
 input and output particles

---
 PyQCodes/chan/_choi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index d778512..ce16fd7 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -191,8 +191,10 @@ class ChoiQutip():
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
         # Keep the following dimensions when doing partial trace
-        keep = [i for i in range(self.num_out, 2 * self.num_out)]
-        return ptrace(Qobj(choi_rho, dims=self.dim), keep).data.todense()
+        keep = [i for i in range(self.num_in, self.num_in + self.num_out)]
+        # Flat list of the dimension of each particle.
+        dims = [self.dim_in] * self.num_in + [self.dim_out] * self.num_out
+        return ptrace(Qobj(choi_rho, dims=[dims, dims]), keep).data.todense()
 
     def complementary_channel(self, rho):
         r"""
-- 
2.43.0


From 85d41324f3b8e5d0eadc594d61bce7fe2c623c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:47 +0000
Subject: [PATCH 24/37] fix: adjoint of a channel given as a choi matrix

---
 PyQCodes/chan/_choi.py   | 10 ++++++++--
 PyQCodes/chan/channel.py |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index ce16fd7..2807c8f 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -171,14 +171,17 @@ class ChoiQutip():
     def numb_qubits(self):
         return [self.num_in, self.num_out]
 
-    def channel(self, rho):
+    def channel(self, rho, adjoint=False):
         r"""
-        Compute the channel on a density matrix.
+        Compute the channel, or its adjoint, on a density matrix.
 
         Parameters
         ----------
         rho : array
 
+        adjoint : bool
+            Compute the adjoint of the channel instead.
+
         Returns
         -------
         array :
@@ -187,6 +190,9 @@ class ChoiQutip():
         ----------
         See John Watrous Notes of Choi-Matrix. Note that he uses row-based vectorization.
         """
+        if adjoint:
+            dims = (self.input_dim, self.output_dim)
+            return np.einsum("aibj,ji->ba", self.choi.reshape(dims + dims), rho)
         # Definition is taken from John Watrous.
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index cc8bafe..6c3356a 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -461,7 +461,7 @@ class AnalyticQChan():
 
         # For Choi Matrix.
         assert n == 1, "n, nth use of the channel must be one for choi-matrices."
-        return self.choi.channel(rho)
+        return self.choi.channel(rho, adjoint)
 
     def entropy_exchange(self, rho, n, adjoint=False):
         r"""
-- 
2.43.0


From 02f86322025a1883625da035376609b371c91270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 25/37] fix: cholesky vector of a density matrix has the order
 that rho_from_vec reads

---
 PyQCodes/chan/param.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index 9824488..4f22d24 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -583,8 +583,7 @@ class CholeskyParam(ParameterizationABC):
         cholesky_fac = np.linalg.cholesky(rho)
         # First set of elements is the diagonal elements (always real).
         vec = np.diag(np.real(cholesky_fac))
-        # Add real Off-diagonal elements
-        vec = np.append(vec, np.real(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
-        # Add imaginary Off-diagonal elements
-        vec = np.append(vec, np.imag(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
+        # Off-diagonal elements, the real component then the imaginary component of each.
+        off_diag = cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]
+        vec = np.append(vec, np.column_stack((np.real(off_diag), np.imag(off_diag))))
         return vec
-- 
2.43.0


From 7b0c8a8b95f6478e0cf85d6b8df675a917b85fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:14 +0000
Subject: [PATCH 26/37] fix: cholesky vector of density matrices that are not
 of full rank

---
 PyQCodes/chan/param.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index 4f22d24..3b06537 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -580,7 +580,13 @@ class CholeskyParam(ParameterizationABC):
         if rank is None:
             rank = nsize
         assert 1 <= rank <= nsize
-        cholesky_fac = np.linalg.cholesky(rho)
+        # Cholesky factor of size (nsize, rank), rho is singular if rank is less than nsize.
+        eigs, evecs = np.linalg.eigh(rho)
+        factor = evecs[:, nsize - rank:] * np.sqrt(np.maximum(eigs[nsize - rank:], 0.))
+        cholesky_fac = np.conj(np.linalg.qr(np.conj(factor).T, mode="r")).T
+        # Make the diagonal elements real and positive.
+        phases = np.exp(-1j * np.angle(np.diag(cholesky_fac)))
+        cholesky_fac = cholesky_fac * phases
         # First set of elements is the diagonal elements (always real).
         vec = np.diag(np.real(cholesky_fac))
         # Off-diagonal elements, the real component then the imaginary component of each.
-- 
2.43.0


From 4c2970f14c7416529ab902d8406c7f67fff8edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 27/37] fix: SLSQP returns the value and the density matrix of
 its best sample

---
 PyQCodes/chan/_coherent.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 86e2ede..d8df4b9 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -87,16 +87,16 @@ def _use_multi_processes(samples, bounds, args, maxiter, eps, ftol, fobjective,
     pool = Pool(processes=pool_number)
     results = pool.map(obj_func, samples)
 
-    # Initialize parameters for finding maximas over the results.
-    maxima = -1e10
+    # Initialize parameters for finding the minima over the results.
+    minima = np.inf
     optimal_x_val = None
     success = False
     for r in results:
-        if -r["fun"] > maxima:
-            maxima = r["fun"]
+        if r["fun"] < minima:
+            minima = r["fun"]
             optimal_x_val = r["x"]
             success = r["success"]
-    return maxima, success, optimal_x_val
+    return minima, success, optimal_x_val
 
 
 def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjective, disp):
@@ -131,11 +131,13 @@ def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjectiv
         Returns the optimal solution found, whether it converges or not and the variables of the
         parameterization corresponding to the optimal solution.
     """
-    optimal_val = -1e10
+    optimal_val = np.inf
+    optimal_x_val = None
+    success = False
     for s in samples:
         optimize = _optimize_using_slsqp(s, bounds, args, maxiter, eps, ftol, fobjective, disp)
-        if optimize["fun"] > optimal_val:
-            optimal_val = optimize
+        if optimize["fun"] < optimal_val:
+            optimal_val = optimize["fun"]
             optimal_x_val = optimize["x"]
             success = optimize["success"]
     return optimal_val, success, optimal_x_val
-- 
2.43.0


From 75f47872263b76198ffb65fc5f3e26f359a988cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 28/37] fix: SLSQP accepts samples of the user without the
 lipschitz sampler

---
 PyQCodes/chan/_coherent.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index d8df4b9..777c43b 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -278,7 +278,6 @@ def optimize_procedure(channel, n, rank, optimizer="diffev", param="overparam",
                                                                           objective_func, disp)
 
     elif optimizer == "slsqp":
-        assert lipschitz != 0, "SLSQP parameter requires 'lipschitz' parameter to be nonzero."
         # Epsilon and ftol parameters for optimizer.
         eps, ftol = 1e-5, 1e-8
 
-- 
2.43.0


From c76f83d465dea18f641492eb981a4870026a930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 29/37] fix: accept a sub-class of ParameterizationABC as
 parameterization

---
 PyQCodes/chan/_coherent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 777c43b..792456b 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -62,9 +62,11 @@ def _choose_objective_func(objective):
 
 def _get_parameterization_scheme_density(param):
     r"""Get parameterization static class from the param string"""
-    if not (isinstance(param, str) or isinstance(param, ParameterizationABC)):
+    is_param = isinstance(param, ParameterizationABC) or \
+        (isinstance(param, type) and issubclass(param, ParameterizationABC))
+    if not (isinstance(param, str) or is_param):
         raise TypeError("Param should either be string or class ParameterizationABC.")
-    if isinstance(param, ParameterizationABC):
+    if is_param:
         return param
     if param == "overparam":
         paramet = OverParam
-- 
2.43.0


From feeeb6bc725719a6fe81eb9b9895072bd9126db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 30/37] fix: effective channel with stabilizers uses the
 options of the user

---
 PyQCodes/find_codes.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index c4ca605..aee6b11 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -114,11 +114,11 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
             Parameterization of density matrix, default is 'overparam'. Can also be 'cholesky.'
             Can also provide own's own parameterization by being a subclass of ParameterizationABC.
         'lipschitz': int
-            Integer of number of samplers to be used for lipschitz sampler. Default is 50
+            Integer of number of samplers to be used for lipschitz sampler. Default is 25.
         'use_pool' : int
             The number of pool proccesses to be used by the multiprocessor library. Default is 3.
         'maxiter' : int
-            Maximum number of iterations. Default is 500.
+            Maximum number of iterations. Default is 250.
         'samples' : list, optional
             List of vectors that satisfy the parameterization from "param", that are served as
             initial guesses for the optimization procedure. Optional, unless 'lipschitz' is zero.
@@ -150,7 +150,9 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
         raise TypeError("Number of Columns of Pauli error does not match 2**k.")
 
     # Parameters for optimization
-    # TODO: add coherent information parameters.
+    parameters = {"param": "overparam", "lipschitz": 25, "use_pool": 3, "maxiter": 250}
+    if options is not None:
+        parameters.update(options)
 
     # Set up the objects, stabilizer code, pauli-channel error, respectively.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
@@ -172,12 +174,9 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
 
     # Solve the objective function
     if optimize == "coherent":
-        result = total_chan.optimize_coherent(n=1, rank=2,
-                                              optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+        result = total_chan.optimize_coherent(n=1, rank=2, optimizer="slsqp", **parameters)
     else:
-        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", **parameters)
     return result
 
 
-- 
2.43.0


From cacb4f36167629dd034054eb4e52a2d800fd0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 31/37] fix: encoder and decoder optimization evaluates the
 parameters and maximizes the fidelity

---
 PyQCodes/find_codes.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index aee6b11..6e57fa0 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -324,13 +324,14 @@ class QDeviceChannel():
                                                                  "the number of parameters of " \
                                                                  "encoder and decoder."
 
-        def total_channel(eng, register, parameters):
-            encoder(eng, register, parameters[:nparams_encoder])
-            self.channel(eng, register)
-            decoder(eng, register, parameters[nparams_encoder:])
-
         def objective_func(parameters, eng, register):
-            return self._device.estimate_average_fidelity(total_channel, ntimes, epsilon)
+            def total_channel(eng, register):
+                encoder(eng, register, parameters[:nparams_encoder])
+                self.channel(eng, register)
+                decoder(eng, register, parameters[nparams_encoder:])
+
+            # The average fidelity is maximized and the optimizer minimizes.
+            return -self._device.estimate_average_fidelity(total_channel, ntimes, epsilon)
 
         if optimizer == "diffev":
             result = differential_evolution(objective_func, bounds=bounds, maxiter=maxiter,
@@ -339,5 +340,5 @@ class QDeviceChannel():
             raise ValueError("Does not recognize optimizer: " + str(optimizer))
 
         output = {"success" : result["success"], "params_encoder": result["x"][:nparams_encoder],
-                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": result["fun"]}
+                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": -result["fun"]}
         return output
-- 
2.43.0


From 5f1cb5cb948dbb9b51c0eff457e58dc38509e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 32/37] fix: channel of a choi matrix contracts the matrix,
 without qutip's particle dimensions

---
 PyQCodes/chan/_choi.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index 2807c8f..b0b16e4 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -26,7 +26,7 @@ THE SOFTWARE.
 """
 import numpy as np
 
-from qutip import Qobj, ptrace
+from qutip import Qobj
 
 
 __all__ = ["ChoiQutip"]
@@ -190,17 +190,12 @@ class ChoiQutip():
         ----------
         See John Watrous Notes of Choi-Matrix. Note that he uses row-based vectorization.
         """
+        # Definition is taken from John Watrous. The axes are the input and output of the row,
+        # then the input and output of the column, of the choi matrix.
+        choi = self.choi.reshape((self.input_dim, self.output_dim) * 2)
         if adjoint:
-            dims = (self.input_dim, self.output_dim)
-            return np.einsum("aibj,ji->ba", self.choi.reshape(dims + dims), rho)
-        # Definition is taken from John Watrous.
-        choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
-
-        # Keep the following dimensions when doing partial trace
-        keep = [i for i in range(self.num_in, self.num_in + self.num_out)]
-        # Flat list of the dimension of each particle.
-        dims = [self.dim_in] * self.num_in + [self.dim_out] * self.num_out
-        return ptrace(Qobj(choi_rho, dims=[dims, dims]), keep).data.todense()
+            return np.einsum("aibj,ji->ba", choi, rho)
+        return np.einsum("aibj,ab->ij", choi, rho)
 
     def complementary_channel(self, rho):
         r"""
-- 
2.43.0


From a2f2cb6f5c27c72d8ca7d687f2167867e4aa2ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 33/37] fix: square roots of density matrices that are
 np.matrix

---
 PyQCodes/chan/_choi.py   | 4 ++--
 PyQCodes/chan/channel.py | 2 +-
 PyQCodes/chan/param.py   | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index b0b16e4..c93e4de 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -220,8 +220,8 @@ class ChoiQutip():
         # Follows from Tong's Thesis, Bei's Student.
         # Rho is positive-semidefinite, so its square root comes from its eigen-decomposition.
         eigenvalues, eigenvectors = np.linalg.eigh(rho)
-        eigenvalues = np.sqrt(np.maximum(eigenvalues, 0.))
-        square_root = (eigenvectors * eigenvalues).dot(eigenvectors.conj().T)
+        eigenvalues = np.diag(np.sqrt(np.maximum(eigenvalues, 0.)))
+        square_root = eigenvectors.dot(eigenvalues).dot(eigenvectors.conj().T)
         tensored = np.kron(square_root.T, np.eye(self.output_dim))
         return tensored.dot(self.choi).dot(tensored)
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 6c3356a..09f9aa1 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -393,7 +393,7 @@ class AnalyticQChan():
         chan = self.channel(rho, n)
         # Square root from the eigen-decomposition, since rho is allowed to be singular.
         eigs, vecs = np.linalg.eigh(rho)
-        sqrt_rho = (vecs * np.sqrt(np.maximum(eigs, 0.))).dot(vecs.conj().T)
+        sqrt_rho = vecs.dot(np.diag(np.sqrt(np.maximum(eigs, 0.)))).dot(vecs.conj().T)
         eigs = np.linalg.eigvalsh(sqrt_rho.dot(chan).dot(sqrt_rho))
         return np.sum(np.sqrt(np.maximum(eigs, 0.)))
 
diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index 3b06537..73814ae 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -582,8 +582,9 @@ class CholeskyParam(ParameterizationABC):
         assert 1 <= rank <= nsize
         # Cholesky factor of size (nsize, rank), rho is singular if rank is less than nsize.
         eigs, evecs = np.linalg.eigh(rho)
-        factor = evecs[:, nsize - rank:] * np.sqrt(np.maximum(eigs[nsize - rank:], 0.))
-        cholesky_fac = np.conj(np.linalg.qr(np.conj(factor).T, mode="r")).T
+        factor = np.dot(evecs[:, nsize - rank:],
+                        np.diag(np.sqrt(np.maximum(eigs[nsize - rank:], 0.))))
+        cholesky_fac = np.conj(np.linalg.qr(np.conj(np.asarray(factor)).T, mode="r")).T
         # Make the diagonal elements real and positive.
         phases = np.exp(-1j * np.angle(np.diag(cholesky_fac)))
         cholesky_fac = cholesky_fac * phases
-- 
2.43.0


From 6fd60f377222f4aa16718176216592cd87e5b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 34/37] fix: choi matrix of complex kraus operators in the
 average entanglement fidelity

---
 PyQCodes/avgfid/avg_fidelity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index e58f104..08a4d35 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -213,7 +213,7 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
                           for k in krauss]) / input_dim**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / input_dim**2
+                            np.ravel(k.T, order="F")) for k in krauss]) / input_dim**2
         C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
-- 
2.43.0


From bacb65505931e5ecd80056558170440488fcd939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 35/37] fix: average entanglement fidelity of sparse kraus
 operators

---
 PyQCodes/avgfid/avg_fidelity.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index 08a4d35..6616e36 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -15,7 +15,7 @@ import numpy as np
 from PyQCodes.chan._choi import ChoiQutip
 from PyQCodes.chan.channel import AnalyticQChan
 from PyQCodes.codes import StabilizerCode
-from scipy.sparse import coo_matrix, issparse, isspmatrix_coo
+from scipy.sparse import coo_matrix, issparse
 
 # Semi-definite Solver
 import picos as pic
@@ -203,14 +203,9 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
     P.add_constraint(pic.partial_trace(X, *args) == 'I')
 
     # Get choi-matrix of the kraus operators on the identity matrix using column-vectorization.
-    print(type(krauss), issparse(krauss[0]), type(krauss[0]), isspmatrix_coo(krauss[0]))
     if issparse(krauss[0]):  # If kraus operators are already sparse.
-        print("The size is ", krauss[0].size)
-        print(krauss[0].shape)
-        print(type(krauss[0]))
-        C_e_sparse = sum([np.outer(k.conj().reshape((np.prod(k.shape), 1), order="F"),
-                                   k.conj().reshape((np.prod(k.shape), 1), order="F"))
-                          for k in krauss]) / input_dim**2
+        vecs = [k.conj().T.reshape((np.prod(k.shape), 1), order="F") for k in krauss]
+        C_e_sparse = sum([v.dot(v.conj().T) for v in vecs]) / input_dim**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
                             np.ravel(k.T, order="F")) for k in krauss]) / input_dim**2
-- 
2.43.0


From 22df45f7f644e5b5aa8c8f41d978f9ea72301d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 36/37] fix: decoder optimization is over channels from n to k
 qubits

---
 PyQCodes/avgfid/avg_fidelity.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index 6616e36..60c1068 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -96,7 +96,8 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     else:
         kraus_chan = [x.dot(encoder) for x in error_chan.nth_kraus_operators]
 
-    numb_qubits = [code_param[1], code_param[0]]
+    # The decoder takes n-qubits and sends out k-qubits.
+    numb_qubits = [code_param[0], code_param[1]]
     dim_in, dim_out = 2, 2
     result = _optimize_average_entang_fid(kraus_chan, numb_qubits, dim_in, dim_out, options=options)
     return result
@@ -190,6 +191,9 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
     input_dim = dim_in ** numb_qubits[0]  # Dimension of hilbert space of input.
     numb_rows_cols = input_dim * dim_out ** numb_qubits[1]  # Number of rows/cols of choi-matrix.
 
+    # Dimension of the logical hilbert space, where the ensemble lives.
+    logical_dim = input_dim if encoder else dim_out ** numb_qubits[1]
+
     # Optimize with respect to encoder or decoder.
     X = P.add_variable('X', (numb_rows_cols, numb_rows_cols), 'hermitian')
     # Obtain the constraints needed to partial trace the right dimensions.
@@ -205,10 +209,10 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
     # Get choi-matrix of the kraus operators on the identity matrix using column-vectorization.
     if issparse(krauss[0]):  # If kraus operators are already sparse.
         vecs = [k.conj().T.reshape((np.prod(k.shape), 1), order="F") for k in krauss]
-        C_e_sparse = sum([v.dot(v.conj().T) for v in vecs]) / input_dim**2
+        C_e_sparse = sum([v.dot(v.conj().T) for v in vecs]) / logical_dim**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(k.T, order="F")) for k in krauss]) / input_dim**2
+                            np.ravel(k.T, order="F")) for k in krauss]) / logical_dim**2
         C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
-- 
2.43.0


From e17b68b53590b08a834b856856f3be52fafed5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:45 +0000
Subject: [PATCH 37/37] fix: decoding circuit flushes the engine also when it
 measures the register

---
 PyQCodes/codes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index d189d4d..3c6da4b 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -643,6 +643,7 @@ class StabilizerCode():
                 All(Measure) | register[:self.n]
                 register_ancilla = register[self.n:]
                 del register[:self.n]
+            eng.flush()
             return register_ancilla
         if not add_ancilla_bits:
             return register
-- 
2.43.0

