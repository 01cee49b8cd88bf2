From 33e1804ad003f0b3b39d66ea97aafe6af3c28bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 01/67] fix: ColorCode.check_if_logical_error never reported a
 logical error

The comparison 'np.bool_ is True' is always False.
---
 src/mqt/qecc/codes/color_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 3f65069..8d94c97 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -63,4 +63,4 @@ class ColorCode(CSSCode):
 
     def check_if_logical_error(self, residual: npt.NDArray[np.int_]) -> bool:
         """Check if the residual is a logical error."""
-        return (self.L @ residual % 2).any() is True
+        return bool((self.L @ residual % 2).any())
-- 
2.43.0


From 8d988e7e8fe3dea6515021a6e36ff184935f1420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 02/67] fix: StabilizerCode.stabilizer_equivalent was not
 symmetric

The second operator was also accepted when it was a stabilizer or a product of stabilizers and the first
operator, e.g. a logical operator was reported equivalent to the identity. The sign of a generator made
physically equal errors inequivalent.
---
 src/mqt/qecc/codes/stabilizer_code.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 88832ea..ca2b650 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -99,9 +99,10 @@ class StabilizerCode:
 
     def stabilizer_equivalent(self, p1: Pauli, p2: Pauli) -> bool:
         """Check if two Pauli strings are equivalent up to stabilizers of the code."""
-        v1 = pauli_to_binary(p1)
-        v2 = pauli_to_binary(p2)
-        return bool(mod2.rank(np.vstack((self.generators, v1, v2))) == mod2.rank(np.vstack((self.generators, v1))))
+        v1 = pauli_to_symplectic_vec(p1)
+        v2 = pauli_to_symplectic_vec(p2)
+        product = (v1 + v2) % 2
+        return bool(mod2.rank(np.vstack((self.symplectic_matrix, product))) == mod2.rank(self.symplectic_matrix))
 
     @staticmethod
     def _check_stabilizer_generators(generators: npt.NDArray[np.int8] | list[str]) -> None:
-- 
2.43.0


From 809d876c4f52e15b603350102fff655fa09bf4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 03/67] fix: accept generators where only some Pauli strings
 carry a sign

The sign was counted as a qubit, so the output of stabs_as_pauli_strings for a code with a negative
generator could not be used to construct the code again.
---
 src/mqt/qecc/codes/stabilizer_code.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index ca2b650..6581735 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -110,7 +110,7 @@ class StabilizerCode:
         if len(generators) == 0:
             msg = "Stabilizer code must have at least one generator."
             raise InvalidStabilizerCodeError(msg)
-        if not all(len(generators[0]) == len(g) for g in generators):
+        if not all(_n_symbols(generators[0]) == _n_symbols(g) for g in generators):
             msg = "All stabilizer generators must have the same length."
             raise InvalidStabilizerCodeError(msg)
 
@@ -201,6 +201,11 @@ def is_pauli_string(p: str) -> bool:
     return len(p) > 0 and all(c in {"I", "X", "Y", "Z"} for c in p[1:]) and p[0] in {"+", "-", "I", "X", "Y", "Z"}
 
 
+def _n_symbols(p: Pauli) -> int:
+    """Get the number of entries of a Pauli without the sign of a Pauli string."""
+    return len(p) - 1 if isinstance(p, str) and p.startswith(("+", "-")) else len(p)
+
+
 def get_n_qubits_from_pauli(p: Pauli) -> int:
     """Get the number of qubits from a Pauli string."""
     if isinstance(p, np.ndarray):
-- 
2.43.0


From 2180cc61d4000d4f110edc5ca873d7cdf2a72ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 04/67] fix: check the pairing of logical operators in both
 directions

Only one direction was checked, so two logical Z-operators could pair with the same logical X-operator and
a logical X-operator without a partner was accepted.
---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 6581735..05c7f52 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -158,7 +158,7 @@ class StabilizerCode:
             raise InvalidStabilizerCodeError(msg)
 
         commutations = symplectic_matrix_product(self.Lz_symplectic, self.Lx_symplectic)
-        if not np.all(np.sum(commutations, axis=1) == 1):
+        if not np.all(np.sum(commutations, axis=1) == 1) or not np.all(np.sum(commutations, axis=0) == 1):
             msg = "Every logical X-operator must anti-commute with exactly one logical Z-operator."
             raise InvalidStabilizerCodeError(msg)
 
-- 
2.43.0


From f16a1cdcc95a56ba3130a7d2e89d7f4c23934115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 05/67] fix: reject anticommuting generators and count logical
 qubits independently of signs

Generators that do not commute were accepted. The sign column took part in the rank, so XX, ZZ, -YY was a
code with -1 logical qubits.
---
 src/mqt/qecc/codes/stabilizer_code.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 05c7f52..9f99a09 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -48,7 +48,7 @@ class StabilizerCode:
         self.generators = paulis_to_binary(generators)
         self.symplectic_matrix = self.generators[:, :-1]  # discard the phase
         self.phases = self.generators[:, -1]
-        self.k = self.n - mod2.rank(self.generators)
+        self.k = self.n - mod2.rank(self.symplectic_matrix)
 
         if distance is not None and distance <= 0:
             msg = "Distance must be a positive integer."
@@ -123,6 +123,10 @@ class StabilizerCode:
 
     def _check_code_correct(self) -> None:
         """Check if the code is correct. Throws an exception if not."""
+        if not all_commute(self.symplectic_matrix, self.symplectic_matrix):
+            msg = "The stabilizer generators must commute."
+            raise InvalidStabilizerCodeError(msg)
+
         if self.Lz is not None or self.Lx is not None:
             if self.Lz is None:
                 msg = "If logical X-operators are given, logical Z-operators must also be given."
-- 
2.43.0


From 10668906796a4fcb9aad713753c815bd11ba19d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 06/67] fix: make code equality and hashes depend only on the
 stabilizer group

Equal codes given by different generators had different hashes, and equality treated signs as if generators
multiplied without phases: XX, ZZ and XX, -YY generate the same group but were unequal, XX, YY was equal to
XX, ZZ.
---
 src/mqt/qecc/codes/color_code.py      |  2 +-
 src/mqt/qecc/codes/stabilizer_code.py | 33 +++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 8d94c97..6e7cbbb 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -39,7 +39,7 @@ class ColorCode(CSSCode):
 
     def __hash__(self) -> int:
         """Compute a hash for the color code."""
-        return hash(self.H.tobytes())
+        return super().__hash__()
 
     def __eq__(self, other: object) -> bool:
         """Check if two color codes are equal."""
diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 9f99a09..cbb3f15 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -74,16 +74,28 @@ class StabilizerCode:
 
     def __hash__(self) -> int:
         """Compute a hash for the stabilizer code."""
-        return hash(int.from_bytes(self.generators.tobytes(), sys.byteorder))
+        return hash(int.from_bytes(self._canonical_generators().tobytes(), sys.byteorder))
 
     def __eq__(self, other: object) -> bool:
         """Check if two stabilizer codes are equal."""
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        rnk = mod2.rank(self.generators)
-        return bool(
-            rnk == mod2.rank(other.generators) and rnk == mod2.rank(np.vstack((self.generators, other.generators)))
-        )
+        return bool(np.array_equal(self._canonical_generators(), other._canonical_generators()))
+
+    def _canonical_generators(self) -> npt.NDArray[np.int8]:
+        """Compute the unique reduced row echelon form of the signed generators."""
+        rows = np.array(self.generators, dtype=np.int8)
+        rank = 0
+        for col in range(2 * self.n):
+            pivots = np.flatnonzero(rows[rank:, col])
+            if len(pivots) == 0:
+                continue
+            rows[[rank, rank + pivots[0]]] = rows[[rank + pivots[0], rank]]
+            for i in np.flatnonzero(rows[:, col]):
+                if i != rank:
+                    rows[i] = multiply_paulis(rows[i], rows[rank])
+            rank += 1
+        return rows[:rank]
 
     def get_syndrome(self, error: Pauli) -> npt.NDArray:
         """Compute the syndrome of the error.
@@ -240,6 +252,17 @@ def symplectic_inner_product(p1: npt.NDArray[np.int8], p2: npt.NDArray[np.int8])
     return int((p1[:n] @ p2[n:] + p1[n:] @ p2[:n]) % 2)
 
 
+def multiply_paulis(p1: npt.NDArray[np.int8], p2: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
+    """Multiply two commuting Paulis in binary representation."""
+    n = p1.shape[0] // 2
+    x1, z1, x2, z2 = p1[:n], p1[n:-1], p2[:n], p2[n:-1]
+    x, z = (x1 + x2) % 2, (z1 + z2) % 2
+    # a Y-operator is i * X * Z, moving Z past X gives a sign
+    power_of_i = int(x1 @ z1) + int(x2 @ z2) + 2 * int(z1 @ x2) - int(x @ z)
+    sign = (int(p1[-1]) + int(p2[-1]) + power_of_i // 2) % 2
+    return np.hstack((x, z, np.array([sign], dtype=np.int8)))
+
+
 def symplectic_matrix_product(m1: npt.NDArray[np.int8], m2: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
     """Compute the symplectic matrix product of two symplectic matrices."""
     n = m1.shape[1] // 2
-- 
2.43.0


From 788851738a6507805ff7326f3000513e6c2f6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 07/67] fix: share lookup tables of LutDecoder only between
 identical check matrices

---
 src/mqt/qecc/ft_stateprep/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 6759632..d1fb94b 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -376,7 +376,7 @@ class LutDecoder:
 
         assert self.code.Hz is not None, "The code does not have a Z stabilizer matrix."
         self.x_lut = LutDecoder._generate_lut(self.code.Hz)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.z_lut = self.x_lut
 
     def generate_z_lut(self) -> None:
@@ -386,8 +386,8 @@ class LutDecoder:
 
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
-        if self.code.is_self_dual():
-            self.z_lut = self.x_lut
+        if np.array_equal(self.code.Hx, self.code.Hz):
+            self.x_lut = self.z_lut
 
     @staticmethod
     def _generate_lut(checks: npt.NDArray[np.int_]) -> dict[bytes, npt.NDArray[np.int_]]:
-- 
2.43.0


From b3277c59da91aa6b7c51df14ca2d2e89b02deeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 08/67] fix: CSSCode.is_self_dual compares the generated
 spaces, not the number of rows

---
 src/mqt/qecc/codes/css_code.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 5373ba0..df18c2c 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -138,9 +138,7 @@ class CSSCode(StabilizerCode):
         """Check if the code is self-dual."""
         if self.Hx is None or self.Hz is None:
             return False
-        return bool(
-            self.Hx.shape[0] == self.Hz.shape[0] and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))
-        )
+        return bool(mod2.rank(self.Hx) == mod2.rank(self.Hz) == mod2.rank(np.vstack([self.Hx, self.Hz])))
 
     @staticmethod
     def _check_valid_check_matrices(Hx: npt.NDArray[np.int8] | None, Hz: npt.NDArray[np.int8] | None) -> None:  # noqa: N803
-- 
2.43.0


From 69c64285dbde6be44fc2cf31273f946196629b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 09/67] fix: bivariate bicycle codes with n = 90, 108, 144 were
 built with swapped cyclic orders

---
 src/mqt/qecc/codes/bb_codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/bb_codes.py b/src/mqt/qecc/codes/bb_codes.py
index 049bcdf..09279ea 100644
--- a/src/mqt/qecc/codes/bb_codes.py
+++ b/src/mqt/qecc/codes/bb_codes.py
@@ -67,7 +67,7 @@ def _cyclic_matrix_sum(x_terms: list[int], y_terms: list[int], l_: int, m: int)
 
 
 def _cyclic_code_check_matrix(
-    m: int, l_: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
+    l_: int, m: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
 ) -> tuple[npt.NDArray[np.int8], npt.NDArray[np.int8]]:
     a = _cyclic_matrix_sum(a_terms[0], a_terms[1], l_, m) % 2
     b = _cyclic_matrix_sum(b_terms[0], b_terms[1], l_, m) % 2
-- 
2.43.0


From 6e356f3b5edfd374cbc754cf91dc03490c4d1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 10/67] fix: propagate faults through the gate they occur
 before when computing fault sets

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dd1c80e..df8527f 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1185,7 +1185,7 @@ def _propagate_error(nodes: list[DAGNode], n_qubits: int, x_errors: bool = True)
     error: npt.NDArray[np.int8] = np.array([0] * n_qubits, dtype=np.int8)
     error[control] = 1
     # propagate error through circuit via bfs
-    for node in nodes[1:]:
+    for node in nodes:
         control = node.qargs[0]._index  # noqa: SLF001
         target = node.qargs[1]._index  # noqa: SLF001
         if x_errors:
-- 
2.43.0


From 8ca08fd5d3651d88d2645c4fef14ba1da0411735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 11/67] fix: _hook_errors returned single-qubit deletions
 instead of the hook errors

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index df8527f..50c9277 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1608,5 +1608,4 @@ def _hook_errors(stabs: list[npt.NDArray[np.int8]]) -> npt.NDArray[np.int8]:
             if stab[i] == 1:
                 error[i] = 0
                 errors.append(error.copy())
-                error[i] = 1
     return np.array(errors)
-- 
2.43.0


From a0a993d8e94edfff9d042433d45f40511275e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 12/67] fix: heuristic state preparation permuted the columns
 of the check matrix at a local minimum

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 50c9277..91cc433 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -229,7 +229,7 @@ def heuristic_prep_circuit(code: CSSCode, optimize_depth: bool = True, zero_stat
         if np.all(costs_unused >= 0) or len(used_qubits) == checks.shape[1]:  # no more reductions possible
             if not used_qubits:  # local minimum => get out by making matrix triangular
                 logging.warning("Local minimum reached. Making matrix triangular.")
-                checks = mod2.reduced_row_echelon(checks)[0]
+                checks = mod2.row_echelon(checks, full=True)[0]
                 costs = np.array([
                     [np.sum((checks[:, i] + checks[:, j]) % 2) for j in range(checks.shape[1])]
                     for i in range(checks.shape[1])
-- 
2.43.0


From 0a38d2ddb61c7b0531d1b34d56aee02afc90ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 13/67] fix: optimal state preparation needs independent checks

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 91cc433..56d7695 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -401,7 +401,7 @@ def _optimal_circuit(
     if code.Hx is None or code.Hz is None:
         msg = "Code must have both X and Z stabilizers defined."
         raise ValueError(msg)
-    checks = code.Hx if zero_state else code.Hz
+    checks = mod2.row_basis(code.Hx if zero_state else code.Hz)  # the encodings assume independent checks
 
     def fun(param: int) -> QuantumCircuit | None:
         return prep_func(checks, param, zero_state)
-- 
2.43.0


From 54ca38faf204b5952c845e2d8435349eda7dc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 14/67] fix: optimal state preparation crashed when one gate or
 layer is enough

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 56d7695..f1a3964 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -424,7 +424,7 @@ def _optimal_circuit(
     # Solving a SAT instance is much faster than proving unsat in this case
     # so we iterate backwards until we find an unsat instance or hit a timeout
     logging.info("Trying to minimize param")
-    while True:
+    while curr_param > 1:
         logging.info(f"Trying param {curr_param - 1}")
         opt_res = _run_with_timeout(fun, curr_param - 1, timeout=max_timeout)
         if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):
-- 
2.43.0


From cda9cac1451b7345dc454aeaf03d7cb6f2f176a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 15/67] fix: 2-flagged measurements of weight 7, 9 and more
 indexed the flags wrongly

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index f1a3964..cc30260 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1425,17 +1425,15 @@ def measure_stab_two_flagged(
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
 
     cnots = 2
-    flags = 2
     for q in stab[2:-2]:
         _ancilla_cnot(qc, q, ancilla, z_measurement)
         cnots += 1
         if cnots % 2 == 0 and cnots < len(stab) - 2:
-            _flag_init(qc, flag_reg[flags], z_measurement)
-            _ancilla_cnot(qc, flag_reg[flags], ancilla, z_measurement)
+            _flag_init(qc, flag_reg[cnots // 2], z_measurement)
+            _ancilla_cnot(qc, flag_reg[cnots // 2], ancilla, z_measurement)
         if cnots >= 7 and cnots % 2 == 1:
-            _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-            _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
-        flags += 1
+            _ancilla_cnot(qc, flag_reg[cnots // 2 - 1], ancilla, z_measurement)
+            _flag_measure(qc, flag_reg[cnots // 2 - 1], meas_reg[cnots // 2 - 1], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[0], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[0], meas_reg[0], z_measurement)
@@ -1444,8 +1442,8 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        _ancilla_cnot(qc, flag_reg[cnots // 2 - 1], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[cnots // 2 - 1], meas_reg[cnots // 2 - 1], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[1], meas_reg[1], z_measurement)
@@ -1454,8 +1452,8 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        _ancilla_cnot(qc, flag_reg[cnots // 2 - 1], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[cnots // 2 - 1], meas_reg[cnots // 2 - 1], z_measurement)
     if not z_measurement:
         qc.h(ancilla)
 
-- 
2.43.0


From 46cc137c30f58458a6ca6bb3e5ef0c0f93c54250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 16/67] fix: weight-3 measurements with two flags hit an
 assertion

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index cc30260..f650d89 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1333,7 +1333,7 @@ def measure_flagged(
         z_measurement: Whether to measure an X (False) or Z (True) stabilizer.
     """
     w = len(stab)
-    if t == 1:
+    if t == 1 or (w == 3 and t == 2):
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-- 
2.43.0


From 83d642355a5b2b2703855841be5be6f6e4a251a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 17/67] fix: flagged measurement of a single qubit measured it
 twice

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index f650d89..dae84f0 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1333,12 +1333,12 @@ def measure_flagged(
         z_measurement: Whether to measure an X (False) or Z (True) stabilizer.
     """
     w = len(stab)
-    if t == 1 or (w == 3 and t == 2):
-        _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
+    if w == 1 or (w == 2 and t == 2):
+        _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-    if w < 3 and t == 2:
-        _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
+    if t == 1 or (w == 3 and t == 2):
+        _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
     if w == 4 and t == 2:
-- 
2.43.0


From 5f81315060a02a9b1c81178cb666602a31cb9e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 18/67] fix: fault sets skipped CNOTs in the first layer of the
 circuit

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dae84f0..218f557 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -93,7 +93,8 @@ class StatePrepCircuit:
             logging.info("Computing fault set for 1 error.")
             dag = circuit_to_dag(self.circ)
             for node in dag.front_layer():  # remove hadamards
-                dag.remove_op_node(node)
+                if node.op.name == "h":
+                    dag.remove_op_node(node)
             fault_list = []
             # propagate every error before a control
             nodes = list(dag.topological_op_nodes())
-- 
2.43.0


From 21f66ebfcf89ef656466d593a6ea6a617612cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 19/67] fix: lookup decoding of wider integer syndromes raised
 KeyError

---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index d1fb94b..78ed62c 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -361,13 +361,13 @@ class LutDecoder:
         """Decode the X errors given a syndrome."""
         if len(self.x_lut) == 0:
             self.generate_x_lut()
-        return self.x_lut[syndrome.tobytes()]
+        return self.x_lut[syndrome.astype(np.int8).tobytes()]
 
     def decode_z(self, syndrome: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
         """Decode the Z errors given a syndrome."""
         if len(self.z_lut) == 0:
             self.generate_z_lut()
-        return self.z_lut[syndrome.tobytes()]
+        return self.z_lut[syndrome.astype(np.int8).tobytes()]
 
     def generate_x_lut(self) -> None:
         """Generate the lookup table for the X errors."""
-- 
2.43.0


From f387106bc0f0ff0526b8da4e0aedbda75a2dcb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 20/67] fix: noisy simulation dropped Hadamards, ignored
 unknown operations and miscounted reused qubits

---
 src/mqt/qecc/ft_stateprep/simulation.py | 61 ++++++++++++++++---------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 78ed62c..1ee04b2 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -77,13 +77,8 @@ class NoisyNDFTStatePrepSimulator:
         self.data_measurements = []
         self.n_measurements = 0
         self.p = p
-        self._reused_qubits = 0
         self.stim_circ = self.to_stim_circ()
-        self.num_qubits = (
-            self.stim_circ.num_qubits
-            - (len(self.x_verification_measurements) + len(self.z_verification_measurements))
-            + self._reused_qubits
-        )
+        self.num_qubits = self.code.n
         self.measure_stabilizers()
         if self.zero_state:
             self.measure_z()
@@ -100,8 +95,8 @@ class NoisyNDFTStatePrepSimulator:
         - Qubit are initialized in the -1 Eigenstate with probability 2/3 p.
         """
         initialized = [False for _ in self.circ.qubits]
+        plus = [False for _ in self.circ.qubits]  # qubits that start in the |+> state
         stim_circuit = stim.Circuit()
-        ctrls = []
 
         def idle_error(used_qubits: list[int]) -> None:
             for q in self.circ.qubits:
@@ -109,6 +104,17 @@ class NoisyNDFTStatePrepSimulator:
                 if initialized[qubit] and qubit not in used_qubits:
                     stim_circuit.append_operation("DEPOLARIZE1", [self.circ.find_bit(q)[0]], [2 * self.p / 3])
 
+        def initialize(qubit: int) -> None:
+            if initialized[qubit]:
+                return
+            if plus[qubit]:
+                stim_circuit.append_operation("H", [qubit])
+                stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            else:
+                stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            plus[qubit] = False
+            initialized[qubit] = True
+
         dag = circuit_to_dag(self.circ)
         layers = dag.layers()
         used_qubits: list[int] = []
@@ -125,8 +131,9 @@ class NoisyNDFTStatePrepSimulator:
             for gate in layer_circ.data:
                 if gate.operation.name == "h":
                     qubit = self.circ.find_bit(gate.qubits[0])[0]
-                    ctrls.append(qubit)
-                    if initialized[qubit]:
+                    if not initialized[qubit]:
+                        plus[qubit] = not plus[qubit]
+                    else:
                         stim_circuit.append_operation("H", [qubit])
                         stim_circuit.append_operation("DEPOLARIZE1", [qubit], [2 * self.p / 3])
                         if not self.parallel_gates:
@@ -138,16 +145,8 @@ class NoisyNDFTStatePrepSimulator:
                     ctrl = self.circ.find_bit(gate.qubits[0])[0]
                     target = self.circ.find_bit(gate.qubits[1])[0]
                     targets.add(target)
-                    if not initialized[ctrl]:
-                        if ctrl in ctrls:
-                            stim_circuit.append_operation("H", [ctrl])
-                            stim_circuit.append_operation("Z_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        else:
-                            stim_circuit.append_operation("X_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        initialized[ctrl] = True
-                    if not initialized[target]:
-                        stim_circuit.append_operation("X_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
-                        initialized[target] = True
+                    initialize(ctrl)
+                    initialize(target)
 
                     stim_circuit.append_operation("CX", [ctrl, target])
                     stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])
@@ -158,6 +157,7 @@ class NoisyNDFTStatePrepSimulator:
 
                 elif gate.operation.name == "measure":
                     anc = self.circ.find_bit(gate.qubits[0])[0]
+                    initialize(anc)
                     stim_circuit.append_operation("X_ERROR", [anc], [2 * self.p / 3])
                     stim_circuit.append_operation("MR", [anc])
                     if anc in targets:
@@ -171,8 +171,27 @@ class NoisyNDFTStatePrepSimulator:
                         used_qubits.append(anc)
                     initialized[anc] = False
                     measured[anc] += 1
-                    if measured[anc] == 2:
-                        self._reused_qubits += 1
+
+                elif gate.operation.name == "reset":
+                    qubit = self.circ.find_bit(gate.qubits[0])[0]
+                    plus[qubit] = False
+                    if initialized[qubit]:
+                        stim_circuit.append_operation("R", [qubit])
+                        initialized[qubit] = False
+                        if not self.parallel_gates:
+                            idle_error([qubit])
+                        else:
+                            used_qubits.append(qubit)
+
+                elif gate.operation.name != "barrier":
+                    msg = f"Cannot simulate operation {gate.operation.name}."
+                    raise NotImplementedError(msg)
+
+        # Qubits that are not part of any CNOT or measurement still have to be prepared.
+        for q in self.circ.qubits:
+            qubit = self.circ.find_bit(q)[0]
+            if not measured[qubit]:
+                initialize(qubit)
 
         return stim_circuit
 
-- 
2.43.0


From 1ee87ecfbada2fa60941d6d02b98ae4f8ef175bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 21/67] fix: logical_error_rate reported one batch too many

---
 src/mqt/qecc/ft_stateprep/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 1ee04b2..ed1d5fc 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -260,8 +260,9 @@ class NoisyNDFTStatePrepSimulator:
         else:
             self.decoder.generate_z_lut()
 
-        i = 1
-        while i <= int(np.ceil(shots / batch)) or at_least_min_errors:
+        i = 0
+        while i < int(np.ceil(shots / batch)) or at_least_min_errors:
+            i += 1
             num_logical_errors_batch, discarded_batch = self._simulate_batch(batch)
 
             logging.log(
@@ -279,7 +280,6 @@ class NoisyNDFTStatePrepSimulator:
 
             if at_least_min_errors and num_logical_errors >= min_errors:
                 break
-            i += 1
 
         return p_l / self.code.k, r_a, num_logical_errors, i * batch
 
-- 
2.43.0


From 980fdc8784ea35a0ee0c957ebd0182ffe03ebc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 22/67] fix: multi-round decoding must not add the time
 correction to the propagated syndrome

The syndrome columns are not differences: after the data correction is propagated, a measurement error of the last committed round does not affect the next window. Adding its correction flips the first syndrome of the next window instead.
---
 .../simulators/memory_experiment_v2.py               | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index b4ea3de..c957913 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -131,15 +131,8 @@ def decode_multiround(
 
     # extract space correction, first repetitions * n entire
     space_correction = decoded[: pcm.shape[1] * repetitions].reshape((repetitions, pcm.shape[1])).T
-    # extract time correction
 
     if last_round is False:
-        # this corresponds to the decoding on the second block of the H3D matrix
-        time_correction = decoded[pcm.shape[1] * repetitions :].reshape((repetitions, pcm.shape[0])).T
-
-        # append time correction with zeros
-        time_correction = np.hstack((time_correction, np.zeros((pcm.shape[0], 1), dtype=np.int32)))
-
         # correct only in the commit region
         decoded = (np.cumsum(space_correction, 1) % 2)[:, region_size - 1]
 
@@ -149,11 +142,6 @@ def decode_multiround(
         # propagate the syndrome correction through the tentative region
         syndrome[:, region_size:] = ((syndrome[:, region_size:] + corr_syndrome[:, None]) % 2).astype(np.int32)
 
-        # apply the time correction of round region_size - 1 to the syndrome at the beginning of the tentative region
-        syndrome[:, region_size] = ((syndrome[:, region_size] + time_correction[:, region_size - 1]) % 2).astype(
-            np.int32
-        )
-
     else:
         # correct in the commit and tentative region as the last round stabilizer is perfect
         decoded = (np.cumsum(space_correction, 1) % 2)[:, -1]
-- 
2.43.0


From f57baf8765524c950ccef0ded0c907dfeba52d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 23/67] fix: multi-round decoding uses the noisy channel again
 after a perfect round

---
 .../simulators/memory_experiment_v2.py                        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index c957913..285181a 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -124,6 +124,10 @@ def decode_multiround(
 
         decoder = get_updated_decoder(decoding_method, decoder, new_channel, h3d)
 
+    elif decoding_method == "bposd":
+        # the decoder object is reused, undo the channel update of an earlier perfect round
+        decoder = get_updated_decoder(decoding_method, decoder, channel_probs, h3d)
+
     decoded = decoder.decode(diff_syndrome.flatten("F"))
 
     if decoding_method == "bposd":
-- 
2.43.0


From 41c9ca892bd243f6b45500011f7483aa2ad48c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 24/67] fix: quasi single shot simulation without analog
 information

---
 .../simulators/quasi_single_shot_v2.py                      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 78183ba..750aba7 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -150,6 +150,7 @@ class QssSimulator:
         channel_probs[self.check_block_size :] = np.array(self.syndr_err_channel.tolist() * (self.repetitions))
 
         # If we do ATG decoding, initialize sigma (syndrome noise strength)
+        self.sigma = 0.0
         if self.analog_tg:
             self.sigma = get_sigma_from_syndr_er(
                 self.syndr_err_channel[0]  # x/z + y
@@ -173,7 +174,7 @@ class QssSimulator:
     def _decode_multiround(
         self,
         syndrome_mat: NDArray[np.int_],
-        analog_syndr_mat: NDArray[np.float64],
+        analog_syndr_mat: NDArray[np.float64] | None,
         last_round: bool = False,
     ) -> tuple[Any, NDArray[np.int32], NDArray[np.float64], int]:
         return decode_multiround(
@@ -195,8 +196,9 @@ class QssSimulator:
         # each column == measurement result of a single timestep
         syndrome_mat: NDArray[np.int32] = np.zeros((self.num_checks, self.repetitions), dtype=np.int32)
 
+        analog_syndr_mat: NDArray[np.float64] | None = None
         if self.analog_tg:
-            analog_syndr_mat: NDArray[np.float64] = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
+            analog_syndr_mat = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
 
         err: NDArray[np.int32] = np.zeros(self.num_qubits, dtype=np.int32)
         cnt = 0  # counter for syndrome_mat
-- 
2.43.0


From b878b49386497a06c897b00516286de5917d185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 25/67] fix: single shot simulator opens its result file for
 writing

---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 3365460..709ba3d 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -700,7 +700,7 @@ class SingleShotSimulator:
         output.update(self.input_values)
         output["bias"] = replace_inf(output["bias"])  # type: ignore[assignment, arg-type]
 
-        with Path(self.outfile).open(encoding=locale.getpreferredencoding(False)) as f:
+        with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             f.write(
                 json.dumps(
                     output,
-- 
2.43.0


From 5358c32dcfaf4bf77f34a126b4df0457e2f2303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 26/67] fix: single shot simulator judged the estimate instead
 of the residual when no logicals are given

---
 .../analog_information_decoding/simulators/simulation.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 709ba3d..5f01211 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -218,14 +218,14 @@ class SingleShotSimulator:
         z_residual_err = residual_err[1]
 
         # check for logical errors
-        # check if residual X-error commutes with Z-logical and vice versa
-        # equivalently, check if residual X-error is in rowspace of Hz and vice versa
+        # check if residual X-error commutes with Z-logicals and vice versa
+        # equivalently, check if the (syndrome-free) residual X-error is in the rowspace of Hx and vice versa
         if self._check_logicals:
             is_x_logical_error = is_logical_err(self.lz, x_residual_err)
             is_z_logical_error = is_logical_err(self.lx, z_residual_err)
         else:
-            is_x_logical_error = check_logical_err_h(self.Hz, x_err, x_residual_err)
-            is_z_logical_error = check_logical_err_h(self.Hx, z_err, z_residual_err)
+            is_x_logical_error = check_logical_err_h(self.Hx, x_err, x_decoded)
+            is_z_logical_error = check_logical_err_h(self.Hz, z_err, z_decoded)
 
         return is_x_logical_error, is_z_logical_error
 
-- 
2.43.0


From c7e1ec35a1ad7f3391a76d27aaa6afd0b26bfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 27/67] fix: single stage decoding without analog information

---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 5f01211..3fe22a1 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -132,6 +132,8 @@ class SingleShotSimulator:
         self.z_syndr_error_channel = full_z_syndr_err_chnl[2] + full_z_syndr_err_chnl[1]  # z+y
 
         # if we want to decode with analog syndrome noise and an analog decoder
+        self.sigma_x = 0.0
+        self.sigma_z = 0.0
         if self.analog_info or self.analog_tg:
             self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
             self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
-- 
2.43.0


From b2c0bdc166474626b3a7ab05b1cc7b2248239481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 28/67] fix: two stage analog decoding used the channel of the
 other error type

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 3fe22a1..494d794 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -426,14 +426,14 @@ class SingleShotSimulator:
                 decoder=self.x_abpd,
                 hard_syndrome=x_syndrome_repaired,
                 analog_syndrome=x_syndrome_w_err,
-                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_x,
             )
             z_decoded = self._analog_tg_decoding(
                 decoder=self.z_abpd,
                 hard_syndrome=z_syndrome_repaired,
                 analog_syndrome=z_syndrome_w_err,
-                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_z,
             )
         else:
-- 
2.43.0


From 46766a7b77c02281ad69074d873b31b49af96386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 29/67] fix: two stage decoding without meta checks thresholds
 the analog syndrome

---
 .../simulators/simulation.py                      | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 494d794..b953dae 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -410,7 +410,7 @@ class SingleShotSimulator:
                 m_bp=self.mz_bp,
             )
         else:
-            z_syndrome_repaired = np.copy(z_syndrome_w_err).astype(np.int32)
+            z_syndrome_repaired = self._hard_syndrome(z_syndrome_w_err)
 
         if self.z_meta and self.Mz is not None:
             x_syndrome_repaired = self._meta_code_decoding(
@@ -419,7 +419,7 @@ class SingleShotSimulator:
                 m_bp=self.mx_bp,
             )
         else:
-            x_syndrome_repaired = np.copy(x_syndrome_w_err).astype(np.int32)
+            x_syndrome_repaired = self._hard_syndrome(x_syndrome_w_err)
 
         if self.analog_tg:  # decode with analog tg method - update channel probs to init analog nodes
             x_decoded = self._analog_tg_decoding(
@@ -442,6 +442,12 @@ class SingleShotSimulator:
 
         return x_decoded, z_decoded
 
+    def _hard_syndrome(self, syndrome_w_err: NDArray[np.float64]) -> NDArray[np.int32]:
+        """Returns the binary syndrome, thresholding it if it is analog."""
+        if self.analog_info or self.analog_tg:
+            return get_binary_from_analog(syndrome_w_err)
+        return np.copy(syndrome_w_err).astype(np.int32)
+
     def _meta_code_decoding(
         self,
         syndrome_w_err: NDArray[np.float64],
@@ -454,10 +460,7 @@ class SingleShotSimulator:
         the meta code. The binary syndrome is repaired according to the meta code and a binary,
         repaired syndrome is returned.
         """
-        if self.analog_info or self.analog_tg:
-            syndrome_w_err_binary = get_binary_from_analog(syndrome_w_err)
-        else:
-            syndrome_w_err_binary = np.copy(syndrome_w_err)
+        syndrome_w_err_binary = self._hard_syndrome(syndrome_w_err)
 
         meta_syndrome = (meta_pcm @ syndrome_w_err_binary) % 2
         meta_decoded = m_bp.decode(meta_syndrome)
-- 
2.43.0


From e135d63277fd3b9eb215c427d50d8bb8f7272f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 30/67] fix: analog single shot decoding without syndrome
 errors misread the binary syndrome as analog

---
 .../simulators/simulation.py                    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index b953dae..20fa52d 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -234,15 +234,14 @@ class SingleShotSimulator:
     def _get_noisy_syndrome(
         self, x_syndrome: NDArray[np.int32], z_syndrome: NDArray[np.int32]
     ) -> tuple[NDArray[Any], NDArray[Any]]:
-        if self.syndr_err_rate != 0.0:
-            if self.analog_info or self.analog_tg:  # analog syndrome error with converted sigma
-                x_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=x_syndrome, sigma=self.sigma_x)
-                z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)
-            else:  # usual pauli error channel syndrome error
-                x_syndrome_err = generate_syndr_err(channel_probs=self.x_syndr_error_channel)
-                x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
-                z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
-                z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
+        if self.analog_info or self.analog_tg:  # analog syndrome error with converted sigma
+            x_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=x_syndrome, sigma=self.sigma_x)
+            z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)
+        elif self.syndr_err_rate != 0.0:  # usual pauli error channel syndrome error
+            x_syndrome_err = generate_syndr_err(channel_probs=self.x_syndr_error_channel)
+            x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
+            z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
+            z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
         else:
             x_syndrome_w_err = np.copy(x_syndrome)
             z_syndrome_w_err = np.copy(z_syndrome)
-- 
2.43.0


From 2b753d37fa31204d7b7d5748c8b780eb0296c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 31/67] fix: analog Tanner graph simulator could not save its
 results

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index a85807f..315bde0 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -15,6 +15,7 @@ from ..utils.data_utils import (
     BpParams,
     calculate_error_rates,
     is_converged,
+    replace_inf,
 )
 
 if TYPE_CHECKING:
@@ -305,6 +306,7 @@ class AtdSimulator:
         }
 
         output.update(self.input_values)
+        output["bias"] = replace_inf(output["bias"])
         with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             json.dump(output, f, ensure_ascii=False, indent=4, default=lambda o: o.__dict__)
         return output
-- 
2.43.0


From 227127b7a55db594f07882662c92701255a8cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 32/67] fix: merging result files given by a relative path
 found no files

---
 .../utils/data_utils.py                       | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index edfde22..8363d91 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -365,15 +365,13 @@ def merge_json_files(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
-        for filename in folder_path.iterdir():
-            if filename.suffix == ".json":
-                file_path = folder_path / filename
+        for file_path in folder_path.iterdir():
+            if file_path.suffix == ".json":
                 with file_path.open() as file:
                     try:
                         json_data = json.load(file)
@@ -405,15 +403,14 @@ def merge_json_files_x(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
-        for filename in folder_path.iterdir():
-            if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+        for file_path in folder_path.iterdir():
+            if file_path.suffix == ".json":
+                with file_path.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -444,16 +441,15 @@ def merge_json_files_z(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
 
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
-        for filename in folder_path.iterdir():
-            if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+        for file_path in folder_path.iterdir():
+            if file_path.suffix == ".json":
+                with file_path.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -484,15 +480,14 @@ def merge_json_files_xz(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
-        for filename in folder_path.iterdir():
-            if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+        for file_path in folder_path.iterdir():
+            if file_path.suffix == ".json":
+                with file_path.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
-- 
2.43.0


From a8410d4cc7d1f95d2eb192636579d9202c9119f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 33/67] fix: combining x and z results replaced the merged x
 results by those of one dataset

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index 8363d91..1b72737 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -514,10 +514,10 @@ def _combine_xz_data(xdata: dict[str, Any] | None, zdata: dict[str, Any] | None)
 
     """
     if xdata and zdata:
-        # print(xdata)
         xdata["x_runs"] = xdata.pop("nr_runs")
         zdata["z_runs"] = zdata.pop("nr_runs")
-        xdata.update(zdata)
+        # the merged x results must not be replaced by those of a single dataset that come along with the z data
+        xdata.update({key: value for key, value in zdata.items() if key.startswith("z_") or key not in xdata})
         return xdata
     if xdata:
         xdata["x_runs"] = xdata.pop("nr_runs")
-- 
2.43.0


From e56b162de4121a56b4372218d7ca2f1d0edd141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 34/67] fix: sparse code constructor could not store the code
 parameters and dropped codes without logicals

---
 .../code_construction/sparse_code_constructor.py              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 66c2d8a..4f2bf04 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -205,9 +205,11 @@ def create_code(
     if compute_logicals:
         lx, lz = code_constructor._compute_logicals(hx.todense(), hz.todense())  # noqa: SLF001
         save_code(hx=hx, hz=hz, mz=mz, codename=codename, lx=lx, lz=lz)
+    else:
+        save_code(hx=hx, hz=hz, mz=mz, codename=codename)
 
     if compute_distance:
         _compute_distances(hx.todense(), hz.todense(), codename)
 
     else:
-        _store_code_params(hx.todense(), hz.todense(), codename)
+        _store_code_params(hx, hz, codename)
-- 
2.43.0


From f93333288b8d689732503e6f82d9e37a7534d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 35/67] fix: rectMatrixMultiply added the product to the
 previous content of the result vector

---
 src/Utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index fc39d5f..bd5d724 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -62,6 +62,7 @@ void Utils::rectMatrixMultiply(const gf2Mat& m1, const gf2Vec& vec, gf2Vec& resu
     }
     for (std::size_t i = 0; i < m1.size(); i++) {
         const auto& row = m1.at(i);
+        result.at(i)    = false;
         for (std::size_t k = 0; k < vec.size(); k++) {
             result.at(i) = result.at(i) ^ (row.at(k) && vec.at(k));
         }
-- 
2.43.0


From 4b0649da38551cf210cb986947e21c75727d809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 36/67] fix: Decoder::setCode exchanged the X and Z checks of
 the code

---
 include/Decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 6973f8a..53e6ae1 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -88,7 +88,7 @@ public:
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
-            this->code = std::make_unique<Code>(*c.gethZ()->pcm, *c.gethX()->pcm);
+            this->code = std::make_unique<Code>(*c.gethX()->pcm, *c.gethZ()->pcm);
         }
     }
     virtual void reset() {};
-- 
2.43.0


From 06871c2ae442780c79de720ed8f687091fcf80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 37/67] fix: UFDecoder estimates did not reproduce the syndrome
 (wrong syndrome bits, bits outside the interior, no consistency check)

---
 include/UFDecoder.hpp |  2 +-
 src/UFDecoder.cpp     | 61 +++++++++++++++++++++----------------------
 2 files changed, 31 insertions(+), 32 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index d957791..3b78d26 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -19,7 +19,7 @@ private:
     [[nodiscard]] bool                               isValidComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     bool                                             containsInvalidComponents(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                                std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const;
+    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     void                                             standardGrowth(std::set<std::size_t>& comps);
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 6f57938..44d9ea0 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -142,11 +142,11 @@ bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeS
  * @param nodeSet
  * @return
  */
-std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const {
+std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::vector<std::size_t> res;
 
     for (const auto idx : nodeSet) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(idx);
+        const auto& nbrs = pcm->getNbrs(idx);
         if (idx < getCode()->getN() && std::includes(nodeSet.begin(), nodeSet.end(), nbrs.begin(), nbrs.end())) {
             res.emplace_back(idx);
         }
@@ -166,40 +166,29 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    if (computeInteriorBitNodes(nodeSet).empty()) {
+    const auto interior = computeInteriorBitNodes(nodeSet, pcm);
+    if (interior.empty()) {
         return {};
     }
 
-    gf2Mat            redHz;
-    gf2Vec            redSyndr(0);
-    std::vector<bool> used(pcm->pcm->size());
-
+    // all neighbours of the interior bits are in the component, thus its checks are the only ones that are affected
+    gf2Mat redHz;
+    gf2Vec redSyndr;
     for (const auto it : nodeSet) {
         if (it >= getCode()->getN()) { // is a check node
-            if (!used.at(it - getCode()->getN())) {
-                redHz.emplace_back(pcm->pcm->at(it - getCode()->getN()));
-                used.at(it - getCode()->getN()) = true;
-                if (syndrome.find(it - getCode()->getN()) != syndrome.end()) {
-                    redSyndr.emplace_back(1); // If the check node is in the syndrome we need to satisfy check=1
-                } else {
-                    redSyndr.emplace_back(0);
-                }
-            }
-        } else { // is a bit node
-            const auto nbrs = this->getCode()->gethZ()->getNbrs(it);
-            for (auto n : nbrs) { // add neighbouring checks (these are maybe not in the interior but to stay consistent with the syndrome we need to include these in the check)
-                if (!used.at(n - getCode()->getN())) {
-                    redHz.emplace_back(pcm->pcm->at(n - getCode()->getN()));
-                    if (syndrome.find(n) != syndrome.end()) {
-                        redSyndr.emplace_back(1);
-                    } else {
-                        redSyndr.emplace_back(0);
-                    }
-                    used.at(n - getCode()->getN()) = true;
-                }
+            const auto& check = pcm->pcm->at(it - getCode()->getN());
+            gf2Vec      row;
+            row.reserve(interior.size());
+            for (const auto bit : interior) {
+                row.emplace_back(check.at(bit));
             }
+            redHz.emplace_back(row);
+            redSyndr.emplace_back(syndrome.find(it) != syndrome.end()); // If the check node is in the syndrome we need to satisfy check=1
         }
     }
+    if (redHz.empty()) {
+        return {};
+    }
     auto                  redHzCsc = Utils::toCsc(redHz);
     std::vector<uint64_t> redSyndInt(redSyndr.size());
     for (std::size_t i = 0; i < redSyndr.size(); i++) {
@@ -208,10 +197,20 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
     auto pluDec = PluDecomposition(redHz.size(), redHz.at(0).size(), redHzCsc);
     auto estim  = pluDec.luSolve(redSyndInt); // solves the system redHz*x=redSyndr by x to see if a solution can be found
 
-    std::set<std::size_t> res;
+    gf2Vec solution(interior.size());
     for (std::size_t i = 0; i < estim.size(); i++) {
-        if (estim.at(i) != 0U) {
-            res.emplace(i);
+        solution.at(i) = estim.at(i) != 0U;
+    }
+    gf2Vec solutionSyndr(redHz.size());
+    Utils::rectMatrixMultiply(redHz, solution, solutionSyndr);
+    if (solutionSyndr != redSyndr) { // there is no set of interior bits with this syndrome
+        return {};
+    }
+
+    std::set<std::size_t> res;
+    for (std::size_t i = 0; i < solution.size(); i++) {
+        if (solution.at(i)) {
+            res.emplace(interior.at(i));
         }
     }
     return res;
-- 
2.43.0


From 781e6ebac1c1a311a1a2e3d9785f0d51e1c725d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 38/67] fix: UFDecoder growth variants looped forever (invalid
 components, saturated clusters) or read past the list of clusters

---
 include/UFDecoder.hpp |   7 +--
 src/UFDecoder.cpp     | 103 ++++++++++++++++++++++--------------------
 2 files changed, 58 insertions(+), 52 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index 3b78d26..cdfdccd 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -23,8 +23,9 @@ private:
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps);
+    void                                             growByNeighbours(std::set<std::size_t>& nodeSet, const std::set<std::size_t>& component);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::vector<std::set<std::size_t>>& invalidComps);
     [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 44d9ea0..1eef3bc 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -59,25 +59,31 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
             components.insert(s);
         }
 
-        while (containsInvalidComponents(components, syndr, invalidComponents, pcm) &&
-               components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
+        while (containsInvalidComponents(components, syndr, invalidComponents, pcm)) {
+            const auto previousSize = components.size();
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
                 standardGrowth(components);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
-                // not implemented yet
+                // grow all invalid components by 1
+                for (const auto& comp : invalidComponents) {
+                    growByNeighbours(components, comp);
+                }
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components);
+                singleClusterSmallestFirstGrowth(components, invalidComponents);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components);
+                singleClusterRandomFirstGrowth(components, invalidComponents);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
                 // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components);
+                singleQubitRandomFirstGrowth(components, invalidComponents);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
+            if (components.size() == previousSize) { // no error has this syndrome
+                break;
+            }
         }
     }
 
@@ -115,13 +121,13 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     auto ccomps = getConnectedComps(nodeSet);
-    return std::any_of(ccomps.begin(), ccomps.end(), [&](const auto& comp) {
-        bool const res = isValidComponent(comp, syndrome, pcm);
-        if (!res) {
-            invalidComps.emplace_back(comp.begin(), comp.end());
+    invalidComps.clear();
+    for (const auto& comp : ccomps) {
+        if (!isValidComponent(comp, syndrome, pcm)) {
+            invalidComps.emplace_back(comp);
         }
-        return !res;
-    });
+    }
+    return !invalidComps.empty();
 }
 
 /**
@@ -230,45 +236,38 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
 }
 
 /**
- * Grows the node set by the neighbours of the single smallest cluster
+ * Grows the node set by the neighbours of the given component
  * @param nodeSet
+ * @param component
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                  ccomps = getConnectedComps(nodeSet);
-    std::set<std::size_t> smallestComponent;
-    std::size_t           smallestSize = SIZE_MAX;
-    for (const auto& cId : ccomps) {
-        if (cId.size() < smallestSize) {
-            smallestComponent = cId;
-            smallestSize      = cId.size();
-        }
-    }
-
-    for (auto node : smallestComponent) {
+void UFDecoder::growByNeighbours(std::set<std::size_t>& nodeSet, const std::set<std::size_t>& component) {
+    for (auto node : component) {
         const auto& nbrs = getCode()->gethZ()->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
 
 /**
- * Grows the node set by the neighbours of a single random cluster
+ * Grows the node set by the neighbours of the single smallest invalid cluster
  * @param nodeSet
+ * @param invalidComps
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                          ccomps = getConnectedComps(nodeSet);
-    std::set<std::size_t>         chosenComponent;
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps) {
+    const auto smallest = std::min_element(invalidComps.begin(), invalidComps.end(), [](const auto& c1, const auto& c2) { return c1.size() < c2.size(); });
+    growByNeighbours(nodeSet, *smallest);
+}
+
+/**
+ * Grows the node set by the neighbours of a single random invalid cluster
+ * @param nodeSet
+ * @param invalidComps
+ */
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps) {
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size() - 1);
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), invalidComps.size() - 1);
     const std::size_t             chosenIdx = d(gen);
-    auto                          it        = ccomps.begin();
-    std::advance(it, chosenIdx);
-    chosenComponent = *it;
-
-    for (auto node : chosenComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
-        nodeSet.insert(nbrs.begin(), nbrs.end());
-    }
+    growByNeighbours(nodeSet, invalidComps.at(chosenIdx));
 }
 
 /**
@@ -280,22 +279,28 @@ void UFDecoder::reset() {
 }
 
 /**
- * Grows the node set by the neighbours of a single random qubit
+ * Grows the node set by the neighbours of a single random node at the boundary of an invalid cluster
  * @param comps
+ * @param invalidComps
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
-    auto                          ccomps = getConnectedComps(comps);
-    std::set<std::size_t>         chosenComponent;
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::vector<std::set<std::size_t>>& invalidComps) {
+    std::vector<std::size_t> boundary;
+    for (const auto& comp : invalidComps) {
+        for (const auto node : comp) {
+            const auto nbrs = getCode()->gethZ()->getNbrs(node);
+            if (!std::includes(comps.begin(), comps.end(), nbrs.begin(), nbrs.end())) {
+                boundary.emplace_back(node);
+            }
+        }
+    }
+    if (boundary.empty()) {
+        return;
+    }
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size());
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), boundary.size() - 1);
     const std::size_t             chosenIdx = d(gen);
-    auto                          it        = ccomps.begin();
-    std::advance(it, chosenIdx);
-    chosenComponent = *it;
-
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*chosenComponent.begin());
-    comps.insert(nbrs.begin(), nbrs.end());
+    growByNeighbours(comps, {boundary.at(chosenIdx)});
 }
 
 /**
-- 
2.43.0


From 5db3e2ab15d77c29aba6ff69f99bfb4f0ba9d32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:55 +0000
Subject: [PATCH 39/67] fix: UFDecoder used the wrong check matrix, split and
 order when decoding both error types, and reset the growth variant

---
 include/UFDecoder.hpp | 12 +++++-----
 src/UFDecoder.cpp     | 55 +++++++++++++++++++++----------------------
 2 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index cdfdccd..469b5c5 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -22,10 +22,10 @@ private:
     [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             growByNeighbours(std::set<std::size_t>& nodeSet, const std::set<std::size_t>& component);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::vector<std::set<std::size_t>>& invalidComps);
-    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
+    void                                             standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             growByNeighbours(std::set<std::size_t>& nodeSet, const std::set<std::size_t>& component, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 1eef3bc..e59af60 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -25,18 +25,18 @@ void UFDecoder::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(syndrome.size()) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size()); // Z checks detect the X part
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecode(xSyndr, this->getCode()->gethZ());
         auto xres = this->result;
-        this->reset();
         doDecode(zSyndr, this->getCode()->gethX());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(),
-                  std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(),
-                  std::back_inserter(this->result.estimNodeIdxVector));
+        const auto zres = this->result;
+        // same order as in the syndrome: X part followed by Z part
+        this->result = xres;
+        this->result.decodingTime += zres.decodingTime;
+        std::copy(zres.estimBoolVector.begin(), zres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
+        std::copy(zres.estimNodeIdxVector.begin(), zres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
     } else {
         this->doDecode(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -63,21 +63,21 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
             const auto previousSize = components.size();
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
-                standardGrowth(components);
+                standardGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
                 // grow all invalid components by 1
                 for (const auto& comp : invalidComponents) {
-                    growByNeighbours(components, comp);
+                    growByNeighbours(components, comp, pcm);
                 }
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components, invalidComponents);
+                singleClusterSmallestFirstGrowth(components, invalidComponents, pcm);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components, invalidComponents);
+                singleClusterRandomFirstGrowth(components, invalidComponents, pcm);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
                 // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components, invalidComponents);
+                singleQubitRandomFirstGrowth(components, invalidComponents, pcm);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
@@ -88,7 +88,7 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
     }
 
     std::vector<std::set<std::size_t>> estims;
-    auto                               ccomps = getConnectedComps(components);
+    auto                               ccomps = getConnectedComps(components, pcm);
     for (const auto& comp : ccomps) {
         auto compEstimate = getEstimateForComponent(comp, syndr, pcm);
         estims.emplace_back(compEstimate.begin(), compEstimate.end());
@@ -120,7 +120,7 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           const std::set<std::size_t>&              syndrome,
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    auto ccomps = getConnectedComps(nodeSet);
+    auto ccomps = getConnectedComps(nodeSet, pcm);
     invalidComps.clear();
     for (const auto& comp : ccomps) {
         if (!isValidComponent(comp, syndrome, pcm)) {
@@ -226,9 +226,9 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
  * Grows the node set by the neighbours of ALL clusters
  * @param comps
  */
-void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
+void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     for (auto currCompIt = comps.begin(); currCompIt != comps.end(); currCompIt++) {
-        const auto nbrs = getCode()->gethZ()->getNbrs(*currCompIt);
+        const auto nbrs = pcm->getNbrs(*currCompIt);
         for (auto n : nbrs) {
             comps.insert(n);
         }
@@ -240,9 +240,9 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
  * @param nodeSet
  * @param component
  */
-void UFDecoder::growByNeighbours(std::set<std::size_t>& nodeSet, const std::set<std::size_t>& component) {
+void UFDecoder::growByNeighbours(std::set<std::size_t>& nodeSet, const std::set<std::size_t>& component, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     for (auto node : component) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -252,9 +252,9 @@ void UFDecoder::growByNeighbours(std::set<std::size_t>& nodeSet, const std::set<
  * @param nodeSet
  * @param invalidComps
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps) {
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     const auto smallest = std::min_element(invalidComps.begin(), invalidComps.end(), [](const auto& c1, const auto& c2) { return c1.size() < c2.size(); });
-    growByNeighbours(nodeSet, *smallest);
+    growByNeighbours(nodeSet, *smallest, pcm);
 }
 
 /**
@@ -262,12 +262,12 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet,
  * @param nodeSet
  * @param invalidComps
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps) {
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     std::random_device            rd;
     std::mt19937                  gen(rd());
     std::uniform_int_distribution d(static_cast<std::size_t>(0U), invalidComps.size() - 1);
     const std::size_t             chosenIdx = d(gen);
-    growByNeighbours(nodeSet, invalidComps.at(chosenIdx));
+    growByNeighbours(nodeSet, invalidComps.at(chosenIdx), pcm);
 }
 
 /**
@@ -275,7 +275,6 @@ void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, c
  */
 void UFDecoder::reset() {
     this->result = {};
-    this->growth = GrowthVariant::AllComponents;
 }
 
 /**
@@ -283,11 +282,11 @@ void UFDecoder::reset() {
  * @param comps
  * @param invalidComps
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::vector<std::set<std::size_t>>& invalidComps) {
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     std::vector<std::size_t> boundary;
     for (const auto& comp : invalidComps) {
         for (const auto node : comp) {
-            const auto nbrs = getCode()->gethZ()->getNbrs(node);
+            const auto nbrs = pcm->getNbrs(node);
             if (!std::includes(comps.begin(), comps.end(), nbrs.begin(), nbrs.end())) {
                 boundary.emplace_back(node);
             }
@@ -300,7 +299,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const
     std::mt19937                  gen(rd());
     std::uniform_int_distribution d(static_cast<std::size_t>(0U), boundary.size() - 1);
     const std::size_t             chosenIdx = d(gen);
-    growByNeighbours(comps, {boundary.at(chosenIdx)});
+    growByNeighbours(comps, {boundary.at(chosenIdx)}, pcm);
 }
 
 /**
@@ -309,7 +308,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const
  * @return
  */
 std::vector<std::set<std::size_t>>
-UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
+UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::set<std::size_t>              visited;
     std::vector<std::set<std::size_t>> res;
 
@@ -325,7 +324,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-                    auto nbrs = getCode()->gethZ()->getNbrs(curr);
+                    auto nbrs = pcm->getNbrs(curr);
                     for (auto n : nbrs) {
                         if (ccomp.find(n) == ccomp.end() && nodes.find(n) != nodes.end()) {
                             stack.push(n);
-- 
2.43.0


From 2c92dbd802f4edfb87d14d31991bc615a5730488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 40/67] fix: UFHeuristic decoded Z errors with the Z checks,
 split asymmetric syndromes wrongly and swapped the parts of the estimate

---
 src/UFHeuristic.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 64cf917..507e87b 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -48,16 +48,19 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(std::size(syndrome)) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size()); // Z checks detect the X part
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecoding(xSyndr, this->getCode()->gethZ());
         auto xres = this->result;
-        this->reset();
-        doDecoding(zSyndr, this->getCode()->gethZ());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
+        nodeMap.clear();
+        doDecoding(zSyndr, this->getCode()->gethX());
+        const auto zres = this->result;
+        // same order as in the syndrome: X part followed by Z part
+        this->result = xres;
+        this->result.decodingTime += zres.decodingTime;
+        std::copy(zres.estimBoolVector.begin(), zres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
+        std::copy(zres.estimNodeIdxVector.begin(), zres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
     } else {
         this->doDecoding(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -73,7 +76,7 @@ void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<Parit
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
         std::unordered_set<std::size_t> erasure;
-        while (!invalidComponents.empty() && invalidComponents.size() < (this->getCode()->gethZ()->pcm->size() + getCode()->gethZ()->pcm->front().size())) {
+        while (!invalidComponents.empty() && invalidComponents.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             // Step 1 growth
             std::vector<std::pair<std::size_t, std::size_t>> fusionEdges;
             std::unordered_map<std::size_t, bool>            presentMap; // for step 4
-- 
2.43.0


From c13582bf2df3f9b52aec764be210c302d0c58448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 41/67] fix: UFHeuristic kept clusters between decodings; reset
 dropped the growth variant and crashed without a code

---
 src/UFHeuristic.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 507e87b..b55385d 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -53,7 +53,6 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecoding(xSyndr, this->getCode()->gethZ());
         auto xres = this->result;
-        nodeMap.clear();
         doDecoding(zSyndr, this->getCode()->gethX());
         const auto zres = this->result;
         // same order as in the syndrome: X part followed by Z part
@@ -72,6 +71,7 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
 void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     auto                     decodingTimeBegin = std::chrono::high_resolution_clock::now();
     std::vector<std::size_t> res;
+    nodeMap.clear(); // clusters of a previous decoding must not influence this one
     if (!syndrome.empty() && !std::all_of(syndrome.begin(), syndrome.end(), [](bool val) { return !val; })) {
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
@@ -388,9 +388,7 @@ void UFHeuristic::reset() {
     }
     nodeMap.clear();
     this->result = {};
-    this->growth = GrowthVariant::AllComponents;
-    this->getCode()->gethZ()->nbrCache.clear();
-    if (this->getCode()->gethZ()) {
+    if (this->getCode() && this->getCode()->gethZ()) {
         this->getCode()->gethZ()->nbrCache.clear();
     }
 }
-- 
2.43.0


From cb501a7b4a265b9c96140700ead3e226c0a37a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 42/67] fix: UFDecoder lost nodes when computing connected
 components

---
 src/UFDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index e59af60..cb36c76 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -320,7 +320,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes, const std::uniq
             std::queue<std::size_t> stack;
             stack.push(c);
             while (!stack.empty()) { // use DFS-like algorithm to compute connected component containing node 'c'
-                auto curr = stack.back();
+                auto curr = stack.front();
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-- 
2.43.0


From 9499826eba7256fa409e05acfa0b26e64f82f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 43/67] fix: the Steane code encodes one qubit, not three

---
 include/Codes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Codes.hpp b/include/Codes.hpp
index a673dde..5b68417 100644
--- a/include/Codes.hpp
+++ b/include/Codes.hpp
@@ -8,7 +8,7 @@
 class SteaneXCode : public Code {
 public:
     SteaneXCode() : Code("./resources/codes/testCode.txt") {
-        k = 3;
+        k = 1;
         n = 7;
     }
 };
@@ -16,7 +16,7 @@ public:
 class SteaneCode : public Code {
 public:
     SteaneCode() : Code("./resources/codes/testCode.txt", "./resources/codes/testCode.txt") {
-        k = 3;
+        k = 1;
         n = 7;
     }
 };
-- 
2.43.0


From af12913473ff46bccfb80520e353e945fde5afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 44/67] fix: Code accepted empty check matrices and check
 matrices of different width

---
 include/Code.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/Code.hpp b/include/Code.hpp
index 3801275..4e30054 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -145,7 +145,11 @@ public:
      * Takes matrix hZ over GF(2) and constructs respective code for X errors with Z checks represented by hZ
      * Convention: Rows in first dim, columns in second
      */
-    explicit Code(std::vector<std::vector<bool>>& hz) : hZ(std::make_unique<ParityCheckMatrix>(hz)), n(hZ->pcm->front().size()) {
+    explicit Code(std::vector<std::vector<bool>>& hz) : hZ(std::make_unique<ParityCheckMatrix>(hz)) {
+        if (hZ->pcm->empty() || hZ->pcm->front().empty()) {
+            throw QeccException("[Code::ctor] - Cannot construct Code, hZ empty");
+        }
+        n = hZ->pcm->front().size();
     }
 
     /*
@@ -153,8 +157,14 @@ public:
      * Convention: Rows in first dim, columns in second
      */
     explicit Code(std::vector<std::vector<bool>>& hx, std::vector<std::vector<bool>>& hz) : hX(std::make_unique<ParityCheckMatrix>(hx)),
-                                                                                            hZ(std::make_unique<ParityCheckMatrix>(hz)),
-                                                                                            n(hZ->pcm->front().size()) {
+                                                                                            hZ(std::make_unique<ParityCheckMatrix>(hz)) {
+        if (hZ->pcm->empty() || hZ->pcm->front().empty() || hX->pcm->empty() || hX->pcm->front().empty()) {
+            throw QeccException("[Code::ctor] - Cannot construct Code, hX or hZ empty");
+        }
+        n = hZ->pcm->front().size();
+        if (hX->pcm->front().size() != n) {
+            throw QeccException("[Code::ctor] - hX and hZ dimensions do not match");
+        }
     }
 
     /**
-- 
2.43.0


From 725455f6aa86f49b00eeccce8428b85d7b7d262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 45/67] fix: simulateWER wrote invalid statistics JSON and left
 out rates, errors and syndromes

---
 src/DecodingSimulator.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 232def8..be2a26f 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -54,12 +54,15 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         statisticsOutstr.open(jsonFileName);
         std::cout << "Writing stats output to " << jsonFileName << '\n';
         statisticsOutstr << "{ \"runs\" : [ ";
-        statisticsOutstr << R"({ "run": { "physicalErrRate":)" << minPhysicalErrRate << ", \"data\": [ ";
     }
 
     auto currPer = minPhysicalErrRate;
     while (currPer < maxPhysicalErrRate) {
         auto nrOfFailedRuns = 0;
+        if (statsOut) {
+            statisticsOutstr << (wordErrRatePerPhysicalErrRate.empty() ? "" : ", ");
+            statisticsOutstr << R"({ "run": { "physicalErrRate":)" << currPer << ", \"data\": [ ";
+        }
         for (std::size_t j = 0; j < nrRunsPerRate; j++) {
             std::unique_ptr<Decoder> decoder;
             if (decoderType == DecoderType::UfDecoder) {
@@ -79,7 +82,11 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
             const auto success = decoder->getCode()->isXStabilizer(residualErr);
 
             DecodingRunInformation stats;
-            stats.result = decoder->result;
+            stats.result       = decoder->result;
+            stats.physicalErrR = currPer;
+            stats.codeSize     = code.getN();
+            stats.syndrome     = syndrome;
+            stats.error        = error;
             if (success) {
                 stats.status = SUCCESS;
             } else {
@@ -93,6 +100,9 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
                 }
             }
         }
+        if (statsOut) {
+            statisticsOutstr << " ] } }";
+        }
         // compute word error rate WER
         const auto blockErrRate = static_cast<double>(nrOfFailedRuns) / static_cast<double>(nrRunsPerRate);
         const auto wordErrRate  = blockErrRate / static_cast<double>(code.getK());       // rate of codewords re decoder does not give correct answer (fails or introduces logical operator)
@@ -101,7 +111,7 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         currPer += perStepSize;
     }
 
-    statisticsOutstr << "}";
+    statisticsOutstr << " ] }";
     const json dataj = wordErrRatePerPhysicalErrRate;
     rawDataOutput << dataj.dump(2U);
     statisticsOutstr.close();
-- 
2.43.0


From 817268f24d6bda7c60225a494227bb03cb15fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 46/67] fix: average runtime of a run included the runtime of
 all earlier runs

---
 src/DecodingSimulator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index be2a26f..dfa3129 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -152,10 +152,10 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
     }
     try {
         for (const auto& currPath : codePaths) {
-            std::size_t avgDecodingTimeAcc = 0U;
-            auto        code               = Code(currPath);
-            const auto  codeN              = code.getN();
+            auto       code  = Code(currPath);
+            const auto codeN = code.getN();
             for (std::size_t j = 0; j < nrRuns; j++) {
+                std::size_t avgDecodingTimeAcc = 0U;
                 for (std::size_t i = 0; i < nrSamples; i++) {
                     std::unique_ptr<Decoder> decoder;
                     if (decoderType == DecoderType::UfDecoder) {
-- 
2.43.0


From 5e944035110dd767e01adaf18c00580f8caa9419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 47/67] fix: average runtime simulation printed the decoding
 information instead of writing it to the given file

---
 src/DecodingSimulator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index dfa3129..26d758b 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -142,6 +142,7 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
         dataOutStream.rdbuf()->pubsetbuf(nullptr, 0);
     }
 
+    json                                                                   infos = json::array();
     std::vector<std::string>                                               codePaths{};
     std::map<std::string, std::size_t, std::less<>>                        avgSampleRuns;
     std::map<std::string, std::map<std::string, std::size_t, std::less<>>> avgSampleRunsPerCode;
@@ -176,7 +177,7 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
                         info.codeSize     = codeN;
                         info.syndrome     = syndrome;
                         info.error        = error;
-                        info.print();
+                        infos.emplace_back(info.to_json());
                     }
                     avgDecodingTimeAcc = avgDecodingTimeAcc + decodingResult.decodingTime;
                     decoder->reset();
@@ -195,5 +196,8 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
         finalRawOut << j.dump(2U);
         finalRawOut.close();
     }
+    if (infoOut) {
+        dataOutStream << infos.dump(2U);
+    }
     dataOutStream.close();
 }
-- 
2.43.0


From 7348e1d9eb53d17036031a2e2e9da1221f4883f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 48/67] fix: ECC mappers confused the qubits of circuits with
 idle qubits

Stripping idle qubits keeps the remaining indices, while the mappers address
qubit j of logical qubit i as i + j * nQubits.
---
 src/ecc/Ecc.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 2a1a168..36475e3 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -7,7 +7,6 @@
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
-    qcOriginal->stripIdleQubits(true, false);
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
     auto cRegs = qcOriginal->getCregs();
     for (auto const& [regName, regBits] : cRegs) {
-- 
2.43.0


From 899110dffd60bc54101c80b7f06e546488f66367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 49/67] fix: Q5Laflamme encoding did not reset the ancilla
 between logical qubits

---
 src/ecc/Q5Laflamme.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 1e40ef5..8506117 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -22,9 +22,6 @@ void Q5Laflamme::writeEncoding() {
 
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(ancStart);
-    }
-
-    for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->h(ancStart);
         for (std::size_t j = 0; j < ecc.nRedundantQubits; j++) {
             qcMapped->cz(ancStart, static_cast<Qubit>(i + j * nQubits));
-- 
2.43.0


From bfca5b2b9ac7b954e8389cf93b50b860ec7ce67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 50/67] fix: Q5Laflamme exchanged qubit and classical bit of
 measurements

---
 src/ecc/Q5Laflamme.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 8506117..2333f16 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -158,8 +158,8 @@ void Q5Laflamme::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                qcMapped->measure(static_cast<Qubit>(measureGate->getClassics().at(j)),
-                                  measureGate->getTargets().at(j));
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From efdda86e0f09cf940e91670ba220c5aefbf6902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 51/67] fix: Q7Steane exchanged qubit and classical bit of
 measurements

---
 src/ecc/Q7Steane.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 6eb077b..9907cbf 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -205,17 +205,8 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                auto classicalRegisterName =
-                        qcOriginal->getClassicalRegister(measureGate->getTargets().at(j));
-                if (!classicalRegisterName.empty()) {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            {classicalRegisterName, measureGate->getTargets().at(j)});
-                } else {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            measureGate->getTargets().at(j));
-                }
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From 9d878e24de5fb1a83fa65abe863a769bb05d9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 52/67] fix: Q7Steane lost the value of a qubit when encoding
 it again after a measurement

---
 src/ecc/Q7Steane.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9907cbf..9ebaae9 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -23,7 +23,10 @@ void Q7Steane::writeEncoding() {
     if (gatesWritten) {
         for (std::size_t i = 0; i < nQubits; i++) {
             for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
-                qcMapped->reset(static_cast<Qubit>(i + j * nQubits));
+                const auto target = static_cast<Qubit>(i + j * nQubits);
+                qcMapped->reset(target);
+                // logical X is X on all qubits: spread the decoded value
+                qcMapped->cx(static_cast<Qubit>(i), target);
             }
         }
     }
-- 
2.43.0


From 573429861c25c55b20a9a717e05fdc41d5f534b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 53/67] fix: Q7Steane mapped controlled H, S, Sdg and gates
 with several controls to circuits that do not implement them, and CY with an
 additional phase

---
 src/ecc/Q7Steane.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9ebaae9..ff1954a 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -175,6 +175,23 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
     case qc::H:
     case qc::Y:
     case qc::Z:
+        // transversal controlled gates implement the logical gate for CX and CZ only
+        if (gate.getNcontrols() > 1 || (gate.getNcontrols() == 1 && gate.getType() == qc::H)) {
+            gateNotAvailableError(gate);
+        }
+        if (gate.getNcontrols() == 1 && gate.getType() == qc::Y) {
+            // CY = S CX S^dagger
+            addSOperation({}, gate.getTargets(), qc::Sdg);
+            for (auto i : gate.getTargets()) {
+                for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
+                    const auto& ctrl = *gate.getControls().begin();
+                    qcMapped->cx(qc::Control{static_cast<Qubit>(ctrl.qubit + j * nQubits), ctrl.type},
+                                 static_cast<Qubit>(i + j * nQubits));
+                }
+            }
+            addSOperation({}, gate.getTargets(), qc::S);
+            break;
+        }
         for (auto i : gate.getTargets()) {
             if (gate.getNcontrols() != 0U) {
                 const auto& ctrls = gate.getControls();
@@ -198,6 +215,9 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         // locigal S = 3 physical S's
     case qc::S:
     case qc::Sdg:
+        if (gate.getNcontrols() != 0U) {
+            gateNotAvailableError(gate);
+        }
         addSOperation(gate.getControls(), gate.getTargets(), gate.getType());
         break;
     case qc::Measure:
-- 
2.43.0


From 0310fa54e4883983b57e2e34ad9b42492836b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:22 +0000
Subject: [PATCH 54/67] fix: logical Hadamard of Q9Surface did not map checks
 to checks

---
 include/ecc/Q9Surface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index 77c537c..31eb1a3 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -47,7 +47,8 @@ private:
     std::set<Qubit>                                         uncorrectedZQubits = {0, 8};
     static constexpr std::array<Qubit, 3>                   LOGICAL_X          = {2, 4, 6};
     static constexpr std::array<Qubit, 3>                   LOGICAL_Z          = {0, 4, 8};
-    static constexpr std::array<std::pair<Qubit, Qubit>, 4> SWAP_INDICES       = {
-            {{0, 6}, {3, 7}, {2, 8}, {1, 5}}};
+    // rotates the lattice by 90 degrees (0->2->8->6->0, 1->5->7->3->1), which exchanges X-type and Z-type checks
+    static constexpr std::array<std::pair<Qubit, Qubit>, 6> SWAP_INDICES = {
+            {{0, 2}, {0, 8}, {0, 6}, {1, 5}, {1, 7}, {1, 3}}};
 };
 } // namespace ecc
-- 
2.43.0


From 90f66cbaa1eb166bb3c4ddfb039fabd94cac9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:22 +0000
Subject: [PATCH 55/67] fix: Q9Surface decoding wrote to classical bits of the
 original circuit

---
 src/ecc/Q9Surface.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 4322450..a0d2634 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -106,13 +106,9 @@ void Q9Surface::writeDecoding() {
     }
     const auto nQubits = qcOriginal->getNqubits();
     for (std::size_t i = 0; i < nQubits; i++) {
-        // measure 0, 4, 8. state = m0*m4*m8
-        qcMapped->measure(static_cast<Qubit>(i), i);
-        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), i);
-        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), i);
+        // state = m0*m4*m8
         qcMapped->cx(static_cast<Qubit>(i + 4 * nQubits), static_cast<Qubit>(i));
         qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));
-        qcMapped->measure(static_cast<Qubit>(i), i);
     }
     isDecoded = true;
 }
-- 
2.43.0


From 0b4fac8d79e215c0a0eb7f27eab8af12294b7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:22 +0000
Subject: [PATCH 56/67] fix: Q18Surface decoding wrote to classical bits of the
 original circuit

---
 src/ecc/Q18Surface.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecc/Q18Surface.cpp b/src/ecc/Q18Surface.cpp
index ff44ba5..dfb7f32 100644
--- a/src/ecc/Q18Surface.cpp
+++ b/src/ecc/Q18Surface.cpp
@@ -79,7 +79,6 @@ void Q18Surface::writeDecoding() {
             qcMapped->cx(static_cast<Qubit>(i + qubit * nQubits),
                          static_cast<Qubit>(i + X_INFORMATION * nQubits));
         }
-        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
         qcMapped->reset(i);
         qcMapped->cx(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
     }
-- 
2.43.0


From 123a32ab1dd310dda6a75264cd6880aeab441865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 57/67] fix: ECC mappers permuted the classical bits of
 circuits with several classical registers

---
 src/ecc/Ecc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 36475e3..33ed566 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -3,14 +3,21 @@
 #include "ir/QuantumComputation.hpp"
 
 #include <cstddef>
+#include <map>
 #include <memory>
+#include <string>
+#include <utility>
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
-    auto cRegs = qcOriginal->getCregs();
-    for (auto const& [regName, regBits] : cRegs) {
-        qcMapped->addClassicalRegister(regBits.second, regName);
+    // the registers are not stored in order, but their bits have to keep their indices
+    std::map<std::size_t, std::pair<std::string, std::size_t>> cRegs;
+    for (auto const& [regName, regBits] : qcOriginal->getCregs()) {
+        cRegs[regBits.first] = {regName, regBits.second};
+    }
+    for (auto const& [start, reg] : cRegs) {
+        qcMapped->addClassicalRegister(reg.second, reg.first);
     }
     for (auto const& [regBits, regName] : ecc.classicalRegisters) {
         qcMapped->addClassicalRegister(regBits, regName);
-- 
2.43.0


From c9b968a02de1d759f9fc25b1d37d10f19f3aba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 58/67] fix: Q9Shor mapped gates with several controls to
 circuits that do not implement them

---
 src/ecc/Q9Shor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecc/Q9Shor.cpp b/src/ecc/Q9Shor.cpp
index 4ba521c..26e7bfb 100644
--- a/src/ecc/Q9Shor.cpp
+++ b/src/ecc/Q9Shor.cpp
@@ -182,6 +182,10 @@ void Q9Shor::mapGate(const qc::Operation& gate) {
     default:
         gateNotAvailableError(gate);
     }
+    // transversal gates with several controls do not implement the logical gate
+    if (gate.getNcontrols() > 1) {
+        gateNotAvailableError(gate);
+    }
     for (std::size_t t = 0; t < gate.getNtargets(); t++) {
         auto i = gate.getTargets()[t];
 
-- 
2.43.0


From 88e07f1a899c32218cff940ddfdb7b6c21b16c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 59/67] fix: Q9Surface lost the value of a qubit when encoding
 it again after a measurement

---
 include/ecc/Q9Surface.hpp |  2 ++
 src/ecc/Q9Surface.cpp     | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index 31eb1a3..4ee3ff5 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -23,6 +23,8 @@ public:
               std::move(qc), measureFq) {}
 
 protected:
+    void writeEncoding() override;
+
     void measureAndCorrect() override;
 
     void writeDecoding() override;
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index a0d2634..3e42363 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -11,6 +11,24 @@
 #include <stdexcept>
 #include <utility>
 namespace ecc {
+void Q9Surface::writeEncoding() {
+    if (!isDecoded) {
+        return;
+    }
+    // the value of a decoded qubit is spread along the logical X operator on the qubits 0, 3, 6
+    if (gatesWritten) {
+        const auto nQubits = qcOriginal->getNqubits();
+        for (std::size_t i = 0; i < nQubits; i++) {
+            for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
+                qcMapped->reset(static_cast<Qubit>(i + j * nQubits));
+            }
+            qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + 3 * nQubits));
+            qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + 6 * nQubits));
+        }
+    }
+    Ecc::writeEncoding();
+}
+
 void Q9Surface::measureAndCorrect() {
     if (isDecoded) {
         return;
-- 
2.43.0


From 830b9b401326593f244a3f5123f3375f4161a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 60/67] fix: Q5Laflamme lost the value of a qubit when encoding
 it again after a measurement

---
 include/ecc/Q5Laflamme.hpp |  2 ++
 src/ecc/Q5Laflamme.cpp     | 22 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/ecc/Q5Laflamme.hpp b/include/ecc/Q5Laflamme.hpp
index 87e2cbb..8c76196 100644
--- a/include/ecc/Q5Laflamme.hpp
+++ b/include/ecc/Q5Laflamme.hpp
@@ -42,5 +42,7 @@ protected:
 
     static constexpr std::array<Qubit, 8> DECODING_CORRECTION_VALUES = {
             1, 2, 4, 7, 8, 11, 13, 14}; // values with odd amount of '1' bits
+
+    bool keepLogicalZ = false; // corrections must not change the logical Z
 };
 } // namespace ecc
diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 2333f16..a5b7a4a 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -12,9 +12,23 @@
 #include <utility>
 namespace ecc {
 void Q5Laflamme::writeEncoding() {
+    const auto nQubits = qcOriginal->getNqubits();
+
+    // a decoded qubit holds the value of the logical Z on all five qubits, which the encoding has to keep
+    if (isDecoded && gatesWritten) {
+        for (Qubit i = 0; i < nQubits; i++) {
+            for (std::size_t j = 1; j < ecc.nRedundantQubits; j++) {
+                qcMapped->reset(static_cast<Qubit>(i + j * nQubits));
+            }
+        }
+        keepLogicalZ = true;
+        Ecc::writeEncoding();
+        keepLogicalZ = false;
+        return;
+    }
+
     Ecc::writeEncoding();
 
-    const auto nQubits  = qcOriginal->getNqubits();
     const auto ancStart = static_cast<Qubit>(nQubits * ecc.nRedundantQubits);
     const auto clEncode = qcOriginal->getNcbits() + N_CORRECTING_BITS; // encode
     const auto controlRegister =
@@ -95,6 +109,12 @@ void Q5Laflamme::measureAndCorrect() {
                     }
                 }
                 qcMapped->classicControlled(op, qubits.at(q), controlRegister, value);
+                if (keepLogicalZ && op != qc::Z) {
+                    // undo the effect of the correction on the logical Z
+                    for (const auto qubit : qubits) {
+                        qcMapped->classicControlled(qc::X, qubit, controlRegister, value);
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From f314d26a66987a165318b30ecc6372525c9c8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 61/67] fix: verification stabilizer search only recognised
 overlaps of exactly one qubit

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 218f557..0e0ed1c 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1100,7 +1100,11 @@ def _symbolic_vector_add(
 
 def _odd_overlap(v_sym: npt.NDArray[z3.BoolRef | bool], v_con: npt.NDArray[np.int8]) -> z3.BoolRef:
     """Return True if the overlap of symbolic vector with constant vector is odd."""
-    return z3.PbEq([(v_sym[i], 1) for i, c in enumerate(v_con) if c == 1], 1)
+    overlap = z3.BoolVal(False)
+    for i, c in enumerate(v_con):
+        if c == 1:
+            overlap = z3.Xor(overlap, v_sym[i])
+    return overlap
 
 
 def _symbolic_vector_eq(v1: npt.NDArray[z3.BoolRef | bool], v2: npt.NDArray[z3.BoolRef | bool]) -> z3.BoolRef:
-- 
2.43.0


From bd5ed8184eec186b8f081112bd5713cc460261a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:10 +0000
Subject: [PATCH 62/67] fix: verification search gave up ancillas before
 minimising the number of CNOTs

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 0e0ed1c..bceaac1 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -647,9 +647,6 @@ def gate_optimal_verification_stabilizers(
             return []  # No solution found
 
         logging.info(f"Found verification stabilizers for {num_errors} errors with {num_cnots} CNOTs")
-        # If any measurements are unused we can reduce the number of ancillas at least by that
-        measurements = [m for m in measurements if np.any(m)]
-        num_anc = len(measurements)
         # Iterate backwards to find the minimal number of cnots
         logging.info(f"Finding minimal number of CNOTs for {num_errors} errors")
 
@@ -670,6 +667,10 @@ def gate_optimal_verification_stabilizers(
             measurements = cnot_opt
         logging.info(f"Minimal number of CNOTs for {num_errors} errors is: {num_cnots}")
 
+        # If any measurements are unused we can reduce the number of ancillas at least by that
+        # (only now, as fewer CNOTs may be possible with more ancillas)
+        measurements = [m for m in measurements if np.any(m)]
+        num_anc = len(measurements)
         # If the number of CNOTs is minimal, we can reduce the number of ancillas
         logging.info(f"Finding minimal number of ancillas for {num_errors} errors")
         while num_anc - 1 > 0:
-- 
2.43.0


From cc5b629876b6cdb5c976d75dcd9c53e0c55ee856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:05 +0000
Subject: [PATCH 63/67] fix: stored evaluation circuits that were malformed or
 not fault tolerant

---
 .../hamming/plus_ft_heuristic_heuristic.stim       | 14 ++++++--------
 .../circuits/hamming/plus_ft_heuristic_opt.qasm    |  2 +-
 .../circuits/hamming/plus_ft_heuristic_opt.stim    | 11 ++++++-----
 .../eval/circuits/hamming/plus_ft_opt_opt.stim     | 13 ++++++-------
 .../plus_ft_heuristic_heuristic.qasm               |  3 ++-
 .../plus_ft_heuristic_heuristic.stim               |  6 ++++--
 .../rotated_surface_d3/plus_ft_heuristic_opt.qasm  |  3 ++-
 .../rotated_surface_d3/plus_ft_heuristic_opt.stim  |  6 ++++--
 .../rotated_surface_d3/zero_non_ft_heuristic.qasm  |  4 ----
 .../rotated_surface_d3/zero_non_ft_heuristic.stim  |  2 +-
 10 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
index d01a8d8..cd14b36 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
@@ -1,10 +1,8 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6 15 0 16 5 15 4 15 7 15 8 15 9 15 14 16 9
+H 2 4 5 6 8 9 10 11 12 13 14
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6
 H 15
-CX 16 11
+CX 15 0 15 2 15 4 15 6 15 7 15 9 15 11 15 13
+H 15 16
+CX 16 5 16 9 16 12 16 13 16 14
 H 16
-MR 15
-MR 16
+MR 15 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
index 19cae23..6d022ae 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
@@ -40,9 +40,9 @@ h x_anc[0];
 cx x_anc[0],q[5];
 cx x_anc[0],q[10];
 cx x_anc[0],q[12];
-cx x_anc[1],q[1];
 h x_anc[0];
 h x_anc[1];
+cx x_anc[1],q[1];
 cx x_anc[1],q[3];
 cx x_anc[1],q[8];
 cx x_anc[1],q[14];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
index 510d666..79eb6f2 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
@@ -1,7 +1,8 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6 15 4 16 1 15 9 16 3 15 14 16 5
+H 2 4 5 6 8 9 10 11 12 13 14
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6
+H 15
+CX 15 5 15 10 15 12
 H 15 16
+CX 16 1 16 3 16 8 16 14
+H 16
 MR 15 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
index 8f0ae7a..05f8679 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
@@ -1,11 +1,10 @@
-H 0 1 2 4 5 6 7 8 9 12 13 15 16
-CX 4 3 2 11 9 14
-CX 1 2 3 10 11 9 14 4
-CX 5 4 12 3 13 9 7 14
-CX 2 3 0 12 14 10 4 2 6 10 12 11 15 0 8 4 15 13 16 0 3 8 15 14 9 3 8 11
+H 2 3 4 5 6 7 8 9 10 13 14
+CX 10 0 0 1 7 1 3 12 6 10 8 1 4 11 11 3 13 11 9 8 14 0 10 12 3 1 5 6 0 11 6 0 7 0 1 10 11 1 9 4 2 4 4 5
+H 15
+CX 15 0 15 9 15 10
 H 15
-CX 10 11 16 9
 MR 15
-CX 16 10
+H 16
+CX 16 4 16 8 16 11
 H 16
 MR 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
index d1e48ed..624bd4d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
+cx x_anc[0],q[6];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
index 98e1b25..afdae20 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
@@ -1,4 +1,6 @@
-H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+H 2 4 5 6 7
+CX 7 3 5 1 4 3 2 1 7 8 6 3 4 2 1 0
+H 9
+CX 9 4 9 5 9 6
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
index d1e48ed..f05164d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[3];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
index 98e1b25..035b824 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
@@ -1,4 +1,6 @@
-H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+H 2 4 5 6 7
+CX 7 3 5 1 4 3 2 1 7 8 6 3 4 2 1 0
+H 9
+CX 9 3 9 4 9 5
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
index 201bb88..8299439 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
@@ -13,7 +13,3 @@ cx q[7],q[4];
 cx q[6],q[3];
 cx q[2],q[5];
 cx q[0],q[1];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[5],z_anc[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
index 21c90bf..da76313 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
@@ -1,2 +1,2 @@
 H 0 2 5 6
-CX 0 4 5 8 0 3 5 7 0 1 2 5 6 3 7 4 0 9 2
+CX 5 8 0 4 5 7 0 3 7 4 6 3 2 5 0 1
-- 
2.43.0


From be46cfdf8cdc5ca75872506c5b38b0f929cde28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:18 +0000
Subject: [PATCH 64/67] fix: estimate_logical_error_rate.py ignored --no_ver

---
 .../qecc/ft_stateprep/eval/estimate_logical_error_rate.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
index 8d5d7db..9e8a1b4 100644
--- a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
+++ b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
@@ -68,7 +68,8 @@ def main() -> None:
 
     state_name = "zero" if args.zero_state else "plus"
     ft_name = "non_ft" if args.no_ver else "ft"
-    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}_{ver_circ_name}.qasm"
+    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}"
+    circ_file += ".qasm" if args.no_ver else f"_{ver_circ_name}.qasm"
 
     # check if file exists
     if not (prefix / code_name / circ_file).exists():
@@ -80,7 +81,9 @@ def main() -> None:
             circ = heuristic_prep_circuit(code, zero_state=args.zero_state)
 
         assert circ is not None
-        if args.naive_ver:
+        if args.no_ver:
+            qc = circ.circ
+        elif args.naive_ver:
             qc = naive_verification_circuit(circ)
         elif args.exact_ver:
             qc = gate_optimal_verification_circuit(circ, max_timeout=600)
-- 
2.43.0


From 5081ebf3afaf6572df13c9f4b5c579a88e1a20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:49 +0000
Subject: [PATCH 65/67] fix: time-over-distance plots failed when a rate was
 not run for every distance

---
 src/mqt/qecc/cc_decoder/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index 02355b6..b6cd0d0 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -183,7 +183,7 @@ def generate_plots(results_dir: Path, results_file: Path) -> None:
                 p_data[p]["d"].append(d)
                 p_data[p]["t"].append(mdata["avg_total_time"][i])
     for p, pdata in sorted(p_data.items()):
-        ax[2][1].plot(ds, pdata["t"], label="p=" + str(p))
+        ax[2][1].plot(pdata["d"], pdata["t"], label="p=" + str(p))
 
     ax[1][1].set_xlabel("Distance")
     ax[1][1].set_ylabel("Average time per run (microseconds)")
@@ -251,7 +251,7 @@ def generate_plots_tn(results_dir: Path, results_file: Path) -> None:
                 p_data[p]["d"].append(d)
                 p_data[p]["t"].append(t)
     for p, pdata in sorted(p_data.items()):
-        ax[1][1].plot(ds, pdata["t"], label="p=" + str(p))
+        ax[1][1].plot(pdata["d"], pdata["t"], label="p=" + str(p))
 
     ax[1][1].set_xlabel("Distance")
     ax[1][1].set_ylabel("Average time per run (microseconds)")
@@ -332,7 +332,7 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
                     p_data[p]["t"].append(pdata["avg_total_time"][i])
         for p, ppdata in sorted(p_data.items()):
             ax[1].plot(
-                ds,
+                ppdata["d"],
                 ppdata["t"],
                 label="p=" + str(p) + ", " + (solver if solver == "z3" else "CASHWMaxSAT-CorePlus"),
                 color=p_to_col[p],
-- 
2.43.0


From 3d805e3318260a972cbf7c893382c65547c110a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:49 +0000
Subject: [PATCH 66/67] fix: threshold plots of all logicals showed the first
 logical

---
 src/mqt/qecc/cc_decoder/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index b6cd0d0..119aab7 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -191,7 +191,7 @@ def generate_plots(results_dir: Path, results_file: Path) -> None:
     ax[1][1].set_xticks(ds)
     ax[1][1].set_ylim(0, 185000)
     for logical_idx in range(len(mdata[ler_k][0])):
-        calculate_threshold(code_dict=metrics, ax=ax[1][logical_idx], title="Threshold")
+        calculate_threshold(code_dict=metrics, ax=ax[1][logical_idx], title="Threshold", logical_idx=logical_idx)
     plot_ler_vs_distance(per_metrics, ax=ax[3][0], pers=[0.01])
     # save plot as vector graphic
     plt.savefig(results_file, bbox_inches="tight")
-- 
2.43.0


From 17416047b274604436bcd2d88e41ec1e3fa6524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:49 +0000
Subject: [PATCH 67/67] fix: plot_ler_vs_distance failed when there are no
 results for a rate

---
 src/mqt/qecc/cc_decoder/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index 119aab7..f5cf7ae 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -27,7 +27,7 @@ def plot_ler_vs_distance(code_dict: dict[float, Any], ax: Axes, pers: list[float
     for p in pers:
         ds = []
         lers = []
-        for d, ler in sorted(code_dict[p].items()):
+        for d, ler in sorted(code_dict.get(p, {}).items()):
             ds.append(int(d))
             lers.append(ler[logical_idx])
         ax.plot(ds, lers, label="p=" + str(round(p, 2)), marker="o", linestyle="-")
-- 
2.43.0

