From 1622b186634d5ab258be1ca8ff27c485f5693f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 01/47] fix: use the sliced dimension of a single target when
 embedding a gate

---
 .../quantum_circuit/components/extensions/matrix_factory.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index aed2a37..dc44438 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -81,7 +81,7 @@ class MatrixFactory:
         slide_indices_rest = [q - min(ref_lines) for q in rest_of_indices]
 
         single_site_logics = (
-            [list(range(dimensions[qudits_applied[0]]))]
+            [list(range(dimensions[slide_indices_qudits_a[0]]))]
             if len(qudits_applied) == 1
             else [list(range(d)) for d in operator.itemgetter(*slide_indices_qudits_a)(dimensions)]
         )
-- 
2.43.0


From 12c95d13d359eeaae564d1d39f989a886751ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 02/47] fix: check control levels against the dimension of the
 controlling qudit

---
 src/mqt/qudits/quantum_circuit/gate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index bfe3e35..aa90d70 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -110,7 +110,7 @@ class Gate(Instruction):
         # AT THE MOMENT WE SUPPORT CONTROL OF SINGLE QUDIT GATES
         assert self.gate_type == GateTypes.SINGLE
         if len(indices) > self.parent_circuit.num_qudits or any(
-            idx >= self.parent_circuit.num_qudits for idx in indices
+            not 0 <= idx < self.parent_circuit.num_qudits for idx in indices
         ):
             msg = "Indices or Number of Controls is beyond the Quantum Circuit Size"
             raise IndexError(msg)
@@ -123,7 +123,9 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in enumerate(ctrl_states)):
+        if len(indices) != len(ctrl_states) or any(
+            not 0 <= ctrl < self.parent_circuit.dimensions[i] for i, ctrl in zip(indices, ctrl_states)
+        ):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From d5f6add74e9a56fd7bdb07ec8848960c91af77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 03/47] fix: refresh the long-range flag when controls are
 added to a gate

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index aa90d70..bb8b469 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -134,7 +134,7 @@ class Gate(Instruction):
             self.set_gate_type_two()
         elif len(self.reference_lines) > 2:
             self.set_gate_type_multi()
-        self.check_long_range()
+        self.is_long_range = self.check_long_range()
         return self
 
     def validate_parameter(self, param: Parameter) -> bool:  # noqa: PLR6301 ARG002
-- 
2.43.0


From a06c880f68cb3c1f947ac412a2b57630c901915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 04/47] fix: export the control lines of a controlled gate to
 QASM instead of its target

---
 src/mqt/qudits/quantum_circuit/gate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index bb8b469..a4b1d51 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -179,9 +179,9 @@ class Gate(Instruction):
         string = string[:-2]
         if self._controls_data is not None:
             string += " ctl "
-            for _ctrl in self._controls_data.indices:
+            for ctrl in self._controls_data.indices:
                 string += (
-                    f"{self.parent_circuit.inverse_sitemap[qudit][0]}[{self.parent_circuit.inverse_sitemap[qudit][1]}] "
+                    f"{self.parent_circuit.inverse_sitemap[ctrl][0]}[{self.parent_circuit.inverse_sitemap[ctrl][1]}] "
                 )
             string += str(self._controls_data.ctrl_states)
 
-- 
2.43.0


From cee825c6f092931119325b1d5ffcc3b41bd0796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 05/47] fix: keep QASM gate parameters typed so imported gates
 do not drop them

---
 src/mqt/qudits/quantum_circuit/qasm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 0627cba..b812f23 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -86,6 +86,13 @@ class QASM:
         except (ValueError, SyntaxError):
             return None
 
+    @staticmethod
+    def parse_parameter(expression: str) -> int | float | None:
+        # levels are written as plain integers, angles as real expressions
+        if re.fullmatch(r"\s*[+-]?\d+\s*", expression):
+            return int(expression)
+        return QASM.safe_eval_math_expression(expression)
+
     @staticmethod
     def parse_gate(
         line: str,
@@ -108,9 +115,9 @@ class QASM:
                     params = np.load(params)
                 else:
                     # TODO: This does not handle "custom_data" correctly
-                    params = tuple(QASM.safe_eval_math_expression(param) for param in params.strip("()[]").split(","))
+                    params = [QASM.parse_parameter(param) for param in params.strip("()[]").split(",")]
             else:
-                params = ()
+                params = []
 
             qudits_list = []
             for dit in qudits.split(","):
-- 
2.43.0


From 7de397733cd9fbc0b43d42b2a58af198c1bcdca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 06/47] fix: import the noise gates that QASM export writes

---
 src/mqt/qudits/quantum_circuit/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fb83ac3..83a0bb4 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -77,6 +77,8 @@ class QuantumCircuit:
         "h": "h",
         "ls": "ls",
         "ms": "ms",
+        "noisex": "noisex",
+        "noisey": "noisey",
         "pm": "pm",
         "rxy": "r",
         "rh": "rh",
-- 
2.43.0


From f18befe01748ef4ec45228f2cceb71aa65e21cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 07/47] fix: build LS and MS matrices in ascending line order
 for mixed dimensions

---
 src/mqt/qudits/quantum_circuit/gates/ls.py | 10 ++++++----
 src/mqt/qudits/quantum_circuit/gates/ms.py |  7 +++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index 79b720e..c080a94 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -45,15 +45,17 @@ class LS(Gate):
             self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
+        # matrices of multi-qudit gates are expressed in ascending order of the lines
+        qudits_targeted = cast(list[int], self.target_qudits)
+        dimensions = [self.dimensions[i] for i in np.argsort(qudits_targeted)]
+        dimension_0, dimension_1 = dimensions
 
         exp_matrix = np.zeros((dimension_0 * dimension_1, dimension_0 * dimension_1), dtype="complex")
         d_min = min(dimension_0, dimension_1)
         for i in range(d_min):
             exp_matrix += np.outer(
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
+                np.array(from_dirac_to_basis([i, i], dimensions)),
+                np.array(from_dirac_to_basis([i, i], dimensions)),
             )
 
         return expm(-1j * self.theta * exp_matrix)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index db3aaeb..6002246 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -44,12 +44,11 @@ class MS(Gate):
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         theta = self.theta
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
         ps: list[int | str] = [0, 1, "s"]
+        # matrices of multi-qudit gates are expressed in ascending order of the lines
         qudits_targeted = cast(list[int], self.target_qudits)
-        qudit_targeted_0: int = qudits_targeted[0]
-        qudit_targeted_1: int = qudits_targeted[1]
+        dimension_0, dimension_1 = (self.dimensions[i] for i in np.argsort(qudits_targeted))
+        qudit_targeted_0, qudit_targeted_1 = sorted(qudits_targeted)
 
         gate_part_1 = np.kron(
             np.identity(dimension_0, dtype="complex"),
-- 
2.43.0


From 3e191a5e7c5efc4d4f8279cca2c00b5c6f648b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 08/47] fix: make dag involutive and tag copies of repeated
 gates in entangled QR decompositions

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py  | 4 +++-
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py  | 4 +++-
 src/mqt/qudits/quantum_circuit/gate.py                        | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index fe13562..f7d98fd 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 from __future__ import annotations
 
+import copy
 import gc
 import typing
 from operator import itemgetter
@@ -33,7 +34,8 @@ class LogEntQRCEXPass(CompilerPass):
     def transpile_gate(gate: Gate) -> list[Gate]:
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        # the same gate object can appear several times in a decomposition
+        return [copy.copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 1c24a28..b98ef83 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import gc
 from typing import TYPE_CHECKING, cast
 
@@ -62,7 +63,8 @@ class PhyEntQRCEXPass(CompilerPass):
         perm_0_d_seq.extend(perm_0_seq)
         perm_0_d_seq.extend(perm_1_seq)
 
-        return [op.dag() for op in reversed(decomp)]
+        # the same gate object can appear several times in a decomposition
+        return [copy.copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index a4b1d51..f752a5a 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -85,7 +85,7 @@ class Gate(Instruction):
 
     def dag(self) -> Gate:
         self._name += "_dag"
-        self.dagger = True
+        self.dagger = not self.dagger
         return self
 
     def to_matrix(self, identities: int = 0) -> NDArray:
-- 
2.43.0


From ed7f67d52d2c946adbaa184f2470990f16b3d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 09/47] fix: keep the order of the decomposed gates in the
 logical entangled QR pass

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py     | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index f7d98fd..239ff9e 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -44,7 +44,6 @@ class LogEntQRCEXPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.TWO:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans.reverse()
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From 39762f9dc60a0dbc26e0068af20d87421889c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 10/47] fix: decompose two-qudit gates in ascending line order

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 239ff9e..8ca30c5 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -56,8 +56,9 @@ class EntangledQRCEX:
     def __init__(self, gate: Gate) -> None:
         self.gate: Gate = gate
         self.circuit: QuantumCircuit = gate.parent_circuit
-        self.dimensions: list[int] = itemgetter(*gate.reference_lines)(self.circuit.dimensions)
-        self.qudit_indices: list[int] = gate.reference_lines
+        # the matrix of a gate is always written in ascending order of its lines
+        self.qudit_indices: list[int] = sorted(gate.reference_lines)
+        self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
         self.decomposition: list[Gate] = []
 
-- 
2.43.0


From 91875a98dd69ead081ebeb8b6bde3f084a9db79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 11/47] fix: do not invert the already inverted sequence in the
 physical local QR pass

---
 .../onedit/mapping_aware_transpilation/phy_local_qr_decomp.py    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index c3da3df..07f9d71 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -38,7 +38,6 @@ class PhyLocQRPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.SINGLE:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans = [op.dag() for op in reversed(gate_trans)]
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From c8f0c1c192e04413e20db4713f0913d0b654dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 12/47] fix: return the inverse of the diagonalising sequence
 in the logical local passes

---
 .../mapping_un_aware_transpilation/log_local_adaptive_decomp.py | 2 +-
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 93dee68..5258811 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -46,7 +46,7 @@ class LogLocAdaPass(CompilerPass):
             self.backend.energy_level_graphs[cast(int, gate.target_qudits)],
         ) = adaptive.execute()
 
-        return matrices_decomposed
+        return [op.dag() for op in reversed(matrices_decomposed)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 170ac82..cb3e99f 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -30,7 +30,7 @@ class LogLocQRPass(CompilerPass):
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
         qr = QrDecomp(gate, energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return decomp
+        return [op.dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From fb216d36a76a6e06d45a6e5b2b16ce356c214396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 13/47] fix: pass the level of a stored phase to the virtual
 rotation in the logical local QR

---
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index cb3e99f..4710291 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -78,7 +78,7 @@ class QrDecomp:
                             self.gate.parent_circuit,
                             "VRz",
                             cast(int, self.gate.target_qudits),
-                            [self.graph.nodes[i], theta_z],
+                            [i, theta_z],
                             cast(int, self.gate.dimensions),
                         )  # (thetaZ, self.graph.nodes[i]['lpmap'], dimension) # [self.graph.nodes[i]["lpmap"], thetaZ],
                         decomp.append(phase_gate)
-- 
2.43.0


From ea278f13f8a3ca31db9e7f3ae9d2485d6464b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 14/47] fix: keep the energy level graph of the backend in the
 logical adaptive pass

---
 .../log_local_adaptive_decomp.py                           | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 5258811..49e203d 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -40,11 +40,8 @@ class LogLocAdaPass(CompilerPass):
             gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
         )
 
-        (
-            matrices_decomposed,
-            _best_cost,
-            self.backend.energy_level_graphs[cast(int, gate.target_qudits)],
-        ) = adaptive.execute()
+        # a logical decomposition does not route, hence it leaves the placement of the backend as it is
+        matrices_decomposed, _best_cost, _final_graph = adaptive.execute()
 
         return [op.dag() for op in reversed(matrices_decomposed)]
 
-- 
2.43.0


From f5673fd4458ee828ddbacb1e3f0c229aa34d0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 15/47] fix: rebuild the circuit in order when propagating
 virtual rotations and keep other gates

---
 .../propagate_virtrz.py                       | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
index 434332c..a4258fc 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import copy
 from typing import TYPE_CHECKING, Union, cast
 
 from ....quantum_circuit import gates
@@ -105,21 +104,23 @@ class ZPropagationOptPass(CompilerPass):
         return intervals
 
     def remove_z(self, original_circuit: QuantumCircuit, back: bool = True) -> QuantumCircuit:
+        from ....quantum_circuit.gates import R, VirtRz
+
         circuit = original_circuit.copy()
-        new_instructions: list[Gate] = copy.deepcopy(circuit.instructions)
+        new_instructions: list[Gate] = []
         intervals: list[tuple[int, ...]] = self.find_intervals_with_same_target_qudits(circuit.instructions)
 
         for interval in intervals:
-            if len(interval) > 1:
-                from ....quantum_circuit.gates import R, VirtRz
-
-                sequence = cast(list[Union[R, VirtRz]], circuit.instructions[interval[0] : interval[-1] + 1])
-                fixed_seq: list[R] = []
-                z_tail: list[VirtRz] = []
-                fixed_seq, z_tail = self.propagate_z(circuit, sequence, back)
-
-                combined_seq = z_tail + fixed_seq if back else fixed_seq + z_tail
-                new_instructions[interval[0] : interval[-1] + 1] = []
-                new_instructions.extend(combined_seq)
+            sequence = circuit.instructions[interval[0] : interval[-1] + 1]
+            # phases commute only through plain rotations, any other gate in between blocks the propagation
+            propagable = all(
+                isinstance(op, (R, VirtRz)) and not op.dagger and not op.get_control_lines for op in sequence
+            )
+            if len(interval) > 1 and propagable:
+                fixed_seq, z_tail = self.propagate_z(circuit, cast(list[Union[R, VirtRz]], sequence), back)
+
+                new_instructions.extend(z_tail + fixed_seq if back else fixed_seq + z_tail)
+            else:
+                new_instructions.extend(sequence)
 
         return circuit.set_instructions(new_instructions)
-- 
2.43.0


From 36249ae8a5a44798894b396aa796d7575bd41a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 16/47] fix: take the control lines into account when removing
 phase rotations

---
 .../remove_phase_rotations.py                         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
index 91a1d64..2fb8f5c 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
@@ -39,16 +39,17 @@ class ZRemovalOptPass(CompilerPass):
                 # If all qubits are seen, break the loop
                 break
 
-            target_qudits = instruction.target_qudits
-            if isinstance(target_qudits, list):
+            lines = instruction.reference_lines
+            if isinstance(instruction.target_qudits, list):
                 # If target_qudits is a list, add each element to the set and
                 # continue to the next iteration because we work only with single gates
-                seen_target_qudits.update(target_qudits)
+                seen_target_qudits.update(lines)
                 continue
-            if target_qudits not in seen_target_qudits and isinstance(instruction, (gates.Rz, gates.VirtRz, gates.Z)):
+            # the control lines of a phase rotation count as well, their phase is only irrelevant if none was seen
+            if seen_target_qudits.isdisjoint(lines) and isinstance(instruction, (gates.Rz, gates.VirtRz, gates.Z)):
                 indices_to_remove.append(i)
             else:
-                seen_target_qudits.add(target_qudits)
+                seen_target_qudits.update(lines)
 
         new_instructions = [op for index, op in enumerate(new_instructions) if index not in indices_to_remove]
         return circuit.set_instructions(new_instructions)
-- 
2.43.0


From 634d6b8585dc157f1c7011b0670c15ab35727a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 17/47] fix: place controlled gates on their control and target
 lanes

---
 src/mqt/qudits/core/lanes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 0e7b1e2..bda14f6 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -46,7 +46,7 @@ class Lanes:
                     self.index_dict[index] = []
                 self.index_dict[index].append(gate_tuple)
             elif gate.gate_type in {GateTypes.TWO, GateTypes.MULTI}:
-                indices: list[int] = cast(list[int], gate.target_qudits)
+                indices: list[int] = gate.reference_lines
                 for index in indices:
                     if index not in self.index_dict:
                         self.index_dict[index] = []
@@ -90,7 +90,7 @@ class Lanes:
                 else:
                     consecutive_groups[target_qudits] = [[gate_tuple]]
             else:
-                qudits_targeted: list[int] = cast(list[int], gate.target_qudits)
+                qudits_targeted: list[int] = gate.reference_lines
                 for qudit in qudits_targeted:
                     consecutive_groups[qudit].append([gate_tuple])
                     consecutive_groups[qudit].append([])
-- 
2.43.0


From e694bf07414e267883f902b1fe619436c1f37d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 18/47] fix: return the level permutations around a physically
 compiled two-qudit gate

---
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index b98ef83..12abfbd 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -64,7 +64,7 @@ class PhyEntQRCEXPass(CompilerPass):
         perm_0_d_seq.extend(perm_1_seq)
 
         # the same gate object can appear several times in a decomposition
-        return [copy.copy(op).dag() for op in reversed(decomp)]
+        return [copy.copy(op).dag() for op in reversed(perm_0_d_seq)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From c28b9858a69dbb5c8d5630b5c479f21439f7a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 19/47] fix: accept controlled single-qudit gates in the
 physical entangling pass

---
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 12abfbd..9580dc7 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -24,8 +24,13 @@ class PhyEntQRCEXPass(CompilerPass):
         self.circuit = QuantumCircuit()
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
-        target_qudits = cast(list[int], gate.target_qudits)
-        dimensions = cast(list[int], gate.dimensions)
+        if isinstance(gate.target_qudits, int):
+            # a controlled single-qudit gate
+            target_qudits = gate.reference_lines
+            dimensions = [gate.parent_circuit.dimensions[line] for line in target_qudits]
+        else:
+            target_qudits = gate.target_qudits
+            dimensions = cast(list[int], gate.dimensions)
 
         energy_graph_c = self.backend.energy_level_graphs[target_qudits[0]]
         energy_graph_t = self.backend.energy_level_graphs[target_qudits[1]]
-- 
2.43.0


From c29b6b8bedcd4e5317e7f2b60c2bf9c3ce21d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 20/47] fix: keep phase and inversion of a CEx when its levels
 are mapped to physical ones

---
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 9580dc7..1437855 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -4,6 +4,8 @@ import copy
 import gc
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
+
 from mqt.qudits.compiler import CompilerPass
 from mqt.qudits.compiler.onedit import PhyLocQRPass
 from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
@@ -46,9 +48,10 @@ class PhyEntQRCEXPass(CompilerPass):
             if new_la < new_lb:
                 new_parameters = [new_la, new_lb, new_ctrl_lev, gate.phi]
             else:
-                new_parameters = [new_lb, new_la, new_ctrl_lev, gate.phi]
+                # exchanging the levels inverts the phase of the excitation
+                new_parameters = [new_lb, new_la, new_ctrl_lev, float(-gate.phi % (2 * np.pi))]
             tcex = CEx(parent_circ, "CEx_t" + str(target_qudits), target_qudits, new_parameters, dimensions, None)
-            return [tcex]
+            return [tcex.dag()] if gate.dagger else [tcex]
 
         perm_0 = Perm(gate.parent_circuit, "Pm_ent_0", target_qudits[0], lp_map_0, dimensions[0])
         perm_1 = Perm(gate.parent_circuit, "Pm_ent_1", target_qudits[1], lp_map_1, dimensions[1])
-- 
2.43.0


From a86b971aba100623a13f523f2726a75bb24a346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 21/47] fix: map physical results back to logical levels for
 every mapping

---
 src/mqt/qudits/visualisation/plot_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 1bc688f..b6dab41 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -23,7 +23,8 @@ def remap_result(
         permutation = np.eye(circuit.dimensions[0])[:, circuit.mappings[0]]
         for i in range(1, len(circuit.mappings)):
             permutation = np.kron(permutation, np.eye(circuit.dimensions[i])[:, circuit.mappings[i]])
-        return new_result @ np.linalg.inv(permutation)
+        # entry l of the logical result is entry map(l) of the physical one
+        return new_result @ permutation
     return new_result
 
 
-- 
2.43.0


From 2e804fe6368bc1127be0a6e72cc2c7a881783439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 22/47] fix: implement a gate from the placement before to the
 one after in the physical adaptive pass

---
 .../phy_local_adaptive_decomp.py                         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 6318bf3..8b7d819 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import copy
 import gc
 import itertools
 from typing import TYPE_CHECKING, cast
@@ -41,17 +42,19 @@ class PhyLocAdaPass(CompilerPass):
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
 
-        qr = PhyQrDecomp(gate, energy_graph_i)
+        # the sequence that diagonalises the inverse of a gate implements the gate, from the placement before to the one after
+        inverse = copy.copy(gate).dag()
+        qr = PhyQrDecomp(inverse, energy_graph_i)
 
         _decomp, algorithmic_cost, total_cost = qr.execute()
 
         adaptive = PhyAdaptiveDecomposition(
-            gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
+            inverse, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
         )
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [op.dag() for op in reversed(matrices_decomposed)]
+        return matrices_decomposed
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
-- 
2.43.0


From 6e8cfd5925f9bef351af3b2dbc46a982d55e1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 23/47] fix: do not move phases that the routing pulses already
 compensate

---
 .../phy_local_adaptive_decomp.py              | 39 ++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 8b7d819..6a8e95b 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -6,6 +6,7 @@ import gc
 import itertools
 from typing import TYPE_CHECKING, cast
 
+import networkx as nx  # type: ignore[import-not-found]
 import numpy as np
 
 from ....core import NAryTree
@@ -19,6 +20,7 @@ from ..local_operation_swap import (
     gate_chain_condition,
     graph_rule_ongate,
     graph_rule_update,
+    route_states2rotate_basic,
 )
 from ..mapping_aware_transpilation.phy_local_qr_decomp import PhyQrDecomp
 
@@ -190,6 +192,29 @@ class PhyAdaptiveDecomposition:
 
         return matrices, placement
 
+    @staticmethod
+    def store_routing_phases(rotation: gates.R, placement: LevelGraph, new_placement: LevelGraph) -> None:
+        """Add the phases due to routing, the ones already stored are compensated by the routing pulses themselves."""
+        stored = {node: new_placement.nodes[node].get("phase_storage", 0) for node in new_placement.nodes}
+        bare_placement = copy.deepcopy(placement)
+        for graph in (bare_placement, new_placement):
+            nx.set_node_attributes(graph, 0, "phase_storage")
+        _, bare_pulses, _ = route_states2rotate_basic(rotation, bare_placement)
+
+        for pulse in bare_pulses:
+            back = gates.R(
+                pulse.parent_circuit,
+                "R",
+                cast(int, pulse.target_qudits),
+                [pulse.lev_a, pulse.lev_b, pulse.theta, -pulse.phi],
+                pulse.dimensions,
+            )
+            graph_rule_update(back, new_placement)
+
+        for node, phase in stored.items():
+            total = new_placement.nodes[node]["phase_storage"] + phase
+            new_placement.nodes[node]["phase_storage"] = new_mod(total)
+
     def dfs(self, current_root: TreeNode, level: int = 0) -> None:
         # check if close to diagonal
         ucopy = current_root.u_of_level.copy()
@@ -259,19 +284,7 @@ class PhyAdaptiveDecomposition:
                     physical_rotation = gate_chain_condition(pi_pulses_routing, physical_rotation)
                     physical_rotation = graph_rule_ongate(physical_rotation, new_placement)
 
-                    p_backs = [
-                        gates.R(
-                            self.circuit,
-                            "R",
-                            self.qudit_index,
-                            [ppulse.lev_a, ppulse.lev_b, ppulse.theta, -ppulse.phi],
-                            self.dimension,
-                        )
-                        for ppulse in pi_pulses_routing
-                    ]
-
-                    for p_back in p_backs:
-                        graph_rule_update(p_back, new_placement)
+                    self.store_routing_phases(rotation_involved, current_placement, new_placement)
 
                     current_root.add(
                         new_key,
-- 
2.43.0


From 32b0a4a0b8a37f87bdd6133778027bfd382de9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 24/47] fix: drop the lines between control and target when
 decomposing a controlled gate

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 8ca30c5..ef43ef4 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -60,6 +60,11 @@ class EntangledQRCEX:
         self.qudit_indices: list[int] = sorted(gate.reference_lines)
         self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
+        d_c, d_t = self.dimensions
+        if self.u.shape[0] != d_c * d_t:
+            # the matrix of a controlled gate also covers the untouched lines between control and target
+            d_m = self.u.shape[0] // (d_c * d_t)
+            self.u = self.u.reshape(d_c, d_m, d_t, d_c, d_m, d_t)[:, 0, :, :, 0, :].reshape(d_c * d_t, d_c * d_t)
         self.decomposition: list[Gate] = []
 
     @staticmethod
-- 
2.43.0


From 98b38684ed5281302aac62128a83bd207fdd6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 25/47] fix: reject level lists that are no permutation in the
 permutation gate

---
 src/mqt/qudits/quantum_circuit/gates/perm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/perm.py b/src/mqt/qudits/quantum_circuit/gates/perm.py
index 3ee94bf..13fa59d 100644
--- a/src/mqt/qudits/quantum_circuit/gates/perm.py
+++ b/src/mqt/qudits/quantum_circuit/gates/perm.py
@@ -53,6 +53,7 @@ class Perm(Gate):
             assert all((0 <= num < len(parameter) and num < dims) for num in p), (
                 "Numbers are not within the range of the list length"
             )
+            assert sorted(p) == list(range(dims)), "Numbers are not a permutation of the levels"
 
             return True
 
-- 
2.43.0


From 366f344b2ae73272e8545e76e20c73821c59c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 26/47] fix: reject malformed parameters of the virtual
 rotation instead of building an identity

---
 src/mqt/qudits/quantum_circuit/gates/virt_rz.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/virt_rz.py b/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
index b5be526..2cad671 100644
--- a/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
+++ b/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
@@ -54,11 +54,12 @@ class VirtRz(Gate):
             return False
 
         if isinstance(param, list):
-            if len(param) != 2:
-                return False
-            if not (isinstance(param[0], int) and isinstance(param[1], float)):
-                return False
-            return 0 <= param[0] < self.dimensions
+            assert len(param) == 2
+            assert isinstance(param[0], int)
+            assert isinstance(param[1], float)
+            assert 0 <= param[0] < self.dimensions
+
+            return True
 
         if isinstance(param, np.ndarray):
             # Add validation for numpy array if needed
-- 
2.43.0


From 54ab5280a4b6ce6d34c39546d0b99d7ef58ac945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 27/47] fix: end a block comment that closes on the line it
 starts on

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index b812f23..f8efd6d 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -34,7 +34,7 @@ class QASM:
             in_comment = True
         if in_comment:
             # in multiline comment, check if its ending
-            in_comment = not bool(rgxs["comment_end"].match(line))
+            in_comment = not bool(rgxs["comment_end"].search(line))
             return True, in_comment
         if rgxs["header"].match(line):
             # ignore standard header lines
-- 
2.43.0


From bbb7c8de41f4d4c2ad9ba6505baa65b8e4d34455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 28/47] fix: start every compilation from the placement of the
 backend

---
 src/mqt/qudits/compiler/dit_compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index b912752..6930ece 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -47,6 +47,7 @@ class QuditCompiler:
                 passes_dict[GateTypes.TWO] = decomposition
             elif "Multi" in str(compiler_pass):
                 passes_dict[GateTypes.MULTI] = decomposition
+        initial_graphs = list(backend.energy_level_graphs)
         for gate in circuit.instructions:
             decomposer = typing.cast(Optional[CompilerPass], passes_dict.get(gate.gate_type))
             if decomposer is not None:
@@ -60,6 +61,8 @@ class QuditCompiler:
         for i, graph in enumerate(backend.energy_level_graphs):
             if i < circuit.num_qudits:
                 mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        # the placements reached by this circuit are not the ones the next circuit starts from
+        backend.energy_level_graphs[:] = initial_graphs
         transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instr)
 
@@ -104,6 +107,7 @@ class QuditCompiler:
 
         lanes = Lanes(circuit)
         new_instructions = []
+        initial_graphs = list(backend.energy_level_graphs)
         for gate in circuit.instructions:
             ins: list[Gate] = []
             if gate.gate_type is GateTypes.SINGLE:
@@ -118,5 +122,7 @@ class QuditCompiler:
         for i, graph in enumerate(backend.energy_level_graphs):
             if i < circuit.num_qudits:
                 mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        # the placements reached by this circuit are not the ones the next circuit starts from
+        backend.energy_level_graphs[:] = initial_graphs
         transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instructions)
-- 
2.43.0


From 5977f97996990d07a20c8ef623ba60fa72c95758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 29/47] fix: store phases on the graph reached, not on the one
 of the backend

---
 .../mapping_aware_transpilation/phy_local_adaptive_decomp.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 6a8e95b..de184e8 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -42,7 +42,8 @@ class PhyLocAdaPass(CompilerPass):
         self.vrz_prop = vrz_prop
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
-        energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
+        # phases are stored on the graph reached by the gate, not on the one it started from
+        energy_graph_i = copy.deepcopy(self.backend.energy_level_graphs[cast(int, gate.target_qudits)])
 
         # the sequence that diagonalises the inverse of a gate implements the gate, from the placement before to the one after
         inverse = copy.copy(gate).dag()
-- 
2.43.0


From bc0c8c8f33064be509bd41ff590fbd63b2751c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 30/47] fix: name the lines of controlled gates in the control
 and target noise modes

---
 .../simulation/noise_tools/noisy_circuit_factory.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 5334c6d..47843a4 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -141,6 +141,9 @@ class NoisyCircuitFactory:
 
     def _get_control_qudits(self, instruction: Gate) -> list[int]:
         self._validate_two_qudit_gate(instruction)
+        if isinstance(instruction.target_qudits, int):
+            # a controlled single-qudit gate
+            return instruction.get_control_lines
         qudits_targeted = cast(list[int], instruction.target_qudits)
         return qudits_targeted[:1]
 
@@ -157,11 +160,10 @@ class NoisyCircuitFactory:
         Returns:
         List of target qudit indices, excluding control qudits
         """
-        if instruction.gate_type != GateTypes.SINGLE:
-            qudits_targeted = instruction.reference_lines
-            return qudits_targeted[1:]
+        if isinstance(instruction.target_qudits, list):
+            return instruction.target_qudits[1:]
 
-        return [cast(int, instruction.target_qudits)]
+        return [instruction.target_qudits]
 
     @staticmethod
     def _validate_two_qudit_gate(instruction: Gate) -> None:
-- 
2.43.0


From edddaefcd1cb38745c4ddba927a1ff11b5089267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 31/47] fix: prepare the shared subtree of a node whose first
 child is zero

---
 .../qudits/compiler/state_compilation/state_preparation.py  | 6 +++---
 src/mqt/qudits/core/micro_dd.py                             | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index 3baa55b..4b8333f 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -161,9 +161,9 @@ class StatePrep:
                     )
         else:
             controls_track = copy.deepcopy(controls)
-            self.synthesis(
-                labels, cardinalities, node.children[node.children_index[0]], circuit_meta, controls_track, depth + 1
-            )
+            # all the non-zero children are the same node
+            shared_child = next(child for child in node.children if abs(child.weight) != 0.0)
+            self.synthesis(labels, cardinalities, shared_child, circuit_meta, controls_track, depth + 1)
 
     def compile_state(self) -> QuantumCircuit:
         final_state = self.state
diff --git a/src/mqt/qudits/core/micro_dd.py b/src/mqt/qudits/core/micro_dd.py
index 1a8bab4..db639c7 100644
--- a/src/mqt/qudits/core/micro_dd.py
+++ b/src/mqt/qudits/core/micro_dd.py
@@ -302,7 +302,8 @@ def count_nodes_after(node: MicroDDNode, counter: list[int], cardinalities: list
         for i in range(cardinalities[depth]):
             count_nodes_after(node.children[node.children_index[i]], counter, cardinalities, depth + 1)
     else:
-        count_nodes_after(node.children[node.children_index[0]], counter, cardinalities, depth + 1)
+        shared_child = next(child for child in node.children if abs(child.weight) != 0.0)
+        count_nodes_after(shared_child, counter, cardinalities, depth + 1)
 
 
 def print_decision_weights(node: MicroDDNode, indent: str = "") -> None:
-- 
2.43.0


From c648dc14a48ec8e4217b3c58b861f80ae8c3c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 32/47] fix: density matrices from counts for single lines and
 dimensions above ten

---
 .../quantum_circuit/components/extensions/matrix_factory.py | 2 +-
 src/mqt/qudits/visualisation/mini_quantum_information.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index dc44438..44fa024 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -173,7 +173,7 @@ def from_dirac_to_basis(vec: list[int], d: list[int] | int) -> NDArray[np.comple
         temp[basis] = 1
         basis_vecs.append(temp)
 
-    ret = basis_vecs[0]
+    ret = np.array(basis_vecs[0])
     for e_i in range(1, len(basis_vecs)):
         ret = np.kron(np.array(ret), np.array(basis_vecs[e_i]))
 
diff --git a/src/mqt/qudits/visualisation/mini_quantum_information.py b/src/mqt/qudits/visualisation/mini_quantum_information.py
index be027b8..e205b83 100644
--- a/src/mqt/qudits/visualisation/mini_quantum_information.py
+++ b/src/mqt/qudits/visualisation/mini_quantum_information.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 import operator
 from collections import Counter
 from functools import reduce
@@ -9,8 +10,6 @@ import numpy as np
 
 from mqt.qudits.quantum_circuit.components.extensions.matrix_factory import from_dirac_to_basis
 
-from .plot_information import state_labels
-
 if TYPE_CHECKING:
     from numpy.typing import NDArray
 
@@ -24,7 +23,8 @@ def get_density_matrix_from_counts(
     number_counts = Counter(results)
     probabilities = [(number_counts[num] / len(results)) for num in range(num_kets)]
     kets: list[NDArray[complex]] = [
-        from_dirac_to_basis([int(char) for char in state], circuit.dimensions) for state in state_labels(circuit)
+        from_dirac_to_basis(list(state), circuit.dimensions)
+        for state in itertools.product(*[range(d) for d in circuit.dimensions])
     ]
     density_matrix: NDArray[np.complex128] = np.zeros((num_kets, num_kets))
     for k, p in zip(kets, probabilities):
-- 
2.43.0


From d01a27cb7a595efff4c79344384b46d8ad986810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 33/47] fix: apply the factors of an instantiated ansatz in the
 order of its matrix product

---
 .../variational_twodit_compilation/ansatz/instantiate.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
index 592ec9d..e4c34f7 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
@@ -36,7 +36,8 @@ def ansatz_decompose(
 
         counter += 1
 
-    return decomposition
+    # the ansatz is a matrix product: its last factor is applied first
+    return decomposition[::-1]
 
 
 def create_cu_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
-- 
2.43.0


From ec39c860f9fbbb65415cc72e2205782552e3b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 34/47] fix: apply the rotations of the sparsifier on the sides
 the objective puts them

---
 .../twodit/variational_twodit_compilation/sparsifier.py    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index f012e91..7b6c837 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -41,12 +41,13 @@ def instantiate_rotations(circuit: QuantumCircuit, gate: Gate, params_list: list
 
     decomposition: list[Gate] = []
 
+    # the right factors of the matrix product are applied first
     decomposition.extend((
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
-        gate,
         CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[2], dims[0]), dims[0]),
         CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[3], dims[1]), dims[1]),
+        gate,
+        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
+        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
     ))
 
     return decomposition
-- 
2.43.0


From 22e9f20cdac1070ed1f51e0bdb55395980228276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 35/47] fix: stop the timer of a finished layer search

---
 .../ansatz/ansatz_solve_n_search.py                              | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index 6251756..684a5e8 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -59,6 +59,7 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
     timer.start()
 
     thread.join()
+    timer.cancel()
     f, x = result_queue.get()
 
     return f, x
-- 
2.43.0


From 88ddacd01e7931edbb4150c5f485dbfa4a7949a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 36/47] fix: adaptive decompositions lost the gate when a pivot
 was rounding dust

---
 .../mapping_aware_transpilation/phy_local_adaptive_decomp.py    | 2 +-
 .../mapping_un_aware_transpilation/log_local_adaptive_decomp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index de184e8..0599651 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -243,7 +243,7 @@ class PhyAdaptiveDecomposition:
         for c, r, r2 in itertools.product(range(dimension), range(dimension), range(dimension)):
             if r < c or r2 <= r:
                 continue
-            if abs(u_[r2, c]) > 1.0e-8 and (abs(u_[r, c]) > 1.0e-18 or abs(u_[r, c]) == 0):
+            if abs(u_[r2, c]) > 1.0e-8:
                 theta = 2 * np.arctan2(abs(u_[r2, c]), abs(u_[r, c]))
 
                 phi = -(np.pi / 2 + np.angle(u_[r, c]) - np.angle(u_[r2, c]))
diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 49e203d..4eddf22 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -177,7 +177,7 @@ class LogAdaptiveDecomposition:
         for c in range(dimension):
             for r in range(c, dimension):
                 for r2 in range(r + 1, dimension):
-                    if abs(u_[r2, c]) > 1.0e-8 and (abs(u_[r, c]) > 1.0e-18 or abs(u_[r, c]) == 0):
+                    if abs(u_[r2, c]) > 1.0e-8:
                         theta = 2 * np.arctan2(abs(u_[r2, c]), abs(u_[r, c]))
                         phi = -(np.pi / 2 + np.angle(u_[r, c]) - np.angle(u_[r2, c]))
 
-- 
2.43.0


From 707e6a6819fec8b445f4144a2c37cae961781aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 37/47] fix: shots of a noisy simulation shared their random
 numbers

---
 src/mqt/qudits/simulation/backends/stochastic_sim.py     | 9 ++++-----
 .../simulation/noise_tools/noisy_circuit_factory.py      | 6 +-----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index a3f78e4..33f1e59 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 import multiprocessing as mp
 import os
-import time
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -20,8 +19,8 @@ if TYPE_CHECKING:
 
 def generate_seed() -> int:
     """Generate a random seed for numpy random generator."""
-    current_time = int(time.time() * 1000)
-    return hash((os.getpid(), current_time)) % 2**32
+    # a clock is too coarse: shots taken within one of its ticks would all get the same seed
+    return int.from_bytes(os.urandom(8), "little")
 
 
 def measure_state(vector_data: NDArray[np.complex128]) -> int:
@@ -50,8 +49,8 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
 
     with mp.Pool(processes=num_processes) as pool:
         if isinstance(backend, TNSim):
-            factory = NoisyCircuitFactory(noise_model, circuit)
-            args_tn = [(backend, factory) for _ in range(shots)]
+            # a factory per shot: copies of one factory in several workers would all draw the same errors
+            args_tn = [(backend, NoisyCircuitFactory(noise_model, circuit)) for _ in range(shots)]
             results = pool.map(stochastic_execution_tn, args_tn)
         elif isinstance(backend, MISim):
             args_misim = [(backend, circuit, noise_model) for _ in range(shots)]
diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 47843a4..ee4a93c 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import copy
-import os
-import time
 from functools import partial
 from itertools import product
 from typing import TYPE_CHECKING, cast
@@ -31,9 +29,7 @@ class NoisyCircuitFactory:
 
     @staticmethod
     def _initialize_rng() -> Generator:
-        current_time = int(time.time() * 1000)
-        seed = hash((os.getpid(), current_time)) % 2**32
-        return np.random.default_rng(seed)
+        return np.random.default_rng()
 
     def generate_circuit(self) -> QuantumCircuit:
         noisy_circuit = QuantumCircuit(self.circuit.num_qudits, self.circuit.dimensions, self.circuit.num_cl)
-- 
2.43.0


From 623049d41d88712b692d2f136a460979fc389c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 38/47] fix: waiting for a cancelled job never ended

---
 src/mqt/qudits/simulation/jobs/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index f5339ad..f92ce0d 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -5,7 +5,7 @@ import time
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
-from .jobstatus import JobStatus
+from .jobstatus import JOB_FINAL_STATES, JobStatus
 
 if TYPE_CHECKING:
     from collections.abc import Callable
@@ -68,7 +68,7 @@ class Job:
 
     def in_final_state(self) -> bool:
         """Return whether the job is in a final job state such as DONE or ERROR."""
-        return self.status() in {JobStatus.DONE, JobStatus.ERROR}
+        return self.status() in JOB_FINAL_STATES
 
     def wait_for_final_state(
         self, timeout: float | None = None, wait: float = 5, callback: Callable[[str, str, Job], None] | None = None
@@ -87,7 +87,7 @@ class Job:
             return
         start_time = time.time()
         status = self.status()
-        while status not in {JobStatus.DONE, JobStatus.ERROR}:
+        while status not in JOB_FINAL_STATES:
             elapsed_time = time.time() - start_time
             if timeout is not None and elapsed_time >= timeout:
                 msg = f"Timeout while waiting for job {self.job_id()}."
-- 
2.43.0


From f634a3d14e1549d8bbc8ecb2212e551f79c9466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 39/47] fix: jobs made within one millisecond had the same id

---
 src/mqt/qudits/simulation/jobs/job.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index f92ce0d..834323c 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-import os
 import time
+import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
@@ -36,8 +36,7 @@ class Job:
             kwargs: Any key-value metadata to associate with this job.
         """
         if job_id == "auto":
-            current_time = int(time.time() * 1000)
-            self._job_id = str(hash((os.getpid(), current_time)))
+            self._job_id = str(uuid.uuid4())
         else:
             self._job_id = job_id
         self._backend = backend
-- 
2.43.0


From 06410f72766cb4a8466b2e29b0cd54eaad50c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 40/47] fix: set_options rejected every option

---
 src/mqt/qudits/simulation/backends/backendv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/simulation/backends/backendv2.py b/src/mqt/qudits/simulation/backends/backendv2.py
index e360034..21c759c 100644
--- a/src/mqt/qudits/simulation/backends/backendv2.py
+++ b/src/mqt/qudits/simulation/backends/backendv2.py
@@ -54,7 +54,7 @@ class Backend(ABC):
 
     def set_options(self, **fields: Unpack[Backend.DefaultOptions]) -> None:
         for field in fields:
-            if not hasattr(self._options, field):
+            if field not in Backend.DefaultOptions.__annotations__:
                 msg = f"Options field '{field}' is not valid for this backend"
                 raise AttributeError(msg)
         self._options.update(fields)
-- 
2.43.0


From 7341f360eec354f539fdea15fbc0e16d835e78a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 41/47] fix: options of one run applied to all later runs of
 the backend

---
 .../qudits/simulation/backends/innsbruck_01.py  | 17 +++++++++--------
 src/mqt/qudits/simulation/backends/misim.py     | 17 +++++++++--------
 src/mqt/qudits/simulation/backends/tnsim.py     | 17 +++++++++--------
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/innsbruck_01.py b/src/mqt/qudits/simulation/backends/innsbruck_01.py
index e291306..b2b2984 100644
--- a/src/mqt/qudits/simulation/backends/innsbruck_01.py
+++ b/src/mqt/qudits/simulation/backends/innsbruck_01.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import numpy as np
 from typing_extensions import Unpack
@@ -81,13 +81,14 @@ class Innsbruck01(Backend):
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
 
-        self._options.update(options)
-        self.noise_model = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        # the options of a run are not those of the next one
+        run_options: dict[str, Any] = {**self._options, **options}
+        self.noise_model = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         assert self.shots >= 50, "Number of shots should be above 50"
         self.execute(circuit)
diff --git a/src/mqt/qudits/simulation/backends/misim.py b/src/mqt/qudits/simulation/backends/misim.py
index 8ed35db..0f7c8b2 100644
--- a/src/mqt/qudits/simulation/backends/misim.py
+++ b/src/mqt/qudits/simulation/backends/misim.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import operator
 from functools import reduce
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import numpy as np
 from typing_extensions import Unpack
@@ -36,13 +36,14 @@ class MISim(Backend):
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
 
-        self._options.update(options)
-        self.noise_model = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        # the options of a run are not those of the next one
+        run_options: dict[str, Any] = {**self._options, **options}
+        self.noise_model = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         if self.noise_model is not None:
             assert self.shots >= 50, "Number of shots should be above 50"
diff --git a/src/mqt/qudits/simulation/backends/tnsim.py b/src/mqt/qudits/simulation/backends/tnsim.py
index 3ac8a8d..8c1f367 100644
--- a/src/mqt/qudits/simulation/backends/tnsim.py
+++ b/src/mqt/qudits/simulation/backends/tnsim.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import operator
 from functools import reduce
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import numpy as np
 import tensornetwork as tn  # type: ignore[import-not-found]
@@ -39,13 +39,14 @@ class TNSim(Backend):
 
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
-        self._options.update(options)
-        self.noise_model: NoiseModel | None = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        # the options of a run are not those of the next one
+        run_options: dict[str, Any] = {**self._options, **options}
+        self.noise_model: NoiseModel | None = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         if self.noise_model is not None:
             assert self.shots >= 50, "Number of shots should be above 50"
-- 
2.43.0


From 36f6278ffc9c658dd0c8120d0ee74e22e9a41b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 42/47] fix: a random unitary gate had another matrix each time
 it was asked for

---
 src/mqt/qudits/quantum_circuit/gates/randu.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/randu.py b/src/mqt/qudits/quantum_circuit/gates/randu.py
index bf2aabc..c8d1cfa 100644
--- a/src/mqt/qudits/quantum_circuit/gates/randu.py
+++ b/src/mqt/qudits/quantum_circuit/gates/randu.py
@@ -36,10 +36,13 @@ class RandU(Gate):
             control_set=controls,
             qasm_tag="rdu",
         )
+        self._unitary: NDArray[np.complex128, np.complex128] | None = None
 
     def __array__(self) -> NDArray[np.complex128, np.complex128]:  # noqa: PLW3201
-        dim = reduce(operator.mul, self.dimensions)
-        return unitary_group.rvs(dim)
+        if self._unitary is None:
+            # drawn once, the gate keeps its matrix
+            self._unitary = unitary_group.rvs(reduce(operator.mul, self.dimensions))
+        return self._unitary.copy()
 
     @property
     def dimensions(self) -> list[int]:
-- 
2.43.0


From d3f343c73a3c19ecfa594273379dfe0312e6011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 43/47] fix: a variational search that ran out of time crashed
 and stopped all later ones

---
 .../ansatz/ansatz_solve_n_search.py                            | 3 +++
 .../twodit/variational_twodit_compilation/opt/optimizer.py     | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index 684a5e8..675be9f 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -50,6 +50,9 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
 
     duration = 3600 * (Optimizer.SINGLE_DIM_0 * Optimizer.SINGLE_DIM_1 / 4)
 
+    # an earlier search may have run out of time
+    Optimizer.timer_var = False
+
     result_queue: queue.Queue[tuple[float, list[float]]] = queue.Queue()
 
     thread = threading.Thread(target=Optimizer.solve_anneal, args=(bounds, ansatz_type, result_queue))
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
index e0ec224..b4d8b16 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
@@ -139,4 +139,5 @@ class Optimizer:
             result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
 
         except TimeoutError:
-            result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
+            # nothing was found in time, whatever an earlier search has left behind
+            result_queue.put((np.inf, []))
-- 
2.43.0


From 4b34e81aad40ce555ff8d237be2ed78baf90def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 44/47] fix: variational compilation of a gate put the result
 on the first two lines

---
 .../ansatz/instantiate.py                     | 33 ++++++++++++-------
 .../layered_compilation.py                    | 10 +++---
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
index e4c34f7..e5ac53f 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
@@ -8,7 +8,7 @@ import numpy as np
 from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz.ansatz_gen_utils import Primitive
 from mqt.qudits.compiler.twodit.variational_twodit_compilation.parametrize import generic_sud, params_splitter
 from mqt.qudits.quantum_circuit import gates
-from mqt.qudits.quantum_circuit.gates import CustomOne
+from mqt.qudits.quantum_circuit.gates import CustomOne, CustomTwo
 
 if typing.TYPE_CHECKING:
     from collections.abc import Sequence
@@ -18,7 +18,7 @@ if typing.TYPE_CHECKING:
 
 
 def ansatz_decompose(
-    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int]
+    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int], lines: list[int]
 ) -> Sequence[Gate]:
     if u is None:
         msg = "Custom Gate not set."
@@ -31,7 +31,7 @@ def ansatz_decompose(
             decomposition.append(u)
 
         decomposition.append(
-            CustomOne(circuit, "CUo_SUD", counter, generic_sud(params[i], dims[counter]), dims[counter])
+            CustomOne(circuit, "CUo_SUD", lines[counter], generic_sud(params[i], dims[counter]), dims[counter])
         )
 
         counter += 1
@@ -40,20 +40,31 @@ def ansatz_decompose(
     return decomposition[::-1]
 
 
-def create_cu_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_cu_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
     cu = Primitive.CUSTOM_PRIMITIVE
-    return ansatz_decompose(circuit, cu, params, dims)
+    if cu is not None and lines is not None and sorted(cu.reference_lines) != lines:
+        # the primitive is applied to the lines of the ansatz
+        cu = CustomTwo(circuit, "CUo_PRIMITIVE", lines, cu.to_matrix(), dims)
+    return ansatz_decompose(circuit, cu, params, dims, lines or [0, 1])
 
 
-def create_ms_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ms_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
+    lines = lines or [0, 1]
     params = params_splitter(p, dims)
-    ms = gates.MS(circuit, "MS", [0, 1], [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
+    ms = gates.MS(circuit, "MS", lines, [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
 
-    return ansatz_decompose(circuit, ms, params, dims)
+    return ansatz_decompose(circuit, ms, params, dims, lines)
 
 
-def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ls_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
+    lines = lines or [0, 1]
     params = params_splitter(p, dims)
 
     if 2 in dims:
@@ -63,6 +74,6 @@ def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int])
     else:
         theta = np.pi
 
-    ls = gates.LS(circuit, "LS", [0, 1], [theta], dims)  # ls_gate(theta, dim)
+    ls = gates.LS(circuit, "LS", lines, [theta], dims)  # ls_gate(theta, dim)
 
-    return ansatz_decompose(circuit, ls, params, dims)
+    return ansatz_decompose(circuit, ls, params, dims, lines)
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index ad80b61..9a89356 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -25,18 +25,20 @@ def variational_compile(
     layers: int,
     custom_primitive: Gate | None = None,
 ) -> QuantumCircuit:
-    dim_0, dim_1 = itemgetter(*target.reference_lines)(target.parent_circuit.dimensions)
+    # the matrix of the target is written in ascending order of its lines
+    lines = sorted(target.reference_lines)
+    dim_0, dim_1 = itemgetter(*lines)(target.parent_circuit.dimensions)
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
     _best_layer, _best_error, parameters = binary_search_compile(layers, ansatz_type)
 
     circuit = copy.deepcopy(target.parent_circuit)
     if ansatz_type == "MS":  # MS is 0
-        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "LS":  # LS is 1
-        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "CU":
-        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1], lines)
     else:
         raise ValueError
     circuit.set_instructions(gates)
-- 
2.43.0


From ceac5e96329c5c73bf046d56adaaf75cb028f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 45/47] fix: sparsification of a gate put its rotations on the
 first two lines

---
 .../variational_twodit_compilation/sparsifier.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index 7b6c837..b9ab055 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -36,18 +36,20 @@ def apply_rotations(
 def instantiate_rotations(circuit: QuantumCircuit, gate: Gate, params_list: list[float]) -> list[Gate]:
     gate = copy.deepcopy(gate)
     gate.parent_circuit = circuit
-    dims = typing.cast(list[int], gate.dimensions)
+    # the matrix of a gate is written in ascending order of its lines
+    line_0, line_1 = sorted(gate.reference_lines)
+    dims = [circuit.dimensions[line_0], circuit.dimensions[line_1]]
     params = params_splitter(params_list, dims)
 
     decomposition: list[Gate] = []
 
     # the right factors of the matrix product are applied first
     decomposition.extend((
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[2], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[3], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", line_0, generic_sud(params[2], dims[0]), dims[0]),
+        CustomOne(circuit, "CUo_SUD", line_1, generic_sud(params[3], dims[1]), dims[1]),
         gate,
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", line_0, generic_sud(params[0], dims[0]), dims[0]),
+        CustomOne(circuit, "CUo_SUD", line_1, generic_sud(params[1], dims[1]), dims[1]),
     ))
 
     return decomposition
@@ -122,7 +124,7 @@ def objective_function(thetas: list[float], m: NDArray[np.complex128, np.complex
 
 def sparsify(gate: Gate, tol: float = 0.1) -> QuantumCircuit:
     m = gate.to_matrix()
-    dims = typing.cast(list[int], gate.dimensions)
+    dims = [gate.parent_circuit.dimensions[line] for line in sorted(gate.reference_lines)]
 
     Optimizer.set_class_variables(m, tol, dims[0], dims[1])
     bounds = Optimizer.return_bounds()
-- 
2.43.0


From 4a94b3cab24477fbcf3d0af85aedc5788b7b61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 46/47] fix: the variational search used an inverted custom
 primitive as if it were not inverted

---
 .../variational_twodit_compilation/ansatz/ansatz_gen.py   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
index 48a2ec2..48fa388 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
@@ -16,7 +16,9 @@ if TYPE_CHECKING:
     from mqt.qudits.quantum_circuit.gate import Gate
 
 
-def prepare_ansatz(u: Gate | None, params: list[list[float]], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
+def prepare_ansatz(
+    u: Gate | NDArray[np.complex128] | None, params: list[list[float]], dims: list[int]
+) -> NDArray[np.complex128, np.complex128]:
     counter = 0
     unitary = gate_expand_to_circuit(np.identity(dims[0], dtype=complex), circuits_size=2, target=0, dims=dims)
 
@@ -39,7 +41,9 @@ def prepare_ansatz(u: Gate | None, params: list[list[float]], dims: list[int]) -
 def cu_ansatz(p: list[float], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
     params = params_splitter(p, dims)
     cu = Primitive.CUSTOM_PRIMITIVE
-    return prepare_ansatz(cu, params, dims)
+    # the matrix of the gate as it is applied in the circuit, an inverted one included
+    u = None if cu is None else cu.to_matrix()
+    return prepare_ansatz(u, params, dims)
 
 
 def ms_ansatz(p: list[float], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
-- 
2.43.0


From 4941d061602ecf21a7c8f4eb9b53d44f495e45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 47/47] fix: the decision-diagram simulator refuses gates it
 does not know instead of reading an uninitialised edge

---
 src/python/bindings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 89fa626..07d770c 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -502,7 +502,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   const auto& [tag, dag, dims, gate_type, target_qudits, params, control_set] =
       instruction;
 
-  dd::MDDPackage::mEdge gate;
+  dd::MDDPackage::mEdge gate{};
   auto numberRegs =
       static_cast<dd::QuantumRegisterCount>(dd->numberOfQuantumRegisters);
 
@@ -756,6 +756,10 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto target = static_cast<dd::QuantumRegister>(target_qudits.at(1));
     return dd->csum(numberRegs, cReg, target, dag);
   }
+  if (gate.nextNode == nullptr) {
+    throw std::invalid_argument("The gate " + tag +
+                                " is not supported for these dimensions");
+  }
   if (dag) {
     gate = dd->conjugateTranspose(gate);
   }
-- 
2.43.0

