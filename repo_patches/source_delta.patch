From 9c678548755c158704861dd5c5a0318e8a2d5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 01/80] fix: drop an identity gate from the pipelines of all
 its qubits in LocalOptimizer

---
 projectq/cengines/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 1cce731..2f84b2d 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -138,7 +138,7 @@ class LocalOptimizer(BasicEngine):
                     new_list = (
                         self._l[qubit_id][0 : gid[j]] + self._l[qubit_id][gid[j] + 1 :]  # noqa: E203  # noqa: E203
                     )
-                self._l[qubitids[j]] = new_list  # pylint: disable=undefined-loop-variable
+                    self._l[qubit_id] = new_list
                 i = 0
                 limit -= 1
                 continue
-- 
2.43.0


From 30467e84c7b01386ff341e0640b4a2f4c9de9571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 02/80] fix: keep the control state of a command when copying,
 inverting, merging and comparing it

---
 projectq/ops/_command.py                       | 14 +++++++++++++-
 projectq/setups/decompositions/controlstate.py |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 481efcc..662874a 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -116,6 +116,9 @@ class Command:  # pylint: disable=too-many-instance-attributes
         self.control_qubits = controls  # property
         self.engine = engine  # property
         self.control_state = control_state  # property
+        # NB: the control qubits were sorted above, keep each of their states with the qubit it has been specified for
+        order = sorted(range(len(controls)), key=lambda i: controls[i].id)
+        self._control_state = ''.join(self._control_state[i] for i in order)
 
     @property
     def qubits(self):
@@ -135,6 +138,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def get_inverse(self):
@@ -152,6 +156,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def is_identity(self):
@@ -173,13 +178,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Raises:
             NotMergeable: if the gates don't supply a get_merged()-function or can't be merged for other reasons.
         """
-        if self.tags == other.tags and self.all_qubits == other.all_qubits and self.engine == other.engine:
+        if (
+            self.tags == other.tags
+            and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
+            and self.engine == other.engine
+        ):
             return Command(
                 self.engine,
                 self.gate.get_merged(other.gate),
                 self.qubits,
                 self.control_qubits,
                 deepcopy(self.tags),
+                self.control_state,
             )
         raise projectq.ops.NotMergeable("Commands not mergeable.")
 
@@ -333,6 +344,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             and self.tags == other.tags
             and self.engine == other.engine
             and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
         ):
             return True
         return False
diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index b8d180e..d9c8686 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -33,7 +33,7 @@ def _decompose_controlstate(cmd):
                 X | ctrl
 
     # Resend the command with the `control_state` cleared
-    cmd.ctrl_state = '1' * len(cmd.control_state)
+    cmd.control_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
     cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
     Uncompute(orig_engine)
-- 
2.43.0


From f1ce4b2f787f57bff18cafb53a32cdf225e0e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 03/80] fix: do not treat negatively controlled gates as part
 of a restricted gate set

---
 projectq/setups/_utils.py            | 4 ++++
 projectq/setups/restrictedgateset.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 20c531a..3200090 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -25,6 +25,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import (
     CNOT,
     QFT,
@@ -135,6 +136,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            # None of the allowed gates is negatively controlled
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 202bb99..37c4575 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -31,6 +31,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
 from ._utils import high_level_gates, one_and_two_qubit_gates
@@ -154,6 +155,9 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            # None of the allowed gates is negatively controlled
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
-- 
2.43.0


From a24f347314027000e3a5577143cf9e4ea35cc84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 04/80] fix: keep CNOT in the gate sets of the AWS Braket
 setups

---
 projectq/setups/awsbraket.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/setups/awsbraket.py b/projectq/setups/awsbraket.py
index 46247ca..88d0179 100644
--- a/projectq/setups/awsbraket.py
+++ b/projectq/setups/awsbraket.py
@@ -28,6 +28,7 @@ that will be used in the backend.
 from projectq.backends._awsbraket._awsbraket_boto3_client import show_devices
 from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError
 from projectq.ops import (
+    CNOT,
     Barrier,
     H,
     R,
@@ -67,21 +68,21 @@ def get_engine_list(credentials=None, device=None):
     if device == 'SV1':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'Aspen-8':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'IonQ Device':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
-- 
2.43.0


From be76452e89df6bcbc7f2141e1391e16590464cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 05/80] fix: return the right inverse for ComparatorQuantum and
 emulate inverse addition with carry correctly

---
 projectq/libs/math/_gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index ad466d2..dadcfad 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -285,7 +285,7 @@ class _InverseAddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
-            if len(a) == 3:
+            if len(a) == 3 and a[1] < a[0]:
                 # Flip the last bit of the carry register
                 a[2] ^= 1
 
@@ -394,7 +394,7 @@ class ComparatorQuantumGate(BasicMathGate):
 
     def get_inverse(self):
         """Return the inverse of this gate."""
-        return AddQuantum
+        return ComparatorQuantum
 
 
 ComparatorQuantum = ComparatorQuantumGate()
-- 
2.43.0


From e2b986dd94b5332a78ccb44830a3f9d5fbaff1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 06/80] fix: decompose comparison, conditional addition and
 multiplication of quantum integers correctly

---
 projectq/libs/math/_default_rules.py |  6 ++--
 projectq/libs/math/_quantummath.py   | 41 ++++++++++------------------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/projectq/libs/math/_default_rules.py b/projectq/libs/math/_default_rules.py
index 7243fea..42fd715 100755
--- a/projectq/libs/math/_default_rules.py
+++ b/projectq/libs/math/_default_rules.py
@@ -89,11 +89,9 @@ def _replace_addquantum(cmd):
         quint_b = cmd.qubits[1]
         if len(cmd.qubits) == 3:
             carry = cmd.qubits[2]
-            with Control(eng, cmd.control_qubits):
-                quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
+            quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
         else:
-            with Control(eng, cmd.control_qubits):
-                quantum_conditional_add(eng, quint_a, quint_b, cmd.control_qubits)
+            quantum_conditional_add(eng, quint_a, quint_b, cmd.control_qubits)
 
 
 def _replace_inverse_add_quantum(cmd):
diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 59aa7cf..6793208 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -56,7 +56,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    if carry:
+    if carry and n_qubits > 2:
         CNOT | (quint_a[n_qubits - 2], carry)
 
     for j in range(n_qubits - 3, 0, -1):
@@ -206,7 +206,8 @@ def comparator(eng, quint_a, quint_b, comp):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    CNOT | (quint_a[n_qubits - 2], comp)
+    if n_qubits > 2:
+        CNOT | (quint_a[n_qubits - 2], comp)
 
     for j in range(n_qubits - 3, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
@@ -218,11 +219,11 @@ def comparator(eng, quint_a, quint_b, comp):
     with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
         X | comp
 
-    for k in range(0, n_qubits - 2):
+    for k in range(n_qubits - 3, -1, -1):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    for j in range(n_qubits - 3, 0, -1):
+    for j in range(1, n_qubits - 2):
         CNOT | (quint_a[j], quint_a[j + 1])
 
     for i in range(1, n_qubits - 1):
@@ -425,8 +426,9 @@ def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: di
     for i in range(1, n_a):
         CNOT | (quint_a[i], quint_b[i])
 
-    with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
-        X | z[0]
+    if n_a > 1:
+        with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
+            X | z[0]
 
     for j in range(n_a - 2, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
@@ -496,18 +498,11 @@ def quantum_multiplication(eng, quint_a, quint_b, product):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
 
-    with Control(eng, quint_b[1]):
-        AddQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-
-    for j in range(2, n_a):
+    for j in range(1, n_a):
         with Control(eng, quint_b[j]):
             AddQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a,
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
 
@@ -536,20 +531,14 @@ def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     if len(product) != ((2 * n_a) + 1):
         raise ValueError('product size must be 2*n + 1')
 
-    for j in range(2, n_a):
+    for j in range(n_a - 1, 0, -1):
         with Control(eng, quint_b[j]):
             SubtractQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a,
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
+
     for i in range(0, n_a):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
-
-    with Control(eng, quint_b[1]):
-        SubtractQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-- 
2.43.0


From 57d4fc4732991a2a4a52f73a81c33959115ff042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 07/80] fix: give modular addition the headroom its
 decomposition needs

---
 projectq/libs/math/_constantmath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 14c87e7..2217b47 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -56,6 +56,10 @@ def add_constant_modN(eng, constant, N, quint):  # pylint: disable=invalid-name
     if constant < 0 or constant > N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
 
+    if N > 2 ** (len(quint) - 1):
+        # The most significant qubit holds the sign of intermediate results and must not be part of the number
+        quint = list(quint) + list(eng.allocate_qubit())
+
     AddConstant(constant) | quint
 
     with Compute(eng):
-- 
2.43.0


From 2a2fe25190ced1ec0786bf84b58724f3442bad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 08/80] fix: accept a gate class listed for one qubit only on
 one qubit in linear and grid setups

---
 projectq/setups/_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 3200090..a655476 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -105,12 +105,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
     rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
-    allowed_gate_classes = []
+    allowed_gate_classes1 = []  # 1-qubit gates
+    allowed_gate_classes2 = []  # 2-qubit gates
     allowed_gate_instances = []
     if one_qubit_gates != "any":
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes1.append(gate)
             else:
                 allowed_gate_instances.append((gate, 0))
     if two_qubit_gates != "any":
@@ -120,13 +121,14 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 #  separate treatment
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes2.append(gate)
             else:
                 if isinstance(gate, ControlledGate):
                     allowed_gate_instances.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
                     allowed_gate_instances.append((gate, 0))
-    allowed_gate_classes = tuple(allowed_gate_classes)
+    allowed_gate_classes1 = tuple(allowed_gate_classes1)
+    allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances = tuple(allowed_gate_instances)
 
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
@@ -143,7 +145,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
             return True
-        if isinstance(cmd.gate, allowed_gate_classes):
+        if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
+            return True
+        if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
             return True
-- 
2.43.0


From 0043b0c7b3c61c71e33c6344d8e9cebf5a26f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 09/80] fix: make TimeEvolution hashable so that it can be
 counted

---
 projectq/ops/_time_evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index c28de10..1d6d05d 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -199,6 +199,10 @@ class TimeEvolution(BasicGate):
         """Not implemented as this object is a floating point type."""
         return NotImplemented
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return f"exp({-1j * self.time} * ({self.hamiltonian}))"
-- 
2.43.0


From ef29c6bf2aa3fa7cf6cc20f25f586e16541aa5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 10/80] fix: honour controls on |0> in the simulators

---
 .../backends/_sim/_classical_simulator.py     |  3 ++-
 projectq/backends/_sim/_simulator.py          | 19 ++++++++++++++++++-
 projectq/backends/_unitary.py                 |  7 ++++---
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index f873d10..5b52cfd 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -227,7 +227,8 @@ class ClassicalSimulator(BasicEngine):
             return
 
         controls_mask = self._mask(cmd.control_qubits)
-        meets_controls = self._state & controls_mask == controls_mask
+        controls_value = self._mask([qb for qb, ctrl in zip(cmd.control_qubits, cmd.control_state) if ctrl == '1'])
+        meets_controls = self._state & controls_mask == controls_value
 
         if isinstance(cmd.gate, XGate):
             if not (len(cmd.qubits) == 1 and len(cmd.qubits[0]) == 1):
diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index f3365fb..a5802e7 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -21,12 +21,14 @@ implementation is used as an alternative.
 
 import math
 import random
+from copy import deepcopy
 
 from projectq.cengines import BasicEngine
 from projectq.meta import LogicalQubitIDTag, get_control_count, has_negative_control
 from projectq.ops import (
     Allocate,
     BasicMathGate,
+    CtrlAll,
     Deallocate,
     FlushGate,
     Measure,
@@ -321,6 +323,11 @@ class Simulator(BasicEngine):
         """
         return self._simulator.cheat()
 
+    def _flip(self, ids):
+        """Apply a NOT gate to each of the qubits."""
+        for qubit_id in ids:
+            self._simulator.apply_controlled_gate([[0, 1], [1, 0]], [qubit_id], [])
+
     def _handle(self, cmd):  # pylint: disable=too-many-branches,too-many-locals,too-many-statements
         """
         Handle all commands.
@@ -335,7 +342,17 @@ class Simulator(BasicEngine):
             Exception: If a non-single-qubit gate needs to be processed (which should never happen due to
                 is_available).
         """
-        if cmd.gate == Measure:
+        if has_negative_control(cmd) and cmd.gate != Measure:
+            # The simulator kernels only know controls on |1>: flip the qubits controlling on |0> before and after.
+            negative_ids = [qb.id for qb, ctrl in zip(cmd.control_qubits, cmd.control_state) if ctrl == '0']
+            positive_cmd = deepcopy(cmd)
+            positive_cmd.control_state = CtrlAll.One
+            self._flip(negative_ids)
+            try:
+                self._handle(positive_cmd)
+            finally:
+                self._flip(negative_ids)
+        elif cmd.gate == Measure:
             if get_control_count(cmd) != 0:
                 raise ValueError('Cannot have control qubits with a measurement gate!')
             ids = [qb.id for qr in cmd.qubits for qb in qr]
diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8941b1..a91f4d0 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -28,14 +28,14 @@ from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate, Meas
 from projectq.types import WeakQubitRef
 
 
-def _qidmask(target_ids, control_ids, n_qubits):
+def _qidmask(target_ids, control_ids, control_state, n_qubits):
     """
     Calculate index masks.
 
     Args:
         target_ids (list): list of target qubit indices
         control_ids (list): list of control qubit indices
-        control_state (list): list of states for the control qubits (0 or 1)
+        control_state (str): states of the control qubits ('0' or '1')
         n_qubits (int): number of qubits
     """
     mask_list = []
@@ -44,7 +44,7 @@ def _qidmask(target_ids, control_ids, n_qubits):
     irel_ids = np.delete(all_ids, control_ids + target_ids)
 
     if len(control_ids) > 0:
-        cmask = np.where(np.all(perms[:, control_ids] == [1] * len(control_ids), axis=1))
+        cmask = np.where(np.all(perms[:, control_ids] == [int(ctrl) for ctrl in control_state], axis=1))
     else:
         cmask = np.array(range(perms.shape[0]))
 
@@ -238,6 +238,7 @@ class UnitarySimulator(BasicEngine):
             mask_list = _qidmask(
                 [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr],
                 [self._qubit_map[qb.id] for qb in cmd.control_qubits],
+                cmd.control_state,
                 self._num_qubits,
             )
             for mask in mask_list:
-- 
2.43.0


From 16b8d15dde941ab453c4ff28ac3bc40f2899785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 11/80] fix: apply multi-qubit gates to the qubits in the given
 order in UnitarySimulator

---
 projectq/backends/_unitary.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a91f4d0..c78efbb 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -58,7 +58,11 @@ def _qidmask(target_ids, control_ids, control_state, n_qubits):
     else:
         irel_mask = np.array(range(perms.shape[0]))
         mask_list.append(np.intersect1d(irel_mask, cmask))
-    return mask_list
+    # order the entries of each mask by the bits of the target qubits, in the order in which the targets are given
+    offsets = np.array(
+        [sum(((j >> i) & 1) << target for i, target in enumerate(target_ids)) for j in range(2 ** len(target_ids))]
+    )
+    return [mask[0] + offsets for mask in mask_list]
 
 
 class UnitarySimulator(BasicEngine):
-- 
2.43.0


From 6db6ded7b452bf056910e28294a480f51c6a0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 12/80] fix: keep the state of UnitarySimulator consistent
 across flushes, allocations, deallocations and measurements

---
 projectq/backends/_unitary.py | 42 ++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index c78efbb..c567109 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -96,11 +96,11 @@ class UnitarySimulator(BasicEngine):
         """Initialize a UnitarySimulator object."""
         super().__init__()
         self._qubit_map = {}
-        self._unitary = [1]
+        self._unitary = np.identity(1)
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
-        self._state = [1]
+        self._state = np.ones(1, dtype=complex)
         self._history = []
 
     @property
@@ -173,11 +173,15 @@ class UnitarySimulator(BasicEngine):
         if not self.is_last_engine:
             self.send(command_list)
 
-    def _flush(self):
-        """Flush the simulator state."""
-        if not self._is_flushed:
-            self._is_flushed = True
-            self._state = self._unitary @ self._state
+    def _restart_unitary(self):
+        """Move the current unitary to the history after a measurement or deallocation and start a new one."""
+        warnings.warn(
+            "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
+            "previous unitary can be accessed in history"
+        )
+        self._history.append(self._unitary)
+        self._unitary = np.identity(2**self._num_qubits, dtype=complex)
+        self._is_valid = True
 
     def _handle(self, cmd):
         """
@@ -190,13 +194,19 @@ class UnitarySimulator(BasicEngine):
             RuntimeError: If a measurement is performed before flush gate.
         """
         if isinstance(cmd.gate, AllocateQubitGate):
+            if len(self._unitary) != 2**self._num_qubits:
+                # a qubit has been deallocated since the last gate
+                self._restart_unitary()
             self._qubit_map[cmd.qubits[0][0].id] = self._num_qubits
             self._num_qubits += 1
             self._unitary = np.kron(np.identity(2), self._unitary)
-            self._state.extend([0] * len(self._state))
+            self._state = np.concatenate([self._state, np.zeros_like(self._state)])
 
         elif isinstance(cmd.gate, DeallocateQubitGate):
-            pos = self._qubit_map[cmd.qubits[0][0].id]
+            # the state of the other qubits is the one for an outcome of measuring the qubit being removed
+            value = int(self.measure_qubits([cmd.qubits[0][0].id])[0])
+            pos = self._qubit_map.pop(cmd.qubits[0][0].id)
+            self._state = self._state.reshape(-1, 2, 2**pos)[:, value, :].reshape(-1)
             self._qubit_map = {key: value - 1 if value > pos else value for key, value in self._qubit_map.items()}
             self._num_qubits -= 1
             self._is_valid = False
@@ -224,19 +234,10 @@ class UnitarySimulator(BasicEngine):
                 self.main_engine.set_measurement_result(qb, res)
 
         elif isinstance(cmd.gate, FlushGate):
-            self._flush()
+            self._is_flushed = True
         else:
             if not self._is_valid:
-                self._flush()
-
-                warnings.warn(
-                    "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
-                    "previous unitary can be accessed in history"
-                )
-                self._history.append(self._unitary)
-                self._unitary = np.identity(2**self._num_qubits, dtype=complex)
-                self._state = np.array([1] + ([0] * (2**self._num_qubits - 1)), dtype=complex)
-                self._is_valid = True
+                self._restart_unitary()
 
             self._is_flushed = False
             mask_list = _qidmask(
@@ -249,6 +250,7 @@ class UnitarySimulator(BasicEngine):
                 cache = np.identity(2**self._num_qubits, dtype=complex)
                 cache[np.ix_(mask, mask)] = cmd.gate.matrix
                 self._unitary = cache @ self._unitary
+                self._state = cache @ self._state
 
     def measure_qubits(self, ids):
         """
-- 
2.43.0


From 82130f9ab9abf45d77b5bfdadac9bc45482833ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 13/80] fix: never pick an outcome of zero probability in a
 measurement

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 11 +++++++----
 projectq/backends/_sim/_pysim.py                 | 13 ++++++++-----
 projectq/backends/_unitary.py                    | 13 ++++++++-----
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 1a84723..bbdbbbd 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -154,10 +154,13 @@ public:
 
         // pick entry at random with probability |entry|^2
         std::size_t pick = 0;
-        while (P < rnd && pick < vec_.size())
-            P += std::norm(vec_[pick++]);
-
-        pick--;
+        for (std::size_t i = 0; i < vec_.size() && P <= rnd; ++i){
+            calc_type const p = std::norm(vec_[i]);
+            P += p;
+            // never pick an entry of zero probability, not even for rnd at either end of [0, 1)
+            if (p > 0.)
+                pick = i;
+        }
         // determine result vector (boolean values for each qubit)
         // and create mask to detect bad entries (i.e., entries that don't agree with measurement)
         res = std::vector<bool>(ids.size());
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index f6fb58f..1eff3ef 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -76,11 +76,14 @@ class Simulator:
         random_outcome = random.random()
         val = 0.0
         i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
-            val += _np.abs(self._state[i_picked]) ** 2
-            i_picked += 1
-
-        i_picked -= 1
+        for i, _state in enumerate(self._state):
+            prob = _np.abs(_state) ** 2
+            val += prob
+            # never pick an entry of zero probability, not even for an outcome at either end of [0, 1)
+            if prob > 0.0:
+                i_picked = i
+            if val > random_outcome:
+                break
 
         pos = [self._map[ID] for ID in ids]
         res = [False] * len(pos)
diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index c567109..6391209 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -265,11 +265,14 @@ class UnitarySimulator(BasicEngine):
         random_outcome = random.random()
         val = 0.0
         i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
-            val += np.abs(self._state[i_picked]) ** 2
-            i_picked += 1
-
-        i_picked -= 1
+        for i, _state in enumerate(self._state):
+            prob = np.abs(_state) ** 2
+            val += prob
+            # never pick an entry of zero probability, not even for an outcome at either end of [0, 1)
+            if prob > 0.0:
+                i_picked = i
+            if val > random_outcome:
+                break
 
         pos = [self._qubit_map[ID] for ID in ids]
         res = [False] * len(pos)
-- 
2.43.0


From 7f0de1d81d3ede3bd3fb12e68c5b06af376a0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 14/80] fix: reject simulator queries on unknown qubits or with
 lists of different length

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 11 ++++++++++-
 projectq/backends/_sim/_pysim.py                 | 10 ++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index bbdbbbd..a5ce101 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -294,6 +294,8 @@ public:
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
         run();
+        if (!check_ids(ids))
+            throw(std::runtime_error("get_expectation_value(): Unknown qubit id. Please make sure you have called eng.flush()."));
         calc_type expectation = 0.;
 
         StateVector current_state; // avoid costly memory reallocations
@@ -326,6 +328,8 @@ public:
 
     void apply_qubit_operator(ComplexTermsDict const& td, std::vector<unsigned> const& ids){
         run();
+        if (!check_ids(ids))
+            throw(std::runtime_error("apply_qubit_operator(): Unknown qubit id. Please make sure you have called eng.flush()."));
         StateVector new_state, current_state; // avoid costly memory reallocations
         if( tmpBuff1_.capacity() >= vec_.size() )
           std::swap(tmpBuff1_, new_state);
@@ -357,6 +361,8 @@ public:
         run();
         if (!check_ids(ids))
             throw(std::runtime_error("get_probability(): Unknown qubit id. Please make sure you have called eng.flush()."));
+        if (bit_string.size() < ids.size())
+            throw(std::length_error("get_probability(): bit_string is shorter than ids"));
         std::size_t mask = 0, bit_str = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
             mask |= 1UL << map_[ids[i]];
@@ -373,6 +379,8 @@ public:
     complex_type const& get_amplitude(std::vector<bool> const& bit_string,
                                       std::vector<unsigned> const& ids){
         run();
+        if (bit_string.size() < ids.size())
+            throw(std::length_error("get_amplitude(): bit_string is shorter than ids"));
         std::size_t chk = 0;
         std::size_t index = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
@@ -443,7 +451,8 @@ public:
     void set_wavefunction(StateVector const& wavefunction, std::vector<unsigned> const& ordering){
         run();
         // make sure there are 2^n amplitudes for n qubits
-        assert(wavefunction.size() == (1UL << ordering.size()));
+        if (wavefunction.size() != (1UL << ordering.size()))
+            throw(std::length_error("set_wavefunction(): The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
         if (map_.size() != ordering.size() || !check_ids(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 1eff3ef..571bf46 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -237,6 +237,11 @@ class Simulator:
         Returns:
             Expectation value
         """
+        for qubit_id in ids:
+            if qubit_id not in self._map:
+                raise RuntimeError(
+                    "get_expectation_value(): Unknown qubit id. Please make sure you have called eng.flush()."
+                )
         expectation = 0.0
         current_state = _np.copy(self._state)
         for term, coefficient in terms_dict:
@@ -254,6 +259,11 @@ class Simulator:
             terms_dict (dict): Operator dictionary (see QubitOperator.terms)
             ids (list[int]): List of qubit ids upon which the operator acts.
         """
+        for qubit_id in ids:
+            if qubit_id not in self._map:
+                raise RuntimeError(
+                    "apply_qubit_operator(): Unknown qubit id. Please make sure you have called eng.flush()."
+                )
         new_state = _np.zeros_like(self._state)
         current_state = _np.copy(self._state)
         for term, coefficient in terms_dict:
-- 
2.43.0


From abb4e3dce9f2bef60530d45e65e6eb5cb3222f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 15/80] fix: evolve under an identity Hamiltonian in the Python
 simulator

---
 projectq/backends/_sim/_pysim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 571bf46..dca6afa 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -357,7 +357,7 @@ class Simulator:
             while nrm_change > 1.0e-12:
                 coeff = (-time * 1j) / float(scale * (j + 1))
                 current_state = _np.copy(self._state)
-                update = 0j
+                update = _np.zeros_like(self._state)
                 for term, tcoeff in terms_dict:
                     self._apply_term(term, ids)
                     self._state *= tcoeff
-- 
2.43.0


From 96c34cf67dad7414a7fa9a8a972cb83ee8500c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 16/80] fix: leave the C++ simulator unchanged when it runs out
 of memory

---
 .../backends/_sim/_cppkernels/simulator.hpp    | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index a5ce101..48ca1f9 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -54,11 +54,13 @@ public:
 
     void allocate_qubit(unsigned id){
         if (map_.count(id) == 0){
-            map_[id] = N_++;
             StateVector newvec; // avoid large memory allocations
-            if( tmpBuff1_.capacity() >= (1UL << N_) )
+            if( tmpBuff1_.capacity() >= (1UL << (N_+1)) )
               std::swap(newvec, tmpBuff1_);
-            newvec.resize(1UL << N_);
+            newvec.resize(1UL << (N_+1));
+            // only register the qubit once there is memory for it
+            map_[id] = N_;
+            N_++;
 #pragma omp parallel for schedule(static)
             for (std::size_t i = 0; i < newvec.size(); ++i)
                 newvec[i] = (i < vec_.size())?vec_[i]:0.;
@@ -411,14 +413,20 @@ public:
         }
         unsigned s = std::abs(time) * op_nrm + 1.;
         complex_type correction = std::exp(-time * I * tr / (double)s);
+        // get all the memory before touching the wave function
         auto output_state = vec_;
+        auto current_state = vec_;
+        auto update = StateVector(vec_.size(), 0.);
         auto ctrlmask = get_control_mask(ctrl);
         for (unsigned i = 0; i < s; ++i){
             calc_type nrm_change = 1.;
             for (unsigned k = 0; nrm_change > 1.e-12; ++k){
                 auto coeff = (-time * I) / double(s * (k + 1));
-                auto current_state = vec_;
-                auto update = StateVector(vec_.size(), 0.);
+                #pragma omp parallel for schedule(static)
+                for (std::size_t j = 0; j < vec_.size(); ++j){
+                    current_state[j] = vec_[j];
+                    update[j] = 0.;
+                }
                 for (auto const& tup : td){
                     apply_term(tup.first, ids, {});
                     #pragma omp parallel for schedule(static)
-- 
2.43.0


From 6b4bf2841b4563b80d413d137a174a1c6455982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 17/80] fix: do not share the scratch buffers of the C++
 simulator between threads

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 48ca1f9..a58a926 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -591,10 +591,11 @@ private:
     std::function<double()> rng_;
 
     // large array buffers to avoid costly reallocations
-    static StateVector tmpBuff1_, tmpBuff2_;
+    // (one pair per thread: simulators running in different threads must not share them)
+    static thread_local StateVector tmpBuff1_, tmpBuff2_;
 };
 
-Simulator::StateVector Simulator::tmpBuff1_;
-Simulator::StateVector Simulator::tmpBuff2_;
+thread_local Simulator::StateVector Simulator::tmpBuff1_;
+thread_local Simulator::StateVector Simulator::tmpBuff2_;
 
 #endif
-- 
2.43.0


From ec79bfe4e939aad725a06407310d0e8a56009f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 18/80] fix: do not overflow in the modular arithmetic of the
 C++ simulator

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index a58a926..50d4876 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -284,14 +284,14 @@ public:
     template<class QuReg>
     inline void emulate_math_addConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x + a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = modulo(static_cast<long long>(x) + a, N);}, quregs, ctrl, true);
     }
 
     // faster version without calling python
     template<class QuReg>
     inline void emulate_math_multiplyByConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = modulo(static_cast<long long>(x) * a, N);}, quregs, ctrl, true);
     }
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
@@ -568,6 +568,12 @@ private:
         }
         run();
     }
+    // remainder with the sign of N, as in Python
+    static int modulo(long long x, int N){
+        long long r = x % N;
+        return static_cast<int>((r != 0 && (r < 0) != (N < 0)) ? r + N : r);
+    }
+
     std::size_t get_control_mask(std::vector<unsigned> const& ctrls){
         std::size_t ctrlmask = 0;
         for (auto c : ctrls)
-- 
2.43.0


From 18685a138bc7ffee2737cd3b8d81da78006a8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 19/80] fix: do not count a compiler engine which could not be
 inserted

---
 projectq/meta/_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projectq/meta/_util.py b/projectq/meta/_util.py
index 79f4dc4..5471b14 100755
--- a/projectq/meta/_util.py
+++ b/projectq/meta/_util.py
@@ -26,11 +26,11 @@ def insert_engine(prev_engine, engine_to_insert):
         engine_to_insert (projectq.cengines.BasicEngine): The engine to insert at the insertion point.
     """
     if prev_engine.main_engine is not None:
-        prev_engine.main_engine.n_engines += 1
-
-        if prev_engine.main_engine.n_engines > prev_engine.main_engine.n_engines_max:
+        if prev_engine.main_engine.n_engines >= prev_engine.main_engine.n_engines_max:
             raise RuntimeError('Too many compiler engines added to the MainEngine!')
 
+        prev_engine.main_engine.n_engines += 1
+
     engine_to_insert.main_engine = prev_engine.main_engine
     engine_to_insert.next_engine = prev_engine.next_engine
     prev_engine.next_engine = engine_to_insert
-- 
2.43.0


From bc2343cd58dee93f5de96a7dc7eeca44b8e519bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 20/80] fix: remove the engines of aborted meta sections from
 the compiler chain

---
 projectq/cengines/_basicmapper.py |  6 +++--
 projectq/meta/_compute.py         | 41 ++++++++++++++++++++++---------
 projectq/meta/_control.py         | 10 +++++---
 projectq/meta/_dagger.py          | 23 +++++++++++------
 projectq/meta/_loop.py            | 24 ++++++++++++++----
 projectq/meta/_util.py            | 28 +++++++++++++++++++++
 6 files changed, 101 insertions(+), 31 deletions(-)

diff --git a/projectq/cengines/_basicmapper.py b/projectq/cengines/_basicmapper.py
index 45f477d..1326027 100644
--- a/projectq/cengines/_basicmapper.py
+++ b/projectq/cengines/_basicmapper.py
@@ -76,8 +76,10 @@ class BasicMapperEngine(BasicEngine):
 
             tagger_eng = CommandModifier(add_logical_id)
             insert_engine(self, tagger_eng)
-            self.send([new_cmd])
-            drop_engine_after(self)
+            try:
+                self.send([new_cmd])
+            finally:
+                drop_engine_after(self)
         else:
             self.send([new_cmd])
 
diff --git a/projectq/meta/_compute.py b/projectq/meta/_compute.py
index 84cde8a..c3b589f 100755
--- a/projectq/meta/_compute.py
+++ b/projectq/meta/_compute.py
@@ -25,7 +25,7 @@ from projectq.cengines import BasicEngine, CommandModifier
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engine, drop_engine_after, insert_engine
 
 
 class NoComputeSectionError(Exception):
@@ -131,8 +131,10 @@ class ComputeEngine(BasicEngine):
 
                 tagger_eng = CommandModifier(add_uncompute)
                 insert_engine(self, tagger_eng)
-                new_local_qb = self.allocate_qubit()
-                drop_engine_after(self)
+                try:
+                    new_local_qb = self.allocate_qubit()
+                finally:
+                    drop_engine_after(self)
 
                 new_local_id[cmd.qubits[0][0].id] = deepcopy(new_local_qb[0].id)
                 # Set id of new_local_qb to -1 such that it doesn't send a
@@ -314,9 +316,17 @@ class Compute:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
-        # notify ComputeEngine that the compute section is done
-        self._compute_eng.end_compute()
-        self._compute_eng = None
+        try:
+            if exc_type is None:
+                # notify ComputeEngine that the compute section is done
+                self._compute_eng.end_compute()
+                return
+            drop_engine(self.engine, self._compute_eng)
+        except QubitManagementError:
+            drop_engine(self.engine, self._compute_eng)
+            raise
+        finally:
+            self._compute_eng = None
 
 
 class CustomUncompute:
@@ -373,8 +383,15 @@ class CustomUncompute:
         # If an error happens in this context, qubits might not have been
         # deallocated because that code section was not yet executed,
         # so don't check and raise an additional error.
-        if exc_type is not None:
-            return
+        try:
+            if exc_type is not None:
+                return
+            self._check_qubits()
+        finally:
+            # remove uncompute engine
+            drop_engine(self.engine, self._uncompute_eng)
+
+    def _check_qubits(self):
         # Check that all qubits allocated within Compute or within
         # CustomUncompute have been deallocated.
         all_allocated_qubits = self._allocated_qubit_ids.union(self._uncompute_eng._allocated_qubit_ids)
@@ -385,8 +402,6 @@ class CustomUncompute:
                 + "been allocated in the with Compute(eng) or with "
                 + "CustomUncompute(eng) context."
             )
-        # remove uncompute engine
-        drop_engine_after(self.engine)
 
 
 def Uncompute(engine):  # pylint: disable=invalid-name
@@ -404,5 +419,7 @@ def Uncompute(engine):  # pylint: disable=invalid-name
     compute_eng = engine.next_engine
     if not isinstance(compute_eng, ComputeEngine):
         raise NoComputeSectionError("Invalid call to Uncompute: No corresponding 'with Compute' statement found.")
-    compute_eng.run_uncompute()
-    drop_engine_after(engine)
+    try:
+        compute_eng.run_uncompute()
+    finally:
+        drop_engine(engine, compute_eng)
diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 1768927..c778aac 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -27,7 +27,7 @@ from projectq.ops import ClassicalInstructionGate, CtrlAll
 from projectq.types import BasicQubit
 
 from ._compute import ComputeTag, UncomputeTag
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engine, insert_engine
 
 
 def canonical_ctrl_state(ctrl_state, num_qubits):
@@ -154,18 +154,20 @@ class Control:
             qubits = [qubits]
         self._qubits = qubits
         self._state = canonical_ctrl_state(ctrl_state, len(self._qubits))
+        self._control_eng = None
 
     def __enter__(self):
         """Context manager enter function."""
         if len(self._qubits) > 0:
-            engine = ControlEngine(self._qubits, self._state)
-            insert_engine(self.engine, engine)
+            self._control_eng = ControlEngine(self._qubits, self._state)
+            insert_engine(self.engine, self._control_eng)
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         # remove control handler from engine list (i.e. skip it)
         if len(self._qubits) > 0:
-            drop_engine_after(self.engine)
+            drop_engine(self.engine, self._control_eng)
+            self._control_eng = None
 
 
 def get_control_count(cmd):
diff --git a/projectq/meta/_dagger.py b/projectq/meta/_dagger.py
index f2a7dc2..e68cde7 100755
--- a/projectq/meta/_dagger.py
+++ b/projectq/meta/_dagger.py
@@ -25,7 +25,7 @@ from projectq.cengines import BasicEngine
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engine, forget_qubits, insert_engine
 
 
 class DaggerEngine(BasicEngine):
@@ -132,10 +132,17 @@ class Dagger:
         # If an error happens in this context, qubits might not have been
         # deallocated because that code section was not yet executed,
         # so don't check and raise an additional error.
-        if exc_type is not None:
-            return
-        # run dagger engine
-        self._dagger_eng.run()
-        self._dagger_eng = None
-        # remove dagger handler from engine list (i.e. skip it)
-        drop_engine_after(self.engine)
+        try:
+            if exc_type is not None:
+                forget_qubits(self.engine, self._dagger_eng._allocated_qubit_ids)
+                return
+            # run dagger engine
+            try:
+                self._dagger_eng.run()
+            except QubitManagementError:
+                forget_qubits(self.engine, self._dagger_eng._allocated_qubit_ids)
+                raise
+        finally:
+            # remove dagger handler from engine list (i.e. skip it)
+            drop_engine(self.engine, self._dagger_eng)
+            self._dagger_eng = None
diff --git a/projectq/meta/_loop.py b/projectq/meta/_loop.py
index 5fd9415..a4684f9 100755
--- a/projectq/meta/_loop.py
+++ b/projectq/meta/_loop.py
@@ -28,7 +28,7 @@ from projectq.cengines import BasicEngine
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engine, forget_qubits, insert_engine
 
 
 class LoopTag:  # pylint: disable=too-few-public-methods
@@ -125,6 +125,11 @@ class LoopEngine(BasicEngine):
             if self._deallocated_qubit_ids != self._allocated_qubit_ids:
                 raise QubitManagementError(error_message)
 
+    def discard(self):
+        """Drop the stored commands of a loop body which cannot be executed."""
+        if not self._next_engines_support_loop_tag or self._tag.num == 0:
+            forget_qubits(self, self._allocated_qubit_ids)
+
     def receive(self, command_list):  # pylint: disable=too-many-branches
         """
         Receive (and potentially temporarily store) all commands.
@@ -249,7 +254,16 @@ class Loop:
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         if self.num != 1:
-            # remove loop handler from engine list (i.e. skip it)
-            self._loop_eng.run()
-            self._loop_eng = None
-            drop_engine_after(self.engine)
+            try:
+                if exc_type is not None:
+                    self._loop_eng.discard()
+                    return
+                try:
+                    self._loop_eng.run()
+                except QubitManagementError:
+                    self._loop_eng.discard()
+                    raise
+            finally:
+                # remove loop handler from engine list (i.e. skip it)
+                drop_engine(self.engine, self._loop_eng)
+                self._loop_eng = None
diff --git a/projectq/meta/_util.py b/projectq/meta/_util.py
index 5471b14..4036372 100755
--- a/projectq/meta/_util.py
+++ b/projectq/meta/_util.py
@@ -53,3 +53,31 @@ def drop_engine_after(prev_engine):
     dropped_engine.next_engine = None
     dropped_engine.main_engine = None
     return dropped_engine
+
+
+def drop_engine(prev_engine, engine_to_drop):
+    """
+    Remove an engine from the singly-linked list of engines.
+
+    Engines which sections left unfinished by an exception inserted in between are removed as well.
+
+    Args:
+        prev_engine (projectq.cengines.BasicEngine): An engine before the engine to drop.
+        engine_to_drop (projectq.cengines.BasicEngine): The engine to drop.
+    """
+    while drop_engine_after(prev_engine) is not engine_to_drop:
+        pass
+
+
+def forget_qubits(engine, qubit_ids):
+    """
+    Invalidate qubits whose allocation has been discarded, such that they do not send a deallocate gate.
+
+    Args:
+        engine (projectq.cengines.BasicEngine): An engine.
+        qubit_ids (set<int>): IDs of the qubits which have never been allocated on the backend.
+    """
+    if engine.main_engine is not None:
+        for active_qubit in list(engine.main_engine.active_qubits):
+            if active_qubit.id in qubit_ids:
+                active_qubit.id = -1
-- 
2.43.0


From 487aadbb2923a96cfbcbe02b205dba08f97ffda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 21/80] fix: never give two live qubits the same position in
 BoundedQubitMapper

---
 projectq/backends/_ionq/_ionq_mapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/backends/_ionq/_ionq_mapper.py b/projectq/backends/_ionq/_ionq_mapper.py
index e77b92c..6e39335 100644
--- a/projectq/backends/_ionq/_ionq_mapper.py
+++ b/projectq/backends/_ionq/_ionq_mapper.py
@@ -43,6 +43,9 @@ class BoundedQubitMapper(BasicMapperEngine):
             if qubit_id in current_mapping:
                 raise RuntimeError(f"Qubit with id {qubit_id} has already been allocated!")
 
+            # skip the positions of qubits which are still alive after a flush
+            while self._qubit_idx in current_mapping.values():
+                self._qubit_idx += 1
             if self._qubit_idx >= self.max_qubits:
                 raise RuntimeError(f"Cannot allocate more than {self.max_qubits} qubits!")
 
-- 
2.43.0


From 7d8b4fac66b9c620622745cc218fd99d16b4491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 22/80] fix: give the inverse quantum arithmetic gates an
 inverse

---
 projectq/libs/math/_gates.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index dadcfad..83898df 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -283,6 +283,10 @@ class _InverseAddQuantumGate(BasicMathGate):
         """Return a string representation of the object."""
         return "_InverseAddQuantum"
 
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return AddQuantum
+
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
             if len(a) == 3 and a[1] < a[0]:
@@ -484,6 +488,10 @@ class _InverseDivideQuantumGate(BasicMathGate):
         """Return a string representation of the object."""
         return "_InverseDivideQuantum"
 
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return DivideQuantum
+
 
 class MultiplyQuantumGate(BasicMathGate):
     """
@@ -552,3 +560,7 @@ class _InverseMultiplyQuantumGate(BasicMathGate):
     def __str__(self):
         """Return a string representation of the object."""
         return "_InverseMultiplyQuantum"
+
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return MultiplyQuantum
-- 
2.43.0


From a922c742d5b715404fb0f7bac983fba256f5f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 23/80] fix: do not grow the rule set by inverse rules while
 replacing gates

---
 projectq/cengines/_replacer/_replacer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 69cedf7..c63d1dd 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -176,7 +176,10 @@ class AutoReplacer(BasicEngine):
                     if level < len(inverse_mro):
                         inv_class_name = inverse_mro[level].__name__
                         try:
-                            potential_decomps += [d.get_inverse_decomposition() for d in rules[inv_class_name]]
+                            # NB: do not extend the list of the rule set itself
+                            potential_decomps = potential_decomps + [
+                                d.get_inverse_decomposition() for d in rules[inv_class_name]
+                            ]
                         except KeyError:
                             pass
                         # throw out the ones which don't recognize the command
-- 
2.43.0


From facbca08e886135d441d21743972dfed170308bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 24/80] fix: decompose arithmetic gates on one or two qubits
 before the mapper

---
 projectq/setups/_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index a655476..c747a94 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -131,6 +131,10 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
     allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances = tuple(allowed_gate_instances)
 
+    def one_and_two_qubit_gates_without_math(eng, cmd):
+        # The decomposition of a math gate may need additional qubits, which can only be allocated before the mapper
+        return not isinstance(cmd.gate, BasicMathGate) and one_and_two_qubit_gates(eng, cmd)
+
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
         all_qubits = [q for qr in cmd.all_qubits for q in qr]
         if len(all_qubits) > 2:  # pragma: no cover
@@ -160,7 +164,7 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         LocalOptimizer(5),
         AutoReplacer(rule_set),
         TagRemover(),
-        InstructionFilter(one_and_two_qubit_gates),
+        InstructionFilter(one_and_two_qubit_gates_without_math),
         LocalOptimizer(5),
         mapper,
         AutoReplacer(rule_set),
-- 
2.43.0


From 31b1a16f125e2c65fbacc8aa97ec660c001368ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 25/80] fix: do not take a matrix gate for one of the gates of
 a restricted gate set

---
 projectq/setups/restrictedgateset.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 37c4575..41a77c7 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -111,7 +111,7 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
             if inspect.isclass(gate):
                 allowed_gate_classes1.append(gate)
             elif isinstance(gate, BasicGate):
-                allowed_gate_instances1.append(gate)
+                allowed_gate_instances1.append((gate, 0))
             else:
                 raise TypeError("unsupported one_qubit_gates argument")
     if two_qubit_gates != "any":
@@ -150,6 +150,13 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
     allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances2 = tuple(allowed_gate_instances2)
 
+    def is_one_of(gate, n_controls, instances):
+        # NB: a MatrixGate which compares equal to one of the gates is not known to the target
+        return any(
+            type(gate) is type(allowed_gate) and gate == allowed_gate and n_controls == n_allowed
+            for allowed_gate, n_allowed in instances
+        )
+
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument,too-many-return-statements
         all_qubits = [q for qr in cmd.all_qubits for q in qr]
         if isinstance(cmd.gate, ClassicalInstructionGate):
@@ -164,15 +171,15 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
             return True
         if isinstance(cmd.gate, allowed_gate_classes):
             return True
-        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
+        if is_one_of(cmd.gate, len(cmd.control_qubits), allowed_gate_instances):
             return True
         if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
             return True
         if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
-        if cmd.gate in allowed_gate_instances1 and len(all_qubits) == 1:
+        if is_one_of(cmd.gate, len(cmd.control_qubits), allowed_gate_instances1) and len(all_qubits) == 1:
             return True
-        if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances2 and len(all_qubits) == 2:
+        if is_one_of(cmd.gate, len(cmd.control_qubits), allowed_gate_instances2) and len(all_qubits) == 2:
             return True
         return False
 
-- 
2.43.0


From 96ae22b4c5ff39e80e81d818267bb68aafb6359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 26/80] fix: compare operators, phase estimation, amplitude
 amplification and math gates by what they do

All instances of these classes compared equal, so that the optimiser cancelled
a gate against the inverse of a different one.
---
 projectq/ops/_basics.py         | 11 +++++++++++
 projectq/ops/_qaagate.py        |  8 ++++++++
 projectq/ops/_qpegate.py        |  8 ++++++++
 projectq/ops/_qubit_operator.py |  6 ++++++
 4 files changed, 33 insertions(+)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 8546965..aa420f7 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -601,8 +601,19 @@ class BasicMathGate(BasicGate):
         def math_function(arg):
             return list(math_fun(*arg))
 
+        self._math_fun = math_fun
         self._math_function = math_function
 
+    def __eq__(self, other):
+        """Return True if both are of the same class; instances of BasicMathGate itself need to have the same function."""
+        if type(self) is BasicMathGate and isinstance(other, BasicMathGate):
+            return type(other) is BasicMathGate and self._math_fun == other._math_fun
+        return super().__eq__(other)
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return "MATH"
diff --git a/projectq/ops/_qaagate.py b/projectq/ops/_qaagate.py
index c5561ea..b969670 100755
--- a/projectq/ops/_qaagate.py
+++ b/projectq/ops/_qaagate.py
@@ -80,3 +80,11 @@ class QAA(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QAA(Algorithm = {str(self.algorithm.__name__)}, Oracle = {str(self.oracle.__name__)})'
+
+    def __eq__(self, other):
+        """Return True if both gates amplify with the same algorithm and oracle."""
+        return isinstance(other, self.__class__) and self.algorithm == other.algorithm and self.oracle == other.oracle
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
diff --git a/projectq/ops/_qpegate.py b/projectq/ops/_qpegate.py
index 3eab6e8..304b1d3 100755
--- a/projectq/ops/_qpegate.py
+++ b/projectq/ops/_qpegate.py
@@ -32,3 +32,11 @@ class QPE(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QPE({str(self.unitary)})'
+
+    def __eq__(self, other):
+        """Return True if both gates estimate the phases of the same unitary."""
+        return isinstance(other, self.__class__) and self.unitary == other.unitary
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 80c901d..b06d19b 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -581,6 +581,12 @@ class QubitOperator(BasicGate):
         """Repr method."""
         return str(self)
 
+    def __eq__(self, other):
+        """Return True if both operators consist of the same terms with the same coefficients."""
+        if isinstance(other, self.__class__):
+            return self.terms == other.terms
+        return super().__eq__(other)
+
     def __hash__(self):
         """Compute the hash of the object."""
         return hash(str(self))
-- 
2.43.0


From 928cd97323141a7dac53f7308b06fed6edbfb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 27/80] fix: find the angles of one-qubit matrices close to a
 (anti-)diagonal one

acos loses half of the digits there, as do phases of tiny matrix elements, so
that valid matrices were rejected as not unitary.
---
 projectq/setups/decompositions/arb1qubit2rzandry.py   | 11 +++++++----
 .../setups/decompositions/carb1qubit2cnotrzandry.py   |  2 +-
 projectq/setups/decompositions/stateprep2cnot.py      |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/projectq/setups/decompositions/arb1qubit2rzandry.py b/projectq/setups/decompositions/arb1qubit2rzandry.py
index fc9d1a4..22c9d83 100644
--- a/projectq/setups/decompositions/arb1qubit2rzandry.py
+++ b/projectq/setups/decompositions/arb1qubit2rzandry.py
@@ -161,7 +161,7 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             )
     # Case 3: sin(c/2) != 0 and cos(c/2) !=0:
     else:
-        two_a = cmath.phase(matrix[0][0] * matrix[1][1]) % (2 * math.pi)
+        two_a = cmath.phase(matrix[0][0] * matrix[1][1] - matrix[0][1] * matrix[1][0]) % (2 * math.pi)
         if abs(two_a) < TOLERANCE or abs(two_a) > 2 * math.pi - TOLERANCE:
             # from 2a==0 (mod 2pi), it follows that a==0 or a==pi,
             # w.l.g. we can choose a==0 because (see U above)
@@ -169,21 +169,24 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             a = 0  # pylint: disable=invalid-name
         else:
             a = two_a / 2.0  # pylint: disable=invalid-name
-        two_d = 2.0 * cmath.phase(matrix[0][1]) - 2.0 * cmath.phase(matrix[0][0])
+        # b + d and b - d, each from the two matrix elements which have the same absolute value
+        b_plus_d = cmath.phase(matrix[1][1]) - cmath.phase(matrix[0][0])
+        b_minus_d = cmath.phase(matrix[1][0]) - cmath.phase(-matrix[0][1])
+        two_d = b_plus_d - b_minus_d
         possible_d_half = [
             two_d / 4.0 % (2 * math.pi),
             (two_d / 4.0 + math.pi / 2.0) % (2 * math.pi),
             (two_d / 4.0 + math.pi) % (2 * math.pi),
             (two_d / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        two_b = 2.0 * cmath.phase(matrix[1][0]) - 2.0 * cmath.phase(matrix[0][0])
+        two_b = b_plus_d + b_minus_d
         possible_b_half = [
             two_b / 4.0 % (2 * math.pi),
             (two_b / 4.0 + math.pi / 2.0) % (2 * math.pi),
             (two_b / 4.0 + math.pi) % (2 * math.pi),
             (two_b / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        tmp = math.acos(abs(matrix[1][1]))
+        tmp = math.atan2(abs(matrix[0][1]), abs(matrix[1][1]))
         possible_c_half = [
             tmp % (2 * math.pi),
             (tmp + math.pi) % (2 * math.pi),
diff --git a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
index 549db3a..90a3e81 100644
--- a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
+++ b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
@@ -137,7 +137,7 @@ def _recognize_v(matrix):  # pylint: disable=too-many-branches
         (two_b / 2.0) % (2 * math.pi),
         (two_b / 2.0 + math.pi) % (2 * math.pi),
     ]
-    tmp = math.acos(abs(matrix[1][0]))
+    tmp = math.atan2(abs(matrix[0][0]), abs(matrix[1][0]))
     possible_c_half = [
         tmp % (2 * math.pi),
         (tmp + math.pi) % (2 * math.pi),
diff --git a/projectq/setups/decompositions/stateprep2cnot.py b/projectq/setups/decompositions/stateprep2cnot.py
index 80e399a..4103bf5 100644
--- a/projectq/setups/decompositions/stateprep2cnot.py
+++ b/projectq/setups/decompositions/stateprep2cnot.py
@@ -77,7 +77,7 @@ def _decompose_state_preparation(cmd):  # pylint: disable=too-many-locals
                     if a0 == 0 and a1 == 0:
                         angles.append(0)
                     else:
-                        angles.append(-2.0 * math.acos(a0 / math.sqrt(a0**2 + a1**2)))
+                        angles.append(-2.0 * math.atan2(a1, a0))
                     abs_of_next_blocks.append(math.sqrt(a0**2 + a1**2))
                 UniformlyControlledRy(angles) | (
                     qureg[(qubit_idx + 1) :],  # noqa: E203
-- 
2.43.0


From ca75e65a3f4ba8a9a417b4146113e5771ce095da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 28/80] fix: honour a control on |0> when flipping a CNOT

---
 projectq/cengines/_swapandcnotflipper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/cengines/_swapandcnotflipper.py b/projectq/cengines/_swapandcnotflipper.py
index 997274a..0e35916 100755
--- a/projectq/cengines/_swapandcnotflipper.py
+++ b/projectq/cengines/_swapandcnotflipper.py
@@ -110,6 +110,9 @@ class SwapAndCNOTFlipper(BasicEngine):
             All(H) | (control + target)
             CNOT | (target, control)
             All(H) | (control + target)
+            if '0' in cmd.control_state:
+                # controlled on |0>: the target gets flipped in exactly the other cases
+                NOT | target
         else:
             CNOT | (control, target)
 
-- 
2.43.0


From 44acc88036087754f80bce44fd194fe7c3f15e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 29/80] fix: hold back deallocations by the garbage collector
 while engines process commands

---
 projectq/cengines/_main.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/projectq/cengines/_main.py b/projectq/cengines/_main.py
index 87ec1b3..8cf649a 100755
--- a/projectq/cengines/_main.py
+++ b/projectq/cengines/_main.py
@@ -15,13 +15,14 @@
 """The main engine of every compiler engine pipeline, called MainEngine."""
 
 import atexit
+import contextlib
 import sys
 import traceback
 import weakref
 
 from projectq.backends import Simulator
 from projectq.ops import Command, FlushGate
-from projectq.types import WeakQubitRef
+from projectq.types import Qubit, WeakQubitRef
 
 from ._basicmapper import BasicMapperEngine
 from ._basics import BasicEngine
@@ -127,6 +128,8 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self.active_qubits = weakref.WeakSet()
         self._measurements = {}
         self.dirty_qubits = set()
+        self._postponing = 0
+        self._postponed_ids = []
         self.verbose = verbose
         self.main_engine = self
         self.n_engines_max = _N_ENGINES_THRESHOLD
@@ -281,6 +284,36 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._qubit_idx += 1
         return self._qubit_idx - 1
 
+    @contextlib.contextmanager
+    def postpone_deallocation(self):
+        """
+        Hold back the deallocation of qubits while compiler engines are working.
+
+        The garbage collector may finalize a qubit at any time, in particular while an engine processes a list of
+        commands. The corresponding deallocate commands are sent once all engines are done.
+        """
+        self._postponing += 1
+        try:
+            yield
+        finally:
+            self._postponing -= 1
+            while self._postponed_ids and not self._postponing:
+                # The new qubit goes out of scope immediately and deallocates itself
+                Qubit(self, self._postponed_ids.pop(0))
+
+    def deallocate_qubit(self, qubit):
+        """
+        Deallocate a qubit, or remember to do so if compiler engines are currently processing commands.
+
+        Args:
+            qubit (BasicQubit): Qubit to deallocate.
+        """
+        if self._postponing and qubit.id != -1:
+            self._postponed_ids.append(qubit.id)
+            qubit.id = -1
+        else:
+            super().deallocate_qubit(qubit)
+
     def receive(self, command_list):
         """
         Forward the list of commands to the first engine.
@@ -298,7 +331,8 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
         It also shortens exception stack traces if self.verbose is False.
         """
         try:
-            self.next_engine.receive(command_list)
+            with self.postpone_deallocation():
+                self.next_engine.receive(command_list)
         except Exception as err:  # pylint: disable=broad-except
             if self.verbose:
                 raise
-- 
2.43.0


From 9ecb23288ad52131532e56e8366dc5db5bb377c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 30/80] fix: hold back deallocations by the garbage collector
 while a block is executed

---
 projectq/meta/_compute.py | 16 +++++++++++-----
 projectq/meta/_dagger.py  |  6 +++++-
 projectq/meta/_loop.py    | 30 +++++++++++++++++-------------
 projectq/meta/_util.py    | 14 ++++++++++++++
 4 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/projectq/meta/_compute.py b/projectq/meta/_compute.py
index c3b589f..e323815 100755
--- a/projectq/meta/_compute.py
+++ b/projectq/meta/_compute.py
@@ -25,7 +25,12 @@ from projectq.cengines import BasicEngine, CommandModifier
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine, drop_engine_after, insert_engine
+from ._util import (
+    drop_engine,
+    drop_engine_after,
+    insert_engine,
+    postpone_deallocation,
+)
 
 
 class NoComputeSectionError(Exception):
@@ -419,7 +424,8 @@ def Uncompute(engine):  # pylint: disable=invalid-name
     compute_eng = engine.next_engine
     if not isinstance(compute_eng, ComputeEngine):
         raise NoComputeSectionError("Invalid call to Uncompute: No corresponding 'with Compute' statement found.")
-    try:
-        compute_eng.run_uncompute()
-    finally:
-        drop_engine(engine, compute_eng)
+    with postpone_deallocation(engine):
+        try:
+            compute_eng.run_uncompute()
+        finally:
+            drop_engine(engine, compute_eng)
diff --git a/projectq/meta/_dagger.py b/projectq/meta/_dagger.py
index e68cde7..40e34d7 100755
--- a/projectq/meta/_dagger.py
+++ b/projectq/meta/_dagger.py
@@ -25,7 +25,7 @@ from projectq.cengines import BasicEngine
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine, forget_qubits, insert_engine
+from ._util import drop_engine, forget_qubits, insert_engine, postpone_deallocation
 
 
 class DaggerEngine(BasicEngine):
@@ -132,6 +132,10 @@ class Dagger:
         # If an error happens in this context, qubits might not have been
         # deallocated because that code section was not yet executed,
         # so don't check and raise an additional error.
+        with postpone_deallocation(self.engine):
+            self._finish(exc_type)
+
+    def _finish(self, exc_type):
         try:
             if exc_type is not None:
                 forget_qubits(self.engine, self._dagger_eng._allocated_qubit_ids)
diff --git a/projectq/meta/_loop.py b/projectq/meta/_loop.py
index a4684f9..1094f15 100755
--- a/projectq/meta/_loop.py
+++ b/projectq/meta/_loop.py
@@ -28,7 +28,7 @@ from projectq.cengines import BasicEngine
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine, forget_qubits, insert_engine
+from ._util import drop_engine, forget_qubits, insert_engine, postpone_deallocation
 
 
 class LoopTag:  # pylint: disable=too-few-public-methods
@@ -254,16 +254,20 @@ class Loop:
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         if self.num != 1:
+            with postpone_deallocation(self.engine):
+                self._finish(exc_type)
+
+    def _finish(self, exc_type):
+        try:
+            if exc_type is not None:
+                self._loop_eng.discard()
+                return
             try:
-                if exc_type is not None:
-                    self._loop_eng.discard()
-                    return
-                try:
-                    self._loop_eng.run()
-                except QubitManagementError:
-                    self._loop_eng.discard()
-                    raise
-            finally:
-                # remove loop handler from engine list (i.e. skip it)
-                drop_engine(self.engine, self._loop_eng)
-                self._loop_eng = None
+                self._loop_eng.run()
+            except QubitManagementError:
+                self._loop_eng.discard()
+                raise
+        finally:
+            # remove loop handler from engine list (i.e. skip it)
+            drop_engine(self.engine, self._loop_eng)
+            self._loop_eng = None
diff --git a/projectq/meta/_util.py b/projectq/meta/_util.py
index 4036372..f0eeb83 100755
--- a/projectq/meta/_util.py
+++ b/projectq/meta/_util.py
@@ -14,6 +14,8 @@
 
 """Tools to add/remove compiler engines to the MainEngine list."""
 
+import contextlib
+
 
 def insert_engine(prev_engine, engine_to_insert):
     """
@@ -81,3 +83,15 @@ def forget_qubits(engine, qubit_ids):
         for active_qubit in list(engine.main_engine.active_qubits):
             if active_qubit.id in qubit_ids:
                 active_qubit.id = -1
+
+
+def postpone_deallocation(engine):
+    """
+    Hold back deallocations triggered by the garbage collector while a section is being executed.
+
+    Args:
+        engine (projectq.cengines.BasicEngine): An engine.
+    """
+    if engine.main_engine is None:
+        return contextlib.nullcontext()
+    return engine.main_engine.postpone_deallocation()
-- 
2.43.0


From 819a721f2ae25d7b1783d0e38d17f9b3750021b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 31/80] fix: reject operations on qubits which have already
 been deallocated

---
 projectq/ops/_command.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 662874a..fa45699 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -55,6 +55,11 @@ class CtrlAll(IntEnum):
     One = 1
 
 
+def _check_not_deallocated(qubits):
+    if any(qubit.id == -1 for qubit in qubits):
+        raise ValueError('Qubit has already been deallocated and cannot be used anymore!')
+
+
 def apply_command(cmd):
     """
     Apply a command.
@@ -63,7 +68,11 @@ def apply_command(cmd):
 
     Args:
         cmd (Command): Command to apply
+
+    Raises:
+        ValueError: If the command acts on a qubit which has already been deallocated.
     """
+    _check_not_deallocated(qubit for qureg in cmd.all_qubits for qubit in qureg)
     engine = cmd.engine
     engine.receive([cmd])
 
@@ -282,6 +291,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
 
         if not isinstance(qubits, list):
             raise ValueError('Control qubits must be a list of qubits!')
+        _check_not_deallocated(qubits)
         self._control_qubits.extend([WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits])
         self._control_state += canonical_ctrl_state(state, len(qubits))
 
-- 
2.43.0


From 81bb0ffde41d8a298c9333470b51b0238367a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 32/80] fix: drop repeated control qubits of a command

---
 projectq/ops/_command.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index fa45699..384b6ce 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -307,6 +307,11 @@ class Command:  # pylint: disable=too-many-instance-attributes
                     f'Control qubits {list(qubits)} cannot have conflicting control states: {states}'
                 )
 
+        # A qubit which already controls the command adds no further condition
+        zipped = [next(data) for _, data in itertools.groupby(zipped, key=lambda x: x[0].id)]
+        self._control_qubits = [qubit for qubit, _ in zipped]
+        self._control_state = ''.join(state for _, state in zipped)
+
     @property
     def all_qubits(self):
         """
-- 
2.43.0


From 6277768f87c277b31532558e46f59f3fbf00bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 33/80] fix: reject unknown qubit ids in the C++ simulator
 instead of corrupting memory

---
 .../backends/_sim/_cppkernels/simulator.hpp   | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 50d4876..d1b9114 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -32,6 +32,8 @@
 #include <tuple>
 #include <random>
 #include <functional>
+#include <stdexcept>
+#include <string>
 
 
 class Simulator{
@@ -76,6 +78,7 @@ public:
     }
 
     bool get_classical_value(unsigned id, calc_type tol = 1.e-12){
+        require_ids({id}, "get_classical_value");
         run();
         unsigned pos = map_[id];
         std::size_t delta = (1UL << pos);
@@ -93,6 +96,7 @@ public:
     }
 
     bool is_classical(unsigned id, calc_type tol = 1.e-12){
+        require_ids({id}, "is_classical");
         run();
         unsigned pos = map_[id];
         std::size_t delta = (1UL << pos);
@@ -145,6 +149,7 @@ public:
     }
 
     void measure_qubits(std::vector<unsigned> const& ids, std::vector<bool> &res){
+        require_ids(ids, "measure_qubits");
         run();
 
         std::vector<unsigned> positions(ids.size());
@@ -197,8 +202,8 @@ public:
     }
 
     void deallocate_qubit(unsigned id){
+        require_ids({id}, "deallocate_qubit");
         run();
-        assert(map_.count(id) == 1);
         if (!is_classical(id))
             throw(std::runtime_error("Error: Qubit has not been measured / uncomputed! There is most likely a bug in your code."));
 
@@ -209,6 +214,8 @@ public:
     template <class M>
     void apply_controlled_gate(M const& m, const std::vector<unsigned>& ids,
                                const std::vector<unsigned>& ctrl){
+        require_ids(ids, "apply_controlled_gate");
+        require_ids(ctrl, "apply_controlled_gate");
         auto fused_gates = fused_gates_;
         fused_gates.insert(m, ids, ctrl);
 
@@ -229,6 +236,9 @@ public:
     template <class F, class QuReg>
     void emulate_math(F const& f, QuReg quregs, const std::vector<unsigned>& ctrl,
                       bool parallelize = false){
+        for (auto const& qureg : quregs)
+            require_ids(qureg, "emulate_math");
+        require_ids(ctrl, "emulate_math");
         run();
         auto ctrlmask = get_control_mask(ctrl);
 
@@ -399,6 +409,8 @@ public:
     void emulate_time_evolution(TermsDict const& tdict, calc_type const& time,
                                 std::vector<unsigned> const& ids,
                                 std::vector<unsigned> const& ctrl){
+        require_ids(ids, "emulate_time_evolution");
+        require_ids(ctrl, "emulate_time_evolution");
         run();
         complex_type I(0., 1.);
         calc_type tr = 0., op_nrm = 0.;
@@ -588,6 +600,11 @@ private:
         return true;
     }
 
+    void require_ids(std::vector<unsigned> const& ids, std::string const& caller){
+        if (!check_ids(ids))
+            throw(std::runtime_error(caller + "(): Unknown qubit id. Qubits have to be allocated before they are used."));
+    }
+
     unsigned N_; // #qubits
     StateVector vec_;
     Map map_;
-- 
2.43.0


From dd3c03cada49b2929f8566b859c81c72c4d8b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 34/80] fix: keep count of engines when a decomposition fails
 inside a section

---
 projectq/cengines/_replacer/_replacer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index c63d1dd..ac982bb 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -22,6 +22,7 @@ The InstructionFilter can be used to further specify which gates to replace/keep
 """
 
 from projectq.cengines import BasicEngine, CommandModifier, ForwarderEngine
+from projectq.meta import drop_engine_after
 from projectq.ops import FlushGate, get_inverse
 
 
@@ -218,7 +219,12 @@ class AutoReplacer(BasicEngine):
             cmd.engine = forwarder_eng  # send gates directly to forwarder
             # (and not to main engine, which would screw up the ordering).
 
-            chosen_decomp.decompose(cmd)  # run the decomposition
+            try:
+                chosen_decomp.decompose(cmd)  # run the decomposition
+            finally:
+                # do not count engines of sections which the decomposition left unfinished because of an exception
+                while forwarder_eng.next_engine is not cmod_eng:
+                    drop_engine_after(forwarder_eng)
 
     def receive(self, command_list):
         """
-- 
2.43.0


From b174930b08a6020cbe9169585d0a6167888a7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 35/80] fix: cheat() of the Python simulator returns a snapshot

---
 projectq/backends/_sim/_pysim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index dca6afa..eedc23f 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -61,7 +61,8 @@ class Simulator:
             A tuple where the first entry is a dictionary mapping qubit indices to bit-locations and the second entry is
             the corresponding state vector
         """
-        return (self._map, self._state)
+        # hand out copies, so that neither later gates nor the caller change the other's data
+        return (dict(self._map), _np.copy(self._state))
 
     def measure_qubits(self, ids):
         """
-- 
2.43.0


From 202a54873622fe0f0dac0787d67abf1572fad253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 36/80] fix: reject an existing qubit id when the Python
 simulator allocates

---
 projectq/backends/_sim/_pysim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index eedc23f..e10e296 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -113,6 +113,8 @@ class Simulator:
         Args:
             qubit_id (int): ID of the qubit which is being allocated.
         """
+        if qubit_id in self._map:
+            raise RuntimeError("AllocateQubit: ID already exists. Qubit IDs should be unique.")
         self._map[qubit_id] = self._num_qubits
         self._num_qubits += 1
         self._state.resize(1 << self._num_qubits, refcheck=_USE_REFCHECK)
-- 
2.43.0


From 26586fabd7c279d61a535a9b12b94e64b09f3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 37/80] fix: set_wavefunction rejects an ordering that repeats
 a qubit

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 9 ++++++++-
 projectq/backends/_sim/_pysim.py                 | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index d1b9114..0936bf1 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -474,7 +474,7 @@ public:
         if (wavefunction.size() != (1UL << ordering.size()))
             throw(std::length_error("set_wavefunction(): The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
-        if (map_.size() != ordering.size() || !check_ids(ordering))
+        if (!is_permutation(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
 
         // set mapping and wavefunction
@@ -600,6 +600,13 @@ private:
         return true;
     }
 
+    // true if ids names every allocated qubit exactly once
+    bool is_permutation(std::vector<unsigned> ids){
+        std::sort(ids.begin(), ids.end());
+        return ids.size() == map_.size() && check_ids(ids)
+               && std::adjacent_find(ids.begin(), ids.end()) == ids.end();
+    }
+
     void require_ids(std::vector<unsigned> const& ids, std::string const& caller){
         if (!check_ids(ids))
             throw(std::runtime_error(caller + "(): Unknown qubit id. Qubits have to be allocated before they are used."));
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index e10e296..9902a9c 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -462,7 +462,7 @@ class Simulator:
             raise ValueError('The wavefunction must contain 2^n elements!')
 
         # all qubits must have been allocated before
-        if not all(qubit_id in self._map for qubit_id in ordering) or len(self._map) != len(ordering):
+        if set(ordering) != set(self._map) or len(self._map) != len(ordering):
             raise RuntimeError(
                 "set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been "
                 "allocated previously (call eng.flush())."
-- 
2.43.0


From cb271734241e3f8ebaf878f8651308323ef46e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 38/80] fix: get_amplitude rejects unknown and repeated qubit
 ids

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 11 +++--------
 projectq/backends/_sim/_pysim.py                 |  2 +-
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 0936bf1..e292a40 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -393,16 +393,11 @@ public:
         run();
         if (bit_string.size() < ids.size())
             throw(std::length_error("get_amplitude(): bit_string is shorter than ids"));
-        std::size_t chk = 0;
+        if (!is_permutation(ids))
+            throw(std::runtime_error("The second argument to get_amplitude() must be a permutation of all allocated qubits. Please make sure you have called eng.flush()."));
         std::size_t index = 0;
-        for (unsigned i = 0; i < ids.size(); ++i){
-            if (map_.count(ids[i]) == 0)
-                break;
-            chk |= 1UL << map_[ids[i]];
+        for (unsigned i = 0; i < ids.size(); ++i)
             index |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
-        }
-        if (chk + 1 != vec_.size())
-            throw(std::runtime_error("The second argument to get_amplitude() must be a permutation of all allocated qubits. Please make sure you have called eng.flush()."));
         return vec_[index];
     }
 
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 9902a9c..6ce4952 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -320,7 +320,7 @@ class Simulator:
         Raises:
             RuntimeError if the second argument is not a permutation of all allocated qubits.
         """
-        if not set(ids) == set(self._map):
+        if set(ids) != set(self._map) or len(ids) != len(self._map):
             raise RuntimeError(
                 "The second argument to get_amplitude() must be a permutation of all allocated qubits. "
                 "Please make sure you have called eng.flush()."
-- 
2.43.0


From 6689ed68c749755007cf8a7fe15341ca8494f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 39/80] fix: check the qubit ids before the Python simulator
 evolves a state

---
 projectq/backends/_sim/_pysim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 6ce4952..027a81a 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -345,6 +345,11 @@ class Simulator:
             ids (list): A list of qubit IDs to which to apply the evolution.
             ctrlids (list): A list of control qubit IDs.
         """
+        for qubit_id in [*ids, *ctrlids]:
+            if qubit_id not in self._map:
+                raise RuntimeError(
+                    "emulate_time_evolution(): Unknown qubit id. Qubits have to be allocated before they are used."
+                )
         # Determine the (normalized) trace, which is nonzero only for identity terms:
         trace = sum(c for (t, c) in terms_dict if len(t) == 0)
         terms_dict = [(t, c) for (t, c) in terms_dict if len(t) > 0]
-- 
2.43.0


From e88050755d2861c452b697050364ecff8eebd18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 40/80] fix: modular arithmetic in the Python simulator no
 longer loses amplitudes

---
 projectq/backends/_sim/_pysim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 027a81a..3cb6008 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -223,9 +223,10 @@ class Simulator:
                     for qb_i, qb_loc in enumerate(qr_loc):
                         if not ((new_i >> qb_loc) & 1) == ((res[qr_i] >> qb_i) & 1):
                             new_i ^= 1 << qb_loc
-                newstate[new_i] = state
+                # several basis states may be mapped onto the same one (e.g., modular arithmetic)
+                newstate[new_i] += state
             else:
-                newstate[i] = state
+                newstate[i] += state
 
         self._state = newstate
 
-- 
2.43.0


From 5d63fe9bb8f3df4f1b2a04e280563a53bde534d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:04 +0000
Subject: [PATCH 41/80] fix: give each Python simulator its own random number
 generator

---
 projectq/backends/_sim/_pysim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 3cb6008..82f6185 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -45,7 +45,8 @@ class Simulator:
             args: Dummy argument to allow an interface identical to the c++ simulator.
             kwargs: Same as args.
         """
-        random.seed(rnd_seed)
+        # a generator of its own: simulators must neither disturb each other nor the global sequence
+        self._rng = random.Random(rnd_seed)
         self._state = _np.ones(1, dtype=_np.complex128)
         self._map = {}
         self._num_qubits = 0
@@ -74,7 +75,7 @@ class Simulator:
         Returns:
             List of measurement results (containing either True or False).
         """
-        random_outcome = random.random()
+        random_outcome = self._rng.random()
         val = 0.0
         i_picked = 0
         for i, _state in enumerate(self._state):
-- 
2.43.0


From 8d07227b033b3d4bbc14e9a627bbf4f2c739fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 42/80] fix: release remaining qubits in the order of their
 allocation

---
 projectq/cengines/_main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/cengines/_main.py b/projectq/cengines/_main.py
index 8cf649a..5f3c0a0 100755
--- a/projectq/cengines/_main.py
+++ b/projectq/cengines/_main.py
@@ -354,7 +354,8 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 them by setting their id to -1).
         """
         if deallocate_qubits:
-            while [qb for qb in self.active_qubits if qb is not None]:
-                qb = self.active_qubits.pop()  # noqa: F841
+            # in the order of allocation: a WeakSet hands out its elements in an order depending on memory addresses
+            for qb in sorted(self.active_qubits, key=lambda qubit: qubit.id):
+                self.active_qubits.discard(qb)
                 qb.__del__()  # pylint: disable=unnecessary-dunder-call
         self.receive([Command(self, FlushGate(), ([WeakQubitRef(self, -1)],))])
-- 
2.43.0


From 91c18e01b3f266997a54924b490d621b32fd5d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:24 +0000
Subject: [PATCH 43/80] fix: IonQ backend compared measured logical ids with
 physical positions

---
 projectq/backends/_ionq/_ionq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4c59369..4deda6c 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -109,6 +109,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._interval = interval
         self._circuit = []
         self._measured_ids = []
+        self._measured_positions = []
         self._probabilities = {}
         self._retrieve_execution = retrieve_execution
         self._clear = True
@@ -169,6 +170,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_positions = []
             self._probabilities = {}
             self._clear = False
 
@@ -187,6 +189,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     break
             # Add the qubit id
             self._measured_ids.append(logical_id)
+            self._measured_positions.append(cmd.qubits[0][0].id)
             return
 
         # Process the Command's gate type:
@@ -209,7 +212,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             gate_qubits = set(targets) | set(controls)
 
             # If any of them have already been measured...
-            already_measured = gate_qubits & set(self._measured_ids)
+            already_measured = gate_qubits & set(self._measured_positions)
 
             # Boom!
             if len(already_measured) > 0:
-- 
2.43.0


From 0f952e799e113850ba0583c97789ee24deaf8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 44/80] fix: IonQ jobs declared too few qubits for the
 positions they use

---
 projectq/backends/_ionq/_ionq.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4deda6c..5d46327 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -292,11 +292,15 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if self._retrieve_execution is None:
             qubit_mapping = self.main_engine.mapper.current_mapping
             measured_ids = self._measured_ids[:]
+            # All positions in use, including those of qubits which were deallocated in the meantime
+            positions = set(qubit_mapping.values()).union(self._measured_positions)
+            for gate in self._circuit:
+                positions.update(gate['targets'], gate.get('controls', []))
             info = {
                 'circuit': self._circuit,
-                'nq': len(qubit_mapping.keys()),
+                'nq': max(positions) + 1,
                 'shots': self._num_runs,
-                'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
+                'meas_mapped': self._measured_positions[:],
                 'meas_qubit_ids': measured_ids,
             }
             res = http_client.send(
-- 
2.43.0


From a33be83267f4f185ed6cd609b653252363bbfe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 45/80] fix: IonQ get_probability of an outcome which was not
 observed raised KeyError

---
 projectq/backends/_ionq/_ionq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 5d46327..31e2659 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -252,7 +252,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             raise ValueError('Desired state and register must be the same length!')
 
         probs = self.get_probabilities(qureg)
-        return probs[state]
+        return probs.get(state, 0.0)
 
     def get_probabilities(self, qureg):
         """
-- 
2.43.0


From c1ede648b182fa4fd189618fb5310b53e909f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 46/80] fix: IonQ backend always registered the last outcome of
 the histogram

---
 projectq/backends/_ionq/_ionq.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 31e2659..a8c3037 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -329,23 +329,29 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         # Determine random outcome from probable states.
         random_outcome = random.random()
         p_sum = 0.0
-        measured = ""
-        star = ""
+        measured = last_possible = ""
         num_measured = len(measured_ids)
         probable_outcomes = res['output_probs']
         states = probable_outcomes.keys()
         self._probabilities = {}
-        for idx, state_int in enumerate(states):
+        for state_int in states:
             state = _rearrange_result(int(state_int), num_measured)
             probability = probable_outcomes[state_int]
             p_sum += probability
-            if p_sum >= random_outcome and measured == "" or (idx == len(states) - 1):
-                measured = state
-                star = "*"
+            star = ""
+            if probability > 0:
+                if measured == "" and p_sum > random_outcome:
+                    measured = state
+                    star = "*"
+                last_possible = state
             self._probabilities[state] = probability
             if self._verbose and probability > 0:  # pragma: no cover
                 print(f"{state} with p = {probability}{star}")
 
+        # The probabilities may add up to slightly less than one
+        if measured == "":
+            measured = last_possible
+
         # Register measurement results
         for idx, qubit_id in enumerate(measured_ids):
             result = int(measured[idx])
-- 
2.43.0


From 0381171f4c8e54b50d90c9aa37650738f8dc383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 47/80] fix: a circuit was submitted again by a later flush
 (IBM, AQT) or after a failure (IBM, AQT, AWS Braket)

---
 projectq/backends/_aqt/_aqt.py             | 10 ++++++----
 projectq/backends/_awsbraket/_awsbraket.py |  6 ++++--
 projectq/backends/_ibm/_ibm.py             |  9 +++++++--
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9d5e5e2..db964f2 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -232,8 +232,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         # finally: measurements
         # NOTE AQT DOESN'T SEEM TO HAVE MEASUREMENT INSTRUCTIONS (no
         # intermediate measurements are allowed, so implicit at the end)
-        # return if no operations.
-        if not self._circuit:
+        # return if no operations (or nothing new since the last run).
+        if self._clear or not self._circuit:
             return
 
         n_qubit = max(self._allocated_qubits) + 1
@@ -305,5 +305,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if not isinstance(cmd.gate, FlushGate):
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    self._reset()
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 78fe5bd..67bb563 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -453,7 +453,9 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not isinstance(cmd.gate, FlushGate):
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    self._reset()
             if not self.is_last_engine:
                 self.send([cmd])
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a11aa5..6ea930e 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -263,6 +263,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         Send the circuit via a non documented IBM API (using JSON written
         circuits) using the provided user data / ask for the user token.
         """
+        # nothing new since the last run
+        if self._clear:
+            return
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
             qb_loc = self.main_engine.mapper.current_mapping[measured_id]
@@ -341,5 +344,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if not cmd.gate == FlushGate():
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    self._reset()
-- 
2.43.0


From 803310205300ed8808b28f51f2d3667c5cfeb6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:12 +0000
Subject: [PATCH 48/80] fix: IBM, AQT and AWS Braket back-ends registered
 impossible outcomes or none

---
 projectq/backends/_aqt/_aqt.py             | 14 ++++++++++----
 projectq/backends/_awsbraket/_awsbraket.py | 14 ++++++++++----
 projectq/backends/_ibm/_ibm.py             | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index db964f2..428134c 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -270,18 +270,24 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
-            measured = ""
+            measured = last_possible = ""
             for state in counts:
                 probability = counts[state] * 1.0 / self._num_runs
                 p_sum += probability
                 star = ""
-                if p_sum >= random_outcome and measured == "":
-                    measured = state
-                    star = "*"
+                if probability > 0:
+                    if measured == "" and p_sum > random_outcome:
+                        measured = state
+                        star = "*"
+                    last_possible = state
                 self._probabilities[state] = probability
                 if self._verbose and probability > 0:
                     print(f"{str(state)} with p = {probability}{star}")
 
+            # the probabilities may add up to slightly less than one
+            if measured == "":
+                measured = last_possible
+
             # register measurement result from AQT
             for qubit_id in self._measured_ids:
                 location = self._logical_to_physical(qubit_id)
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 67bb563..a0b448d 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -424,18 +424,24 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         # Determine random outcome
         random_outcome = random.random()
         p_sum = 0.0
-        measured = ""
+        measured = last_possible = ""
         for state in counts:
             probability = counts[state]
             p_sum += probability
             star = ""
-            if p_sum >= random_outcome and measured == "":
-                measured = state
-                star = "*"
+            if probability > 0:
+                if measured == "" and p_sum > random_outcome:
+                    measured = state
+                    star = "*"
+                last_possible = state
             self._probabilities[state] = probability
             if self._verbose and probability > 0:
                 print(f"{state} with p = {probability}{star}")
 
+        # the probabilities may add up to slightly less than one
+        if measured == "":
+            measured = last_possible
+
         # register measurement result
         for qubit_id in self._measured_ids:
             result = int(measured[self._logical_to_physical(qubit_id)])
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 6ea930e..4f6c577 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -305,7 +305,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
-            measured = ""
+            measured = last_possible = ""
             for state in counts:
                 probability = counts[state] * 1.0 / self._num_runs
                 state = f"{int(state, 0):b}"
@@ -314,13 +314,19 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 state = state[::-1]
                 p_sum += probability
                 star = ""
-                if p_sum >= random_outcome and measured == "":
-                    measured = state
-                    star = "*"
+                if probability > 0:
+                    if measured == "" and p_sum > random_outcome:
+                        measured = state
+                        star = "*"
+                    last_possible = state
                 self._probabilities[state] = probability
                 if self._verbose and probability > 0:
                     print(f"{str(state)} with p = {probability}{star}")
 
+            # the probabilities may add up to slightly less than one
+            if measured == "":
+                measured = last_possible
+
             # register measurement result from IBM
             for qubit_id in self._measured_ids:
                 location = self._logical_to_physical(qubit_id)
-- 
2.43.0


From 2eaf39a763e0bebb0fa5211dc4228692e2cbcc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 49/80] fix: IBM probabilities were normalised with the wrong
 number of runs, AQT changed it for later circuits

---
 projectq/backends/_aqt/_aqt.py | 4 ++--
 projectq/backends/_ibm/_ibm.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 428134c..585820a 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -265,14 +265,14 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     interval=self._interval,
                     verbose=self._verbose,
                 )
-            self._num_runs = len(res)
+            num_runs = len(res)
             counts = _format_counts(res, n_qubit)
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = last_possible = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_runs
                 p_sum += probability
                 star = ""
                 if probability > 0:
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 4f6c577..1288378 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -306,8 +306,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             random_outcome = random.random()
             p_sum = 0.0
             measured = last_possible = ""
+            num_runs = sum(counts.values())
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_runs
                 state = f"{int(state, 0):b}"
                 state = state.zfill(max_qubit_id)
                 # states in ibmq are right-ordered, so need to reverse state string
-- 
2.43.0


From 654fcd2d437acb729a6762850f3ed1d0e96a140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 50/80] fix: AWS Braket tasks declared too few qubits for the
 positions they use

---
 projectq/backends/_awsbraket/_awsbraket.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index a0b448d..527fa10 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -282,6 +282,8 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
 
         # All other supported gate types
         json_cmd = {}
+        # positions in use, also those of qubits which were allocated for an earlier circuit
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
 
         if num_controls > 1:
             json_cmd['controls'] = [qb.id for qb in cmd.control_qubits]
@@ -403,7 +405,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not self._circuit:
                 return
 
-            n_qubit = len(self._allocated_qubits)
+            n_qubit = max(self._allocated_qubits) + 1
             info = {}
             info['circuit'] = self._circuithead + self._circuit.rstrip(', ') + self._circuittail
             info['nq'] = n_qubit
-- 
2.43.0


From b73097e6be56ddce3ccfb13a337b2dc3cf1b715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:43 +0000
Subject: [PATCH 51/80] fix: IBM and AQT circuits on qubits of an earlier
 circuit failed or declared too few qubits

---
 projectq/backends/_aqt/_aqt.py | 2 ++
 projectq/backends/_ibm/_ibm.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 585820a..f885f51 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -134,6 +134,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             return
         if gate == Deallocate:
             return
+        # positions in use, also those of qubits which were allocated for an earlier circuit
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
         if gate == Measure:
             qb_id = cmd.qubits[0][0].id
             logical_id = None
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 1288378..e2a46c0 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -155,6 +155,8 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
         if gate == Deallocate:
             return
+        # positions in use, also those of qubits which were allocated for an earlier circuit
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
 
         if gate == Measure:
             logical_id = None
-- 
2.43.0


From 878e75c97de0ba54ccb7443fb538c4b1633b3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 52/80] fix: the AQT client printed the access token although
 verbose output was not asked for

---
 projectq/backends/_aqt/_aqt_http_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index b2c8d90..c55ffa1 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -223,8 +223,8 @@ def send(
 
         if verbose:
             print("- Authenticating...")
-        if token is not None:
-            print(f"user API token: {token}")
+            if token is not None:
+                print(f"user API token: {token}")
         aqt_session.authenticate(token)
 
         # check if the device is online
-- 
2.43.0


From 141b72e2c18454adbd9cda571a31f7d1284eb407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:56 +0000
Subject: [PATCH 53/80] fix: a queued AQT job was taken for a failed one

---
 projectq/backends/_aqt/_aqt_http_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index c55ffa1..b56a022 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -142,7 +142,7 @@ class AQT(Session):
                 r_json = req.json()
                 if r_json['status'] == 'finished' or 'samples' in r_json:
                     return r_json['samples']
-                if r_json['status'] != 'running':
+                if r_json['status'] not in ('queued', 'running'):
                     raise Exception(f"Error while running the code: {r_json['status']}.")
                 time.sleep(interval)
                 if self.is_online(device) and retries % 60 == 0:
-- 
2.43.0


From be7faccdcd348ed9e7a167cde0ac32b14647301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:05 +0000
Subject: [PATCH 54/80] fix: the job id was lost when a request failed during
 the wait (IBM, AQT, IonQ)

---
 projectq/backends/_aqt/_aqt_http_client.py   | 4 ++++
 projectq/backends/_ibm/_ibm_http_client.py   | 4 ++++
 projectq/backends/_ionq/_ionq_http_client.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index b56a022..495f9de 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -155,6 +155,10 @@ class AQT(Session):
                             f"Device went offline. The ID of your submitted job is {execution_id}."
                         )
 
+        except (requests.exceptions.RequestException, KeyError, IndexError, TypeError) as err:
+            raise RuntimeError(
+                f"Failed to get the result: {err!r}. The ID of your submitted job is {execution_id}."
+            ) from err
         finally:
             if original_sigint_handler is not None:
                 signal.signal(signal.SIGINT, original_sigint_handler)
diff --git a/projectq/backends/_ibm/_ibm_http_client.py b/projectq/backends/_ibm/_ibm_http_client.py
index 2760298..2b8e7c1 100755
--- a/projectq/backends/_ibm/_ibm_http_client.py
+++ b/projectq/backends/_ibm/_ibm_http_client.py
@@ -278,6 +278,10 @@ class IBMQ(Session):
                             f"Device went offline. The ID of your submitted job is {execution_id}."
                         )
 
+        except (requests.exceptions.RequestException, KeyError, IndexError, TypeError) as err:
+            raise RuntimeError(
+                f"Failed to get the result: {err!r}. The ID of your submitted job is {execution_id}."
+            ) from err
         finally:
             if original_sigint_handler is not None:
                 signal.signal(signal.SIGINT, original_sigint_handler)
diff --git a/projectq/backends/_ionq/_ionq_http_client.py b/projectq/backends/_ionq/_ionq_http_client.py
index 72e1655..7315091 100644
--- a/projectq/backends/_ionq/_ionq_http_client.py
+++ b/projectq/backends/_ionq/_ionq_http_client.py
@@ -235,6 +235,10 @@ class IonQ(Session):
                         raise DeviceOfflineError(
                             f"Device went offline. The ID of your submitted job is {execution_id}."
                         )
+        except (requests.exceptions.RequestException, KeyError, IndexError, TypeError) as err:
+            raise RuntimeError(
+                f"Failed to get the result: {err!r}. The ID of your submitted job is {execution_id}."
+            ) from err
         finally:
             if original_sigint_handler is not None:
                 signal.signal(signal.SIGINT, original_sigint_handler)
-- 
2.43.0


From a67277e8cd8c05e415dbaedfc6534d74b465c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 55/80] fix: the wait for a cancelled AWS Braket task went on
 until the timeout

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index 7924a40..f8601dd 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -292,7 +292,7 @@ class AWSBraket:
                         f'Error while running the code: {status}. '
                         f'The failure reason was: {quantum_task["failureReason"]}.'
                     )
-                if status == 'CANCELLING':
+                if status in ('CANCELLING', 'CANCELLED'):
                     raise Exception(f"The job received a CANCEL operation: {status}.")
                 time.sleep(interval)
                 # NOTE: Be aware that AWS is billing if a lot of API calls are
-- 
2.43.0


From 528fd9ad8640e606a1eca6c6304941ea1f141a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 56/80] fix: AWS Braket credentials could not be typed

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index f8601dd..f544cbc 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -49,8 +49,10 @@ class AWSBraket:
             credentials (dict): mapping the AWS key credentials as the AWS_ACCESS_KEY_ID and AWS_SECRET_KEY.
         """
         if credentials is None:  # pragma: no cover
-            credentials['AWS_ACCESS_KEY_ID'] = getpass.getpass(prompt="Enter AWS_ACCESS_KEY_ID: ")
-            credentials['AWS_SECRET_KEY'] = getpass.getpass(prompt="Enter AWS_SECRET_KEY: ")
+            credentials = {
+                'AWS_ACCESS_KEY_ID': getpass.getpass(prompt="Enter AWS_ACCESS_KEY_ID: "),
+                'AWS_SECRET_KEY': getpass.getpass(prompt="Enter AWS_SECRET_KEY: "),
+            }
 
         self._credentials = credentials
 
-- 
2.43.0


From 10bd46c1e7c382ea8e96300282ae98be72799831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:27 +0000
Subject: [PATCH 57/80] fix: UnboundLocalError when waiting for an AWS Braket
 task with num_retries=0

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index f544cbc..e26e906 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -261,6 +261,7 @@ class AWSBraket:
             aws_secret_access_key=self._credentials['AWS_SECRET_KEY'],
         )
 
+        status = 'UNKNOWN'
         try:
             signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
 
-- 
2.43.0


From d9c0cbb85c66eecfcb3cf865738ed1eba6a86a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 58/80] fix: the default device of the AQTBackend was unknown

---
 projectq/backends/_aqt/_aqt_http_client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index 495f9de..f4bae72 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -193,6 +193,8 @@ def retrieve(device, token, jobid, num_retries=3000, interval=1, verbose=False):
     Returns:
         (list) samples form the AQT server
     """
+    if device == 'simulator':
+        device = 'aqt_simulator'
     aqt_session = AQT()
     aqt_session.authenticate(token)
     aqt_session.update_devices_list(verbose)
@@ -231,6 +233,10 @@ def send(
                 print(f"user API token: {token}")
         aqt_session.authenticate(token)
 
+        # 'simulator' is the default device of the AQTBackend
+        if device == 'simulator':
+            device = 'aqt_simulator'
+
         # check if the device is online
         aqt_session.update_devices_list(verbose)
         online = aqt_session.is_online(device)
-- 
2.43.0


From 8b3a523b686ad2d80fe087d72f609e0755884991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:24 +0000
Subject: [PATCH 59/80] fix: Azure back-end kept the measurements of earlier
 circuits

---
 projectq/backends/_azure/_azure_quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 682caa6..a6326f0 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -143,6 +143,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._probabilities = {}
             self._clear = False
             self._circuit = None
+            self._measured_ids = []
 
         gate = cmd.gate
 
-- 
2.43.0


From 62db6114d46647b9e8ff5f52c06f8adbae0596c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 60/80] fix: Azure jobs declared too few qubits for the
 positions they use

---
 projectq/backends/_azure/_azure_quantum.py | 24 ++++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index a6326f0..54bbcbe 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -116,6 +116,8 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._retrieve_execution = retrieve_execution
         self._circuit = None
         self._measured_ids = []
+        self._measured_positions = []
+        self._positions = set()
         self._probabilities = {}
         self._clear = True
 
@@ -144,6 +146,8 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._clear = False
             self._circuit = None
             self._measured_ids = []
+            self._measured_positions = []
+            self._positions = set()
 
         gate = cmd.gate
 
@@ -151,6 +155,8 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         if isinstance(gate, (AllocateQubitGate, DeallocateQubitGate)):
             return
 
+        self._positions.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
+
         # Measurement
         if isinstance(gate, MeasureGate):
             logical_id = None
@@ -163,6 +169,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 raise RuntimeError('No LogicalQubitIDTag found in command!')
 
             self._measured_ids.append(logical_id)
+            self._measured_positions.append(cmd.qubits[0][0].id)
             return
 
         if self._provider_id == IONQ_PROVIDER_ID:
@@ -280,10 +287,14 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             probability_dict[mapped_state] = probability_dict.get(mapped_state, 0) + probability
         return probability_dict
 
+    @property
+    def _num_qubits(self):
+        # The positions in use need not be contiguous, and some of the qubits may have been deallocated already
+        return max(self._positions.union(self.main_engine.mapper.current_mapping.values())) + 1
+
     @property
     def _input_data(self):
-        qubit_mapping = self.main_engine.mapper.current_mapping
-        qubits = len(qubit_mapping.keys())
+        qubits = self._num_qubits
 
         if self._provider_id == IONQ_PROVIDER_ID:
             return {"qubits": qubits, "circuit": self._circuit}
@@ -291,8 +302,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         if self._provider_id == QUANTINUUM_PROVIDER_ID:
             measurement_gates = ""
 
-            for measured_id in self._measured_ids:
-                qb_loc = self.main_engine.mapper.current_mapping[measured_id]
+            for qb_loc in self._measured_positions:
                 measurement_gates += f"measure q[{qb_loc}] -> c[{qb_loc}];\n"
 
             return (
@@ -304,11 +314,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
     @property
     def _metadata(self):
-        qubit_mapping = self.main_engine.mapper.current_mapping
-        num_qubits = len(qubit_mapping.keys())
-        meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
-
-        return {"num_qubits": num_qubits, "meas_map": meas_map}
+        return {"num_qubits": self._num_qubits, "meas_map": self._measured_positions[:]}
 
     def estimate_cost(self, **kwargs):
         """Estimate cost for the circuit this object has built during engine execution."""
-- 
2.43.0


From 9907b33d4d22aff751bc9b9dcf69501f094a5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 61/80] fix: Azure results were assigned to the wrong qubits

---
 projectq/backends/_azure/_azure_quantum.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 54bbcbe..abf8a99 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -354,20 +354,23 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 )
 
         if self._provider_id == IONQ_PROVIDER_ID:
-            self._probabilities = {
-                _rearrange_result(int(k), len(self._measured_ids)): v for k, v in res["histogram"].items()
-            }
+            histogram = {_rearrange_result(int(k), self._num_qubits): v for k, v in res["histogram"].items()}
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
-            histogram = Counter(res["c"])
-            self._probabilities = {k: v / self._num_runs for k, v in histogram.items()}
+            histogram = {k: v / len(res["c"]) for k, v in Counter(res["c"]).items()}
         else:  # pragma: no cover
             raise RuntimeError("Invalid Azure Quantum target.")
 
+        # The histogram covers all positions of the device: select the measured ones (in the order of measurement)
+        for bits, probability in histogram.items():
+            state = "".join(bits[position] for position in self._measured_positions)
+            self._probabilities[state] = self._probabilities.get(state, 0.0) + probability
+
         # Set a single measurement result
-        bitstring = np.random.choice(list(self._probabilities.keys()), p=list(self._probabilities.values()))
-        for qid in self._measured_ids:
+        weights = np.array(list(self._probabilities.values()), dtype=float)
+        bitstring = np.random.choice(list(self._probabilities.keys()), p=weights / weights.sum())
+        for idx, qid in enumerate(self._measured_ids):
             qubit_ref = WeakQubitRef(self.main_engine, qid)
-            self.main_engine.set_measurement_result(qubit_ref, bitstring[qid])
+            self.main_engine.set_measurement_result(qubit_ref, int(bitstring[idx]))
 
     def receive(self, command_list):
         """Receive a command list from the ProjectQ engine pipeline.
-- 
2.43.0


From 1f251ac8ecb04b6837744612346ec98a58daaafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 62/80] fix: an interrupt during the wait for an Azure job lost
 its id

---
 projectq/backends/_azure/_azure_quantum_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/backends/_azure/_azure_quantum_client.py b/projectq/backends/_azure/_azure_quantum_client.py
index 86c3f18..e45e9cc 100644
--- a/projectq/backends/_azure/_azure_quantum_client.py
+++ b/projectq/backends/_azure/_azure_quantum_client.py
@@ -27,6 +27,8 @@ def _get_results(job, num_retries=100, interval=1, verbose=False):
         raise RequestTimeoutError(  # pylint: disable=raise-missing-from
             f"Timeout. The ID of your submitted job is {job.id}."
         )
+    except KeyboardInterrupt as err:
+        raise Exception(f"Interrupted. The ID of your submitted job is {job.id}.") from err
 
 
 def send(
-- 
2.43.0


From 653799743291824a346f0e88ee9cf8b663197bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:03 +0000
Subject: [PATCH 63/80] fix: an error while waiting for an Azure job lost its
 id

---
 projectq/backends/_azure/_azure_quantum_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/backends/_azure/_azure_quantum_client.py b/projectq/backends/_azure/_azure_quantum_client.py
index e45e9cc..2335f3d 100644
--- a/projectq/backends/_azure/_azure_quantum_client.py
+++ b/projectq/backends/_azure/_azure_quantum_client.py
@@ -29,6 +29,8 @@ def _get_results(job, num_retries=100, interval=1, verbose=False):
         )
     except KeyboardInterrupt as err:
         raise Exception(f"Interrupted. The ID of your submitted job is {job.id}.") from err
+    except Exception as err:
+        raise RuntimeError(f"Failed to get the result: {err!r}. The ID of your submitted job is {job.id}.") from err
 
 
 def send(
-- 
2.43.0


From 21c98a77bc9b545787bd60a6099d8a1b306f7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 64/80] fix: decomposing a time evolution printed debug output

---
 projectq/setups/decompositions/time_evolution.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/projectq/setups/decompositions/time_evolution.py b/projectq/setups/decompositions/time_evolution.py
index 9e02939..2b78e92 100644
--- a/projectq/setups/decompositions/time_evolution.py
+++ b/projectq/setups/decompositions/time_evolution.py
@@ -111,7 +111,6 @@ def _decompose_time_evolution_individual_terms(cmd):  # pylint: disable=too-many
                         H | qureg[index]
                     elif action == 'Y':
                         Rx(math.pi / 2.0) | qureg[index]
-                print(check_indices, set(range(len(qureg))))
                 # Check that qureg had exactly as many qubits as indices:
                 if check_indices != set(range(len(qureg))):
                     raise ValueError('Indices mismatch between hamiltonian terms and qubits')
-- 
2.43.0


From 1e8096f8a6d7dedd7b22ca5f75610ff6e3d010cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 65/80] fix: circuit drawers as last engine registered results
 under the mapped qubit id

---
 projectq/backends/_circuits/_drawer.py            | 10 +++++++++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 071ad2c..3de6604 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -16,8 +16,9 @@
 
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._to_latex import to_latex
 
@@ -232,6 +233,13 @@ class CircuitDrawer(BasicEngine):
                     else:
                         meas = self._default_measure
                     meas = int(meas)
+                    # Check there was a mapper and redirect result
+                    logical_id_tag = None
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_id_tag = tag
+                    if logical_id_tag is not None:
+                        qubit = WeakQubitRef(qubit.engine, logical_id_tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, meas)
 
         all_lines = [qb.id for qr in cmd.all_qubits for qb in qr]
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7c6b585..4792777 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -18,8 +18,9 @@ import itertools
 import re
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._plot import to_draw
 
@@ -122,6 +123,13 @@ class CircuitDrawerMatplotlib(BasicEngine):
                             measurement = input(prompt)
                     else:
                         measurement = self._default_measure
+                    # Check there was a mapper and redirect result
+                    logical_id_tag = None
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_id_tag = tag
+                    if logical_id_tag is not None:
+                        qubit = WeakQubitRef(qubit.engine, logical_id_tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, int(measurement))
 
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
-- 
2.43.0


From 1948e08fd6eb3b9e37e96022763f245626a4dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:19 +0000
Subject: [PATCH 66/80] fix: circuit drawers forgot the items of a line when
 its id was allocated again

---
 projectq/backends/_circuits/_drawer.py            | 3 ++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 3de6604..110e3a5 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -213,7 +213,8 @@ class CircuitDrawer(BasicEngine):
             qubit_id = cmd.qubits[0][0].id
             if qubit_id not in self._map:
                 self._map[qubit_id] = qubit_id
-            self._qubit_lines[qubit_id] = []
+            # the line may have been used before (e.g. by a mapper)
+            self._qubit_lines.setdefault(qubit_id, [])
 
         if cmd.gate == Deallocate:
             qubit_id = cmd.qubits[0][0].id
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 4792777..9caa586 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -105,7 +105,8 @@ class CircuitDrawerMatplotlib(BasicEngine):
             qb_id = cmd.qubits[0][0].id
             if qb_id not in self._map:
                 self._map[qb_id] = qb_id
-            self._qubit_lines[qb_id] = []
+            # the line may have been used before (e.g. by a mapper)
+            self._qubit_lines.setdefault(qb_id, [])
             return
 
         if cmd.gate == Deallocate:
-- 
2.43.0


From 8b0dec5f2918d954849073879e7bc7e18fcf3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 67/80] fix: ordered drawings ignored the qubit locations

---
 projectq/backends/_circuits/_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 110e3a5..4730956 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -287,7 +287,7 @@ class CircuitDrawer(BasicEngine):
 
         drawing_order = None
         if ordered:
-            drawing_order = self._drawing_order
+            drawing_order = [self._map[line] for line in self._drawing_order]
 
         return to_latex(
             qubit_lines,
-- 
2.43.0


From 16404b07d519913ab83c79c61f06743f945a9857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 68/80] fix: LaTeX drawings contained unformatted placeholders

---
 projectq/backends/_circuits/_to_latex.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index c2f870b..49904d3 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -181,18 +181,18 @@ def _header(settings):
     gate_style += "]\n"
 
     gate_style += (
-        "\\tikzstyle{{operator}}=[basic,minimum size=1.5em]\n"
+        "\\tikzstyle{operator}=[basic,minimum size=1.5em]\n"
         f"\\tikzstyle{{phase}}=[fill=black,shape=circle,minimum size={settings['control']['size']}cm,"
         "inner sep=0pt,outer sep=0pt,draw=black"
     )
     if settings['control']['shadow']:
         gate_style += ",basicshadow"
     gate_style += (
-        "]\n\\tikzstyle{{none}}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
-        "\\tikzstyle{{measure}}=[operator,inner sep=0pt,"
+        "]\n\\tikzstyle{none}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
+        "\\tikzstyle{measure}=[operator,inner sep=0pt,"
         f"minimum height={settings['gates']['MeasureGate']['height']}cm,"
         f"minimum width={settings['gates']['MeasureGate']['width']}cm]\n"
-        "\\tikzstyle{{xstyle}}=[circle,basic,minimum height="
+        "\\tikzstyle{xstyle}=[circle,basic,minimum height="
     )
     x_gate_radius = min(settings['gates']['XGate']['height'], settings['gates']['XGate']['width'])
     gate_style += f"{x_gate_radius}cm,minimum width={x_gate_radius}cm,inner sep=-1pt,{settings['lines']['style']}]\n"
@@ -450,7 +450,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         # pylint: disable=consider-using-f-string
         op_mid = f"line{'{}-{}'.format(*lines)}_gate{self.op_count[lines[0]]}"
         dagger = '^{{\\dagger}}' if daggered else ''
-        gate_str += f"\n\\node[xstyle] ({op}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
+        gate_str += f"\n\\node[xstyle] ({op_mid}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
 
         # add two vertical lines to connect circled 1/2
         gate_str += f"\n\\draw ({self._op(lines[0])}) edge[edgestyle] ({op_mid});"
@@ -756,7 +756,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         for line in lines:
             node1 = node_str.format(self._op(line), pos, line)
             node2 = (
-                "\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
+                f"\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
                 f"at ({pos + gate_width / 2.0},-{line}) {{}};"
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
-- 
2.43.0


From 4d2751acbf749a1329b153a283b0221ac087769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 69/80] fix: circuit drawings required consecutive qubit ids

---
 projectq/backends/_circuits/_plot.py     | 3 ++-
 projectq/backends/_circuits/_to_latex.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index b450309..47f73ac 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -105,7 +105,8 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
 
     if drawing_order is None:
         n_qubits = len(qubit_lines)
-        drawing_order = {qubit_id: n_qubits - qubit_id - 1 for qubit_id in list(qubit_lines)}
+        # The qubit IDs need not be consecutive (e.g. if some qubits have been optimized away)
+        drawing_order = {qubit_id: n_qubits - idx - 1 for idx, qubit_id in enumerate(sorted(qubit_lines))}
     else:
         if set(drawing_order) != set(qubit_lines):
             raise RuntimeError("Qubit IDs in drawing_order do not match qubit IDs in qubit_lines!")
diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 49904d3..d892e10 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -225,11 +225,14 @@ def _body(circuit, settings, drawing_order=None, draw_gates_in_parallel=True):
     """
     code = []
 
-    conv = _Circ2Tikz(settings, len(circuit))
+    # The lines need not be numbered consecutively (e.g. if some qubits have been optimized away)
+    all_lines = sorted(circuit) if isinstance(circuit, dict) else list(range(len(circuit)))
+
+    conv = _Circ2Tikz(settings, max(all_lines, default=-1) + 1)
 
     to_where = None
     if drawing_order is None:
-        drawing_order = list(range(len(circuit)))
+        drawing_order = all_lines
     else:
         to_where = 1
 
-- 
2.43.0


From 0526ce2ee0e08c8b22ff7239df9ca4c70fbc1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 70/80] fix: LaTeX drawings referred to lines that had not
 begun

---
 projectq/backends/_circuits/_to_latex.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index d892e10..4f67cfc 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -229,6 +229,7 @@ def _body(circuit, settings, drawing_order=None, draw_gates_in_parallel=True):
     all_lines = sorted(circuit) if isinstance(circuit, dict) else list(range(len(circuit)))
 
     conv = _Circ2Tikz(settings, max(all_lines, default=-1) + 1)
+    conv.ordered = drawing_order is not None
 
     to_where = None
     if drawing_order is None:
@@ -279,6 +280,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         self.pos = [0.0] * num_lines
         self.op_count = [0] * num_lines
         self.is_quantum = [settings['lines']['init_quantum']] * num_lines
+        self.ordered = False
 
     def to_tikz(  # pylint: disable=too-many-branches,too-many-locals,too-many-statements
         self, line, circuit, end=None, draw_gates_in_parallel=True
@@ -322,6 +324,12 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                 # we are taking care of gate 0 (the current one)
                 circuit[_line] = circuit[_line][1:]
 
+            if not self.ordered:
+                # the lines between those the gate acts upon have to begin before they can be crossed
+                for _line in range(min(lines) + 1, max(lines)):
+                    if self.op_count[_line] == 0 and _line in circuit:
+                        tikz_code.append(self.to_tikz(_line, circuit, 1))
+
             all_lines = lines + ctrl_lines
             pos = max(self.pos[ll] for ll in range(min(all_lines), max(all_lines) + 1))
             for _line in range(min(all_lines), max(all_lines) + 1):
@@ -764,7 +772,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
             tex_str += node1 + node2 + node3
-            if line not in gate_lines:
+            if line not in gate_lines and self.op_count[line] > 0:
                 tex_str += self._line(self.op_count[line] - 1, self.op_count[line], line=line)
 
         tex_str += (
-- 
2.43.0


From 45d4ffd6a05dd8247d13c70a14e2fe02c3638ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:45 +0000
Subject: [PATCH 71/80] fix: the Matplotlib drawer crashed on gates with
 several terms

---
 projectq/backends/_circuits/_drawer_matplotlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 9caa586..ba10794 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -31,7 +31,7 @@ def _format_gate_str(cmd):
     param_str = ''
     gate_name = str(cmd.gate)
     if '(' in gate_name:
-        (gate_name, param_str) = re.search(r'(.+)\((.*)\)', gate_name).groups()
+        (gate_name, param_str) = re.search(r'(.+)\((.*)\)', gate_name, re.DOTALL).groups()
         params = re.findall(r'([^,]+)', param_str)
         params_str_list = []
         for param in params:
-- 
2.43.0


From ce1a3347de6e0e04999134552cc4a2c308f633e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:42 +0000
Subject: [PATCH 72/80] fix: the Matplotlib drawer crashed on gates whose name
 begins with a parenthesis

---
 projectq/backends/_circuits/_drawer_matplotlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index ba10794..80b8571 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -30,8 +30,9 @@ from ._plot import to_draw
 def _format_gate_str(cmd):
     param_str = ''
     gate_name = str(cmd.gate)
-    if '(' in gate_name:
-        (gate_name, param_str) = re.search(r'(.+)\((.*)\)', gate_name, re.DOTALL).groups()
+    match = re.search(r'(.+)\((.*)\)', gate_name, re.DOTALL)
+    if match:
+        (gate_name, param_str) = match.groups()
         params = re.findall(r'([^,]+)', param_str)
         params_str_list = []
         for param in params:
-- 
2.43.0


From 7406f3f9fd81efdfefd2859707641ca866da7280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:07 +0000
Subject: [PATCH 73/80] fix: a failure while writing the drawing settings left
 half a file behind

---
 projectq/backends/_circuits/_to_latex.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 4f67cfc..2b48c27 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -15,6 +15,8 @@
 """ProjectQ module for exporting quantum circuits to LaTeX code."""
 
 import json
+import os
+import threading
 
 from projectq.ops import (
     Allocate,
@@ -96,8 +98,21 @@ def write_settings(settings):
     Args:
         settings (dict): Settings dict to write.
     """
-    with open('settings.json', 'w') as settings_file:
-        json.dump(settings, settings_file, sort_keys=True, indent=4)
+    # Complete another file first: a failure on the way must not leave half a settings file (or no settings) behind
+    file_name = os.path.realpath('settings.json')
+    tmp_name = f'{file_name}.{os.getpid()}-{threading.get_ident()}.tmp'
+    try:
+        with open(tmp_name, 'w') as settings_file:
+            json.dump(settings, settings_file, sort_keys=True, indent=4)
+            settings_file.flush()
+            os.fsync(settings_file.fileno())
+        os.replace(tmp_name, file_name)
+    except BaseException:
+        try:
+            os.remove(tmp_name)
+        except OSError:
+            pass
+        raise
     return settings
 
 
-- 
2.43.0


From b72cd03c9037e598dbfded59f6f4585fa13f6ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:39 +0000
Subject: [PATCH 74/80] fix: a refused measurement made the unitary simulator
 start a new unitary

---
 projectq/backends/_unitary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 6391209..88f2616 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -212,8 +212,6 @@ class UnitarySimulator(BasicEngine):
             self._is_valid = False
 
         elif isinstance(cmd.gate, MeasureGate):
-            self._is_valid = False
-
             if not self._is_flushed:
                 raise RuntimeError(
                     'Please make sure all previous gates are flushed before measurement so the state gets updated'
@@ -222,6 +220,7 @@ class UnitarySimulator(BasicEngine):
             if get_control_count(cmd) != 0:
                 raise ValueError('Cannot have control qubits with a measurement gate!')
 
+            self._is_valid = False
             all_qubits = [qb for qr in cmd.qubits for qb in qr]
             measurements = self.measure_qubits([qb.id for qb in all_qubits])
 
-- 
2.43.0


From bb6e393d25a1a08edb7fbb86d25c0c6d8608899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 75/80] fix: keep the state when a gate cannot be applied for
 lack of memory

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index e292a40..9f5013d 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -221,16 +221,24 @@ public:
 
         if (fused_gates.num_qubits() >= fusion_qubits_min_
                 && fused_gates.num_qubits() <= fusion_qubits_max_){
-            fused_gates_ = fused_gates;
-            run();
+            std::swap(fused_gates_, fused_gates);
+            try{
+                run();
+            }
+            catch (...){ // not enough memory: the gate has not been applied
+                std::swap(fused_gates_, fused_gates);
+                throw;
+            }
         }
         else if (fused_gates.num_qubits() > fusion_qubits_max_
                  || (fused_gates.num_qubits() - ids.size()) > fused_gates_.num_qubits()){
+            Fusion new_gates;
+            new_gates.insert(m, ids, ctrl);
             run();
-            fused_gates_.insert(m, ids, ctrl);
+            std::swap(fused_gates_, new_gates);
         }
         else
-            fused_gates_ = fused_gates;
+            std::swap(fused_gates_, fused_gates);
     }
 
     template <class F, class QuReg>
-- 
2.43.0


From 4779289c7e0c7a8f935d76afbbc662d899893541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 76/80] fix: restore the state when an observable or evolution
 runs out of memory

---
 .../backends/_sim/_cppkernels/simulator.hpp   | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 9f5013d..f712201 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -328,7 +328,7 @@ public:
 
         for (auto const& term : td){
             auto const& coefficient = term.second;
-            apply_term(term.first, ids, {});
+            apply_term(term.first, ids, current_state);
             calc_type delta = 0.;
             #pragma omp parallel for reduction(+:delta) schedule(static)
             for (std::size_t i = 0; i < vec_.size(); ++i){
@@ -364,7 +364,7 @@ public:
         }
         for (auto const& term : td){
             auto const& coefficient = term.second;
-            apply_term(term.first, ids, {});
+            apply_term(term.first, ids, current_state);
             #pragma omp parallel for schedule(static)
             for (std::size_t i = 0; i < vec_.size(); ++i){
                 new_state[i] += coefficient * vec_[i];
@@ -432,6 +432,7 @@ public:
         auto output_state = vec_;
         auto current_state = vec_;
         auto update = StateVector(vec_.size(), 0.);
+        auto original_state = vec_;
         auto ctrlmask = get_control_mask(ctrl);
         for (unsigned i = 0; i < s; ++i){
             calc_type nrm_change = 1.;
@@ -443,7 +444,7 @@ public:
                     update[j] = 0.;
                 }
                 for (auto const& tup : td){
-                    apply_term(tup.first, ids, {});
+                    apply_term(tup.first, ids, original_state);
                     #pragma omp parallel for schedule(static)
                     for (std::size_t j = 0; j < vec_.size(); ++j){
                         update[j] += vec_[j] * tup.second;
@@ -570,18 +571,26 @@ public:
     }
 
 private:
+    // applies the term to vec_ (restored from 'original' if that fails)
     void apply_term(Term const& term, std::vector<unsigned> const& ids,
-                    std::vector<unsigned> const& ctrl){
-        complex_type I(0., 1.);
-        Fusion::Matrix X = {{0., 1.}, {1., 0.}};
-        Fusion::Matrix Y = {{0., -I}, {I, 0.}};
-        Fusion::Matrix Z = {{1., 0.}, {0., -1.}};
-        std::vector<Fusion::Matrix> gates = {X, Y, Z};
-        for (auto const& local_op : term){
-            unsigned id = ids[local_op.first];
-            apply_controlled_gate(gates[local_op.second - 'X'], {id}, ctrl);
+                    StateVector& original){
+        try{
+            complex_type I(0., 1.);
+            Fusion::Matrix X = {{0., 1.}, {1., 0.}};
+            Fusion::Matrix Y = {{0., -I}, {I, 0.}};
+            Fusion::Matrix Z = {{1., 0.}, {0., -1.}};
+            std::vector<Fusion::Matrix> gates = {X, Y, Z};
+            for (auto const& local_op : term){
+                unsigned id = ids[local_op.first];
+                apply_controlled_gate(gates[local_op.second - 'X'], {id}, {});
+            }
+            run();
+        }
+        catch (...){ // not enough memory
+            fused_gates_ = Fusion();
+            std::swap(vec_, original);
+            throw;
         }
-        run();
     }
     // remainder with the sign of N, as in Python
     static int modulo(long long x, int N){
-- 
2.43.0


From 9a841d6d01553db52e3c001ee0dd9810bda6fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:17 +0000
Subject: [PATCH 77/80] fix: cloud back-ends could not be used from a thread
 other than the main one

---
 projectq/backends/_aqt/_aqt_http_client.py              | 8 ++++++--
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 8 ++++++--
 projectq/backends/_ibm/_ibm_http_client.py              | 8 ++++++--
 projectq/backends/_ionq/_ionq_http_client.py            | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index f4bae72..3fee8b3 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -16,6 +16,7 @@
 
 import getpass
 import signal
+import threading
 import time
 
 import requests
@@ -128,12 +129,15 @@ class AQT(Session):
             print(f"Waiting for results. [Job ID: {execution_id}]")
 
         original_sigint_handler = signal.getsignal(signal.SIGINT)
+        # only the main thread may install signal handlers
+        in_main_thread = threading.current_thread() is threading.main_thread()
 
         def _handle_sigint_during_get_result(*_):  # pragma: no cover
             raise Exception(f"Interrupted. The ID of your submitted job is {execution_id}.")
 
         try:
-            signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
+            if in_main_thread:
+                signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
 
             for retries in range(num_retries):
                 argument = {'id': execution_id, 'access_token': self.token}
@@ -160,7 +164,7 @@ class AQT(Session):
                 f"Failed to get the result: {err!r}. The ID of your submitted job is {execution_id}."
             ) from err
         finally:
-            if original_sigint_handler is not None:
+            if in_main_thread and original_sigint_handler is not None:
                 signal.signal(signal.SIGINT, original_sigint_handler)
 
         raise RequestTimeoutError(f"Timeout. The ID of your submitted job is {execution_id}.")
diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index e26e906..211c0d8 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -23,6 +23,7 @@ import getpass
 import json
 import re
 import signal
+import threading
 import time
 
 import boto3
@@ -221,6 +222,8 @@ class AWSBraket:
             print(f"Waiting for results. [Job Arn: {execution_id}]")
 
         original_sigint_handler = signal.getsignal(signal.SIGINT)
+        # only the main thread may install signal handlers
+        in_main_thread = threading.current_thread() is threading.main_thread()
 
         def _handle_sigint_during_get_result(*_):  # pragma: no cover
             raise Exception(f"Interrupted. The Arn of your submitted job is {execution_id}.")
@@ -263,7 +266,8 @@ class AWSBraket:
 
         status = 'UNKNOWN'
         try:
-            signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
+            if in_main_thread:
+                signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
 
             for _ in range(num_retries):
                 quantum_task = client_braket.get_quantum_task(quantumTaskArn=execution_id)
@@ -308,7 +312,7 @@ class AWSBraket:
                 # status of the device
 
         finally:
-            if original_sigint_handler is not None:
+            if in_main_thread and original_sigint_handler is not None:
                 signal.signal(signal.SIGINT, original_sigint_handler)
 
         raise RequestTimeoutError(
diff --git a/projectq/backends/_ibm/_ibm_http_client.py b/projectq/backends/_ibm/_ibm_http_client.py
index 2b8e7c1..9893919 100755
--- a/projectq/backends/_ibm/_ibm_http_client.py
+++ b/projectq/backends/_ibm/_ibm_http_client.py
@@ -21,6 +21,7 @@
 
 import getpass
 import signal
+import threading
 import time
 import uuid
 
@@ -221,12 +222,15 @@ class IBMQ(Session):
             print(f"Waiting for results. [Job ID: {execution_id}]")
 
         original_sigint_handler = signal.getsignal(signal.SIGINT)
+        # only the main thread may install signal handlers
+        in_main_thread = threading.current_thread() is threading.main_thread()
 
         def _handle_sigint_during_get_result(*_):  # pragma: no cover
             raise Exception(f"Interrupted. The ID of your submitted job is {execution_id}.")
 
         try:
-            signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
+            if in_main_thread:
+                signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
             for retries in range(num_retries):
                 # STEP5: WAIT FOR THE JOB TO BE RUN
                 json_step5 = {'allow_redirects': True, 'timeout': (self.timeout, None)}
@@ -283,7 +287,7 @@ class IBMQ(Session):
                 f"Failed to get the result: {err!r}. The ID of your submitted job is {execution_id}."
             ) from err
         finally:
-            if original_sigint_handler is not None:
+            if in_main_thread and original_sigint_handler is not None:
                 signal.signal(signal.SIGINT, original_sigint_handler)
 
         raise Exception(f"Timeout. The ID of your submitted job is {execution_id}.")
diff --git a/projectq/backends/_ionq/_ionq_http_client.py b/projectq/backends/_ionq/_ionq_http_client.py
index 7315091..28eedec 100644
--- a/projectq/backends/_ionq/_ionq_http_client.py
+++ b/projectq/backends/_ionq/_ionq_http_client.py
@@ -17,6 +17,7 @@
 import getpass
 import json
 import signal
+import threading
 import time
 
 import requests
@@ -197,11 +198,14 @@ class IonQ(Session):
             print(f"Waiting for results. [Job ID: {execution_id}]")
 
         original_sigint_handler = signal.getsignal(signal.SIGINT)
+        # only the main thread may install signal handlers
+        in_main_thread = threading.current_thread() is threading.main_thread()
 
         def _handle_sigint_during_get_result(*_):  # pragma: no cover
             raise Exception(f"Interrupted. The ID of your submitted job is {execution_id}.")
 
-        signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
+        if in_main_thread:
+            signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
 
         try:
             for retries in range(num_retries):
@@ -240,7 +244,7 @@ class IonQ(Session):
                 f"Failed to get the result: {err!r}. The ID of your submitted job is {execution_id}."
             ) from err
         finally:
-            if original_sigint_handler is not None:
+            if in_main_thread and original_sigint_handler is not None:
                 signal.signal(signal.SIGINT, original_sigint_handler)
 
         raise RequestTimeoutError(f"Timeout. The ID of your submitted job is {execution_id}.")
-- 
2.43.0


From df8aafba7621c0e364ae5d00a3b9650ee17f9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 78/80] fix: do not duplicate the tags of commands with
 negative controls

---
 projectq/setups/decompositions/controlstate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index d9c8686..5a69d28 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -35,7 +35,9 @@ def _decompose_controlstate(cmd):
     # Resend the command with the `control_state` cleared
     cmd.control_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
-    cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd = deepcopy(cmd)  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd.tags = []  # like any other command of a decomposition, it gets the original tags from the replacer
+    cmd.engine.receive([new_cmd])
     Uncompute(orig_engine)
 
 
-- 
2.43.0


From d8816a037b0c8f62031c01469b8314d4ab63cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:03 +0000
Subject: [PATCH 79/80] fix: the width of an IonQ circuit counted qubits of
 earlier circuits

---
 projectq/backends/_ionq/_ionq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index a8c3037..837dca4 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -290,10 +290,10 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             return
 
         if self._retrieve_execution is None:
-            qubit_mapping = self.main_engine.mapper.current_mapping
             measured_ids = self._measured_ids[:]
-            # All positions in use, including those of qubits which were deallocated in the meantime
-            positions = set(qubit_mapping.values()).union(self._measured_positions)
+            # All positions the circuit uses, including those of qubits which were deallocated in the meantime, but not
+            # those of qubits of earlier circuits which the mapping still lists
+            positions = set(self._measured_positions)
             for gate in self._circuit:
                 positions.update(gate['targets'], gate.get('controls', []))
             info = {
-- 
2.43.0


From 7a526bc420346912e3d66c84001b8b7c72aa43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:04 +0000
Subject: [PATCH 80/80] fix: hand on exceptions which cannot be rebuilt from a
 message

---
 projectq/cengines/_main.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/projectq/cengines/_main.py b/projectq/cengines/_main.py
index 5f3c0a0..15c975a 100755
--- a/projectq/cengines/_main.py
+++ b/projectq/cengines/_main.py
@@ -339,9 +339,14 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
             exc_type, exc_value, _ = sys.exc_info()
             # try:
             last_line = traceback.format_exc().splitlines()
-            compact_exception = exc_type(
-                str(exc_value) + '\n raised in:\n' + repr(last_line[-3]) + "\n" + repr(last_line[-2])
-            )
+            try:
+                compact_exception = exc_type(
+                    str(exc_value) + '\n raised in:\n' + repr(last_line[-3]) + "\n" + repr(last_line[-2])
+                )
+            except Exception:  # pylint: disable=broad-except
+                compact_exception = None
+            if compact_exception is None:
+                raise  # an exception of this type needs more than a message
             compact_exception.__cause__ = None
             raise compact_exception from err  # use verbose=True for more info
 
-- 
2.43.0

