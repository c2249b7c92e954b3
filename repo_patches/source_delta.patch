From 113246fc7fce7343a65d97a64e7a51c13f7e767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 01/57] fix: unitary of a circuit without operations is the
 identity

---
 src/python/zquantum/core/circuits/_circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4fd1a80..65379d5 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -126,6 +126,8 @@ class Circuit:
         lifted_matrices = [
             op.lifted_matrix(self.n_qubits) for op in reversed(self.operations)
         ]
+        if not lifted_matrices:
+            return np.eye(2**self.n_qubits)
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From 262abac2a2ecf1889eb89427b8af63a252c7ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:12 +0000
Subject: [PATCH 02/57] fix: bind symbols simultaneously, so maps that rename
 or swap symbols give the right values

---
 src/python/zquantum/core/circuits/_gates.py      | 3 ++-
 src/python/zquantum/core/circuits/_operations.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index da7b523..c2f085c 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -357,7 +357,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
diff --git a/src/python/zquantum/core/circuits/_operations.py b/src/python/zquantum/core/circuits/_operations.py
index 93f43ab..0877b47 100644
--- a/src/python/zquantum/core/circuits/_operations.py
+++ b/src/python/zquantum/core/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From 7e1e83fa6c64df167c7854a997ac15aec2d0bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:12 +0000
Subject: [PATCH 03/57] fix: collect definitions of user-defined gates that are
 controlled or daggered

---
 src/python/zquantum/core/circuits/_circuit.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 65379d5..298c967 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -25,9 +25,17 @@ def _circuit_size_by_operations(operations):
     )
 
 
+def _unwrapped_gate(operation):
+    gate = getattr(operation, "gate", None)
+    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
+        gate = gate.wrapped_gate
+    return gate
+
+
 def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+    gate = _unwrapped_gate(operation)
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,7 +106,7 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
+            _unwrapped_gate(operation).matrix_factory.gate_definition
             for operation in self.operations
             if _operation_uses_custom_gate(operation)
         )
-- 
2.43.0


From c0ec136ff5adbbe43ce15aaf8594fb547d85c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:41 +0000
Subject: [PATCH 04/57] fix: decomposing a circuit keeps its number of qubits

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index cb0eae3..7bc2c19 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -49,4 +49,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_zquantum_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From 72f5c7dbf6f44e80f2ef2915d914a78e59eaba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:41 +0000
Subject: [PATCH 05/57] fix: reject unknown layer types instead of returning
 nothing

---
 src/python/zquantum/core/circuits/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/layouts.py b/src/python/zquantum/core/circuits/layouts.py
index a0875a2..97528a0 100644
--- a/src/python/zquantum/core/circuits/layouts.py
+++ b/src/python/zquantum/core/circuits/layouts.py
@@ -165,7 +165,7 @@ def build_circuit_layers_and_connectivity(
     elif layer_type == "nearest-neighbor":
         return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
     else:
-        ValueError("Layer type {0} is not defined".format(layer_type))
+        raise ValueError("Layer type {0} is not defined".format(layer_type))
 
 
 def _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension):
-- 
2.43.0


From 86157c26d854213ff1cf90c3fd628aaf20585d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:41 +0000
Subject: [PATCH 06/57] fix: reject expressions of unsupported types instead of
 translating them to None

---
 src/python/zquantum/core/circuits/symbolic/translations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/symbolic/translations.py b/src/python/zquantum/core/circuits/symbolic/translations.py
index 14b85aa..acde7a7 100644
--- a/src/python/zquantum/core/circuits/symbolic/translations.py
+++ b/src/python/zquantum/core/circuits/symbolic/translations.py
@@ -13,7 +13,9 @@ from .expressions import Expression, ExpressionDialect, FunctionCall, Symbol
 def translate_expression(
     expression: Union[Expression, Tuple[Expression, ...]], dialect: ExpressionDialect
 ):
-    pass
+    raise NotImplementedError(
+        f"Expression {expression} of type {type(expression)} is not supported"
+    )
 
 
 @translate_expression.register
-- 
2.43.0


From f21e793656cde7e3dabcac65a33b6450a9aa1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:41 +0000
Subject: [PATCH 07/57] fix: read parameters of user-defined gates with the
 symbols they were written with

---
 src/python/zquantum/core/circuits/_serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ded3b7f..140d859 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -270,7 +270,7 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From a0a55523be949a045ec0e3eb063fbc33a6add76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 08/57] fix: leave a wavefunction unchanged when a slice
 assignment is rejected

---
 src/python/zquantum/core/wavefunction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index e7e9736..de10c3f 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -110,16 +110,16 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        new_vector = self._amplitude_vector.copy()
+        new_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(new_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = new_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 9dc2852856c94dc7058fec9d94f1ec0d9923f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:55 +0000
Subject: [PATCH 09/57] fix: assigning the last symbolic entry of a
 wavefunction

---
 src/python/zquantum/core/wavefunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index de10c3f..7f29c45 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -112,6 +112,8 @@ class Wavefunction:
     def __setitem__(self, idx, val):
         new_vector = self._amplitude_vector.copy()
         new_vector[idx] = val
+        if not getattr(new_vector, "free_symbols", set()):
+            new_vector = np.asarray(new_vector, dtype=complex)
 
         try:
             self._check_normalization(new_vector)
-- 
2.43.0


From a8cac04ad1772edfc11370d54aa14b13c60ed9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 10/57] fix: derivative circuits of a multi-step Trotter
 formula use the step's share of the time

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index b884b4d..dc553a1 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -163,7 +163,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", trotter_order=1
+            hamiltonian, time / trotter_order, method="Trotter", trotter_order=1
         )
 
         for position in range(trotter_order):
-- 
2.43.0


From b46f359aa03e9cbaedf9c75872516db6400cfa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 11/57] fix: bind the symbols of a wavefunction simultaneously

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 7f29c45..9b10515 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -188,7 +188,7 @@ class Wavefunction:
         if not self.free_symbols:
             return self
         assert isinstance(self._amplitude_vector, Matrix)
-        result = self._amplitude_vector.subs(symbol_map)
+        result = self._amplitude_vector.subs(symbol_map, simultaneous=True)
 
         try:
             return type(self)(result)
-- 
2.43.0


From 87e83b22ae1929388ab7cf0413735cf472f87af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:22 +0000
Subject: [PATCH 12/57] fix: single-subsystem outcomes of more than one digit
 survive saving

---
 .../_measurement_outcome_distribution.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 5c3b1db..ad4ed68 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -92,7 +92,9 @@ def preprocess_distibution_dict(
     res_dict = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            # A trailing comma marks a single multi-digit integer, e.g. "10,"
+            digits = key if "," not in key else key.rstrip(",").split(",")
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -223,11 +225,17 @@ def normalize_measurement_outcome_distribution(
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
 
+def _tuple_to_comma_separated_integers(key):
+    res = ",".join(map(str, key))
+    # Without a comma the digits of a single integer would be read as several integers
+    return res + "," if len(key) == 1 and len(res) > 1 else res
+
+
 def save_measurement_outcome_distribution(
     distribution: MeasurementOutcomeDistribution, filename: AnyPath
 ) -> None:
-- 
2.43.0


From 62112fe1fbabf5961bd994e237b4675bc4e46a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:48 +0000
Subject: [PATCH 13/57] fix: estimate operators whose coefficients are of
 complex type

---
 src/python/zquantum/core/measurement.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 3905433..cbe74fe 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -404,11 +404,15 @@ def expectation_values_to_real(
             value = value.real
         values.append(value)
     expectation_values.values = np.array(values)
-    if expectation_values.correlations:
-        for i, value in enumerate(expectation_values.correlations):
-            if isinstance(value, complex):
-                value = value.real
-            expectation_values.correlations[i] = value
+    for frames in (
+        expectation_values.correlations,
+        expectation_values.estimator_covariances,
+    ):
+        if frames:
+            for i, value in enumerate(frames):
+                if np.iscomplexobj(value):
+                    value = value.real
+                frames[i] = value
     return expectation_values
 
 
@@ -763,7 +767,9 @@ class Measurements:
         ]
         expectation_values = np.array(expectation_values_list)
 
-        correlations = np.zeros((len(ising_operator.terms),) * 2)
+        correlations = np.zeros(
+            (len(ising_operator.terms),) * 2, dtype=expectation_values.dtype
+        )
         for i, first_term in enumerate(ising_operator.terms):
             correlations[i, i] = ising_operator.terms[first_term] ** 2
             for j in range(i):
-- 
2.43.0


From 9bea50d624f4092bbb8b78a3eadb33719ca2f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:48 +0000
Subject: [PATCH 14/57] fix: a single symbols map evaluates the circuits of all
 estimation tasks

---
 src/python/zquantum/core/estimation/_estimation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 852e066..4b61ab3 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -198,6 +198,11 @@ def evaluate_estimation_circuits(
         symbols_maps: a list of dictionaries (or singular dictionary) that map the
             symbolic symbols used in the parametrized circuits to the associated values
     """
+    if isinstance(symbols_maps, dict):
+        symbols_maps = [symbols_maps]
+    if len(symbols_maps) == 1:
+        symbols_maps = symbols_maps * len(estimation_tasks)
+
     return [
         EstimationTask(
             operator=estimation_task.operator,
-- 
2.43.0


From 6ade551154c679f35bf81012e19bac20fb84d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 15/57] fix: group variances are real for operators with
 complex-typed coefficients

---
 src/python/zquantum/core/hamiltonian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 01ed1fc..c0cc345 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -133,7 +133,7 @@ def get_decomposition_function(
 
 def _calculate_variance_upper_bound(group: QubitOperator) -> float:
     coefficients = np.array(list(group.terms.values()))
-    return np.sum(coefficients**2)
+    return np.sum(np.abs(coefficients) ** 2)
 
 
 def _remove_constant_term_from_group(group: QubitOperator) -> QubitOperator:
@@ -183,7 +183,9 @@ def compute_group_variances(
             pauli_variances_for_group = pauli_variances[
                 offset : offset + group_sizes[i]
             ]
-            frame_variances.append(np.sum(coeffs**2 * pauli_variances_for_group))
+            frame_variances.append(
+                np.sum(np.abs(coeffs) ** 2 * pauli_variances_for_group)
+            )
 
     return np.array(frame_variances)
 
-- 
2.43.0


From 386b366ac753ed66e696027900042be861347743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 16/57] fix: gradient augmentations apply when the function
 itself is not augmented

---
 src/python/zquantum/core/cost_function_augmentations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 022cfc0..d04acf8 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -169,6 +169,13 @@ def augment_cost_function(
         else {}
     )
 
+    if attribute_overrides and gradient_augmentations:
+        # Makes the augmented gradient visible even if the function itself is not
+        # augmented.
+        cost_function = _AttributePropagatingWrapper(
+            cost_function, cost_function, attribute_overrides
+        )
+
     augmented_cost_function = _augment_function(
         cost_function, cost_function_augmentations, attribute_overrides
     )
-- 
2.43.0


From 9eb7dd05a3ac2f908d62f6eb690c05a8264f9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 17/57] fix: copies of a recorder with gradient keep the
 history of the gradient

---
 src/python/zquantum/core/history/recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 3ace945..9030e9f 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -64,6 +64,8 @@ def copy_recorder(recorder_to_copy):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = recorder_to_copy.history
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.copy(recorder_to_copy.gradient)
     return recorder_copy
 
 
@@ -76,6 +78,8 @@ def deepcopy_recorder(recorder_to_copy, memo):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.deepcopy(recorder_to_copy.gradient, memo=memo)
     return recorder_copy
 
 
-- 
2.43.0


From b93a02f3a6368522969992f9da7a814e62d3b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 18/57] fix: augmented cost functions can be copied

---
 src/python/zquantum/core/cost_function_augmentations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index d04acf8..2b79658 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -98,6 +98,10 @@ class _AttributePropagatingWrapper:
         Overriding __getattr__ is crucial for propagating attribute queries to the
         wrapped objects.
         """
+        if attr_name in ("__copy__", "__deepcopy__", "__getstate__", "__setstate__"):
+            # Copying concerns the wrapper itself, and takes place before the
+            # attributes used below are set.
+            raise AttributeError(attr_name)
         try:
             return self._attribute_overrides[attr_name]
         except KeyError:
-- 
2.43.0


From 5901e7316f2cee41750e354e586288b91f41eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 19/57] fix: histories without gradient history can be extended

---
 src/python/zquantum/core/interfaces/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/interfaces/optimizer.py b/src/python/zquantum/core/interfaces/optimizer.py
index 571dc56..4958117 100644
--- a/src/python/zquantum/core/interfaces/optimizer.py
+++ b/src/python/zquantum/core/interfaces/optimizer.py
@@ -132,7 +132,7 @@ def extend_histories(
     updated_histories = {"history": histories["history"] + new_histories["history"]}
     if hasattr(cost_function, "gradient"):
         updated_histories["gradient_history"] = (
-            histories["gradient_history"] + new_histories["gradient_history"]
+            histories.get("gradient_history", []) + new_histories["gradient_history"]
         )
     return updated_histories
 
-- 
2.43.0


From 6a52dda184ca4dc4cbf24d8d87dd0b577aa6235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 20/57] fix: the gradient of an augmented function is visible
 to runtime-checkable protocols

---
 src/python/zquantum/core/cost_function_augmentations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 2b79658..e5596d8 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -77,6 +77,9 @@ class _AttributePropagatingWrapper:
             "_attribute_overrides",
             attribute_overrides if attribute_overrides else {},
         )
+        # Runtime-checkable protocols (e.g. CallableWithGradient) look only at the
+        # attributes that are actually present on the object.
+        vars(self).update(self._attribute_overrides)
 
     def __call__(self, *args, **kwargs):
         """Propagate call to the wrapped function.
-- 
2.43.0


From 0c6ec779f47a475e5a841e1db8ac775e40e3da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 21/57] fix: compare operators term by term with a tolerance of
 their own

isclose multiplied its tolerance by the size of every pair of coefficients it
had seen, so that operators with a few large coefficients compared equal to
clearly different ones.
---
 .../core/openfermion/ops/operators/symbolic_operator.py     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0f7a1ee..ba8720f 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -644,8 +644,10 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             a = self.terms[term]
             b = other.terms[term]
             if not (isinstance(a, sympy.Expr) or isinstance(b, sympy.Expr)):
-                tol *= max(1, abs(a), abs(b))
-            if self._issmall(a - b, tol) is False:
+                term_tol = tol * max(1, abs(a), abs(b))
+            else:
+                term_tol = tol
+            if self._issmall(a - b, term_tol) is False:
                 return False
         # terms only in one (compare to 0.0 so only abs_tol)
         for term in set(self.terms).symmetric_difference(set(other.terms)):
-- 
2.43.0


From bb96193acaacc889b7e84353aa5fb04be273a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 22/57] fix: keep negative symbolic coefficients when
 compressing operators

compress compared the signed imaginary and real parts with the tolerance and so
dropped negative parts of symbolic coefficients.
---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index ba8720f..5236f28 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -672,9 +672,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             coeff = self.terms[term]
 
             if isinstance(coeff, sympy.Expr):
-                if sympy.simplify(sympy.im(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.im(coeff)) <= abs_tol) == True:
                     coeff = sympy.re(coeff)
-                if sympy.simplify(sympy.re(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.re(coeff)) <= abs_tol) == True:
                     coeff = 1j * sympy.im(coeff)
                 if sympy.simplify(abs(coeff) <= abs_tol) != True:
                     new_terms[term] = coeff
-- 
2.43.0


From 13edaac9059301109e693c3f9eb5ae39036a258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 23/57] fix: many-body order of an operator with only
 negligible terms is 0

max() of no terms raised a ValueError.
---
 .../core/openfermion/ops/operators/symbolic_operator.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 5236f28..e30c85d 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -724,9 +724,12 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             return 0
         else:
             return max(
-                len(term)
-                for term, coeff in self.terms.items()
-                if (self._issmall(coeff) is False)
+                (
+                    len(term)
+                    for term, coeff in self.terms.items()
+                    if (self._issmall(coeff) is False)
+                ),
+                default=0,
             )
 
     @classmethod
-- 
2.43.0


From 44a2ea06a7fe5a69c04402b14ab5430f9155c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 24/57] fix: allow adding or subtracting an operator to itself
 in place

The loop deleted entries of the dictionary it was iterating over.
---
 .../core/openfermion/ops/operators/symbolic_operator.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index e30c85d..e115135 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -438,8 +438,8 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, type(self)):
-            for term in addend.terms:
-                self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
+            for term, coefficient in list(addend.terms.items()):
+                self.terms[term] = self.terms.get(term, 0.0) + coefficient
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
         elif isinstance(addend, COEFFICIENT_TYPES):
@@ -485,8 +485,8 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot subtract invalid type.
         """
         if isinstance(subtrahend, type(self)):
-            for term in subtrahend.terms:
-                self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
+            for term, coefficient in list(subtrahend.terms.items()):
+                self.terms[term] = self.terms.get(term, 0.0) - coefficient
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
         elif isinstance(subtrahend, COEFFICIENT_TYPES):
-- 
2.43.0


From ff797a5b90d362b6664378d5bc30cdad34da5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 25/57] fix: read complex coefficients with a negative real
 part from strings

The leading minus sign of "-1+2j" was applied to the whole number.
---
 .../core/openfermion/ops/operators/symbolic_operator.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index e115135..5b503ce 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -177,7 +177,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             else:
                 try:
                     if "j" in coef_string:
-                        if coef_string[0] == "-":
+                        if coef_string.startswith("-("):
                             coef = -complex(coef_string[1:])
                         else:
                             coef = complex(coef_string)
-- 
2.43.0


From 9191fbe83c356521e2ba911fc843df45a5cfef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 26/57] fix: make iterations over an operator independent of
 each other

The iterator was stored in the operator: nested loops over the same operator
interfered, and an operator that had been iterated over could not be copied
(and so not added or multiplied) any more.
---
 .../core/openfermion/ops/operators/symbolic_operator.py    | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 5b503ce..1035939 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -619,12 +619,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         return not (self == other)
 
     def __iter__(self):
-        self._iter = iter(self.terms.items())
-        return self
-
-    def __next__(self):
-        term, coefficient = next(self._iter)
-        return self.__class__(term=term, coefficient=coefficient)
+        return self.get_operators()
 
     def isclose(self, other, tol=EQ_TOLERANCE):
         """Check if other (SymbolicOperator) is close to self.
-- 
2.43.0


From edb1fa1324cc5793ec1f8b5a48414edddc53740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 27/57] fix: do not share tensors between polynomial tensors

a += b and a -= b made a refer to the arrays of b, so that later in-place changes of one
changed the other.
---
 .../openfermion/ops/representations/polynomial_tensor.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ed50e64..25d9b9d 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -237,7 +237,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], addend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = addend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(addend.n_body_tensors[key])
 
         return self
 
@@ -279,7 +279,9 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(
+                    subtrahend.n_body_tensors[key]
+                )
 
         return self
 
-- 
2.43.0


From 3f2cac6f6d334cd99478cb1cb88742c4474caab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 28/57] fix: scale polynomial tensors of real numbers by
 complex numbers

The in-place operations on the arrays could not change their type (and changed
arrays owned by the caller).
---
 .../core/openfermion/ops/representations/polynomial_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index 25d9b9d..e7d33c3 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -296,7 +296,7 @@ class PolynomialTensor(object):
     def __imul__(self, multiplier):
         if isinstance(multiplier, COEFFICIENT_TYPES):
             for key in self.n_body_tensors:
-                self.n_body_tensors[key] *= multiplier
+                self.n_body_tensors[key] = self.n_body_tensors[key] * multiplier
 
         elif isinstance(multiplier, PolynomialTensor):
             if self.n_qubits != multiplier.n_qubits:
@@ -330,7 +330,7 @@ class PolynomialTensor(object):
     def __itruediv__(self, dividend):
         if isinstance(dividend, COEFFICIENT_TYPES):
             for key in self.n_body_tensors:
-                self.n_body_tensors[key] /= dividend
+                self.n_body_tensors[key] = self.n_body_tensors[key] / dividend
         else:
             raise TypeError("Invalid type.")
 
-- 
2.43.0


From c1e4d1774e4bbfc019a1711cdae84418470b7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 29/57] fix: Bravyi-Kitaev transform of tensors on more qubits
 than orbitals

The loops over orbitals ran over all requested qubits.
---
 .../openfermion/transforms/opconversions/bravyi_kitaev.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
index 98bd737..95467e6 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
@@ -273,7 +273,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
     qubit_hamiltonian_coef = []
 
     #  For cases A - F see Table II of Seeley, Richard, Love
-    for i in range(n_qubits):
+    for i in range(N):
         # A. Number operators: n_i
         if abs(one_body[i, i]) > 0:
             qubit_hamiltonian += _qubit_operator_creation(
@@ -313,8 +313,8 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                 constant_term += coef
 
     # C. Number-excitation operators: n_i a_j^d a_k
-    for i in range(n_qubits):
-        for j in range(n_qubits):
+    for i in range(N):
+        for j in range(N):
             for k in range(j):
                 if i not in (j, k):
                     coef = _two_body_coef(two_body, i, j, k, i)
@@ -340,7 +340,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                         qubit_hamiltonian += number
 
     # D. Double-excitation operators: c_i^d c_j^d c_k c_l
-    for i in range(n_qubits):
+    for i in range(N):
         for j in range(i):
             for k in range(j):
                 for l in range(k):
-- 
2.43.0


From 40db502e4b912922e00eda6ac77eff71a746f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 30/57] fix: load functions accept every kind of path that can
 be saved to

The load functions documented to take any path only recognised str.
---
 .../zquantum/core/openfermion/zapata_utils/_io.py     | 11 ++++++-----
 src/python/zquantum/core/utils.py                     |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index 89c6e1a..bb36d59 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -1,3 +1,4 @@
+from os import PathLike
 from typing import Any, Callable, Dict, List
 
 import numpy as np
@@ -60,7 +61,7 @@ def load_interaction_operator(file: LoadSource) -> InteractionOperator:
         op: the operator.
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -157,7 +158,7 @@ def load_qubit_operator(file: LoadSource) -> QubitOperator:
         op: the operator.
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -193,7 +194,7 @@ def load_qubit_operator_set(file: LoadSource) -> List[QubitOperator]:
     Returns:
         qubit_operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -263,7 +264,7 @@ def load_ising_operator(file: LoadSource) -> IsingOperator:
         op: the operator.
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -343,7 +344,7 @@ def load_interaction_rdm(file: LoadSource) -> InteractionRDM:
         The interaction RDM.
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 327baea..f8350d9 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -10,6 +10,7 @@ import json
 import sys
 import warnings
 from functools import partial
+from os import PathLike
 from types import FunctionType
 from typing import Any, Dict, Iterable, List, Optional, Tuple
 
@@ -319,7 +320,7 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -352,7 +353,7 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             data = json.load(f)
     else:
@@ -459,7 +460,7 @@ def load_noise_model(file: LoadSource):
         noise model
     """
 
-    if isinstance(file, str):
+    if isinstance(file, (str, bytes, PathLike)):
         with open(file, "r") as f:
             specs = json.load(f)
     else:
-- 
2.43.0


From 48c99ef5721951c60df09a04c7e126fdb9a7697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 31/57] fix: operators that vanish survive being saved as plain
 text

The zero operator was printed as 0, which is not a term (or is the fermionic
term a_0), and an operator with only negligible terms as the empty string, which
is read as the identity.
---
 .../core/openfermion/ops/operators/symbolic_operator.py        | 2 +-
 src/python/zquantum/core/openfermion/utils/operator_utils.py   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 1035939..71abbfd 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -350,7 +350,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
                 else:
                     tmp_string += "{}{} ".format(index, action_string)
             string_rep += "{}] +\n".format(tmp_string.strip())
-        return string_rep[:-3]
+        return string_rep[:-3] or "0"
 
     def __repr__(self):
         return str(self)
diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index cc72bf0..0829319 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -238,6 +238,9 @@ def load_operator(file_name=None, data_directory=None, plain_text=False):
         with open(file_path, "r") as f:
             data = f.read()
             operator_type, operator_terms = data.split(":\n")
+            if operator_terms.strip() == "0":
+                # The zero operator has no terms to parse
+                operator_terms = None
 
         if operator_type == "FermionOperator":
             operator = FermionOperator(operator_terms)
-- 
2.43.0


From dad24d39038b1f3a3de81d570716cb1f9415d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 32/57] fix: saving a parameter grid evaluation leaves it
 unchanged

The values in the caller's list were replaced by dictionaries, so that saving it
again failed.
---
 src/python/zquantum/core/openfermion/zapata_utils/_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index bb36d59..05b8680 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -296,11 +296,11 @@ def save_parameter_grid_evaluation(parameter_grid_evaluation, filename):
     full_dict = {}
     full_dict["schema"] = SCHEMA_VERSION + "-parameter_grid_evaluation"
 
+    full_dict["values_set"] = []
     for evaluation in parameter_grid_evaluation:
         value = evaluation["value"].to_dict()
         value["schema"] = SCHEMA_VERSION + "-value_estimate"
-        evaluation["value"] = value
-    full_dict["values_set"] = parameter_grid_evaluation
+        full_dict["values_set"].append({**evaluation, "value": value})
 
     with open(filename, "w") as f:
         f.write(json.dumps(full_dict, indent=2))
-- 
2.43.0


From 4019cedb3d93fa68d97728d313025ccd3ff2cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 33/57] fix: load results containing dictionaries of numbers

The decoder took every dictionary with only numerical values for a potential
distribution and failed on keys that are not outcomes, e.g. artifacts
{"x": 1.5}.
---
 src/python/zquantum/core/serialization.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index f58efc0..f8a48c2 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -32,6 +32,15 @@ def has_numerical_values(dictionary):
     return all(isinstance(value, Number) for value in dictionary.values())
 
 
+def has_distribution_keys_and_values(dictionary):
+    try:
+        return is_measurement_outcome_distribution(
+            preprocess_distibution_dict(dictionary)
+        )
+    except ValueError:
+        return False
+
+
 def preprocess(tree):
     """This inflates namedtuples into dictionaries, otherwise they would be serialized
     as lists.
@@ -101,9 +110,7 @@ class OrquestraDecoder(json.JSONDecoder):
         elif "call_number" in obj and "value" in obj:
             cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
             return cls(**obj)
-        elif has_numerical_values(obj) and is_measurement_outcome_distribution(
-            preprocess_distibution_dict(obj)
-        ):
+        elif has_numerical_values(obj) and has_distribution_keys_and_values(obj):
             return MeasurementOutcomeDistribution(obj, normalize=False)
         elif "schema" in obj and obj["schema"] in self.SCHEMA_MAP:
             return self.SCHEMA_MAP[obj.pop("schema")](obj)
-- 
2.43.0


From 362487e28e26e569d18aab25900a6c3f3f5d3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 34/57] fix: load estimates of the number of measurements
 without frames

The measurements per frame are optional when saving but were required when loading.
---
 src/python/zquantum/core/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index f8350d9..151dabb 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -552,7 +552,9 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: AnyPath,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -561,13 +563,16 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), or None
+            if they were not saved
     """
 
     with open(filename, "r") as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = None
+    if "frame_meas" in data:
+        frame_meas = convert_dict_to_array(data["frame_meas"])
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From 6cd662cc6357db7902753428d8522371d46c23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 35/57] fix: value estimates are hashable like other numbers

Defining __eq__ without __hash__ made them unhashable.
---
 src/python/zquantum/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 151dabb..c5aee09 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -275,6 +275,8 @@ class ValueEstimate(float):
     def __ne__(self, other):
         return not self == other
 
+    __hash__ = float.__hash__
+
     def __str__(self):
         value_str = super().__str__()
         if self.precision is not None:
-- 
2.43.0


From 43015af71937b3832e8d6dd2e53c0dc759ccea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 36/57] fix: compare unitaries whose product has a zero in its
 first entry

compare_unitary divided by the first entry of the product, e.g. for X and the
identity.
---
 src/python/zquantum/core/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index c5aee09..cd8f137 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -161,8 +161,10 @@ def compare_unitary(u1: np.ndarray, u2: np.ndarray, tol: float = 1e-15) -> bool:
         raise Exception("The second input matrix is not unitary.")
 
     test_matrix = np.dot(u1.conj().T, u2)
-    phase = test_matrix.item((0, 0)) ** -1
-    return is_identity(phase * test_matrix, tol)
+    phase = test_matrix.item((0, 0))
+    if phase == 0:
+        return False
+    return is_identity(phase**-1 * test_matrix, tol)
 
 
 def sample_from_probability_distribution(
-- 
2.43.0


From d9dcc27555374ccc6c55fee3e9615854d599359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 37/57] fix: reject numbers that do not fit the requested
 number of bits

dec2bin(2**n, n) returned n + 1 bits, and dec2bin(0, 0) one bit.
---
 src/python/zquantum/core/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index cd8f137..a34c9db 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -73,13 +73,14 @@ def dec2bin(number: int, length: int) -> List[int]:
         A list of binary numbers
     """
 
-    if pow(2, length) < number:
+    if pow(2, length) <= number:
         sys.exit(
             "Insufficient number of bits for representing the number {}".format(number)
         )
 
     bit_str = bin(number)
-    bit_str = bit_str[2 : len(bit_str)]  # chop off the first two chars
+    # chop off the first two chars; zero needs no bits at all
+    bit_str = bit_str[2 : len(bit_str)] if number else ""
     bit_string = [int(x) for x in list(bit_str)]
     if len(bit_string) < length:
         len_zeros = length - len(bit_string)
-- 
2.43.0


From 44b8875d15324652dbda627b90ed6a5b0cad73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 38/57] fix: removing inactive orbitals keeps unused active
 orbitals

Active orbitals that happen not to appear in the operator were removed, too,
and the others renumbered. freeze_orbitals ignored its prune argument.
---
 .../repconversions/operator_tapering.py       |  3 ++-
 .../core/openfermion/zapata_utils/_utils.py   | 21 +++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a871c6e..146841a 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -83,7 +83,8 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
                     new_operator.terms[term] *= -1
 
     # Renumber indices to remove frozen orbitals
-    new_operator = prune_unused_indices(new_operator)
+    if prune:
+        new_operator = prune_unused_indices(new_operator)
 
     return new_operator
 
diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
index e19c1bd..9347ed3 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
@@ -1,6 +1,6 @@
 import itertools
 import random
-from typing import Iterable, List, Optional
+from typing import List, Optional, Sequence
 
 import numpy as np
 from zquantum.core.circuits import Circuit, X, Y, Z
@@ -635,7 +635,7 @@ def remove_inactive_orbitals(
     # Determine which occupied spin-orbitals are to be frozen
     occupied = range(2 * n_core)
 
-    unoccupied: Iterable
+    unoccupied: Sequence[int]
     # Determine which unoccupied spin-orbitals are to be frozen
     if n_active is not None:
         unoccupied = range(
@@ -645,10 +645,23 @@ def remove_inactive_orbitals(
         unoccupied = []
 
     # Freeze the spin-orbitals
-    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied)
+    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied, prune=False)
+
+    # Renumber the active spin-orbitals, whether or not they appear in the operator
+    active_fermion_op = FermionOperator()
+    for term, coefficient in frozen_fermion_op.terms.items():
+        active_fermion_op += FermionOperator(
+            tuple((index - len(occupied), action) for index, action in term),
+            coefficient,
+        )
 
     # Convert back to an interaction operator
-    frozen_interaction_op = get_interaction_operator(frozen_fermion_op)
+    frozen_interaction_op = get_interaction_operator(
+        active_fermion_op,
+        n_qubits=interaction_op.one_body_tensor.shape[0]
+        - len(occupied)
+        - len(unoccupied),
+    )
 
     return frozen_interaction_op
 
-- 
2.43.0


From 11cc04aee3d66ee47435ba8d5c565b9f624801b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 39/57] fix: bind the parameters of a circuit in the evaluation
 step

Circuits have no attribute symbolic_params.
---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index bb9b72f..149e89e 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -144,6 +144,6 @@ def evaluate_parametrized_circuit(
     if isinstance(parameters, str):
         parameters = serialization.load_array(parameters)
 
-    symbols_map = create_symbols_map(parametrized_circuit.symbolic_params, parameters)
+    symbols_map = create_symbols_map(parametrized_circuit.free_symbols, parameters)
     bound_circuit = parametrized_circuit.bind(symbols_map)
     save_circuit(bound_circuit, "evaluated-circuit.json")
-- 
2.43.0


From eaf1ec5464cfeb2816eca1bca4324394a1d51116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 40/57] fix: batching circuits leaves the given circuit set
 unchanged

The circuits were appended to the caller's list.
---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 149e89e..76511b2 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -121,7 +121,7 @@ def batch_circuits(
     elif isinstance(circuit_set, str):
         loaded_circuit_set = load_circuitset(circuit_set)
     else:
-        loaded_circuit_set = circuit_set
+        loaded_circuit_set = list(circuit_set)
 
     for circuit in circuits:
         if isinstance(circuit, str):
-- 
2.43.0


From 699bb8ac165c43dc2ef614dbbd6a85e4e57a65ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 41/57] fix: import the operator type used by the summation
 step

get_summed_expectation_values raised a NameError for operators given as files.
---
 steps/measure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/measure.py b/steps/measure.py
index 9dca346..f2aa022 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -31,6 +31,7 @@ from zquantum.core.measurement import (
     save_expectation_values,
 )
 from zquantum.core.openfermion import (
+    IsingOperator,
     SymbolicOperator,
     change_operator_type,
     load_interaction_rdm,
-- 
2.43.0


From 47b3f4eaa76f3ed8a64856dbf3c30bf3731a9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 42/57] fix: steps on qubit operators accept operators as
 documented

The interpolation and ground state RDM steps only accepted file names.
---
 steps/evaluation.py |  3 ++-
 steps/operators.py  | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 4af2867..7c3189a 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -102,7 +102,8 @@ def get_ground_state_rdm_from_qubit_operator(
         qubit_operator: The openfermion operator to diagonalize
         n_particles: number of particles in the target ground state
     """
-    qubit_operator = load_qubit_operator(qubit_operator)
+    if isinstance(qubit_operator, str):
+        qubit_operator = load_qubit_operator(qubit_operator)
     rdm = _get_ground_state_rdm_from_qubit_op(qubit_operator, n_particles)
     save_interaction_rdm(rdm, "rdms.json")
 
diff --git a/steps/operators.py b/steps/operators.py
index 406f237..1ac476d 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -80,8 +80,8 @@ def get_diagonal_component(interaction_operator: Union[InteractionOperator, str]
 
 
 def interpolate_qubit_operators(
-    reference_qubit_operator: Union[InteractionOperator, str],
-    target_qubit_operator: Union[InteractionOperator, str],
+    reference_qubit_operator: Union[QubitOperator, str],
+    target_qubit_operator: Union[QubitOperator, str],
     epsilon: float = 0.5,
 ):
     """Produce a qubit operator which is the interpolation of two operators through the
@@ -95,8 +95,10 @@ def interpolate_qubit_operators(
         target_qubit_operator: The target operator
         epsilon: The parameterization between the two operators. Default value is 0.5
     """
-    reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
-    target_qubit_operator = load_qubit_operator(target_qubit_operator)
+    if isinstance(reference_qubit_operator, str):
+        reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
+    if isinstance(target_qubit_operator, str):
+        target_qubit_operator = load_qubit_operator(target_qubit_operator)
 
     if epsilon > 1.0 or epsilon < 0.0:
         raise ValueError("epsilon must be in the range [0.0, 1.0]")
-- 
2.43.0


From a88ea9055315b57760d04dff5e62650c81beaa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 43/57] fix: removing inactive orbitals without core orbitals

The step passed None on as the number of core orbitals.
---
 steps/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/operators.py b/steps/operators.py
index 1ac476d..8c01a6f 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -174,7 +174,7 @@ def get_one_qubit_hydrogen_hamiltonian(
 def remove_inactive_orbitals(
     interaction_operator: str,
     n_active: Optional[int] = None,
-    n_core: Optional[int] = None,
+    n_core: int = 0,
 ):
 
     interaction_operator = load_interaction_operator(interaction_operator)
-- 
2.43.0


From 63d15d978ee180d8e1d23dd99d16e426dd701a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 44/57] fix: number of samples of the expectation values step

Backends have no attribute n_samples; the number of samples is an argument of
the step now.
---
 steps/evaluation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 7c3189a..e12fb83 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -2,7 +2,7 @@
 # © Copyright 2020-2022 Zapata Computing Inc.
 ################################################################################
 import json
-from typing import Dict, List, Union, cast
+from typing import Dict, List, Optional, Union, cast
 
 from zquantum.core.circuits import Circuit, circuit_from_dict, load_circuit
 from zquantum.core.estimation import estimate_expectation_values_by_averaging
@@ -44,6 +44,7 @@ def get_expectation_values_for_qubit_operator(
     backend_specs: Specs,
     circuit: Union[str, Circuit, Dict],
     qubit_operator: Union[str, SymbolicOperator, Dict],
+    n_samples: Optional[int] = None,
 ):
     """Measure the expectation values of the terms in an input operator with respect to
     the state prepared by the input circuit on the backend described by the
@@ -63,6 +64,7 @@ def get_expectation_values_for_qubit_operator(
         backend_specs: The backend on which to run the quantum circuit
         circuit: The circuit that prepares the state to be measured
         qubit_operator: The operator to measure
+        n_samples: The number of samples. Default is the one of the backend, if any.
     """
     if isinstance(circuit, str):
         circuit = load_circuit(circuit)
@@ -84,7 +86,9 @@ def get_expectation_values_for_qubit_operator(
             record_bitstrings=backend_specs.get("record_bitstrings"),
         )
 
-    estimation_tasks = [EstimationTask(qubit_operator, circuit, backend.n_samples)]
+    if n_samples is None:
+        n_samples = getattr(backend, "n_samples", None)
+    estimation_tasks = [EstimationTask(qubit_operator, circuit, n_samples)]
 
     expectation_values = estimate_expectation_values_by_averaging(
         backend, estimation_tasks
-- 
2.43.0


From 58eb7e602c0c190a4b80b85aa73628636f2dde82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 45/57] fix: get_sparse_operator of a tensor keeps the number
 of qubits

A PolynomialTensor was converted without the given number of qubits, and
without its own: trailing modes no term acts on were dropped.
---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 9cbbe39..d92a66a 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -456,7 +456,9 @@ def get_sparse_operator(operator, n_qubits=None, trunc=None, hbar=1.0):
     from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator
 
     if isinstance(operator, PolynomialTensor):
-        return jordan_wigner_sparse(get_fermion_operator(operator))
+        if n_qubits is None:
+            n_qubits = count_qubits(operator)
+        return jordan_wigner_sparse(get_fermion_operator(operator), n_qubits)
     elif isinstance(operator, FermionOperator):
         return jordan_wigner_sparse(operator, n_qubits)
     elif isinstance(operator, QubitOperator):
-- 
2.43.0


From 27b7898ad9624892263db562bc4f4b480e58d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 46/57] fix: number preserving operators whose images sort last

get_number_preserving_sparse_operator raised IndexError when a term maps a
determinant of the space to one that sorts after all of them.
---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index d92a66a..df6a016 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -793,6 +793,10 @@ def _build_term_op_(term, state_array, int_state_array, sorting_indices):
             int_state_array, int_encoding, sorter=sorting_indices
         )
 
+        if target_state_index_sorted == space_size:
+            # Then target state comes after all states in the space considered.
+            continue
+
         target_state = sorting_indices[target_state_index_sorted]
 
         if int_state_array[target_state] == int_encoding:
-- 
2.43.0


From 1c1bbdfa8c95271f492e63f983aede6b1bf3cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 47/57] fix: molecular data of an interaction operator keep its
 two-body part

---
 .../transforms/repconversions/conversions.py    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/conversions.py b/src/python/zquantum/core/openfermion/transforms/repconversions/conversions.py
index d6a6d99..843e82d 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/conversions.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/conversions.py
@@ -164,11 +164,18 @@ def get_molecular_data(
     molecule.one_body_integrals = interaction_operator.one_body_tensor[
         numpy.ix_(reduction_indices, reduction_indices)
     ]
-    molecule.two_body_integrals = interaction_operator.two_body_tensor[
-        numpy.ix_(
-            reduction_indices, reduction_indices, reduction_indices, reduction_indices
-        )
-    ]
+    # The Hamiltonian of a molecule contains its two-body integrals halved
+    molecule.two_body_integrals = (
+        2
+        * interaction_operator.two_body_tensor[
+            numpy.ix_(
+                reduction_indices,
+                reduction_indices,
+                reduction_indices,
+                reduction_indices,
+            )
+        ]
+    )
 
     # Fill in other metadata
     molecule.overlap_integrals = numpy.eye(molecule.n_orbitals)
-- 
2.43.0


From 2a38db9475cabc782455acc2a7e5f4ffca7aea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:12 +0000
Subject: [PATCH 48/57] fix: molecules saved without general calculations can
 be used after loading

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 8a3b331..65bdc3f 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -978,6 +978,7 @@ class MolecularData(object):
             if "general_calculations_keys" in f and "general_calculations_values" in f:
                 keys = f["general_calculations_keys"]
                 values = f["general_calculations_values"]
+                self.general_calculations = {}
                 if keys.shape != (()):
                     self.general_calculations = {
                         key.tobytes().decode("utf-8"): value
-- 
2.43.0


From 9e96a657abf91565b396914ba50f1f29fc3ed5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:18 +0000
Subject: [PATCH 49/57] fix: saving a loaded molecule keeps its list of atoms

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 65bdc3f..c9ef958 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -945,7 +945,8 @@ class MolecularData(object):
             # Load n_atoms:
             self.n_atoms = int(f["n_atoms"][...])
             # Load atoms:
-            self.atoms = f["atoms"][...]
+            data = f["atoms"][...]
+            self.atoms = [atom.decode("utf-8") for atom in data] if data.shape else []
             # Load protons:
             self.protons = f["protons"][...]
             # Load n_electrons:
-- 
2.43.0


From 7af69c330aee8fc3a7b1a562c32dd2802cfde053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:10 +0000
Subject: [PATCH 50/57] fix: steps asked to track measurements create the
 backend they are given and keep its specs

---
 src/python/zquantum/core/trackers.py | 36 ++++++++++++++--
 steps/evaluation.py                  | 19 ++-------
 steps/measure.py                     | 62 ++++++++--------------------
 steps/optimize.py                    | 22 ++--------
 4 files changed, 56 insertions(+), 83 deletions(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 4a7114c..4f520dc 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -2,14 +2,15 @@
 # © Copyright 2021 Zapata Computing Inc.
 ################################################################################
 import json
-from typing import Dict, List, Optional, Sequence
+from typing import Dict, List, Optional, Sequence, cast
 
 from .bitstring_distribution import BitstringDistribution
 from .circuits import Circuit, to_dict
 from .distribution import MeasurementOutcomeDistribution
 from .interfaces.backend import QuantumBackend
 from .measurement import Measurements
-from .utils import SCHEMA_VERSION
+from .typing import Specs
+from .utils import SCHEMA_VERSION, create_object
 
 
 class MeasurementTrackingBackend(QuantumBackend):
@@ -91,7 +92,7 @@ class MeasurementTrackingBackend(QuantumBackend):
         self.raw_data.append(raw_data_dict)
 
     def get_bitstring_distribution(
-        self, circuit: Circuit, n_samples: int
+        self, circuit: Circuit, n_samples: Optional[int] = None
     ) -> BitstringDistribution:
         """Calculates a bitstring distribution.
 
@@ -119,7 +120,7 @@ class MeasurementTrackingBackend(QuantumBackend):
         return distribution
 
     def get_measurement_outcome_distribution(
-        self, circuit: Circuit, n_samples: int
+        self, circuit: Circuit, n_samples: Optional[int] = None
     ) -> MeasurementOutcomeDistribution:
         """Calculates a measurement outcome distribution.
 
@@ -154,3 +155,30 @@ class MeasurementTrackingBackend(QuantumBackend):
             }
             f.write(json.dumps(data))
         self.raw_data = []
+
+
+def create_backend(backend_specs: Specs, **kwargs) -> QuantumBackend:
+    """Create a backend from specs, wrapped so that it tracks measurements if the specs
+    ask for it with the key "track_measurements".
+
+    The keys "raw_data_file_name" (by default "raw_data.json") and "record_bitstrings"
+    (by default False) control the tracking. The specs are left as they are.
+
+    Args:
+        backend_specs: specs of the backend, as a dictionary or a JSON string.
+        kwargs: additional arguments for creating the backend.
+    """
+    specs = (
+        json.loads(backend_specs)
+        if isinstance(backend_specs, str)
+        else dict(backend_specs)
+    )
+    track_measurements = specs.pop("track_measurements", False)
+    raw_data_file_name = specs.pop("raw_data_file_name", "raw_data.json")
+    record_bitstrings = specs.pop("record_bitstrings", False)
+    backend = cast(QuantumBackend, create_object({**specs, **kwargs}))
+    if track_measurements:
+        backend = MeasurementTrackingBackend(
+            backend, raw_data_file_name, record_bitstrings=record_bitstrings
+        )
+    return backend
diff --git a/steps/evaluation.py b/steps/evaluation.py
index e12fb83..127353d 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -1,12 +1,10 @@
 ################################################################################
 # © Copyright 2020-2022 Zapata Computing Inc.
 ################################################################################
-import json
-from typing import Dict, List, Optional, Union, cast
+from typing import Dict, List, Optional, Union
 
 from zquantum.core.circuits import Circuit, circuit_from_dict, load_circuit
 from zquantum.core.estimation import estimate_expectation_values_by_averaging
-from zquantum.core.interfaces.backend import QuantumBackend
 from zquantum.core.interfaces.estimation import EstimationTask
 from zquantum.core.measurement import (
     ExpectationValues,
@@ -34,9 +32,9 @@ from zquantum.core.openfermion.linalg import (
     jw_get_ground_state_at_particle_number as _jw_get_ground_state_at_particle_number,
 )
 from zquantum.core.openfermion.linalg import qubit_operator_sparse
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
-from zquantum.core.utils import ValueEstimate, create_object, save_value_estimate
+from zquantum.core.utils import ValueEstimate, save_value_estimate
 from zquantum.core.wavefunction import Wavefunction
 
 
@@ -75,16 +73,7 @@ def get_expectation_values_for_qubit_operator(
     elif isinstance(qubit_operator, dict):
         qubit_operator = convert_dict_to_qubitop(qubit_operator)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = cast(QuantumBackend, create_object(backend_specs))
-
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if n_samples is None:
         n_samples = getattr(backend, "n_samples", None)
diff --git a/steps/measure.py b/steps/measure.py
index f2aa022..df0d153 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -39,7 +39,7 @@ from zquantum.core.openfermion import (
     load_qubit_operator_set,
 )
 from zquantum.core.serialization import load_array
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
 from zquantum.core.utils import (
     create_object,
@@ -57,22 +57,15 @@ def run_circuit_and_measure(
     noise_model: Optional[str] = None,
     device_connectivity: Optional[str] = None,
 ):
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    backend_options: Dict = {}
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        backend_options["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
+        backend_options["device_connectivity"] = layouts.load_circuit_connectivity(
             device_connectivity
         )
 
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs, **backend_options)
 
     if isinstance(circuit, str):
         circuit = circuits.load_circuit(circuit)
@@ -91,23 +84,16 @@ def run_circuitset_and_measure(
     device_connectivity: Optional[str] = None,
 ):
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    backend_options: Dict = {}
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        backend_options["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
+        backend_options["device_connectivity"] = layouts.load_circuit_connectivity(
             device_connectivity
         )
 
     circuit_set = circuits.load_circuitset(circuitset)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs, **backend_options)
 
     n_samples_list = [n_samples for _ in circuit_set]
     measurements_set = backend.run_circuitset_and_measure(
@@ -123,21 +109,14 @@ def get_bitstring_distribution(
     noise_model: Optional[str] = None,
     device_connectivity: Optional[str] = None,
 ):
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    backend_options: Dict = {}
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        backend_options["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
+        backend_options["device_connectivity"] = layouts.load_circuit_connectivity(
             device_connectivity
         )
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs, **backend_options)
 
     circuit = circuits.load_circuit(circuit)
 
@@ -176,22 +155,15 @@ def evaluate_ansatz_based_cost_function(
     else:
         ansatz = create_object(ansatz_specs)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
+    backend_options: Dict = {}
     if noise_model is not None:
-        backend_specs["noise_model"] = load_noise_model(noise_model)
+        backend_options["noise_model"] = load_noise_model(noise_model)
     if device_connectivity is not None:
-        backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
+        backend_options["device_connectivity"] = layouts.load_circuit_connectivity(
             device_connectivity
         )
 
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs, **backend_options)
 
     if isinstance(cost_function_specs, str):
         cost_function_specs = json.loads(cost_function_specs)
diff --git a/steps/optimize.py b/steps/optimize.py
index f8fa831..125a14e 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -18,7 +18,7 @@ from zquantum.core.serialization import (
     save_array,
     save_optimization_results,
 )
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
 from zquantum.core.utils import create_object, load_list
 
@@ -83,15 +83,7 @@ def optimize_parametrized_circuit_for_ground_state_of_operator(
         with open(parametrized_circuit) as f:
             parametrized_circuit = new_circuits.circuit_from_dict(json.load(f))
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if estimation_method_specs is not None:
         if isinstance(estimation_method_specs, str):
@@ -206,15 +198,7 @@ def optimize_ansatz_based_cost_function(
         ansatz_specs["cost_hamiltonian"] = target_operator
     ansatz = create_object(ansatz_specs)
 
-    if isinstance(backend_specs, str):
-        backend_specs = json.loads(backend_specs)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if estimation_method_specs is not None:
         if isinstance(estimation_method_specs, str):
-- 
2.43.0


From d6355e18f37e78b89a775522f63608f9c12e1fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:10 +0000
Subject: [PATCH 51/57] fix: ansatz based cost function steps leave the specs
 they are given alone

---
 steps/measure.py  | 4 ++++
 steps/optimize.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/steps/measure.py b/steps/measure.py
index df0d153..11cfd94 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -167,6 +167,7 @@ def evaluate_ansatz_based_cost_function(
 
     if isinstance(cost_function_specs, str):
         cost_function_specs = json.loads(cost_function_specs)
+    cost_function_specs = dict(cost_function_specs)
 
     if (
         "estimator-specs" in cost_function_specs.keys()
@@ -198,6 +199,9 @@ def evaluate_ansatz_based_cost_function(
                 estimation_tasks_transformation_specs = json.loads(
                     estimation_tasks_transformation_specs
                 )
+            estimation_tasks_transformation_specs = dict(
+                estimation_tasks_transformation_specs
+            )
 
             if prior_expectation_values is not None:
                 # Since we don't know which estimation task transformation uses
diff --git a/steps/optimize.py b/steps/optimize.py
index 125a14e..52910f6 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -190,6 +190,7 @@ def optimize_ansatz_based_cost_function(
 
     if isinstance(ansatz_specs, str):
         ansatz_specs = json.loads(ansatz_specs)
+    ansatz_specs = dict(ansatz_specs)
 
     if "WarmStartQAOAAnsatz" in ansatz_specs["function_name"]:
         ansatz_specs["thetas"] = np.array(load_list(kwargs.pop("thetas")))
-- 
2.43.0


From dab78ff3f2729fc93591371e77d0e2968fef8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:10 +0000
Subject: [PATCH 52/57] fix: one qubit hydrogen hamiltonian when a matrix
 element vanishes

---
 steps/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/steps/operators.py b/steps/operators.py
index 8c01a6f..6fba1e4 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -138,15 +138,15 @@ def get_one_qubit_hydrogen_hamiltonian(
 
     # H00
     H00 = normal_ordered(FermionOperator("0 1") * fermion_h * FermionOperator("1^ 0^"))
-    H00 = H00.terms[()]
+    H00 = H00.terms.get((), 0.0)
 
     # H11
     H11 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("3^ 2^"))
-    H11 = H11.terms[()]
+    H11 = H11.terms.get((), 0.0)
 
     # H10
     H10 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("1^ 0^"))
-    H10 = H10.terms[()]
+    H10 = H10.terms.get((), 0.0)
 
     # H01
     H01 = np.conj(H10)
-- 
2.43.0


From 196ec4d9d16e2b0fafc787da428f46b9a328ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:32 +0000
Subject: [PATCH 53/57] fix: numeric wavefunctions are one-dimensional and
 compare to a truth value

---
 src/python/zquantum/core/wavefunction.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 9b10515..20a514e 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -27,6 +27,14 @@ def _cast_sympy_matrix_to_numpy(sympy_matrix, complex=False):
         return np.array(sympy_matrix, dtype=object).flatten()
 
 
+def _to_numeric_vector(vector):
+    array = np.asarray(vector, dtype=complex)
+    # SymPy matrices are always two-dimensional, vectors being columns.
+    if array.ndim == 2 and array.shape[1] == 1:
+        array = array[:, 0]
+    return array
+
+
 def _get_next_number_with_same_hamming_weight(val):
     # Copied from:
     # http://graphics.stanford.edu/~seander/bithacks.html#NextBitPermutation
@@ -56,7 +64,7 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
+            self._amplitude_vector = _to_numeric_vector(amplitude_vector)
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
@@ -113,7 +121,7 @@ class Wavefunction:
         new_vector = self._amplitude_vector.copy()
         new_vector[idx] = val
         if not getattr(new_vector, "free_symbols", set()):
-            new_vector = np.asarray(new_vector, dtype=complex)
+            new_vector = _to_numeric_vector(new_vector)
 
         try:
             self._check_normalization(new_vector)
@@ -130,7 +138,9 @@ class Wavefunction:
         if not isinstance(other, Wavefunction):
             return False
 
-        return self._amplitude_vector == other._amplitude_vector
+        return np.array_equal(
+            np.ravel(self._amplitude_vector), np.ravel(other._amplitude_vector)
+        )
 
     @staticmethod
     def zero_state(n_qubits: int) -> "Wavefunction":
-- 
2.43.0


From 6187b914e20ba8170fbcbc44f19b8dbcf3c8d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:32 +0000
Subject: [PATCH 54/57] fix: expectation values with more than one value can be
 compared

---
 src/python/zquantum/core/measurement.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index cbe74fe..6e50cb9 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -176,7 +176,26 @@ class ExpectationValues:
         return cls(expectation_values, correlations, estimator_covariances)
 
     def __eq__(self, __o: object) -> bool:
-        return self.__dict__ == __o.__dict__
+        if not isinstance(__o, type(self)):
+            return NotImplemented
+
+        return (
+            np.array_equal(self.values, __o.values)
+            and _are_frames_equal(self.correlations, __o.correlations)
+            and _are_frames_equal(self.estimator_covariances, __o.estimator_covariances)
+        )
+
+
+def _are_frames_equal(
+    frames1: Optional[List[np.ndarray]], frames2: Optional[List[np.ndarray]]
+) -> bool:
+    if frames1 is None or frames2 is None:
+        return frames1 is frames2
+    # The frame of a single value may be given without its singleton dimensions.
+    return len(frames1) == len(frames2) and all(
+        np.array_equal(np.squeeze(frame1), np.squeeze(frame2))
+        for frame1, frame2 in zip(frames1, frames2)
+    )
 
 
 def sample_from_wavefunction(
-- 
2.43.0


From bd0c7e751311e1e92c02881c572b0f813ca28714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 55/57] fix: maximum mean discrepancy of long bitstrings
 doesn't overflow

---
 src/python/zquantum/core/distribution/mmd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/distribution/mmd.py b/src/python/zquantum/core/distribution/mmd.py
index 6a32748..1dfebf0 100644
--- a/src/python/zquantum/core/distribution/mmd.py
+++ b/src/python/zquantum/core/distribution/mmd.py
@@ -46,7 +46,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -73,7 +73,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -120,8 +120,9 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
+    # Python integers, because those of long bitstrings don't fit in fixed size ones.
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
+        [int("".join(map(str, item)), 2) for item in all_keys], dtype=object
     )  # Digit Tuple to int
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
-- 
2.43.0


From 5dcbf769bbf712e16210f024f1bb64dd398ccf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:03 +0000
Subject: [PATCH 56/57] fix: operators accept coefficients of every NumPy
 number type

---
 .../core/openfermion/ops/operators/symbolic_operator.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 71abbfd..fedef24 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -20,6 +20,7 @@ import itertools
 import re
 import warnings
 
+import numpy
 import sympy
 from zquantum.core.openfermion.config import EQ_TOLERANCE
 
@@ -122,6 +123,8 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
     __hash__ = None
 
     def __init__(self, term=None, coefficient=1.0):
+        if isinstance(coefficient, numpy.number):
+            coefficient = coefficient.item()
         if not isinstance(coefficient, COEFFICIENT_TYPES):
             raise ValueError("Coefficient must be a numeric type.")
 
-- 
2.43.0


From efaf6d5b5d749b4690434f8649c5d9fce2bf031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:19 +0000
Subject: [PATCH 57/57] fix: conjugates of real arrays and operators don't
 share their memory

---
 src/python/zquantum/core/openfermion/utils/operator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index 0829319..371c714 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -79,7 +79,7 @@ def hermitian_conjugated(operator):
 
     # Handle numpy array
     elif isinstance(operator, numpy.ndarray):
-        conjugate_operator = operator.T.conj()
+        conjugate_operator = numpy.conjugate(operator.T)
 
     # Unsupported type
     else:
-- 
2.43.0

