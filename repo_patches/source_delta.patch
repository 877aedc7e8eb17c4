From 32863c82a9036201d6a49f3c1268688a231f5f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 01/49] fix: Circuit.to_unitary returns the identity for a
 circuit without operations

---
 src/orquestra/quantum/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index be09205..9734a47 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -133,6 +133,9 @@ class Circuit:
                     "be converted to a unitary matrix."
                 )
 
+        if not lifted_matrices:
+            return np.eye(2**self.n_qubits)
+
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From f6e932c1aa0c803be4c92b000fa0a08a4ef6fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 02/49] fix: the empty PauliSum equals the number zero

---
 src/orquestra/quantum/operators/_pauli_operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index de757fd..3ae4741 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -447,8 +447,7 @@ class PauliSum:
         _validate_type(other)
 
         if isinstance(other, (int, float, complex)):
-            constant_term = PauliTerm("I0", complex(other))
-            return self == PauliSum([constant_term])
+            return self == PauliTerm("I0", complex(other))
 
         if isinstance(other, PauliTerm):
             if len(self) == 0:
-- 
2.43.0


From 5ff9827f844668f1f8b72a3cd4581fe72bd8d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 03/49] fix: PauliSum equality does not depend on hash rounding
 boundaries

---
 .../quantum/operators/_pauli_operators.py     | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 3ae4741..5c5d794 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -395,6 +395,17 @@ class PauliTerm:
         return 0 if self.is_constant else max(self.qubits) + 1
 
 
+def _group_terms(
+    terms: Iterable[PauliTerm],
+) -> Dict[FrozenSet[Tuple[int, str]], List[PauliTerm]]:
+    """Group terms acting with the same operators, vanishing terms are all alike."""
+    groups: Dict[FrozenSet[Tuple[int, str]], List[PauliTerm]] = {}
+    for term in terms:
+        is_zero = np.allclose(term.coefficient, 0)
+        groups.setdefault(frozenset() if is_zero else term.operations, []).append(term)
+    return groups
+
+
 class PauliSum:
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
@@ -458,7 +469,16 @@ class PauliSum:
         if len(self) != len(other):
             return False
 
-        return set(self.terms) == set(other.terms)
+        # Hashes of (approximately) equal terms can differ if their coefficients lie
+        # close to a rounding boundary, so only the operators are used for grouping.
+        terms_by_key = _group_terms(self.terms)
+        other_terms_by_key = _group_terms(other.terms)
+
+        return terms_by_key.keys() == other_terms_by_key.keys() and all(
+            all(term in other_terms_by_key[key] for term in terms_by_key[key])
+            and all(term in terms_by_key[key] for term in other_terms_by_key[key])
+            for key in terms_by_key
+        )
 
     def __add__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
         _validate_type(other)
-- 
2.43.0


From b9c7ef2e1cfcf4661b4daf1703a343ccdfe690de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 04/49] fix: the sparse matrix of an operator without terms is
 the zero matrix

---
 .../quantum/operators/_openfermion_utils/sparse_tools.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
index 94bd0f1..b52dc19 100644
--- a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
+++ b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
@@ -96,6 +96,10 @@ def get_sparse_operator(operator: PauliRepresentation, n_qubits: Optional[int] =
         column_list.append(column)
         row_list.append(row)
 
+    # An operator without terms denotes the zero matrix.
+    if not values_list:
+        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)
+
     # Create sparse operator.
     values_list = numpy.concatenate(values_list)
     row_list = numpy.concatenate(row_list)
-- 
2.43.0


From a45e190356d2e3a94690a92e921539bdf839d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 05/49] fix: measuring a register without qubits yields
 outcomes of length zero

---
 src/orquestra/quantum/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 96c7f9d..f2e3a7a 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -206,8 +206,11 @@ class Wavefunction:
         return np.abs(self.amplitudes) ** 2
 
     def get_outcome_probs(self) -> Dict[str, float]:
+        n_qubits = self.n_qubits
+        # format yields at least one digit, also for a register without qubits
         values = [
-            format(i, "0" + str(self.n_qubits) + "b")[::-1] for i in range(len(self))
+            format(i, "0" + str(n_qubits) + "b")[::-1][:n_qubits]
+            for i in range(len(self))
         ]
 
         probs = self.get_probabilities()
-- 
2.43.0


From b93ab6ce20f73a3df66b56f2607799f8d5c1a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 06/49] fix: definitions of custom gates under modifiers are
 serialised

---
 src/orquestra/quantum/circuits/_circuit.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 9734a47..24d6ca6 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -25,9 +25,16 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _innermost_gate(gate):
+    """Gate left after removing all the modifiers (dagger, controls, power, exp)."""
+    while hasattr(gate, "wrapped_gate"):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _uses_custom_gate(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -97,10 +104,13 @@ class Circuit:
         return _append_to_circuit(other, self)
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
+        innermost_gates = (
+            _innermost_gate(operation.gate) for operation in self.operations
+        )
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in innermost_gates
+            if _uses_custom_gate(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From 56aac8fb5d8ddbbdc1484d4eadd1530ad7870303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 07/49] fix: parameters of custom gates are deserialised using
 their own symbols

---
 src/orquestra/quantum/circuits/_serde.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 2297785..7a4c19c 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -283,7 +283,12 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    # Parameters of this instance may depend on other symbols than those used in
+    # the definition.
+    symbol_names = [
+        *dict_.get("free_symbols", []),
+        *map(serialize_expr, gate_def.params_ordering),
+    ]
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From 869f204bc72823c5d8c970758eca5e96239e6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 08/49] fix: custom gates are deserialised whatever their name

---
 src/orquestra/quantum/circuits/_serde.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 7a4c19c..488f9a3 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -210,13 +210,16 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
-    try:
-        return _builtin_gate_from_dict(dict_)
-    except KeyError:
-        pass
+    if "wrapped_gate" in dict_:
+        return _special_gate_from_dict(dict_, custom_gate_defs)
+
+    # Definitions go before built-in gates, because the names looked up among the
+    # latter include all the other names known in their module.
+    if any(gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs):
+        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
 
     try:
-        return _special_gate_from_dict(dict_, custom_gate_defs)
+        return _builtin_gate_from_dict(dict_)
     except KeyError:
         pass
 
-- 
2.43.0


From 52e138c2c123e632090fe5f8da5248e18f1e1493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 09/49] fix: symbols survive serialisation whatever their name

---
 src/orquestra/quantum/circuits/_serde.py | 52 +++++++++++++++---------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 488f9a3..8740b83 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -4,7 +4,7 @@
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Dict, Iterable, List, Mapping, Tuple
 
 import sympy
 
@@ -17,28 +17,42 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
+def _replace_symbols_by_placeholders(
+    expr_str: str, symbol_names: Iterable[str]
+) -> Tuple[str, Dict[str, sympy.Symbol]]:
+    """Replace names of symbols by ones that are safe to be parsed.
 
-    return symbols_map
+    Names of symbols may clash with the names known to the parser (e.g. "gamma"), or
+    not be valid identifiers at all. In particular, names with brackets, such as "x[4]"
+    will occur in circuits imported from Qiskit when the Qiskit circuit was
+    parameterized using a Qiskit ParameterVector.
+
+    Returns:
+        the expression, and a mapping from the names used in it to symbols.
+    """
+    # Longer names first, because names can be prefixes of other names.
+    names = sorted(set(symbol_names), key=lambda name: (-len(name), name))
+    if not names:
+        return expr_str, {}
+
+    placeholders = {name: f"_symbol_{i}" for i, name in enumerate(names)}
+    pattern = "|".join(map(re.escape, names))
+    return (
+        # Name followed by an opening parenthesis is the one of a function.
+        re.sub(
+            rf"(?<!\w)(?:{pattern})(?![\w(])",
+            lambda match: placeholders[match.group()],
+            expr_str,
+        ),
+        {placeholders[name]: sympy.Symbol(name) for name in names},
+    )
 
 
 def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    safe_expr_str, symbols_map = _replace_symbols_by_placeholders(
+        expr_str, symbol_names
+    )
+    return sympy.sympify(safe_expr_str, locals=symbols_map)
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From 278a328eb4af30589ae1bc939bbc80ef7a308895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 10/49] fix: Python numbers used as gate parameters are
 deserialised exactly

---
 src/orquestra/quantum/circuits/_serde.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 8740b83..4f1970b 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -48,11 +48,26 @@ def _replace_symbols_by_placeholders(
     )
 
 
+def _parse_number(number_str):
+    """Parse Python literal of a number, raise ValueError if it isn't one."""
+    for number_type in (int, float):
+        try:
+            return number_type(number_str)
+        except ValueError:
+            pass
+    return complex(number_str)
+
+
 def deserialize_expr(expr_str, symbol_names):
     safe_expr_str, symbols_map = _replace_symbols_by_placeholders(
         expr_str, symbol_names
     )
-    return sympy.sympify(safe_expr_str, locals=symbols_map)
+    # Sympy parses decimal numbers with precision depending on their length, and
+    # hence doesn't restore floating point numbers exactly.
+    try:
+        return sympy.sympify(_parse_number(safe_expr_str))
+    except ValueError:
+        return sympy.sympify(safe_expr_str, locals=symbols_map)
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From 0c2f16ebdb01eb2a442dca76db00b6d4ececaaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 11/49] fix: circuits using numpy integers as qubit indices can
 be saved

---
 src/orquestra/quantum/circuits/_serde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 4f1970b..d68ee20 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -115,7 +115,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     """
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
     return {
-        "n_qubits": circuit.n_qubits,
+        "n_qubits": int(circuit.n_qubits),
         **(
             {
                 "operations": _map_eager(to_dict, circuit.operations),
@@ -150,7 +150,7 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
     return {
         "type": "gate_operation",
         "gate": to_dict(gate_operation.gate),
-        "qubit_indices": list(gate_operation.qubit_indices),
+        "qubit_indices": _map_eager(int, gate_operation.qubit_indices),
     }
 
 
-- 
2.43.0


From cbee656a6a008a330467bf099402a5023f23eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 12/49] fix: symbols of a parameter are bound simultaneously

---
 src/orquestra/quantum/circuits/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_operations.py b/src/orquestra/quantum/circuits/_operations.py
index 284598f..f5214dc 100644
--- a/src/orquestra/quantum/circuits/_operations.py
+++ b/src/orquestra/quantum/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From fd81d6765ddbe6c924eff8557c9aec89a3395746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 13/49] fix: symbols can be bound in circuits with reset
 operations

---
 src/orquestra/quantum/circuits/_wavefunction_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_wavefunction_operations.py b/src/orquestra/quantum/circuits/_wavefunction_operations.py
index be86d14..087c1f7 100644
--- a/src/orquestra/quantum/circuits/_wavefunction_operations.py
+++ b/src/orquestra/quantum/circuits/_wavefunction_operations.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from functools import singledispatch
 from numbers import Complex
 from typing import Iterable, Tuple
@@ -105,7 +105,9 @@ class ResetOperation:
         )
 
     def replace_params(self, new_params: Tuple[Parameter, ...]) -> "ResetOperation":
-        return replace(self, params=new_params)
+        new_operation = ResetOperation(*self.qubit_indices)
+        new_operation.params = new_params
+        return new_operation
 
     def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
         raise RuntimeError(
-- 
2.43.0


From 7c52781110b00371ac3de695b3509a0334da51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 14/49] fix: parameters of custom gates are substituted
 simultaneously

---
 src/orquestra/quantum/circuits/_gates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 6e69e8b..7961e24 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -514,7 +514,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
-- 
2.43.0


From b933800d922f8098de60aa4ae6cd27660483afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 15/49] fix: matrices acting on no qubits can be expanded in
 the Pauli basis

---
 src/orquestra/quantum/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 2252ec5..737f74c 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -75,7 +75,8 @@ def dec2bin(number: int, length: int) -> List[int]:
 
     bit_str = bin(number)
     bit_str = bit_str[2 : len(bit_str)]  # chop off the first two chars
-    bit_string = [int(x) for x in list(bit_str)]
+    # zero has no significant bits
+    bit_string = [int(x) for x in list(bit_str)] if number else []
     if len(bit_string) < length:
         len_zeros = length - len(bit_string)
         bit_string = [int(x) for x in list(np.zeros(len_zeros))] + bit_string
-- 
2.43.0


From a2bc72d3c4b729a1c5a076a10a81e82f0b6e90ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:06 +0000
Subject: [PATCH 16/49] fix: exponentials of diagonal gates can always be
 evaluated

---
 src/orquestra/quantum/circuits/_gates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 7961e24..62deffe 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -389,7 +389,11 @@ class Exponential(Gate):
 
     @property
     def matrix(self) -> sympy.Matrix:
-        return self.wrapped_gate.matrix.exp()
+        matrix = self.wrapped_gate.matrix
+        if matrix.is_diagonal():
+            # sympy fails to find eigenvalues of some diagonal matrices, e.g. of T gate
+            return sympy.diag(*[sympy.exp(element) for element in matrix.diagonal()])
+        return matrix.exp()
 
     @property
     def params(self) -> Tuple[Parameter, ...]:
-- 
2.43.0


From bce70481f899656cf31c59373ef4325dec7bd307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 17/49] fix: controlled circuits keep the width of the register

---
 src/orquestra/quantum/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 24d6ca6..ff6e27e 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -201,7 +201,7 @@ class Circuit:
             new_indices_with_control = (control_index, *new_indices)
             c_ops.append(controlled_op(*new_indices_with_control))
 
-        return Circuit(c_ops)
+        return Circuit(c_ops, n_qubits=max(self.n_qubits, control_index) + 1)
 
 
 @singledispatch
-- 
2.43.0


From f503865dddeab2d696c2fc0da0c84fb168e084bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 18/49] fix: measurements of no qubits have expectation values
 of constant terms

---
 src/orquestra/quantum/measurements/measurements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 4095067..7332257 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -32,10 +32,11 @@ def convert_bitstring_to_int(bitstring: Sequence[int]) -> int:
 
 def _convert_bitstrings_to_vector(bitstrings: Iterable[str]) -> np.ndarray:
     """Converts bitstrings to vector so parity can be checked."""
-    n_qubits = len([*bitstrings][0])
+    bitstrings = [*bitstrings]
+    n_qubits = len(bitstrings[0])
     all_bits = "".join(bitstrings)
     bitstring_1d_array = np.frombuffer(all_bits.encode("utf-8"), "u1") - ord("0")
-    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)
+    return bitstring_1d_array.astype(int).reshape(len(bitstrings), n_qubits)
 
 
 def get_expectation_value_from_frequencies(
-- 
2.43.0


From 706aaa82f1b7bc79e7971f727c5ce4db68c448eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:15 +0000
Subject: [PATCH 19/49] fix: parities of no measurements are all zero

---
 src/orquestra/quantum/measurements/parities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index be25888..80a04de 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -155,6 +155,8 @@ def get_parities_from_measurements(
     # Count number of occurrences of bitstrings
     bitstring_frequencies = Counter(measurements)
     bitstrings_vector = np.array([*bitstring_frequencies.keys()])
+    if not bitstring_frequencies:
+        bitstrings_vector = np.zeros((0, ising_operator.n_qubits), dtype=int)
     bitstring_counts: np.ndarray = np.fromiter(
         bitstring_frequencies.values(), dtype=int
     )
-- 
2.43.0


From fd048acf164ce2caff5ba6303a037bd8211dc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 20/49] fix: parities of outcomes with unsigned bits do not
 wrap around

---
 src/orquestra/quantum/measurements/parities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index 80a04de..4b1caea 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -154,7 +154,7 @@ def get_parities_from_measurements(
 
     # Count number of occurrences of bitstrings
     bitstring_frequencies = Counter(measurements)
-    bitstrings_vector = np.array([*bitstring_frequencies.keys()])
+    bitstrings_vector = np.array([*bitstring_frequencies.keys()], dtype=int)
     if not bitstring_frequencies:
         bitstrings_vector = np.zeros((0, ising_operator.n_qubits), dtype=int)
     bitstring_counts: np.ndarray = np.fromiter(
-- 
2.43.0


From 7d79cbccac101e8d8c8298787fdf9007b314e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 21/49] fix: printed constant terms can be parsed back

---
 src/orquestra/quantum/operators/_pauli_operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 5c5d794..31e26a8 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -120,6 +120,9 @@ def _parse_operators_and_coefficient(
         coef = None
         operators_strs = parts
 
+    # Constant terms are printed without a qubit index
+    operators_strs = [op_str for op_str in operators_strs if op_str != "I"]
+
     operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])
 
     if len(operators_dict) != len(operators_strs):
-- 
2.43.0


From c467291c1ad055cf3a55370f45afc6a3a7cde8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 22/49] fix: artefacts can be loaded from any kind of path

---
 src/orquestra/quantum/circuits/layouts.py     | 30 ++++++++-----------
 .../quantum/measurements/measurements.py      | 19 ++++++------
 src/orquestra/quantum/operators/_io.py        | 15 ++++------
 src/orquestra/quantum/utils.py                | 14 +++------
 4 files changed, 31 insertions(+), 47 deletions(-)

diff --git a/src/orquestra/quantum/circuits/layouts.py b/src/orquestra/quantum/circuits/layouts.py
index 7cc055e..9231330 100644
--- a/src/orquestra/quantum/circuits/layouts.py
+++ b/src/orquestra/quantum/circuits/layouts.py
@@ -2,10 +2,13 @@
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
 import json
-from typing import Dict, List, TextIO, Tuple
+from typing import Dict, List, Tuple
 
 import numpy as np
 
+from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
+
 
 class CircuitLayers:
     """A class representing a pattern of circuit layers, consisting of lists,
@@ -31,7 +34,7 @@ class CircuitLayers:
         return cls(layers)
 
 
-def save_circuit_layers(circuit_layers: CircuitLayers, filename: str) -> None:
+def save_circuit_layers(circuit_layers: CircuitLayers, filename: AnyPath) -> None:
     """Saves a list of circuit layers to a file.
     Args:
         circuit_layers (circuit.CircuitLayers)
@@ -43,7 +46,7 @@ def save_circuit_layers(circuit_layers: CircuitLayers, filename: str) -> None:
         f.write(json.dumps(circuit_layers_dict))
 
 
-def load_circuit_layers(file: TextIO) -> CircuitLayers:
+def load_circuit_layers(file: LoadSource) -> CircuitLayers:
     """Loads a list of circuit layers from a file.
     Args:
         file (str or file-like object): the name of the file, or a file-like object.
@@ -52,11 +55,8 @@ def load_circuit_layers(file: TextIO) -> CircuitLayers:
         (circuit.CircuitLayers)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitLayers.from_dict(data)
 
@@ -82,11 +82,8 @@ def load_circuit_ordering(file):
         ordering (list)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["ordering"]
 
@@ -134,11 +131,8 @@ def load_circuit_connectivity(file):
         (orquestra.quantum.circuit.CircuitConnectivity)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitConnectivity.from_dict(data)
 
diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 7332257..a63f647 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -6,14 +6,18 @@ from __future__ import annotations
 import copy
 import json
 from collections import Counter
-from typing import Dict, Iterable, List, Optional, Sequence, TextIO, Tuple
+from typing import Dict, Iterable, List, Optional, Sequence, Tuple
 
 import numpy as np
 
 from ..distributions import MeasurementOutcomeDistribution
 from ..operators import PauliRepresentation
-from ..typing import AnyPath
-from ..utils import convert_tuples_to_bitstrings, sample_from_probability_distribution
+from ..typing import AnyPath, LoadSource
+from ..utils import (
+    convert_tuples_to_bitstrings,
+    ensure_open,
+    sample_from_probability_distribution,
+)
 from .expectation_values import ExpectationValues
 from .parities import check_parity_of_vector
 
@@ -208,17 +212,14 @@ class Measurements:
         return cls(bitstring_samples)
 
     @classmethod
-    def load_from_file(cls, file: TextIO):
+    def load_from_file(cls, file: LoadSource):
         """Load a set of measurements from file
 
         Args:
             file (str or file-like object): the name of the file, or a file-like object
         """
-        if isinstance(file, str):
-            with open(file, "r") as f:
-                data = json.load(f)
-        else:
-            data = json.load(file)
+        with ensure_open(file) as f:
+            data = json.load(f)
 
         bitstrings = []
         for bitstring in data["bitstrings"]:
diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index 142d622..ac162e5 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -6,6 +6,7 @@ from typing import Any, Dict, List, Tuple
 import rapidjson as json
 
 from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 from ._pauli_operators import PauliRepresentation, PauliSum, PauliTerm
 
 
@@ -76,11 +77,8 @@ def load_operator(file: LoadSource) -> PauliSum:
         op: the operator.
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return convert_dict_to_op(data)
 
@@ -109,11 +107,8 @@ def load_operator_set(file: LoadSource) -> List[PauliSum]:
     Returns:
         operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     operator_set = []
     for operator_dict in data["operators"]:
diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 737f74c..fca52d2 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -333,11 +333,8 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return ValueEstimate.from_dict(data)
 
@@ -365,11 +362,8 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["list"]
 
-- 
2.43.0


From 6e050b0b2d682049c952d663fbc8cd1073282f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 23/49] fix: measurement-count estimates saved without frames
 can be loaded

---
 src/orquestra/quantum/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index fca52d2..0a702f7 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -452,22 +452,27 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: LoadSource,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
-        filename: the name of the file
+        filename: the name of the file, or a file-like object.
 
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), or None
+            if the estimate was saved without them
     """
 
-    with open(filename, "r") as f:
+    with ensure_open(filename) as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = None
+    if "frame_meas" in data:
+        frame_meas = convert_dict_to_array(data["frame_meas"])
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From c1facd9f31633060604a76b9c3dc0b6c59d5919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 24/49] fix: empty lists of correlation and covariance frames
 survive serialisation

---
 src/orquestra/quantum/measurements/expectation_values.py | 8 ++++----
 src/orquestra/quantum/measurements/parities.py           | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 70d588d..22192ea 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -53,12 +53,12 @@ class ExpectationValues:
 
         data["expectation_values"] = convert_array_to_dict(self.values)
 
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = []
             for correlation_matrix in self.correlations:
                 data["correlations"].append(convert_array_to_dict(correlation_matrix))
 
-        if self.estimator_covariances:
+        if self.estimator_covariances is not None:
             data["estimator_covariances"] = []
             for covariance_matrix in self.estimator_covariances:
                 data["estimator_covariances"].append(
@@ -73,13 +73,13 @@ class ExpectationValues:
 
         expectation_values = convert_dict_to_array(dictionary["expectation_values"])
         correlations: Optional[List] = None
-        if dictionary.get("correlations"):
+        if dictionary.get("correlations") is not None:
             correlations = []
             for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                 correlations.append(convert_dict_to_array(correlation_matrix))
 
         estimator_covariances: Union[List, None] = None
-        if dictionary.get("estimator_covariances"):
+        if dictionary.get("estimator_covariances") is not None:
             estimator_covariances = []
             for covariance_matrix in cast(
                 Iterable, dictionary.get("estimator_covariances")
diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index 4b1caea..ebfd602 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -41,7 +41,7 @@ class Parities:
 
     def to_dict(self) -> dict:
         data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = [
                 convert_array_to_dict(arr) for arr in self.correlations
             ]
@@ -50,7 +50,7 @@ class Parities:
     @classmethod
     def from_dict(cls, data: dict):
         values = convert_dict_to_array(data["values"])
-        if data.get("correlations"):
+        if data.get("correlations") is not None:
             correlations: Optional[List] = [
                 convert_dict_to_array(arr) for arr in data["correlations"]
             ]
-- 
2.43.0


From bcf7f3ccb158dbb47b820b3d35a35f25e3f05a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 25/49] fix: expectation values are compared elementwise

---
 .../measurements/expectation_values.py        | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 22192ea..27af132 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -88,8 +88,32 @@ class ExpectationValues:
 
         return cls(expectation_values, correlations, estimator_covariances)
 
-    def __eq__(self, __o: object) -> bool:
-        return self.__dict__ == __o.__dict__
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, ExpectationValues):
+            return NotImplemented
+        return (
+            _are_arrays_equal(self.values, other.values)
+            and _are_frames_equal(self.correlations, other.correlations)
+            and _are_frames_equal(
+                self.estimator_covariances, other.estimator_covariances
+            )
+        )
+
+
+def _are_arrays_equal(array: np.ndarray, other_array: np.ndarray) -> bool:
+    """Compare two arrays elementwise, ignoring axes of length one."""
+    return np.array_equal(np.squeeze(array), np.squeeze(other_array))
+
+
+def _are_frames_equal(
+    frames: Optional[List[np.ndarray]], other_frames: Optional[List[np.ndarray]]
+) -> bool:
+    if frames is None or other_frames is None:
+        return frames is other_frames
+    return len(frames) == len(other_frames) and all(
+        _are_arrays_equal(frame, other_frame)
+        for frame, other_frame in zip(frames, other_frames)
+    )
 
 
 def save_expectation_values(
-- 
2.43.0


From 420fb0e1f1f55d94cab2913d00d86cd9569722af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 26/49] fix: shapes of empty arrays survive serialisation

---
 src/orquestra/quantum/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 0a702f7..d21d7f5 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -30,9 +30,13 @@ def convert_dict_to_array(dictionary: dict) -> np.ndarray:
 
     array = np.array(dictionary["real"])
 
-    if dictionary.get("imag"):
+    if dictionary.get("imag") is not None:
         array = array + 1j * np.array(dictionary["imag"])
 
+    # Nested lists don't determine the shape of an array without elements.
+    if dictionary.get("shape") is not None:
+        array = array.reshape(dictionary["shape"])
+
     return array
 
 
@@ -53,6 +57,10 @@ def convert_array_to_dict(array: np.ndarray) -> dict:
     else:
         dictionary["real"] = array.tolist()
 
+    # Nested lists don't determine the shape of an array without elements.
+    if np.size(array) == 0:
+        dictionary["shape"] = list(np.shape(array))
+
     return dictionary
 
 
-- 
2.43.0


From 984e47b1dfa7ff51f05842f4386b02c4bb7b9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:48 +0000
Subject: [PATCH 27/49] fix: rejected assignments leave the wavefunction as it
 was

---
 src/orquestra/quantum/wavefunction.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index f2e3a7a..6f46bf3 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -119,16 +119,19 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        new_vector = self._amplitude_vector.copy()
+        new_vector[idx] = val
+
+        if isinstance(new_vector, Matrix) and not new_vector.free_symbols:
+            new_vector = _cast_sympy_matrix_to_numpy(new_vector, complex=True)
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(new_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = new_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 0de212951d9ef24072aa01d01c9ef8eb7489542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 28/49] fix: numeric wavefunctions hold a flat vector of
 amplitudes

---
 src/orquestra/quantum/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 6f46bf3..6244a8c 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -8,7 +8,7 @@ from typing import Any, Dict, List, Optional, Sequence, Set, Tuple, Union
 from warnings import warn
 
 import numpy as np
-from sympy import Matrix, Symbol
+from sympy import Matrix, MatrixBase, Symbol
 
 from .typing import AnyPath, LoadSource, ParameterizedVector
 from .utils import (
@@ -68,6 +68,9 @@ class Wavefunction:
             self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
+        else:
+            if isinstance(amplitude_vector, MatrixBase):
+                self._amplitude_vector = self._amplitude_vector.flatten()
 
         self._check_normalization(self._amplitude_vector)
 
-- 
2.43.0


From 088a6f2d2f5b5dfb86b9f41cb7e07d16ebf8c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 29/49] fix: large sample sizes are expanded without losing
 shots

---
 src/orquestra/quantum/circuits/_itertools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_itertools.py b/src/orquestra/quantum/circuits/_itertools.py
index 33c7a15..40c7504 100644
--- a/src/orquestra/quantum/circuits/_itertools.py
+++ b/src/orquestra/quantum/circuits/_itertools.py
@@ -1,7 +1,6 @@
 from collections import Counter
 from functools import reduce
 from itertools import islice
-from math import ceil
 from typing import Dict, Iterable, List, Sequence, Tuple, TypeVar
 
 T = TypeVar("T")
@@ -79,7 +78,8 @@ def split_into_batches(
 
 
 def _expand_sample_size(n_samples, max_sample_size):
-    multiplicities = ceil(n_samples / max_sample_size)
+    # integer arithmetic, as true division is inexact for large numbers
+    multiplicities = -(-n_samples // max_sample_size)
     new_n_samples = (
         multiplicities * (max_sample_size,)
         if n_samples % max_sample_size == 0
-- 
2.43.0


From 6c423dc633cec14f16417fd51dfb794015e79003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:48 +0000
Subject: [PATCH 30/49] fix: weights are scaled to any integer total exactly

---
 src/orquestra/quantum/utils.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index d21d7f5..ef1ec31 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -4,9 +4,11 @@
 """General-purpose utilities."""
 import collections
 import json
+import math
 import os
 import sys
 from contextlib import contextmanager
+from fractions import Fraction
 from functools import lru_cache
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
@@ -501,19 +503,21 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
             of the input list elements.
     """
 
-    # Note: combining the two lines below breaks type checking; see mypy #6040
-    value_sum = sum(values)
-    scale_factor = total / value_sum
-
-    result = [np.floor(value * scale_factor) for value in values]
-    remainders = [
-        value * scale_factor - np.floor(value * scale_factor) for value in values
+    # Floating point arithmetic is inexact, in particular for large totals.
+    fractions = [
+        Fraction(value.item() if isinstance(value, np.generic) else value)
+        for value in values
     ]
-    indexes_sorted_by_remainder = np.argsort(remainders)[::-1]
-    for index in range(int(round(total - sum(result)))):
-        result[indexes_sorted_by_remainder[index]] += 1
-
-    result = [int(value) for value in result]
+    scale_factor = int(total) / sum(fractions)
+
+    scaled = [value * scale_factor for value in fractions]
+    result = [math.floor(value) for value in scaled]
+    remainders = [value - floor for value, floor in zip(scaled, result)]
+    indexes_sorted_by_remainder = sorted(
+        range(len(result)), key=remainders.__getitem__, reverse=True
+    )
+    for index in indexes_sorted_by_remainder[: int(total) - sum(result)]:
+        result[index] += 1
 
     assert sum(result) == total, "The scaled list does not sum to the desired total."
 
-- 
2.43.0


From b0b45cce0b60e14e4c758c1dcde0e3a0d8bda422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 31/49] fix: non-positive numbers of samples are rejected for
 empty batches too

---
 src/orquestra/quantum/api/circuit_runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orquestra/quantum/api/circuit_runner.py b/src/orquestra/quantum/api/circuit_runner.py
index f12edeb..1234242 100644
--- a/src/orquestra/quantum/api/circuit_runner.py
+++ b/src/orquestra/quantum/api/circuit_runner.py
@@ -160,6 +160,8 @@ class BaseCircuitRunner(ABC, CircuitRunner):
             dedicated way of running circuits' batch, `_run_batch_and_measure`
             method.
         """
+        if isinstance(n_samples, int) and n_samples <= 0:
+            raise ValueError(f"Number of samples has to be positive, got {n_samples}")
         samples_per_circuit = (
             len(circuits_batch) * [n_samples]
             if isinstance(n_samples, int)
-- 
2.43.0


From 179eb7b5711b54c3eda34feebf7d987b0de52f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 32/49] fix: tracking backend counts exactly the circuits it
 ran

---
 src/orquestra/quantum/runners/trackers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index fde4d58..e7233cc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -57,9 +57,9 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
             circuits: The circuits to execute.
             n_samples: The number of samples to collect for each circuit.
         """
+        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         self._n_circuits_executed += len(circuits)
         self._n_jobs_executed += 1
-        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         for circuit, measurement in zip(circuits, measurements):
             self.record_raw_measurement_data(circuit, measurement)
         self.save_raw_data()
@@ -103,6 +103,8 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
         distribution = self.inner_backend.get_measurement_outcome_distribution(
             circuit, n_samples
         )
+        self._n_circuits_executed += 1
+        self._n_jobs_executed += 1
         self.raw_data.append(
             {
                 "data_type": "measurement outcome distribution",
-- 
2.43.0


From 9e6f2469e71ce3d88f445ac65aadea7b9621b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 33/49] fix: constant operators of any number of terms estimate
 to their sum

---
 src/orquestra/quantum/estimation/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/estimation/_estimation.py b/src/orquestra/quantum/estimation/_estimation.py
index 4afc894..81cac16 100644
--- a/src/orquestra/quantum/estimation/_estimation.py
+++ b/src/orquestra/quantum/estimation/_estimation.py
@@ -102,7 +102,7 @@ def evaluate_non_measured_estimation_tasks(
     for task in estimation_tasks:
         coefficient: complex
         if task.operator.is_constant:
-            coefficient = task.operator.terms[0].coefficient
+            coefficient = sum(term.coefficient for term in task.operator.terms)
         else:
             if task.number_of_shots is not None and task.number_of_shots > 0:
                 raise RuntimeError(
-- 
2.43.0


From e66ee15e7ee8b3dab8b3e5b5a7ffc30a1a4c1c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 34/49] fix: imaginary coefficients of either sign and of
 constant terms are rejected

---
 src/orquestra/quantum/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 911386a..097d5e5 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -62,13 +62,13 @@ def time_evolution_for_term(term: PauliTerm, time: Union[float, sympy.Expr]) ->
 
     circuit = Circuit()
 
+    if abs(term.coefficient.imag) > 1e-9:
+        raise ValueError("Coefficients of terms must be real for Trotterization.")
+
     # If constant term, return empty circuit.
     if term.is_constant:
         return circuit
 
-    if term.coefficient.imag > 1e-9:
-        raise ValueError("Coefficients of terms must be real for Trotterization.")
-
     for i, qubit_id in enumerate(qubit_indices):
         if term[qubit_id] == "X":
             basis_change += H(qubit_id)
-- 
2.43.0


From 609c5280acd259186994232a3c7da1bd720cf009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 35/49] fix: derivative circuits of several steps evolve for
 the time of one step

---
 src/orquestra/quantum/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 097d5e5..3b2c388 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -140,7 +140,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", n_steps=1
+            hamiltonian, time / n_steps, method="Trotter", n_steps=1
         )
 
         for position in range(n_steps):
-- 
2.43.0


From 9517ca368ea306c4f111a5bed0090faf8f2c2566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 36/49] fix: terms with zero coefficient are allowed in
 evolution derivatives

---
 src/orquestra/quantum/evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 3b2c388..c0b37b0 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -125,7 +125,8 @@ def time_evolution_derivatives(
                 )
             r = term_1.coefficient.real / n_steps
             output_factors.append(r * factor)
-            shift = factor * (np.pi / (4.0 * r))
+            # A term with zero coefficient does not contribute to the derivative.
+            shift = factor * (np.pi / (4.0 * r)) if r != 0 else 0.0
 
             for j, term_2 in enumerate(terms):
                 output += time_evolution_for_term(
-- 
2.43.0


From f4f56321c2f38717cb68bd27250e27658321ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 37/49] fix: marginals keep the source distribution and
 outcomes above 9

---
 .../distributions/_measurement_outcome_distribution.py   | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 2340da2..f27b7ab 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -1,7 +1,6 @@
 ################################################################################
 # © Copyright 2022 Zapata Computing Inc.
 ################################################################################
-import copy
 import json
 import math
 import sys
@@ -100,11 +99,9 @@ class MeasurementOutcomeDistribution:
         if len(active_qubits) != len(set(active_qubits)):
             raise ValueError("There exist duplicate indices in the active qubit list")
 
-        for key in copy.deepcopy(list(self.distribution_dict.keys())):
-            new_key = "".join(str(key[i]) for i in active_qubits)
-            new_counts[new_key] = self.distribution_dict.pop(key) + new_counts.get(
-                new_key, 0
-            )
+        for key, value in self.distribution_dict.items():
+            new_key = tuple(int(key[i]) for i in active_qubits)
+            new_counts[new_key] = value + new_counts.get(new_key, 0)
         normalize = is_normalized(self.distribution_dict)
         return MeasurementOutcomeDistribution(new_counts, normalize=normalize)
 
-- 
2.43.0


From b6c94d01fca9f0260ac1e26e10319d7d6cfbf9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 38/49] fix: single outcomes above 9 survive saving and loading

---
 .../_measurement_outcome_distribution.py              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index f27b7ab..cd70008 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -112,7 +112,8 @@ def preprocess_distibution_dict(
     res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            digits = key if "," not in key else key.rstrip(",").split(",")
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -241,9 +242,15 @@ def normalize_measurement_outcome_distribution(
         return measurement_outcome_distribution
 
 
+def _tuple_to_comma_separated_integers(key: Tuple[int, ...]) -> str:
+    # A trailing comma tells a single number, e.g. (10,), from the digits of (1, 0).
+    suffix = "," if len(key) == 1 and key[0] > 9 else ""
+    return ",".join(str(int(number)) for number in key) + suffix
+
+
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
-- 
2.43.0


From 9e9bad3e336619785f5f0ad4dedb30250e300841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 39/49] fix: distributions are loaded from every kind of path
 they are saved to

---
 .../_measurement_outcome_distribution.py      | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index cd70008..bfe9c29 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -10,7 +10,8 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 
 import numpy as np
 
-from ..typing import AnyPath
+from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 
 
 class MeasurementOutcomeDistribution:
@@ -301,20 +302,19 @@ def save_measurement_outcome_distributions(
         f.write(json.dumps(dictionary, indent=2))
 
 
-def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistribution:
+def load_measurement_outcome_distribution(
+    file: LoadSource,
+) -> MeasurementOutcomeDistribution:
     """Load a measurement outcome distribution from a json file.
 
     Arguments:
-        file (str): the name of the file
+        file: the name of the file, or a file-like object
 
     Returns:
         object: a python object loaded from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     try:
         distribution = MeasurementOutcomeDistribution(data["bitstring_distribution"])
@@ -326,22 +326,19 @@ def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistri
 
 
 def load_measurement_outcome_distributions(
-    file: str,
+    file: LoadSource,
 ) -> List[MeasurementOutcomeDistribution]:
     """Load a list of measurement_outcome_distribution from a json file.
 
     Arguments:
-        file: the name of the file.
+        file: the name of the file, or a file-like object.
 
     Returns:
         A list of measurement outcome distributions loaded
          from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     distribution_list = []
     for i in range(len(data["measurement_outcome_distribution"])):
-- 
2.43.0


From b1d4bbd6d33f361ef7390dfcaeb9561766f87f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 40/49] fix: distributions whose values sum to infinity are
 rejected

---
 .../distributions/_measurement_outcome_distribution.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index bfe9c29..4b05054 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -235,6 +235,10 @@ def normalize_measurement_outcome_distribution(
         raise ValueError(
             "Normalization of MeasurementOutcomeDistribution FAILED: too small values."
         )
+    elif not math.isfinite(norm):
+        raise ValueError(
+            "Normalization of MeasurementOutcomeDistribution FAILED: too large values."
+        )
     elif norm == 1:
         return measurement_outcome_distribution
     else:
-- 
2.43.0


From 663566a2a552303f39456062fbe85ae6e38996d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 41/49] fix: distributions holding numpy numbers can be saved

---
 .../_measurement_outcome_distribution.py      | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 4b05054..ced895c 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -255,11 +255,23 @@ def _tuple_to_comma_separated_integers(key: Tuple[int, ...]) -> str:
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
+        (
+            _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key
+        ): value
         for key, value in dict.items()
     }
 
 
+def _to_json_dict(distribution: MeasurementOutcomeDistribution) -> Dict[str, float]:
+    """Convert distribution to types which are native to JSON."""
+    return {
+        key: float(value)
+        for key, value in change_tuple_dict_keys_to_comma_separated_integers(
+            distribution.distribution_dict
+        ).items()
+    }
+
+
 def save_measurement_outcome_distribution(
     distribution: MeasurementOutcomeDistribution, filename: AnyPath
 ) -> None:
@@ -273,11 +285,7 @@ def save_measurement_outcome_distribution(
     dictionary: Dict[str, Any] = {}
 
     # Need to convert tuples to strings for JSON encoding
-    preprocessed_distribution_dict = change_tuple_dict_keys_to_comma_separated_integers(
-        distribution.distribution_dict
-    )
-
-    dictionary["measurement_outcome_distribution"] = preprocessed_distribution_dict
+    dictionary["measurement_outcome_distribution"] = _to_json_dict(distribution)
     with open(filename, "w") as f:
         f.write(json.dumps(dictionary, indent=2))
 
@@ -297,9 +305,7 @@ def save_measurement_outcome_distributions(
 
     for distribution in measurement_outcome_distribution:
         dictionary["measurement_outcome_distribution"].append(
-            change_tuple_dict_keys_to_comma_separated_integers(
-                distribution.distribution_dict
-            )
+            _to_json_dict(distribution)
         )
 
     with open(filename, "w") as f:
-- 
2.43.0


From 005949aac4f47907068a43db81a6b8578a68b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 42/49] fix: squared MMD of wide and of non-binary outcomes

---
 src/orquestra/quantum/distributions/mmd.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 85e1630..5996555 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -26,6 +26,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 # SOFTWARE.
 
+from functools import reduce
 from typing import TYPE_CHECKING, Dict, Sequence
 
 import numpy as np
@@ -48,7 +49,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -75,7 +76,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -122,9 +123,13 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
-    basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
-    )  # Digit Tuple to int
+    # Digit tuples to ints
+    base = max([2] + [int(digit) + 1 for item in all_keys for digit in item])
+    numbers = [
+        reduce(lambda acc, digit: acc * base + int(digit), item, 0) for item in all_keys
+    ]
+    # Differences of Python integers, unlike those of numpy integers, don't overflow.
+    basis = np.asarray(numbers, dtype=int if max(numbers) < 2**62 else object)
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From 104a640b5c0f3636c69d91250dc0bbe5afe5d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 43/49] fix: U3 decomposition leaves operations other than
 gates alone

---
 .../quantum/decompositions/_orquestra_decompositions.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 88f626a..1b76e14 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -17,7 +17,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
-        return (
+        return isinstance(operation, GateOperation) and (
             operation.gate.name == "U3"
             or isinstance(operation.gate, ControlledGate)
             and operation.gate.wrapped_gate.name == "U3"
-- 
2.43.0


From 09027b837b8d4e4480eda1cb3cc171b41a5d9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 44/49] fix: decomposed circuits keep the number of qubits

---
 .../quantum/decompositions/_orquestra_decompositions.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 1b76e14..4016d54 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -46,4 +46,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_orquestra_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From 80dc671e0f8bd1c7a6fd7881755aaba6228e8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 45/49] fix: user-defined functions are not translated as
 functions of the same name

---
 src/orquestra/quantum/circuits/symbolic/sympy_expressions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
index 3ae36bc..ca8bfad 100644
--- a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
+++ b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
@@ -119,6 +119,11 @@ def power_from_sympy_pow(power: sympy.Pow):
 
 @expression_from_sympy.register
 def function_call_from_sympy_function(function: sympy.Function):
+    # Functions defined by users might be named like the supported ones
+    if getattr(sympy, str(function.func), None) is not function.func:
+        raise NotImplementedError(
+            f"Function {function.func} is not a sympy function and is not supported"
+        )
     return FunctionCall(str(function.func), expression_from_sympy(function.args))
 
 
-- 
2.43.0


From b3e34d7d8e33404a1e844afde7dab649969df100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 46/49] fix: things which are no expressions are not translated
 to None

---
 src/orquestra/quantum/circuits/symbolic/translations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/translations.py b/src/orquestra/quantum/circuits/symbolic/translations.py
index e60667f..1798b9f 100644
--- a/src/orquestra/quantum/circuits/symbolic/translations.py
+++ b/src/orquestra/quantum/circuits/symbolic/translations.py
@@ -13,7 +13,9 @@ from .expressions import Expression, ExpressionDialect, FunctionCall, Symbol
 def translate_expression(
     expression: Union[Expression, Tuple[Expression, ...]], dialect: ExpressionDialect
 ):
-    pass
+    raise NotImplementedError(
+        f"Expression {expression} of type {type(expression)} can't be translated"
+    )
 
 
 @translate_expression.register
-- 
2.43.0


From eb48eca5cb123db825f1540404f50f06c53f9ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 47/49] fix: natural order of names with superscript digits

---
 src/orquestra/quantum/circuits/symbolic/_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/_sorting.py b/src/orquestra/quantum/circuits/symbolic/_sorting.py
index 65b461a..af5d757 100644
--- a/src/orquestra/quantum/circuits/symbolic/_sorting.py
+++ b/src/orquestra/quantum/circuits/symbolic/_sorting.py
@@ -6,7 +6,7 @@ import re
 
 
 def _convert_string_to_int_if_possible(text):
-    return int(text) if text.isdigit() else text
+    return int(text) if text.isdecimal() else text
 
 
 def natural_key(symbol):
-- 
2.43.0


From 043707a6a67a9bcfa0f7c054b139473edaf36743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 48/49] fix: don't decompose custom gates named U3 as if they
 were the general rotation

---
 .../decompositions/_orquestra_decompositions.py      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 4016d54..bd6e924 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -5,10 +5,16 @@ from typing import Iterable, Sequence
 
 from ..circuits._builtin_gates import RY, RZ
 from ..circuits._circuit import Circuit
-from ..circuits._gates import ControlledGate, GateOperation
+from ..circuits._gates import ControlledGate, Gate, GateOperation, MatrixFactoryGate
+from ..circuits._matrices import u3_matrix
 from ..decompositions._decomposition import DecompositionRule, decompose_operations
 
 
+def _is_u3_gate(gate: Gate) -> bool:
+    # The name doesn't identify the gate, because custom gates can have any name.
+    return isinstance(gate, MatrixFactoryGate) and gate.matrix_factory is u3_matrix
+
+
 class U3GateToRotation(DecompositionRule[GateOperation]):
     """Decomposition of Orquestra's U3 gate.
 
@@ -18,9 +24,9 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
         return isinstance(operation, GateOperation) and (
-            operation.gate.name == "U3"
+            _is_u3_gate(operation.gate)
             or isinstance(operation.gate, ControlledGate)
-            and operation.gate.wrapped_gate.name == "U3"
+            and _is_u3_gate(operation.gate.wrapped_gate)
         )
 
     def production(self, operation: GateOperation) -> Iterable[GateOperation]:
-- 
2.43.0


From d14607111ef055787076494d3cb320ef2adb82cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 49/49] fix: don't take rounding errors of symbolic
 wavefunctions for an excess of probability

---
 src/orquestra/quantum/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 6244a8c..408222a 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -107,7 +107,10 @@ class Wavefunction:
             )
             probs_of_ground_entries = np.sum(np.abs(numbers) ** 2)
 
-            if probs_of_ground_entries > 1.0:
+            # Rounding errors, which depend on the order of entries, are not an excess.
+            if probs_of_ground_entries > 1.0 and not np.isclose(
+                probs_of_ground_entries, 1.0
+            ):
                 raise ValueError(
                     "Ground entries in vector already exceeding probability of 1.0!"
                 )
-- 
2.43.0

