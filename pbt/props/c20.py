"""C20: value-returning operations never modify their arguments."""
import dataclasses
import enum
import operator
import random
import warnings
from collections import Counter

import numpy as np
import scipy.sparse
import sympy
from hypothesis import strategies as st
from orquestra.quantum import circuits as oc
from orquestra.quantum import decompositions, distributions, estimation, evolution
from orquestra.quantum import measurements as om
from orquestra.quantum import operators as op
from orquestra.quantum import utils, wavefunction
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.circuits import Circuit, CustomGateDefinition, GateOperation
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import ExpectationValues, Measurements, Parities
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.operators._utils import (
    evaluate_operator,
    evaluate_operator_list,
    get_pauliop_from_coeffs_and_labels,
    get_pauliop_from_matrix,
)
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.wavefunction import Wavefunction

from .. import gens, lib, ops
from ..core import Facet, HarnessError, Skip, Violation, require

ASSUMPTIONS = [
    "observably identical: equal public contents (operations and width, parameters, coefficients "
    "and order of terms, measured bitstrings, outcomes and probabilities, amplitudes, types "
    "included); private caches may change",
    "Measurements.add_counts and Wavefunction.__setitem__ exist to modify their receiver and are not among the operations",
    "normalize_measurement_outcome_distribution normalises its dictionary in place (the existing tests "
    "require that) and is not among the operations the property lists",
    "random operations are compared under the same seed; calls that raise an error have no result to "
    "compare, but must leave everything as it was as well",
]


# ------------------------------------------------------------------- snapshots


def snap(x, depth=0):
    """The observable contents of an object, as nested tuples of text and numbers."""
    if depth > 40:
        raise HarnessError("snapshot too deep")
    d = depth + 1
    if x is None or isinstance(x, (str, bytes)) or type(x) in (bool, int):
        return (type(x).__name__, x)
    if isinstance(x, enum.Enum):
        return (type(x).__name__, str(x))
    if type(x) in (float, complex) or isinstance(x, utils.ValueEstimate):
        return (type(x).__name__, repr(complex(x)), snap(getattr(x, "precision", None), d))
    if isinstance(x, np.generic):
        return (type(x).__name__, repr(complex(x)) if np.iscomplexobj(x) or isinstance(x, np.number) else repr(x))
    if isinstance(x, np.ndarray):
        return ("ndarray", str(x.dtype), x.shape, tuple(snap(v, d) for v in x.ravel().tolist()))
    if scipy.sparse.issparse(x):
        return (type(x).__name__, x.shape, snap(x.toarray(), d))
    if isinstance(x, sympy.MatrixBase):
        return (type(x).__name__, x.shape, tuple(snap(v, d) for v in x))
    if isinstance(x, sympy.Basic):
        if x.is_Float or (x.is_number and not x.args):
            return ("number", type(x).__name__, sympy.srepr(x))
        return ("sympy", sympy.srepr(x))
    if isinstance(x, (dict, Counter)):
        return (type(x).__name__, tuple((snap(k, d), snap(v, d)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted((snap(v, d) for v in x), key=repr)))
    if isinstance(x, Circuit):
        return ("Circuit", x.n_qubits, tuple(snap(o, d) for o in x.operations))
    if isinstance(x, oc.ResetOperation):
        return ("Reset", tuple(x.qubit_indices))
    if isinstance(x, PauliTerm):
        return ("PauliTerm", snap(x.coefficient, d), repr(x), snap(x.operations, d))
    if isinstance(x, PauliSum):
        return ("PauliSum", tuple(snap(t, d) for t in x.terms))
    if isinstance(x, Measurements):
        return ("Measurements", snap(x.bitstrings, d))
    if isinstance(x, MeasurementOutcomeDistribution):
        return ("Distribution", snap(x.distribution_dict, d))
    if isinstance(x, Wavefunction):
        return ("Wavefunction", snap(x.amplitudes, d))
    if isinstance(x, Parities):
        return ("Parities", snap(x.values, d), snap(x.correlations, d))
    if isinstance(x, ExpectationValues):
        return (
            "ExpectationValues",
            snap(x.values, d),
            snap(x.correlations, d),
            snap(x.estimator_covariances, d),
        )
    if dataclasses.is_dataclass(x):
        return (
            type(x).__name__,
            tuple(
                (f.name, snap(getattr(x, f.name), d))
                for f in dataclasses.fields(x)
                if not f.name.startswith("_")
            ),
        )
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v, d) for v in x))
    if callable(x):
        if hasattr(x, "gate_definition"):
            return ("custom", snap(x.gate_definition, d))
        return ("callable", getattr(x, "__qualname__", type(x).__name__))
    raise HarnessError("no snapshot of %r" % (type(x),))


NUMERIC = {"float", "complex", "float64", "complex128", "float32", "ValueEstimate"}


def alike(a, b):
    """Equal up to rounding of floating-point numbers."""
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
        return False
    if len(a) >= 2 and a[0] in NUMERIC and a[0] == b[0] and isinstance(a[1], str):
        x, y = complex(a[1]), complex(b[1])
        return abs(x - y) <= 1e-9 * max(1, abs(x))
    if a and a[0] == "PauliTerm" and b[0] == "PauliTerm":
        return alike(a[1], b[1]) and alike(a[3], b[3])
    if a and a[0] == b[0] in ("sympy", "number"):
        try:
            x, y = sympy.sympify(a[-1]), sympy.sympify(b[-1])
            return bool(sympy.simplify(x - y) == 0) or abs(complex(x - y)) < 1e-9
        except Exception:
            return False
    return all(alike(x, y) for x, y in zip(a, b))


# ------------------------------------------------------- what objects there are


def kind(x):
    """Kinds an object can serve as."""
    if isinstance(x, Circuit):
        return ["c"] if len(x.operations) <= 14 and x.n_qubits <= 5 else []
    if isinstance(x, (GateOperation, oc.MultiPhaseOperation, oc.ResetOperation)):
        return ["o"]
    if isinstance(x, CustomGateDefinition):
        return ["cdef"]
    if isinstance(x, oc.Gate) or (hasattr(x, "controlled") and hasattr(x, "matrix")):
        n = 0
        y = x
        while hasattr(y, "wrapped_gate"):
            y, n = y.wrapped_gate, n + 1
        return ["g"] if n <= 4 and x.num_qubits <= 5 else []
    if isinstance(x, PauliTerm):
        return ["t", "p"] if 1e-8 < abs(complex(x.coefficient)) < 1e8 or x.coefficient == 0 else []
    if isinstance(x, PauliSum):
        return ["s", "p"] if len(x.terms) <= 12 else []
    if isinstance(x, Measurements):
        return ["m"] if len(x.bitstrings) <= 200 else []
    if isinstance(x, MeasurementOutcomeDistribution):
        return ["d"]
    if isinstance(x, Wavefunction):
        return ["w"] if len(x) <= 32 else []
    if isinstance(x, Parities):
        return ["par"]
    if isinstance(x, ExpectationValues):
        return ["ev"]
    if isinstance(x, np.ndarray) and x.ndim == 1 and len(x):
        return ["vec"]
    if isinstance(x, dict) and x:
        k, v = next(iter(x.items()))
        if isinstance(k, sympy.Symbol):
            return ["map"]
        if k == "schema" and "operations" in str(x.keys()) or k == "schema" and "n_qubits" in x:
            return ["cdict"]
        if k == "terms":
            return ["pdict"]
        if isinstance(k, str) and set(k) <= set("01") and isinstance(v, int):
            return ["counts"]
        if isinstance(k, tuple) and isinstance(v, float):
            return ["probs"]
        return []
    if isinstance(x, list) and x:
        if all(isinstance(y, Circuit) for y in x):
            return ["clist"] if len(x) <= 6 else []
        if all(isinstance(y, PauliTerm) for y in x):
            return ["tlist"] if len(x) <= 8 else []
        if all(isinstance(y, EstimationTask) for y in x):
            return ["tasks"] if len(x) <= 6 else []
        if all(isinstance(y, tuple) and y and all(isinstance(b, (int, np.integer)) for b in y) for y in x):
            return ["bits"] if len(x) <= 200 else []
        if all(isinstance(y, (GateOperation, oc.MultiPhaseOperation, oc.ResetOperation)) for y in x):
            return ["olist"]
    return []


SYM = {s: sympy.Symbol(s) for s in gens.SYMS}


def make(r):
    """Objects of the initial pool from their recipes."""
    k = r["k"]
    if k == "c":
        return lib.circuit(r["v"])
    if k == "g":
        return lib.gate(r["v"])
    if k == "o":
        return lib.op(r["v"])
    if k == "cdef":
        return lib.custom_def(r["v"])
    if k == "olist":
        return [lib.op(o) for o in r["v"]]
    if k == "clist":
        return [lib.circuit(c) for c in r["v"]]
    if k == "map":
        return {SYM[s]: lib.expr(e) for s, e in r["v"]}
    if k == "t":
        return ops.term(r["v"])
    if k == "s":
        return ops.psum(r["v"])
    if k == "tlist":
        return [ops.term(t) for t in r["v"]]
    if k == "w":
        return Wavefunction(gens.state(r["v"][1], r["v"][0]))
    if k == "ws":
        a = SYM[r["v"]]
        return Wavefunction(sympy.Matrix([sympy.Rational(3, 5), sympy.Rational(4, 5) * sympy.exp(sympy.I * a), 0, 0]))
    if k == "vec":
        return np.array(gens.state(r["v"][1], r["v"][0]))
    if k == "m":
        f = np.int64 if r["np"] else int
        return Measurements([tuple(f(b) for b in t) for t in r["v"]])
    if k == "bits":
        return [tuple(t) for t in r["v"]]
    if k == "counts":
        return {b: n for b, n in r["v"]}
    if k == "probs":
        return {tuple(b): float(x) for b, x in r["v"]}
    if k == "d":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return MeasurementOutcomeDistribution({tuple(b): float(x) for b, x in r["v"]}, normalize=r["norm"])
    if k == "ev":
        n = len(r["v"])
        v = np.array([complex(*x) for x in r["v"]]) if r["complex"] else np.array([x[0] for x in r["v"]])
        frames = [[np.diag(v), np.ones((n, n)) * 0.5] for _ in range(2)] if r["frames"] else [None, None]
        return ExpectationValues(v, *frames)
    if k == "par":
        v = np.array(r["v"])
        return Parities(v, [np.stack([v] * len(v))] if r["corr"] else None)
    if k == "tasks":
        return [EstimationTask(ops.psum(t["op"]), lib.circuit(t["c"]), t["n"]) for t in r["v"]]
    raise HarnessError(k)


# ------------------------------------------------------------------ operations

OPS = {}


def add(name, kinds, family, fn):
    OPS[name] = (kinds.split(), family, fn)


def symbolic(c):
    return bool(c.free_symbols)


def small(c, n=4):
    if c.n_qubits > n or (symbolic(c) and (c.n_qubits > 2 or len(c.operations) > 4)):
        raise Skip()
    return c


def saved(save, load, x, ctx):
    path = ctx.path("object.json")
    save(x, path)
    with open(path) as f:
        text = f.read()
    return [text, load(path)]


def sizes(f):
    """For arguments made here: f(guard) calls guard(x) on each of them."""

    def run(*args):
        made = []

        def guard(x):
            made.append((x, snap(x)))
            return x

        out = f(*args[:-2], args[-2], guard)
        if hasattr(out, "__next__"):
            out = list(out)
        for x, before in made:
            now = snap(x)
            require(now == before, lambda: "an argument was changed from %s to %s" % (str(before)[:500], str(now)[:500]))
        return out

    return run


def owned(x, make, edit):
    """An object made of a list or dictionary which its owner goes on using."""
    out = make(x)
    before = snap(out)
    edit(x)
    require(snap(out) == before, lambda: "%s became %s with what it was made of" % (before, snap(out)))
    return out


def sim(seed=5):
    return SymbolicSimulator(seed=seed)


def width(o, most=5):
    n = len(o.params).bit_length() - 1 if isinstance(o, oc.MultiPhaseOperation) else max(o.qubit_indices) + 1
    if n > most:
        raise Skip()
    return n


def shots(c, k):
    if c.free_symbols or c.n_qubits > 4 or c.n_qubits == 0:
        raise Skip()
    return k % 7 + 1


def pauli_of(c, p):
    if c.free_symbols or c.n_qubits > 4 or p.n_qubits > c.n_qubits:
        raise Skip()
    return p


C, G, P, D = "circuits", "gates", "operators", "data"
a = add
# circuits
a("c + c", "c c", C, lambda x, y, l, ctx: x + y)
a("c + o", "c o", C, lambda x, y, l, ctx: x + y)
a("c += c", "c c", C, lambda x, y, l, ctx: operator.iadd(x, y))
a("c += o", "c o", C, lambda x, y, l, ctx: operator.iadd(x, y))
a("Circuit(list)", "olist", C, lambda x, l, ctx: Circuit(x))
a("Circuit(own list)", "olist", C, lambda x, l, ctx: owned(list(x), Circuit, lambda y: y.append(y[0])))
a("Circuit(operations)", "c", C, lambda x, l, ctx: Circuit(x.operations, n_qubits=x.n_qubits))
a("Circuit(iterator)", "c", C, lambda x, l, ctx: Circuit(iter(x.operations)))
a("c.bind", "c map", C, lambda x, m, l, ctx: x.bind(m))
a("c.inverse", "c", C, lambda x, l, ctx: x.inverse())
a("c.controlled", "c", C, lambda x, l, ctx: x.controlled(l["k"] % 6))
a("c.to_unitary", "c", C, lambda x, l, ctx: small(x, 3).to_unitary())
a("c.free_symbols", "c", C, lambda x, l, ctx: x.free_symbols)
a("c.n_qubits", "c", C, lambda x, l, ctx: x.n_qubits)
a("c.operations", "c", C, lambda x, l, ctx: list(x.operations))
a("c.definitions", "c", C, lambda x, l, ctx: list(x.collect_custom_gate_definitions()))
a("repr c", "c", C, lambda x, l, ctx: repr(x))
a("c == c", "c c", C, lambda x, y, l, ctx: x == y)
a("to_dict c", "c", C, lambda x, l, ctx: oc.to_dict(x))
a("to_dict clist", "clist", C, lambda x, l, ctx: oc.to_dict(x))
a("circuit_from_dict", "cdict", C, lambda x, l, ctx: oc.circuit_from_dict(x))
a("save c", "c", C, lambda x, l, ctx: saved(oc.save_circuit, oc.load_circuit, x, ctx))
a("save clist", "clist", C, lambda x, l, ctx: saved(oc.save_circuitset, oc.load_circuitset, x, ctx))
a("split", "c", C, lambda x, l, ctx: [(b, y) for b, y in oc.split_circuit(x, lambda o: o.qubit_indices[0] % 2 == 0)])
a("ancilla", "c", C, lambda x, l, ctx: oc.add_ancilla_register(x, l["k"] % 3))
a("layer", "vec", C, sizes(lambda x, l, g: oc.create_layer_of_gates(len(x), oc.RX, g(x.real.reshape(-1, 1).copy()))))
a("apply_gate_to_qubits", "c vec", C, sizes(lambda x, v, l, g: oc.apply_gate_to_qubits(x, g([(i + l["k"]) % 6 for i in range(min(len(v), 4))]), oc.RY, g(v.real[:4].reshape(-1, 1).copy()))))
a("decompose", "c", C, lambda x, l, ctx: decompositions.decompose_orquestra_circuit(x, [decompositions.U3GateToRotation()]))
a("batches", "clist", C, sizes(lambda x, l, g: [(list(p), n) for p, n in oc.split_into_batches(x, g([3 + i for i in range(len(x))]), 1 + l["k"] % 3)]))
a("expand", "clist", C, sizes(lambda x, l, g: [list(y) for y in oc.expand_sample_sizes(x, g([5 + i for i in range(len(x))]), 1 + l["k"] % 4)]))
a("get_wavefunction", "c", C, lambda x, l, ctx: sim().get_wavefunction(small(x)))
a("get_wavefunction from", "c", C, sizes(lambda x, l, g: sim().get_wavefunction(small(x), g(np.array(gens.state(l["k"] + 1, x.n_qubits))))))
a("apply all", "c", C, sizes(lambda x, l, g: [o.apply(g(np.array(gens.state(l["k"] + 1, small(x).n_qubits)))) for o in x.operations]))
a("run_and_measure", "c", C, lambda x, l, ctx: sim().run_and_measure(x, shots(x, l["k"])))
a("run_batch", "clist", C, sizes(lambda x, l, g: sim().run_batch_and_measure(x, g([shots(y, l["k"]) for y in x]))))
a("outcome distribution", "c", C, lambda x, l, ctx: sim().get_measurement_outcome_distribution(x, shots(x, l["k"]) if l["b"] else None))
a("exact values", "c p", C, lambda x, y, l, ctx: sim().get_exact_expectation_values(x, pauli_of(x, y)))
a("context", "c p", C, lambda x, y, l, ctx: EstimationTask(y, x, 3))
a("tasks bind", "tasks map", C, sizes(lambda x, m, l, g: estimation.evaluate_estimation_circuits(x, g([m] * len(x)))))
a("tasks split", "tasks", C, lambda x, l, ctx: estimation.split_estimation_tasks_to_measure(x))
a("tasks not measured", "tasks", C, lambda x, l, ctx: estimation.evaluate_non_measured_estimation_tasks(x))
a("tasks exact", "tasks", C, lambda x, l, ctx: estimation.calculate_exact_expectation_values(sim(), x))
a("tasks averaging", "tasks", C, lambda x, l, ctx: estimation.estimate_expectation_values_by_averaging(sim(), x))
# gates and operations
a("g.controlled", "g", G, lambda x, l, ctx: x.controlled(1 + l["k"] % 2))
a("g.dagger", "g", G, lambda x, l, ctx: x.dagger)
a("g.power", "g", G, lambda x, l, ctx: x.power([2, -1, 0.5, 3, 0][l["k"] % 5]))
a("g.exp", "g", G, lambda x, l, ctx: x.exp)
a("g.bind", "g map", G, lambda x, m, l, ctx: x.bind(m))
a("g.replace_params", "g", G, lambda x, l, ctx: x.replace_params(tuple(0.25 + i for i in range(len(x.params)))))
a("g.matrix", "g", G, lambda x, l, ctx: x.matrix)
a("g()", "g", G, lambda x, l, ctx: x(*[(i + l["k"]) % 5 for i in range(x.num_qubits)]))
a("g == g", "g g", G, lambda x, y, l, ctx: x == y)
a("g.free_symbols", "g", G, lambda x, l, ctx: list(x.free_symbols))
a("str g", "g", G, lambda x, l, ctx: str(x))
a("cdef()", "cdef", G, lambda x, l, ctx: x(*[0.5 + i for i in range(len(x.params_ordering))]))
a("cdef == cdef", "cdef cdef", G, lambda x, y, l, ctx: x == y)
a("to_dict cdef", "cdef", G, lambda x, l, ctx: oc.to_dict(x))
a("o.bind", "o map", G, lambda x, m, l, ctx: x.bind(m))
a("o.replace_params", "o", G, lambda x, l, ctx: x.replace_params(tuple(0.25 + i for i in range(len(x.params)))))
a("o.lifted_matrix", "o", G, lambda x, l, ctx: x.lifted_matrix(max(x.qubit_indices) + 1))
a("o.apply", "o", G, sizes(lambda x, l, g: x.apply(g(np.array(gens.state(l["k"] + 1, width(x)))))))
a("o.apply sympy", "o", G, sizes(lambda x, l, g: x.apply(g(sympy.Matrix([SYM["theta"], 1, sympy.I, 0][: 2 ** width(x, 2)])))))
a("o.apply list", "o vec", G, lambda x, v, l, ctx: x.apply(v))
a("o.params", "o", G, lambda x, l, ctx: [x.params, list(x.free_symbols), str(x), x.qubit_indices])
a("o == o", "o o", G, lambda x, y, l, ctx: x == y)
# operators
a("p + p", "p p", P, lambda x, y, l, ctx: x + y)
a("p - p", "p p", P, lambda x, y, l, ctx: x - y)
a("p * p", "p p", P, lambda x, y, l, ctx: x * y)
a("p + number", "p", P, lambda x, l, ctx: x + l["x"])
a("number - p", "p", P, lambda x, l, ctx: l["x"] - x)
a("number + p", "p", P, lambda x, l, ctx: l["x"] + x)
a("p * number", "p", P, lambda x, l, ctx: x * l["x"])
a("number * p", "p", P, lambda x, l, ctx: complex(0.5, l["x"]) * x)
a("p / number", "p", P, lambda x, l, ctx: x / (l["x"] or 2.0))
a("p ** k", "p", P, lambda x, l, ctx: x ** (l["k"] % 4))
a("sum(p)", "p p", P, lambda x, y, l, ctx: sum([x, y, x]))
a("p += p", "p p", P, lambda x, y, l, ctx: operator.iadd(x, y))
a("p -= p", "p p", P, lambda x, y, l, ctx: operator.isub(x, y))
a("p *= p", "p p", P, lambda x, y, l, ctx: operator.imul(x, y))
a("p += number", "p", P, lambda x, l, ctx: operator.iadd(x, l["x"]))
a("p *= number", "p", P, lambda x, l, ctx: operator.imul(x, l["x"]))
a("p /= number", "p", P, lambda x, l, ctx: operator.itruediv(x, l["x"] or 2.0))
a("p **= k", "p", P, lambda x, l, ctx: operator.ipow(x, l["k"] % 4))
a("s.simplify", "s", P, lambda x, l, ctx: x.simplify())
a("p == p", "p p", P, lambda x, y, l, ctx: x == y)
a("p == number", "p", P, lambda x, l, ctx: x == l["x"])
a("hash p", "p", P, lambda x, l, ctx: hash(x))
a("t.copy", "t", P, lambda x, l, ctx: x.copy(l["x"] if l["b"] else None))
a("p.terms", "p", P, lambda x, l, ctx: list(x.terms))
a("p properties", "p", P, lambda x, l, ctx: [x.qubits, x.n_qubits, x.is_ising, x.is_constant, len(x), repr(x)])
a("s.constant_term", "s", P, lambda x, l, ctx: x.constant_term)
a("s.circuits", "s", P, lambda x, l, ctx: x.circuits)
a("t.circuit", "t", P, lambda x, l, ctx: x.circuit)
a("t items", "t", P, lambda x, l, ctx: [list(x), [x[i] for i in range(4)], x.operations])
a("s items", "s", P, lambda x, l, ctx: [list(x), [x[i] for i in range(len(x))]])
a("PauliSum(list)", "tlist", P, lambda x, l, ctx: PauliSum(x))
a("PauliSum(list) work", "tlist p", P, lambda x, y, l, ctx: [PauliSum(x).simplify(), PauliSum(x) + y, PauliSum(x) * y, y + PauliSum(x)])
a("PauliTerm(dict)", "t", P, sizes(lambda x, l, g: [PauliTerm(g(dict(sorted(x.operations))), x.coefficient) * x, x * x]))
a("from_iterable", "t", P, sizes(lambda x, l, g: PauliTerm.from_iterable(g(list(x)), x.coefficient)))
a("text", "p", P, lambda x, l, ctx: (PauliTerm if isinstance(x, PauliTerm) else PauliSum)(repr(x)))
a("conjugate", "p", P, lambda x, l, ctx: op.hermitian_conjugated(x))
a("is_hermitian", "p", P, lambda x, l, ctx: op.is_hermitian(x))
a("sparse", "p", P, lambda x, l, ctx: op.get_sparse_operator(x, n_qubits=x.n_qubits + l["k"] % 2))
a("sparse work", "p", P, lambda x, l, ctx: (lambda m: [op.is_hermitian(m), op.hermitian_conjugated(m), m])(op.get_sparse_operator(x)))
a("value in state", "p w", P, lambda x, w, l, ctx: op.get_expectation_value(x, w, l["b"]))
a("expectation", "p vec", P, lambda x, v, l, ctx: op.expectation(op.get_sparse_operator(x, n_qubits=len(v).bit_length() - 1), v))
a("reverse", "p", P, lambda x, l, ctx: op.reverse_qubit_order(x, None if l["b"] else 4))
a("to dict p", "p", P, lambda x, l, ctx: op.convert_op_to_dict(x))
a("from dict p", "pdict", P, lambda x, l, ctx: op.convert_dict_to_op(x))
a("save p", "p", P, lambda x, l, ctx: saved(op.save_operator, op.load_operator, x, ctx))
a("save set", "p p", P, lambda x, y, l, ctx: saved(op.save_operator_set, op.load_operator_set, [x, y], ctx))
a("Term(text)", "t", P, lambda x, l, ctx: [PauliTerm(str(x)) for _ in range(2)])
a("strings", "p", P, lambda x, l, ctx: op.get_pauli_strings(x))
a("from matrix", "p", P, sizes(lambda x, l, g: get_pauliop_from_matrix(g(op.get_sparse_operator(x, n_qubits=max(1, x.n_qubits)).toarray().tolist()))))
a("from labels", "vec", P, sizes(lambda v, l, g: get_pauliop_from_coeffs_and_labels(v.real, g([[i % 4, (i + l["k"]) % 4] for i in range(len(v))]))))
a("evaluate", "p ev", P, lambda x, e, l, ctx: evaluate_operator(x, e))
a("evaluate list", "p ev", P, lambda x, e, l, ctx: evaluate_operator_list([x], e))
a("evolve", "p", P, lambda x, l, ctx: evolution.time_evolution(x, l["x"], n_steps=1 + l["k"] % 2))
a("evolve symbol", "p", P, lambda x, l, ctx: evolution.time_evolution(x, SYM["theta"]))
a("evolve term", "t", P, lambda x, l, ctx: evolution.time_evolution_for_term(x, l["x"]))
a("derivatives", "p", P, lambda x, l, ctx: evolution.time_evolution_derivatives(x, l["x"], n_steps=1 + l["k"] % 2))
# measurements, distributions, wavefunctions
a("m.get_counts", "m", D, lambda x, l, ctx: x.get_counts())
a("m.get_distribution", "m", D, lambda x, l, ctx: x.get_distribution())
a("m.values", "m p", D, lambda x, y, l, ctx: x.get_expectation_values(y, l["b"]))
a("m.parities", "m p", D, lambda x, y, l, ctx: om.get_parities_from_measurements(x.bitstrings, y))
a("parities", "bits p", D, lambda x, y, l, ctx: om.get_parities_from_measurements(x, y))
a("save m", "m", D, lambda x, l, ctx: saved(lambda y, f: y.save(f), Measurements.load_from_file, x, ctx))
a("Measurements(list)", "bits", D, lambda x, l, ctx: (lambda m: [m.get_counts(), m.get_distribution(), list(m.bitstrings)])(Measurements(x)))
a("from_counts", "counts", D, lambda x, l, ctx: Measurements.from_counts(x))
a("representing", "d", D, lambda x, l, ctx: Measurements.get_measurements_representing_distribution(x, l["k"] % 12))
a("frequencies", "counts", D, sizes(lambda x, l, g: om.get_expectation_value_from_frequencies(g([0]), x)))
a("combine counts", "counts", D, sizes(lambda x, l, g: oc.combine_measurement_counts(g([x, x, x]), g([2, 1]))))
a("combine bits", "bits", D, sizes(lambda x, l, g: oc.combine_bitstrings(g([x, x, x]), g([1, 2]))))
a("check_parity", "bits", D, sizes(lambda x, l, g: [om.check_parity(b, g([0])) for b in x]))
a("d.marginal", "d", D, sizes(lambda x, l, g: x.subdistribution(g(sorted(range(x.get_number_of_subsystems()), key=lambda i: (i * 7 + l["k"]) % 5)[: 1 + l["k"] % 3]))))
a("d info", "d", D, lambda x, l, ctx: [repr(x), x.get_number_of_subsystems()])
a("d(dict)", "probs", D, lambda x, l, ctx: MeasurementOutcomeDistribution(x, normalize=l["b"]))
a("d(own dict)", "probs", D, lambda x, l, ctx: owned(dict(x), MeasurementOutcomeDistribution, lambda y: y.clear()))
a("d(d.dict)", "d", D, lambda x, l, ctx: MeasurementOutcomeDistribution(x.distribution_dict, normalize=l["b"]))
a("dict checks", "probs", D, lambda x, l, ctx: [distributions.is_normalized(x), distributions.is_measurement_outcome_distribution(x)])
a("dict keys", "probs", D, lambda x, l, ctx: distributions.change_tuple_dict_keys_to_comma_separated_integers(x))
a("save d", "d", D, lambda x, l, ctx: saved(distributions.save_measurement_outcome_distribution, distributions.load_measurement_outcome_distribution, x, ctx))
a("save ds", "d d", D, lambda x, y, l, ctx: saved(distributions.save_measurement_outcome_distributions, distributions.load_measurement_outcome_distributions, [x, y], ctx))
NLL = {"epsilon": 1e-6}
MMD = {"sigma": [0.5, 1.0, 2.0]}


def distance(fn, par):
    def f(x, y, l, ctx):
        before = snap(par)
        out = distributions.evaluate_distribution_distance(x, y, fn, distance_measure_parameters=par)
        require(snap(par) == before, lambda: "the parameters of the distance became %s" % par)
        return out

    return f


a("mmd", "d d", D, distance(distributions.compute_mmd, MMD))
a("nll", "d d", D, distance(distributions.compute_clipped_negative_log_likelihood, NLL))
a("jensen", "d d", D, distance(distributions.compute_jensen_shannon_divergence, NLL))
a("from probabilities", "vec", D, lambda v, l, ctx: distributions.create_bitstring_distribution_from_probability_distribution(abs(v) ** 2))
a("sample dict", "probs", D, lambda x, l, ctx: utils.sample_from_probability_distribution(x, l["k"]))
a("to bitstrings", "bits", D, lambda x, l, ctx: utils.convert_tuples_to_bitstrings(x))
a("values of parities", "par", D, lambda x, l, ctx: om.get_expectation_values_from_parities(x))
a("par.to_dict", "par", D, lambda x, l, ctx: x.to_dict())
a("save par", "par", D, lambda x, l, ctx: saved(om.save_parities, om.load_parities, x, ctx))
a("ev.to_dict", "ev", D, lambda x, l, ctx: x.to_dict())
a("save ev", "ev", D, lambda x, l, ctx: saved(om.save_expectation_values, om.load_expectation_values, x, ctx))
a("ev concatenate", "ev ev", D, lambda x, y, l, ctx: om.concatenate_expectation_values([x, y, x]))
a("ev == ev", "ev ev", D, lambda x, y, l, ctx: x == y)
a("Wavefunction(vec)", "vec", D, lambda v, l, ctx: Wavefunction(v))
a("w.bind", "w map", D, lambda x, m, l, ctx: x.bind(m))
a("w.probabilities", "w", D, lambda x, l, ctx: x.get_probabilities())
a("w.outcomes", "w", D, lambda x, l, ctx: x.get_outcome_probs())
a("w.amplitudes", "w", D, lambda x, l, ctx: [x.amplitudes, list(x), x[0], len(x), x.n_qubits, str(x), x.free_symbols])
a("w == w", "w w", D, lambda x, y, l, ctx: x == y)
a("flip", "w", D, lambda x, l, ctx: wavefunction.flip_wavefunction(x))
a("flip amplitudes", "vec", D, lambda v, l, ctx: wavefunction.flip_amplitudes(v))
a("save w", "w", D, lambda x, l, ctx: saved(wavefunction.save_wavefunction, wavefunction.load_wavefunction, x, ctx))
a("sample w", "w", D, lambda x, l, ctx: wavefunction.sample_from_wavefunction(x, 1 + l["k"], seed=3))
del a


# -------------------------------------------------------------------- histories


def call(fn, args, lit, ctx):
    np.random.seed(11)
    random.seed(11)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with lib.limit(5, ctx):
            return fn(*args, lit, ctx)


def check(case, ctx):
    pool = [make(r) for r in case["pool"]]
    kinds = [kind(x) or [r["k"]] for x, r in zip(pool, case["pool"])]
    snaps = [snap(x) for x in pool]
    require([snap(x) for x in pool] == snaps, "reading an object changed it")
    log, used = [], set()

    def unchanged(what):
        for i, x in enumerate(pool):
            now = snap(x)
            if now != snaps[i]:
                names = " (argument)" if i in what[1] else ""
                require(
                    False,
                    lambda: "%s changed object %d%s from %s to %s"
                    % (what[0], i, names, str(snaps[i])[:600], str(now)[:600]),
                )

    for step in case["steps"]:
        need, _, fn = OPS[step["op"]]
        at = []
        for j, k in enumerate(need):
            options = [i for i, ks in enumerate(kinds) if k in ks]
            if not options:
                break
            at.append(options[step["a"][j] % len(options)])
        if len(at) < len(need):
            continue
        args = [pool[i] for i in at]
        text = "%s of %s" % (step["op"], at)
        try:
            out = call(fn, args, step, ctx)
        except Skip:
            continue
        except (HarnessError, Violation):
            raise
        except Exception as ex:
            ctx.label("raised " + type(ex).__name__)
            unchanged(("failing " + text, at))
            continue
        ctx.label(step["op"])
        used.update(at)
        unchanged((text, at))
        first = snap(out)
        log.append((text, fn, at, step, first))
        try:
            second = snap(call(fn, args, step, ctx))
        except Skip:
            continue
        unchanged(("second " + text, at))
        require(
            alike(first, second),
            lambda: "%s returned %s, then %s" % (text, str(first)[:600], str(second)[:600]),
        )
        require(
            snap(out) == first,
            lambda: "%s: the first result changed from %s to %s"
            % (text, str(first)[:600], str(snap(out))[:600]),
        )
        results = out if isinstance(out, (list, tuple)) and not kind(out) else [out]
        for r in list(results)[:3]:
            ks = kind(r)
            if ks and len(pool) < 24:
                pool.append(r)
                kinds.append(ks)
                snaps.append(snap(r))
    # the whole history again, in reverse
    for text, fn, at, step, first in reversed(log):
        try:
            again = snap(call(fn, [pool[i] for i in at], step, ctx))
        except Skip:
            continue
        unchanged(("later " + text, at))
        require(
            alike(first, again),
            lambda: "%s returned %s, later %s" % (text, str(first)[:600], str(again)[:600]),
        )
    shared = Counter(i for _, _, at, _, _ in log for i in set(at))
    ctx.nontrivial(len(log) >= 3 and any(v >= 2 for v in shared.values()))


# ------------------------------------------------------------------ strategies

bit_n = st.integers(1, 3)


def rec(k, s, **more):
    return s.map(lambda v: dict({"k": k, "v": v}, **more))


def bitlists(n, lo=1, hi=12):
    return st.lists(st.lists(st.integers(0, 1), min_size=n, max_size=n), min_size=lo, max_size=hi)


gate_recipe = st.sampled_from([1, 1, 2, 2, 3]).flatmap(
    lambda n: st.booleans().flatmap(lambda s: gens.any_gate(n, s))
)
circuit_recipe = st.sampled_from([False, True]).flatmap(
    lambda s: gens.circuits(
        1,
        3,
        4,
        symbolic=s,
        extra=lambda n: st.one_of(
            st.lists(gens.small_floats, min_size=2**n, max_size=2**n).map(lambda p: {"phase": p}),
            gens.gate_op(n, s),
        ),
    )
)
plain_circuit = gens.circuits(1, 2, 3)
u3 = st.builds(
    lambda p, q: {"n": 3, "ops": [{"gate": {"w": "ctrl", "k": 1, "of": {"g": "U3", "p": p}}, "q": [q, 2]}, {"gate": {"g": "U3", "p": p}, "q": [q]}]},
    st.lists(gens.small_floats, min_size=3, max_size=3),
    st.integers(0, 1),
)
map_recipe = st.lists(
    st.tuples(st.sampled_from(gens.SYMS), st.one_of(gens.small_floats.map(lambda x: ["f", x]), gens.sym_expr())).map(list),
    min_size=1,
    max_size=4,
    unique_by=lambda t: t[0],
)
ising = ops.sums(3, ops.nice, 4, 1, letters="Z")
task = st.fixed_dictionaries({"op": ops.sums(1, ops.nice, 3, 1, letters="Z"), "c": plain_circuit, "n": st.sampled_from([1, 4, 0, 2])})


@st.composite
def probabilities(draw, n=None):
    n = draw(bit_n) if n is None else n
    keys = draw(st.lists(st.lists(st.integers(0, 1), min_size=n, max_size=n), min_size=1, max_size=2**n, unique_by=tuple))
    return [[k, draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0, 0.3, 0.1]))] for k in keys] or []


some_probs = probabilities().filter(lambda v: sum(x for _, x in v) > 0)
POOL = {
    C: [
        rec("c", circuit_recipe),
        rec("c", circuit_recipe),
        rec("c", plain_circuit),
        rec("c", u3),
        rec("map", map_recipe),
        rec("o", st.booleans().flatmap(lambda s: gens.gate_op(2, s))),
        rec("olist", st.lists(gens.gate_op(3), min_size=1, max_size=3)),
        rec("clist", st.lists(plain_circuit, min_size=1, max_size=3)),
        rec("vec", st.tuples(st.integers(1, 3), gens.seeds).map(list)),
        rec("tasks", st.lists(task, min_size=1, max_size=3)),
        rec("s", ising),
    ],
    G: [
        rec("g", gate_recipe),
        rec("g", gate_recipe),
        rec("map", map_recipe),
        rec("o", st.booleans().flatmap(lambda s: gens.gate_op(2, s))),
        rec("o", st.lists(gens.small_floats, min_size=4, max_size=4).map(lambda p: {"phase": p})),
        rec("vec", st.tuples(st.integers(1, 3), gens.seeds).map(list)),
        rec("cdef", gens.templ(1, st.just(["i", 1])).map(lambda r: r["custom"])),
        rec("cdef", gens.qr_def(1)),
    ],
    P: [
        rec("s", ops.sums(3, ops.coeffs, 4)),
        rec("s", ops.sums(3, ops.real_coeffs, 4)),
        rec("t", ops.terms(3)),
        rec("t", ops.terms(3, ops.real_coeffs)),
        rec("tlist", st.lists(ops.terms(3), min_size=1, max_size=4)),
        rec("w", st.tuples(st.integers(1, 3), gens.seeds).map(list)),
        rec("vec", st.tuples(st.integers(1, 3), gens.seeds).map(list)),
    ],
    D: [
        rec("m", bit_n.flatmap(bitlists), np=False),
        rec("m", bit_n.flatmap(bitlists), np=True),
        rec("m", bitlists(3), np=False),
        rec("bits", bit_n.flatmap(bitlists)),
        rec("counts", bit_n.flatmap(lambda n: st.lists(st.tuples(st.text("01", min_size=n, max_size=n), st.integers(1, 4)).map(list), min_size=1, max_size=4, unique_by=lambda t: t[0]))),
        rec("d", some_probs, norm=True),
        rec("d", some_probs, norm=False),
        rec("d", probabilities(3).filter(lambda v: sum(x for _, x in v) > 0), norm=True),
        rec("probs", some_probs),
        st.builds(
            lambda v, c, f: {"k": "ev", "v": v, "complex": c, "frames": f},
            st.lists(st.tuples(gens.small_floats, gens.small_floats).map(list), min_size=1, max_size=3),
            st.booleans(),
            st.booleans(),
        ),
        st.builds(
            lambda v, c: {"k": "par", "v": v, "corr": c},
            st.lists(st.lists(st.integers(0, 6), min_size=2, max_size=2), min_size=1, max_size=3),
            st.booleans(),
        ),
        rec("s", ising),
        rec("t", ops.terms(2, ops.nice, letters="Z")),
        rec("w", st.tuples(st.integers(1, 3), gens.seeds).map(list)),
        rec("ws", st.sampled_from(gens.SYMS)),
        rec("vec", st.tuples(st.integers(1, 3), gens.seeds).map(list)),
        rec("map", map_recipe),
    ],
}


def steps(names):
    def named(r):
        # spread over the operations although small numbers are drawn most
        i = r["op"] * 7919 + r["k"] * 101 + r["a"][0] * 1009 + r["a"][1] * 31
        return dict(r, op=names[i % len(names)])

    return st.fixed_dictionaries(
        {
            "op": st.integers(0, 2**14 - 1),
            "a": st.lists(st.integers(0, 30), min_size=2, max_size=2),
            "k": st.integers(0, 11),
            "b": st.booleans(),
            "x": st.sampled_from([0.5, -1.25, 2.0, 1.0, 0.0, -1.0, 0.3]),
        }
    ).map(named)


def usable(names, have):
    return [n for n in names if all(k in have for k in OPS[n][0])]


SERVES = {"t": ["t", "p"], "s": ["s", "p"], "ws": ["w"]}
# what the operations of each family can produce, besides the initial objects
PRODUCED = {C: ["cdict", "clist", "w"], G: ["o", "g"], P: ["c", "pdict", "tlist"], D: ["par", "ev", "d"]}


@st.composite
def histories(draw, family):
    chosen = draw(st.lists(st.integers(0, len(POOL[family]) - 1), min_size=2, max_size=5))
    pool = [draw(POOL[family][i]) for i in chosen]
    have = set(PRODUCED[family])
    for r in pool:
        have.update(SERVES.get(r["k"], [r["k"]]))
    names = usable(sorted(n for n in OPS if OPS[n][1] == family), have)
    return {"pool": pool, "steps": draw(st.lists(steps(names), min_size=4, max_size=9))}


@st.composite
def mixed(draw):
    everything = [s for f in (C, G, P, D) for s in POOL[f]]
    chosen = draw(st.lists(st.integers(0, len(everything) - 1), min_size=4, max_size=8))
    pool = [draw(everything[i]) for i in chosen]
    have = set(sum(PRODUCED.values(), []))
    for r in pool:
        have.update(SERVES.get(r["k"], [r["k"]]))
    names = usable(sorted(OPS), have)
    return {"pool": pool, "steps": draw(st.lists(steps(names), min_size=5, max_size=12))}


def shuffled(names, seed, n):
    """n calls, every operation about as often as any other."""
    rng = random.Random(seed)
    out = []
    while len(out) < n:
        out += rng.sample(names, len(names))
    return [
        {
            "op": name,
            "a": [rng.randrange(840), rng.randrange(840)],
            "k": rng.randrange(12),
            "b": rng.random() < 0.5,
            "x": rng.choice([0.5, -1.25, 2.0, 1.0, 0.0, -1.0, 0.3]),
        }
        for name in out[:n]
    ]


@st.composite
def long_histories(draw, families):
    everything = [s for f in families for s in POOL[f]]
    pool = [draw(s) for s in everything]
    have = set(sum((PRODUCED[f] for f in families), []))
    for r in pool:
        have.update(SERVES.get(r["k"], [r["k"]]))
    names = usable(sorted(n for n in OPS if OPS[n][1] in families), have)
    return {
        "pool": pool,
        "steps": shuffled(names, draw(st.integers(0, 2**32)), draw(st.sampled_from([40, 60, 80]))),
    }


RULE = ">=3 calls returned, an object used by two of them"
FACETS = [
    Facet(C, check, RULE, histories(C), quick=900, thorough=30000, shard=60),
    Facet(G, check, RULE, histories(G), quick=700, thorough=20000, shard=60),
    Facet(P, check, RULE, histories(P), quick=1500, thorough=50000, shard=100),
    Facet(D, check, RULE, histories(D), quick=2000, thorough=60000, shard=100),
    Facet("mixed", check, RULE, mixed(), quick=700, thorough=30000, shard=60),
    Facet("circuits-long", check, RULE, long_histories([C]), quick=60, thorough=2000, shard=4),
    Facet("gates-long", check, RULE, long_histories([G]), quick=50, thorough=1500, shard=4),
    Facet("operators-long", check, RULE, long_histories([P]), quick=80, thorough=3000, shard=8),
    Facet("data-long", check, RULE, long_histories([D]), quick=80, thorough=3000, shard=8),
    Facet("mixed-long", check, RULE, long_histories([C, G, P, D]), quick=40, thorough=1500, shard=3),
]
