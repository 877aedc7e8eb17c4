"""C01: a circuit acts as the ordered product of its gates on the named qubits."""
import itertools

import numpy as np
import sympy
from hypothesis import strategies as st
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import Circuit, GateOperation
from orquestra.quantum.runners import SymbolicSimulator

from .. import gens, lib, oracle
from ..core import Facet, fail, require

ASSUMPTIONS = [
    "each gate's own matrix is taken from the library (C02/C07 judge it)",
    "registers up to 11 qubits (whole matrices up to 9)",
    "numeric agreement to 1e-9 relative",
]
TOL = 1e-9


def own(op, env=None):
    m = op.gate.matrix
    return lib.subs_num(m, env) if env is not None else lib.num(m)


def is_unitary(m):
    return oracle.close(m @ m.conj().T, np.eye(len(m)), 1e-7)


def phase_vec(o, env):
    return np.exp(1j * np.array([float(oracle.eval_expr(p, env)) for p in o["phase"]]))


def ref_state(case, circ, psi, env=None):
    """Reference evolution; also returns the states before every operation."""
    n = circ.n_qubits
    seq = [psi]
    for o, op in zip(case["ops"], circ.operations):
        if "phase" in o:
            psi = phase_vec(o, env or {}) * psi
        else:
            psi = oracle.apply_op(psi, own(op, env), o["q"], n)
        seq.append(psi)
    return seq


def shape_labels(case, ctx):
    n = case["n"]
    gops = [o for o in case["ops"] if "gate" in o]
    ks = {len(o["q"]) for o in gops}
    perm = any(o["q"] != sorted(o["q"]) for o in gops)
    gap = any(len(o["q"]) > 1 and max(o["q"]) - min(o["q"]) >= len(o["q"]) for o in gops)
    used = {q for o in gops for q in o["q"]}
    if 3 in ks or 4 in ks:
        ctx.label("arity3+")
    if perm:
        ctx.label("permuted")
    if gap:
        ctx.label("non-adjacent")
    if n and len(used) < n:
        ctx.label("idle")
    if any("of" in o["gate"] for o in gops):
        ctx.label("wrapped")
    if any("phase" in o for o in case["ops"]):
        ctx.label("phase-op")
    return len(gops) >= 2 and (perm or gap or 3 in ks or 4 in ks)


# ----------------------------------------------------------------- numeric circuits


def check_numeric(case, ctx):
    circ = lib.circuit(case)
    n = case["n"]
    require(circ.n_qubits == n, "register width")
    mats = [own(op) for op in circ.operations]
    want = oracle.circuit_matrix([(m, o["q"]) for m, o in zip(mats, case["ops"])], n)
    got = lib.num(circ.to_unitary())
    require(oracle.close(got, want, TOL), "to_unitary differs from the ordered product")
    psi = gens.state(case["seed"], n)
    seq = ref_state(case, circ, psi)
    cur = psi
    for i, op in enumerate(circ.operations):
        cur = lib.num(op.apply(cur)).reshape(-1)
        require(oracle.close(cur, seq[i + 1], TOL), lambda: "apply of operation %d" % i)
    if all(is_unitary(m) for m in mats):
        init = None if case["seed"] == 0 else psi
        wf = SymbolicSimulator().get_wavefunction(circ, init)
        require(oracle.close(lib.num(wf.amplitudes), want @ psi, TOL), "SymbolicSimulator")
        ctx.label("simulated")
    ctx.nontrivial(shape_labels(case, ctx))


num_case = st.builds(
    lambda c, s: dict(c, seed=s),
    gens.circuits(max_n=5, max_ops=6, transcendental=True),
    st.one_of(st.just(0), gens.seeds),
)
wide_case = st.builds(
    lambda c, s: dict(c, seed=s),
    gens.circuits(min_n=6, max_n=7, min_ops=1, max_ops=4),
    st.one_of(st.just(0), gens.seeds),
)



def check_wider(case, ctx):
    """Registers on which the whole matrix is too large for the full comparison."""
    circ = lib.circuit(case)
    n = case["n"]
    require(circ.n_qubits == n, "register width")
    psi = gens.state(case["seed"], n)
    want = ref_state(case, circ, psi)
    cur = psi
    for i, op in enumerate(circ.operations):
        cur = lib.num(op.apply(cur)).reshape(-1)
        require(oracle.close(cur, want[i + 1], TOL), lambda: "apply of operation %d" % i)
    if n <= 9:
        require(oracle.close(lib.num(circ.to_unitary()) @ psi, want[-1], TOL), "to_unitary of a wide circuit")
    if all(is_unitary(own(op)) for op in circ.operations):
        wf = SymbolicSimulator().get_wavefunction(circ, psi)
        require(oracle.close(lib.num(wf.amplitudes), want[-1], TOL), "a wide circuit simulated")
    ctx.label("n=%d" % n)
    ctx.nontrivial(shape_labels(case, ctx))


wider_case = st.builds(
    lambda c, s: dict(c, seed=s),
    gens.circuits(min_n=8, max_n=11, min_ops=2, max_ops=3),
    gens.seeds,
)

# ------------------------------------------------------------------- long circuits


def check_long(case, ctx):
    circ = lib.circuit(case)
    n = case["n"]
    distinct = []
    want = np.eye(2**n, dtype=complex)
    scale = 1.0
    for o, op in zip(case["ops"], circ.operations):
        for o2, m in distinct:
            if o2 == o:
                break
        else:
            m = oracle.embed(own(op), o["q"], n)
            distinct.append((o, m))
        want = m @ want
        scale = max(scale, np.abs(want).max())
    tol = TOL * scale
    require(oracle.close(lib.num(circ.to_unitary()), want, tol), "unitary of a long circuit")
    psi = gens.state(case["seed"], n)
    cur = psi
    for op in circ.operations:
        cur = op.apply(cur)
    require(oracle.close(lib.num(cur).reshape(-1), want @ psi, tol), "a long circuit applied")
    if all(is_unitary(m) for _, m in distinct):
        wf = SymbolicSimulator().get_wavefunction(circ, psi)
        require(oracle.close(lib.num(wf.amplitudes), want @ psi, TOL), "a long circuit simulated")
    cut = case["cut"] % (len(circ.operations) + 1)
    a = Circuit(circ.operations[:cut], n_qubits=n)
    b = Circuit(circ.operations[cut:], n_qubits=n)
    require(oracle.close(lib.num((a + b).to_unitary()), want, tol), "two parts of a long circuit")
    k = len(case["ops"])
    ctx.label("ops>=%d" % (k // 16 * 16))
    ctx.nontrivial(len(distinct) >= 2)


long_case = st.builds(
    lambda c, s, k: dict(c, seed=s, cut=k),
    gens.long_circuits(wrap=False) | gens.long_circuits(max_wrap=1, hi=30),
    gens.seeds,
    st.integers(0, 99),
)

# ------------------------------------------- exhaustive index tuples, arities 1 to 4


def tuple_cases(tier):
    top = {1: 6, 2: 6, 3: 5, 4: 5} if tier == "quick" else {1: 8, 2: 7, 3: 6, 4: 6}
    out = []
    for k, m in top.items():
        for n in range(k, m + 1):
            for q in itertools.permutations(range(n), k):
                out.append({"n": n, "k": k, "q": list(q)})
    return out


_cache = {}


def check_tuple(case, ctx):
    n, k, q = case["n"], case["k"], case["q"]
    g = lib.gate({"custom": {"name": "u", "kind": "qr", "n": k, "seed": 7 * k}, "p": []})
    u = lib.qr_unitary(k, 7 * k)
    op = g(*q)
    want = oracle.embed(u, q, n)
    require(oracle.close(lib.num(op.lifted_matrix(n)), want, TOL), "lifted_matrix")
    circ = Circuit([op], n_qubits=n)
    require(oracle.close(lib.num(circ.to_unitary()), want, TOL), "to_unitary")
    psi = gens.state(11, n)
    require(oracle.close(lib.num(op.apply(psi)), want @ psi, TOL), "apply")
    if n <= 3 or (n == 4 and k <= 2):
        # symbolic embedding path: same shape with one symbolic entry
        s = sympy.Symbol("t")
        d = lib.sympy.Matrix(u.tolist())
        from orquestra.quantum.circuits import CustomGateDefinition

        gd = CustomGateDefinition("us", d * sympy.exp(sympy.I * s), (s,))
        got = lib.subs_num(gd(s)(*q).lifted_matrix(n), {"t": 0.37})
        require(oracle.close(got, want * oracle.ph(0.37), TOL), "symbolic lifted_matrix")
        ctx.label("symbolic-path")
    ctx.nontrivial(k > 1 and (q != sorted(q) or max(q) - min(q) >= k))


# ---------------------------------------------------------------- symbolic circuits


def check_symbolic(case, ctx):
    circ = lib.circuit(case)
    n = case["n"]
    env = case["env"]
    sym = lambda m: lib.subs_num(m, env)  # noqa: E731
    want = oracle.circuit_matrix(
        [(own(op, env), o["q"]) for op, o in zip(circ.operations, case["ops"])], n
    )
    got = sym(circ.to_unitary())
    require(oracle.close(got, want, 1e-6), "symbolic to_unitary")
    psi = gens.state(case["seed"], n)
    cur = psi
    ref = psi
    for i, (op, o) in enumerate(zip(circ.operations, case["ops"])):
        cur = op.apply(cur)
        ref = oracle.apply_op(ref, own(op, env), o["q"], n)
        require(oracle.close(sym(cur).reshape(-1), ref, 1e-6), "symbolic apply")
    if circ.free_symbols:
        ctx.label("has-symbols")
        if len({bool(o["gate"].get("g")) for o in case["ops"]}) > 1:
            ctx.label("custom-mixed")
        if any(not op.free_symbols for op in circ.operations):
            ctx.label("mixed-numeric-symbolic")
    if case["sim"]:
        wf = SymbolicSimulator().get_wavefunction(
            circ, None if case["seed"] == 0 else psi
        )
        require(
            oracle.close(sym(wf.amplitudes).reshape(-1), want @ psi, 1e-6),
            "symbolic simulator state",
        )
        ctx.label("sim")
    ctx.nontrivial(bool(circ.free_symbols) and len(case["ops"]) >= 2)


sym_case = st.builds(
    lambda c, s, v, b: dict(c, seed=s, env=dict(zip(gens.SYMS, v)), sim=b),
    gens.circuits(max_n=3, max_ops=3, min_ops=1, symbolic=True, max_wrap=1),
    st.one_of(st.just(0), gens.seeds),
    st.lists(gens.small_floats, min_size=len(gens.SYMS), max_size=len(gens.SYMS)),
    st.booleans(),
)

# ----------------------------------------------- base-class simulators, native splits


def op_key(op):
    if not isinstance(op, GateOperation):
        return "phase"
    return "%s:%d" % (type(op.gate).__name__, op.gate.num_qubits)


def is_native(rule, op):
    k = rule["kind"]
    if k == "all":
        return True
    if k == "none":
        return False
    if k == "default":
        return isinstance(op, GateOperation)
    if k == "phase-only":
        return not isinstance(op, GateOperation)
    if k == "qubit":  # gates touching a given qubit
        return rule["v"] in op.qubit_indices
    if k == "arity":
        return len(op.qubit_indices) == rule["v"] + 1
    if k == "first-even":
        return op.qubit_indices[0] % 2 == 0
    return hash_name(op) % 2 == rule["v"] % 2


def hash_name(op):
    name = op.gate.name if isinstance(op, GateOperation) else "phase"
    return sum(map(ord, name))


def check_sim(case, ctx):
    circ = lib.circuit(case)
    n = case["n"]
    psi = gens.state(case["seed"], n)
    seq = ref_state(case, circ, psi)
    rule = case["native"]
    log = []

    class Sim(BaseWavefunctionSimulator):
        def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
            log.append(len(circuit.operations))
            require(circuit.n_qubits == n, "native subcircuit width changed")
            require(
                all(self.is_natively_supported(o) for o in circuit.operations),
                "non-native operation passed to the native method",
            )
            s = np.array(initial_state, dtype=complex)
            for o in circuit.operations:
                if isinstance(o, GateOperation):
                    s = oracle.apply_op(s, own(o), o.qubit_indices, n)
                else:
                    s = s * np.exp(1j * np.array([float(p) for p in o.params]))
            return s

        if rule["kind"] != "default":

            def is_natively_supported(self, operation):
                return is_native(rule, operation)

    init = None if case["seed"] == 0 else psi
    for cls in (Sim, SymbolicSimulator):
        wf = cls().get_wavefunction(circ, init)
        require(oracle.close(lib.num(wf.amplitudes), seq[-1], TOL), cls.__name__)
    flags = [is_native(rule, op) for op in circ.operations]
    require(sum(log) == sum(flags), "native operations executed exactly once")
    cuts = sum(a != b for a, b in zip(flags, flags[1:]))
    ctx.label("cuts=%d" % min(cuts, 4))
    ctx.nontrivial(cuts >= 1)
    shape_labels(case, ctx)


def phase_op(n):
    return st.lists(gens.angles, min_size=2**n, max_size=2**n).map(lambda p: {"phase": p})


native_rules = st.one_of(
    st.sampled_from(["default", "default", "phase-only", "first-even", "none", "all"]).map(
        lambda k: {"kind": k}
    ),
    st.builds(
        lambda k, v: {"kind": k, "v": v},
        st.sampled_from(["qubit", "arity", "name"]),
        st.integers(0, 2),
    ),
)
sim_case = st.builds(
    lambda c, s, r: dict(c, seed=s, native=r),
    gens.circuits(max_n=4, max_ops=8, min_ops=3, extra=phase_op, max_wrap=1),
    st.one_of(st.just(0), gens.seeds),
    native_rules,
)

# -------------------------------------------------------------------- concatenation


def check_concat(case, ctx):
    a, b = lib.circuit(case["a"]), lib.circuit(case["b"])
    n = max(case["a"]["n"], case["b"]["n"])
    both = a + b
    require(both.n_qubits == n, lambda: "width %s of sum, wanted %d" % (both.n_qubits, n))
    ops = case["a"]["ops"] + case["b"]["ops"]
    require(len(both.operations) == len(ops), "number of operations of the sum")
    want = oracle.circuit_matrix(
        [
            (own(op), o["q"])
            for op, o in zip(list(a.operations) + list(b.operations), ops)
        ],
        n,
    )
    require(oracle.close(lib.num(both.to_unitary()), want, TOL), "action of the sum")
    acc = lib.circuit({"n": case["a"]["n"], "ops": []}) + a
    w = case["a"]["n"]
    for o in case["b"]["ops"]:
        acc = acc + lib.op(o)
        w = max(w, max(o["q"]) + 1)
        require(acc.n_qubits == w, "width after appending an operation")
    want2 = oracle.circuit_matrix(
        [
            (own(op), o["q"])
            for op, o in zip(list(a.operations) + list(b.operations), ops)
        ],
        w,
    )
    require(oracle.close(lib.num(acc.to_unitary()), want2, TOL), "operation-wise appending")
    # inferred width
    free = lib.circuit({"n": None, "ops": ops})
    wf = 1 + max([q for o in ops for q in o["q"]], default=-1)
    require(free.n_qubits == wf, "inferred width")
    ctx.nontrivial(len(ops) >= 2 and case["a"]["n"] != case["b"]["n"])
    ctx.label("wider-left" if case["a"]["n"] > case["b"]["n"] else "other")


concat_case = st.builds(
    lambda a, b: {"a": a, "b": b},
    gens.circuits(max_n=4, max_ops=3),
    gens.circuits(max_n=4, max_ops=3),
)

# --------------------------------------------- plain list / integer / real initial states


def check_basis(case, ctx):
    circ = lib.circuit(case)
    n = case["n"]
    i = case["i"] % 2**n
    mats = [own(op) for op in circ.operations]
    want = oracle.circuit_matrix([(m, o["q"]) for m, o in zip(mats, case["ops"])], n)[:, i]
    for dt in (int, float, complex):
        v = np.zeros(2**n, dtype=dt)
        v[i] = 1
        cur = v
        for op in circ.operations:
            cur = op.apply(cur)
        require(oracle.close(lib.num(cur), want, TOL), "basis state through apply")
        if all(map(is_unitary, mats)):
            wf = SymbolicSimulator(seed=3).get_wavefunction(circ, v)
            require(oracle.close(lib.num(wf.amplitudes), want, TOL), "basis state simulated")
    ctx.nontrivial(i not in (0, 2**n - 1) and len(case["ops"]) > 0)


basis_case = st.builds(
    lambda c, i: dict(c, i=i), gens.circuits(max_n=4, max_ops=4), st.integers(0, 63)
)

# --------------------------------------- gates easily taken for each other, in sequence

look_case = st.builds(
    lambda l, q, order, s: dict(l, q=[x % 3 for x in q], order=order, seed=s),
    gens.lookalikes(),
    st.permutations(range(3)),
    st.sampled_from([[0, 1], [0, 1, 0], [1, 0, 1], [0, 0, 1], [0, 1, 1, 0]]),
    gens.seeds,
)


def check_look(case, ctx):
    """What a gate does cannot depend on which similar gates were used before."""
    n = 3
    q = case["q"][: case["n"]]
    tol = min(TOL, 0.01 * case["gap"])
    with lib.limit(8, ctx):
        refs = [lib.ref_gate_matrix(r) for r in case["pair"]]
        scale = max(1.0, max(np.abs(m).max() for m in refs))
        psi = gens.state(case["seed"], n)
        ops, mats = [], []
        for i in case["order"]:
            op = lib.gate(case["pair"][i])(*q)
            want = oracle.embed(refs[i], q, n)
            require(oracle.close(lib.num(op.gate.matrix), refs[i], tol * scale), lambda: "matrix of %s" % op)
            lifted = op.lifted_matrix(n)
            require(oracle.close(lib.num(lifted), want, tol * scale), lambda: "lifted matrix of %s" % op)
            require(oracle.close(lib.num(op.apply(psi)), want @ psi, tol * scale), lambda: "%s applied" % op)
            ops.append(op)
            mats.append((refs[i], q))
            c = Circuit([op], n_qubits=n)
            u = c.to_unitary()
            require(oracle.close(lib.num(u), want, tol * scale), lambda: "unitary of %s" % c)
            # the caller may do what it likes with the returned arrays
            for m in (lifted, u):
                if isinstance(m, np.ndarray) and m.flags.writeable:
                    m[...] = 7
        circ = Circuit(ops, n_qubits=n)
        want = oracle.circuit_matrix(mats, n)
        s = scale ** len(ops)
        require(oracle.close(lib.num(circ.to_unitary()), want, tol * s), lambda: "unitary of %s" % circ)
        if all(map(is_unitary, refs)):
            zero = np.eye(2**n)[0]
            one = SymbolicSimulator()
            for k, i in enumerate(case["order"]):
                c = Circuit([lib.gate(case["pair"][i])(*q)], n_qubits=n)
                m = oracle.embed(refs[i], q, n)
                # by one simulator for all, and by one of its own
                for sim in (one, SymbolicSimulator()):
                    for start in ([psi, None, zero] if k % 2 else [None, psi]):
                        wf = sim.get_wavefunction(c, start)
                        want = m @ (zero if start is None else start)
                        require(oracle.close(lib.num(wf.amplitudes), want, tol), lambda: "simulated %s" % c)
    ctx.label("gap=%g" % case["gap"])
    ctx.nontrivial(not oracle.close(refs[0], refs[1], 2 * tol * scale))


FACETS = [
    Facet(
        "numeric",
        check_numeric,
        ">=2 gates, one with permuted / non-adjacent indices or arity>=3",
        num_case,
        quick=900,
        thorough=20000,
        shard=60,
    ),
    Facet("wide", check_numeric, "as numeric, 6-7 qubits", wide_case, quick=60, thorough=1500, shard=12),
    Facet("wider", check_wider, "as numeric, 8-11 qubits", wider_case, quick=24, thorough=600, shard=3),
    Facet(
        "index-tuples",
        check_tuple,
        "every ordered tuple of distinct indices up to the bound; non-sorted or gapped",
        cases=tuple_cases,
        shard=150,
        exhaustive=True,
    ),
    Facet(
        "symbolic",
        check_symbolic,
        "circuit with free symbols and >=2 gates",
        sym_case,
        quick=240,
        thorough=4000,
        shard=30,
    ),
    Facet("simulators", check_sim, "native/non-native split with at least one cut", sim_case, quick=700, thorough=14000, shard=60),
    Facet("concat", check_concat, ">=2 gates and different widths", concat_case, quick=500, thorough=8000, shard=60),
    Facet("long", check_long, "17-70 operations, at least two different", long_case, quick=40, thorough=1200, shard=5),
    Facet("basis", check_basis, "asymmetric basis state through >=1 gate", basis_case, quick=300, thorough=5000, shard=60),
    Facet("lookalikes", check_look, "the two gates differ by more than the tolerance", look_case, quick=200, thorough=4000, shard=25),
]
