"""C04: every view of a simulated state agrees on which qubit is which."""
import itertools
import math
import random

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import GateOperation
from orquestra.quantum.measurements import (
    Measurements,
    check_parity,
    get_expectation_values_from_parities,
    get_parities_from_measurements,
)
from orquestra.quantum.operators import (
    PauliSum,
    PauliTerm,
    get_expectation_value,
    reverse_qubit_order,
)
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.wavefunction import (
    Wavefunction,
    flip_wavefunction,
    sample_from_wavefunction,
)

from .. import gens, lib, oracle
from .. import ops as po
from ..core import Facet, require

ASSUMPTIONS = [
    "each gate's own matrix is taken from the library (C02/C07 judge it)",
    "sampled frequencies are compared with the exact ones at 8 standard deviations",
    "get_outcome_probs keys are the reversed tuple (the library's little-endian strings)",
]
TOL = 1e-9


class Direct(BaseWavefunctionSimulator):
    """A simulator on the base class whose native engine is the reference one."""

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        s = np.array(initial_state, dtype=complex)
        for o in circuit.operations:
            s = oracle.apply_op(s, lib.num(o.gate.matrix), o.qubit_indices, circuit.n_qubits)
        return s


def ref_psi(case, circ):
    n = circ.n_qubits
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    for o, op in zip(case["ops"], circ.operations):
        if "phase" in o:
            psi = psi * np.exp(1j * np.array([float(oracle.eval_expr(p, {})) for p in o["phase"]]))
        else:
            psi = oracle.apply_op(psi, lib.num(op.gate.matrix), o["q"], n)
    return psi


def eig(qs, bits):
    return (-1) ** sum(bits[q] for q in qs)


def z_average(model, probs, n):
    """Average eigenvalue of a Z-type model under probabilities indexed by basis state."""
    tot = 0
    for k, c in model.items():
        qs = [q for q, _ in k]
        tot += c * sum(probs[i] * eig(qs, oracle.bits(i, n)) for i in range(len(probs)))
    return tot


def check_samples(samples, n, probs, n_samples):
    require(len(samples) >= n_samples, "fewer samples than requested")
    for s in samples:
        require(isinstance(s, tuple), lambda: "sample %r is not a tuple" % (s,))
        require(len(s) == n, lambda: "outcome %r on %d qubits" % (s, n))
        require(all(int(b) in (0, 1) for b in s), lambda: "outcome %r" % (s,))
        require(
            probs[oracle.index([int(b) for b in s])] > 1e-13,
            lambda: "sampled outcome %r has zero probability" % (s,),
        )


def check_frequencies(samples, probs, n):
    """8-sigma agreement of sampled frequencies with exact probabilities."""
    N = len(samples)
    cnt = np.zeros(2**n)
    for s in samples:
        cnt[oracle.index(s)] += 1
    for i, p in enumerate(probs):
        p = min(max(p, 0.0), 1.0)
        bound = 8 * math.sqrt(p * (1 - p) / N) + 30 / N
        require(
            abs(cnt[i] / N - p) <= bound,
            lambda: "frequency of outcome %r is %g, probability %g"
            % (oracle.bits(i, n), cnt[i] / N, p),
        )


def check_measurements(m, samples, n, ops_z):
    """Count strings, empirical distribution and expectation values of measurements."""
    N = len(samples)
    want = {}
    for s in samples:
        k = "".join(str(int(b)) for b in s)
        want[k] = want.get(k, 0) + 1
    require(dict(m.get_counts()) == want, "count strings are not the tuples read in order")
    d = m.get_distribution().distribution_dict
    require(
        {"".join(map(str, k)): v for k, v in d.items()}.keys() == want.keys()
        and all(abs(d[tuple(map(int, k))] - v / N) < 1e-9 for k, v in want.items()),
        "empirical distribution keys / values",
    )
    for ts in ops_z:
        op = po.psum(ts)
        if not op.terms:
            continue
        ev = m.get_expectation_values(op)
        par = get_parities_from_measurements(m.bitstrings, op)
        pev = get_expectation_values_from_parities(par)
        for i, t in enumerate(op.terms):
            qs = [q for q, _ in t.operations]
            mean = sum(eig(qs, s) for s in samples) / N
            require(
                abs(ev.values[i] - t.coefficient * mean) < 1e-8,
                lambda: "expectation value of %s from measurements: %r, sample mean %r"
                % (t, ev.values[i], t.coefficient * mean),
            )
            require(abs(pev.values[i] - mean) < 1e-8, "expectation value from parities")
            even = sum(check_parity(s, qs) for s in samples)
            require(abs(even * 2 / N - 1 - mean) < 1e-8, "check_parity")


def check_views(case, ctx):
    circ = lib.circuit(case)
    n = circ.n_qubits
    psi = ref_psi(case, circ)
    if not abs(np.vdot(psi, psi) - 1) < 1e-8:
        ctx.label("non-unitary")
        return
    probs = np.abs(psi) ** 2
    sims = [SymbolicSimulator(seed=case["seed"]), Direct(seed=case["seed"])]
    zops = [ts for ts in case["z"] if po.psum(ts).n_qubits <= n]
    gops = [ts for ts in case["g"] if po.psum(ts).n_qubits <= n]
    for sim in sims:
        wf = sim.get_wavefunction(circ)
        require(oracle.close(lib.num(wf.amplitudes), psi, TOL), "state vector")
        require(wf.n_qubits == n, "width of the wavefunction")
        require(oracle.close(np.asarray(wf.get_probabilities()), probs, TOL), "probabilities")
        op_probs = wf.get_outcome_probs()
        require(len(op_probs) == 2**n, "number of outcome probabilities")
        for i in range(2**n):
            key = "".join(map(str, oracle.bits(i, n)))[::-1]
            require(
                key in op_probs and abs(op_probs[key] - probs[i]) < TOL,
                lambda: "get_outcome_probs of %r" % key,
            )
        dist = sim.get_measurement_outcome_distribution(circ).distribution_dict
        for i in range(2**n):
            require(
                abs(dist.get(oracle.bits(i, n), 0) - probs[i]) < TOL,
                lambda: "exact distribution of %r" % (oracle.bits(i, n),),
            )
        require(all(len(k) == n for k in dist), "exact outcome length")
        for ts in zops + gops:
            op = po.psum(ts)
            model = po.s_model(ts)
            want = np.vdot(psi, po.m_dense(model, n) @ psi)
            scale = 1 + po.m_l1(model)
            got = get_expectation_value(op, wf)
            require(abs(got - want) < TOL * scale, "get_expectation_value")
            got = sim.get_exact_expectation_values(circ, op)
            require(abs(got - want.real) < TOL * scale, "simulator's exact expectation value")
            got = get_expectation_value(op, flip_wavefunction(wf), reverse_operator=True)
            require(abs(got - want) < TOL * scale, "reversed operator on the flipped state")
            got = get_expectation_value(reverse_qubit_order(op, n), flip_wavefunction(wf))
            require(abs(got - want) < TOL * scale, "reverse_qubit_order on the flipped state")
            if ts in zops:
                avg = sum(
                    p * sum(c * eig([q for q, _ in k], bits) for k, c in model.items())
                    for bits, p in dist.items()
                )
                require(
                    abs(get_expectation_value(op, wf) - avg) < TOL * scale,
                    "exact Z expectation differs from the average over the exact distribution",
                )
                ctx.label("z-op")
        few = max(1, 2**n - case["k"] % 2**n)
        many = 2**n + 1 + case["k"]
        for ns in (few, many):
            ctx.label("few" if ns <= 2**n else "many")
            m = sim.run_and_measure(circ, ns)
            check_samples(m.bitstrings, n, probs, ns)
            check_measurements(m, list(m.bitstrings), n, zops)
            sd = sim.get_measurement_outcome_distribution(circ, ns).distribution_dict
            check_samples(list(sd), n, probs, 1)
        for m, ns in zip(sim.run_batch_and_measure([circ, circ], [few, many]), (few, many)):
            check_samples(m.bitstrings, n, probs, ns)
    asym = not np.allclose(probs, probs.reshape((2,) * n).T.reshape(-1)) if n > 1 else False
    ctx.nontrivial(asym and len(case["ops"]) > 0)
    if any("phase" in o for o in case["ops"]):
        ctx.label("phase-op")


def phase_op(n):
    return st.lists(gens.angles, min_size=2**n, max_size=2**n).map(lambda p: {"phase": p})


def with_ops(circs, maxq=4):
    z = po.sums(maxq, po.nice, 3, letters="Z")
    g = po.sums(maxq, po.nice, 3)
    return st.builds(
        lambda c, zs, gs, k, s: dict(c, z=zs, g=gs, k=k, seed=s),
        circs,
        st.lists(z, min_size=1, max_size=2),
        st.lists(g, max_size=2),
        st.integers(0, 20),
        st.integers(0, 10**6),
    )


views = with_ops(gens.circuits(max_n=4, max_ops=4, extra=phase_op))

# -------------------------------------------------- sampled frequencies, generic state


def check_freq(case, ctx):
    circ = lib.circuit(case)
    n = circ.n_qubits
    psi = ref_psi(case, circ)
    if not abs(np.vdot(psi, psi) - 1) < 1e-8:
        return
    probs = np.abs(psi) ** 2
    sim = SymbolicSimulator(seed=case["seed"])
    m = sim.run_and_measure(circ, 3000)
    check_samples(m.bitstrings, n, probs, 3000)
    check_frequencies(m.bitstrings, probs, n)
    # the few-samples branch, repeated with different seeds
    wf = Wavefunction(psi)
    small = []
    for s in range(400):
        small += sample_from_wavefunction(wf, 2**n - s % 2, seed=1000 * case["seed"] + s)
    check_samples(small, n, probs, 1)
    check_frequencies(small, probs, n)
    small = sample_from_wavefunction(wf, 2**n + 1000, seed=case["seed"])
    check_frequencies(small, probs, n)
    ctx.nontrivial(n > 1 and not np.allclose(probs, probs.reshape((2,) * n).T.reshape(-1), atol=0.05))


freq = st.builds(
    lambda c, s: dict(c, seed=s),
    gens.circuits(min_n=2, max_n=4, min_ops=2, max_ops=5, max_wrap=1),
    st.integers(0, 10**6),
)

# ------------------------------------------------------------- basis states, exhaustive


def basis_cases(tier):
    out = []
    for n in range(1, 6 if tier == "quick" else 8):
        for i in range(2**n):
            out.append({"n": n, "i": i})
    for n, i in [(8, 1), (8, 64), (8, 37), (9, 256), (9, 5)] + (
        [] if tier == "quick" else [(10, 1), (10, 512), (10, 77)]
    ):
        out.append({"n": n, "i": i})
    return out


def basis_circuit(n, i, idle):
    bits = oracle.bits(i, n)
    ops = [{"gate": {"g": "X"}, "q": [q]} for q in range(n) if bits[q]]
    if not idle:
        ops = [{"gate": {"g": "I"}, "q": [n - 1]}] + ops
    return bits, {"n": n if idle else None, "ops": ops}


def check_basis(case, ctx):
    n, i = case["n"], case["i"]
    for idle in (True, False):
        bits, c = basis_circuit(n, i, idle)
        circ = lib.circuit(c)
        deterministic_views(circ, n, bits, SymbolicSimulator(), [1, 2**n, 2**n + 3])
    ctx.nontrivial(bits != bits[::-1])


def deterministic_views(circ, n, bits, sim, counts):
    s = "".join(map(str, bits))
    wf = sim.get_wavefunction(circ)
    require(abs(abs(wf[oracle.index(bits)]) - 1) < 1e-9, "amplitude of the prepared state")
    require(abs(wf.get_outcome_probs()[s[::-1]] - 1) < 1e-9, "get_outcome_probs")
    d = sim.get_measurement_outcome_distribution(circ).distribution_dict
    require(abs(d.get(bits, 0) - 1) < 1e-9, "exact distribution")
    for ns in counts:
        m = sim.run_and_measure(circ, ns)
        require(set(m.bitstrings) == {bits}, lambda: "sampled %r for state %r" % (set(m.bitstrings), bits))
        require(m.get_counts() == {s: len(m.bitstrings)}, "count string")
        require(len(m.bitstrings) >= ns, "number of shots")
    for q in range(n):
        t = PauliTerm({q: "Z"}, 2.5)
        want = 2.5 * (-1) ** bits[q]
        require(abs(sim.get_exact_expectation_values(circ, t) - want) < 1e-8, "exact <Z%d>" % q)
        require(
            abs(m.get_expectation_values(t).values[0] - want) < 1e-8, "measured <Z%d>" % q
        )
        p = get_parities_from_measurements(m.bitstrings, t)
        require(list(p.values[0]) == ([0, len(m.bitstrings)] if bits[q] else [len(m.bitstrings), 0]), "parities")
    if n > 1:
        t = PauliTerm({0: "Z", n - 1: "Z"}, -1.5) + PauliTerm({n - 1: "Z"}, 0.25)
        want = -1.5 * eig([0, n - 1], bits) + 0.25 * eig([n - 1], bits)
        require(abs(sim.get_exact_expectation_values(circ, t) - want) < 1e-8, "exact sum")
        require(abs(sum(m.get_expectation_values(t).values) - want) < 1e-8, "measured sum")


# -------------------------------------- reversible circuits: classical bit model of gates


def check_reversible(case, ctx):
    n = case["n"]
    b = [0] * n
    ops = []
    for kind, qs in case["ops"]:
        if kind == "X":
            b[qs[0]] ^= 1
            ops.append({"gate": {"g": "X"}, "q": qs[:1]})
        elif kind == "CNOT":
            b[qs[1]] ^= b[qs[0]]
            ops.append({"gate": {"g": "CNOT"}, "q": qs[:2]})
        elif kind == "SWAP":
            b[qs[0]], b[qs[1]] = b[qs[1]], b[qs[0]]
            ops.append({"gate": {"g": "SWAP"}, "q": qs[:2]})
        elif kind == "CCX":
            b[qs[2]] ^= b[qs[0]] & b[qs[1]]
            ops.append({"gate": {"w": "ctrl", "k": 2, "of": {"g": "X"}}, "q": qs[:3]})
        elif kind == "CSWAP":
            if b[qs[0]]:
                b[qs[1]], b[qs[2]] = b[qs[2]], b[qs[1]]
            ops.append({"gate": {"w": "ctrl", "k": 1, "of": {"g": "SWAP"}}, "q": qs[:3]})
        elif kind == "ISWAP":
            b[qs[0]], b[qs[1]] = b[qs[1]], b[qs[0]]
            ops.append({"gate": {"g": "ISWAP"}, "q": qs[:2]})
        else:  # RX(pi)
            b[qs[0]] ^= 1
            ops.append({"gate": {"g": "RX", "p": [math.pi]}, "q": qs[:1]})
    circ = lib.circuit({"n": n, "ops": ops})
    for sim in (SymbolicSimulator(seed=1), Direct(seed=1)):
        deterministic_views(circ, n, tuple(b), sim, [case["k"], 2**n + case["k"]])
    ctx.nontrivial(sum(b) and tuple(b) != tuple(b[::-1]))
    ctx.label("n=%d" % n)


@st.composite
def reversible(draw):
    n = draw(st.integers(3, 6))
    kinds = st.sampled_from(["X", "X", "CNOT", "SWAP", "CCX", "CSWAP", "ISWAP", "RX"])
    ops = draw(st.lists(st.tuples(kinds, gens.qubits(3, n)).map(list), min_size=2, max_size=7))
    return {"n": n, "ops": ops, "k": draw(st.integers(1, 9))}


# ------------------------------------ one rotated qubit per register, every (n, q, shots)


def rot_cases(tier):
    out = []
    for n in range(1, 5 if tier == "quick" else 6):
        for q in range(n):
            for ns in sorted({1, 2, 2**n - 1, 2**n, 2**n + 1, 2 ** (n + 1), 50}):
                if ns > 0:
                    out.append({"n": n, "q": q, "ns": ns})
    return out


def check_rot(case, ctx):
    n, q, ns = case["n"], case["q"], case["ns"]
    ang = 2 * math.asin(math.sqrt(0.8))
    circ = lib.circuit({"n": n, "ops": [{"gate": {"g": "RY", "p": [ang]}, "q": [q]}]})
    sim = SymbolicSimulator(seed=5)
    for p in range(n):
        want = 1 - 2 * 0.8 if p == q else 1
        got = sim.get_exact_expectation_values(circ, PauliTerm({p: "Z"}))
        require(abs(got - want) < 1e-8, "exact single-qubit expectation")
    tot = []
    for s in range(-(-1500 // ns)):
        sim = SymbolicSimulator(seed=s)
        m = sim.run_and_measure(circ, ns)
        require(all(len(b) == n and isinstance(b, tuple) for b in m.bitstrings), "outcome length")
        require(
            all(not v for b in m.bitstrings for p, v in enumerate(b) if p != q),
            "an idle qubit was measured as 1",
        )
        tot += [b[q] for b in m.bitstrings]
        for p in range(n):
            ev = m.get_expectation_values(PauliTerm({p: "Z"})).values[0]
            mean = 1 - 2 * sum(b[p] for b in m.bitstrings) / len(m.bitstrings)
            require(abs(ev - mean) < 1e-9, "expectation from measurements")
        if s > 60:
            break
    sig = math.sqrt(0.16 / len(tot))
    require(abs(sum(tot) / len(tot) - 0.8) < 8 * sig, "marginal of the rotated qubit")
    ctx.nontrivial(n > 1)


# -------------------------------------------------------------- the register without qubits


def check_empty(case, ctx):
    circ = lib.circuit({"n": 0, "ops": []})
    sim = SymbolicSimulator(seed=0)
    wf = sim.get_wavefunction(circ)
    require(len(wf) == 1 and abs(wf[0] - 1) < 1e-12, "state")
    m = sim.run_and_measure(circ, case["ns"])
    require(m.bitstrings == [()] * case["ns"], lambda: "outcomes %r on no qubits" % (m.bitstrings,))
    require(dict(m.get_counts()) == {"": case["ns"]}, "counts")
    d = sim.get_measurement_outcome_distribution(circ).distribution_dict
    require(list(d) == [()] and abs(d[()] - 1) < 1e-12, "exact distribution")
    t = PauliTerm({}, 1.5)
    require(abs(sim.get_exact_expectation_values(circ, t) - 1.5) < 1e-12, "constant")
    ctx.nontrivial()

# ------------------------------------------------------- wide registers, many terms


def model_average(model, psi, n):
    tot = 0
    for k, c in model.items():
        v = psi
        for q, p in k:
            v = oracle.apply_op(v, oracle.PAULI[p], [q], n)
        tot += c * np.vdot(psi, v)
    return tot


def wide_state(case, rng):
    n = case["n"]
    if case["kind"] == "dense":
        return gens.state(case["seed"], n)
    if case["kind"] == "product":
        psi = np.ones(1, dtype=complex)
        for q in range(n):
            a = rng.uniform(0, 3.1)
            psi = np.kron(psi, [math.cos(a / 2), np.exp(1j * rng.uniform(0, 6)) * math.sin(a / 2)])
        return psi
    psi = np.zeros(2**n, dtype=complex)  # a few basis states
    for _ in range(rng.randint(1, 6)):
        psi[rng.randrange(2**n)] = complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) + 2
    return psi / np.linalg.norm(psi)


def check_wide(case, ctx):
    rng = random.Random(case["seed"])
    n = case["n"]
    psi = wide_state(case, rng)
    probs = np.abs(psi) ** 2
    wf = Wavefunction(psi)
    require(wf.n_qubits == n, "width of the wavefunction")
    keys = [format(i, "0%db" % n) for i in range(2**n)]
    got = wf.get_outcome_probs()
    require(len(got) == 2**n, "number of outcome probabilities")
    require(
        max(abs(got[k[::-1]] - p) for k, p in zip(keys, probs)) < TOL, "get_outcome_probs"
    )
    require(oracle.close(np.asarray(wf.get_probabilities()), probs, TOL), "get_probabilities")
    flipped = flip_wavefunction(wf)
    for letters in ("Z", "XYZ"):
        ts = po.big_terms(rng, case["terms"], width=n, max_len=case["len"], complex_=False)
        if letters == "Z":
            ts = [dict(t, o=[[q, "Z"] for q, _ in t["o"]]) for t in ts]
        ts.append({"o": [[n - 1, "Z"]], "c": 1.0})
        op, model = po.psum(ts), po.s_model(ts)
        want = model_average(model, psi, n)
        scale = 1 + po.m_l1(model)
        require(abs(get_expectation_value(op, wf) - want) < TOL * scale, "get_expectation_value")
        v = get_expectation_value(op, flipped, reverse_operator=True)
        require(abs(v - want) < TOL * scale, "reversed operator on the flipped state")
        v = get_expectation_value(reverse_qubit_order(op, n), flipped)
        require(abs(v - want) < TOL * scale, "reverse_qubit_order on the flipped state")
        if letters == "Z":
            zs = op
            idx = np.arange(2**n)
            avg = 0
            for k, c in model.items():
                sign = np.ones(2**n)
                for q, _ in k:
                    sign = sign * (1 - 2.0 * (idx >> (n - 1 - q) & 1))
                avg += c * (sign * probs).sum()
            require(abs(avg - want) < 1e-9 * scale, "oracle")
    for ns in (1, case["shots"], 2**n + 5):
        samples = sample_from_wavefunction(wf, ns, seed=case["seed"])
        check_samples(samples, n, probs, ns)
        if ns > 2**n:
            for q in range(n):
                p1 = min(1.0, probs.reshape(2**q, 2, -1)[:, 1].sum())
                f1 = sum(b[q] for b in samples) / len(samples)
                require(
                    abs(p1 - f1) <= 8 * math.sqrt(p1 * (1 - p1) / len(samples)) + 30 / len(samples),
                    lambda: "sampled marginal of qubit %d is %g, probability %g" % (q, f1, p1),
                )
        few = samples[: case["shots"]]
        check_measurements(Measurements(few), few, n, [ts for ts in [zlist(zs)]])
    if case["ops"]:
        sub = list(range(n))
        circ = {"n": n, "ops": []}
        for g, k, p in case["ops"]:
            circ["ops"].append(
                {"gate": {"g": g, "p": p} if p else {"g": g}, "q": rng.sample(sub, k)}
            )
        c = lib.circuit(circ)
        want = np.zeros(2**n, dtype=complex)
        want[0] = 1
        for o, op in zip(circ["ops"], c.operations):
            want = oracle.apply_op(want, lib.num(op.gate.matrix), o["q"], n)
        sim = Direct(seed=1) if case["direct"] else SymbolicSimulator(seed=1)
        w = sim.get_wavefunction(c)
        require(oracle.close(lib.num(w.amplitudes), want, TOL), "state vector")
        d = sim.get_measurement_outcome_distribution(c).distribution_dict
        require(
            all(abs(d.get(oracle.bits(i, n), 0) - abs(want[i]) ** 2) < TOL for i in range(2**n)),
            "exact distribution",
        )
        v = sim.get_exact_expectation_values(c, zs)
        model = po.m_of(zs)
        require(
            abs(v - model_average(model, want, n).real) < TOL * (1 + po.m_l1(model)),
            "simulator's exact expectation value",
        )
        m = sim.run_and_measure(c, 50)
        check_samples(m.bitstrings, n, np.abs(want) ** 2, 50)
        check_measurements(m, list(m.bitstrings), n, [zlist(zs)])
    ctx.label("n=%d" % n)
    ctx.nontrivial(case["kind"] != "sparse" or np.count_nonzero(psi) > 1)


def zlist(op):
    return [{"o": [list(x) for x in t.operations], "c": t.coefficient.real} for t in op.terms]


wide = st.builds(
    lambda n, k, s, t, ln, ns, ops, d: {
        "n": n, "kind": k, "seed": s, "terms": t, "len": ln, "shots": ns, "ops": ops if n < 11 else [], "direct": d,
    },
    st.sampled_from([5, 6, 7, 8, 9, 10, 11, 12]),
    st.sampled_from(["dense", "product", "sparse"]),
    st.integers(0, 10**6),
    st.sampled_from([1, 5, 9, 17, 25]),
    st.sampled_from([1, 3, 8, 12]),
    st.sampled_from([1, 3, 17, 40, 120]),
    st.lists(
        st.sampled_from([["X", 1, []], ["H", 1, []], ["RY", 1, [0.7]], ["CNOT", 2, []], ["SWAP", 2, []], ["XX", 2, [1.1]], ["T", 1, []]]),
        max_size=4,
    ),
    st.booleans(),
)


# --------------------------------------- one simulator, several circuits which look alike


def check_shared(case, ctx):
    """What a simulator says of a circuit cannot depend on what it was asked before."""
    n = case["n"]
    circs, psis, mats = [], [], []
    for c in case["circuits"]:
        c = {"n": n, "ops": c}
        circ = lib.circuit(c)
        psi = ref_psi(c, circ)
        ms = [(lib.num(op.gate.matrix), op.qubit_indices) for op in circ.operations]
        if not all(oracle.close(m @ m.conj().T, np.eye(len(m)), 1e-9) for m, _ in ms):
            ctx.label("non-unitary")
            return
        circs.append(circ)
        psis.append(psi)
        mats.append(ms)
    sims = [SymbolicSimulator(seed=case["seed"]), Direct(seed=case["seed"])]
    models = [po.s_model(ts) for ts in case["ops"]]
    seen = set()
    asked = [
        (s, i)
        for s in case["steps"]
        for i in (range(len(circs)) if s["all"] else [s["c"] % len(circs)])
    ]
    for step, i in asked:
        do = step["do"]
        circ, psi, sim = circs[i], psis[i], sims[step["sim"]]
        probs = np.abs(psi) ** 2
        ns = max(1, 2**n + step["k"] - 4)
        if do == "state":
            got = sim.get_wavefunction(circ)
            require(oracle.close(lib.num(got.amplitudes), psi, TOL), lambda: "state of %s" % circ)
        elif do == "from":
            start = gens.state(step["k"] + 1, n)
            want = start
            for m, q in mats[i]:
                want = oracle.apply_op(want, m, q, n)
            got = sim.get_wavefunction(circ, start)
            require(oracle.close(lib.num(got.amplitudes), want, TOL), lambda: "%s from a given state" % circ)
        elif do == "exact":
            d = sim.get_measurement_outcome_distribution(circ).distribution_dict
            for b in range(2**n):
                require(
                    abs(d.get(oracle.bits(b, n), 0) - probs[b]) < TOL,
                    lambda: "exact distribution of %s" % circ,
                )
        elif do == "value":
            j = step["k"] % len(models)
            want = np.vdot(psi, po.m_dense(models[j], n) @ psi).real
            got = sim.get_exact_expectation_values(circ, po.psum(case["ops"][j]))
            require(
                abs(got - want) < TOL * (1 + po.m_l1(models[j])),
                lambda: "value of %s in the state of %s: %r, expected %r" % (po.psum(case["ops"][j]), circ, got, want),
            )
        elif do == "sample":
            check_samples(sim.run_and_measure(circ, ns).bitstrings, n, probs, ns)
        elif do == "empirical":
            check_samples(list(sim.get_measurement_outcome_distribution(circ, ns).distribution_dict), n, probs, 1)
        else:
            order = [(i + k) % len(circs) for k in range(3)]
            for k, m in zip(order, sim.run_batch_and_measure([circs[k] for k in order], ns)):
                check_samples(m.bitstrings, n, np.abs(psis[k]) ** 2, ns)
        seen.add(i)
        ctx.label(do)
    differ = any(abs(abs(np.vdot(a, b)) - 1) > 1e-3 for a in psis for b in psis)
    ctx.nontrivial(len(seen) > 1 and differ)


@st.composite
def shared(draw):
    n = draw(st.integers(1, 3))
    base = draw(gens.circuits(n, n, 3, max_wrap=1))["ops"]
    pool = [base]
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.sampled_from(["look", "look", "drop", "swap", "own"]))
        if how == "look":
            l = draw(gens.lookalikes().filter(lambda l: l["n"] <= n and l["gap"] > 1e-3))
            q = list(draw(st.permutations(range(n))))[: l["n"]]
            at = draw(st.integers(0, len(base)))
            for r in l["pair"]:
                pool.append(base[:at] + [{"gate": r, "q": q}] + base[at:])
        elif how == "drop" and base:
            pool.append(base[:-1] if draw(st.booleans()) else base[1:])
        elif how == "swap":
            p = list(draw(st.permutations(range(n))))
            pool.append([dict(o, q=[p[x] for x in o["q"]]) for o in base])
        else:
            pool.append(draw(gens.circuits(n, n, 3, max_wrap=1))["ops"])
    step = st.fixed_dictionaries(
        {
            "do": st.sampled_from(["state", "from", "exact", "value", "value", "sample", "empirical", "batch"]),
            "c": st.integers(0, 11),
            "k": st.integers(0, 8),
            "sim": st.sampled_from([0, 0, 1]),
            "all": st.booleans(),
        }
    )
    return {
        "n": n,
        "circuits": pool,
        "ops": draw(st.lists(po.sums(n, po.nice, 3), min_size=1, max_size=3)),
        "steps": draw(st.lists(step, min_size=3, max_size=9)),
        "seed": draw(st.integers(0, 1000)),
    }


FACETS = [
    Facet("shared", check_shared, "two circuits of different states used in turn", shared(), quick=200, thorough=6000, shard=20),
    Facet("views", check_views, "exact distribution not invariant under qubit reversal", views, quick=500, thorough=12000, shard=40),
    Facet("frequencies", check_freq, "distribution differs from its reversal by > 0.05", freq, quick=120, thorough=2500, shard=15),
    Facet("basis", check_basis, "basis state not a palindrome", cases=basis_cases, shard=8, exhaustive=True),
    Facet("reversible", check_reversible, "final bits set and not a palindrome", reversible(), quick=240, thorough=5000, shard=30),
    Facet("rotated-qubit", check_rot, ">1 qubit", cases=rot_cases, shard=8, exhaustive=True),
    Facet("no-qubits", check_empty, "always", cases=lambda t: [{"ns": 1}, {"ns": 2}, {"ns": 5}], exhaustive=True),
    Facet("wide", check_wide, "5-12 qubits, more than one basis state", wide, quick=60, thorough=2500, shard=8),
]
