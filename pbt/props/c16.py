"""C16: time-evolution circuits implement exp(-i t H) term by term, and its derivative."""
import itertools
import math
import random

import numpy as np
import sympy
from hypothesis import strategies as st
from orquestra.quantum.evolution import (
    time_evolution,
    time_evolution_derivatives,
    time_evolution_for_term,
)
from orquestra.quantum.operators import PauliSum

from .. import gens, lib, ops, oracle
from ..core import Facet, require

ASSUMPTIONS = [
    "an imaginary part of 1e-6 or more is non-negligible; parts between 1e-14 and 1e-6 are "
    "not examined",
    "a constant term contributes no gates, i.e. its global phase is dropped",
    "symbolic times are evaluated by binding their symbols afterwards",
    "angles |2 t c| stay below 1e4 (accuracy of double precision trigonometry)",
]

ENV = {"t": 0.7310585, "u": -1.2371}


def time_value(t):
    return float(oracle.eval_expr(t, ENV))


def unitary(circuit, n, symbolic=False):
    """Matrix of a circuit by its public to_unitary, widened to n qubits."""
    if symbolic:
        circuit = circuit.bind({sympy.Symbol(k): v for k, v in ENV.items()})
    w = circuit.n_qubits
    if w > n:
        raise AssertionError("circuit of %d qubits for an operator on %d" % (w, n))
    if not len(circuit.operations):
        return np.eye(2**n, dtype=complex)
    m = lib.num(circuit.to_unitary())
    require(m.shape == (2**w, 2**w), lambda: "matrix of shape %s" % (m.shape,))
    return np.kron(m, np.eye(2 ** (n - w)))


def is_symbolic(t):
    return bool(oracle.expr_symbols(t, set()))


def term_gate(k, c, tau, n):
    """exp(-i tau c P); a constant contributes the identity."""
    if not k:
        return np.eye(2**n, dtype=complex)
    p = oracle.pauli_string(dict(k), n, 1.0)
    return math.cos(tau * c) * np.eye(2**n) - 1j * math.sin(tau * c) * p


def plain(t):
    """(non-identity letters, real coefficient) of a term recipe."""
    c = complex(ops.coeff(t["c"]))
    return [(q, p) for q, p in t["o"] if p != "I"], c


def width(ts):
    return 1 + max([q for t in ts for q, p in t["o"] if p != "I"], default=0)


def tol(ts, t):
    return 1e-8 * (1 + abs(t) * sum(abs(plain(x)[1]) for x in ts))


def check_term(case, ctx):
    r, t = case["term"], case["t"]
    k, c = plain(r)
    n = width([r])
    circuit = time_evolution_for_term(ops.term(r), lib.expr(t))
    if not k:
        require(
            len(circuit.operations) == 0,
            lambda: "constant term %s gives %s" % (r, circuit),
        )
    got = unitary(circuit, n, is_symbolic(t))
    want = term_gate(k, c.real, time_value(t), n)
    require(
        oracle.close(got, want, tol([r], time_value(t))),
        lambda: "exp(-i t H) of %s at t=%s: off by %.3g" % (r, time_value(t), abs(got - want).max()),
    )
    if is_symbolic(t):
        ctx.label("symbolic")
    ctx.nontrivial(len(k) >= 2 and abs(math.sin(time_value(t) * c.real)) > 1e-3)


def check_rejected(case, ctx):
    r = case["term"]
    c = complex(case["re"], case["im"])
    term = ops.term(dict(r, c={"c": [c.real, c.imag]}))
    t = lib.expr(case["t"])
    small = abs(c.imag) < 1e-12
    rest = [ops.term(x) for x in case["rest"]]
    at = case["at"] % (len(rest) + 1)
    h = PauliSum(rest[:at] + [term] + rest[at:])
    calls = [
        ("time_evolution_for_term", lambda: time_evolution_for_term(term, t)),
        ("time_evolution", lambda: time_evolution(h, t, n_steps=case["n"])),
        ("time_evolution_derivatives", lambda: time_evolution_derivatives(h, t, n_steps=case["n"])),
    ]
    if small:  # rounding noise is no reason to refuse
        calls = calls[:2]
    for name, f in calls:
        try:
            out = f()
        except ValueError as e:
            require(not small, lambda: "%s refused the coefficient %s: %s" % (name, c, e))
        else:
            require(
                small, lambda: "%s accepted the term %s with coefficient %s: %s" % (name, r, c, out)
            )
    ctx.label("small" if small else "negative" if c.imag < 0 else "positive")
    ctx.nontrivial(not small and c.real != 0)


def hamiltonian(case):
    if case["one"] and len(case["terms"]) == 1:
        return ops.term(case["terms"][0])
    return ops.psum(case["terms"])


def product(ts, n, t, steps):
    step = np.eye(2**n, dtype=complex)
    for r in ts:
        k, c = plain(r)
        step = term_gate(k, c.real, t / steps, n) @ step
    return np.linalg.matrix_power(step, steps)


def noncommuting(ts):
    ks = [plain(t)[0] for t in ts]
    for a, b in itertools.combinations(ks, 2):
        d = dict(a)
        if sum(1 for q, p in b if q in d and d[q] != p) % 2:
            return True
    return False


def check_sum(case, ctx):
    ts, steps, t = case["terms"], case["n"], case["t"]
    n = width(ts)
    tv = time_value(t)
    kw = {} if steps == 1 and case["default"] else {"n_steps": steps}
    circuit = time_evolution(hamiltonian(case), lib.expr(t), **kw)
    got = unitary(circuit, n, is_symbolic(t))
    want = product(ts, n, tv, steps)
    require(
        oracle.close(got, want, tol(ts, tv)),
        lambda: "%d steps of %s at t=%s: off by %.3g" % (steps, ts, tv, abs(got - want).max()),
    )
    ctx.label("steps=%d" % min(steps, 3))
    ctx.nontrivial(noncommuting(ts) and abs(tv) > 1e-3)


def check_derivative(case, ctx):
    ts, steps, t = case["terms"], case["n"], case["t"]
    n = width(ts)
    tv = time_value(t)
    kw = {} if steps == 1 and case["default"] else {"n_steps": steps}
    circuits, factors = time_evolution_derivatives(hamiltonian(case), lib.expr(t), **kw)
    require(
        len(circuits) == len(factors),
        lambda: "%d circuits, %d factors" % (len(circuits), len(factors)),
    )
    r = np.random.RandomState(case["seed"])
    o = r.normal(size=(2**n, 2**n)) + 1j * r.normal(size=(2**n, 2**n))
    o = o + o.conj().T
    got = np.zeros_like(o)
    for c, f in zip(circuits, factors):
        f = float(f)
        u = unitary(c, n, is_symbolic(t))
        got += f * (u.conj().T @ o @ u)
    # product rule over the reference gates
    u, du = np.eye(2**n, dtype=complex), np.zeros((2**n, 2**n), dtype=complex)
    for _ in range(steps):
        for x in ts:
            k, c = plain(x)
            g = term_gate(k, c.real, tv / steps, n)
            p = oracle.pauli_string(dict(k), n, 1.0) if k else np.zeros_like(g)
            u, du = g @ u, g @ du + (-1j * c.real / steps) * p @ g @ u
    want = du.conj().T @ o @ u + u.conj().T @ o @ du
    scale = (1 + sum(abs(plain(x)[1]) for x in ts)) * np.abs(o).max()
    require(
        oracle.close(got, want, 1e-7 * scale * (1 + abs(tv))),
        lambda: "%d steps of %s at t=%s: derivative off by %.3g of %.3g"
        % (steps, ts, tv, abs(got - want).max(), abs(want).max()),
    )
    ctx.label("steps=%d" % min(steps, 3))
    ctx.nontrivial(abs(want).max() > 1e-3 and (steps > 1 or len(ts) > 1) and noncommuting(ts))


# ------------------------------------------------- many qubits, terms and steps

def run(circuit, psi, n, symbolic, memo):
    """State after a circuit; the gates' own matrices are judged by C02 and C07."""
    if symbolic:
        circuit = circuit.bind({sympy.Symbol(k): v for k, v in ENV.items()})
    if circuit.n_qubits > n:
        raise AssertionError("circuit of %d qubits for an operator on %d" % (circuit.n_qubits, n))
    for o in circuit.operations:
        key = str(o.gate)
        if key not in memo or memo[key][0] != o.gate:
            memo[key] = (o.gate, lib.num(o.gate.matrix))
        psi = oracle.apply_op(psi, memo[key][1], list(o.qubit_indices), n)
    return psi


def evolve(psi, k, angle, n):
    """exp(-i angle P) on a state"""
    out = pauli(psi, k, n)
    return math.cos(angle) * psi - 1j * math.sin(angle) * out


PAULIS = {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def pauli(psi, k, n):
    for q, p in k:
        psi = oracle.apply_op(psi, PAULIS[p], [q], n)
    return psi


def check_wide(case, ctx):
    ts, steps, t = case["terms"], case["n"], case["t"]
    n = max(width(ts), case["width"])
    tv = time_value(t)
    h = hamiltonian(case)
    circuit = time_evolution(h, lib.expr(t), n_steps=steps)
    psi = gens.state(case["seed"], n)
    psi = np.array(psi, dtype=complex) / np.linalg.norm(psi)
    got = run(circuit, psi, n, is_symbolic(t), {})
    want = psi
    for _ in range(steps):
        for r in ts:
            k, c = plain(r)
            if k:
                want = evolve(want, k, tv / steps * c.real, n)
    require(
        oracle.close(got, want, 1e-9 * (1 + abs(tv) * sum(abs(plain(x)[1]) for x in ts))),
        lambda: "%d steps of %s at t=%s: state off by %.3g" % (steps, ts, tv, abs(got - want).max()),
    )
    require(
        ops.m_close(ops.m_of(h), ops.s_model(ts), 1e-9),
        lambda: "the Hamiltonian %s changed to %s" % (ts, h),
    )
    ctx.label("steps>10" if steps > 10 else "terms>10" if len(ts) > 10 else "other")
    ctx.nontrivial(noncommuting(ts) and abs(tv) > 1e-3)


def check_many_derivatives(case, ctx):
    ts, steps, t = case["terms"], case["n"], case["t"]
    n = max(width(ts), case["width"])
    tv = time_value(t)
    circuits, factors = time_evolution_derivatives(hamiltonian(case), lib.expr(t), n_steps=steps)
    require(
        len(circuits) == len(factors),
        lambda: "%d circuits, %d factors" % (len(circuits), len(factors)),
    )
    psi = np.array(gens.state(case["seed"], n), dtype=complex)
    psi = psi / np.linalg.norm(psi)
    r = np.random.RandomState(case["seed"] + 1)
    phi = r.normal(size=(3, 2**n)) + 1j * r.normal(size=(3, 2**n))

    def overlaps(v):
        return phi.conj() @ v

    # observables |phi><phi|
    got, memo = np.zeros(3), {}
    for c, f in zip(circuits, factors):
        got += float(f) * abs(overlaps(run(c, psi, n, is_symbolic(t), memo))) ** 2
    v, dv = psi, np.zeros_like(psi)
    for _ in range(steps):
        for x in ts:
            k, c = plain(x)
            if not k:
                continue
            a = c.real / steps
            v, dv = evolve(v, k, tv * a, n), evolve(dv, k, tv * a, n)
            dv = dv - 1j * a * pauli(v, k, n)
    want = 2 * (overlaps(v).conj() * overlaps(dv)).real
    scale = (1 + sum(abs(plain(x)[1]) for x in ts)) * (1 + 2**n)
    require(
        oracle.close(got, want, 1e-7 * scale * (1 + abs(tv))),
        lambda: "%d steps of %s at t=%s: derivative %s, expected %s" % (steps, ts, tv, got, want),
    )
    ctx.nontrivial(abs(want).max() > 1e-3 and noncommuting(ts))


def check_scales(case, ctx):
    """Tiny coefficients over long times and the reverse."""
    r, x, t = case["term"], case["c"], case["t"]
    k, _ = plain(r)
    n = width([r])
    circuit = time_evolution_for_term(ops.term(dict(r, c=x)), t)
    got = unitary(circuit, n)
    want = term_gate(k, x, t, n)
    require(
        oracle.close(got, want, 1e-8),
        lambda: "exp(-i t c P) of %s, c=%r at t=%r: off by %.3g" % (r, x, t, abs(got - want).max()),
    )
    # the same within a sum, on both sides of its own inverse
    h = PauliSum([ops.term(dict(r, c=x)), ops.term(dict(r, c=-x / 2))])
    got = unitary(time_evolution(h, t, n_steps=case["n"]), n)
    want = term_gate(k, x / 2, t, n)
    require(
        oracle.close(got, want, 1e-8 * case["n"]),
        lambda: "%d steps of %s at t=%r: off by %.3g" % (case["n"], h, t, abs(got - want).max()),
    )
    if k and case["n"] < 4:
        circuits, factors = time_evolution_derivatives(h, t, n_steps=case["n"])
        rs = np.random.RandomState(case["seed"])
        o = rs.normal(size=(2**n, 2**n))
        o = o + o.T
        got = np.zeros((2**n, 2**n), dtype=complex)
        for c, f in zip(circuits, factors):
            u = unitary(c, n)
            got += float(f) * (u.conj().T @ o @ u)
        p = oracle.pauli_string(dict(k), n, 1.0)
        want = 1j * x / 2 * want.conj().T @ (p @ o - o @ p) @ want
        require(
            oracle.close(got, want, 1e-7 * (1 + np.abs(o).max()) * abs(x) * 4),
            lambda: "%d steps of %s at t=%r: derivative off by %.3g of %.3g"
            % (case["n"], h, t, abs(got - want).max(), abs(want).max()),
        )
    ctx.label("tiny" if abs(x) < 1e-3 else "huge" if abs(x) > 1e3 else "plain")
    ctx.nontrivial(bool(k) and abs(math.sin(x * t)) > 1e-3)


# ------------------------------------------------------------------- strategies

times = st.one_of(
    gens.small_floats,
    gens.small_floats,
    st.floats(-30, 30),
    st.sampled_from([0, 0.0, 1, -1, 2, math.pi, -math.pi / 2, math.pi / 4, 1e-3, 50.0]),
    st.integers(-12, 40),
    st.tuples(st.sampled_from(["i", "npi"]), st.integers(-12, 40)).map(list),
    gens.small_floats.map(lambda x: ["np", x]),
    st.just(["s", "t"]),
    st.just(["s", "t"]),
    gens.sym_expr(["t", "u"]),
    st.tuples(st.integers(-5, 5), st.integers(1, 5)).map(lambda x: ["r", x[0], x[1]]),
    st.just(["mul", ["r", 1, 3], ["pi"]]),
).filter(lambda t: abs(time_value(t)) < 100)

real = st.one_of(
    st.integers(-3, 3),
    st.floats(-3, 3).map(lambda x: round(x, 4)),
    st.sampled_from([1.0, -1.0, 0.5, -0.5, 0.0, 0.25, 1e-3, 12.5]),
    st.floats(-2, 2).map(lambda x: {"c": [round(x, 3), 0.0]}),
)
nonzero = real.filter(lambda c: ops.coeff(c) != 0)

FEW_TIMES = [0.0, 0.37, -1.9, math.pi / 2, 3, 5.3, ["s", "t"], ["mul", ["r", 1, 2], ["s", "u"]]]
FEW_COEFFS = [1, -1.0, 0.5, -0.73, 0.0, 2.2]


def all_terms(tier):
    k = 0
    for n in (1, 2, 3):
        for o in ops.all_strings(n):
            if o and max(q for q, _ in o) != n - 1:
                continue  # seen with fewer qubits
            if not o and n > 1:
                continue
            pairs = list(itertools.product(FEW_TIMES, FEW_COEFFS))
            if tier == "quick":  # a rotating eighth of the grid
                pairs = [p for i, p in enumerate(pairs) if i % 8 == k % 8]
            for t, c in pairs:
                yield {"term": {"o": o, "c": c, "form": "dict"}, "t": t}
            k += 1


single = st.fixed_dictionaries(
    {"term": st.one_of(ops.terms(4, real, min_len=2), ops.terms(5, real)), "t": times}
)

rejected = st.fixed_dictionaries(
    {
        "term": st.one_of(ops.terms(3, real), ops.terms(3, real, letters="I")),
        "re": st.one_of(gens.small_floats, st.sampled_from([0.0, 1.0, -1.0])),
        "im": st.one_of(
            st.floats(1e-3, 3),
            st.floats(-3, -1e-3),
            st.sampled_from([1.0, -1.0, 1e-4, -1e-4, 1e-6, -1e-6, 0.0, -0.0, 1e-15, -1e-15]),
        ),
        "t": times,
        "n": st.integers(1, 3),
        "at": st.integers(0, 3),
        "rest": st.lists(ops.terms(3, nonzero), max_size=2),
    }
)


STRINGS = [o for n in (2, 3) for o in ops.all_strings(n) if len(o) > 1]


def dense(coeffs):
    return st.builds(
        lambda o, c, f: {"o": o, "c": c, "form": f},
        st.sampled_from(STRINGS),
        coeffs,
        st.sampled_from(["dict", "iter", "str"]),
    )


def hams(max_q, max_terms, max_steps, coeffs):
    return st.fixed_dictionaries(
        {
            "terms": st.one_of(
                st.lists(dense(nonzero), min_size=2, max_size=max_terms),
                st.lists(dense(nonzero), min_size=2, max_size=max_terms),
                st.lists(ops.terms(max_q, coeffs, min_len=1), min_size=2, max_size=max_terms),
                st.lists(ops.terms(max_q, coeffs), min_size=1, max_size=max_terms),
                # duplicated and constant terms in between
                st.lists(ops.terms(2, coeffs, letters="XZ"), min_size=0, max_size=max_terms),
            ),
            "t": times,
            "n": st.sampled_from(list(range(1, max_steps + 1)) + [2, 3]),
            "one": st.booleans(),
            "default": st.booleans(),
            "seed": gens.seeds,
        }
    )


def rng_hamiltonian(seed, n, k, steps, width):
    rng = random.Random(seed)
    terms = []
    for t in ops.big_terms(rng, k, width=n, max_len=n, complex_=False, lo=-6, hi=0, pool=max(1, k - rng.randint(0, 3))):
        terms.append(t)
        if rng.random() < 0.15:  # nearly the same once more
            terms.append(dict(t, c=t["c"] * rng.choice([1, -1, 1 + 1e-3])))
    t = rng.choice([round(rng.uniform(-3, 3), 3), ["s", "t"], ["mul", ["r", 1, 3], ["pi"]], ["r", rng.randint(-5, 5), 3], ["np", 1.25], rng.randint(-9, 30), ["npi", rng.randint(2, 30)]])
    return {"terms": terms, "t": t, "n": steps, "one": False, "width": width, "seed": rng.randint(0, 10**6)}


def big_hams(shapes, n_max):
    return st.builds(
        lambda seed, shape, n, extra: rng_hamiltonian(seed, n, shape[0], shape[1], n + extra),
        st.integers(0, 10**9),
        st.sampled_from(shapes),
        st.integers(2, n_max),
        st.integers(0, 1),
    )


WIDE = [(1, 60), (2, 33), (3, 17), (10, 3), (12, 4), (30, 1), (17, 2), (5, 9)]
MANY = [(1, 9), (2, 6), (3, 4), (4, 3), (6, 2), (8, 1), (9, 1)]


def rng_scale(seed):
    rng = random.Random(seed)
    n = rng.randint(1, 3)
    o = [[q, rng.choice("XYZ")] for q in rng.sample(range(n), rng.randint(1, n))]
    e = rng.choice([0, rng.randint(-40, 20), rng.randint(-40, 20)])
    x = rng.choice([-1, 1]) * round(rng.uniform(0.5, 3), 3) * 2.0**e
    t = round(rng.uniform(-2, 2), 3) * 2.0**-e
    return {
        "term": {"o": o, "c": 1.0, "form": "dict"},
        "c": x,
        "t": t,
        "n": rng.choice([1, 2, 3, 7]),
        "seed": rng.randint(0, 1000),
    }


scales = st.builds(rng_scale, st.integers(0, 10**9))

FACETS = [
    Facet(
        "all-strings", check_term, ">=2 letters, non-trivial angle", cases=all_terms, quick=1, thorough=1, exhaustive=True
    ),
    Facet("terms", check_term, ">=2 letters, non-trivial angle", single, quick=500, thorough=15000, shard=50),
    Facet("rejected", check_rejected, "non-negligible imaginary part and non-zero real part", rejected, quick=1000, thorough=20000, shard=100),
    Facet("sums", check_sum, "non-commuting terms", hams(3, 4, 5, real), quick=600, thorough=15000, shard=40),
    Facet("derivatives", check_derivative, "non-zero derivative, non-commuting terms", hams(3, 3, 4, real), quick=400, thorough=10000, shard=20),
    Facet("wide", check_wide, "non-commuting terms", big_hams(WIDE, 11), quick=60, thorough=2000, shard=8),
    Facet("derivatives-large", check_many_derivatives, "non-zero derivative, non-commuting terms", big_hams(MANY, 4), quick=50, thorough=1500, shard=7),
    Facet("scales", check_scales, "non-trivial angle", scales, quick=200, thorough=5000, shard=25),
]
