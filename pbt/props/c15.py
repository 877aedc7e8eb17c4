"""C15: estimation returns one correctly weighted result per task, in task order."""
import random
from collections import Counter

import numpy as np
import sympy
from hypothesis import strategies as st
from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.estimation import (
    calculate_exact_expectation_values,
    estimate_expectation_values_by_averaging,
    evaluate_estimation_circuits,
    evaluate_non_measured_estimation_tasks,
    split_estimation_tasks_to_measure,
)
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.runners import MeasurementTrackingBackend, SymbolicSimulator

from .. import gens, lib, ops, oracle
from ..core import Facet, HarnessError, Skip, require

ASSUMPTIONS = [
    "operators have real coefficients and act on qubits of the task's circuit",
    "a task is zero-shot when its number of shots is 0; an unspecified number of shots (None) "
    "occurs on constant operators and in exact evaluation only",
    "one symbol map per task is given to evaluate_estimation_circuits",
    "the correlations and covariances of a measured task are those of its own shots "
    "(<c_i Z_i c_j Z_j>, covariance of the means)",
]


class Recorder(BaseCircuitRunner):
    """Returns arbitrary shots (at least as many as asked) and remembers them."""

    def __init__(self, seed, extra):
        super().__init__()
        self.r, self.extra, self.log = np.random.RandomState(seed), extra, []

    def _run_and_measure(self, circuit, n_samples):
        p = self.r.uniform(size=circuit.n_qubits)
        shots = [
            tuple(int(b) for b in self.r.uniform(size=circuit.n_qubits) < p)
            for _ in range(n_samples + self.extra)
        ]
        self.log.append((circuit, n_samples, shots))
        return Measurements(list(shots))


class Basis(BaseCircuitRunner):
    """Ideal hardware: every shot is the basis state the circuit prepares."""

    def __init__(self, table):
        super().__init__()
        self.table = table

    def _run_and_measure(self, circuit, n_samples):
        for c, bits in self.table:
            if c == circuit:
                return Measurements([bits] * n_samples)
        raise HarnessError("unknown circuit")


class Dense(BaseWavefunctionSimulator):
    """Simulator built on the reference gate matrices."""

    def __init__(self, native):
        super().__init__(seed=3)
        self.native = native

    def is_natively_supported(self, operation):
        return self.native == "all" or len(operation.qubit_indices) == 1

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        state = np.asarray(initial_state, dtype=complex)
        for op in circuit.operations:
            m = lib.num(op.gate.matrix)
            state = oracle.apply_op(state, m, op.qubit_indices, circuit.n_qubits)
        return state


def make_operator(o):
    if o["one"] and len(o["t"]) == 1:
        return ops.term(o["t"][0])
    return ops.psum(o["t"])


def used(o):
    return [[(q, p) for q, p in t["o"] if p != "I"] for t in o["t"]]


def constant(o):
    return not any(used(o))


def clip(o, n):
    """Keep the operator on the circuit's qubits."""
    out = []
    for t in o["t"]:
        seen, keep = set(), []
        for q, p in t["o"]:
            if n and q % n not in seen:
                seen.add(q % n)
                keep.append([q % n, p])
        out.append(dict(t, o=keep))
    return dict(o, t=out)


def real_scalar(x):
    x = complex(x)
    require(abs(x.imag) <= 1e-12, lambda: "value %s is not real" % x)
    return x.real


def reference_state(c, n):
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    for o in c["ops"]:
        psi = oracle.apply_op(psi, lib.ref_gate_matrix(o["gate"]), o["q"], n)
    return psi


def basis_bits(c):
    n = c["n"]
    psi = reference_state(c, n)
    k = int(np.argmax(abs(psi)))
    if abs(abs(psi[k]) - 1) > 1e-9:
        raise HarnessError("not a basis state")
    return tuple((k >> (n - 1 - q)) & 1 for q in range(n))


def tasks_of(case):
    out = []
    for t in case["tasks"]:
        c = case["circuits"][t["c"] % len(case["circuits"])]
        o = clip(t["o"], c["n"])
        shots = t["shots"]
        if shots is None and not constant(o):
            shots = 1
        # unmeasured tasks may well have circuits which cannot run
        sym = t["sym"] and (constant(o) or shots == 0)
        out.append((c, o, shots, sym))
    return out


def build_tasks(spec):
    tasks, made = [], {}
    for k, (c, o, shots, sym) in enumerate(spec):
        # tasks often share the very same circuit and operator objects
        key = str(c)
        if key not in made or k % 3 == 2:
            made[key] = lib.circuit(c)
        circ = made[key]
        if sym:
            circ = circ + lib.op({"gate": {"g": "RX", "p": [["s", "theta"]]}, "q": [0]})
        key = "o" + str(o)
        if key not in made or k % 4 == 3:
            made[key] = make_operator(o)
        tasks.append(EstimationTask(made[key], circ, shots))
    return tasks


def kind_of(o, shots):
    return "constant" if constant(o) else "zero-shot" if shots == 0 else "measured"


def check_kinds(case, ctx, spec):
    kinds = [kind_of(o, s) for _, o, s, _ in spec]
    for k in set(kinds):
        ctx.label(k)
    order = "".join(k[0] for k in kinds)
    ctx.nontrivial(len(set(kinds)) >= 2 and order != "".join(sorted(order)))
    return kinds


def check_values(i, o, kind, ev, per_term, what):
    """per_term: reference mean of each Pauli string over the shots."""
    v = np.asarray(ev.values)
    if kind != "measured":
        want = sum(ops.coeff(t["c"]) for t in o["t"]) if kind == "constant" else 0.0
        require(
            v.shape == (1,) and abs(complex(v[0]) - want) <= 1e-12 * max(1, abs(want)),
            lambda: "%s: task %d (%s) estimated to %s, expected %s" % (what, i, kind, v, want),
        )
        return
    require(v.shape == (len(o["t"]),), lambda: "%s: task %d: %d values" % (what, i, len(v)))
    for x, t, m in zip(v, o["t"], per_term):
        c = ops.coeff(t["c"])
        x = real_scalar(x)
        require(
            abs(x - c * m) <= 1e-9 * max(1, abs(c)),
            lambda: "%s: task %d, term %s: estimated %r, expected %r" % (what, i, t, x, c * m),
        )


def runner_for(case, spec, ctx):
    k = case["runner"]
    if k == "symbolic":
        return SymbolicSimulator(seed=case["seed"])
    if k == "tracker":
        return MeasurementTrackingBackend(
            SymbolicSimulator(seed=case["seed"]), ctx.path("t.json"), record_bitstrings=False
        )
    if k in ("all", "single"):
        return Dense(k)
    return Basis([(lib.circuit(c), basis_bits(c)) for c, _, _, _ in spec])


def check_basis(case, ctx):
    spec = tasks_of(case)
    tasks = build_tasks(spec)
    kinds = check_kinds(case, ctx, spec)
    runner = runner_for(case, spec, ctx)
    for again in range(2 if case["twice"] else 1):
        out = estimate_expectation_values_by_averaging(
            runner, tuple(tasks) if case["as"] == "tuple" else list(tasks)
        )
        require(
            isinstance(out, list) and len(out) == len(tasks),
            lambda: "%d results for %d tasks" % (len(out), len(tasks)),
        )
        for i, ((c, o, shots, _), kind, ev) in enumerate(zip(spec, kinds, out)):
            bits = basis_bits(c)
            means = [(-1) ** sum(bits[q] for q, _ in u) for u in used(o)]
            check_values(i, o, kind, ev, means, "basis state %s, %s shots" % (bits, shots))
            if kind == "measured" and ev.correlations is not None:
                want = np.outer(ev.values, ev.values)
                require(
                    len(ev.correlations) == 1
                    and oracle.close(np.asarray(ev.correlations[0]), want, 1e-9 * max(1, abs(want).max())),
                    lambda: "task %d: correlations %s of %s" % (i, ev.correlations, ev.values),
                )


def check_averaging(case, ctx):
    spec = tasks_of(case)
    tasks = build_tasks(spec)
    kinds = check_kinds(case, ctx, spec)
    runner = Recorder(case["seed"], case["extra"])
    out = estimate_expectation_values_by_averaging(runner, list(tasks))
    require(len(out) == len(tasks), lambda: "%d results for %d tasks" % (len(out), len(tasks)))
    measured = [(i, s) for i, s in enumerate(spec) if kinds[i] == "measured"]
    for i, ev in enumerate(out):
        if kinds[i] != "measured":
            check_values(i, spec[i][1], kinds[i], ev, None, "averaging")
    # the log may be in any order: tasks with the same circuit and shots are told apart by
    # matching results to the runs made for that circuit and number of shots
    pools = {}
    for c, n, shots in runner.log:
        pools.setdefault((str(c), n), []).append(shots)
    need = Counter((str(lib.circuit(c)), s) for _, (c, _, s, _) in measured)
    for key, k in need.items():
        require(
            len(pools.get(key, [])) >= k,
            lambda: "%d runs of %s with %d shots for %d tasks" % (len(pools.get(key, [])), *key, k),
        )
    for i, (c, o, shots, _) in measured:
        pool = pools[str(lib.circuit(c)), shots]
        best = None
        for p in pool:  # runs for equal requests come in task order
            try:
                check_one(i, o, out[i], p)
                best = p
                break
            except Exception as e:
                best = best or e
        if isinstance(best, Exception):
            raise best
        pool.remove(best)


def check_one(i, o, ev, shots):
    z = [
        np.array([(-1) ** sum(b[q] for q, _ in u) for b in shots], dtype=float) for u in used(o)
    ]
    check_values(i, o, "measured", ev, [x.mean() for x in z], "averaging")
    c = np.array([float(ops.coeff(t["c"])) for t in o["t"]])
    y = np.array(z) * c[:, None]
    corr = y @ y.T / len(shots)
    mean = y.mean(axis=1)
    cov = (corr - np.outer(mean, mean)) / len(shots)
    tol = 1e-9 * max(1, abs(corr).max())
    if ev.correlations is not None:
        require(
            len(ev.correlations) == 1 and oracle.close(np.asarray(ev.correlations[0]), corr, tol),
            lambda: "task %d: correlations %s, expected %s" % (i, ev.correlations, corr),
        )
    if ev.estimator_covariances is not None:
        require(
            len(ev.estimator_covariances) == 1
            and oracle.close(np.asarray(ev.estimator_covariances[0]), cov, tol),
            lambda: "task %d: covariances %s, expected %s" % (i, ev.estimator_covariances, cov),
        )


def check_split(case, ctx):
    spec = tasks_of(case)
    tasks = build_tasks(spec)
    kinds = check_kinds(case, ctx, spec)
    measure, rest, im, ir = split_estimation_tasks_to_measure(list(tasks))
    require(
        sorted(list(im) + list(ir)) == list(range(len(tasks))),
        lambda: "indices %s and %s of %d tasks" % (im, ir, len(tasks)),
    )
    for group, idx, names in ((measure, im, ["measured"]), (rest, ir, ["constant", "zero-shot"])):
        require(len(group) == len(idx), lambda: "%d tasks, indices %s" % (len(group), idx))
        for t, i in zip(group, idx):
            require(t == tasks[i], lambda: "task %d became %s" % (i, t))
            require(kinds[i] in names, lambda: "task %d (%s) is with the %s" % (i, kinds[i], names))
    out = evaluate_non_measured_estimation_tasks(rest)
    require(len(out) == len(rest), "number of results")
    for i, ev in zip(ir, out):
        check_values(i, spec[i][1], kinds[i], ev, None, "unmeasured")
    if measure:
        try:
            evaluate_non_measured_estimation_tasks(measure)
        except Exception:
            pass
        else:
            require(False, "tasks which need shots were evaluated without measuring")


# ------------------------------------------------------------------ exact values


def check_exact(case, ctx):
    tasks, want, made = [], [], {}
    for t in case["tasks"]:
        c = case["circuits"][t["c"] % len(case["circuits"])]
        n = c["n"]
        o = clip(t["o"], n)
        psi = reference_state(c, n)
        h = ops.m_dense(ops.s_model(o["t"]), n)
        want.append((psi.conj() @ h @ psi, 1 + ops.m_l1(ops.s_model(o["t"]))))
        if str(c) not in made or t["shots"] == 10:
            made[str(c)] = lib.circuit(c)
        tasks.append(EstimationTask(make_operator(o), made[str(c)], t["shots"]))
    sim = Dense(case["runner"]) if case["runner"] in ("all", "single") else SymbolicSimulator()
    with lib.limit(20, ctx):
        out = calculate_exact_expectation_values(sim, tasks)
        direct = [sim.get_exact_expectation_values(t.circuit, t.operator) for t in tasks]
    require(len(out) == len(tasks), lambda: "%d results for %d tasks" % (len(out), len(tasks)))
    for i, (ev, d, (w, scale)) in enumerate(zip(out, direct, want)):
        v = np.asarray(ev.values)
        require(v.size == 1, lambda: "task %d: values %s" % (i, v))
        for x in (v.ravel()[0], d):
            require(
                abs(real_scalar(x) - w.real) <= 1e-8 * scale,
                lambda: "task %d: exact value %s, expected %s" % (i, x, w.real),
            )
    off = any(
        p in "XY" for t in case["tasks"] for s in t["o"]["t"] for _, p in s["o"]
    )
    ctx.nontrivial(len(tasks) >= 2 and off and len({round(w.real, 6) for w, _ in want}) >= 2)


# ---------------------------------------------------------------------- binding


def check_bind(case, ctx):
    tasks, maps, made = [], [], {}
    for i, t in enumerate(case["tasks"]):
        o = t["o"]
        j = t["c"] % len(case["circuits"])
        if j not in made or not t["share"]:
            made[j] = lib.circuit(case["circuits"][j])
        else:
            ctx.label("shared")
        tasks.append(EstimationTask(make_operator(o), made[j], t["shots"]))
        maps.append({sympy.Symbol(k): v for k, v in t["map"]})
    out = evaluate_estimation_circuits(list(tasks), [dict(m) for m in maps])
    require(len(out) == len(tasks), lambda: "%d tasks from %d" % (len(out), len(tasks)))
    changed = 0
    for i, (a, b, m, t) in enumerate(zip(tasks, out, maps, case["tasks"])):
        require(isinstance(b, EstimationTask), "a task")
        require(b.operator == a.operator, lambda: "task %d: operator %s" % (i, b.operator))
        require(
            b.number_of_shots == a.number_of_shots,
            lambda: "task %d: %s shots, had %s" % (i, b.number_of_shots, a.number_of_shots),
        )
        require(
            b.circuit.n_qubits == a.circuit.n_qubits
            and len(b.circuit.operations) == len(a.circuit.operations),
            lambda: "task %d: circuit %s" % (i, b.circuit),
        )
        free = set(map(str, a.circuit.free_symbols)) - set(map(str, m))
        require(
            set(map(str, b.circuit.free_symbols)) <= free,
            lambda: "task %d: free symbols %s, not among %s" % (i, b.circuit.free_symbols, free),
        )
        env = {str(k): float(v) for k, v in m.items()}
        rest = {s: 0.3 + 0.1 * j for j, s in enumerate(gens.SYMS) if s not in env}
        recipe = case["circuits"][t["c"] % len(case["circuits"])]
        for k, (o, bo) in enumerate(zip(recipe["ops"], b.circuit.operations)):
            require(tuple(bo.qubit_indices) == tuple(o["q"]), lambda: "task %d: operation %s" % (i, bo))
            full = {**env, **rest}
            params = lib.base(o["gate"]).get("p") or []
            if any(abs(oracle.eval_expr(p, full)) > 1e4 for p in params):
                raise Skip()  # angles beyond the accuracy of their trigonometry
            want = lib.ref_gate_matrix(o["gate"], full)
            got = lib.subs_num(bo.gate.matrix, rest)
            require(
                oracle.close(got, want, 1e-7),
                lambda: "task %d, operation %d: bound to %s with %s" % (i, k, bo, m),
            )
        require(
            a.circuit == lib.circuit(recipe), lambda: "task %d: its own circuit changed" % i
        )
        changed += bool(set(map(str, a.circuit.free_symbols)) & set(env))
    ctx.nontrivial(changed >= 2)


# ------------------------------------------------------------------- strategies

PERM = ["X", "Y", "Z", "S", "T", "I", "GPi", "PHASE", "RZ", "Delay"]
PERM2 = ["CNOT", "CNOT", "CZ", "SWAP", "ISWAP", "CPHASE", "ZZ"]


@st.composite
def perm_op(draw, n):
    if n == 1 or draw(st.booleans()):
        g = draw(st.sampled_from(["X", "X", "flip", *PERM]))
        if g == "flip":
            r = {"g": draw(st.sampled_from(["RX", "RY"])), "p": [draw(st.sampled_from([gens.PI, -gens.PI, 3 * gens.PI, 2 * gens.PI]))]}
        else:
            r = {"g": g}
        k = 1
    else:
        r = {"g": draw(st.sampled_from(PERM2))}
        k = 2
    if oracle.GATES[r["g"]][0] and "p" not in r:
        r["p"] = [draw(gens.angles)]
    if draw(st.integers(0, 4)) == 0:
        r = {"w": "dagger", "of": r}
    extra = draw(st.sampled_from([0, 0, 0, 1, 2]))
    if extra and k + extra <= n:
        r, k = {"w": "ctrl", "k": extra, "of": r}, k + extra
    return {"gate": r, "q": draw(gens.qubits(k, n))}


@st.composite
def basis_circuit(draw, max_n=5):
    n = draw(st.integers(1, max_n))
    flips = [{"gate": {"g": "X"}, "q": [q]} for q in range(n) if draw(st.booleans())]
    return {"n": n, "ops": flips + draw(st.lists(perm_op(n), max_size=4))}


shots = st.sampled_from([1, 1, 2, 3, 7, 10, 100, 1000])


def z_operator(min_terms=0, coeffs=ops.real_coeffs, letters="Z"):
    return st.fixed_dictionaries(
        {
            "t": ops.sums(5, coeffs, 4, min_terms, letters=letters),
            "one": st.booleans(),
        }
    )


constants = st.fixed_dictionaries(
    {"t": st.lists(ops.terms(2, ops.real_coeffs, letters="I"), max_size=3), "one": st.booleans()}
)




@st.composite
def task(draw):
    k = draw(st.sampled_from(["measured", "measured", "constant", "zero"]))
    return {
        "c": draw(st.integers(0, 3)),
        "o": draw(constants if k == "constant" else z_operator(1)),
        "shots": 0
        if k == "zero"
        else draw(st.one_of(shots, st.sampled_from([0, None])) if k == "constant" else shots),
        "sym": draw(st.booleans()),
    }


def estimation(circ, runners):
    return st.fixed_dictionaries(
        {
            "circuits": st.lists(circ, min_size=1, max_size=4),
            "tasks": st.lists(task(), max_size=7),
            "runner": st.sampled_from(runners),
            "seed": st.integers(0, 50),
            "extra": st.sampled_from([0, 0, 1, 2]),
            "twice": st.booleans(),
            "as": st.sampled_from(["list", "tuple"]),
        }
    )


basis = estimation(basis_circuit(), ["symbolic", "tracker", "all", "single", "ideal", "ideal"])
recorded = estimation(basis_circuit(4), ["recorder"])

exact = st.fixed_dictionaries(
    {
        "circuits": st.lists(
            gens.circuits(max_n=3, max_ops=4), min_size=1, max_size=3
        ),
        "tasks": st.lists(
            st.fixed_dictionaries(
                {
                    "c": st.integers(0, 3),
                    "o": z_operator(0, letters="XYZ"),
                    "shots": st.sampled_from([None, None, 0, 10]),
                }
            ),
            max_size=4,
        ),
        "runner": st.sampled_from(["symbolic", "symbolic", "all", "single"]),
    }
)



def bindable(r):
    """Without power and exponential, which refuse to bind (C06)."""
    if "ops" in r:
        return dict(r, ops=[dict(o, gate=bindable(o["gate"])) for o in r["ops"]])
    if "of" not in r:
        return r
    if r["w"] in ("pow", "exp"):
        return bindable(r["of"])
    return dict(r, of=bindable(r["of"]))


values = st.one_of(gens.small_floats, st.integers(-3, 3))
binding = st.fixed_dictionaries(
    {
        "circuits": st.lists(
            gens.circuits(max_n=3, max_ops=4, min_ops=1, symbolic=True, max_wrap=1).map(bindable),
            min_size=1,
            max_size=3,

        ),
        "tasks": st.lists(
            st.fixed_dictionaries(
                {
                    "c": st.integers(0, 3),
                    "o": z_operator(0, letters="XYZ"),
                    "shots": st.sampled_from([None, 0, 1, 10]),
                    "share": st.booleans(),
                    "map": st.lists(
                        st.tuples(st.sampled_from(gens.SYMS + ["unused"]), values).map(list),
                        min_size=1,
                        max_size=6,
                        unique_by=lambda x: x[0],
                    ),
                }
            ),
            min_size=1,
            max_size=5,
        ),
    }
)

# ----------------------------------------------------------------- large batches

def rng_operator(rng, n, letters="Z", lo=0):
    r = rng.random()
    if r < 0.2:  # constant
        k = rng.choice([1, 1, 2, 5])
        return {"t": ops.big_terms(rng, k, max_len=0, complex_=False), "one": rng.random() < 0.5}
    k = rng.choice([1, 1, 2, 3, 4, 8, 20]) if r < 0.95 else 40
    ts = ops.big_terms(rng, k, width=n, max_len=n, complex_=False, lo=-4, hi=4)
    for t in ts:
        t["o"] = [[q, rng.choice(letters)] for q, _ in t["o"]]
    return {"t": ts, "one": rng.random() < 0.3}


def rng_basis_circuit(rng, n):
    out = [{"gate": {"g": "X"}, "q": [q]} for q in range(n) if rng.random() < 0.5]
    for _ in range(rng.choice([0, 2, 5, 30])):
        r, k = {"g": rng.choice(PERM)}, 1
        if n > 1 and rng.random() < 0.5:
            r, k = {"g": rng.choice(PERM2)}, 2
        if oracle.GATES[r["g"]][0]:
            r["p"] = [round(rng.uniform(-7, 7), 3)]
        out.append({"gate": r, "q": rng.sample(range(n), k)})
    return {"n": n, "ops": out}


def rng_batch(seed, runners, k, width, circuits):
    rng = random.Random(seed)
    cs = [rng_basis_circuit(rng, rng.randint(1, width)) for _ in range(circuits)]
    tasks = []
    for _ in range(k):
        c = rng.randrange(len(cs))
        o = rng_operator(rng, cs[c]["n"])
        shots = 0 if rng.random() < 0.2 else rng.choice([1, 2, 3, 17, 100, 1000, rng.randint(1, 400)])
        if not any(t["o"] for t in o["t"]) and rng.random() < 0.3:
            shots = None
        tasks.append({"c": c, "o": o, "shots": shots, "sym": rng.random() < 0.5})
        if rng.random() < 0.2:  # the same again, or nearly
            t = dict(rng.choice(tasks))
            if rng.random() < 0.5 and t["shots"]:
                t["shots"] += 1
            tasks.append(t)
    return {
        "circuits": cs,
        "tasks": tasks,
        "runner": rng.choice(runners),
        "seed": rng.randint(0, 50),
        "extra": rng.choice([0, 0, 1, 5]),
        "twice": rng.random() < 0.3,
        "as": rng.choice(["list", "tuple"]),
    }


def big_batches(runners, width):
    return st.builds(
        rng_batch,
        st.integers(0, 10**9),
        st.just(runners),
        st.integers(15, 70),
        st.just(width),
        st.integers(1, 25),
    )


def rng_exact(seed, k, width, circuits, runners):
    rng = random.Random(seed)
    cs = [
        gens.big_circuit(rng, n, rng.choice([2, 5, 15]), controls=1, wraps=1)
        for n in [rng.randint(1, width) for _ in range(circuits)]
    ]
    tasks = []
    for _ in range(k):
        c = rng.randrange(len(cs))
        tasks.append(
            {
                "c": c,
                "o": rng_operator(rng, cs[c]["n"], "XYZ"),
                "shots": rng.choice([None, None, 0, 10]),
            }
        )
    return {"circuits": cs, "tasks": tasks, "runner": rng.choice(runners)}


big_exact = st.builds(
    rng_exact,
    st.integers(0, 10**9),
    st.integers(8, 40),
    st.integers(2, 6),
    st.integers(1, 6),
    st.just(["symbolic", "all", "single"]),
)


def rng_binding(seed, k, circuits):
    rng = random.Random(seed)
    names = rng.sample(gens.SYMS, min(len(gens.SYMS), 6))
    cs = [
        gens.big_circuit(rng, rng.randint(1, 4), rng.choice([3, 8, 20]), names=names, wraps=1)
        for _ in range(circuits)
    ]
    tasks = []
    for _ in range(k):
        c = rng.randrange(len(cs))
        keys = rng.sample(names + ["unused"], rng.randint(1, len(names)))
        tasks.append(
            {
                "c": c,
                "o": rng_operator(rng, cs[c]["n"], "XYZ"),
                "shots": rng.choice([None, 0, 1, 10]),
                "share": rng.random() < 0.4,
                "map": [[m, rng.choice([rng.randint(-3, 3), round(rng.uniform(-4, 4), 3)])] for m in keys],
            }
        )
    return {"circuits": cs, "tasks": tasks}


big_binding = st.builds(rng_binding, st.integers(0, 10**9), st.integers(8, 25), st.integers(1, 5))


FACETS = [
    Facet("basis-states", check_basis, ">=2 kinds of task, not sorted by kind", basis, quick=900, thorough=20000, shard=60),
    Facet("averaging", check_averaging, ">=2 kinds of task, not sorted by kind", recorded, quick=1500, thorough=40000, shard=100),
    Facet("split", check_split, ">=2 kinds of task, not sorted by kind", recorded, quick=800, thorough=20000, shard=100),
    Facet("exact", check_exact, ">=2 tasks of distinct value, some X or Y", exact, quick=600, thorough=15000, shard=40),
    Facet("binding", check_bind, ">=2 tasks with a symbol bound", binding, quick=500, thorough=12000, shard=40),
    Facet("basis-large", check_basis, ">=2 kinds of task, not sorted by kind", big_batches(["symbolic", "tracker", "all", "single", "ideal", "ideal"], 6), quick=60, thorough=2000, shard=8),
    Facet("averaging-large", check_averaging, ">=2 kinds of task, not sorted by kind", big_batches(["recorder"], 9), quick=120, thorough=4000, shard=15),
    Facet("split-large", check_split, ">=2 kinds of task, not sorted by kind", big_batches(["recorder"], 9), quick=60, thorough=2000, shard=8),
    Facet("exact-large", check_exact, ">=2 tasks of distinct value, some X or Y", big_exact, quick=60, thorough=2000, shard=8),
    Facet("binding-large", check_bind, ">=2 tasks with a symbol bound", big_binding, quick=40, thorough=1200, shard=5),
]
