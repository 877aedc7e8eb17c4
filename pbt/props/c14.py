"""C14: runners validate requests, deliver enough shots and count their work correctly."""
import random
import json
import os
from collections import Counter

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import (
    Circuit,
    GateOperation,
    circuit_from_dict,
    combine_bitstrings,
    expand_sample_sizes,
    to_dict,
)
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.runners import MeasurementTrackingBackend, SymbolicSimulator

from .. import gens, lib
from ..core import Facet, HarnessError, fail, require

ASSUMPTIONS = [
    "a runner's own _run_and_measure delivers at least the shots it is asked for",
    "a run that raises is not counted as executed by a sampling runner; the jobs of a tracking "
    "wrapper are one per call that reached the wrapped runner",
    "the tracking wrapper is given circuits of gates (other operations have no serialised form)",
    "sample counts are Python integers or lists, tuples and arrays of them",
]


class Broken(RuntimeError):
    pass


class Sampler(BaseCircuitRunner):
    """Deterministic runner which logs what it actually ran."""

    def __init__(self, extra, broken, flat):
        super().__init__()
        self.log, self.extra, self.broken, self.k = [], extra, set(broken), 0
        self.flat = flat  # every outcome equally often

    def _run_and_measure(self, circuit, n_samples):
        self.k += 1
        if self.k in self.broken:
            raise Broken()
        r = np.random.RandomState(self.k)
        n, w = int(n_samples) + self.extra, circuit.n_qubits
        if self.flat:
            m = Measurements([tuple((i >> q) & 1 for q in range(w)) for i in range(n)])
        else:
            m = Measurements([tuple(b) for b in r.randint(0, 2, size=(n, w)).tolist()])
        self.log.append((circuit, int(n_samples), list(m.bitstrings)))
        return m


class Batcher(Sampler):
    """Runs every circuit of a batch in portions of limited size."""

    def _run_batch_and_measure(self, batch, samples_per_circuit):
        circuits, ns, mult = expand_sample_sizes(batch, samples_per_circuit, 3)
        parts = [self.run_and_measure(c, n).bitstrings for c, n in zip(circuits, ns)]
        return [Measurements(b) for b in combine_bitstrings(parts, mult)]


class Simulator(BaseWavefunctionSimulator):
    def __init__(self, native, seed):
        super().__init__(seed=seed)
        self.native, self.log = native, []

    def is_natively_supported(self, operation):
        if self.native == "default":
            return super().is_natively_supported(operation)
        return native(self.native, operation)

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.log.append(circuit)
        state = initial_state
        for op in circuit.operations:
            if self.native != "default" and not native(self.native, op):
                raise HarnessError("not native")
            state = op.apply(state)
        return state


def native(kind, op):
    if kind == "none":
        return False
    if kind == "all":
        return True
    if not isinstance(op, GateOperation):
        return False
    return len(op.qubit_indices) == 1 if kind == "single" else True


def segments(kind, circuit):
    """(jobs, circuits): runs of consecutive native / non-native operations."""
    flags = [native("gates" if kind == "default" else kind, o) for o in circuit.operations]
    runs = [f for i, f in enumerate(flags) if i == 0 or flags[i - 1] != f]
    return len(runs), sum(runs)


def build(r, ctx, i):
    k = r["kind"]
    if k == "sampler":
        return Sampler(r["extra"], r["broken"], r["flat"])
    if k == "batcher":
        return Batcher(r["extra"], r["broken"], r["flat"])
    if k == "symbolic":
        return SymbolicSimulator(seed=r["seed"])
    if k == "simulator":
        return Simulator(r["native"], r["seed"])
    return MeasurementTrackingBackend(
        build(r["of"], ctx, i), ctx.path("track%d.json" % i), record_bitstrings=r["bits"]
    )


class Spy:
    """One runner under test together with what is known about it."""

    def __init__(self, r, ctx, i):
        self.r, self.obj = r, build(r, ctx, i)
        self.track = r["kind"] == "tracker"
        self.inner_r = r["of"] if self.track else r
        self.inner = self.obj.inner_backend if self.track else self.obj
        self.sim = self.inner_r["kind"] in ("symbolic", "simulator")
        self.native = {"symbolic": "all"}.get(self.inner_r["kind"]) or self.inner_r.get("native")
        self.want = (0, 0)  # of the inner runner
        self.own = (0, 0)  # of the tracking wrapper
        self.seen = (0, 0)
        if self.track:
            self.returned = []
            for name in ("run_and_measure", "run_batch_and_measure", "get_measurement_outcome_distribution"):
                self.spy(name)

    def spy(self, name):
        f = getattr(self.inner, name)

        def g(*a, **kw):
            out = f(*a, **kw)
            self.returned.append((name, a, kw, out))
            return out

        # only the outermost call of the inner runner is of interest
        setattr(self.inner, name, g)

    def counters(self, obj):
        return obj.n_circuits_executed, obj.n_jobs_executed


def count(spy, before, after, what):
    require(
        after[0] >= before[0] and after[1] >= before[1],
        lambda: "%s: counters decreased from %s to %s" % (what, before, after),
    )


def circuits_of(case):
    return [lib.circuit(c) for c in case["circuits"]]


def container(ns, kind):
    return tuple(ns) if kind == "tuple" else np.array(ns, dtype=int) if kind == "array" else list(ns)


def check_history(case, ctx):
    circuits = circuits_of(case)
    spies = [Spy(r, ctx, i) for i, r in enumerate(case["runners"])]
    ok_calls = bad_calls = 0
    for step in case["steps"]:
        spy = spies[step["o"] % len(spies)]
        ids = [i % len(circuits) for i in step["ids"]]
        if spy.track:  # a circuit must have a serialised form
            ids = [i for i in ids if all("gate" in o for o in case["circuits"][i]["ops"])]
        res = call(spy, step, [circuits[i] for i in ids], ctx)
        ok_calls += res == "ok"
        bad_calls += res == "rejected"
        for j, s in enumerate(spies):
            what = "runner %d after %s (%s)" % (j, step, res)
            got = s.counters(s.inner)
            count(s, s.seen, got, what)
            s.seen = got
            require(
                got == s.want,
                lambda: "%s: (circuits, jobs) executed %s, actually run %s" % (what, got, s.want),
            )
            if s.track:
                require(
                    s.counters(s.obj) == s.own,
                    lambda: "%s: wrapper counts %s, expected %s" % (what, s.counters(s.obj), s.own),
                )
    if bad_calls:
        ctx.label("rejected")
    if any(s.track for s in spies):
        ctx.label("tracked")
    ctx.nontrivial(ok_calls >= 2 and bad_calls >= 1)


def read(p):
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


def call(spy, step, batch, ctx):
    do, n = step["do"], step["n"]
    first = batch[0] if batch else Circuit([], n_qubits=1)
    runs_before = len(getattr(spy.inner, "log", []))
    fails_before = getattr(spy.inner, "k", 0)
    file_before = read(spy.obj.raw_data_file_name) if spy.track else None
    if spy.track:
        spy.returned.clear()
    if do == "run":
        asked, planned = [n], [first]
        f = lambda: spy.obj.run_and_measure(first, n)
    elif do in ("batch", "batch-one"):
        ns = [n] * len(batch) if do == "batch-one" else [
            step["ns"][i % len(step["ns"])] for i in range(len(batch))
        ]
        asked, planned = ns, list(batch)
        arg = n if do == "batch-one" else container(ns, step["as"])
        if do == "batch" and step["cut"]:
            arg = container(ns[:-1] if step["cut"] == -1 and ns else ns + [1], step["as"])
            asked = None
        seq = tuple(batch) if step["as"] == "tuple" else list(batch)
        f = lambda: spy.obj.run_batch_and_measure(seq, arg)
        if do == "batch-one" and n <= 0:
            asked = None
    elif do == "distribution":
        asked, planned = [n], [first]
        if step["exact"]:
            n = None
            asked = [1] if spy.sim else None
            if first.free_symbols and spy.sim:
                return "skipped"  # no numbers to return
        f = lambda: spy.obj.get_measurement_outcome_distribution(first, n)
    else:  # wavefunction or exact expectation value
        if not spy.sim or spy.track:
            return "skipped"
        asked, planned = [1], [first]
        if do == "wavefunction":
            f = lambda: spy.obj.get_wavefunction(first)
            if step["start"]:  # from a state of the caller
                psi = gens.state(step["start"] - 1, first.n_qubits)
                f = lambda: spy.obj.get_wavefunction(first, psi)
        else:
            f = lambda: spy.obj.get_exact_expectation_values(
                first, PauliSum([PauliTerm("Z0", 0.5), PauliTerm({}, 2.0)])
            )
            if first.free_symbols or first.n_qubits < 1:
                return "skipped"
    invalid = asked is None or any(x <= 0 for x in asked)
    what = "%s of %d circuits" % (step, len(planned))
    out = error = None
    try:
        out = f()
    except Exception as e:
        error = e
    if invalid:
        require(
            isinstance(error, ValueError),
            lambda: "%s: expected ValueError, got %r" % (what, error if error else out),
        )
        require(
            len(getattr(spy.inner, "log", [])) == runs_before
            and getattr(spy.inner, "k", 0) == fails_before,
            lambda: "%s: something ran before the request was rejected" % what,
        )
        if spy.track:
            require(
                read(spy.obj.raw_data_file_name) == file_before,
                lambda: "%s: a record of a rejected request was written" % what,
            )
        return "rejected"
    if spy.sim:
        done = []
        for c in planned:
            if c.free_symbols and do != "wavefunction":
                require(
                    isinstance(error, ValueError),
                    lambda: "%s: sampled a circuit with free symbols: %r" % (what, error or out),
                )
                break
            done.append(c)
        for c in done:
            j, k = segments(spy.native, c)
            spy.want = (spy.want[0] + k, spy.want[1] + j)
        if len(done) < len(planned):
            return "unbound"
    else:
        new = len(spy.inner.log) - runs_before
        spy.want = (spy.want[0] + new, spy.want[1] + new)
        if isinstance(error, Broken):
            return "broken"
    if error is not None:
        raise error
    if spy.track:
        extra = len(planned) if do.startswith("batch") else 1
        jobs = 1
        if do.startswith("batch") and not planned:
            jobs = spy.counters(spy.obj)[1] - spy.own[1]  # nothing to run: 0 or 1 call
            require(jobs in (0, 1), "jobs of an empty batch")
        spy.own = (spy.own[0] + extra, spy.own[1] + jobs)
    if do in ("wavefunction", "expectation"):
        return "ok"
    if do == "distribution":
        check_distribution(spy, first, n, out, what)
    else:
        results = [out] if do == "run" else out
        require(
            isinstance(results, list) and len(results) == len(planned),
            lambda: "%s: %d results" % (what, len(results)),
        )
        for c, k, m in zip(planned, asked, results):
            require(
                len(m.bitstrings) >= k,
                lambda: "%s: %d shots, requested %d" % (what, len(m.bitstrings), k),
            )
            require(
                all(len(b) == c.n_qubits for b in m.bitstrings),
                lambda: "%s: outcomes %s of %d qubits" % (what, m.bitstrings[:3], c.n_qubits),
            )
        if not spy.sim:
            check_order(spy, runs_before, planned, results, what)
    if spy.track and do != "distribution":
        check_record(spy, do, planned, out, n, what)
    return "ok"


def check_order(spy, start, planned, results, what):
    """Results are what was run, circuit by circuit, in order."""
    log = spy.inner.log[start:]
    i = 0
    for c, m in zip(planned, results):
        shots = []
        while len(shots) < len(m.bitstrings) and i < len(log):
            require(log[i][0] == c, lambda: "%s: ran %s in place of %s" % (what, log[i][0], c))
            shots += log[i][2]
            i += 1
        require(
            list(m.bitstrings) == shots, lambda: "%s: %s, but %s was measured" % (what, m.bitstrings, shots)
        )
    require(i == len(log), lambda: "%s: %d runs, %d used" % (what, len(log), i))


def check_distribution(spy, circuit, n, dist, what):
    d = dist.distribution_dict
    require(
        all(len(k) == circuit.n_qubits for k in d), lambda: "%s: outcomes %s" % (what, list(d))
    )
    require(abs(sum(map(float, d.values())) - 1) < 1e-6, lambda: "%s: %s" % (what, d))
    if not spy.sim:
        shots = spy.inner.log[-1][2]
        want = {k: v / len(shots) for k, v in Counter(shots).items()}
        require(
            set(want) == {k for k in d if d[k]} and all(abs(d[k] - want[k]) < 1e-12 for k in want),
            lambda: "%s: %s of the shots %s" % (what, d, shots),
        )
    if spy.track:
        with open(spy.obj.raw_data_file_name) as f:
            rec = json.load(f)["raw-data"][-1]
        require(rec["circuit"] == json.loads(json.dumps(to_dict(circuit))), what + ": circuit")
        require(rec["number_of_shots"] == n, what + ": number of shots")
        inner = spy.returned[-1][-1].distribution_dict
        require(inner == d, lambda: "%s: wrapper returned %s, runner %s" % (what, d, inner))


def check_record(spy, do, planned, out, n, what):
    results = [out] if do == "run" else out
    name, _, _, inner = spy.returned[-1]
    inner = [inner] if do == "run" else inner
    require(
        len(inner) == len(results)
        and all(list(a.bitstrings) == list(b.bitstrings) for a, b in zip(inner, results)),
        lambda: "%s: wrapper returned %s, runner %s" % (what, results, inner),
    )
    with open(spy.obj.raw_data_file_name) as f:
        data = json.load(f)["raw-data"]
    data = data[len(data) - len(planned) :] if planned else []
    require(len(data) == len(planned), lambda: "%s: %d records" % (what, len(data)))
    for c, m, rec in zip(planned, results, data):
        require(
            rec["counts"] == m.get_counts(),
            lambda: "%s: recorded counts %s of %s" % (what, rec["counts"], m.get_counts()),
        )
        require(
            rec["number_of_shots"] == len(m.bitstrings),
            lambda: "%s: recorded %s shots of %d" % (what, rec["number_of_shots"], len(m.bitstrings)),
        )
        require(
            rec["circuit"] == json.loads(json.dumps(to_dict(c)))
            and circuit_from_dict(rec["circuit"]) == c,
            lambda: "%s: recorded circuit %s of %s" % (what, rec["circuit"], c),
        )
        require(rec["number_of_gates"] == len(c.operations), what + ": number of gates")
        if spy.r["bits"]:
            require(
                [tuple(b) for b in rec["bitstrings"]] == list(m.bitstrings), what + ": bitstrings"
            )


# ------------------------------------------------------------------------ strategies


@st.composite
def op_(draw, n, sym, phases):
    k = draw(st.integers(0, 9))
    if phases and k == 0:
        return {"phase": draw(st.lists(gens.angles, min_size=2**n, max_size=2**n))}
    g = draw(st.sampled_from(["X", "H", "T", "RX", "RY", "RZ"]))
    if n > 1 and k < 4:
        g = draw(st.sampled_from(["CNOT", "CZ", "SWAP", "XX"]))
    r = {"g": g}
    if g in ("RX", "RY", "RZ", "XX"):
        r["p"] = [draw(st.just(["s", "theta"]) if sym and k > 6 else gens.small_floats)]
    q = draw(gens.qubits(2 if g in ("CNOT", "CZ", "SWAP", "XX") else 1, n))
    return {"gate": r, "q": q}


@st.composite
def circuit(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    kind = draw(st.sampled_from(["gates", "gates", "phases", "symbols"]))
    ops = draw(st.lists(op_(n, kind == "symbols", kind == "phases"), max_size=5))
    return {"n": n, "ops": ops}


@st.composite
def runner(draw, tracker=True):
    kind = draw(
        st.sampled_from(
            ["sampler", "batcher", "symbolic", "simulator"] + (["tracker", "tracker"] if tracker else [])
        )
    )
    if kind in ("sampler", "batcher"):
        return {
            "kind": kind,
            "extra": draw(st.sampled_from([0, 0, 1, 3])),
            "broken": draw(st.sampled_from([[], [], [2], [3, 4]])),
            "flat": draw(st.booleans()),
        }
    if kind == "tracker":
        return {"kind": kind, "bits": draw(st.booleans()), "of": draw(runner(False))}
    r = {"kind": kind, "seed": draw(st.sampled_from([None, 7]))}
    if kind == "simulator":
        r["native"] = draw(st.sampled_from(["default", "gates", "single", "none", "all"]))
    return r


positive = st.sampled_from([1, 1, 2, 3, 4, 7, 9, 20, 1, 2, 3, 5, 130, 1500, 4099])
some_n = st.one_of(positive, positive, positive, st.sampled_from([0, -1, -5]))


@st.composite
def step(draw):
    do = draw(
        st.sampled_from(
            ["run", "run", "batch", "batch", "batch", "batch-one", "distribution", "wavefunction", "expectation"]
        )
    )
    ns = draw(st.lists(positive, min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        ns[draw(st.integers(0, len(ns) - 1))] = draw(st.sampled_from([0, -1]))
    return {
        "do": do,
        "o": draw(st.integers(0, 3)),
        "ids": draw(st.lists(st.integers(0, 4), min_size=0 if do.startswith("batch") else 1, max_size=4)),
        "n": draw(some_n),
        "ns": ns,
        "as": draw(st.sampled_from(["list", "list", "tuple", "array"])),
        "cut": draw(st.sampled_from([0, 0, 0, 0, 1, -1])),
        "exact": draw(st.booleans()),
        "start": draw(st.integers(0, 3)),
    }


histories = st.fixed_dictionaries(
    {
        "circuits": st.lists(circuit(), min_size=1, max_size=4),
        "runners": st.lists(runner(), min_size=1, max_size=3),
        "steps": st.lists(step(), min_size=2, max_size=8),
    }
)

# ---------------------------------------------- long batches, long histories, wide registers


@st.composite
def big_histories(draw):
    rng = random.Random(draw(st.integers(0, 10**6)))
    mode = draw(st.sampled_from(["batches", "calls", "wide"]))
    c = {"circuits": draw(st.lists(circuit(), min_size=2, max_size=5))}
    c["runners"] = draw(st.lists(runner(), min_size=1, max_size=2 if mode == "batches" else 4))
    if mode == "wide":  # runners which need no state vector
        c["circuits"] = []
        for n in (draw(st.sampled_from([9, 12, 17, 40, 65])), 1, draw(st.sampled_from([20, 33]))):
            ops = [{"gate": {"g": "X"}, "q": [rng.randrange(n)]} for _ in range(rng.randint(0, 40))]
            c["circuits"].append({"n": n, "ops": ops})
        for r in c["runners"]:
            x = r.get("of", r)
            if x["kind"] in ("symbolic", "simulator"):
                x.clear()
                x.update({"kind": "sampler", "extra": rng.choice([0, 2]), "broken": [], "flat": False})
    steps = []
    size = {"batches": [9, 17, 33, 65], "calls": [0, 1, 2, 3], "wide": [1, 3, 11]}[mode]
    for _ in range({"batches": 4, "calls": rng.choice([20, 40]), "wide": 6}[mode]):
        k = rng.choice(size)
        do = rng.choice(["batch", "batch", "batch-one"] if mode == "batches" else ["run", "run", "batch", "batch-one", "distribution", "wavefunction", "expectation"])
        ns = [rng.choice([1, 2, 3, 5, 9, 20]) for _ in range(max(1, k))]
        if rng.random() < 0.3:
            ns[rng.randrange(len(ns))] = rng.choice([0, -1])
        steps.append(
            {
                "do": do,
                "o": rng.randrange(4),
                "ids": [rng.randrange(5) for _ in range(k if do.startswith("batch") else 1)],
                "n": rng.choice([1, 2, 3, 7, 20, 20, 100, 0, -1]),
                "ns": ns,
                "as": rng.choice(["list", "list", "tuple", "array"]),
                "cut": rng.choice([0, 0, 0, 0, 0, 1, -1]),
                "exact": rng.random() < 0.5 and mode != "wide",
                "start": rng.randrange(4),
            }
        )
    c["steps"] = steps
    return c


FACETS = [
    Facet("histories", check_history, ">=2 successful and >=1 rejected call", histories, quick=2500, thorough=60000, shard=125),
    Facet("large", check_history, ">=2 successful and >=1 rejected call", big_histories(), quick=120, thorough=4000, shard=15),
]
