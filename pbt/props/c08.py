"""C08: inverse, controlled, layers, gates on collections of qubits, ancillas."""
import random
import collections
import itertools

import numpy as np
import sympy
from hypothesis import strategies as st
import orquestra.quantum.circuits as oc
from orquestra.quantum.circuits import (
    Circuit,
    add_ancilla_register,
    apply_gate_to_qubits,
    create_layer_of_gates,
)

from .. import gens, lib, oracle
from ..core import Facet, Skip, require
from .c07 import chains, has_exp, has_root, pushed

ASSUMPTIONS = [
    "matrices of the gates in the original circuit are taken from the library (C02/C07)",
    "identity of circuit + inverse is required of unitary circuits only",
    "pairing of parameter rows with an unordered or repeating collection is free",
]
TOL = 1e-9


def num_of(gate, env):
    return lib.subs_num(gate.matrix, env) if env else lib.num(gate.matrix)


def mat(circ, env=None):
    """Matrix of a circuit from its operations, embedded by the reference code."""
    return oracle.circuit_matrix(
        [(num_of(op.gate, env), op.qubit_indices) for op in circ.operations], circ.n_qubits
    )


def env_of(case):
    names = sorted({s for o in case["ops"] for s in lib.gate_symbols(o["gate"])})
    rs = np.random.RandomState(case.get("seed", 1))
    return {s: round(float(rs.uniform(-2, 2)), 3) for s in names}


def big(case, env):
    return any(
        oracle.magnitude(p, env) > 1e4
        for o in case["ops"]
        for p in (lib.base(o["gate"]).get("p") or [])
    )


def labels(case, ctx):
    n = case["n"]
    rs = [o["gate"] for o in case["ops"]]
    used = {q for o in case["ops"] for q in o["q"]}
    if len(used) < n:
        ctx.label("idle")
    ws = set()
    for r in rs:
        if has_root(r):
            ctx.label("root")
        while "of" in r:
            ws.add(r["w"])
            r = r["of"]
        if "custom" in r:
            ws.add("custom")
    ctx.label(*ws)
    return ws


def transcendental(r):
    return has_root(r) or has_exp(r)


def frozen(circ):
    return (tuple(circ.operations), circ.n_qubits)


# ------------------------------------------------------------------------- inverse


def inside_out(case, times):
    """The circuit inverted that many times, the daggers of a root taken below the root."""
    if not any(has_root(o["gate"]) for o in case["ops"]):
        return np.zeros((2 ** case["n"],) * 2)
    parts = []
    for o in case["ops"]:
        d = o["gate"]
        for _ in range(times):
            d = {"w": "dagger", "of": d}
        parts.append((lib.num(lib.gate(pushed(d) if has_root(d) else d).matrix), o["q"]))
    return oracle.circuit_matrix(parts[::-1] if times % 2 else parts, case["n"])


def check_inverse(case, ctx):
    with lib.limit(6, ctx):
        env = env_of(case)
        if big(case, env):
            raise Skip()
        n = case["n"]
        c = lib.circuit(case)
        before = frozen(c)
        inv = c.inverse()
        require(frozen(c) == before, "inverse() changed the circuit")
        require(inv.n_qubits == n, lambda: "inverse acts on %d qubits, not %d" % (inv.n_qubits, n))
        try:
            u = mat(c, env)
        except Exception:
            if any(transcendental(o["gate"]) for o in case["ops"]):
                raise Skip()  # sympy cannot evaluate it: C07's subject
            raise
        v = mat(inv, env)
        key = None
        if not oracle.close(v, u.conj().T, TOL):
            if oracle.close(v, inside_out(case, 1), TOL):
                key = "dagger-of-root"
            require(False, "inverse is not the adjoint", key)
        twice = inv.inverse()
        require(twice.n_qubits == n, "width after inverting twice")
        w = mat(twice, env)
        if not oracle.close(w, u, TOL):
            # Dagger(X.power(0.5)) -> X.power(0.5) -> itself
            key = "dagger-of-root" if oracle.close(w, inside_out(case, 2), TOL) else None
            require(False, "inverting twice changes the action", key)
        both = c + inv
        require(both.n_qubits == n, "width of circuit + inverse")
        if oracle.close(u @ u.conj().T, np.eye(2**n), TOL):
            if n <= 2 or (n == 3 and case["seed"] % 3 == 0):
                w = both.to_unitary()
                w = lib.subs_num(w, env) if env else lib.num(w)
            else:
                w = mat(both, env)
            require(oracle.close(w, np.eye(2**n), TOL), "circuit + inverse is not the identity")
            ctx.label("unitary")
        if env:
            ctx.label("symbolic")
    ws = labels(case, ctx)
    ctx.nontrivial(bool(ws) or len(case["ops"]) >= 2)


@st.composite
def trans_circuits(draw):
    """Circuits whose gates contain an exponential or a root somewhere."""
    n = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        g = draw(chains(draw(st.sampled_from(["exp", "root"])), 3, max_arity=n, max_base=1))["g"]
        ops.append({"gate": g, "q": draw(gens.qubits(lib.arity(g), n))})
    if draw(st.booleans()):
        ops.append(draw(gens.gate_op(n)))
    return {"n": n, "ops": ops}


gate_circuits = st.one_of(
    gens.circuits(max_ops=5, min_ops=1),
    gens.circuits(max_ops=4, min_ops=1, max_n=3, max_wrap=3),
    trans_circuits(),
    gens.circuits(max_ops=4, min_ops=1, max_n=3, symbolic=True),
)
with_seed = st.builds(lambda c, s: dict(c, seed=s), gate_circuits, gens.seeds)

PARS = [[0.3, -1.1, 2.2], [["s", "x"], ["s", "y"], ["s", "z"]], [np.pi, 0, -np.pi], [["r", 1, 3], 1, 2]]


def single_gates(tier):
    """Every gate under short modifier chains, alone in a wider register."""
    bs = []
    for g, (k, n, _f) in oracle.GATES.items():
        for p in PARS[: (2 if tier == "quick" else 4) if k else 1]:
            bs.append({"g": g, "p": p[:k]} if k else {"g": g})
    bs += [
        {"custom": {"name": "t", "kind": "rot1", "params": ["a"]}, "p": [["s", "y"]]},
        {"custom": {"name": "t", "kind": "ph2", "params": ["b", "a"]}, "p": [0.7, 2]},
        {"custom": {"name": "t", "kind": "diag2", "params": ["b", "a"]}, "p": [["s", "a"], 3]},
        {"custom": {"name": "t", "kind": "qr", "n": 2, "seed": 2}, "p": []},
        {"custom": {"name": "t", "kind": "raw", "n": 1, "seed": 2}, "p": []},
    ]
    mods = [("dagger",), ("ctrl", 1), ("ctrl", 2), ("pow", 2), ("pow", -1)]
    top = 2 if tier == "quick" else 3
    i = 0
    for b in bs:
        sym = bool(lib.gate_symbols(b))
        for d in range(top + 1):
            for ws in itertools.product(mods, repeat=d):
                if sym and any(w[0] == "pow" for w in ws):
                    continue
                r = b
                for w in ws:
                    r = {"w": w[0], "of": r}
                    if w[0] == "ctrl":
                        r["k"] = w[1]
                    elif w[0] == "pow":
                        r["e"] = w[1]
                a = lib.arity(r)
                if a > 3:
                    continue
                i += 1
                if tier == "quick" and d == 2 and i % 3:
                    continue
                q = [2, 0, 3, 1][:a]
                yield {"n": 4, "ops": [{"gate": r, "q": q}], "seed": 5}


# ---------------------------------------------------------------------- controlled


def insert_control(u, k, n):
    return oracle.embed(
        oracle.controlled(u, 1), [k] + [q for q in range(n + 1) if q != k], n + 1
    )


def check_controlled(case, ctx):
    with lib.limit(6, ctx):
        env = env_of(case)
        if big(case, env):
            raise Skip()
        n = case["n"]
        c = lib.circuit(case)
        before = frozen(c)
        try:
            u = mat(c, env)
        except Exception:
            if any(transcendental(o["gate"]) for o in case["ops"]):
                raise Skip()
            raise
        for k in range(n + 1) if n <= 2 else [case["seed"] % (n + 1), 0, n]:
            d = c.controlled(k)
            require(
                d.n_qubits == n + 1,
                lambda: "controlled(%d) of a circuit on %d qubits acts on %d" % (k, n, d.n_qubits),
            )
            got, key = mat(d, env), None
            if not oracle.close(got, insert_control(u, k, n), TOL):
                if oracle.close(got, insert_control(inside_out(case, 0), k, n), TOL):
                    key = "dagger-of-root"  # controls go below a dagger, which then meets the root
                require(False, lambda: "controlled(%d) has the wrong matrix" % k, key)
        if n <= 3 and case["seed"] % 2:  # beyond the register, leaving qubits idle
            k = n + 1 + case["seed"] // 2 % 2
            d = c.controlled(k)
            require(
                d.n_qubits == k + 1,
                lambda: "controlled(%d) of a circuit on %d qubits acts on %d" % (k, n, d.n_qubits),
            )
            got, key, idle = mat(d, env), None, np.eye(2 ** (k - n))
            if not oracle.close(got, insert_control(np.kron(u, idle), k, k), TOL):
                alt = np.kron(inside_out(case, 0), idle)
                if oracle.close(got, insert_control(alt, k, k), TOL):
                    key = "dagger-of-root"
                require(False, lambda: "controlled(%d) has the wrong matrix" % k, key)
            ctx.label("beyond")
        require(frozen(c) == before, "controlled() changed the circuit")
        if case["seed"] % 4 == 0 and n <= 2:
            d = c.controlled(0).controlled(n + 1)
            w = insert_control(insert_control(u, 0, n), n + 1, n + 1)
            require(oracle.close(mat(d, env), w, TOL), "controlled twice")
            ctx.label("twice")
        if case["seed"] % 4 == 1 and n and not any(has_root(o["gate"]) for o in case["ops"]):
            k = case["seed"] % n
            d = c.inverse().controlled(k)
            require(
                oracle.close(mat(d, env), insert_control(u.conj().T, k, n), TOL),
                "controlled inverse",
            )
            d = c.controlled(k).inverse()
            require(
                oracle.close(mat(d, env), insert_control(u.conj().T, k, n), TOL),
                "inverse of controlled",
            )
            ctx.label("inverse")
    ws = labels(case, ctx)
    ctx.nontrivial(n >= 2 and len(case["ops"]) >= 1)


ctrl_circuits = st.builds(
    lambda c, s: dict(c, seed=s),
    st.one_of(
        gens.circuits(min_n=0, max_n=0, max_ops=0),
        gens.circuits(max_ops=5),
        trans_circuits(),
        gens.circuits(max_ops=4, min_ops=1, max_n=3, symbolic=True),
        gens.circuits(min_n=2, max_n=4, min_ops=1, max_ops=5, wrap=False),
        gens.circuits(min_n=2, max_n=4, min_ops=2, max_ops=5),
    ),
    gens.seeds,
)

# -------------------------------------------------------------------------- layers

ROW_FORMS = ["list", "tuple", "array", "object"]


def rows_of(rows, form):
    if rows is None:
        return None
    vals = [[lib.expr(x) for x in r] for r in rows]
    if form == "tuple":
        return tuple(tuple(r) for r in vals)
    if form == "array":
        return np.array([[float(x) for x in r] for r in vals]).reshape(len(vals), len(vals[0]) if vals else 1)
    if form == "object":
        return np.array(vals, dtype=object).reshape(len(vals), len(vals[0]) if vals else 1)
    return vals


def factory(f):
    if "proto" in f:
        return getattr(oc, f["proto"])
    if "def" in f:
        return lib.custom_def(f["def"])
    if f.get("lambda"):
        return lambda *p: getattr(oc, f["lambda"])(*p).dagger
    return lib.gate(f["gate"])


def expected_gate(f, row):
    """Reference (name, params, matrix) of the gate on one qubit."""
    if row is None:
        r = f["gate"]
    elif "proto" in f:
        r = {"g": f["proto"], "p": row}
    elif "def" in f:
        r = {"custom": f["def"], "p": row}
    else:
        r = {"w": "dagger", "of": {"g": f["lambda"], "p": row}}
    return lib.gate(r), r


def n_params(f):
    if "proto" in f:
        return oracle.GATES[f["proto"]][0]
    if "def" in f:
        return len(f["def"]["params"])
    if f.get("lambda"):
        return oracle.GATES[f["lambda"]][0]
    return 0


def as_row(row, form):
    """Recipe of the values the factory really receives."""
    if row is not None and form == "array":
        return [float(lib.expr(x)) for x in row]
    return row


ONE_PARAM = [g for g, (k, n, _f) in oracle.GATES.items() if n == 1 and k]
NO_PARAM = [g for g, (k, n, _f) in oracle.GATES.items() if n == 1 and not k]

factories = st.one_of(
    st.sampled_from(ONE_PARAM + ["U3", "U3"]).map(lambda g: {"proto": g}),
    st.sampled_from(ONE_PARAM + ["U3", "U3"]).map(lambda g: {"proto": g}),
    st.sampled_from(
        [
            {"def": {"name": "cg1", "kind": "rot1", "params": ["a"]}},
            {"def": {"name": "cg2", "kind": "ph2", "params": ["b", "a"]}},
            {"lambda": "RX"},
            {"lambda": "U3"},
        ]
    ),
    st.sampled_from(NO_PARAM).map(lambda g: {"gate": {"g": g}}),
    gens.any_gate(1).map(lambda r: {"gate": r}),
)


@st.composite
def rows_for(draw, f, m):
    k = n_params(f)
    if not k:
        return None, "list"
    form = draw(st.sampled_from(ROW_FORMS))
    par = gens.numeric_param if form == "array" else gens.param(True)
    same = draw(st.integers(0, 4)) == 0
    rows = [[draw(par) for _ in range(k)] for _ in range(1 if same and m else m)]
    if same and m:
        rows = rows * m
    return rows, form


@st.composite
def layer_cases(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 8, 12, 20]))
    f = draw(factories)
    rows, form = draw(rows_for(f, n))
    return {"n": n, "f": f, "rows": rows, "form": form}


def same_op(op, f, row, form):
    want, r = expected_gate(f, as_row(row, form))
    g = op.gate
    return (
        len(op.qubit_indices) == 1
        and g.num_qubits == 1
        and len(g.params) == len(want.params)
        and all(bool(a == b) for a, b in zip(g.params, want.params))
        and g == want
    )


def check_layer(case, ctx):
    n, f, rows, form = case["n"], case["f"], case["rows"], case["form"]
    vals = rows_of(rows, form)
    c = create_layer_of_gates(n, factory(f), vals) if rows is not None else create_layer_of_gates(n, factory(f))
    require(c.n_qubits == n, lambda: "layer over %d qubits acts on %d" % (n, c.n_qubits))
    by = {op.qubit_indices[0]: op for op in c.operations}
    require(
        len(c.operations) == n and sorted(by) == list(range(n)),
        lambda: "gates on qubits %s" % [op.qubit_indices for op in c.operations],
    )
    for q in range(n):
        row = None if rows is None else rows[q]
        require(
            same_op(by[q], f, row, form),
            lambda: "qubit %d: %s instead of row %s" % (q, by[q].gate, row),
        )
    if rows is not None:
        ctx.label("%d-params" % n_params(f), form)
    ctx.nontrivial(n >= 2 and rows is not None and len({str(r) for r in rows}) > 1)


COLLECTIONS = ["list", "tuple", "set", "array", "range", "dict"]


@st.composite
def apply_cases(draw):
    base = draw(gens.circuits(min_n=0, max_n=0, max_ops=0) | gens.circuits(max_n=3, max_ops=3))
    qs = draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 9, 16, 40]), max_size=6))
    coll = draw(st.sampled_from(COLLECTIONS))
    if coll in ("set", "dict", "range"):
        qs = list(dict.fromkeys(qs))
    if coll == "range":
        a, b, s = draw(st.integers(0, 5)), draw(st.integers(0, 9)), draw(st.sampled_from([1, 2, 3, -1]))
        qs = list(range(a, b, s)) if s > 0 else list(range(b, a, -1))
    f = draw(factories)
    rows, form = draw(rows_for(f, len(set(qs))))
    return {"base": base, "qs": qs, "coll": coll, "f": f, "rows": rows, "form": form}


def collection(qs, coll):
    if coll == "tuple":
        return tuple(qs)
    if coll == "set":
        return set(qs)
    if coll == "dict":
        return dict.fromkeys(qs).keys()
    if coll == "array":
        return np.array(qs, dtype=int)
    if coll == "range":
        if len(qs) < 2:
            return range(qs[0], qs[0] + 1) if qs else range(0)
        s = qs[1] - qs[0]
        return range(qs[0], qs[-1] + (1 if s > 0 else -1), s)
    return list(qs)


def check_apply(case, ctx):
    base = lib.circuit(case["base"])
    f, rows, form, qs = case["f"], case["rows"], case["form"], case["qs"]
    before = frozen(base)
    args = [base, collection(qs, case["coll"]), factory(f)]
    c = apply_gate_to_qubits(*args, rows_of(rows, form)) if rows is not None else apply_gate_to_qubits(*args)
    require(frozen(base) == before, "the given circuit was modified")
    k = len(base.operations)
    require(
        list(c.operations[:k]) == list(base.operations), "existing operations changed"
    )
    want = sorted(set(qs))
    new = c.operations[k:]
    got = sorted(int(q) for op in new for q in op.qubit_indices)
    require(got == want, lambda: "gates added on %s instead of %s" % (got, want))
    require(
        c.n_qubits == max([base.n_qubits] + [q + 1 for q in qs]), lambda: "width %d" % c.n_qubits
    )
    left = [None] * len(want) if rows is None else list(rows)
    for op in new:
        hit = [i for i, row in enumerate(left) if same_op(op, f, row, form)]
        require(bool(hit), lambda: "%s does not use one of the parameter rows left %s" % (op, left))
        left.pop(hit[0])
    require(not left, "rows not used")
    if len(set(qs)) < len(qs):
        ctx.label("duplicates")
    if qs != sorted(qs):
        ctx.label("unordered")
    ctx.label(case["coll"])
    ctx.nontrivial(rows is not None and len(set(qs)) >= 2 and len({str(r) for r in rows}) > 1)


# ------------------------------------------------------------------------ ancillas


def check_ancilla(case, ctx):
    env = env_of(case)
    if big(case, env):
        raise Skip()
    n, m = case["n"], case["m"]
    c = lib.circuit(case)
    before = frozen(c)
    d = add_ancilla_register(c, m)
    require(frozen(c) == before, "the given circuit was modified")
    require(d.n_qubits == n + m, lambda: "%d + %d ancillas: width %d" % (n, m, d.n_qubits))
    if n + m <= 8:
        require(
            oracle.close(mat(d, env), np.kron(mat(c, env), np.eye(2**m)), TOL),
            "ancillas changed the action of the circuit",
        )
    if m >= 2:
        e = add_ancilla_register(add_ancilla_register(c, m - 1), 1)
        require(e.n_qubits == n + m, "ancillas added in two steps")
    labels(case, ctx)
    ctx.nontrivial(m >= 1 and len(case["ops"]) >= 1 and n >= 1)


ancilla_cases = st.builds(
    lambda c, s, m: dict(c, seed=s, m=m),
    st.one_of(
        gens.circuits(min_n=0, max_n=0, max_ops=0),
        gens.circuits(max_ops=4),
        gens.circuits(max_ops=3, max_n=3, symbolic=True),
    ),
    gens.seeds,
    st.sampled_from([0, 1, 1, 2, 2, 3, 4, 7, 30]),
)

# -------------------------------------------- long circuits; wide permutation circuits

long_case = st.builds(
    lambda c, s: dict(c, seed=s),
    gens.long_circuits(wrap=False) | gens.long_circuits(max_wrap=1, hi=30),
    gens.seeds,
)


def check_long(case, ctx):
    n = case["n"]
    c = lib.circuit(case)
    u = mat(c)
    tol = TOL * max(1.0, np.abs(u).max()) * 10
    inv = c.inverse()
    require(inv.n_qubits == n, "width of the inverse")
    if oracle.close(u @ u.conj().T, np.eye(2**n), TOL):
        require(oracle.close(mat(inv), u.conj().T, tol), "inverse is not the adjoint")
        require(oracle.close(mat(inv.inverse()), u, tol), "inverting twice changes the action")
        require(oracle.close(mat(c + inv), np.eye(2**n), tol), "circuit + inverse is not the identity")
        ctx.label("unitary")
    k = case["seed"] % (n + 1)
    d = c.controlled(k)
    require(d.n_qubits == n + 1, "width of the controlled circuit")
    require(oracle.close(mat(d), insert_control(u, k, n), tol), "controlled(%d) of a long circuit" % k)
    a = add_ancilla_register(c, 2)
    require(a.n_qubits == n + 2, "width with ancillas")
    require(oracle.close(mat(a), np.kron(u, np.eye(4)), tol), "ancillas changed the action")
    ctx.nontrivial()


MONO = [
    ({"g": "X"}, 1), ({"g": "Y"}, 1), ({"g": "Z"}, 1), ({"g": "S"}, 1), ({"g": "T"}, 1),
    ({"g": "PHASE", "p": [0.7]}, 1), ({"g": "RZ", "p": [-1.1]}, 1), ({"g": "CNOT"}, 2),
    ({"g": "SWAP"}, 2), ({"g": "ISWAP"}, 2), ({"g": "CPHASE", "p": [0.4]}, 2), ({"g": "CZ"}, 2),
    ({"custom": {"name": "d2", "kind": "diag2", "params": ["a", "b"]}, "p": [0.3, -0.8]}, 2),
    ({"w": "dagger", "of": {"custom": {"name": "d2", "kind": "diag2", "params": ["a", "b"]}, "p": [0.3, 2]}}, 2),
    ({"w": "ctrl", "k": 1, "of": {"g": "ISWAP"}}, 3),
    ({"w": "ctrl", "k": 2, "of": {"w": "dagger", "of": {"g": "T"}}}, 3),
    ({"w": "ctrl", "k": 2, "of": {"g": "X"}}, 3),
    ({"w": "dagger", "of": {"w": "ctrl", "k": 3, "of": {"g": "S"}}}, 4),
]


def mono_run(ops, bits, cache):
    """A basis state through gates that map basis states to basis states."""
    bits = list(bits)
    amp = 1.0 + 0j
    for op in ops:
        if op.gate not in cache[1]:
            cache[1].append(op.gate)
            cache[0].append(lib.num(op.gate.matrix))
        m = cache[0][cache[1].index(op.gate)]
        qs = [int(q) for q in op.qubit_indices]
        col = m[:, oracle.index([bits[q] for q in qs])]
        (rows,) = np.nonzero(np.abs(col) > 1e-12)
        require(len(rows) == 1, lambda: "%s maps a basis state to a superposition" % op)
        amp *= col[rows[0]]
        for q, b in zip(qs, oracle.bits(int(rows[0]), len(qs))):
            bits[q] = b
    return tuple(bits), amp


def check_mono(case, ctx):
    rng = random.Random(case["seed"])
    n = case["n"]
    picks = [MONO[i % len(MONO)] for i in case["ops"]]
    ops = [{"gate": g, "q": rng.sample(range(n), a)} for g, a in picks if a <= n]
    c = lib.circuit({"n": n, "ops": ops})
    ref = [(lib.ref_gate_matrix(o["gate"]), o["q"]) for o in ops]
    inv, twice = c.inverse(), c.inverse().inverse()
    both = c + inv
    k = case["k"] % (n + 1)
    ctl = c.controlled(k)
    m = case["m"]
    anc = add_ancilla_register(c, m)
    for x, w in ((inv, n), (twice, n), (both, n), (ctl, n + 1), (anc, n + m)):
        require(x.n_qubits == w, lambda: "width %r instead of %d" % (x.n_qubits, w))
    cache = [[], []]

    def same(got, want, what):
        require(
            got[0] == want[0] and abs(got[1] - want[1]) < 1e-6,
            lambda: "%s: basis state goes to %s %s instead of %s %s" % (what, *got, *want),
        )

    for _ in range(case["states"]):
        b = tuple(rng.randint(0, 1) for _ in range(n))
        # independent image
        cur, amp = list(b), 1.0 + 0j
        for u, qs in ref:
            col = u[:, oracle.index([cur[q] for q in qs])]
            r = int(np.argmax(np.abs(col)))
            amp *= col[r]
            for q, x in zip(qs, oracle.bits(r, len(qs))):
                cur[q] = x
        out = tuple(cur)
        same(mono_run(c.operations, b, cache), (out, amp), "circuit")
        same(mono_run(twice.operations, b, cache), (out, amp), "inverse of the inverse")
        same(mono_run(inv.operations, out, cache), (b, amp.conjugate()), "inverse")
        same(mono_run(both.operations, b, cache), (b, 1), "circuit + inverse")
        for ctrl in (0, 1):
            s = b[:k] + (ctrl,) + b[k:]
            t = out[:k] + (ctrl,) + out[k:] if ctrl else s
            same(mono_run(ctl.operations, s, cache), (t, amp if ctrl else 1), "controlled(%d)" % k)
        tail = tuple(rng.randint(0, 1) for _ in range(m))
        same(mono_run(anc.operations, b + tail, cache), (out + tail, amp), "with ancillas")
    ctx.label("n>=%d" % (n // 10 * 10), "ops>=%d" % (len(ops) // 10 * 10))
    ctx.nontrivial(len(ops) >= 2)


mono_case = st.builds(
    lambda n, s, ops, k, m: {"n": n, "seed": s, "ops": ops, "k": k, "m": m, "states": 4},
    st.sampled_from([1, 2, 4, 7, 11, 17, 33, 64, 100]),
    st.integers(0, 10**6),
    st.sampled_from([2, 6, 17, 33, 70]).flatmap(
        lambda k: st.lists(st.integers(0, len(MONO) - 1), min_size=k, max_size=k)
    ),
    st.integers(0, 100),
    st.sampled_from([1, 2, 11, 40]),
)


@st.composite
def big_layers(draw):
    n = draw(st.sampled_from([17, 33, 65, 100, 130]))
    f = draw(factories)
    k = n_params(f)
    rows = [[round(0.01 * i + j, 4) for j in range(k)] for i in range(n)] if k else None
    return {"n": n, "f": f, "rows": rows, "form": draw(st.sampled_from(ROW_FORMS)) if k else "list"}


@st.composite
def big_apply(draw):
    base = draw(gens.circuits(max_n=3, max_ops=3))
    f = draw(factories)
    k = n_params(f)
    m = draw(st.sampled_from([11, 17, 33, 65]))
    qs = random.Random(draw(st.integers(0, 999))).sample(range(draw(st.sampled_from([70, 200]))), m)
    coll = draw(st.sampled_from([c for c in COLLECTIONS if c != "range"]))
    if coll in ("list", "tuple", "array") and draw(st.booleans()):
        qs = qs + qs[:5]
    rows = [[round(0.01 * i + j, 4) for j in range(k)] for i in range(m)] if k else None
    return {"base": base, "qs": qs, "coll": coll, "f": f, "rows": rows, "form": draw(st.sampled_from(ROW_FORMS)) if k else "list"}


FACETS = [
    Facet("inverse", check_inverse, ">=2 operations or a wrapped or custom gate", with_seed, quick=400, thorough=15000, shard=50),
    Facet("inverse-table", check_inverse, ">=2 operations or a wrapped or custom gate", cases=single_gates, shard=60, exhaustive=True),
    Facet("controlled", check_controlled, ">=2 qubits, >=1 operations", ctrl_circuits, quick=350, thorough=15000, shard=50),
    Facet("controlled-table", check_controlled, ">=2 qubits, >=1 operations", cases=single_gates, shard=60, exhaustive=True),
    Facet("layers", check_layer, ">=2 different parameter rows", layer_cases(), quick=600, thorough=10000, shard=75),
    Facet("apply", check_apply, ">=2 qubits with different parameter rows", apply_cases(), quick=800, thorough=15000, shard=100),
    Facet("ancilla", check_ancilla, "ancillas added to a non-empty circuit", ancilla_cases, quick=400, thorough=6000, shard=50),
    Facet("long", check_long, "17-70 operations", long_case, quick=32, thorough=1200, shard=4),
    Facet("permutations", check_mono, ">=2 operations", mono_case, quick=160, thorough=5000, shard=20),
    Facet("long-layers", check_layer, ">=2 different parameter rows", big_layers(), quick=60, thorough=1000, shard=15),
    Facet("many-qubits", check_apply, ">=2 qubits with different parameter rows", big_apply(), quick=60, thorough=1000, shard=15),
]
