"""C18: decomposing a circuit never changes what it does."""
import random

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum.circuits import Circuit, GateOperation, ResetOperation
from orquestra.quantum.decompositions import (
    U3GateToRotation,
    decompose_operations,
    decompose_orquestra_circuit,
)

from .. import gens, lib, oracle
from ..core import Facet, Skip, require

ASSUMPTIONS = [
    "symbolic parameters are evaluated by binding; powers and exponentials occur without symbols",
    "rules are pure functions of the operation they are given",
    "a general rotation inside a wrapper other than controls (U3.dagger, U3.power(2)) is not an "
    "operation the bundled rule has to replace",
]


# ----------------------------------------------------------- the bundled rule


def is_u3(o):
    """0 for an operation of another kind, else 1 + number of controls.

    Two daggers, also with controls in between, are none."""
    r, k, daggers = o.get("gate"), 0, 0
    while r and r.get("w") in ("ctrl", "dagger"):
        if r["w"] == "dagger":
            daggers += 1
        else:
            k += r["k"]
        r = r["of"]
    if not r or r.get("g") != "U3" or daggers % 2:
        return 0
    return 1 + k if not daggers or lib_is_u3(lib.op(o)) else 0


def u3_params(o):
    return lib.base(o["gate"])["p"]


def segments(ops):
    """Split at the operations which are not unitary."""
    out = [[]]
    for o in ops:
        if "reset" in o:
            out += [o, []]
        else:
            out[-1].append(o)
    return out


def ref_op(o, env):
    """(matrix, qubits) by the reference semantics; qubits None acts on all."""
    if "phase" in o:
        return np.diag([oracle.ph(oracle.eval_expr(p, env)) for p in o["phase"]]), None
    return lib.ref_gate_matrix(o["gate"], env), o["q"]


def dropped(o, env):
    """What is left of a controlled U3 whose phase factor got lost."""
    u, q = ref_op(o, env)
    _, phi, lam = [oracle.eval_expr(p, env) for p in u3_params(o)]
    d = len(u)
    return oracle.controlled(oracle.ph(-(phi + lam) / 2) * u[d - 2 :, d - 2 :], is_u3(o) - 1), q


def total(parts, n):
    m = np.eye(2**n, dtype=complex)
    for u, q in parts:
        m = u @ m if q is None else oracle.apply_op(m, u, q, n)
    return m


def lib_parts(ops, env, n):
    out, memo = [], {}
    for o in ops:
        if isinstance(o, GateOperation):
            same = memo.setdefault(str(o.gate), [])
            m = next((x for g, x in same if g is o.gate or g == o.gate), None)
            if m is None:
                m = lib.subs_num(o.gate.matrix, env)
                same.append((o.gate, m))
            out.append((m, list(o.qubit_indices)))
        else:
            e = np.eye(2**n, dtype=complex)
            out.append(
                (np.array([lib.num(np.asarray(o.apply(e[:, i]))) for i in range(2**n)]).T, None)
            )
    return out


def up_to_phase(a, b, tol):
    i = np.unravel_index(np.argmax(abs(b)), b.shape)
    if abs(a[i]) < 1e-6:
        return False
    ph = (a[i] / abs(a[i])) / (b[i] / abs(b[i]))
    return oracle.close(a, ph * b, tol)


def check_u3(case, ctx):
    n, recipe = case["n"], case["ops"]
    env = {s: v for s, v in zip(gens.SYMS, case["values"])}
    for o in recipe:
        for p in (lib.base(o["gate"]).get("p") or []) if "gate" in o else []:
            if abs(oracle.eval_expr(p, env)) > 1e3:
                raise Skip()
    circuit = Circuit([lib.op(o) for o in recipe], n_qubits=n)
    before = list(circuit.operations)
    rules = [U3GateToRotation() for _ in range(case["rules"])]
    with lib.limit(20, ctx):
        out = decompose_orquestra_circuit(circuit, rules)
        again = decompose_orquestra_circuit(out, rules)
    require(isinstance(out, Circuit), lambda: "returned %r" % type(out))
    require(circuit.operations == before, "the circuit was modified")
    require(
        out.n_qubits == circuit.n_qubits,
        lambda: "%d qubits became %d" % (circuit.n_qubits, out.n_qubits),
    )
    k = [is_u3(o) for o in recipe]
    if not rules:
        require(out == circuit, "changed by an empty list of rules")
    if not any(k) or not rules:
        require(
            out.operations == circuit.operations,
            lambda: "no rule applies to %s, got %s" % (circuit, out),
        )
    # what the rule does not apply to is still there, in order, and the rest is gone
    kept = [o for o, x in zip(circuit.operations, k) if not x]
    if rules:
        it = iter(out.operations)
        for o in kept:
            require(any(o == x for x in it), lambda: "%s is missing from %s (of %s)" % (o, out, circuit))
        for o in out.operations:
            require(not lib_is_u3(o), lambda: "%s was not replaced" % o)
        require(
            len(again.operations) == len(out.operations) and again == out,
            lambda: "decomposed again: %s became %s" % (out, again),
        )
    # same action, between the operations which are not unitary
    mine, theirs = segments(recipe), [[]]
    for o in out.operations:
        if isinstance(o, ResetOperation):
            theirs += [o, []]
        else:
            theirs[-1].append(o)
    require(
        len(mine) == len(theirs), lambda: "operations %s of %s" % (out.operations, circuit.operations)
    )
    missing = False
    for a, b in zip(mine, theirs):
        if not isinstance(a, list):
            want = lib.op(a)
            require(
                type(b) is type(want) and tuple(b.qubit_indices) == tuple(want.qubit_indices),
                lambda: "%s became %s" % (a, b),
            )
            continue
        want = total([ref_op(o, env) for o in a], n)
        got = total(lib_parts(b, env, n), n)
        if up_to_phase(got, want, 1e-7 * max(1, abs(want).max())):
            continue
        lost = total([dropped(o, env) if rules and is_u3(o) > 1 else ref_op(o, env) for o in a], n)
        if up_to_phase(got, lost, 1e-7 * max(1, abs(want).max())):
            missing = True  # exactly the recorded defect
            continue
        require(False, lambda: "%s acts differently from %s" % (out, circuit))
    if missing:
        ctx.label("relative phase lost")
    if any("gate" in o and "custom" in lib.base(o["gate"]) and lib.base(o["gate"])["custom"]["name"] == "U3" for o in recipe):
        ctx.label("namesake")
    ctrl = max(k, default=0) > 1
    ctx.label("controlled" if ctrl else "plain" if any(k) else "none")
    ctx.nontrivial(any(k) and not all(k) and bool(rules))
    require(
        not missing,
        lambda: "controlled U3 lost the relative phase exp(i (phi + lambda) / 2) in %s" % out,
        "controlled-u3-relative-phase",
    )


def lib_is_u3(o):
    """Not true of a custom gate of that name."""
    g = getattr(o, "gate", None)
    while g is not None and hasattr(g, "num_control_qubits"):
        g = g.wrapped_gate
    return g is not None and g.name == "U3" and g == lib.oc.U3(*g.params)


# ---------------------------------------------------------- rules in general

LIMIT = 3000
NAMES = ["X", "Y", "Z", "H", "S", "T", "SX"]


class Rewrite:
    """Replaces operations with a given gate on a parity of qubits."""

    def __init__(self, r, kind):
        self.r, self.kind = r, kind

    def predicate(self, op):
        name = op[0] if isinstance(op, tuple) else op.gate.name
        q = op[1] if isinstance(op, tuple) else op.qubit_indices[0]
        return name == self.r["of"] and (self.r["par"] is None or q % 2 == self.r["par"])

    def production(self, op):
        if isinstance(op, tuple):
            out = [(name, op[1] + s) for name, s in self.r["to"]]
        else:
            import orquestra.quantum.circuits as oc

            out = [getattr(oc, name)(op.qubit_indices[0] + s) for name, s in self.r["to"]]
        if self.kind == "gen":
            return (x for x in out)
        return tuple(out) if self.kind == "tuple" else reversed(out[::-1]) if self.kind == "rev" else out


def check_rules(case, ctx):
    import orquestra.quantum.circuits as oc

    ops = [tuple(o) for o in case["ops"]]
    rules = case["rules"]
    want, sizes = list(ops), []
    hits = 0
    for r in rules:
        rw = Rewrite(r, "list")
        new = []
        for o in want:
            if rw.predicate(o):
                hits += 1
                new += rw.production(o)
            else:
                new.append(o)
        want = new
        if len(want) > LIMIT:
            raise Skip()
    seq = tuple if case["as"] == "tuple" else list
    got = decompose_operations(
        iter(ops) if case["as"] == "iter" else list(ops), seq(Rewrite(r, case["kind"]) for r in rules)
    )
    require(
        list(got) == want, lambda: "%s by %s: %s, expected %s" % (ops, rules, list(got), want)
    )
    n = 1 + max([q for _, q in ops + want], default=0) + case["idle"]
    circuit = Circuit([getattr(oc, g)(q) for g, q in ops], n_qubits=n)
    keep = list(circuit.operations)
    out = decompose_orquestra_circuit(circuit, seq(Rewrite(r, case["kind"]) for r in rules))
    require(
        [(o.gate.name, o.qubit_indices[0]) for o in out.operations] == want,
        lambda: "%s by %s: %s, expected %s" % (ops, rules, out, want),
    )
    require(out.n_qubits == n, lambda: "%d qubits became %d" % (n, out.n_qubits))
    require(circuit.operations == keep, "the circuit was modified")
    if not rules:
        require(out == circuit, "changed by an empty list of rules")
    # dependence on the order of the rules
    alt = list(ops)
    for r in rules[::-1]:
        rw = Rewrite(r, "list")
        alt = [x for o in alt for x in (rw.production(o) if rw.predicate(o) else [o])]
        if len(alt) > LIMIT:
            break
    ctx.nontrivial(hits >= 2 and alt != want)


# ------------------------------------------------------------------ strategies


@st.composite
def u3_op(draw, n, symbolic):
    par = st.one_of(gens.param(symbolic), gens.angles)
    t, p = draw(par), draw(par)
    how = draw(st.sampled_from(["free", "free", "opposite", "opposite", "4pi"]))
    # phi + lambda a multiple of 4 pi: nothing is lost when the phase is dropped
    if how == "free":
        lam = draw(par)
    else:
        lam = ["neg", p if isinstance(p, list) and p[0] != "np" else ["f", float(oracle.eval_expr(p, {}))]]
        if how == "4pi":
            lam = ["add", lam, ["mul", ["i", draw(st.sampled_from([4, -4, 8]))], ["pi"]]]
    r, k = {"g": "U3", "p": [t, p, lam]}, 1
    c = draw(st.sampled_from([0, 0, 1, 1, 2, 3]))
    c = min(c, n - 1)
    while c:
        j = draw(st.integers(1, c))
        r, k, c = {"w": "ctrl", "k": j, "of": r}, k + j, c - j
    return {"gate": r, "q": draw(gens.qubits(k, n))}


@st.composite
def circuits(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    symbolic = draw(st.sampled_from([False, False, True]))
    kinds = draw(
        st.lists(
            st.sampled_from(["u3", "u3", "u3", "gate", "gate", "rot", "wrapped", "phase", "reset", "namesake"]),
            max_size=6,
        )
    )
    ops = []
    for k in kinds:
        if k == "u3":
            ops.append(draw(u3_op(n, symbolic)))
        elif k == "gate":
            ops.append(draw(gens.gate_op(n, symbolic, max_wrap=1)))
        elif k == "rot":
            g = draw(st.sampled_from(["RZ", "RY", "PHASE", "RX"]))
            r = {"g": g, "p": [draw(gens.param(symbolic))]}
            q = draw(gens.qubits(1, n))
            if n > 1 and draw(st.booleans()):
                r, q = {"w": "ctrl", "k": 1, "of": r}, draw(gens.qubits(2, n))
            ops.append({"gate": r, "q": q})
        elif k == "wrapped":  # stays as it is
            r = {"g": "U3", "p": [draw(gens.angles) for _ in range(3)]}
            w = draw(st.sampled_from(["dagger", "pow", "ctrl-dagger"]))
            if w == "pow":
                r = {"w": "pow", "e": draw(st.sampled_from([2, 3, -1])), "of": r}
            else:
                r = {"w": "dagger", "of": r}
            q = draw(gens.qubits(1, n))
            if w == "ctrl-dagger" and n > 1:
                r, q = {"w": "ctrl", "k": 1, "of": r}, draw(gens.qubits(2, n))
            ops.append({"gate": r, "q": q})
        elif k == "namesake":  # a custom gate called like the general rotation
            m = draw(st.sampled_from([j for j in (1, 1, 2) if j <= n]))
            par = gens.param(symbolic)
            r = draw(st.one_of(gens.templ(m, par), gens.qr_def(m).map(lambda c: {"custom": c, "p": []})))
            r = dict(r, custom=dict(r["custom"], name="U3"))
            j = draw(st.integers(0, n - m))
            if j:
                r = {"w": "ctrl", "k": j, "of": r}
            ops.append({"gate": r, "q": draw(gens.qubits(m + j, n))})
        elif k == "phase":
            ops.append({"phase": draw(st.lists(gens.small_floats, min_size=2**n, max_size=2**n))})
        else:
            ops.append({"reset": draw(st.integers(0, n - 1))})
    return {
        "n": n + draw(st.sampled_from([0, 0, 0, 1])) if "phase" not in kinds else n,
        "ops": ops,
        "rules": draw(st.sampled_from([1, 1, 1, 2, 0])),
        "values": [draw(gens.small_floats) for _ in gens.SYMS],
    }


rule = st.fixed_dictionaries(
    {
        "of": st.sampled_from(NAMES[:4]),
        "par": st.sampled_from([None, None, 0, 1]),
        "to": st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, 1)).map(list), max_size=3),
    }
)

rule_cases = st.fixed_dictionaries(
    {
        "ops": st.lists(
            st.tuples(st.sampled_from(NAMES), st.integers(0, 3)).map(list), max_size=6
        ),
        "rules": st.lists(rule, max_size=5),
        "kind": st.sampled_from(["list", "tuple", "gen", "rev"]),
        "as": st.sampled_from(["list", "tuple", "iter"]),
        "idle": st.sampled_from([0, 1, 2]),
    }
)

# ----------------------------------------------------------- long circuits

def rng_u3(rng, n, names, controls):
    a, b, c = (gens.big_param(rng, names) for _ in range(3))
    x = rng.random()
    if x < 0.5:
        c = ["neg", b if isinstance(b, list) else ["f", b]]
    elif x < 0.55:
        c = ["add", ["neg", b if isinstance(b, list) else ["f", b]], ["mul", ["i", 4], ["pi"]]]
    r = {"g": "U3", "p": [a, b, c]}
    k = rng.choice([0, 0, 1, 2, controls]) if n > 1 else 0
    k = q = min(k, n - 1)
    while k:
        j = rng.randint(1, k)
        r, k = {"w": "ctrl", "k": j, "of": r}, k - j
    return {"gate": r, "q": rng.sample(range(n), q + 1)}


def rng_u3_circuit(seed, n, k, controls):
    rng = random.Random(seed)
    names = gens.SYMS[:3] if rng.random() < 0.4 else ()
    customs = gens.big_customs(rng, 2)
    if rng.random() < 0.3:
        customs[0]["name"] = "U3"
    palette = [rng_u3(rng, n, names, controls) for _ in range(rng.randint(1, 6))]
    share = rng.choice([0.1, 0.5, 0.9])
    ops = []
    while len(ops) < k:
        if rng.random() < share:
            o = rng.choice(palette)
            if rng.random() < 0.5:  # the same gate elsewhere
                o = {"gate": o["gate"], "q": rng.sample(range(n), len(o["q"]))}
        else:
            r, a = gens.big_gate(rng, names=names, customs=customs, controls=1, wraps=1)
            if a > n:
                continue
            o = {"gate": r, "q": rng.sample(range(n), a)}
        if rng.random() < 0.01:
            o = {"reset": rng.randrange(n)}
        ops.append(o)
    return {
        "n": n,
        "ops": ops,
        "rules": rng.choice([1, 1, 1, 1, 2, 0]),
        "values": [round(rng.uniform(-3, 3), 3) for _ in gens.SYMS],
    }


big_u3 = st.builds(
    lambda seed, shape: rng_u3_circuit(seed, *shape),
    st.integers(0, 10**9),
    st.sampled_from([(1, 120, 0), (2, 80, 1), (3, 60, 2), (4, 40, 3), (5, 30, 4), (6, 20, 5), (7, 12, 6), (7, 30, 3)]),
)


def rng_rules(seed, k, m):
    rng = random.Random(seed)
    return {
        "ops": [[rng.choice(NAMES), rng.randint(0, 12)] for _ in range(k)],
        "rules": [
            {
                "of": rng.choice(NAMES),
                "par": rng.choice([None, 0, 1]),
                "to": [[rng.choice(NAMES), rng.randint(0, 1)] for _ in range(rng.choice([0, 1, 1, 2, 3]))],
            }
            for _ in range(m)
        ],
        "kind": rng.choice(["list", "tuple", "gen", "rev"]),
        "as": rng.choice(["list", "tuple", "iter"]),
        "idle": rng.choice([0, 1, 5]),
    }


big_rules = st.builds(rng_rules, st.integers(0, 10**9), st.integers(20, 200), st.integers(2, 14))

FACETS = [
    Facet("u3", check_u3, "U3 and other operations, at least one rule", circuits(), quick=1500, thorough=40000, shard=60),
    Facet("rules", check_rules, ">=2 replacements, order of the rules matters", rule_cases, quick=2000, thorough=60000, shard=250),
    Facet("u3-large", check_u3, "U3 and other operations, at least one rule", big_u3, quick=50, thorough=1500, shard=7),
    Facet("rules-large", check_rules, ">=2 replacements, order of the rules matters", big_rules, quick=150, thorough=4000, shard=20),
]
