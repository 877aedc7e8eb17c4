"""C02: built-in gates are valid unitaries with their textbook identities."""
import math

import numpy as np
import sympy
from hypothesis import strategies as st
import orquestra.quantum.circuits as oc
from orquestra.quantum.circuits import MatrixFactoryGate

from .. import gens, lib, oracle
from ..core import Facet, require

ASSUMPTIONS = [
    "identities over all reals are decided on sampled parameters: every entry is a "
    "trigonometric polynomial of degree <= 2 in the half angles, so agreement on more than "
    "5 independent points per parameter determines it",
]
TOL = 1e-11  # rounding errors stay below 1e-13
GROUP = ["RX", "RY", "RZ", "RH", "PHASE", "CPHASE", "XX", "YY", "ZZ", "XY"]

big = st.one_of(
    gens.numeric_param,
    st.floats(-1e4, 1e4, allow_nan=False),
    st.integers(-10**6, 10**6),
    st.sampled_from([1e-300, 5e-324, 1e6, -1e6, ["r", 1, 3], ["mul", ["pi"], ["r", 5, 6]], ["pi"]]),
    st.builds(lambda k, d: ["mul", ["pi"], ["r", k, d]], st.integers(-24, 24), st.integers(1, 12)),
    st.integers(-12, 12).map(lambda k: k * math.pi / 4),
    st.builds(  # close to where a gate is special, and not there
        lambda k, e, s: k * math.pi / 4 + s * 10.0**e,
        st.sampled_from([0, 0, 0, 1, 2, 4, 8, 16]) | st.integers(-24, 24),
        st.integers(-10, -3),
        st.sampled_from([1, -1, 3]),
    ),
    st.integers(-9, 9).map(lambda k: ["npi", k]),
    st.just(["sqrt", ["i", 2]]),
    st.just(["div", ["pi"], ["sqrt", ["i", 3]]]),
)


def gate_of(name, ps):
    ref = getattr(oc, name)
    k = oracle.GATES[name][0]
    return ref(*[lib.expr(p) for p in ps]) if k else ref


def val(p):
    return float(oracle.eval_expr(p, {}))


def mat(name, ps):
    return lib.num(gate_of(name, ps).matrix)


def tol(*xs):
    return TOL * max(1.0, *[abs(x) for x in xs]) if xs else TOL


def check_gate(case, ctx):
    name, ps = case["g"], case["p"]
    k, n, ref = oracle.GATES[name]
    g = gate_of(name, ps)
    t = tol(*map(val, ps))
    require(g.num_qubits == n, lambda: "%s declares %s qubits" % (name, g.num_qubits))
    require(g.name == name, "name")
    require(len(g.params) == k, "number of parameters")
    m = g.matrix
    require(m.shape == (2**n, 2**n), lambda: "shape %s" % (m.shape,))
    m = lib.num(m)
    require(oracle.close(m @ m.conj().T, np.eye(2**n), t), name + " is not unitary")
    require(oracle.close(m.conj().T @ m, np.eye(2**n), t), name + " is not unitary")
    if g.is_hermitian:
        require(oracle.close(m, m.conj().T, t), name + " flagged self-adjoint but is not")
    require(
        oracle.close(lib.num(g.dagger.matrix), m.conj().T, t),
        name + ".dagger is not the conjugate transpose",
    )
    want = np.asarray(ref(*map(val, ps)), dtype=complex)
    require(oracle.close(m, want, t), name + " differs from its textbook matrix")
    ctx.label(name)
    ctx.nontrivial(any(abs(math.sin(val(p))) > 1e-3 for p in ps) or k == 0)


def gate_strategy(names):
    return st.one_of(
        [
            st.builds(
                lambda nm, ps: {"g": nm, "p": ps},
                st.just(n),
                st.lists(big, min_size=oracle.GATES[n][0], max_size=oracle.GATES[n][0]),
            )
            for n in names
        ]
    )


def grid_cases(tier):
    pts = [0, 1, -1, 2, math.pi, -math.pi / 2, math.pi / 4, 0.3, -2.7, 5.1, 7.9, ["pi"],
           ["mul", ["pi"], ["r", 1, 3]], ["r", 1, 2], ["f", 1.25], ["np", 0.7], ["npi", 3]]
    out = []
    for name, (k, _n, _f) in oracle.GATES.items():
        if k == 0:
            out.append({"g": name, "p": []})
        elif k == 1:
            out += [{"g": name, "p": [p]} for p in pts]
        elif k == 2:
            out += [{"g": name, "p": [p, q]} for p in pts for q in pts]
        else:
            c = [0.3, -2.7, ["pi"], 1] if tier == "quick" else pts[2:12]
            out += [{"g": name, "p": [p, q, r]} for p in c for q in c for r in c]
    return out


def check_group(case, ctx):
    name, a, b = case["g"], case["a"], case["b"]
    va, vb = val(a), val(b)
    t = tol(va, vb)
    if case["mode"] == "sum":
        # the sum is formed in the library-facing representation of the two angles
        s = lib.expr(a) + lib.expr(b)
        ms = lib.num(getattr(oc, name)(s).matrix)
    else:
        ms = mat(name, [va + vb])
    ma, mb = mat(name, [a]), mat(name, [b])
    require(oracle.close(mb @ ma, ms, t), name + ": angle a then b is not a+b")
    require(oracle.close(ma @ mb, ms, t), name + ": angle b then a is not a+b")
    require(
        oracle.close(mat(name, [-va]), ma.conj().T, t), name + ": angle -a is not the inverse"
    )
    for z in (0, 0.0, ["i", 0]):
        require(
            oracle.close(mat(name, [z]), np.eye(len(ma)), TOL), name + ": angle 0 not identity"
        )
    ctx.label(name)
    ctx.nontrivial(abs(math.sin(va / 2)) > 1e-3 and abs(math.sin(vb / 2)) > 1e-3)


# ------------------------------------------- symbolic matrices agree with the numeric


def check_symbolic(case, ctx):
    name, vs = case["g"], case["v"]
    k, n, ref = oracle.GATES[name]
    syms = sympy.symbols("alpha beta gamma")[:k]
    if case["real"]:
        syms = [sympy.Symbol(s.name, real=True) for s in syms]
    g = getattr(oc, name)(*syms)
    require([s.name for s in g.free_symbols] == sorted(s.name for s in syms), "free symbols")
    m = g.matrix
    require(m.shape == (2**n, 2**n), "shape")
    vals = list(zip(syms, vs))
    got = lib.num(m.subs(vals, simultaneous=True))
    want = np.asarray(ref(*vs), dtype=complex)
    require(oracle.close(got, want, tol(*vs)), name + " symbolic matrix")
    require(oracle.close(got @ got.conj().T, np.eye(2**n), tol(*vs)), "symbolic unitarity")
    d = lib.num(g.dagger.matrix.subs(vals, simultaneous=True))
    require(oracle.close(d, want.conj().T, tol(*vs)), name + " symbolic dagger")
    b = g.bind(dict(vals))
    require(oracle.close(lib.num(b.matrix), want, tol(*vs)), name + " bound matrix")
    ctx.label(name)
    ctx.nontrivial(any(abs(math.sin(v)) > 1e-3 for v in vs))


def sym_strategy():
    one = []
    for nm, (k, _n, _f) in oracle.GATES.items():
        if k:
            one.append(
                st.builds(
                    lambda g, v, r: {"g": g, "v": v, "real": r},
                    st.just(nm),
                    st.lists(st.floats(-7, 7).map(lambda x: round(x, 4)), min_size=k, max_size=k),
                    st.booleans(),
                )
            )
    return st.one_of(one)


# ---------------------------------------------------------------- defining relations


def relations(_tier):
    return [{"rel": k} for k in sorted(RELATIONS)]


def M(name, *ps):
    return mat(name, list(ps))


RELATIONS = {
    "S*S=Z": lambda: (M("S") @ M("S"), M("Z")),
    "T*T=S": lambda: (M("T") @ M("T"), M("S")),
    "SX*SX=X": lambda: (M("SX") @ M("SX"), M("X")),
    "HZH=X": lambda: (M("H") @ M("Z") @ M("H"), M("X")),
    "HXH=Z": lambda: (M("H") @ M("X") @ M("H"), M("Z")),
    "Y=iXZ": lambda: (M("Y"), 1j * M("X") @ M("Z")),
    "X flips": lambda: (M("X") @ [1, 0], [0, 1]),
    "Z phase": lambda: (M("Z"), np.diag([1, -1])),
    "I": lambda: (M("I"), np.eye(2)),
    "CNOT=controlled X": lambda: (M("CNOT"), oracle.controlled(M("X"), 1)),
    "CZ=controlled Z": lambda: (M("CZ"), oracle.controlled(M("Z"), 1)),
    "CNOT=X.controlled": lambda: (M("CNOT"), lib.num(oc.X.controlled(1).matrix)),
    "CZ=Z.controlled": lambda: (M("CZ"), lib.num(oc.Z.controlled(1).matrix)),
    "SWAP exchanges": lambda: (
        M("SWAP"),
        np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]),
    ),
    "SWAP=3 CNOT": lambda: (
        M("SWAP"),
        oracle.embed(M("CNOT"), [0, 1], 2)
        @ oracle.embed(M("CNOT"), [1, 0], 2)
        @ oracle.embed(M("CNOT"), [0, 1], 2),
    ),
    "ISWAP": lambda: (M("ISWAP"), M("SWAP") @ np.diag([1, 1j, 1j, 1])),
    "delay 0": lambda: (M("Delay", 0), np.eye(2)),
    "delay 7": lambda: (M("Delay", 7), np.eye(2)),
    "delay symbolic": lambda: (lib.num(oc.Delay(sympy.Symbol("d")).matrix), np.eye(2)),
    "CPHASE=controlled PHASE": lambda: (M("CPHASE", 0.7), oracle.controlled(M("PHASE", 0.7), 1)),
    "PHASE(pi/2)=S": lambda: (M("PHASE", math.pi / 2), M("S")),
    "PHASE(pi/4)=T": lambda: (M("PHASE", math.pi / 4), M("T")),
}


def check_relation(case, ctx):
    a, b = RELATIONS[case["rel"]]()
    require(oracle.close(a, b, 1e-12), "relation %s fails" % case["rel"])
    ctx.nontrivial()


def table_cases(_tier):
    names = {n for n in dir(oc) if isinstance(getattr(oc, n), MatrixFactoryGate)}
    return [{"name": n} for n in sorted(names | set(oracle.GATES))]


def check_table(case, ctx):
    """Every expected gate is exported; exported constant gates are judged even if new."""
    name = case["name"]
    obj = getattr(oc, name, None)
    if name in oracle.GATES:
        require(obj is not None, "gate %s is missing" % name)
        k = oracle.GATES[name][0]
        g = obj(*[0.5] * k) if k else obj
        require(isinstance(g, MatrixFactoryGate), "%s is not a gate" % name)
        ctx.nontrivial()
    else:
        m = lib.num(obj.matrix)
        require(m.shape == (2**obj.num_qubits,) * 2, "dimension of %s" % name)
        require(oracle.close(m @ m.conj().T, np.eye(len(m)), 1e-9), "%s not unitary" % name)
        if obj.is_hermitian:
            require(oracle.close(m, m.conj().T, 1e-9), "%s not self-adjoint" % name)


PARAM = [n for n, g in oracle.GATES.items() if g[0]]
FACETS = [
    Facet("grid", check_gate, "every gate on a parameter grid; sin(parameter) != 0", cases=grid_cases, shard=60),
    Facet(
        "gates",
        check_gate,
        "every parametric gate at drawn parameters of every accepted number kind; sin != 0",
        gate_strategy([n for n in PARAM if n != "U3"]),
        quick=1500,
        thorough=60000,
        shard=120,
    ),
    Facet("u3", check_gate, "as gates, for U3 (slow symbolic simplification)", gate_strategy(["U3"]), quick=120, thorough=3000, shard=15),
    Facet(
        "group",
        check_group,
        "angle pairs for the ten one-parameter gates, neither trivial",
        st.builds(
            lambda g, a, b, m: {"g": g, "a": a, "b": b, "mode": m},
            st.sampled_from(GROUP),
            big,
            big,
            st.sampled_from(["sum", "num"]),
        ),
        quick=1200,
        thorough=50000,
        shard=120,
    ),
    Facet("symbolic", check_symbolic, "symbolic matrix substituted numerically", sym_strategy(), quick=300, thorough=6000, shard=30),
    Facet("relations", check_relation, "fixed-gate relations", cases=relations, exhaustive=True),
    Facet("table", check_table, "exported gate table", cases=table_cases, exhaustive=True),
]
