"""C06: binding parameters commutes with evaluating the circuit."""
import itertools
import random

import numpy as np
import sympy
from hypothesis import strategies as st
from orquestra.quantum.circuits import Circuit, GateOperation, MultiPhaseOperation

from .. import gens, lib, oracle
from ..core import Facet, Skip, fail, require

ASSUMPTIONS = [
    "substituted values are real numbers or real expressions",
    "registers up to 3 qubits (4 in the thorough tier) in whole-circuit comparisons",
    "numeric agreement to 1e-8 times the size of the largest intermediate value",
    "order of the symbols of one operation is not judged, only order between operations",
]

NAMES = ["x", "y", "theta", "gamma", "beta_2", "beta_10"]
FRESH = ["p", "q", "r"]

# ------------------------------------------------------------------------- helpers


def strip_pow(r):
    if "of" not in r:
        return r
    if r["w"] in ("pow", "exp"):
        return strip_pow(r["of"])
    return dict(r, of=strip_pow(r["of"]))


def env_of(seed):
    r = np.random.RandomState(seed)
    return {n: round(float(r.uniform(-2, 2)), 4) for n in NAMES + FRESH + ["a", "b", "c", "alpha", "unused"]}


def symmap(m):
    """[[name, expr recipe]...] -> library symbol map"""
    return {sympy.Symbol(k): lib.expr(v) for k, v in m}


def after(m, env):
    """Environment seen by the unbound object: M first, then env."""
    out = dict(env)
    for k, v in m:
        out[k] = oracle.eval_expr(v, env)
    return out


def params_of(o):
    if "phase" in o:
        return o["phase"]
    if "reset" in o:
        return []
    return lib.base(o["gate"]).get("p", []) or []


def value(p, env):
    """Numeric value of a held parameter (number or sympy) under env."""
    if isinstance(p, sympy.Basic):
        p = p.subs({sympy.Symbol(k): v for k, v in env.items()}, simultaneous=True)
    return lib.cnum(p)


def held_symbols(op):
    out = set()
    for p in op.params:
        out |= getattr(p, "free_symbols", set())
    return out


def scale_of(c, m, env):
    e2 = after(m, env)
    s = 1.0
    for o in c["ops"]:
        for p in params_of(o):
            s = max(s, oracle.magnitude(p, e2))
    for _, v in m:
        s = max(s, oracle.magnitude(v, env))
    if s > 1e4:
        raise Skip()
    return s


def same_structure(a, b):
    """b is a with other parameters."""
    require(type(a) is type(b), lambda: "kind of %s changed to %s" % (a, b))
    if isinstance(a, GateOperation):
        require(tuple(a.qubit_indices) == tuple(b.qubit_indices), "qubit indices changed")
        x, y = a.gate, b.gate
        require(x.num_qubits == y.num_qubits, "number of qubits changed")
        while hasattr(x, "wrapped_gate"):
            require(
                type(x) is type(y)
                and getattr(x, "num_control_qubits", 0) == getattr(y, "num_control_qubits", 0),
                lambda: "wrappers of %s changed to %s" % (a, b),
            )
            x, y = x.wrapped_gate, y.wrapped_gate
        require(x.name == y.name, lambda: "%s changed to %s" % (a, b))
    else:
        require(tuple(a.qubit_indices) == tuple(b.qubit_indices), "qubit indices changed")
    require(len(a.params) == len(b.params), "number of parameters changed")


def check_op(o, op, bound, m, env, tol):
    same_structure(op, bound)
    keys = {k for k, _ in m}
    e2 = after(m, env)
    vals = {k: oracle.expr_symbols(v) for k, v in m}
    left = set()
    for p, x, y in zip(params_of(o), op.params, bound.params):
        deps = {s.name for s in getattr(x, "free_symbols", set())}
        if not deps & keys:
            require(
                type(x) is type(y) and bool(x == y),
                lambda: "parameter %r not mentioning %s became %r" % (x, sorted(keys), y),
            )
        want = oracle.eval_expr(p, e2)
        got = value(y, env)
        require(
            abs(got - want) <= tol,
            lambda: "%s: parameter %r bound with %s is %r = %s, expected %s" % (op, x, m, y, got, want),
        )
        mine = {s.name for s in getattr(y, "free_symbols", set())}
        may = (deps - keys).union(*(vals[k] for k in deps & keys))
        require(
            mine <= may,
            lambda: "%s bound with %s: parameter %r still depends on %s" % (op, m, y, sorted(mine - may)),
        )
        left |= mine
    reported = list(bound.free_symbols)
    require(len(set(reported)) == len(reported), "a free symbol is listed twice")
    require(
        {s.name for s in reported} == left and all(isinstance(s, sympy.Symbol) for s in reported),
        lambda: "%s reports free symbols %s, its parameters depend on %s" % (bound, reported, left),
    )
    if isinstance(bound, GateOperation):
        require(set(bound.gate.free_symbols) == set(reported), "gate and operation disagree on free symbols")


def check_free(c, circ):
    fs = list(circ.free_symbols)
    require(len(set(fs)) == len(fs), "circuit lists a free symbol twice")
    seen, order = set(), []
    for op in circ.operations:
        new = held_symbols(op) - seen
        order.append(new)
        seen |= new
    require(set(fs) == seen, lambda: "circuit reports %s, parameters depend on %s" % (fs, seen))
    i = 0
    for new in order:
        require(
            set(fs[i : i + len(new)]) == new,
            lambda: "free symbols %s are not in order of first appearance %s" % (fs, order),
        )
        i += len(new)


def bind_matrix(o, op, bound, m, env, tol):
    """Gate matrix after binding == matrix of the unbound gate, substituted afterwards."""
    e2 = after(m, env)
    want = lib.ref_gate_matrix(o["gate"], e2)
    sym = lib.subs_num(op.gate.matrix, e2)
    got = lib.subs_num(bound.gate.matrix, env)
    require(
        oracle.close(got, sym, tol),
        lambda: "%s bound with %s: matrix differs from the symbolic matrix substituted afterwards" % (op, m),
    )
    require(oracle.close(got, want, tol), lambda: "%s bound with %s: wrong matrix" % (op, m))


# ------------------------------------------------------------------------ strategies

real_num = st.one_of(
    st.floats(-2, 2).map(lambda x: round(x, 4)),
    st.integers(-3, 3),
    st.tuples(st.integers(-5, 5), st.integers(1, 4)).map(lambda t: ["r", *t]),
    st.floats(-2, 2).map(lambda x: ["np", round(x, 3)]),
    st.floats(-2, 2).map(lambda x: ["f", round(x, 3)]),
    st.just(["mul", ["r", 1, 2], ["pi"]]),
    st.just(0),
)


def map_value(names):
    s = st.sampled_from(names).map(lambda n: ["s", n])
    return st.one_of(
        real_num,
        real_num,
        s,
        s,
        st.tuples(s, real_num).map(lambda t: ["add", t[0], t[1]]),
        st.tuples(s, s).map(lambda t: ["mul", ["i", 2], ["sub", t[0], t[1]]]),
        s.map(lambda t: ["sin", t]),
        s.map(lambda t: ["neg", t]),
    )


@st.composite
def symmaps(draw, names=NAMES, values=None):
    ks = draw(st.lists(st.sampled_from(names), unique=True, max_size=len(names), min_size=1))
    values = map_value(names + FRESH[:1]) if values is None else values
    kind = draw(st.sampled_from(["any", "any", "swap", "shift"]))
    if kind == "swap" and len(ks) > 1:
        # permutation of the keys among themselves
        return [[k, ["s", v]] for k, v in zip(ks, draw(st.permutations(ks)))]
    if kind == "shift":
        return [[k, ["add", ["s", k], draw(real_num)]] for k in ks]
    return [[k, draw(values)] for k in ks]


def phase_op(n):
    p = st.one_of(
        st.sampled_from(NAMES).map(lambda s: ["s", s]), gens.sym_expr(NAMES), gens.numeric_param
    )
    return st.lists(p, min_size=2**n, max_size=2**n).map(lambda ps: {"phase": ps})


def reset_op(n):
    return st.integers(0, n - 1).map(lambda q: {"reset": q})


def no_pow(c):
    return dict(
        c, ops=[dict(o, gate=strip_pow(o["gate"])) if "gate" in o else o for o in c["ops"]]
    )


@st.composite
def circ_cases(draw, values=None, extra=True, n=3, ops=4):
    ex = (lambda k: st.one_of(phase_op(k), reset_op(k))) if extra else None
    c = no_pow(draw(gens.circuits(1, n, ops, 1, symbolic=True, extra=ex, names=NAMES)))
    return {"c": c, "m": draw(symmaps(values=values)), "seed": draw(gens.seeds)}


# --------------------------------------------------------------------------- facets


def has_sym(c, names):
    return any(oracle.expr_symbols(p) & names for o in c["ops"] for p in params_of(o))


def seq_matters(m):
    """A value mentions a symbol that is also a key."""
    keys = {k for k, _ in m}
    return any(oracle.expr_symbols(v) & keys for _, v in m)


def check_circuit(case, ctx):
    c, m, env = case["c"], case["m"], env_of(case["seed"])
    circ = lib.circuit(c)
    tol = 1e-9 * scale_of(c, m, env)
    mm = symmap(m)
    before = dict(mm)
    bound = circ.bind(mm)
    require(mm == before, "bind changed the map")
    require(type(bound) is Circuit and bound.n_qubits == circ.n_qubits, "register width changed")
    require(len(bound.operations) == len(circ.operations), "number of operations changed")
    check_free(c, circ)
    check_free(c, bound)
    for o, op, b in zip(c["ops"], circ.operations, bound.operations):
        check_op(o, op, op, [], env, tol)
        check_op(o, op, b, m, env, tol)
        check_op(o, op, op.bind(mm), m, env, tol)
        if isinstance(op, GateOperation) and op.params:
            bind_matrix(o, op, b, m, env, tol * 10)
            check_op(o, op, op.gate.bind(mm)(*op.qubit_indices), m, env, tol)
    # extra symbols
    extra = dict(mm)
    extra[sympy.Symbol("unused")] = sympy.Symbol("unused2") + 1
    require(circ.bind(extra) == bound, "a superfluous symbol in the map changed the result")
    require(circ.bind({}) == circ, "binding nothing changed the circuit")
    # no free symbols left exactly when every parameter is free of symbols
    require(
        (not list(bound.free_symbols)) == (not any(held_symbols(o) for o in bound.operations)),
        "free symbols",
    )
    if seq_matters(m):
        ctx.label("overlapping-map")
    if any("phase" in o for o in c["ops"]):
        ctx.label("phase-op")
    if any("reset" in o for o in c["ops"]):
        ctx.label("reset-op")
    if any("gate" in o and "of" in o["gate"] and params_of(o) for o in c["ops"]):
        ctx.label("wrapped")
    if any("gate" in o and "custom" in lib.base(o["gate"]) and params_of(o) for o in c["ops"]):
        ctx.label("custom")
    ctx.nontrivial(has_sym(c, {k for k, _ in m}))


def check_unitary(case, ctx):
    """Whole-circuit matrix (gates) or evolved state (with phase operations)."""
    c, m, env = case["c"], case["m"], env_of(case["seed"])
    circ = lib.circuit(c)
    tol = 1e-8 * scale_of(c, m, env)
    e2 = after(m, env)
    bound = circ.bind(symmap(m))
    n = c["n"]
    want = oracle.circuit_matrix([(lib.ref_gate_matrix(o["gate"], e2), o["q"]) for o in c["ops"]], n)
    got = lib.subs_num(bound.to_unitary(), env)
    require(oracle.close(got, want, tol), "matrix of the bound circuit is wrong")
    sym = lib.subs_num(circ.to_unitary(), e2)
    require(
        oracle.close(got, sym, tol),
        "matrix of the bound circuit differs from the circuit's matrix substituted afterwards",
    )
    total = bound.bind({sympy.Symbol(k): v for k, v in env.items()})
    require(not list(total.free_symbols), "symbols left after binding all of them")
    u = total.to_unitary()
    require(isinstance(u, np.ndarray), "matrix of a bound circuit is not numeric")
    require(oracle.close(lib.num(u), want, tol), "matrix of the totally bound circuit is wrong")
    ctx.nontrivial(has_sym(c, {k for k, _ in m}))


@st.composite
def partial_cases(draw):
    c = no_pow(
        draw(gens.circuits(1, 3, 4, 1, symbolic=True, names=NAMES, extra=lambda k: phase_op(k)))
    )
    vals = st.one_of(
        real_num,
        st.sampled_from(FRESH).map(lambda s: ["s", s]),
        st.sampled_from(FRESH).map(lambda s: ["add", ["s", s], ["r", 1, 3]]),
    )
    m = draw(symmaps(values=vals).filter(lambda m: not seq_matters(m)))
    cuts = [draw(st.integers(0, 2)) for _ in m]
    return {"c": c, "m": m, "cuts": cuts, "seed": draw(gens.seeds)}


def check_partial(case, ctx):
    """Binding in several steps equals binding once (values mention no bound symbol)."""
    c, m, env = case["c"], case["m"], env_of(case["seed"])
    circ = lib.circuit(c)
    tol = 1e-9 * scale_of(c, m, env)
    once = circ.bind(symmap(m))
    steps = circ
    for k in range(3):
        part = [x for x, cut in zip(m, case["cuts"]) if cut == k]
        steps = steps.bind(symmap(part))
    require(steps.n_qubits == once.n_qubits == circ.n_qubits, "register width changed")
    for o, op, a, b in zip(c["ops"], circ.operations, once.operations, steps.operations):
        check_op(o, op, a, m, env, tol)
        same_structure(a, b)
        for x, y in zip(a.params, b.params):
            require(
                abs(value(x, env) - value(y, env)) <= tol,
                lambda: "%s: binding %s in steps %s gives %s, at once %s" % (op, m, case["cuts"], y, x),
            )
            require(
                getattr(x, "free_symbols", set()) == getattr(y, "free_symbols", set()),
                "binding in steps leaves other symbols",
            )
    # then everything else
    rest = {sympy.Symbol(k): v for k, v in env.items()}
    require(not list(steps.bind(rest).free_symbols), "symbols left after binding all of them")
    # the reverse order of the steps
    rev = circ
    for k in (2, 1, 0):
        rev = rev.bind(symmap([x for x, cut in zip(m, case["cuts"]) if cut == k]))
    for a, b in zip(once.operations, rev.operations):
        for x, y in zip(a.params, b.params):
            require(abs(value(x, env) - value(y, env)) <= tol, "order of partial bindings matters")
    ctx.nontrivial(len(set(case["cuts"])) > 1 and has_sym(c, {k for k, _ in m}))


WRAPS = [[], ["dagger"], [1], [2], ["dagger", 1], [1, "dagger"], [1, "dagger", 1], ["dagger", "dagger"]]


def wrap(r, ws):
    for w in ws:
        r = {"w": "dagger", "of": r} if w == "dagger" else {"w": "ctrl", "k": w, "of": r}
    return r


def table_cases(tier):
    """Every parametric gate kind x wrapper nesting x kind of map."""
    S = lambda n: ["s", n]
    plists = [
        [S("x"), S("y"), S("theta")],
        [S("y"), S("x"), ["add", S("x"), S("y")]],
        [["sub", S("x"), ["mul", ["i", 2], S("y")]], ["mul", S("x"), S("y")], 0.3],
        [0.7, ["sin", S("y")], S("x")],
    ]
    maps = [
        [["x", 0.4], ["y", -1.3], ["theta", 2]],
        [["x", S("y")], ["y", S("x")]],
        [["x", S("y")], ["y", 0.25]],
        [["y", 1]],
        [["x", ["add", S("x"), S("y")]], ["y", ["r", 1, 3]]],
        [["x", ["pi"]], ["y", 0]],
    ]
    bases = [{"g": g, "p": k} for g, (k, _, _f) in oracle.GATES.items() if k]
    for kind, ps in (
        ("rot1", ["a"]),
        ("ph2", ["a", "b"]),
        ("ph2", ["x", "y"]),
        ("ph2", ["y", "x"]),
        ("diag2", ["x", "theta"]),
        ("tri2", ["y", "theta", "x"]),
    ):
        bases.append({"custom": {"name": "t%s_%s" % (kind, "".join(ps)), "kind": kind, "params": ps}, "p": len(ps)})
    for b in bases:
        for i, pl in enumerate(plists):
            for j, m in enumerate(maps):
                for k, ws in enumerate(WRAPS):
                    if tier == "quick" and "custom" not in b and (i + j + k) % 11:
                        continue
                    if tier == "quick" and "custom" in b and (i + j + k) % 5:
                        continue
                    yield {"b": dict(b, p=pl[: b["p"]]), "ws": ws, "m": m, "seed": i + j}


def check_table(case, ctx):
    r, m, env = wrap(case["b"], case["ws"]), case["m"], env_of(case["seed"])
    g = lib.gate(r)
    o = {"gate": r, "q": list(range(g.num_qubits))[::-1]}
    op = g(*o["q"])
    b = GateOperation(g.bind(symmap(m)), op.qubit_indices)
    check_op(o, op, b, m, env, 1e-8)
    bind_matrix(o, op, b, m, env, 1e-8)
    require(set(op.free_symbols) == held_symbols(op), "free symbols of the unbound gate")
    ctx.nontrivial(has_sym({"ops": [o]}, {k for k, _ in m}))


# unsupported wrappers


@st.composite
def refuse_cases(draw):
    n = draw(st.integers(1, 2))
    exact = draw(st.booleans())
    b = draw(gens.base_gate(n, gens.numeric_param))
    ws = draw(st.lists(st.sampled_from(["dagger", "pow", "exp", "ctrl"]), min_size=1, max_size=4))
    if not {"pow", "exp"} & set(ws):
        ws.insert(draw(st.integers(0, len(ws))), draw(st.sampled_from(["pow", "exp"])))
    r = b
    for w in ws:
        r = {"w": w, "of": r}
        if w == "pow":
            r["e"] = draw(st.sampled_from([2, 0.5, -1, 3.0, ["r", 1, 3]]))
        if w == "ctrl":
            r["k"] = draw(st.integers(1, 2))
    return {"g": r, "m": draw(symmaps()), "empty": draw(st.booleans()), "exact": exact}


def check_refuse(case, ctx):
    g = lib.gate(case["g"])
    mm = {} if case["empty"] else symmap(case["m"])
    op = g(*range(g.num_qubits))
    circ = Circuit([op], n_qubits=g.num_qubits + 1)
    kinds = []
    x = g
    while hasattr(x, "wrapped_gate"):
        kinds.append(type(x).__name__)
        x = x.wrapped_gate
    # e.g. the inverse of an inverse disappears; what counts is the gate that was built
    if not {"Power", "Exponential"} & set(kinds):
        raise Skip()
    for what, f in (("gate", g.bind), ("operation", op.bind), ("circuit", circ.bind)):
        try:
            f(mm)
        except NotImplementedError:
            continue
        except Exception as e:
            fail("binding %s %s raised %s instead of NotImplementedError" % (what, g, type(e).__name__))
        fail("binding %s %s was not refused" % (what, g))
    require(not list(g.free_symbols) and not list(circ.free_symbols), "free symbols of a numeric gate")
    ctx.nontrivial(len(kinds) > 1)


def check_refuse_symbolic(case, ctx):
    """power/exp of a gate with free symbols is refused, never silently built."""
    r = case["b"]
    g = lib.gate(r)
    require(list(g.free_symbols), "harness: no symbols")
    for w in ("pow", "exp"):
        try:
            h = g.power(case["e"]) if w == "pow" else g.exp
        except (ValueError, NotImplementedError):
            continue
        # an implementation may accept it, but then binding must be refused
        try:
            h.bind(symmap(case["m"]))
        except NotImplementedError:
            continue
        fail("%s of the symbolic gate %s was built and bound" % (w, g))
    ctx.nontrivial()


refuse_symbolic_cases = st.builds(
    lambda r, e, m: {"b": strip_pow(r), "e": e, "m": m},
    st.one_of(gens.any_gate(1, True, names=NAMES), gens.any_gate(2, True, names=NAMES)).filter(
        lambda r: any(lib.expr(p).free_symbols if isinstance(lib.expr(p), sympy.Basic) else 0 for p in lib.base(r).get("p", []) or [])
    ),
    st.sampled_from([2, 0.5, -1]),
    symmaps(),
)

# replace_params


@st.composite
def replace_cases(draw):
    n = draw(st.integers(1, 3))
    r = draw(gens.any_gate(n, True, names=NAMES))
    k = len(lib.base(r).get("p", []) or [])
    new = [draw(gens.param(True, NAMES)) for _ in range(k)]
    return {"g": r, "new": new, "seed": draw(gens.seeds), "q": draw(gens.qubits(n, 4))}


def rebase(r, new):
    if "of" in r:
        return dict(r, of=rebase(r["of"], new))
    return dict(r, p=new) if r.get("p") else r


def check_replace(case, ctx):
    r, new, env = case["g"], case["new"], env_of(case["seed"])
    c = {"ops": [{"gate": rebase(r, new)}]}
    tol = 1e-8 * scale_of(c, [], env)
    g = lib.gate(r)
    op = g(*case["q"])
    powered = r != strip_pow(r)
    if powered and any(oracle.expr_symbols(p) for p in new):
        raise Skip()
    b = op.replace_params(tuple(lib.expr(p) for p in new))
    same_structure(op, b)
    for want, got in zip(new, b.params):
        w = lib.expr(want)
        require(type(w) is type(got) and bool(w == got), lambda: "parameter %r replaced by %r" % (w, got))
    if not powered:
        require(
            oracle.close(
                lib.subs_num(b.gate.matrix, env), lib.ref_gate_matrix(rebase(r, new), env), tol
            ),
            "matrix after replacing parameters is wrong",
        )
    require(set(b.free_symbols) == held_symbols(b), "free symbols after replacing parameters")
    ctx.nontrivial(bool(new) and "of" in r)


# phase operations


@st.composite
def phase_cases(draw):
    n = draw(st.integers(1, 3))
    o = draw(phase_op(n))
    return {"n": n, "o": o, "m": draw(symmaps()), "seed": draw(gens.seeds), "v": draw(st.integers(1, 99))}


def check_phase(case, ctx):
    n, o, m, env = case["n"], case["o"], case["m"], env_of(case["seed"])
    c = {"ops": [o]}
    tol = 1e-9 * scale_of(c, m, env)
    op = lib.op(o)
    b = op.bind(symmap(m))
    require(isinstance(b, MultiPhaseOperation), "kind of operation changed")
    check_op(o, op, op, [], env, tol)
    check_op(o, op, b, m, env, tol)
    total = b.bind({sympy.Symbol(k): v for k, v in env.items()})
    require(not list(total.free_symbols), "symbols left after binding all of them")
    e2 = after(m, env)
    psi = gens.state(case["v"], n)
    want = np.exp(1j * np.array([oracle.eval_expr(p, e2) for p in o["phase"]], dtype=float)) * psi
    got = lib.num(total.apply(psi))
    require(oracle.close(got, want, tol), "bound phase operation acts wrongly")
    left = held_symbols(b)
    if left:
        try:
            b.apply(psi)
        except RuntimeError:
            pass
        else:
            fail("a phase operation with free symbols %s was applied" % left)
    else:
        require(oracle.close(lib.num(b.apply(psi)), want, tol), "phase operation acts wrongly")
    ctx.nontrivial(has_sym(c, {k for k, _ in m}))


# parameters and values of any size: only the symbols that are left are judged


@st.composite
def scale_cases(draw):
    n = draw(st.integers(1, 2))
    coef = st.sampled_from([1e-9, -1e-10, 1e-15, 1e-30, 1e8, 1e12, -3e20])
    sym = st.sampled_from(NAMES).map(lambda s: ["s", s])
    p = st.one_of(
        st.tuples(coef, sym).map(lambda t: ["mul", ["f", t[0]], t[1]]),
        st.tuples(coef, sym).map(lambda t: ["add", t[1], ["f", t[0]]]),
        st.tuples(sym, sym).map(lambda t: ["sub", ["pow", ["add", *t], ["i", 2]], ["mul", *t]]),
        sym,
    )
    r = draw(gens.base_gate(n, p, True))
    ws = draw(st.sampled_from(WRAPS))
    v = st.one_of(coef, coef.map(lambda x: ["f", x]), st.just(0), st.sampled_from(FRESH).map(lambda s: ["s", s]), real_num)
    m = draw(symmaps(values=v))
    return {"b": r, "ws": ws, "m": m, "seed": draw(gens.seeds)}


def check_scale(case, ctx):
    r, m, env = wrap(case["b"], case["ws"]), case["m"], env_of(case["seed"])
    g = lib.gate(r)
    mm = symmap(m)
    circ = Circuit([g(*range(g.num_qubits))])
    keys = {k for k, _ in m}
    vals = {k: oracle.expr_symbols(v) for k, v in m}
    e2 = after(m, env)
    for b in (g.bind(mm), circ.operations[0].bind(mm).gate, circ.bind(mm).operations[0].gate):
        for p, x, y in zip(r_params(r), g.params, b.params):
            deps = {s.name for s in getattr(x, "free_symbols", set())}
            mine = {s.name for s in getattr(y, "free_symbols", set())}
            may = (deps - keys).union(*(vals[k] for k in deps & keys))
            require(mine <= may, lambda: "%s bound with %s: %r still depends on %s" % (g, m, y, sorted(mine - may)))
            want, got = oracle.eval_expr(p, e2), value(y, env)
            tol = 1e-9 * max(oracle.magnitude(p, e2), abs(want), 1e-300)
            require(abs(want - got) <= tol, lambda: "%s bound with %s: %r = %s, expected %s" % (g, m, y, got, want))
    ctx.nontrivial(has_sym({"ops": [{"gate": r}]}, keys))


def r_params(r):
    return lib.base(r).get("p", []) or []


unitary_case = circ_cases(extra=False, n=3, ops=3)

# ------------------------------------------------------- long circuits, many symbols


def check_large(case, ctx):
    rng = random.Random(case["seed"])
    names = ["t_%d" % i for i in range(case["names"])] + ["x", "theta", "a"]
    c = gens.big_circuit(
        rng,
        case["n"],
        case["ops"],
        names=names,
        customs=gens.big_customs(rng, 3),
        controls=case["controls"],
        wraps=case["wraps"],
        long=case["long"],
    )
    circ = lib.circuit(c)
    env = {k: round(rng.uniform(-2, 2), 4) for k in names + FRESH + ["unused"]}
    ks = rng.sample(names, min(case["bound"], len(names)))
    if case["map"] == "cycle":
        m = [[k, ["s", v]] for k, v in zip(ks, ks[1:] + ks[:1])]
    elif case["map"] == "shift":
        m = [[k, ["add", ["s", k], ["r", 1, 3]]] for k in ks]
    elif case["map"] == "fresh":
        m = [[k, ["add", ["s", rng.choice(FRESH)], ["i", rng.randint(-3, 3)]]] for k in ks]
    elif case["map"] == "one":
        m = [[k, ["s", ks[0]]] for k in ks[1:]] + [[ks[0], ["s", "p"]]]
    else:
        m = [[k, round(rng.uniform(-2, 2), 3)] for k in ks]
    rng.shuffle(m)
    tol = 1e-8 * scale_of(c, m, env)
    bound = circ.bind(symmap(m))
    require(bound.n_qubits == circ.n_qubits, "register width changed")
    require(len(bound.operations) == len(circ.operations), "number of operations changed")
    check_free(c, circ)
    check_free(c, bound)
    for o, op, b in zip(c["ops"], circ.operations, bound.operations):
        check_op(o, op, b, m, env, tol)
    # the whole map in small steps, when no step can touch what an earlier one put in
    if case["map"] in ("fresh", "number"):
        steps = circ
        for i in range(0, len(m), case["chunk"]):
            steps = steps.bind(symmap(m[i : i + case["chunk"]]))
        for o, op, b in zip(c["ops"], circ.operations, steps.operations):
            check_op(o, op, b, m, env, tol)
    # everything bound, then the matrix or the gates one by one
    full = bound.bind({sympy.Symbol(k): v for k, v in env.items()})
    require(not list(full.free_symbols), "symbols left after binding all of them")
    e2 = after(m, env)
    refs = [lib.ref_gate_matrix(o["gate"], e2) for o in c["ops"]]
    for o, op, r in zip(c["ops"], full.operations, refs):
        if op.gate.num_qubits <= 3:
            require(oracle.close(lib.num(op.gate.matrix), r, tol * 10), lambda: "matrix of %s" % op)
    if case["n"] <= 3:
        want = oracle.circuit_matrix([(r, o["q"]) for r, o in zip(refs, c["ops"])], case["n"])
        size = 1.0
        for r in refs:
            size *= max(1.0, np.linalg.norm(r, 2))
        u = full.to_unitary()
        require(oracle.close(lib.num(u), want, tol * 10 * size), "matrix of the totally bound circuit")
    ctx.label(case["map"], "ops>=%d" % (case["ops"] // 16 * 16))
    ctx.nontrivial(has_sym(c, {k for k, _ in m}))


large_case = st.builds(
    lambda s, n, k, a, b, mp, c, w, ln, ch: {
        "seed": s, "n": n, "ops": k, "names": a, "bound": b, "map": mp, "controls": c,
        "wraps": w, "long": ln, "chunk": ch,
    },
    st.integers(0, 10**6),
    st.sampled_from([2, 2, 3, 3, 7, 12, 40]),
    st.sampled_from([3, 9, 17, 33, 65]),
    st.sampled_from([1, 4, 11, 30]),
    st.sampled_from([1, 2, 9, 17, 40]),
    st.sampled_from(["cycle", "shift", "fresh", "one", "number"]),
    st.sampled_from([1, 1, 5]),
    st.sampled_from([0, 1, 2, 4]),
    st.sampled_from([2, 5, 12]),
    st.sampled_from([1, 3, 7]),
)

FACETS = [
    Facet("circuits", check_circuit, "a parameter mentions a bound symbol", circ_cases(), quick=320, thorough=12000, shard=20),
    Facet("unitary", check_unitary, "a parameter mentions a bound symbol", unitary_case, quick=120, thorough=3000, shard=8),
    Facet("partial", check_partial, ">=2 non-empty steps touching a parameter", partial_cases(), quick=320, thorough=12000, shard=20),
    Facet("gate-table", check_table, "the map changes a parameter", cases=table_cases, shard=60),
    Facet("refuse", check_refuse, ">=2 wrappers", refuse_cases(), quick=240, thorough=5000, shard=60),
    Facet("refuse-symbolic", check_refuse_symbolic, "always", refuse_symbolic_cases, quick=80, thorough=1500, shard=40),
    Facet("replace", check_replace, "a wrapped parametric gate", replace_cases(), quick=240, thorough=6000, shard=40),
    Facet("scale", check_scale, "a parameter mentions a bound symbol", scale_cases(), quick=240, thorough=6000, shard=40),
    Facet("phase", check_phase, "a parameter mentions a bound symbol", phase_cases(), quick=200, thorough=8000, shard=40),
    Facet("large", check_large, "a parameter mentions a bound symbol", large_case, quick=32, thorough=1500, shard=4),
]
