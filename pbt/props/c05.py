"""C05: circuits survive JSON serialisation unchanged in structure and meaning."""
import io
import itertools
import json
import pathlib
import random

import numpy as np
import sympy
from hypothesis import strategies as st
from orquestra.quantum.circuits import (
    Circuit,
    GateOperation,
    circuit_from_dict,
    circuitset_from_dict,
    load_circuit,
    load_circuitset,
    save_circuit,
    save_circuitset,
    to_dict,
)

from .. import gens, lib, oracle
from ..core import Facet, require

ASSUMPTIONS = [
    "symbol names: identifiers (names known to sympy or Python included, keywords not), indexed",
    "custom gates have no name of a built-in gate or of a wrapper",
    "power exponents are Python numbers (the declared type)",
]

# ---------------------------------------------------------------------- structure


def same_param(a, b, env):
    """Message if parameter b is not parameter a."""
    if not isinstance(a, sympy.Basic):
        if isinstance(a, (bool, int, np.integer)):
            ok = sympy.sympify(b) == int(a) or (float(b) == int(a) and b == float(a))
        elif isinstance(a, complex):
            ok = complex(b) == a
        else:
            ok = not getattr(b, "free_symbols", None) and float(b) == float(a)
        return None if ok else "number %r came back as %r" % (a, b)
    b = sympy.sympify(b)
    if isinstance(a, sympy.Symbol) or a.is_Rational:
        return None if a == b else "%r came back as %r" % (a, b)
    if a.free_symbols != b.free_symbols:
        return "free symbols of %r came back as %r" % (a, b)
    for k in range(2):
        vals = {s: env(s, k) for s in a.free_symbols}
        x = lib.cnum(a.subs(vals, simultaneous=True))
        y = lib.cnum(b.subs(vals, simultaneous=True))
        scale = 1.0
        for t in sympy.preorder_traversal(a):
            if t.is_number or t.is_Add or t.is_Mul or t.is_Pow:
                scale = max(scale, abs(lib.cnum(t.subs(vals, simultaneous=True))))
        if not abs(x - y) <= 1e-11 * scale * scale:
            return "%r = %r came back as %r = %r" % (a, x, b, y)
    return None


def env_of(seed):
    def env(symbol, k):
        r = np.random.RandomState(
            (sum((i + 1) * ord(c) for i, c in enumerate(symbol.name)) * 31 + seed + 7919 * k) % 2**31
        )
        return round(r.uniform(-2, 2), 3)

    return env


def same_gate(a, b, env, path="gate"):
    require(type(a) is type(b), lambda: "%s: %s came back as %s" % (path, a, b))
    require(a.num_qubits == b.num_qubits, lambda: "%s: number of qubits" % path)
    if hasattr(a, "wrapped_gate"):
        if hasattr(a, "num_control_qubits"):
            require(a.num_control_qubits == b.num_control_qubits, "number of controls")
        if hasattr(a, "exponent"):
            require(
                a.exponent == b.exponent and float(a.exponent) == float(b.exponent),
                lambda: "exponent %r came back as %r" % (a.exponent, b.exponent),
            )
        return same_gate(a.wrapped_gate, b.wrapped_gate, env, path + ".wrapped_gate")
    require(a.name == b.name, lambda: "%s: %s came back as %s" % (path, a.name, b.name))
    require(a.is_hermitian == b.is_hermitian, "hermitian flag")
    require(len(a.params) == len(b.params), "number of parameters")
    for x, y in zip(a.params, b.params):
        m = same_param(x, y, env)
        require(m is None, lambda: "%s %s: %s" % (path, a.name, m))


def exact_params(c):
    """Parameters exactly representable: no float coefficients inside expressions."""
    return all(
        not isinstance(p, sympy.Expr) or p.is_Symbol or not p.atoms(sympy.Float)
        for op in c.operations
        for p in op.params
    )


def same_circuit(c, d, seed, matrices=True, assignments=2):
    env = env_of(seed)
    require(isinstance(d, Circuit), "not a circuit")
    require(c.n_qubits == d.n_qubits, lambda: "width %r came back as %r" % (c.n_qubits, d.n_qubits))
    require(len(c.operations) == len(d.operations), "number of operations")
    for x, y in zip(c.operations, d.operations):
        require(isinstance(y, GateOperation), "operation kind")
        require(
            tuple(map(int, x.qubit_indices)) == tuple(y.qubit_indices)
            and all(type(q) is int for q in y.qubit_indices),
            lambda: "indices %r came back as %r" % (x.qubit_indices, y.qubit_indices),
        )
        same_gate(x.gate, y.gate, env)
    require(list(c.free_symbols) == list(d.free_symbols), "free symbols")
    da, db = c.collect_custom_gate_definitions(), d.collect_custom_gate_definitions()
    require([x.gate_name for x in da] == [x.gate_name for x in db], "custom definitions")
    for x, y in zip(da, db):
        require(tuple(x.params_ordering) == tuple(y.params_ordering), "parameter ordering")
        require(x.matrix.shape == y.matrix.shape, "shape of a custom matrix")
        for u, v in zip(x.matrix, y.matrix):
            m = same_param(u, v, env)
            require(m is None, lambda: "custom matrix: %s" % m)
    if exact_params(c):
        require(c == d and d == c, "deserialised circuit does not compare equal")
    if matrices:
        for k in range(assignments):
            for x, y in zip(c.operations, d.operations):
                vals = {s.name: env(s, k) for s in x.free_symbols}
                mx = lib.subs_num(x.gate.matrix, vals)
                my = lib.subs_num(y.gate.matrix, vals)
                require(oracle.close(my, mx, 1e-8), "gate matrix after the round trip")


def via(c, how, ctx):
    """One circuit or list of circuits through a route."""
    many = isinstance(c, list)
    frm = circuitset_from_dict if many else circuit_from_dict
    save, load = (save_circuitset, load_circuitset) if many else (save_circuit, load_circuit)
    if how == "dict":
        return frm(json.loads(json.dumps(to_dict(c))))
    p = ctx.path()
    if how == "path":
        save(c, p)
        return load(p)
    if how == "pathlib":
        save(c, pathlib.Path(p))
        return load(pathlib.Path(p))
    if how == "open":
        with open(p, "w") as f:
            save(c, f)
        with open(p) as f:
            return load(f)
    b = io.StringIO()
    save(c, b)
    b.seek(0)
    return load(b)


ROUTES = ["dict", "path", "pathlib", "open", "buffer"]


def recipe_exact(c):
    """All matrices of the circuit are cheap to evaluate."""
    for o in c["ops"]:
        g, deep = o["gate"], 0
        while "of" in g:
            if g["w"] == "exp" or (g["w"] == "pow" and not isinstance(g["e"], int)):
                deep += 1
            g = g["of"]
        if deep > 1:
            return False
    return True


def note(c, ctx):
    ks = set()
    for o in c["ops"]:
        g = o["gate"]
        while "of" in g:
            ks.add(g["w"])
            g = g["of"]
        if "custom" in g:
            ks.add("custom")
            if "of" in o["gate"]:
                ks.add("wrapped-custom")
    ctx.label(*sorted(ks))
    return ks


def check_circuit(case, ctx):
    c = lib.circuit(case)
    before = repr(c)
    d = via(c, case["via"], ctx)
    same_circuit(c, d, case["seed"], recipe_exact(case))
    require(repr(c) == before, "serialising changed the circuit")
    e = via(d, "dict", ctx)  # once more: what came back is serialisable too
    same_circuit(d, e, case["seed"], False)
    ks = note(case, ctx)
    if c.free_symbols:
        ctx.label("symbolic")
    ctx.nontrivial(len(ks & {"dagger", "ctrl", "pow", "exp", "custom"}) >= 1 and len(c.operations) >= 1)


# ----------------------------------------------------------------------- generators

NAME_POOLS = [
    gens.SYMS,
    ["theta_0", "theta_1", "theta_10", "th", "t", "theta"],
    ["gamma", "beta", "zeta", "S", "N", "Q"],
    ["lamda", "O", "C", "re", "Add", "x"],
    ["x", "x[0]", "x[1]", "x[12]", "y[0]", "xx"],
    ["print", "dir", "len", "θ", "φ_1", "ξ"],
    ["Integer", "Float", "Symbol", "Rational", "Function", "test"],
    ["sin", "cos", "exp", "sqrt", "tan", "e"],
    ["p1", "p", "p_", "_p", "P", "j"],
    ["RX", "Dagger", "oo", "nan", "inf", "im"],
    ["_symbol_0", "_symbol_1", "x[0]", "symbol", "_0", "__"],
    ["half_pi", "pi2", "E1", "e5", "I_", "j1"],
    ["x_", "x_1", "x1", "x10", "x_10", "x[10]"],
]

GATE_NAMES = [
    "Union",
    "Callable",
    "_gates",
    "GatePrototype",
    "builtin_gate_by_name",
    "Circuit",
    "sympy",
    "__name__",
    "RZX",
    "lambda",
    "",
    "with space",
    "T",
    "Delay",
    "name",
    "é",
]


@st.composite
def serde_circuits(draw, tricky=True, **kw):
    names = draw(st.sampled_from(NAME_POOLS if tricky else NAME_POOLS[:2]))
    c = draw(
        gens.circuits(
            max_n=4, max_ops=4, symbolic=True, names=names, max_wrap=3, transcendental=True, **kw
        )
    )
    found = {}
    used = {lib.base(o["gate"]).get("g") for o in c["ops"]}
    for o in c["ops"]:
        b = lib.base(o["gate"])
        if "custom" in b:
            k = b["custom"]["name"]
            if k not in found:
                free = [g for g in GATE_NAMES if g not in found.values() and g not in used]
                found[k] = draw(st.sampled_from([k, k] + free)) if tricky else k
            b["custom"] = dict(b["custom"], name=found[k])
    direct = draw(st.integers(0, 3)) == 0
    for o in c["ops"]:
        o["gate"] = wrapped(o["gate"], direct)
    return c


def wrapped(r, direct):
    """The same wrappers with Python numbers as exponents, if asked so built by their classes."""
    if "of" not in r:
        return r
    r = dict(r, of=wrapped(r["of"], direct))
    if isinstance(r.get("e"), list):
        r["e"] = r["e"][1] / r["e"][2]
    return dict(r, direct=True) if direct else r


def idle(c, extra):
    return dict(c, n=c["n"] + extra)


circ_case = st.builds(
    lambda c, v, s, e: dict(idle(c, e), via=v, seed=s),
    serde_circuits(),
    st.sampled_from(ROUTES),
    st.integers(0, 1000),
    st.integers(0, 2),
)


# --------------------------------------------------------------- lists of circuits


def check_set(case, ctx):
    cs = [lib.circuit(c) for c in case["cs"]]
    ds = via(cs, case["via"], ctx)
    require(isinstance(ds, list) and len(ds) == len(cs), "number of circuits")
    for c, d in zip(cs, ds):
        same_circuit(c, d, case["seed"], False)
    ctx.nontrivial(len(cs) >= 2 and any(c.operations for c in cs))
    ctx.label("len=%d" % min(len(cs), 4))
    defs = {}
    for i, c in enumerate(cs):
        for x in c.collect_custom_gate_definitions():
            if defs.setdefault(x.gate_name, x) != x:
                ctx.label("name-defined-twice")


@st.composite
def set_cases(draw):
    cs = draw(st.lists(serde_circuits(), max_size=4))
    if draw(st.integers(0, 2)) == 0:
        # circuits with different definitions of gates of the same name
        look = draw(gens.lookalikes().filter(lambda l: lib.base(l["pair"][0]).get("custom")))
        n = look["n"]
        for g in look["pair"]:
            op = {"gate": g, "q": list(draw(st.permutations(range(n))))}
            cs.insert(draw(st.integers(0, len(cs))), {"n": n, "ops": [op]})
    return {
        "cs": cs,
        "via": draw(st.sampled_from(ROUTES)),
        "seed": draw(st.integers(0, 1000)),
    }


set_case = set_cases()

# ---------------------------------------- different custom gates of one name, in succession


def namesake(d):
    """Definitions that share the name, the size and the number of parameters."""
    syms = [sympy.Symbol(x) for x in d["params"]]
    dim = 2 ** d["n"]
    m = sympy.zeros(dim, dim)
    for i in range(dim):
        angle = sum((c * x for c, x in zip(d["mult"][i], syms)), sympy.Integer(0))
        m[i, (i + d["shift"]) % dim] = sympy.exp(sympy.I * angle)
    return lib.CustomGateDefinition(d["name"], m, tuple(syms))


def check_namesakes(case, ctx):
    cs = []
    for d, r in zip(case["defs"], case["rest"]):
        g = namesake(d)(*[lib.expr(p) for p in r["p"][: len(d["params"])]])
        for w in r["wrap"]:
            g = g.dagger if w == "dagger" else g.controlled(1)
        cs.append(Circuit([g(*range(g.num_qubits))], n_qubits=g.num_qubits + r["idle"]))
    for k, i in enumerate(case["order"]):
        c = cs[i % len(cs)]
        same_circuit(c, via(c, case["via"], ctx), case["seed"], k < 2, 1)
    for c, d in zip(cs, via(cs, case["via"], ctx)):
        same_circuit(c, d, case["seed"], False)
    different = [c for c in cs[1:] if c.operations[0].gate != cs[0].operations[0].gate]
    ctx.label("params=%d" % len(case["defs"][0]["params"]))
    ctx.nontrivial(bool(different))


@st.composite
def namesakes(draw):
    n = draw(st.integers(1, 2))
    params = draw(st.lists(st.sampled_from(["theta", "a", "b", "x_1", "gamma"]), max_size=3, unique=True))
    row = st.lists(st.integers(-3, 3), min_size=len(params), max_size=len(params))
    first = {
        "name": draw(st.sampled_from(["G", "my gate", "U", "X", "a_1"])),
        "n": n,
        "params": params,
        "mult": draw(st.lists(row, min_size=2**n, max_size=2**n)),
        "shift": draw(st.integers(0, 2**n - 1)),
    }
    defs, rest = [], []
    for _ in range(draw(st.integers(2, 4))):
        d = dict(first)
        how = draw(st.integers(0, 3))
        if how == 0:
            d["mult"] = draw(st.lists(row, min_size=2**n, max_size=2**n))
        elif how == 1:  # one entry of the matrix
            i = draw(st.integers(0, 2**n - 1))
            d["mult"] = [draw(row) if j == i else m for j, m in enumerate(first["mult"])]
        elif how == 2:  # the order of the parameters
            d["params"] = list(draw(st.permutations(params)))
        else:
            d["shift"] = draw(st.integers(0, 2**n - 1))
        defs.append(d)
        rest.append(
            {
                "p": draw(st.lists(gens.param(True, ("theta", "q")), min_size=3, max_size=3))
                if draw(st.booleans()) or not rest
                else rest[0]["p"],
                "wrap": draw(st.lists(st.sampled_from(["dagger", "ctrl"]), max_size=2)),
                "idle": draw(st.integers(0, 1)),
            }
        )
    return {
        "defs": defs,
        "rest": rest,
        "order": draw(st.lists(st.integers(0, 3), min_size=3, max_size=6)),
        "via": draw(st.sampled_from(ROUTES)),
        "seed": draw(st.integers(0, 1000)),
    }


# ----------------------------------------------------------- exact numeric parameters

number = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False),
    st.floats(-10, 10, allow_nan=False),
    st.floats(-1e-3, 1e-3, allow_nan=False),
    st.builds(lambda m, e: round(m, 16) * 10.0**e, st.floats(-1, 1), st.integers(-20, 20)),
    st.integers(-(10**6), 10**6),
    st.integers(-(10**30), 10**30),
    st.floats(-1e3, 1e3).map(lambda x: ["np", x]),
    st.integers(-1000, 1000).map(lambda x: ["npi", x]),
    st.tuples(st.integers(-999, 999), st.integers(1, 999)).map(lambda t: ["r", *t]),
    st.just(["pi"]),
    st.tuples(st.floats(-10, 10), st.floats(-10, 10)).map(lambda t: ["c", *t]),
)


def check_number(case, ctx):
    ps = [lib.expr(p) for p in case["p"]]
    c = Circuit(
        [
            lib.oc.RX(ps[0])(0),
            lib.oc.U3(ps[0], ps[1], lib.expr(["s", "x"]))(1),
            lib.custom_def({"name": "cg", "kind": "ph2", "params": ["a", "b"]})(ps[1], ps[0])(0),
            lib.oc.MS(ps[1], ps[0]).controlled(1).dagger(2, 0, 1),
        ]
    )
    d = via(c, "dict", ctx)
    same_circuit(c, d, 3, False)
    ctx.nontrivial(any(isinstance(p, float) and p != round(p, 12) for p in case["p"]))
    ctx.label(*[p[0] if isinstance(p, list) else type(p).__name__ for p in case["p"]])


num_case = st.builds(lambda a, b: {"p": [a, b]}, number, number)

# --------------------------------------------------------------------- symbol names

BARE = sorted({n for pool in NAME_POOLS for n in pool} | {"E", "I", "pi", "d", "R", "k"})
CONST = ("E", "I", "pi")


def names_cases(tier):
    out = []
    for i, n in enumerate(BARE):
        for k in (i % 4, (i + 2) % 4):
            out.append({"n": n, "m": BARE[(i * 7 + k * 11 + 3) % len(BARE)], "k": k})
    if tier == "thorough":
        out = [
            {"n": n, "m": m, "k": k}
            for n in BARE
            for m in BARE
            if n != m
            for k in range(4)
        ]
    return [c for c in out if c["n"] != c["m"]]


def check_names(case, ctx):
    n, m, k = case["n"], case["m"], case["k"]
    a, b = sympy.Symbol(n), sympy.Symbol(m)
    if k == 0:
        ps = [a, b, 0.1]
    elif k == 1:
        ps = [2 * a - b / 3, a * b, b**2]
    elif k == 2:
        ps = [sympy.sin(a) + a, 0.25 * b * sympy.cos(a), sympy.sqrt(2) * a]
    else:
        ps = [b - a, a**3 / 7, -a]
    d = lib.CustomGateDefinition(
        "cg", sympy.Matrix([[a, 1], [0, b]]), (b, a)
    )
    c = Circuit(
        [
            lib.oc.U3(*ps)(0),
            lib.oc.RX(ps[1]).controlled(1)(2, 0),
            d(ps[0], ps[1])(1),
            d(ps[1], 0.5).dagger.controlled(1)(2, 1),
        ]
    )
    same_circuit(c, via(c, "dict", ctx), 5, assignments=1)
    ctx.nontrivial(not n.isidentifier() or n in dir(sympy) or n in ("E", "I", "pi"))
    ctx.label("k%d" % k)


# ------------------------------------------- constants next to symbols of the same name


def check_clash(case, ctx):
    s = sympy.Symbol(case["n"])
    const = {"pi": sympy.pi, "E": sympy.E, "I": sympy.I}[case["n"]]
    c = Circuit([lib.oc.RX(s * const + 1)(0)])
    try:
        d = via(c, "dict", ctx)
        ok = same_param(c.operations[0].params[0], d.operations[0].params[0], env_of(1)) is None
    except Exception:
        ok = False
    require(ok, "symbol %s next to the constant %s" % (s, s), key="constant-named-symbol")
    ctx.nontrivial()


def check_assume(case, ctx):
    s = sympy.Symbol("x", **{case["a"]: True})
    c = Circuit([lib.oc.RX(s)(0)])
    d = via(c, "dict", ctx)
    require(
        list(d.free_symbols) == [s],
        "symbol with assumption %s comes back without it" % case["a"],
        key="symbol-assumptions",
    )
    ctx.nontrivial()


# ------------------------------------------------ every gate under nested wrappers


WRAPS = [
    {"w": "dagger"},
    {"w": "exp"},
    {"w": "ctrl", "k": 1},
    {"w": "ctrl", "k": 3},
    {"w": "pow", "e": 2},
    {"w": "pow", "e": -1},
    {"w": "pow", "e": 0.1},
    {"w": "pow", "e": 0.3333333333333333},
]


def wrap_cases(tier):
    bases = []
    for name, (k, n, _f) in oracle.GATES.items():
        r = {"g": name}
        if k:
            r["p"] = [0.1, ["r", 2, 7], 3][:k]
        bases.append(r)
    for kind, params in (("rot1", ["a"]), ("ph2", ["gamma", "a"]), ("diag2", ["b", "x[0]"]), ("tri2", ["c", "lamda", "a"])):
        bases.append({"custom": {"name": "t" + kind, "kind": kind, "params": params}, "p": [0.7, 2, ["pi"]][: len(params)]})
    bases.append({"custom": {"name": "u", "kind": "qr", "n": 2, "seed": 4}, "p": []})
    out = []
    depth = 2 if tier == "quick" else 3
    for b in bases:
        for d in range(depth + 1):
            for ws in itertools.product(WRAPS, repeat=d):
                # the methods of gates merge some nestings, the classes do not
                for direct in (False, True)[: d + 1]:
                    g = b
                    for w in ws:
                        g = dict(w, of=g, direct=direct)
                    out.append({"gate": g})
    return out


def check_wrap(case, ctx):
    g = lib.gate(case["gate"])
    c = Circuit([g(*reversed(range(g.num_qubits)))], n_qubits=g.num_qubits + 1)
    same_circuit(c, via(c, "dict", ctx), 1, False)
    ctx.nontrivial("of" in case["gate"])


# ----------------------------------------------------- numpy integers as indices


def check_npint(case, ctx):
    qs = [np.int64(q) for q in case["q"]]
    c = Circuit(
        [lib.oc.X(qs[0]), lib.oc.CNOT(*qs[:2]), lib.oc.SWAP.controlled(1)(*qs)],
        n_qubits=np.int64(case["n"]),
    )
    for how in ("dict", "path"):
        same_circuit(c, via(c, how, ctx), 1, False)
    ctx.nontrivial()


npint = st.integers(3, 6).flatmap(
    lambda n: gens.qubits(3, n).map(lambda q: {"n": n, "q": q})
)

# ------------------------------------------------------------ long and wide circuits


def check_large(case, ctx):
    rng = random.Random(case["seed"])
    names = ["s%d" % i for i in range(case["names"])] + ["t[%d]" % i for i in range(case["names"] // 2)]
    cs = [
        lib.circuit(
            gens.big_circuit(
                rng,
                case["n"],
                case["ops"],
                names=names,
                customs=gens.big_customs(rng, case["customs"]),
                controls=case["controls"],
                wraps=case["wraps"],
                long=case["long"],
            )
        )
        for _ in range(case["circuits"])
    ]
    if len(cs) == 1:
        same_circuit(cs[0], via(cs[0], case["via"], ctx), case["seed"], False)
    ds = via(cs, case["via"], ctx)
    require(isinstance(ds, list) and len(ds) == len(cs), "number of circuits")
    for c, d in zip(cs, ds):
        same_circuit(c, d, case["seed"], False)
    ctx.label("ops>=%d" % (case["ops"] // 20 * 20), "n>=%d" % (case["n"] // 20 * 20))
    ctx.nontrivial(case["ops"] >= 17 or case["n"] > 10 or case["circuits"] > 10)


def _fit(c):
    if c["circuits"] > 4:
        c = dict(c, ops=min(c["ops"], 5))
    return c


large_case = st.builds(
    lambda s, n, k, a, b, c, w, ln, m, v: _fit(
        {"seed": s, "n": n, "ops": k, "names": a, "customs": b, "controls": c, "wraps": w,
         "long": ln, "circuits": m, "via": v}
    ),
    st.integers(0, 10**6),
    st.sampled_from([2, 5, 11, 17, 40, 101, 200]),
    st.sampled_from([3, 11, 17, 33, 65, 101, 140]),
    st.sampled_from([0, 2, 12, 30]),
    st.sampled_from([0, 1, 5, 11, 20]),
    st.sampled_from([1, 2, 5, 10]),
    st.sampled_from([1, 2, 4, 8]),
    st.sampled_from([2, 5, 20]),
    st.sampled_from([1, 1, 1, 2, 12, 30]),
    st.sampled_from(ROUTES),
)

FACETS = [
    Facet("circuits", check_circuit, "a wrapped or custom gate in the circuit", circ_case, quick=480, thorough=16000, shard=40),
    Facet("circuitsets", check_set, ">=2 circuits, one non-empty", set_case, quick=120, thorough=3000, shard=20),
    Facet("namesakes", check_namesakes, ">=2 different definitions", namesakes(), quick=64, thorough=3000, shard=8),
    Facet("numbers", check_number, "a float needing more than 12 digits", num_case, quick=900, thorough=30000, shard=100),
    Facet("names", check_names, "a symbol name that is no plain new identifier", cases=names_cases, shard=40),
    Facet("constants", check_clash, "always", cases=lambda t: [{"n": n} for n in CONST]),
    Facet("assumptions", check_assume, "always", cases=lambda t: [{"a": a} for a in ("real", "positive", "integer")]),
    Facet("wrappers", check_wrap, "at least one wrapper", cases=wrap_cases, shard=150, exhaustive=True),
    Facet("numpy-indices", check_npint, "always", npint, quick=40, thorough=200),
    Facet("large", check_large, ">=17 operations, >10 qubits or >10 circuits", large_case, quick=24, thorough=1200, shard=3),
]
