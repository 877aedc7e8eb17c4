"""Hypothesis strategies producing JSON recipes."""
import math

from hypothesis import strategies as st

from . import oracle
from .lib import TEMPLATE_PARAMS, TEMPLATE_QUBITS

PI = math.pi

special = st.sampled_from(
    [0.0, PI, -PI, PI / 2, -PI / 2, PI / 4, 2 * PI, 4 * PI, 3 * PI / 2, PI / 3, 1e-9, 1e-4]
)
angles = st.one_of(
    st.floats(-7, 7, allow_nan=False).map(lambda x: round(x, 6)),
    st.floats(-7, 7, allow_nan=False),
    special,
    st.integers(-9, 9),
)
small_floats = st.floats(-3, 3, allow_nan=False).map(lambda x: round(x, 4))

# a real numeric parameter in any accepted representation
numeric_param = st.one_of(
    angles,
    angles,
    st.floats(-7, 7).map(lambda x: ["np", round(x, 5)]),
    st.tuples(st.integers(-7, 7), st.integers(1, 8)).map(lambda t: ["r", t[0], t[1]]),
    st.tuples(st.integers(-7, 7), st.integers(1, 8)).map(
        lambda t: ["mul", ["r", t[0], t[1]], ["pi"]]
    ),
    st.floats(-7, 7).map(lambda x: ["f", round(x, 5)]),
)

SYMS = ["alpha", "theta", "gamma", "x", "beta_2", "beta_10"]


def sym_expr(names=SYMS, depth=2):
    """Real-valued, everywhere-defined expressions over the given symbols."""
    leaf = st.one_of(
        st.sampled_from(names).map(lambda s: ["s", s]),
        st.sampled_from(names).map(lambda s: ["s", s]),
        st.integers(-5, 5).map(lambda n: ["i", n]),
        st.tuples(st.integers(-7, 7), st.integers(2, 7)).map(lambda t: ["r", *t]),
        small_floats.map(lambda x: ["f", x]),
        st.just(["pi"]),
    )

    def ext(ch):
        return st.one_of(
            st.tuples(st.just("add"), ch, ch).map(list),
            st.tuples(st.just("sub"), ch, ch).map(list),
            st.tuples(st.just("mul"), ch, ch).map(list),
            st.tuples(st.just("neg"), ch).map(list),
            st.tuples(st.sampled_from(["sin", "cos"]), ch).map(list),
            st.tuples(st.just("pow"), ch, st.sampled_from([["i", 2], ["i", 3]])).map(list),
            st.tuples(st.just("div"), ch, st.sampled_from([["i", 2], ["i", 3], ["pi"], ["f", 2.5]])).map(
                list
            ),
        )

    return st.recursive(leaf, ext, max_leaves=2**depth)


def param(symbolic, names=SYMS):
    if not symbolic:
        return numeric_param
    return st.one_of(
        numeric_param,
        st.sampled_from(names).map(lambda s: ["s", s]),
        sym_expr(names),
        sym_expr(names),
    )


NAMES_BY_ARITY = {
    k: [g for g, (_, n, _f) in oracle.GATES.items() if n == k] for k in (1, 2)
}

PARAMETRIC = {
    k: [g for g, (m, n, _f) in oracle.GATES.items() if n == k and m] for k in (1, 2)
}


@st.composite
def builtin(draw, n, par, parametric=False):
    name = draw(st.sampled_from(PARAMETRIC[n] if parametric else NAMES_BY_ARITY[n]))
    k = oracle.GATES[name][0]
    r = {"g": name}
    if k:
        r["p"] = [draw(par) for _ in range(k)]
    return r


def qr_def(n):
    seeds = st.integers(0, 30) | st.builds(
        lambda k, s: 100 * k + s, st.integers(1, 9), st.integers(0, 9)
    )
    return seeds.map(lambda s: {"name": "u%d_%d" % (n, s), "kind": "qr", "n": n, "seed": s})


PARAM_SETS = {
    1: [["a"], ["theta"], ["gamma"]],
    2: [["a", "b"], ["b", "a"], ["theta", "gamma"], ["x", "alpha"]],
    3: [["a", "b", "c"], ["c", "a", "b"], ["gamma", "theta", "x"]],
}


@st.composite
def templ(draw, n, par):
    kind = draw(st.sampled_from([k for k, q in TEMPLATE_QUBITS.items() if q == n]))
    ps = draw(st.sampled_from(PARAM_SETS[TEMPLATE_PARAMS[kind]]))
    c = {"name": "t_%s_%s" % (kind, "".join(ps)), "kind": kind, "params": ps}
    return {"custom": c, "p": [draw(par) for _ in ps]}


def base_gate(n, par, parametric=False):
    opts = []
    if parametric and n in (1, 2):
        return st.one_of(builtin(n, par, True), builtin(n, par, True), templ(n, par))
    if n in (1, 2):
        opts += [builtin(n, par)] * 3 + [templ(n, par)]
    opts.append(qr_def(n).map(lambda c: {"custom": c, "p": []}))
    return st.one_of(opts)


@st.composite
def any_gate(draw, n, symbolic=False, wrap=True, names=SYMS, max_wrap=2, transcendental=False):
    """A gate recipe acting on exactly n qubits (1..4)."""
    par = param(symbolic, names)
    forced = bool(symbolic) and draw(st.sampled_from([True, True, False]))
    if forced:
        par = st.one_of(
            st.sampled_from(names).map(lambda s: ["s", s]), sym_expr(names), sym_expr(names)
        )
    if not wrap:
        return draw(base_gate(n, par, forced))
    kc = 0
    if n > 1 and draw(st.booleans()):
        kc = draw(st.integers(1, n - 1))
    if forced and n - kc > 2:
        kc = draw(st.integers(n - 2, n - 1))
    r = draw(base_gate(n - kc, par, forced))
    from .lib import gate_symbols

    for _ in range(draw(st.integers(0, max_wrap))):
        kinds = ["dagger", "dagger"]
        b = _base(r)
        if not gate_symbols(r) and ("g" in b or n - kc == 1):
            kinds.append("pow")
            if transcendental and not _has_transcendental(r) and b.get("g") in EXACT:
                kinds += ["exp", "root"]
        w = draw(st.sampled_from(kinds))
        if w == "root":
            r = {"w": "pow", "e": draw(st.sampled_from([0.5, ["r", 1, 3], ["r", 1, 2]])), "of": r}
        elif w == "pow":
            r = {"w": "pow", "e": draw(st.sampled_from([2, -1, 3, 0, -2, 1])), "of": r}
        else:
            r = {"w": w, "of": r}
    if kc:
        r = {"w": "ctrl", "k": kc, "of": r}
        if draw(st.integers(0, 3)) == 0:
            r = {"w": "dagger", "of": r}
    return r


# sympy's matrix exponential / fractional power is fast and reliable on these only;
# C07 examines the others
EXACT = ("X", "Y", "Z", "I", "S", "CNOT", "CZ", "SWAP")


def _base(r):
    while "of" in r:
        r = r["of"]
    return r


def _has_transcendental(r):
    while "of" in r:
        if r["w"] == "exp" or (r["w"] == "pow" and not isinstance(r["e"], int)):
            return True
        r = r["of"]
    return False


def qubits(k, n):
    return st.permutations(range(n)).map(lambda p: list(p)[:k])


@st.composite
def gate_op(draw, n, symbolic=False, max_arity=4, **kw):
    k = draw(st.sampled_from([a for a in (1, 1, 2, 2, 2, 3, 3, 4) if a <= min(n, max_arity)]))
    g = draw(any_gate(k, symbolic, **kw))
    return {"gate": g, "q": draw(qubits(k, n))}


@st.composite
def circuits(draw, min_n=1, max_n=4, max_ops=5, min_ops=0, symbolic=False, extra=None, **kw):
    n = draw(st.integers(min_n, max_n))
    one = gate_op(n, symbolic, **kw)
    if extra is not None:
        one = st.one_of(one, one, extra(n))
    ops = draw(st.lists(one, min_size=min_ops, max_size=max_ops))
    return {"n": n, "ops": ops}


@st.composite
def long_circuits(draw, min_n=1, max_n=3, lo=17, hi=70, symbolic=False, palette=4, **kw):
    """Many operations, taken from a few different ones."""
    n = draw(st.integers(min_n, max_n))
    ops = draw(st.lists(gate_op(n, symbolic, max_arity=2, **kw), min_size=2, max_size=palette))
    size = draw(st.sampled_from([lo, lo + 1]) | st.integers(lo, hi) | st.sampled_from([hi - 1, hi]))
    idx = draw(st.lists(st.integers(0, len(ops) - 1), min_size=size, max_size=size))
    return {"n": n, "ops": [ops[i] for i in idx]}


@st.composite
def lookalikes(draw):
    """Two gate recipes that are easily taken for each other, and how far apart they are."""
    kind = draw(st.sampled_from(["name", "name", "order", "near", "near", "values"]))
    gap = 1.0
    if kind == "name":  # different definitions of the same name
        n = draw(st.integers(1, 2))
        k = draw(st.sampled_from(["qr", "raw"])) if n == 1 else "qr"
        a, b = draw(st.lists(st.integers(0, 30), min_size=2, max_size=2, unique=True))
        pair = [{"custom": {"name": "G", "kind": k, "n": n, "seed": s}, "p": []} for s in (a, b)]
    elif kind == "order":  # the same parameters in another order of the definition's symbols
        k = draw(st.sampled_from(["ph2", "diag2"]))
        n = TEMPLATE_QUBITS[k]
        ps = draw(st.permutations([0.3, 1.1]))
        pair = [
            {"custom": {"name": "G", "kind": k, "params": o}, "p": list(ps)}
            for o in (["a", "b"], ["b", "a"])
        ]
        # the template substitutes by position: exchange the values instead
        pair[1]["p"] = list(ps)[::-1]
    elif kind == "near":  # nearly the same parameter
        n = draw(st.integers(1, 2))
        r = draw(builtin(n, st.floats(-3, 3).map(lambda x: round(x, 3)), True).filter(lambda r: r["g"] != "Delay"))
        gap = draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-8]))
        i = draw(st.integers(0, len(r["p"]) - 1))
        r2 = dict(r, p=[x + gap * (i == j) for j, x in enumerate(r["p"])])
        pair = [r, r2]
    else:  # the same values in other places
        n = 1
        v = draw(st.permutations([0.2, 0.7, 1.9]))
        w = draw(st.permutations([0.2, 0.7, 1.9]))
        pair = [{"g": "U3", "p": list(v)}, {"g": "U3", "p": list(w)}]
    for _ in range(draw(st.integers(0, 2))):
        w = draw(st.sampled_from(["dagger", "ctrl", "pow", "exp"]))
        if w == "ctrl" and n < 3:
            n += 1
            pair = [{"w": "ctrl", "k": 1, "of": r} for r in pair]
        elif w == "pow":
            e = draw(st.sampled_from([2, -1, 3]))
            pair = [{"w": "pow", "e": e, "of": r} for r in pair]
        elif w == "exp" and n == 1 and kind == "name" and not _has_transcendental(pair[0]):
            pair = [{"w": "exp", "of": r} for r in pair]
        else:
            pair = [{"w": "dagger", "of": r} for r in pair]
    return {"n": n, "pair": pair, "gap": gap}


finite = st.floats(-1e3, 1e3, allow_nan=False)
seeds = st.integers(0, 10**6)


def state(seed, n):
    """Deterministic asymmetric unit vector for a drawn seed (0 -> |0..0>)."""
    import numpy as np

    if seed == 0:
        v = np.zeros(2**n, dtype=complex)
        v[0] = 1
        return v
    r = np.random.RandomState(seed)
    v = r.normal(size=2**n) + 1j * r.normal(size=2**n)
    return v / np.linalg.norm(v)


# -------------------------------------------------------------------- large circuits


def big_param(rng, names, long=0):
    if not names or rng.random() < 0.4:
        return rng.choice([round(rng.uniform(-7, 7), 4), ["r", rng.randint(-9, 9), rng.randint(1, 9)], ["pi"]])
    e = ["s", rng.choice(names)]
    for _ in range(rng.randint(0, 2) if rng.random() < 0.8 else long):
        t = ["s", rng.choice(names)]
        k = rng.choice([["i", rng.randint(2, 5)], ["r", rng.randint(1, 5), rng.randint(2, 7)], ["f", round(rng.uniform(-2, 2), 3)]])
        e = ["add", e, ["mul", k, rng.choice([t, t, ["cos", t]])]]
    return e


def big_customs(rng, k):
    out = []
    for i in range(k):
        kind = rng.choice(["rot1", "ph2", "diag2", "tri2", "qr"])
        name = "cg%d" % i
        if kind == "qr":
            out.append({"name": name, "kind": kind, "n": rng.randint(1, 2), "seed": rng.randint(0, 30)})
        else:
            ps = rng.sample(["a", "b", "c", "theta", "gamma", "x"], TEMPLATE_PARAMS[kind])
            out.append({"name": name, "kind": kind, "params": ps})
    return out


def big_gate(rng, names=(), customs=(), controls=2, wraps=2, long=0):
    """(recipe, arity)"""
    if customs and rng.random() < 0.4:
        c = rng.choice(customs)
        if c["kind"] == "qr":
            r, n = {"custom": c, "p": []}, c["n"]
        else:
            r = {"custom": c, "p": [big_param(rng, names, long) for _ in c["params"]]}
            n = TEMPLATE_QUBITS[c["kind"]]
    else:
        g = rng.choice(sorted(oracle.GATES))
        m, n, _f = oracle.GATES[g]
        r = {"g": g}
        if m:
            r["p"] = [big_param(rng, names, long) for _ in range(m)]
    for _ in range(wraps):
        x = rng.random()
        if x < 0.15:
            r = {"w": "dagger", "of": r}
        elif x < 0.3 and controls:
            k = rng.randint(1, controls)
            r, n = {"w": "ctrl", "k": k, "of": r}, n + k
    return r, n


def big_circuit(rng, n, k, **kw):
    ops = []
    while len(ops) < k:
        r, a = big_gate(rng, **kw)
        if a <= n:
            ops.append({"gate": r, "q": rng.sample(range(n), a)})
    return {"n": n, "ops": ops}
