"""C07: gate modifiers compute the matrix they denote."""
import itertools

import numpy as np
import scipy.linalg
import sympy
from hypothesis import strategies as st

from .. import gens, lib, oracle
from ..core import Facet, Skip, require

lib.TINY_ROOTS = True

ASSUMPTIONS = [
    "chains of any modifiers up to 5 deep with at most one exponential or root; two of "
    "those only over a list of gates whose matrices sympy 1.9 can process",
    "exponentials and roots of custom gates only on one qubit (sympy hangs beyond)",
    "a root or exponential that sympy cannot finish within 8 s is skipped (counted)",
    "numeric agreement to 1e-7 relative (1e-6 for roots)",
]

ROOTS = [0.5, ["r", 1, 2], ["r", 1, 3], 1 / 3, 0.25, ["r", 1, 5]]
INTS = [0, 1, 2, 3, -1, -2, -3, 4]


def is_root(e):
    v = lib.exponent(e)
    return float(v) != int(float(v))


def has_root(r):
    while "of" in r:
        if r["w"] == "pow" and is_root(r["e"]):
            return True
        r = r["of"]
    return False


def has_exp(r):
    while "of" in r:
        if r["w"] == "exp":
            return True
        r = r["of"]
    return False


def depth(r):
    return 1 + depth(r["of"]) if "of" in r else 0


def cond(m):
    return np.linalg.cond(m)


def pushed(r):
    """r with every dagger above the innermost root moved right below that root."""
    chain = []
    x = r
    while "of" in x:
        chain.append(x)
        x = x["of"]
    i = max(k for k, y in enumerate(chain) if y["w"] == "pow" and is_root(y["e"]))
    n_daggers = sum(y["w"] == "dagger" for y in chain[:i])
    out = chain[i]["of"]
    for _ in range(n_daggers):
        out = {"w": "dagger", "of": out}
    out = dict(chain[i], of=out)
    for y in reversed(chain[:i]):
        if y["w"] != "dagger":
            out = dict(y, of=out)
    return out


def modelled(r, inner):
    """Matrix of the outermost modifier of r, given the matrix of what it modifies."""
    w = r["w"]
    if w == "dagger":
        return inner.conj().T
    if w == "ctrl":
        return oracle.controlled(inner, r["k"])
    if w == "exp":
        return scipy.linalg.expm(inner)
    return np.linalg.matrix_power(inner, int(float(lib.exponent(r["e"]))))


def computed(g, r, inner):
    """Numeric matrix of g; sympy itself failing on the matrix of `inner` is a known finding."""
    try:
        return lib.num(g.matrix)
    except Exception as e:
        failed = e
    key = None
    if r["w"] in ("exp", "pow"):
        try:
            im = sympy.Matrix(inner.matrix)
            lib.num(im.exp() if r["w"] == "exp" else im ** lib.exponent(r["e"]))
        except Exception as e:
            if type(e) is type(failed):
                key = "sympy-fails"
    require(False, "the matrix of %s cannot be computed: %r" % (g, failed), key)


def sympy_loses_digits(inner, r, m):
    """Is m what sympy alone makes of a matrix with entries too small for its working
    precision of about 125 digits?"""
    im = sympy.Matrix(inner.matrix)
    if not any(0 < abs(lib.cnum(e)) < 1e-100 for e in im):
        return False
    alone = lib.num(im ** lib.exponent(r["e"]))
    return oracle.close(m / np.abs(m).max(), alone / np.abs(m).max(), 1e-9)


def level(r, inner_matrix):
    """Check the outermost modifier of r against the matrix of the gate it modifies."""
    g = lib.gate(r)
    inner = lib.gate(r["of"])
    require(
        g.num_qubits == inner.num_qubits + (r["k"] if r["w"] == "ctrl" else 0),
        lambda: "%s reports %s qubits" % (g, g.num_qubits),
    )
    require(
        len(g.params) == len(inner.params)
        and all(type(a) is type(b) and bool(a == b) for a, b in zip(g.params, inner.params)),
        lambda: "%s has parameters %s, the original gate %s" % (g, g.params, inner.params),
    )
    m = computed(g, r, inner)
    d = 2**g.num_qubits
    require(m.shape == (d, d), lambda: "%s: matrix of shape %s" % (g, m.shape))
    what = "%s of %s" % ({"pow": "power %s" % r.get("e"), "ctrl": "%s controls" % r.get("k")}.get(r["w"], r["w"]), inner)
    if r["w"] == "pow" and is_root(r["e"]):
        q = round(1 / float(lib.exponent(r["e"])))
        back = np.linalg.matrix_power(m, q)
        if not oracle.close(back, inner_matrix, 1e-6):
            key = "sympy-digits" if sympy_loses_digits(inner, r, m) else None
            require(False, "%s: its %d-th power is not the original matrix" % (what, q), key)
    else:
        want = modelled(r, inner_matrix)
        tol = 1e-7 * max(1, cond(inner_matrix)) if r["w"] == "pow" else 1e-7
        if not oracle.close(m, want, tol):
            key = None
            if has_root(r["of"]) and "dagger" in modifiers(r):
                # dagger of a root is built as the principal root of the dagger, which
                # differs from the adjoint when -1 is an eigenvalue
                alt = lib.num(lib.gate(pushed(r)).matrix)
                if oracle.close(m, alt, 1e-6):
                    key = "dagger-of-root"
            require(False, "%s has the wrong matrix" % what, key)
    return m


def modifiers(r):
    return [r["w"]] + modifiers(r["of"]) if "of" in r else []


def base_kind(r):
    return lib.base(r).get("custom", {}).get("kind")


def check_chain(case, ctx):
    r, env = case["g"], {}
    with lib.limit(8, ctx):
        stack = []
        x = r
        while "of" in x:
            stack.append(x)
            x = x["of"]
        base = lib.gate(x)
        m = lib.num(base.matrix)
        require(
            oracle.close(m, lib.ref_base_matrix(x, env), 1e-8), lambda: "matrix of %s" % base
        )
        for y in reversed(stack):
            m = level(y, m)
        # absolute reference for the whole chain
        if not has_root(r):
            want = lib.ref_gate_matrix(r, env)
            require(
                oracle.close(m, want, 1e-6 * max(1, np.linalg.cond(lib.ref_base_matrix(x, env)) ** 4)),
                lambda: "%s has the wrong matrix" % lib.gate(r),
            )
        require(lib.gate(r).num_qubits == lib.arity(r), "number of qubits")
    ms = modifiers(r)
    ctx.label(*set(ms))
    if has_root(r):
        ctx.label("root")
    if has_direct(r):
        ctx.label("direct")
    if base_kind(r) in lib.FACTORY:
        ctx.label("factory")
    ctx.nontrivial(len(ms) >= 2 and len(set(ms)) >= 2)


# ---------------------------------------------------------------------- strategies


@st.composite
def factory_gate(draw, n):
    kind = draw(st.sampled_from([k for k, f in lib.FACTORY.items() if f[0] == n]))
    ps = [draw(gens.small_floats | st.integers(-3, 3)) for _ in range(lib.FACTORY_PARAMS[kind])]
    return {"custom": {"name": "G", "kind": kind}, "p": ps}


def direct(draw, r):
    """The outermost wrapper may be built directly instead of by the method."""
    if draw(st.integers(0, 3)) == 3:
        return dict(r, direct=True)
    return r


def has_direct(r):
    return bool(r.get("direct")) or ("of" in r and has_direct(r["of"]))


def bases(n):
    out = [gens.base_gate(n, gens.numeric_param)] * 4
    if n <= 2:
        out.append(factory_gate(n))
        out.append(
            st.integers(0, 30).map(
                lambda s: {"custom": {"name": "raw%d_%d" % (n, s), "kind": "raw", "n": n, "seed": s}, "p": []}
            )
        )
    return st.one_of(out)


# exact values sympy finds eigenvalues for, and floating point ones
trans_params = st.one_of(
    gens.angles,
    st.floats(-7, 7).map(lambda x: ["np", round(x, 5)]),
    st.floats(-7, 7).map(lambda x: ["f", round(x, 5)]),
    st.sampled_from([0, ["i", 0], ["pi"], ["mul", ["r", 1, 2], ["pi"]], ["mul", ["r", -1, 1], ["pi"]]]),
)


def trans_bases(n):
    out = [gens.builtin(n, trans_params)] * 4
    if n == 1:
        out += [
            st.tuples(st.sampled_from(["raw", "qr"]), st.integers(0, 30)).map(
                lambda t: {"custom": {"name": "%s%d" % t, "kind": t[0], "n": 1, "seed": t[1]}, "p": []}
            ),
            gens.templ(1, trans_params),
        ]
    return st.one_of(out)


@st.composite
def chains(draw, trans=None, max_len=5, max_arity=4, max_base=3):
    """A base gate with modifiers, at most one of them from `trans`."""
    sizes = [1, 1, 1, 2, 2] if trans else [1, 1, 2, 2, 3]
    n = draw(st.sampled_from([s for s in sizes if s <= max_base]))
    r = draw(trans_bases(n) if trans else bases(n))
    k = draw(st.integers(1, max_len))
    at = draw(st.integers(0, k - 1)) if trans else -1
    a = n
    small = 0
    for i in range(k):
        if i == at:
            if trans == "exp":
                r = direct(draw, {"w": "exp", "of": r})
            else:
                r = direct(draw, {"w": "pow", "e": draw(st.sampled_from(ROOTS)), "of": r})
            continue
        w = draw(st.sampled_from(["dagger", "dagger", "ctrl", "ctrl", "pow"]))
        if w == "pow" and r.get("custom", {}).get("kind") == "qr" and n > 2:
            w = "dagger"
        if w == "ctrl" and a < max_arity:
            c = draw(st.integers(1, min(2, max_arity - a)))
            a += c
            r = direct(draw, {"w": "ctrl", "k": c, "of": r})
        elif w == "pow" and small < 2:
            small += 1
            r = direct(draw, {"w": "pow", "e": draw(st.sampled_from(INTS)), "of": r})
        else:
            r = direct(draw, {"w": "dagger", "of": r})
    return {"g": r}


# two exponentials/roots: gates whose nested matrices sympy computes reliably
NESTED_OK = [{"g": g} for g in ("I", "S", "Z", "SX", "H", "Y", "CZ")] + [
    {"g": "RZ", "p": [1]},
    {"g": "RZ", "p": [["mul", ["r", 1, 3], ["pi"]]]},
    {"g": "PHASE", "p": [0]},
    {"g": "RY", "p": [0.3]},
]


def wrap(r, ws):
    for w in ws:
        if w[0] == "ctrl":
            r = {"w": "ctrl", "k": w[1], "of": r}
        elif w[0] == "pow":
            r = {"w": "pow", "e": w[1], "of": r}
        else:
            r = {"w": w[0], "of": r}
    return r


T_MODS = [("pow", 0.5), ("pow", ["r", 1, 3]), ("exp",)]
PLAIN = [("dagger",), ("ctrl", 1), ("ctrl", 2), ("pow", 2), ("pow", -1), ("pow", 0), ("pow", 3)]


def n_trans(ws):
    return sum(w in T_MODS for w in ws)


def table_cases(tier):
    bs = []
    for g, (k, n, _f) in oracle.GATES.items():
        bs.append({"g": g, "p": [0.3, -1.1, 2.2][:k]} if k else {"g": g})
        if k and tier != "quick":
            bs.append({"g": g, "p": [1, ["mul", ["r", 1, 2], ["pi"]], ["r", 2, 3]][:k]})
            bs.append({"g": g, "p": [np.pi, 0, -np.pi][:k]})
    bs += [
        {"custom": {"name": "t", "kind": "rot1", "params": ["a"]}, "p": [0.7]},
        {"custom": {"name": "t", "kind": "ph2", "params": ["b", "a"]}, "p": [0.7, 2]},
        {"custom": {"name": "t", "kind": "diag2", "params": ["b", "a"]}, "p": [0.7, -1]},
        {"custom": {"name": "t", "kind": "qr", "n": 1, "seed": 2}, "p": []},
        {"custom": {"name": "t", "kind": "qr", "n": 2, "seed": 2}, "p": []},
        *[
            {"custom": {"name": "t", "kind": "qr", "n": n, "seed": 100 * k + 3}, "p": []}
            for k in range(1, 10)
            for n in (1, 3)
        ],
        {"custom": {"name": "t", "kind": "raw", "n": 1, "seed": 2}, "p": []},
        {"custom": {"name": "t", "kind": "raw", "n": 2, "seed": 2}, "p": []},
    ]
    top = 2 if tier == "quick" else 3
    for i, b in enumerate(bs):
        for d in range(1, top + 1):
            for j, ws in enumerate(itertools.product(PLAIN + T_MODS, repeat=d)):
                if n_trans(ws) > 1:
                    continue
                if tier == "quick" and d == 2 and (i + j) % 2:
                    continue
                if sum(w[1] for w in ws if w[0] == "ctrl") + lib.arity(b) > 4:
                    continue
                if n_trans(ws) and b.get("custom", {}).get("n", 1) > 1:
                    continue
                yield {"g": wrap(b, ws)}


def built_cases(tier):
    """Every chain of wrappers, each by the method or built directly."""
    bs = [{"g": "S"}, {"custom": {"name": "G", "kind": "f-none"}, "p": []}]
    if tier != "quick":
        bs += [{"g": "RX", "p": [0.3]}, {"g": "X"}, {"custom": {"name": "G", "kind": "f-two"}, "p": []}]
    mods = [{"w": w, "direct": d} for w in ("dagger", "ctrl", "pow") for d in (False, True)]
    top = 4 if tier == "quick" else 5
    for b in bs:
        for i, ws in enumerate(itertools.product(mods, repeat=top)):
            if not any(w["direct"] for w in ws) or (tier == "quick" and (i // 7 + i) % 3 == 0):
                continue
            if lib.arity(b) + sum(w["w"] == "ctrl" for w in ws) > 4:
                continue
            if sum(w["w"] == "pow" for w in ws) > 2:
                continue
            r = b
            for w in ws:
                r = dict(w, of=r)
                if w["w"] == "ctrl":
                    r["k"] = 1
                if w["w"] == "pow":
                    r["e"] = -1 if r["of"].get("w") == "ctrl" else 3
            yield {"g": r}


def nested_cases(tier):
    for b in NESTED_OK:
        for x, y in itertools.product(T_MODS, repeat=2):
            for extra in ([], [("dagger",)], [("ctrl", 1)]):
                if extra and tier == "quick" and x == y:
                    continue
                yield {"g": wrap(b, [x, *extra, y])}


def limits_cases(tier):
    for b, ws in (
        ({"g": "X"}, [("exp",), ("exp",)]),
        ({"g": "RX", "p": [1]}, [("exp",), ("pow", 0.5)]),
        ({"g": "SWAP"}, [("exp",), ("exp",)]),
    ):
        yield {"g": wrap(b, ws)}


# symbolic parameters


@st.composite
def symbolic_cases(draw):
    n = draw(st.integers(1, 2))
    par = st.sampled_from(gens.SYMS).map(lambda s: ["s", s]) | gens.sym_expr() | gens.param(True)
    r = draw(gens.base_gate(n, par, True))
    a = n
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()) and a < 4:
            a += 1
            r = {"w": "ctrl", "k": 1, "of": r}
        else:
            r = {"w": "dagger", "of": r}
    return {"g": r, "seed": draw(gens.seeds)}


def check_symbolic(case, ctx):
    r = case["g"]
    rs = np.random.RandomState(case["seed"])
    env = {s: round(float(rs.uniform(-2, 2)), 3) for s in sorted(lib.gate_symbols(r))}
    g = lib.gate(r)
    x = r
    while "of" in x:
        x = x["of"]
    p = lib.gate(x).params
    require(tuple(g.params) == tuple(p), "parameters changed")
    require(g.num_qubits == lib.arity(r), "number of qubits")
    if max([oracle.magnitude(e, env) for e in x.get("p", [])] + [0]) > 1e4:
        raise Skip()
    got = lib.subs_num(g.matrix, env)
    want = lib.ref_gate_matrix(r, env)
    require(oracle.close(got, want, 1e-7), lambda: "%s has the wrong matrix at %s" % (g, env))
    ctx.nontrivial(bool(env) and "ctrl" in modifiers(r))


# replacing parameters


@st.composite
def replace_cases(draw):
    trans = draw(st.sampled_from([None, None, "exp", "root"]))
    c = draw(chains(trans, 4))
    k = len(lib.base(c["g"]).get("p", []) or [])
    par = trans_params if trans else gens.param(draw(st.booleans()))
    c["new"] = [draw(par) for _ in range(k)]
    return c


def rebase(r, new):
    if "of" in r:
        return dict(r, of=rebase(r["of"], new))
    return dict(r, p=new) if r.get("p") else r


def shape(g):
    out = []
    while True:
        out.append((type(g).__name__, getattr(g, "num_control_qubits", None), getattr(g, "exponent", None)))
        if not hasattr(g, "wrapped_gate"):
            return out + [g.name, g.is_hermitian]
        g = g.wrapped_gate


def check_replace(case, ctx):
    r, new = case["g"], case["new"]
    symbolic = any(oracle.expr_symbols(p) for p in new)
    ms = modifiers(r)
    if symbolic and ("pow" in ms or "exp" in ms):
        raise Skip()
    g = lib.gate(r)
    vals = tuple(lib.expr(p) for p in new)
    a = g.replace_params(vals)
    b = lib.gate(rebase(r, new))
    require(
        len(a.params) == len(vals)
        and all(type(x) is type(y) and bool(x == y) for x, y in zip(a.params, vals)),
        lambda: "%s with parameters %s has %s" % (g, vals, a.params),
    )
    if not has_direct(r):
        require(shape(a) == shape(b), lambda: "%s with new parameters is %s, expected %s" % (g, a, b))
        require(a == b, lambda: "%s with new parameters differs from %s" % (a, b))
    require(a.num_qubits == b.num_qubits == g.num_qubits, "number of qubits changed")
    if not symbolic and not has_root(r) and not has_exp(r):
        require(
            oracle.close(lib.num(a.matrix), lib.ref_gate_matrix(rebase(r, new)), 1e-5),
            lambda: "matrix of %s" % a,
        )
    ctx.nontrivial(bool(new) and len(ms) >= 2)


look_case = st.builds(lambda l, o: dict(l, order=o), gens.lookalikes(), st.sampled_from([[0, 1], [1, 0, 1]]))


def check_look(case, ctx):
    """Similar gates modified one after the other are not mixed up."""
    tol = min(1e-7, 0.01 * case["gap"])
    with lib.limit(8, ctx):
        refs = [lib.ref_gate_matrix(r) for r in case["pair"]]
        scale = max(1.0, max(np.abs(m).max() for m in refs))
        for i in case["order"]:
            g = lib.gate(case["pair"][i])
            require(oracle.close(lib.num(g.matrix), refs[i], tol * scale), lambda: "matrix of %s" % g)
            require(oracle.close(lib.num(g.dagger.matrix), refs[i].conj().T, tol * scale), lambda: "dagger of %s" % g)
            c = oracle.controlled(refs[i], 1)
            require(oracle.close(lib.num(g.controlled(1).matrix), c, tol * scale), lambda: "controlled %s" % g)
            sq = refs[i] @ refs[i]
            require(oracle.close(lib.num(g.power(2).matrix), sq, tol * scale**2), lambda: "square of %s" % g)
    ctx.nontrivial(not oracle.close(refs[0], refs[1], 2 * tol * scale))


# ----------------------------------- many controls, long chains, large exponents


@st.composite
def large_cases(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    r = draw(bases(n))
    kind = draw(st.sampled_from(["controls", "chain", "exponent"]))
    a, k = n, 1
    if kind == "exponent":
        e = draw(st.sampled_from([5, 6, 7, 9, 12, 16, 17, 25, 33, -5, -8, -13, -32]))
        ws = [{"w": "pow", "e": e}] + draw(
            st.lists(st.sampled_from([{"w": "dagger"}, {"w": "ctrl", "k": 1}]), max_size=3)
        )
        ws = draw(st.permutations(ws))
    elif kind == "controls":
        ws = [{"w": "ctrl", "k": draw(st.integers(1, 4))} for _ in range(draw(st.integers(1, 3)))]
        ws += [{"w": "dagger"}] * draw(st.integers(0, 2))
        if draw(st.booleans()):
            ws.append({"w": "pow", "e": draw(st.sampled_from([-1, 2]))})
        ws = draw(st.permutations(ws))
    else:
        ws = draw(
            st.lists(
                st.sampled_from([{"w": "dagger"}, {"w": "dagger"}, {"w": "ctrl", "k": 1}, {"w": "pow", "e": -1}]),
                min_size=6,
                max_size=12,
            )
        )
    top = 7 if kind == "controls" else 4
    for w in ws:
        if w["w"] == "ctrl":
            if a + w["k"] > top:
                continue
            a += w["k"]
        r = direct(draw, dict(w, of=r))
    return {"g": r}


FACETS = [
    Facet("lookalikes", check_look, "the two gates differ by more than the tolerance", look_case, quick=150, thorough=4000, shard=25),
    Facet("chains", check_chain, ">=2 different modifiers", chains(), quick=500, thorough=15000, shard=30),
    Facet("roots", check_chain, ">=2 different modifiers", chains("root", 4), quick=200, thorough=4000, shard=10),
    Facet("exponentials", check_chain, ">=2 different modifiers", chains("exp", 4), quick=200, thorough=4000, shard=10),
    Facet("table", check_chain, ">=2 different modifiers", cases=table_cases, shard=60, exhaustive=True),
    Facet("built", check_chain, ">=2 different modifiers", cases=built_cases, shard=80),
    Facet("nested", check_chain, ">=2 different modifiers", cases=nested_cases, shard=12),
    Facet("limits", check_chain, ">=2 different modifiers", cases=limits_cases, shard=1),
    Facet("symbolic", check_symbolic, "controlled and symbolic", symbolic_cases(), quick=200, thorough=5000, shard=25),
    Facet("replace", check_replace, "parametric with >=2 modifiers", replace_cases(), quick=300, thorough=6000, shard=30),
    Facet("large", check_chain, ">=2 different modifiers", large_cases().filter(lambda c: "of" in c["g"]), quick=60, thorough=3000, shard=8),
]
