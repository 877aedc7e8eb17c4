"""C03: Pauli operator arithmetic is faithful to matrix arithmetic."""
import random

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum.operators import PauliSum, PauliTerm

from .. import ops, oracle
from ..core import Facet, Skip, fail, require

ASSUMPTIONS = [
    "coefficients are chosen so that no exact value lies in (0, 1e-7): the library drops "
    "terms below its 1e-8 tolerance",
    "equality is not judged when coefficients differ by more than 5e-9 but less than numpy's "
    "combined tolerance (1e-7 + 1.1e-5 relative)",
    "operators wider than 4 qubits are compared term-wise with an independent sparse model",
]

NUM = (int, float, complex)


def both(e):
    """Evaluate a recipe in the library and in the model at once.

    Returns (library object, model, l1 magnitude bound)."""
    t = e[0]
    if t == "num":
        c = ops.coeff(e[1])
        return c, ops.m_term([], c), abs(c)
    if t == "term":
        m = ops.t_model(e[1])
        return ops.term(e[1]), m, ops.m_l1(m)
    if t == "sum":
        m = ops.s_model(e[1])
        return ops.psum(e[1]), m, sum(ops.m_l1(ops.t_model(x)) for x in e[1])
    if t == "simplify":
        o, m, g = both(e[1])
        if isinstance(o, NUM):
            return o, m, g
        if isinstance(o, PauliTerm):
            o = PauliSum([o])
        return o.simplify(), m, g
    if t == "pow":
        o, m, g = both(e[1])
        r = ops.m_term([], 1)
        for _ in range(e[2]):
            r = ops.m_mul(r, m)
        return o ** e[2], r, max(1.0, g) ** e[2]
    if t == "div":
        o, m, g = both(e[1])
        c = ops.coeff(e[2])
        return o / c, ops.m_scale(m, 1 / c), g / abs(c)
    a, ma, ga = both(e[1])
    b, mb, gb = both(e[2])
    if t == "add":
        return a + b, ops.m_add(ma, mb), ga + gb
    if t == "sub":
        return a - b, ops.m_add(ma, mb, -1), ga + gb
    return a * b, ops.m_mul(ma, mb), ga * gb


def denotes(o, m, g, what, dense=4):
    if isinstance(o, NUM):
        require(abs(complex(o) - m.get(frozenset(), 0)) <= 1e-7 * max(1, g), what)
        return
    require(isinstance(o, (PauliTerm, PauliSum)), "%s: result type %s" % (what, type(o)))
    got = ops.m_of(o)
    tol = 1e-7 * max(1.0, g)
    require(ops.m_close(got, m, tol), lambda: "%s: %s denotes %s, wanted %s" % (what, o, got, m))
    for t in o.terms:
        for q, p in t.operations:
            require(p in "XYZ" and q >= 0, "%s: malformed term %s" % (what, t))
    n = max(ops.m_width(got), ops.m_width(m))
    if n <= dense:
        require(
            oracle.close(ops.m_dense(got, n), ops.m_dense(m, n), tol), what + " (dense matrices)"
        )


def size(e):
    if e[0] in ("num", "term", "sum"):
        return 1
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str))


def check_expr(case, ctx):
    o, m, g = both(case)
    denotes(o, m, g, "expression")
    if isinstance(o, PauliSum):
        s = o.simplify()
        denotes(s, m, g, "simplified")
        keys = [t.operations for t in s.terms]
        require(len(keys) == len(set(keys)), "simplify left like terms apart")
    ctx.label(case[0])
    ctx.nontrivial(size(case) >= 3 and len(m) >= 1 and not isinstance(o, NUM))


def tree(max_q, depth=3, leaves=6):
    num = ops.coeffs.map(lambda c: ["num", c])
    leaf = st.one_of(
        ops.terms(max_q).map(lambda t: ["term", t]),
        ops.terms(max_q).map(lambda t: ["term", t]),
        ops.sums(max_q, max_terms=3).map(lambda t: ["sum", t]),
        num,
    )
    nz = ops.coeffs.filter(lambda c: abs(ops.coeff(c)) > 0.05)

    def ext(ch):
        op = ch.filter(lambda e: not is_num(e))
        return st.one_of(
            st.tuples(st.sampled_from(["add", "sub", "mul", "mul"]), ch, ch).map(list),
            st.tuples(st.sampled_from(["add", "sub", "mul"]), op, num).map(list),
            st.tuples(st.sampled_from(["add", "sub", "mul"]), num, op).map(list),
            st.tuples(st.just("div"), op, nz).map(list),
            st.tuples(st.just("pow"), op, st.integers(0, 4)).map(list),
            st.tuples(st.just("simplify"), op).map(list),
        )

    return st.recursive(leaf, ext, max_leaves=leaves)


def is_num(e):
    if e[0] == "num":
        return True
    if e[0] in ("term", "sum"):
        return False
    if e[0] in ("add", "sub", "mul"):
        return is_num(e[1]) and is_num(e[2])
    return is_num(e[1])


# ---------------------------------------------------------------- one operation deep


def pair_strategy(max_q):
    num = st.one_of(ops.coeffs, ops.real_coeffs.map(lambda x: {"np": float(x)})).map(
        lambda c: ["num", c]
    )
    leaf = st.one_of(
        ops.terms(max_q).map(lambda t: ["term", t]),
        ops.sums(max_q).map(lambda t: ["sum", t]),
    )
    both_ = st.one_of(
        st.tuples(leaf, leaf), st.tuples(leaf, num), st.tuples(num, leaf), st.tuples(leaf, leaf)
    )
    return st.builds(
        lambda k, p: [k, p[0], p[1]], st.sampled_from(["add", "sub", "mul"]), both_
    )


def check_pair(case, ctx):
    if case[1][0] == "num" and isinstance(case[1][1], dict) and "np" in case[1][1]:
        raise Skip()  # numpy scalars on the left use numpy's own operator dispatch
    o, m, g = both(case)
    denotes(o, m, g, case[0])
    ctx.label(case[0] + ":" + case[1][0] + "," + case[2][0])
    ctx.nontrivial(len(m) > 0)


# ----------------------------------------- exhaustive products of strings, 1..3 qubits


def string_cases(tier):
    out = []
    for n in (1, 2, 3):
        for a in ops.all_strings(n):
            out.append({"n": n, "a": a})
    return out


def check_strings(case, ctx):
    n, a = case["n"], case["a"]
    ta = PauliTerm({q: p for q, p in a}, 2.0)
    A = oracle.pauli_string(dict(map(tuple, a)), n, 2.0)
    for b in ops.all_strings(n):
        tb = PauliTerm({q: p for q, p in b}, 0.5j)
        B = oracle.pauli_string(dict(map(tuple, b)), n, 0.5j)
        for got, want, what in (
            (ta * tb, A @ B, "product"),
            (ta + tb, A + B, "sum"),
            (ta - tb, A - B, "difference"),
            (PauliSum([ta]) * tb, A @ B, "sum*term"),
            (ta * PauliSum([tb]), A @ B, "term*sum"),
        ):
            require(
                oracle.close(ops.m_dense(ops.m_of(got), n), want, 1e-12),
                lambda: "%s of %s and %s is %s" % (what, ta, tb, got),
            )
        require((ta == tb) == (a == b and False), "equality of different terms %s %s" % (ta, tb))
        require((ta * 0.25j == tb) == (a == b), lambda: "equality of %s and %s" % (ta * 0.25j, tb))
        require(
            (PauliSum([ta * 0.25j]) == PauliSum([tb])) == (a == b), "equality of one-term sums"
        )
    for k in range(5):
        require(
            oracle.close(
                ops.m_dense(ops.m_of(ta**k), n), np.linalg.matrix_power(A, k), 1e-12
            ),
            "power %d of %s" % (k, ta),
        )
    ctx.nontrivial(len(a) > 0)


# ------------------------------------------------------------------------- equality

deltas = st.sampled_from([0.0, 0.0, 1e-16, 1e-13, -2e-12, 1e-9, 3e-9, -4e-9, 1e-3, -0.01, 1e-4, 2.0])
eq_coeff = st.one_of(
    st.floats(0.01, 3).map(lambda x: round(x, 4)),
    st.integers(1, 2000).map(lambda k: (k + 0.5) * 1e-6),  # hash rounding boundaries
    st.floats(0.001, 5),
    st.integers(1, 5),
)


@st.composite
def eq_case(draw):
    n = draw(st.integers(1, 4))
    keys = draw(
        st.lists(
            st.lists(
                st.tuples(st.integers(0, 11), st.sampled_from("XYZ")),
                unique_by=lambda x: x[0],
                max_size=3,
            ).map(lambda o: sorted(map(list, o))),
            unique_by=lambda o: str(o),
            max_size=n,
        )
    )
    a, b = [], []
    for k in keys:
        c = [draw(eq_coeff), draw(st.sampled_from([0, 0, 1])) * draw(eq_coeff)]
        sg = draw(st.sampled_from([1, -1]))
        c = [sg * c[0], c[1]]
        d = [draw(deltas), draw(st.sampled_from([0, 0, 1])) * draw(deltas)]
        if draw(st.integers(0, 3)) == 0:  # both sides of what rounding would separate
            part = draw(st.sampled_from([0, 0, 1]))
            t = draw(st.sampled_from([1e-12, 1e-10, 1e-9, 2e-9]))
            edge = draw(st.integers(50, 3 * 10**8)) * 2 + 1
            edge = sg * edge * 0.5 * 10.0 ** -draw(st.sampled_from([8, 8, 7, 6, 9]))
            c[part] = edge - t
            d = [0, 0]
            d[part] = 2 * t
        a.append({"o": k, "c": {"c": c} if c[1] else c[0]})
        e = [c[0] + d[0], c[1] + d[1]]
        b.append({"o": k, "c": {"c": e} if e[1] else e[0]})
    mode = draw(st.sampled_from(["same", "same", "drop", "swap"]))
    if mode == "drop" and b:
        b = b[:-1]
    if mode == "swap" and b and b[-1]["o"]:
        o = [list(x) for x in b[-1]["o"]]
        o[0][1] = {"X": "Y", "Y": "Z", "Z": "X"}[o[0][1]]
        if str(o) not in {str(x["o"]) for x in b}:
            b[-1] = dict(b[-1], o=o)
    b = draw(st.permutations(b))
    return {"a": a, "b": list(b), "wrap": draw(st.sampled_from(["sum", "sum", "mixed", "arith"]))}


def verdict(ma, mb):
    """True / False / None (grey)."""
    eq = True
    for k in set(ma) | set(mb):
        x, y = ma.get(k, 0), mb.get(k, 0)
        d = abs(x - y)
        if d > 1e-7 + 1.1e-5 * max(abs(x), abs(y)):
            return False
        if max(abs(x.real - y.real), abs(x.imag - y.imag)) > 5e-9:
            eq = None
    return eq


def objects(ts, wrap):
    s = ops.psum(ts)
    out = [s]
    if wrap == "mixed":
        if len(ts) == 1:
            out.append(s.terms[0])
            if not ts[0]["o"]:
                out.append(ops.coeff(ts[0]["c"]))
        if not ts:
            out += [0, 0.0, 0j, PauliTerm({}, 0), PauliTerm({0: "X"}, 0.0)]
    if wrap == "arith":
        acc = PauliSum()
        for t in reversed(ts):
            acc = acc + ops.term(t)
        out.append(acc)
        if ts:
            out.append((s + s) * 0.5)
    return out


def check_eq(case, ctx):
    ma, mb = ops.s_model(case["a"]), ops.s_model(case["b"])
    v = verdict(ma, mb)
    ctx.label({True: "equal", False: "different", None: "grey"}[v])
    if any(0 < abs(x) < 1e-7 for m in (ma, mb) for x in m.values()):
        raise Skip()
    for x in objects(case["a"], case["wrap"]):
        for y in objects(case["b"], case["wrap"]):
            if isinstance(x, NUM) and isinstance(y, NUM):
                continue
            if v is None:
                continue
            for p, q in ((x, y), (y, x)):
                got = p == q
                require(
                    bool(got) == v,
                    lambda: "%r == %r is %s although the matrices are %s"
                    % (p, q, got, "equal" if v else "different"),
                )
    ctx.nontrivial(v is not None and len(case["a"]) > 0)
    if v and case["a"] != case["b"]:
        ctx.label("equal-not-identical")


# ------------------------------------------------------------------ simplification


def check_simplify(case, ctx):
    s = ops.psum(case["t"])
    m = ops.s_model(case["t"])
    r = s.simplify()
    g = sum(ops.m_l1(ops.t_model(x)) for x in case["t"])
    denotes(r, m, g, "simplify")
    require(not any(abs(t.coefficient) < 1e-12 for t in r.terms), "zero term left")
    keys = [t.operations for t in r.terms]
    require(len(keys) == len(set(keys)), "like terms left apart")
    r2 = r.simplify()
    require(ops.m_of(r2) == ops.m_of(r), "simplify is not idempotent")
    keys_in = [frozenset((q, p) for q, p in t["o"] if p != "I") for t in case["t"]]
    ctx.nontrivial(len(keys_in) > len(set(keys_in)))
    if len(r.terms) < len(set(keys_in)):
        ctx.label("cancelled")


simp_case = st.builds(
    lambda t: {"t": t}, ops.sums(2, max_terms=8, coeffs=ops.any_coeffs)
) | st.builds(lambda t: {"t": t}, ops.sums(20, max_terms=6, max_len=2))

# ------------------------------------------------- many terms, wide-ranging magnitudes
# Every coefficient is judged on its own scale: rounding can only lose what is tiny
# against the absolute values that were summed into that very coefficient.


def mag(m):
    return {k: abs(v) for k, v in m.items()}


def mag_of(ts):
    out = {}
    for t in ts:
        out = ops.m_add(out, mag(ops.t_model(t)))
    return out


def mag_mul(a, b):
    out = {}
    for (k1, c1), (k2, c2) in ((x, y) for x in a.items() for y in b.items()):
        ((k, _),) = ops.m_mul({k1: 1.0}, {k2: 1.0}).items()
        out[k] = out.get(k, 0) + c1 * c2
    return out


def same(o, m, g, what):
    got = ops.m_of(o)
    for k in set(got) | set(m):
        x, y = got.get(k, 0), m.get(k, 0)
        require(
            abs(x - y) <= 1e-9 * g.get(k, 0) + 1e-8,
            lambda: "%s: coefficient of %s is %s, wanted %s" % (what, sorted(k), x, y),
        )


def check_large(case, ctx):
    rng = random.Random(case["seed"])
    kw = dict(width=case["width"], max_len=case["len"], lo=case["lo"], hi=case["hi"])
    ta = ops.big_terms(rng, case["a"], pool=max(1, case["a"] * 3 // 4), **kw)
    tb = ops.big_terms(rng, case["b"], **kw)
    a, b = ops.psum(ta), ops.psum(tb)
    ma, mb, ga, gb = ops.s_model(ta), ops.s_model(tb), mag_of(ta), mag_of(tb)
    s = a.simplify()
    same(s, ma, ga, "simplify")
    keys = [t.operations for t in s.terms]
    require(len(keys) == len(set(keys)), "simplify left like terms apart")
    same(a + b, ops.m_add(ma, mb), ops.m_add(ga, gb), "sum")
    same(a - b, ops.m_add(ma, mb, -1), ops.m_add(ga, gb), "difference")
    same(a * -3.0, ops.m_scale(ma, -3.0), ops.m_scale(ga, 3.0), "scaled")
    same(4.0 + a, ops.m_add(ops.m_term([], 4.0), ma), ops.m_add({frozenset(): 4.0}, ga), "shifted")
    same(a / 8.0, ops.m_scale(ma, 0.125), ops.m_scale(ga, 0.125), "divided")
    t0 = ops.term(tb[0])
    m0, g0 = ops.t_model(tb[0]), mag_of(tb[:1])
    same(a * t0, ops.m_mul(ma, m0), mag_mul(ga, g0), "sum*term")
    same(t0 * a, ops.m_mul(m0, ma), mag_mul(g0, ga), "term*sum")
    same(t0 - a, ops.m_add(m0, ma, -1), ops.m_add(g0, ga), "term-sum")
    if len(ma) * len(mb) <= 150:
        same(a * b, ops.m_mul(ma, mb), mag_mul(ga, gb), "product")
    else:
        sb = ops.psum(tb[:6])
        same(a * sb, ops.m_mul(ma, ops.s_model(tb[:6])), mag_mul(ga, mag_of(tb[:6])), "product")
    # powers
    small = tb[:3]
    ps, mp, gp = ops.psum(small), ops.s_model(small), mag_of(small)
    m, g = ops.m_term([], 1), {frozenset(): 1.0}
    for k in range(1, case["pow"] + 1):
        m, g = ops.m_mul(m, mp), mag_mul(g, gp)
        if k in (1, case["pow"]):
            same(ps**k, m, g, "power %d" % k)
    m, g = ops.m_term([], 1), {frozenset(): 1.0}
    for k in range(1, 2 * case["pow"] + 1):
        m, g = ops.m_mul(m, m0), mag_mul(g, g0)
    same(t0 ** (2 * case["pow"]), m, g, "power %d of a term" % (2 * case["pow"]))
    # equality, with coefficients of ordinary size
    kw.update(lo=-3, hi=3)
    te = ops.big_terms(rng, case["a"], **kw)
    te = list({str(sorted(t["o"])): t for t in te}.values())
    other = list(te)
    rng.shuffle(other)
    e, f = ops.psum(te), ops.psum(other)
    require((e == f) is True and (f == e) is True, "a sum differs from itself reordered")
    i = rng.randrange(len(other))
    c = ops.coeff(other[i]["c"])
    for c2 in (c * 1.01, -c, c + 2.0):
        ch = other[:i] + [dict(other[i], c={"c": [complex(c2).real, complex(c2).imag]})] + other[i + 1 :]
        x = ops.psum(ch)
        require(not e == x and not x == e, "sums equal although coefficient %d differs" % i)
    x = ops.psum(other[:i] + other[i + 1 :])
    require(not e == x and not x == e, "sums equal although a term is missing")
    halves = [
        dict(t, c={"c": [complex(ops.coeff(t["c"])).real / 2, complex(ops.coeff(t["c"])).imag / 2]})
        for t in te
    ]
    x = ops.psum(halves + halves[::-1]).simplify()
    require(e == x and x == e, "a sum differs from itself split in halves")
    ctx.label("terms>=%d" % (case["a"] // 10 * 10))
    ctx.label("span" if case["hi"] - case["lo"] > 25 else "even")
    ctx.nontrivial(len(ma) >= 5)


large_case = st.builds(
    lambda s, a, b, w, ln, r, p: {
        "seed": s, "a": a, "b": b, "width": w, "len": ln, "lo": r[0], "hi": r[1], "pow": p,
    },
    st.integers(0, 2**31),
    st.integers(1, 40) | st.sampled_from([17, 33, 65, 101]),
    st.integers(1, 12),
    st.sampled_from([2, 3, 11, 14, 40, 101]),
    st.sampled_from([1, 2, 6, 12, 20]),
    st.sampled_from([[0, 0], [-3, 3], [-6, 6], [-6, 40], [-2, 50]]),
    st.integers(2, 4),
)

# ----------------------------------------------- near twins, one right after the other


def check_twins(case, ctx):
    """The same operation on operands that are nearly, or seemingly, the same."""
    ks = case["keys"]
    for twist in case["twists"]:
        ts = []
        for j, k in enumerate(ks):
            c = complex(*k["c"])
            if twist[0] == "add":
                c += twist[1] if j == twist[2] % len(ks) else 0
            elif twist[0] == "mul":
                c *= twist[1]
            elif twist[0] == "conj":
                c = c.conjugate()
            else:  # swap real and imaginary part
                c = complex(c.imag, c.real)
            ts.append({"o": k["o"], "c": {"c": [c.real, c.imag]} if c.imag else c.real})
        if any(abs(complex(ops.coeff(t["c"]))) < 1e-3 for t in ts):
            continue
        s, t = ops.psum(ts), ops.term(ts[0])
        m, g = ops.s_model(ts), mag_of(ts)
        m0, g0 = ops.t_model(ts[0]), mag_of(ts[:1])
        what = "after a near twin: "
        p, gp = ops.m_term([], 1), {frozenset(): 1.0}
        p0, gp0 = ops.m_term([], 1), {frozenset(): 1.0}
        for _ in range(case["pow"]):
            p, gp = ops.m_mul(p, m), mag_mul(gp, g)
            p0, gp0 = ops.m_mul(p0, m0), mag_mul(gp0, g0)
        same(s ** case["pow"], p, gp, what + "power")
        same(t ** case["pow"], p0, gp0, what + "power of a term")
        same(s * t, ops.m_mul(m, m0), mag_mul(g, g0), what + "product")
        same(t * t, ops.m_mul(m0, m0), mag_mul(g0, g0), what + "square")
        same(s + t, ops.m_add(m, m0), ops.m_add(g, g0), what + "sum")
        same(t - s, ops.m_add(m0, m, -1), ops.m_add(g, g0), what + "difference")
        same(s.simplify(), m, g, what + "simplify")
        same(s * 2, ops.m_scale(m, 2), ops.m_scale(g, 2), what + "scaled")
        same(s * 2.0000003, ops.m_scale(m, 2.0000003), ops.m_scale(g, 2.0), what + "scaled")
    ctx.label("pow=%d" % case["pow"])
    ctx.nontrivial(len(case["twists"]) >= 2)


_tw = st.one_of(
    st.tuples(st.just("add"), st.sampled_from([0.0, 2e-7, 4e-7, -3e-7, 1e-6, 1e-4, 0.01]), st.integers(0, 2)),
    st.tuples(st.just("mul"), st.sampled_from([1.0, -1.0, 2.0, -2.0, 1.0000002])),
    st.tuples(st.sampled_from(["conj", "swap"])),
).map(list)
twins_case = st.builds(
    lambda k, t, p: {"keys": k, "twists": t, "pow": p},
    st.lists(
        st.builds(
            lambda o, re, im: {"o": o, "c": [float(re), float(im)]},
            st.lists(st.tuples(st.integers(0, 3), st.sampled_from("XYZ")).map(list), unique_by=lambda x: x[0], max_size=3),
            st.sampled_from([-2, -1, 1, 2, 0.5, 1.5]),
            st.sampled_from([0, 0, -1, 1, 2]),
        ),
        min_size=1,
        max_size=3,
        unique_by=lambda k: str(sorted(k["o"])),
    ),
    st.lists(_tw, min_size=2, max_size=4),
    st.integers(2, 5),
)


FACETS = [
    Facet("strings", check_strings, "every pair of strings on <=3 qubits", cases=string_cases, shard=12, exhaustive=True),
    Facet("pairs", check_pair, "one operation on drawn operands, non-zero result", pair_strategy(3) | pair_strategy(30), quick=4000, thorough=120000, shard=400),
    Facet("expressions", check_expr, "operation trees of size >=3", tree(3), quick=2500, thorough=80000, shard=250),
    Facet("wide-expressions", check_expr, "operation trees on up to 40 qubits", tree(40), quick=1200, thorough=40000, shard=200),
    Facet("equality", check_eq, "equality decided outside the grey zone, non-empty", eq_case(), quick=3000, thorough=80000, shard=300),
    Facet("simplify", check_simplify, "sums with like terms", simp_case, quick=2500, thorough=60000, shard=300),
    Facet("large", check_large, "at least 5 distinct strings", large_case, quick=60, thorough=4000, shard=10),
    Facet("twins", check_twins, "at least two near-identical operands in a row", twins_case, quick=400, thorough=12000, shard=50),
]
