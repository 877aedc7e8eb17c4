"""C09: converting operators to matrices and back preserves what they denote."""
import itertools
import random

import numpy as np
import scipy.sparse
from hypothesis import strategies as st
from orquestra.quantum.operators import (
    PauliSum,
    PauliTerm,
    get_expectation_value,
    get_sparse_operator,
    hermitian_conjugated,
    is_hermitian,
    reverse_qubit_order,
)
from orquestra.quantum.operators._utils import get_pauliop_from_matrix
from orquestra.quantum.operators._openfermion_utils.sparse_tools import expectation
from orquestra.quantum.wavefunction import Wavefunction

from .. import gens, oracle
from .. import ops as po
from ..core import Facet, Skip, require

ASSUMPTIONS = [
    "dense comparison up to 6 qubits, action on random vectors up to 11 qubits",
    "expansion of matrices up to 3 qubits (4 in the thorough tier)",
    "coefficients below 1e-8 may be dropped by an expansion (the library's tolerance)",
    "Hermiticity is judged on operators whose coefficients are real to 1e-10 or clearly complex",
]


def dense(op, n=None):
    m = get_sparse_operator(op) if n is None else get_sparse_operator(op, n_qubits=n)
    require(scipy.sparse.issparse(m), "not a sparse matrix")
    return np.asarray(m.todense(), dtype=complex)


def same(got, want, what, tol=1e-9):
    want = np.asarray(want)
    require(got.shape == want.shape, lambda: "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if not oracle.close(got, want, tol):
        i, j = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
        require(False, "%s: entry [%d,%d] is %s, expected %s" % (what, i, j, got[i, j], want[i, j]))


# --------------------------------------------------------------------------- sparse


def string_cases(tier):
    top = 3 if tier == "quick" else 5
    for n in range(0, top + 1):
        for i, o in enumerate(po.all_strings(n)):
            for c in (1.0, {"c": [0.5, -2.0]}) if n < 4 else (1.0,):
                yield {"o": o, "c": c, "extra": [0, 1, 2] if n < 4 else [i % 2]}


def check_string(case, ctx):
    t = {"o": case["o"], "c": case["c"]}
    m = po.t_model(t)
    w = po.m_width(m)
    for op in (po.term(t), po.psum([t])):
        same(dense(op), po.m_dense(m, w), "own width")
        for e in case["extra"]:
            same(dense(op, w + e), po.m_dense(m, w + e), "width %d" % (w + e))
    ctx.nontrivial(len(case["o"]) > 0)


@st.composite
def sum_cases(draw):
    q = draw(st.integers(1, 4))
    ts = draw(po.sums(q, po.any_coeffs, 5))
    return {"ts": ts, "extra": draw(st.integers(0, 2)), "single": draw(st.booleans())}


def labels(m, ctx):
    qs = [sorted(q for q, _ in k) for k in m]
    if any(q and q[-1] - q[0] + 1 > len(q) for q in qs):
        ctx.label("gap")
    if any(p == "Y" for k in m for _, p in k):
        ctx.label("Y")
    if frozenset() in m:
        ctx.label("constant")
    if any(v.imag for v in m.values()):
        ctx.label("complex")


def check_sum(case, ctx):
    ts = case["ts"]
    m = po.s_model(ts)
    op = po.term(ts[0]) if case["single"] and len(ts) == 1 else po.psum(ts)
    # qubits of terms that cancel still count for the register
    w = 1 + max([q for t in ts for q, p in t["o"] if p != "I"], default=-1)
    require(op.n_qubits == w, lambda: "operator width %s, expected %s" % (op.n_qubits, w))
    same(dense(op), po.m_dense(m, w), "own width")
    n = w + case["extra"]
    same(dense(op, n), po.m_dense(m, n), "width %d" % n)
    if isinstance(op, PauliSum):
        same(dense(op.simplify(), n), po.m_dense(m, n), "simplified", 1e-7)
    labels(m, ctx)
    if not ts:
        ctx.label("empty-sum")
    ctx.nontrivial(len(m) > 1)


@st.composite
def wide_cases(draw):
    n = draw(st.integers(6, 11))
    ts = draw(po.sums(n, po.any_coeffs, 3, 1, max_len=4))
    return {"n": n, "ts": ts, "v": draw(st.integers(1, 10**6))}


def check_wide(case, ctx):
    n, ts = case["n"], case["ts"]
    m = po.s_model(ts)
    psi = gens.state(case["v"], n)
    want = np.zeros(2**n, dtype=complex)
    for k, c in m.items():
        phi = psi
        for q, p in k:
            phi = oracle.apply_op(phi, oracle.PAULI[p], [q], n)
        want = want + c * phi
    op = po.psum(ts)
    got = np.asarray(get_sparse_operator(op, n_qubits=n) @ psi).ravel()
    require(oracle.close(got, want, 1e-8), "sparse matrix acts wrongly on a random vector")
    ev = get_expectation_value(op, Wavefunction(psi))
    require(abs(ev - np.vdot(psi, want)) <= 1e-8 * (1 + po.m_l1(m)), "expectation value is not the quadratic form")
    labels(m, ctx)
    ctx.nontrivial(len(m) > 1)


# ------------------------------------------------------------------------- hermitian


herm_coeffs = st.one_of(
    po.real_coeffs,
    po.real_coeffs.map(lambda a: {"c": [a, 0.0]}),
    st.builds(lambda a, b: {"c": [a, b]}, po.nice, st.sampled_from([0, 1, -1, 0.5, 1e-4, -1e-4])),
    po.real_coeffs.map(lambda a: {"c": [a, 1e-12]}),
)


@st.composite
def herm_cases(draw):
    q = draw(st.integers(1, 3))
    allreal = draw(st.integers(0, 3)) == 3
    ts = draw(po.sums(q, po.real_coeffs if allreal else herm_coeffs, 4))
    if draw(st.integers(0, 3)) == 0:
        # imaginary parts that cancel over the whole operator, not within a term
        us = draw(st.lists(po.terms(q), min_size=2, max_size=3, unique_by=lambda t: str(sorted(t["o"]))))
        scale = draw(st.sampled_from([1, 0.5, -2]))
        for u, im in zip(us, [[1, -1], [1, 1, -2]][len(us) - 2]):
            c = {"c": [draw(st.sampled_from([0, 0, 1.5])), im * scale]}
            ts.append({"o": u["o"], "c": c, "form": "dict"})
    return {"ts": ts, "single": draw(st.booleans())}


def check_herm(case, ctx):
    ts = case["ts"]
    m = po.s_model(ts)
    single = case["single"] and len(ts) == 1
    op = po.term(ts[0]) if single else po.psum(ts)
    n = max(1, po.m_width(m))
    conj = hermitian_conjugated(op)
    require(type(conj) is type(op), "kind of operator changed")
    want = po.m_dense(m, n).conj().T
    same(po.m_dense(po.m_of(conj), n), want, "hermitian conjugate", 1e-7)
    same(dense(conj, max(n, conj.n_qubits))[: 2**n, : 2**n] if conj.n_qubits > n else dense(conj, n), want, "matrix of the hermitian conjugate", 1e-7)
    d = po.m_dense(m, n)
    same(np.asarray(hermitian_conjugated(d)), want, "conjugate of an array")
    same(np.asarray(hermitian_conjugated(scipy.sparse.csc_matrix(d)).todense()), want, "conjugate of a sparse matrix")
    simp = op.simplify() if isinstance(op, PauliSum) else op
    sm = po.m_of(simp)
    imag = max([abs(v.imag) for v in sm.values()], default=0.0)
    if 1e-10 < imag < 1e-6:
        raise Skip()
    truth = imag <= 1e-10
    for x, what in ((simp, "simplified operator"), (po.m_dense(sm, n), "array"), (scipy.sparse.csc_matrix(po.m_dense(sm, n)), "sparse matrix")):
        require(
            bool(is_hermitian(x)) == truth,
            lambda: "is_hermitian of the %s %s is %s" % (what, op, not truth),
        )
    back = hermitian_conjugated(conj)
    require(po.m_close(po.m_of(back), m, 2e-8 * (1 + len(ts))), "conjugating twice")
    ctx.label("hermitian" if truth else "not-hermitian")
    labels(m, ctx)
    ctx.nontrivial(len(sm) > 0)


# ------------------------------------------------------------------------- expansion


def matrix_of(case):
    n, kind, seed = case["n"], case["kind"], case["seed"]
    d = 2**n
    r = np.random.RandomState(seed)
    if kind == "real":
        m = r.uniform(-1, 1, size=(d, d))
    elif kind == "complex":
        m = r.uniform(-1, 1, size=(d, d)) + 1j * r.uniform(-1, 1, size=(d, d))
    elif kind == "int":
        m = r.randint(-3, 4, size=(d, d))
    elif kind == "unit":
        m = np.zeros((d, d))
        m[r.randint(d), r.randint(d)] = 1
    elif kind == "iunit":
        m = np.zeros((d, d), dtype=complex)
        m[r.randint(d), r.randint(d)] = 1j
    elif kind == "herm":
        m = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))
        m = m + m.conj().T
    elif kind == "diag":
        m = np.diag(r.randint(-2, 3, size=d).astype(float))
    elif kind == "zero":
        m = np.zeros((d, d))
    elif kind == "perm":
        m = np.eye(d)[r.permutation(d)]
    else:
        v = r.normal(size=d) + 1j * r.normal(size=d)
        m = np.outer(v, v.conj()) / np.vdot(v, v)
    return m * case["scale"]


KINDS = ["real", "complex", "int", "unit", "iunit", "herm", "diag", "zero", "perm", "proj"]


@st.composite
def expand_cases(draw):
    return {
        "n": draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3])),
        "kind": draw(st.sampled_from(KINDS)),
        "seed": draw(st.integers(0, 10**6)),
        "scale": draw(st.sampled_from([1, 1, 1.0, 1e-3, 1e5, 1e-5, -1, 1e-7, 1e12])),
        "form": draw(st.sampled_from(["array", "list"])),
    }


def check_expand(case, ctx):
    n = case["n"]
    m = matrix_of(case)
    op = get_pauliop_from_matrix(m.tolist() if case["form"] == "list" else m)
    require(isinstance(op, PauliSum), "not a sum")
    require(op.n_qubits <= n, "expansion is too wide")
    got = dense(op, n)
    tol = 1e-8 * 2**n + 1e-11 * np.abs(m).max()
    d = np.abs(got - m).max()
    require(d <= tol, lambda: "expanding a %s matrix and converting back is off by %g" % (case["kind"], d))
    for k, c in po.m_of(op).items():
        p = oracle.pauli_string(dict(k), n)
        want = np.trace(m @ p) / 2**n
        require(abs(c - want) <= 1e-8 + 1e-11 * np.abs(m).max(), lambda: "coefficient of %s is %s, expected %s" % (sorted(k), c, want))
    ctx.label(case["kind"], "n%d" % n)
    ctx.nontrivial(n > 0 and case["kind"] not in ("zero", "diag"))


@st.composite
def roundtrip_cases(draw):
    q = draw(st.integers(1, 3))
    return {"ts": draw(po.sums(q, po.any_coeffs, 5)), "extra": draw(st.integers(0, 1))}


def check_roundtrip(case, ctx):
    """Operator -> matrix -> operator."""
    m = po.s_model(case["ts"])
    n = min(3, po.m_width(m) + case["extra"])
    op = get_pauliop_from_matrix(po.m_dense(m, n))
    require(
        po.m_close(po.m_of(op), m, 2e-8),
        lambda: "matrix of %s expands to %s" % (sorted(m.items(), key=str), op),
    )
    labels(m, ctx)
    ctx.nontrivial(len(m) > 1)


# --------------------------------------------------------------------------- reverse


@st.composite
def reverse_cases(draw):
    q = draw(st.integers(1, 5))
    return {
        "ts": draw(po.sums(q, po.any_coeffs, 4)),
        "extra": draw(st.integers(0, 3)),
        "none": draw(st.booleans()),
        "single": draw(st.booleans()),
    }


def check_reverse(case, ctx):
    ts = case["ts"]
    op = po.term(ts[0]) if case["single"] and len(ts) == 1 else po.psum(ts)
    m = po.s_model(ts)
    w = op.n_qubits
    n = w if case["none"] else w + case["extra"]
    rev = reverse_qubit_order(op) if case["none"] else reverse_qubit_order(op, n_qubits=n)
    want = {}
    for k, c in m.items():
        want[frozenset((n - 1 - q, p) for q, p in k)] = c
    require(po.m_close(po.m_of(rev), want, 2e-8), lambda: "reversing %s on %d qubits gives %s" % (op, n, rev))
    if n <= 6:
        d = po.m_dense(m, n)
        perm = [oracle.index(oracle.bits(i, n)[::-1]) for i in range(2**n)]
        same(dense(rev, n), d[np.ix_(perm, perm)], "matrix of the reversed operator", 1e-7)
    twice = reverse_qubit_order(rev, n_qubits=n)
    require(po.m_close(po.m_of(twice), m, 4e-8), lambda: "reversing %s twice on %d qubits gives %s" % (op, n, twice))
    labels(m, ctx)
    ctx.nontrivial(any(sorted((n - 1 - q, p) for q, p in k) != sorted(k) for k in m))


# ----------------------------------------------------------------------- expectation


@st.composite
def exp_cases(draw):
    n = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["random", "random", "basis"]))
    return {
        "n": n,
        "ts": draw(po.sums(n, po.any_coeffs, 4)),
        "v": draw(st.integers(0, 10**6)),
        "kind": kind,
    }


def check_expectation(case, ctx):
    n, ts = case["n"], case["ts"]
    m = po.s_model(ts)
    if case["kind"] == "basis":
        psi = np.zeros(2**n, dtype=complex)
        psi[case["v"] % 2**n] = 1
    else:
        psi = gens.state(case["v"] + 1, n)
    op = po.psum(ts)
    d = po.m_dense(m, n)
    want = np.vdot(psi, d @ psi)
    tol = 1e-9 * (1 + po.m_l1(m))
    wf = Wavefunction(psi)
    pairs = [(get_expectation_value(op, wf), want, "get_expectation_value")]
    if len(ts) == 1:
        pairs.append((get_expectation_value(po.term(ts[0]), wf), want, "get_expectation_value of a term"))
    sp = get_sparse_operator(op, n_qubits=n)
    pairs.append((expectation(sp, psi), want, "expectation"))
    pairs.append((expectation(sp, psi.reshape(-1, 1)), want, "expectation of a column vector"))
    rho = np.outer(psi, psi.conj())
    other = gens.state(case["v"] + 77, n)
    rho = 0.7 * rho + 0.3 * np.outer(other, other.conj())
    pairs.append((expectation(sp, scipy.sparse.csc_matrix(rho)), np.trace(rho @ d), "expectation of a density matrix"))
    perm = [oracle.index(oracle.bits(i, n)[::-1]) for i in range(2**n)]
    rd = d[np.ix_(perm, perm)]
    pairs.append((get_expectation_value(op, wf, True), np.vdot(psi, rd @ psi), "reversed get_expectation_value"))
    for got, w, what in pairs:
        require(abs(complex(got) - w) <= tol + 1e-7 * ("reversed" in what), lambda: "%s is %s, expected %s" % (what, got, w))
    require(np.array_equal(wf.amplitudes, psi), "the state changed")
    labels(m, ctx)
    ctx.nontrivial(case["kind"] == "random" and len(m) > 1)


# ------------------------------- many terms, coefficients of very different magnitude


def entry_scale(m, n):
    """For each matrix entry the sum of the absolute coefficients contributing to it."""
    out = np.zeros((2**n, 2**n))
    rows = np.arange(2**n)
    for k, c in m.items():
        mask = sum(1 << (n - 1 - q) for q, p in k if p in "XY")
        out[rows, rows ^ mask] += abs(c)
    return out


def check_large(case, ctx):
    rng = random.Random(case["seed"])
    n = case["n"]
    kw = dict(width=n, max_len=n, lo=case["range"][0], hi=case["range"][1])
    ts = po.big_terms(rng, case["terms"], pool=max(1, case["terms"] * 3 // 4), **kw)
    m, op = po.s_model(ts), po.psum(ts)
    d = po.m_dense(m, n)
    mags = {}
    for t in ts:
        mags = po.m_add(mags, {k: abs(v) for k, v in po.t_model(t).items()})
    tol = 1e-9 * entry_scale(mags, n) + 1e-12

    def entries(got, want, tol, what):
        require(got.shape == want.shape, lambda: "%s: shape %s" % (what, got.shape))
        bad = np.argwhere(~(np.abs(got - want) <= tol))
        require(
            not len(bad),
            lambda: "%s: entry %s is %s, expected %s"
            % (what, bad[0], got[tuple(bad[0])], want[tuple(bad[0])]),
        )

    entries(dense(op, n), d, tol, "sparse matrix")
    if n <= 5:
        extra = case["extra"]
        entries(
            dense(op, n + extra),
            np.kron(d, np.eye(2**extra)),
            np.kron(tol, np.ones((2**extra,) * 2)),
            "padded sparse matrix",
        )
    conj = hermitian_conjugated(op)
    entries(dense(conj, n), d.conj().T, tol.T + 1e-8 * len(ts), "hermitian conjugate")
    perm = [oracle.index(oracle.bits(i, n)[::-1]) for i in range(2**n)]
    rev = reverse_qubit_order(op, n_qubits=n)
    entries(dense(rev, n), d[np.ix_(perm, perm)], tol[np.ix_(perm, perm)] + 1e-8 * len(ts), "reversed")
    if n <= 3 or (n == 4 and case["seed"] % 4 == 0):
        back = get_pauliop_from_matrix(d)
        top = np.abs(d).max()
        got = po.m_of(back)
        for k in set(got) | set(m):
            require(
                abs(got.get(k, 0) - m.get(k, 0)) <= 1e-8 + 1e-11 * top,
                lambda: "coefficient of %s is %s, expected %s" % (sorted(k), got.get(k, 0), m.get(k, 0)),
            )
        ctx.label("expanded")
    # expectation values: of the state and, on basis states, entry by entry
    psi = gens.state(case["seed"] + 1, n)
    l1 = sum(abs(v) for v in mags.values())
    ev = get_expectation_value(op, Wavefunction(psi))
    require(abs(ev - np.vdot(psi, d @ psi)) <= 1e-9 * l1 + 1e-10, "expectation value")
    i = rng.randrange(2**n)
    ev = get_expectation_value(op, Wavefunction(np.eye(2**n)[i]))
    require(abs(ev - d[i, i]) <= tol[i, i], lambda: "expectation value in basis state %d is %s, expected %s" % (i, ev, d[i, i]))
    # Hermiticity: real coefficients, and the same with a single complex one
    real = [dict(t, c=float(complex(po.coeff(t["c"])).real)) for t in ts]
    rs = po.psum(real).simplify()
    if rs.terms and all(abs(complex(t.coefficient).imag) < 1e-10 for t in rs.terms):
        require(bool(is_hermitian(rs)), "a sum with real coefficients is not hermitian")
        j = rng.randrange(len(rs.terms))
        size = 1.0 + abs(rs.terms[j].coefficient)
        one = PauliSum(
            [t if i != j else PauliTerm(dict(t.operations), t.coefficient + 0.5j * size) for i, t in enumerate(rs.terms)]
        ).simplify()
        require(not bool(is_hermitian(one)), "a sum with one complex coefficient is hermitian")
    ctx.label("n%d" % n, "terms>=%d" % (case["terms"] // 10 * 10))
    ctx.nontrivial(len(m) >= 4)


large_case = st.builds(
    lambda s, n, t, r, e: {"seed": s, "n": n, "terms": t, "range": r, "extra": e},
    st.integers(0, 10**6),
    st.sampled_from([1, 2, 3, 4, 5, 6, 7]),
    st.sampled_from([1, 4, 9, 17, 26, 40]),
    st.sampled_from([[0, 0], [-3, 3], [-10, 10], [-6, 40]]),
    st.integers(0, 2),
)


def check_reverse_wide(case, ctx):
    """Reversal on many qubits, by the strings themselves."""
    rng = random.Random(case["seed"])
    ts = po.big_terms(rng, case["terms"], width=case["n"], max_len=case["len"], lo=-2, hi=2)
    ts.append({"o": [[case["n"] - 1, "Y"], [0, "X"]], "c": 0.75})
    op, m = po.psum(ts), po.s_model(ts)
    for n in (case["n"], case["n"] + case["extra"]):
        rev = reverse_qubit_order(op, n_qubits=n)
        want = {frozenset((n - 1 - q, p) for q, p in k): c for k, c in m.items()}
        require(po.m_close(po.m_of(rev), want, 1e-7), "reversed operator")
        require(po.m_close(po.m_of(reverse_qubit_order(rev, n_qubits=n)), m, 1e-7), "reversed twice")
    conj = po.m_of(hermitian_conjugated(op))
    require(po.m_close(conj, {k: c.conjugate() for k, c in m.items()}, 1e-7), "conjugate")
    ctx.nontrivial(case["terms"] >= 9)


reverse_wide = st.builds(
    lambda s, n, t, ln, e: {"seed": s, "n": n, "terms": t, "len": ln, "extra": e},
    st.integers(0, 10**6),
    st.sampled_from([9, 11, 17, 33, 65, 101, 300]),
    st.sampled_from([1, 9, 17, 40]),
    st.sampled_from([1, 3, 11, 30]),
    st.sampled_from([0, 1, 11]),
)


FACETS = [
    Facet("strings", check_string, "not a constant", cases=string_cases, shard=60, exhaustive=True),
    Facet("sums", check_sum, ">=2 distinct strings", sum_cases(), quick=2000, thorough=30000, shard=70),
    Facet("wide", check_wide, ">=2 distinct strings", wide_cases(), quick=400, thorough=5000, shard=25),
    Facet("hermitian", check_herm, "a non-zero term", herm_cases(), quick=1800, thorough=25000, shard=75),
    Facet("expand", check_expand, "n>=1 and not diagonal", expand_cases(), quick=400, thorough=6000, shard=15),
    Facet("roundtrip", check_roundtrip, ">=2 distinct strings", roundtrip_cases(), quick=240, thorough=4000, shard=15),
    Facet("reverse", check_reverse, "a term changes", reverse_cases(), quick=1200, thorough=20000, shard=60),
    Facet("expectation", check_expectation, "entangled random state, >=2 strings", exp_cases(), quick=1500, thorough=20000, shard=60),
    Facet("large", check_large, ">=4 distinct strings", large_case, quick=120, thorough=4000, shard=15),
    Facet("reverse-wide", check_reverse_wide, ">=9 terms", reverse_wide, quick=60, thorough=1500, shard=15),
]
