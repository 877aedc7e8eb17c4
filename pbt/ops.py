"""Pauli operator recipes, an independent sparse model, and builders."""
import itertools

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum.operators import PauliSum, PauliTerm

from . import oracle
from .core import HarnessError

# ---- independent multiplication table, from the 2x2 matrices themselves


def _table():
    t = {}
    for a, b in itertools.product("IXYZ", repeat=2):
        m = oracle.PAULI[a] @ oracle.PAULI[b]
        for c in "IXYZ":
            ph = np.trace(oracle.PAULI[c].conj().T @ m) / 2
            if abs(ph) > 0.5:
                t[a, b] = (c, complex(round(ph.real), round(ph.imag)))
    return t


TABLE = _table()


def coeff(c):
    """JSON coefficient -> python number.  {"c":[re,im]} is complex."""
    if isinstance(c, dict):
        if "c" in c:
            return complex(*c["c"])
        return np.float64(c["np"])
    return c


# ------------------------------------------------------------------ sparse model
# a model is {frozenset((q, letter)): complex}


def m_term(ops, c):
    return {frozenset((int(q), p) for q, p in ops if p != "I"): complex(c)}


def m_add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return out


def m_scale(a, c):
    return {k: v * c for k, v in a.items()}


def m_mul(a, b):
    out = {}
    for (k1, c1), (k2, c2) in itertools.product(a.items(), b.items()):
        d = dict(k1)
        c = c1 * c2
        for q, p in k2:
            r, ph = TABLE[d.get(q, "I"), p]
            c *= ph
            if r == "I":
                d.pop(q, None)
            else:
                d[q] = r
        k = frozenset(d.items())
        out[k] = out.get(k, 0) + c
    return out


def m_of(op):
    """Model of a library operator, read through its public accessors."""
    out = {}
    for t in op.terms:
        k = frozenset((q, p) for q, p in t.operations)
        out[k] = out.get(k, 0) + complex(t.coefficient)
    return out


def m_close(a, b, tol):
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b))


def m_dense(m, n):
    out = np.zeros((2**n, 2**n), dtype=complex)
    for k, c in m.items():
        out += oracle.pauli_string(dict(k), n, c)
    return out


def m_width(m):
    return 1 + max([q for k in m for q, _ in k], default=-1)


def m_l1(m):
    return sum(abs(v) for v in m.values())


# -------------------------------------------------------------------- builders
# term recipe: {"o": [[q, letter]...], "c": coeff, "form": "dict"|"iter"|"str"}


def term(t):
    c = coeff(t["c"])
    form = t.get("form", "dict")
    ops = [(int(q), p) for q, p in t["o"]]
    if form == "iter":
        return PauliTerm.from_iterable([(p, q) for q, p in ops], c)
    if form == "str" and ops:
        return PauliTerm("*".join("%s%d" % (p, q) for q, p in ops), c)
    return PauliTerm(dict(ops), c)


def t_model(t):
    return m_term(t["o"], coeff(t["c"]))


def psum(ts):
    return PauliSum([term(t) for t in ts])


def s_model(ts):
    out = {}
    for t in ts:
        out = m_add(out, t_model(t))
    return out


# ------------------------------------------------------------------- strategies

nice = st.one_of(
    st.integers(-4, 4),
    st.sampled_from([0.5, -0.5, 0.25, 1.5, -2.0, 0.1, 0.3, -0.7, 1.0, -1.0, 0.0]),
)
nice_complex = st.builds(lambda a, b: {"c": [a, b]}, nice, nice)
coeffs = st.one_of(nice, nice, nice_complex)
real_coeffs = st.one_of(
    nice,
    st.floats(-5, 5).map(lambda x: round(x, 5)),
    st.floats(-3, 3).filter(lambda x: x == 0 or abs(x) > 1e-3),
)
any_coeffs = st.one_of(
    real_coeffs,
    st.builds(lambda a, b: {"c": [a, b]}, real_coeffs, real_coeffs),
    real_coeffs.map(lambda a: {"c": [a, 0.0]}),
)


def terms(max_q=3, coeffs=coeffs, letters="XYZ", max_len=None, identities=True, min_len=0):
    ml = max_q if max_len is None else max_len
    alphabet = letters + ("I" if identities else "")
    return st.builds(
        lambda o, c, f: {"o": [list(x) for x in o], "c": c, "form": f},
        st.lists(
            st.tuples(st.integers(0, max_q - 1), st.sampled_from(alphabet)),
            unique_by=lambda x: x[0],
            max_size=ml,
            min_size=min_len,
        ),
        coeffs,
        st.sampled_from(["dict", "iter", "str"]),
    )


def sums(max_q=3, coeffs=coeffs, max_terms=4, min_terms=0, **kw):
    return st.lists(terms(max_q, coeffs, **kw), min_size=min_terms, max_size=max_terms)


def all_strings(n):
    for ps in itertools.product("IXYZ", repeat=n):
        yield [[q, p] for q, p in enumerate(ps) if p != "I"]


# ----------------------------------------------------------------- large operators


def big_terms(rng, k, width=12, max_len=6, pool=None, lo=0, hi=0, complex_=True):
    """k term recipes over a pool of strings.

    Coefficients are small integers times powers of two between 2^lo and 2^hi."""
    pool = pool or k
    keys = []
    for _ in range(pool):
        m = rng.randint(0, min(max_len, width))
        keys.append([[q, rng.choice("XYZ")] for q in rng.sample(range(width), m)])
    out = []
    for i in range(k):
        x = float(rng.choice([-7, -5, -3, -2, -1, 1, 2, 3, 4, 6])) * 2.0 ** rng.randint(lo, hi)
        c = x
        if complex_ and rng.random() < 0.3:
            c = {"c": [x, float(rng.randint(-3, 3)) * 2.0 ** rng.randint(lo, hi)]}
        out.append(
            {
                "o": keys[i] if i < pool and pool >= k else rng.choice(keys),
                "c": c,
                "form": rng.choice(["dict", "iter", "str"]),
            }
        )
    return out
