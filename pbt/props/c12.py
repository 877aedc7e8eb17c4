"""C12: a wavefunction object is normalised after every operation on it."""
import itertools
import math
import pathlib

import numpy as np
import sympy
from hypothesis import strategies as st
from orquestra.quantum.wavefunction import (
    Wavefunction,
    flip_amplitudes,
    flip_wavefunction,
    load_wavefunction,
    save_wavefunction,
)

from .. import gens, lib, oracle
from ..core import Facet, fail, require
from .c11 import SOURCES, reload

ASSUMPTIONS = [
    "total probabilities within 1e-9 of the bound must be accepted and those more than 2e-5 "
    "off must be rejected; in between (numpy's isclose tolerance, rounding at the bound) "
    "either answer is right",
    "amplitudes are finite; a symbol is bound to a number or to a symbol that is not bound "
    "at the same time",
    "numeric wavefunctions are saved and loaded (the file format holds numbers only)",
    "an array handed to the constructor is not modified by its owner afterwards",
]

SURE, OFF = 1e-9, 2e-5
YES, NO, EITHER = "yes", "no", "either"


# ---------------------------------------------------------------- reference model: a list
# of python complex numbers and sympy expressions with free symbols


def is_num(e):
    return not isinstance(e, sympy.Basic)


def simplify_entry(e):
    if isinstance(e, sympy.Basic) and not e.free_symbols:
        return lib.cnum(e)
    return complex(e) if is_num(e) else e


def verdict(model):
    """May a wavefunction hold these amplitudes?"""
    s = sum(abs(e) ** 2 for e in model if is_num(e))
    if not all(map(is_num, model)):
        return YES if s <= 1 - SURE else NO if s > 1 + OFF else EITHER
    return YES if abs(s - 1) <= SURE else NO if abs(s - 1) > OFF else EITHER


def symbols_of(model):
    out = set()
    for e in model:
        if not is_num(e):
            out |= e.free_symbols
    return out


def at(model, env):
    return np.array(
        [e if is_num(e) else lib.cnum(e.subs(env, simultaneous=True)) for e in model]
    )


def probe(model):
    """Any numbers for the symbols: to compare expressions by value."""
    names = sorted(symbols_of(model), key=str)
    return {s: 0.37 + 0.291 * i for i, s in enumerate(names)}


def same(wf, model, what):
    """Every view of the object shows the amplitudes of the model."""
    n = len(model)
    env = probe(model)
    want = at(model, env)
    views = {
        "amplitudes": list(np.asarray(wf.amplitudes, dtype=object).ravel()),
        "items": [wf[i] for i in range(n)],
        "iteration": list(wf),
    }
    require(len(wf) == n, lambda: "%s: length %d, expected %d" % (what, len(wf), n))
    require(wf.n_qubits == n.bit_length() - 1, lambda: "%s: n_qubits" % what)
    require(
        set(wf.free_symbols) == symbols_of(model),
        lambda: "%s: free symbols %s of %s" % (what, wf.free_symbols, model),
    )
    for k, v in views.items():
        got = [lib.cnum(x.subs(env)) if isinstance(x, sympy.Basic) else x for x in map(item, v)]
        require(
            len(got) == n and np.allclose(got, want, rtol=0, atol=1e-12),
            lambda: "%s: %s %s, expected %s" % (what, k, v, model),
        )
    probs = np.asarray(wf.get_probabilities(), dtype=object).ravel()
    got = np.array([float(lib.cnum(sympy.sympify(p).subs(env)).real) for p in probs])
    require(
        len(got) == n and np.allclose(got, np.abs(want) ** 2, rtol=0, atol=1e-11),
        lambda: "%s: probabilities %s of %s" % (what, probs, model),
    )
    if not env:
        require(abs(got.sum() - 1) <= 2 * OFF, lambda: "%s: probabilities sum to %r" % (what, got.sum()))


def item(x):
    return x.item() if isinstance(x, np.ndarray) else x


# ------------------------------------------------------------------------ vectors


def numeric(n, seed, shape):
    """Unit vector over n amplitudes."""
    r = np.random.RandomState(seed)
    if shape == "basis":
        v = np.zeros(n, dtype=complex)
        v[seed % n] = np.exp(1j * (seed % 7))
        return v
    v = r.normal(size=n) + (1j * r.normal(size=n) if shape != "real" else 0j)
    if shape == "sparse":
        v[r.uniform(size=n) < 0.5] = 0
        if not v.any():
            v[0] = 1
    if shape == "uniform":
        v = np.exp(1j * np.round(r.uniform(0, 4, size=n)) * np.pi / 2)
    return v / np.linalg.norm(v)


def vector(case):
    """Entries of the model described by the recipe."""
    n = case["n"]
    if n == 0:
        return []
    v = list(map(complex, numeric(n, case["seed"], case["shape"]) * case.get("scale", 1.0)))
    if case["kind"] == "plain":
        for i, s in case["at"]:
            v[i % n] = sympy.Symbol(s)
        for i, c in case.get("force", []):
            v[i % n] = complex(*c)
    elif case["kind"] == "angle":
        # cos(e) on one half of the amplitudes, sin(e) on the other: valid for any value
        e = lib.expr(case["e"])
        c = [x for x in range(n) if (case["mask"] >> (x % 16)) & 1]
        for part, f in ((c, sympy.cos), ([x for x in range(n) if x not in c], sympy.sin)):
            w = math.sqrt(sum(abs(v[i]) ** 2 for i in part))
            if not w:
                return v
        for part, f in ((c, sympy.cos), ([x for x in range(n) if x not in c], sympy.sin)):
            w = math.sqrt(sum(abs(v[i]) ** 2 for i in part))
            for i in part:
                v[i] = v[i] / w * f(e) * case.get("scale", 1.0) if v[i] else 0j
    return [simplify_entry(x) for x in v]


def as_input(model, form, real_ok=True):
    sym = not all(map(is_num, model))
    plain = [sympy.sympify(x) if form.startswith("sympy") else x for x in model]
    if real_ok and all(is_num(x) and x.imag == 0 for x in model) and form in ("floats", "array"):
        plain = [x.real for x in model]
    if form == "tuple":
        return tuple(plain)
    if form == "array":
        return np.array(plain, dtype=object if sym else None)
    if form == "complex-array" and not sym:
        return np.array(plain, dtype=complex)
    if form == "object-array":
        out = np.empty(len(plain), dtype=object)
        out[:] = plain
        return out
    if form == "sympy-column":
        return sympy.Matrix(len(plain), 1, plain)
    if form == "sympy-row":
        return sympy.Matrix(1, len(plain), plain)
    if form == "sympy-immutable":
        return sympy.ImmutableMatrix(len(plain), 1, plain)
    return list(plain)


FORMS = [
    "list",
    "tuple",
    "floats",
    "array",
    "complex-array",
    "object-array",
    "sympy-list",
    "sympy-column",
    "sympy-row",
    "sympy-immutable",
]


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def check_create(case, ctx):
    model = vector(case)
    value = as_input(model, case["form"])
    n = len(model)
    ok = verdict(model) if n and not n & (n - 1) else NO
    wf, e = attempt(lambda: Wavefunction(value))
    if ok == NO:
        require(
            isinstance(e, ValueError),
            lambda: "%s entries %s: expected ValueError, got %r" % (n, model, e or wf),
        )
    elif ok == YES:
        require(e is None, lambda: "valid amplitudes %s refused: %r" % (model, e))
    if wf is not None:
        same(wf, model, "created from " + case["form"])
    ctx.label(ok)
    if not all(map(is_num, model)):
        ctx.label("symbolic")
    ctx.nontrivial(n >= 4 and (ok == NO or sum(1 for x in model if x != 0) >= 2))


# ------------------------------------------------------------------------ histories


def convert(x, how):
    if how == "np":
        return np.complex128(x)
    if how == "real" and x.imag == 0:
        return x.real
    if how == "sympy":
        return sympy.sympify(x)
    return x


def fill(model, seed):
    """Numbers for symbols that stand alone in an entry which complete the state to
    probability one (and any numbers for the others)."""
    r = np.random.RandomState(seed)
    names = sorted(symbols_of(model), key=str)
    alone = [e for e in model if not is_num(e) and e.is_Symbol]
    room = 1 - sum(abs(e) ** 2 for e in model if is_num(e))
    z = {s: r.normal() + 1j * r.normal() for s in names}
    w = sum(abs(z[s]) ** 2 for s in alone)
    k = math.sqrt(max(room, 0) / w) if w else 0
    return {s: complex(z[s] * k) if s in alone else complex(float(z[s].real)) for s in names}


def check_history(case, ctx):
    model = vector(case)
    if verdict(model) != YES:
        model = [1 + 0j] + [0j] * (len(model) - 1)
    pool = [[Wavefunction(as_input(model, case["form"])), model]]
    accepted = rejected = 0
    for step in case["steps"]:
        entry = pool[step["o"] % len(pool)]
        wf, model = entry
        n = len(model)
        what = "%s on %s" % (step, model)
        do = step["do"]
        failed = False
        before = np.array(wf.amplitudes, copy=True)
        if do in ("set", "slice"):
            new = list(model)
            if do == "set":
                i = step["i"] % n
                key = i - n if step["neg"] else i
                val = assigned(step, model, i)
                new[i] = simplify_entry(val)
                if is_num(val):
                    val = convert(val, step["as"])
                numeric_model = all(map(is_num, model))
                if not is_num(new[i]) and numeric_model:
                    ok = EITHER
                else:
                    ok = verdict(new)
                _, e = attempt(lambda: wf.__setitem__(key, val))
            else:
                a, b = sorted((step["i"] % n, step["j"] % n))
                vals = assigned_slice(step, model[a:b])
                new[a:b] = vals
                ok = verdict(new)
                if not all(map(is_num, model)):
                    ok = EITHER if ok == YES else ok
                _, e = attempt(lambda: wf.__setitem__(slice(a, b), vals))
            if ok == YES:
                require(e is None, lambda: "%s: valid assignment refused: %r" % (what, e))
            if ok == NO:
                require(
                    e is not None, lambda: "%s: assignment of %s accepted: %s" % (what, new, wf)
                )
            if e is None:
                entry[1] = new
                accepted += new != model
            else:
                rejected += 1
                failed = True
        elif do == "bind":
            m = mapping(step, model)
            sub = {sympy.Symbol(k): v for k, v in m.items()}
            new = [
                x if is_num(x) else simplify_entry(x.subs(sub, simultaneous=True)) for x in model
            ]
            ok = verdict(new)
            keys = {(k if step.get("str") else sympy.Symbol(k)): v for k, v in m.items()}
            keep = dict(keys)
            out, e = attempt(lambda: wf.bind(keys))
            require(keys == keep, "bind changed its map")
            if ok == YES:
                require(e is None, lambda: "%s: valid binding %s refused: %r" % (what, m, e))
            if ok == NO:
                require(e is not None, lambda: "%s: binding %s accepted: %s" % (what, m, out))
            if e is not None:
                rejected += 1
                failed = True
            elif out is not wf:
                pool.append([out, new])
                accepted += new != model
            else:
                require(new == model, lambda: "%s: bind returned the object itself" % what)
        elif do == "flip":
            out = flip_wavefunction(wf)
            w = n.bit_length() - 1
            pool.append([out, [model[reverse(i, w)] for i in range(n)]])
        elif do == "rebuild":
            pool.append([Wavefunction(list(np.asarray(wf.amplitudes, dtype=object).ravel())), list(model)])
        elif do == "save" and all(map(is_num, model)):
            p = ctx.path("wf.json")
            save_wavefunction(wf, p)
            out = reload(load_wavefunction, p, step["src"])
            exact(out, wf, what)
            pool.append([out, list(model)])
        if failed:
            now = np.asarray(wf.amplitudes)
            require(
                now.dtype == before.dtype and now.shape == before.shape and bool(np.all(now == before)),
                lambda: "%s: rejected, but %s became %s" % (what, before, now),
            )
        for j, (w_, m_) in enumerate(pool):
            same(w_, m_, "object %d after %s" % (j, what))
    if rejected:
        ctx.label("rejected")
    if accepted:
        ctx.label("accepted")
    if any(not all(map(is_num, m)) for _, m in pool):
        ctx.label("symbolic")
    ctx.nontrivial(accepted >= 1 and rejected >= 1)


def exact(out, wf, what):
    a, b = np.asarray(out.amplitudes), np.asarray(wf.amplitudes)
    require(
        a.shape == b.shape and bool(np.all(a == b)),
        lambda: "%s: loaded %s, saved %s" % (what, a, b),
    )


def assigned(step, model, i):
    """The value to assign to entry i."""
    k, old = step["val"]["k"], model[i]
    x = step["val"].get("x", 0.0)
    if k == "sym":
        return sympy.Symbol(step["val"]["s"])
    if k == "number":
        return complex(x, step["val"].get("y", 0.0))
    rest = sum(abs(e) ** 2 for j, e in enumerate(model) if j != i and is_num(e))
    room = math.sqrt(max(0.0, 1 - rest))
    if k == "fit":  # exactly what is missing, with a new phase
        return complex(room * np.exp(1j * x))
    if k == "scaled":  # more or less than what is missing
        return complex(room * (1 + x))
    if k == "excess":
        return complex(math.sqrt(max(0.0, 1 - rest + step["val"]["d"])))
    if not is_num(old):
        return old
    if k == "phase":
        return old * complex(np.exp(1j * x))
    return -old


def assigned_slice(step, old):
    k = step["val"]["k"]
    if k in ("fit", "phase"):
        return old[::-1]
    if k == "number":
        return [complex(step["val"].get("x", 0.0))] * len(old)
    if k == "scaled":
        return [x * 1.5 for x in old]
    return [-x for x in old]


def mapping(step, model):
    names = sorted(map(str, symbols_of(model)))
    if step["how"] == "fill":
        m = {str(k): v for k, v in fill(model, step["seed"]).items()}
    elif step["how"] == "rename":
        m = {s: sympy.Symbol("r%d_%s" % (step["seed"] % 3, s)) for s in names[: 1 + step["seed"] % 2]}
    else:
        r = np.random.RandomState(step["seed"])
        k = {"small": 0.2, "large": 2.0}[step["how"]]
        m = {s: complex(r.uniform(-k, k), r.uniform(-k, k)) for s in names}
        alone = {str(e) for e in model if not is_num(e) and e.is_Symbol}
        m = {s: v if s in alone else complex(v.real) for s, v in m.items()}
    m = {s: convert(v, step["as"]) if is_num(v) else v for s, v in m.items()}
    part = [s for j, s in enumerate(names) if (step["mask"] >> j) & 1]
    m = {s: v for s, v in m.items() if s in part}
    if step["extra"]:
        m["unrelated"] = 0.5
    return m


def reverse(i, w):
    return int(format(i, "0%db" % w)[::-1], 2) if w else 0


# ------------------------------------------------------------------------ constructors


def check_dicke(case, ctx):
    n, k = case["n"], case["k"]
    if case.get("bad"):
        wf, e = attempt(lambda: Wavefunction.dicke_state(n, k))
        require(isinstance(e, ValueError), lambda: "dicke_state(%r, %r): %r" % (n, k, e or wf))
        ctx.label("rejected")
        return
    wf = Wavefunction.dicke_state(n, k)
    amps = np.asarray(wf.amplitudes, dtype=complex)
    require(len(amps) == 2**n and wf.n_qubits == n, "width")
    weight = sum((np.arange(2**n) >> q) & 1 for q in range(n))
    p = np.where(weight == k, 1 / math.comb(n, k), 0.0)
    got = np.asarray(wf.get_probabilities(), dtype=float)
    require(
        np.allclose(got, p, rtol=1e-9, atol=0),
        lambda: "dicke_state(%d, %d): probabilities %s" % (n, k, got),
    )
    require(abs(got.sum() - 1) < 1e-9, "sum of probabilities")
    if k == 0:
        z = Wavefunction.zero_state(n)
        require(np.asarray(z.amplitudes)[0] == 1 and not np.any(z.amplitudes[1:]), "zero state")
    ctx.nontrivial(0 < k < n)


def check_flip(case, ctx):
    n = case["n"]
    if case["sym"]:
        model = [sympy.Symbol("s%d" % i) for i in range(2**n)]
    else:
        model = list(map(complex, numeric(2**n, case["seed"], case["shape"])))
    value = as_input(model, case["form"])
    want = [model[reverse(i, n)] for i in range(2**n)]
    got = flip_amplitudes(value)
    require(
        len(got) == 2**n and all(item(a) == b for a, b in zip(got, want)),
        lambda: "flip of %s: %s" % (model, got),
    )
    back = flip_amplitudes(got)
    require(all(item(a) == b for a, b in zip(back, model)), "flipping twice")
    if not case["sym"]:
        wf = Wavefunction(model)
        f = flip_wavefunction(wf)
        require(np.array_equal(f.amplitudes, want), "flip_wavefunction")
        require(np.array_equal(flip_wavefunction(f).amplitudes, model), "flipping twice")
        require(np.array_equal(wf.amplitudes, model), "flip changed the wavefunction")
    ctx.nontrivial(n >= 2)


def check_save(case, ctx):
    v = numeric(2 ** case["n"], case["seed"], case["shape"])
    if case.get("jitter"):
        v = v * (1 + case["jitter"])
    wf = Wavefunction(as_input(list(map(complex, v)), case["form"]))
    p = ctx.path("wf.json")
    save_wavefunction(wf, pathlib.Path(p) if case["dst"] else p)
    out = reload(load_wavefunction, p, case["src"])
    exact(out, wf, "save and load")
    require(np.array_equal(np.ravel(out.amplitudes), v), "loaded amplitudes differ")
    require(out == wf, "loaded wavefunction is not equal to the saved one")
    ctx.nontrivial(case["n"] >= 2 and np.count_nonzero(v) >= 2)


# ------------------------------------------------------------------------ strategies

SHAPES = st.sampled_from(["dense", "dense", "real", "sparse", "uniform", "basis"])
forms = st.sampled_from(FORMS)
SYMS = ["a", "b", "c", "theta", "alpha"]


@st.composite
def vectors(draw, sizes):
    n = draw(st.sampled_from(sizes))
    kind = draw(st.sampled_from(["numeric", "plain", "plain", "angle"]))
    c = {
        "n": n,
        "seed": draw(gens.seeds),
        "shape": draw(SHAPES),
        "kind": kind,
        "form": draw(forms),
    }
    if kind == "plain":
        c["at"] = draw(
            st.lists(
                st.tuples(st.integers(0, 31), st.sampled_from(SYMS)).map(list), min_size=1, max_size=4
            )
        )
    if kind == "angle":
        c["mask"] = draw(st.integers(1, 2**16 - 2))
        c["e"] = draw(gens.sym_expr(SYMS, 1))
    return c


@st.composite
def creations(draw):
    c = draw(vectors([1, 2, 2, 4, 4, 4, 4, 8, 8, 8, 16, 0, 3, 5, 6, 12, 24]))
    how = draw(st.integers(0, 5))
    if how <= 2:
        d = draw(st.sampled_from([1e-4, 1e-3, 1e-2, 0.1, 0.5, 1.0, 1e-6, 1e-12]))
        s = draw(st.sampled_from([1, -1]))
        c["scale"] = 1 + s * d * (0.999 if d == 1.0 else 1)
    if c["kind"] == "plain" and how == 3:
        x = draw(st.sampled_from([1.0, -1.0, 1.01, -2.0, 0.999]))
        c["force"] = [[draw(st.integers(0, 31)), draw(st.sampled_from([[x, 0.0], [0.0, x]]))]]
    return c


vals = st.one_of(
    st.fixed_dictionaries({"k": st.just("phase"), "x": gens.small_floats}),
    st.fixed_dictionaries({"k": st.just("fit"), "x": gens.small_floats}),
    st.just({"k": "neg"}),
    st.fixed_dictionaries(
        {"k": st.just("scaled"), "x": st.sampled_from([0.5, -0.5, -1.0, 1.0, 0.01, 1e-3])}
    ),
    st.fixed_dictionaries(
        {"k": st.just("number"), "x": gens.small_floats, "y": st.sampled_from([0.0, 0.5, -1.0])}
    ),
    st.fixed_dictionaries({"k": st.just("excess"), "d": st.sampled_from([1e-4, 1e-3, -1e-4, 1e-12])}),
    st.fixed_dictionaries({"k": st.just("sym"), "s": st.sampled_from(SYMS)}),
)
assign = st.fixed_dictionaries(
    {
        "do": st.just("set"),
        "o": st.integers(0, 5),
        "i": st.integers(0, 31),
        "neg": st.booleans(),
        "val": vals,
        "as": st.sampled_from(["", "np", "real", "sympy"]),
    }
)
steps = st.one_of(
    assign,
    assign,
    assign,
    st.fixed_dictionaries(
        {
            "do": st.just("slice"),
            "o": st.integers(0, 5),
            "i": st.integers(0, 31),
            "j": st.integers(0, 31),
            "val": vals.filter(lambda v: v["k"] not in ("sym", "excess")),
        }
    ),
    st.fixed_dictionaries(
        {
            "do": st.just("bind"),
            "o": st.integers(0, 5),
            "how": st.sampled_from(["fill", "fill", "small", "large", "rename"]),
            "seed": st.integers(0, 999),
            "mask": st.sampled_from([255, 255, 1, 2, 3, 5, 0]),
            "as": st.sampled_from(["", "np", "real", "sympy"]),
            "str": st.booleans(),
            "extra": st.booleans(),
        }
    ),
    st.fixed_dictionaries({"do": st.sampled_from(["flip", "rebuild"]), "o": st.integers(0, 5)}),
    st.fixed_dictionaries(
        {"do": st.just("save"), "o": st.integers(0, 5), "src": st.sampled_from(SOURCES)}
    ),
)


@st.composite
def histories(draw):
    c = draw(vectors([2, 2, 4, 4, 4, 8]))
    c["steps"] = draw(st.lists(steps, min_size=3, max_size=10))
    return c


def dicke_cases(tier):
    for n in range(1, 11 if tier == "quick" else 15):
        for k in range(n + 1):
            yield {"n": n, "k": k}
        for k in (-1, n + 1, n + 5, 0.5, 2.5, 1.0):
            yield {"n": n, "k": k, "bad": True}
    for n in (0, -1):
        yield {"n": n, "k": 0, "bad": True}
    for n, k in [(12, 6), (13, 2), (14, 13)]:
        yield {"n": n, "k": k}


flips = st.fixed_dictionaries(
    {
        "n": st.sampled_from([0, 1, 2, 3, 3, 4, 5, 6, 8, 10]),
        "seed": gens.seeds,
        "shape": SHAPES,
        "form": st.sampled_from(["list", "tuple", "array", "complex-array", "object-array"]),
        "sym": st.sampled_from([False, False, True]),
    }
).map(lambda c: dict(c, n=min(c["n"], 4)) if c["sym"] else c)

saves = st.fixed_dictionaries(
    {
        "n": st.sampled_from([0, 1, 2, 3, 4, 6]),
        "seed": gens.seeds,
        "shape": SHAPES,
        "form": st.sampled_from(["list", "array", "complex-array"]),
        "src": st.sampled_from(SOURCES),
        "dst": st.booleans(),
        "jitter": st.sampled_from([0, 0, 1e-7, -1e-7]),
    }
)

# ------------------------------------------------------------- larger registers


@st.composite
def large_creations(draw):
    c = draw(vectors([32, 64, 64, 128, 256, 1024, 4096, 48, 96, 100, 1000, 33]))
    if c["n"] > 128:
        c["kind"] = "numeric"
    if draw(st.booleans()):
        d = draw(st.sampled_from([1e-4, 1e-3, 1e-2, 0.5, 1e-6, 1e-12]))
        c["scale"] = 1 + draw(st.sampled_from([1, -1])) * d
    return c


@st.composite
def long_histories(draw):
    c = draw(vectors([8, 16, 16, 32, 64]))
    k = draw(st.sampled_from([5, 12, 25]))
    c["steps"] = draw(st.lists(steps, min_size=k, max_size=k))
    return c


large_flips = st.fixed_dictionaries(
    {
        "n": st.sampled_from([7, 9, 11, 12, 13, 14]),
        "seed": gens.seeds,
        "shape": SHAPES,
        "form": st.sampled_from(["list", "tuple", "array", "complex-array"]),
        "sym": st.just(False),
    }
)
large_saves = st.fixed_dictionaries(
    {
        "n": st.sampled_from([7, 9, 10, 12]),
        "seed": gens.seeds,
        "shape": SHAPES,
        "form": st.sampled_from(["list", "array", "complex-array"]),
        "src": st.sampled_from(SOURCES),
        "dst": st.booleans(),
    }
)

FACETS = [
    Facet("create", check_create, ">=4 entries, two non-zero or rejected", creations(), quick=2500, thorough=60000, shard=250),
    Facet("histories", check_history, ">=1 effective accepted and >=1 rejected step", histories(), quick=2000, thorough=60000, shard=100),
    Facet("dicke", check_dicke, "0 < weight < n", cases=dicke_cases, shard=20, exhaustive=True),
    Facet("flip", check_flip, ">=2 qubits", flips, quick=600, thorough=6000, shard=100),
    Facet("save", check_save, ">=2 qubits, >=2 amplitudes", saves, quick=400, thorough=6000, shard=100),
    Facet("create-large", check_create, ">=4 entries, two non-zero or rejected", large_creations(), quick=120, thorough=3000, shard=20),
    Facet("long-histories", check_history, ">=1 effective accepted and >=1 rejected step", long_histories(), quick=120, thorough=4000, shard=10),
    Facet("flip-large", check_flip, ">=2 qubits", large_flips, quick=24, thorough=400, shard=6),
    Facet("save-large", check_save, ">=2 qubits, >=2 amplitudes", large_saves, quick=24, thorough=400, shard=6),
]
