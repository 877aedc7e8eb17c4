"""C17: distributions stay normalised; marginals and distances obey their laws."""
import io
import itertools
import math
import pathlib
import random
import warnings
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum.distributions import (
    MeasurementOutcomeDistribution,
    compute_clipped_negative_log_likelihood,
    compute_jensen_shannon_divergence,
    compute_mmd,
    create_bitstring_distribution_from_probability_distribution,
    evaluate_distribution_distance,
    is_measurement_outcome_distribution,
    is_normalized,
    load_measurement_outcome_distribution,
    load_measurement_outcome_distributions,
    save_measurement_outcome_distribution,
    save_measurement_outcome_distributions,
)

from .. import gens
from ..core import Facet, require

ASSUMPTIONS = [
    "the keys of one dictionary denote distinct outcomes (\"01\" and (0, 1) do not both occur)",
    "string keys hold one digit per subsystem or comma-separated integers",
    "weights are Python or numpy numbers; those whose sum is subnormal or overflows may be refused",
    "probabilities sum to 1 within 1e-9",
    "kernel widths are between 1e-3 and 1e12 (scalars, lists and arrays)",
    "the integer coding of outcomes in the MMD kernel is fixed by the documentation for binary "
    "outcomes only (first subsystem most significant)",
]


def weight(w):
    if isinstance(w, list):
        return {"f64": np.float64, "i64": np.int64, "f": float, "i": int}[w[0]](w[1])
    return w


def key(k, form):
    if form == "digits" and all(d < 10 for d in k) and k:
        return "".join(map(str, k))
    if form == "comma" and len(k) >= 2:
        return ",".join(map(str, k))
    if form == "np":
        return tuple(np.int64(d) for d in k)
    return tuple(k)


def raw(d):
    return {key(k, f): weight(w) for k, f, w in d}


def model(d):
    return {tuple(k): Fraction(float(weight(w))) for k, _, w in d}


def normal(d):
    m = model(d)
    s = sum(m.values())
    return {k: float(v / s) for k, v in m.items()}


def build(d, normalize=True):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return MeasurementOutcomeDistribution(raw(d), normalize)


def read(dist):
    out = {}
    for k, v in dist.distribution_dict.items():
        require(
            isinstance(k, tuple) and all(isinstance(x, (int, np.integer)) for x in k),
            lambda: "outcome %r" % (k,),
        )
        k = tuple(int(x) for x in k)
        require(k not in out, lambda: "outcome %s occurs twice" % (k,))
        out[k] = float(v)
    return out


def same(got, want, tol=1e-12):
    """Equal probabilities; an outcome not listed has probability zero."""
    return all(abs(got.get(k, 0.0) - want.get(k, 0.0)) <= tol for k in set(got) | set(want))


def close_ratios(got, want, tol):
    """Equal up to scaling, also where the probabilities are small."""
    a, b = math.fsum(got.values()), math.fsum(want.values())
    if not (a > 0 and b > 0):
        return True
    return all(
        abs(got.get(k, 0.0) / a - want[k] / b) <= tol * want[k] / b for k in want if want[k] / b > 1e-290
    )


def check_construct(case, ctx):
    d = case["d"]
    given = raw(d)
    before = dict(given)
    if math.isinf(sum(map(float, given.values()))):
        ctx.label("overflow")
        try:
            dist = MeasurementOutcomeDistribution(given)
        except (ValueError, OverflowError):
            require(given == before, "the input dictionary was modified")
            return
    else:
        dist = MeasurementOutcomeDistribution(given)
    got, want = read(dist), normal(d)
    require(set(got) == set(want), lambda: "outcomes %s of %s" % (sorted(got), sorted(want)))
    require(all(v >= 0 for v in got.values()), lambda: "negative probability in %s" % got)
    require(
        abs(math.fsum(got.values()) - 1) <= 1.0000001e-9, lambda: "%s sums to %r" % (got, math.fsum(got.values()))
    )
    require(
        same(got, want, 2e-9),
        lambda: "probabilities %s, expected %s" % (got, want),
    )
    # proportions, relative to every non-negligible weight
    big = max(want, key=want.get)
    for k, v in want.items():
        if v > 1e-290:
            r = (got[k] / got[big]) / (v / want[big])
            require(abs(r - 1) <= 1e-9, lambda: "ratio of %s to %s changed by %r" % (k, big, r))
        require((v > 0) == (got[k] > 0) or v < 1e-290, lambda: "%s: %r of %r" % (k, got[k], v))
    require(given == before and list(given) == list(before), "the input dictionary was modified")
    require(is_normalized(dist.distribution_dict), "reported as not normalised")
    require(is_measurement_outcome_distribution(dist.distribution_dict), "not valid")
    require(
        dist.get_number_of_subsystems() == len(d[0][0]),
        lambda: "%s subsystems" % dist.get_number_of_subsystems(),
    )
    s = sum(float(weight(w)) for _, _, w in d)
    ctx.nontrivial(len(d) > 1 and abs(s - 1) > 1e-6)
    ctx.label("sum=1" if abs(s - 1) <= 1e-9 else "scaled")


def check_reject(case, ctx):
    d, why = [list(x) for x in case["d"]], case["why"]
    i = case["i"] % max(1, len(d))
    data = None
    if why == "empty":
        data = {}
    elif why == "zero":
        data = {key(k, f): 0.0 for k, f, w in d}
    elif why == "negative":
        d[i][2] = case["neg"]
        if case["fix"] and len(d) > 1:  # the sum is one all the same
            rest = [j for j in range(len(d)) if j != i]
            for j in rest:
                d[j][2] = 0.0
            d[rest[0]][2] = 1.0 - float(case["neg"])
        data = raw(d)
    elif why == "lengths":
        k = list(d[i][0])
        d[i][0] = k + [0] if case["longer"] or len(k) == 1 else k[:-1]
        if len(d) == 1:
            d.append([k, "tuple", 1.0])
        data = raw(d)
    elif why == "element":
        k = list(d[i][0])
        k[case["at"] % len(k)] = [-1, 0.5, "a"][case["elem"]]
        d[i] = [k, "tuple", d[i][2]]
        data = raw(d)
    elif why == "key":
        data = raw(d)
        data[[3, 1.5, frozenset([1])][case["elem"]]] = 1.0
    for kw in [{}, {"normalize": True}] + ([{"normalize": False}] if why != "zero" else []):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = MeasurementOutcomeDistribution(dict(data), **kw)
        except Exception:
            pass
        else:
            require(False, lambda: "%s: %s was accepted as %s" % (why, data, out))
    ctx.label(why)
    ctx.nontrivial(why not in ("empty", "zero"))


def check_marginal(case, ctx):
    d, normalize = case["d"], case["normalize"]
    n = len(d[0][0])
    src = build(d, normalize)
    before = dict(src.distribution_dict)
    total = sum(before.values())
    calls = case["calls"] or [list(range(n))]
    for perm, k, form in calls:
        q = [x % n for x in perm]
        q = list(dict.fromkeys(q))[: 1 + k % n]
        arg = tuple(q) if form == "tuple" else [np.int64(x) for x in q] if form == "np" else list(q)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub = src.subdistribution(arg)
        require(
            src.distribution_dict == before and list(src.distribution_dict) == list(before),
            lambda: "source became %s, was %s" % (src.distribution_dict, before),
        )
        require(list(arg) == q, "the list of qubits was modified")
        want = {}
        for key_, v in before.items():
            kk = tuple(int(key_[i]) for i in q)
            want[kk] = want.get(kk, 0) + float(v)
        got = read(sub)
        require(
            all(len(x) == len(q) for x in got), lambda: "outcomes %s of qubits %s" % (list(got), q)
        )
        if not normalize and not math.isclose(total, 1):
            s = float(total)
            ctx.label("unnormalised")
            # sums as they are; scaling to one as well is no less a marginal
            ok = same(got, want, 1e-9 * max(1, s)) or same(got, {k: v / s for k, v in want.items()}, 1e-9)
        else:
            ok = same(got, want, 1e-9)
            require(
                abs(math.fsum(got.values()) - 1) <= 2e-9, lambda: "marginal sums to %r" % math.fsum(got.values())
            )
        require(
            ok and close_ratios(got, want, 1e-9),
            lambda: "marginal of %s on %s: %s, expected %s" % (before, q, got, want),
        )
        require(sub is not src, "the source itself was returned")
    # marginals of marginals
    q = list(dict.fromkeys(x % n for x in calls[0][0]))
    if len(q) >= 2 and normalize:
        a = read(src.subdistribution(q).subdistribution(list(range(len(q)))[::-1]))
        b = read(src.subdistribution(q[::-1]))
        require(same(a, b, 1e-9), lambda: "marginals on %s in two steps differ: %s, %s" % (q, a, b))
    ctx.nontrivial(
        any(
            len({tuple(k[i] for i in [x % n for x in p][: 1 + c % n]) for k, _, _ in d}) < len(d)
            for p, c, _ in calls
        )
        and n >= 2
    )


# --------------------------------------------------------------------- distances


def coded(k):
    out = 0
    for b in k:
        out = 2 * out + b
    return out


def ref_mmd(p, q, sigmas):
    ks = sorted(set(p) | set(q))
    d = [p.get(k, 0.0) - q.get(k, 0.0) for k in ks]
    x = [coded(k) for k in ks]
    tot = 0.0
    for i, j in itertools.product(range(len(ks)), repeat=2):
        e = float((x[i] - x[j]) ** 2) if abs(x[i] - x[j]) < 2**500 else math.inf
        tot += d[i] * d[j] * math.fsum(math.exp(-e / (2 * s)) for s in sigmas) / len(sigmas)
    return tot


def ref_nll(p, q, eps):
    return -math.fsum(v * math.log(max(eps, q.get(k, 0.0))) for k, v in p.items())


def entropy(p):
    return -math.fsum(v * math.log(v) for v in p.values() if v > 0)


def check_distances(case, ctx):
    a, b = build(case["a"]), build(case["b"])
    p, q = read(a), read(b)
    keep = dict(a.distribution_dict), dict(b.distribution_dict)
    binary = all(x < 2 for k in [*p, *q] for x in k)
    s = case["sigma"]
    sig = np.array(s["v"]) if s["as"] == "array" else tuple(s["v"]) if s["as"] == "tuple" else list(s["v"])
    if s["as"] == "one":
        sig = s["v"][0]
    sigmas = s["v"][:1] if s["as"] == "one" else s["v"]
    params = {} if s["as"] == "default" else {"sigma": sig}
    if s["as"] == "default":
        sigmas = [1.0]
    ab, ba = compute_mmd(a, b, params), compute_mmd(b, a, params)
    aa, bb = compute_mmd(a, a, params), compute_mmd(b, build(case["b"]), params)
    require(np.ndim(ab) == 0 and np.isreal(ab), lambda: "MMD %r" % (ab,))
    require(abs(ab - ba) <= 1e-12, lambda: "MMD(a, b) = %r, MMD(b, a) = %r" % (ab, ba))
    require(-1e-12 <= ab, lambda: "MMD = %r" % ab)
    require(abs(aa) <= 1e-12 and abs(bb) <= 1e-12, lambda: "MMD of equal distributions: %r, %r" % (aa, bb))
    require(ab <= 2 + 1e-12, lambda: "MMD = %r" % ab)
    if binary:
        want = ref_mmd(p, q, sigmas)
        require(abs(ab - want) <= 1e-9, lambda: "MMD = %r, expected %r" % (ab, want))
    gap = max(abs(p.get(k, 0) - q.get(k, 0)) for k in set(p) | set(q))
    if not binary and gap > 0.1 and max(sigmas) <= 0.1:
        require(ab > 1e-3, lambda: "MMD = %r of distributions %s and %s" % (ab, p, q))
    # likelihood
    eps = case["eps"]
    params = {} if eps is None else {"epsilon": eps}
    e = 1e-9 if eps is None else eps
    for x, y, dx, dy in ((p, q, a, b), (q, p, b, a), (p, p, a, a)):
        nll = compute_clipped_negative_log_likelihood(dx, dy, params)
        want = ref_nll(x, y, e)
        require(
            abs(nll - want) <= 1e-9 * max(1, abs(want)), lambda: "likelihood %r, expected %r" % (nll, want)
        )
        support = sum(1 for v in x.values() if v > 0)
        bound = entropy(x) - math.log1p(support * e)
        require(nll >= bound - 1e-8, lambda: "likelihood %r, entropy bound %r" % (nll, bound))
    js, sj = compute_jensen_shannon_divergence(a, b, params), compute_jensen_shannon_divergence(b, a, params)
    require(
        abs(js - sj) <= 1e-12 * max(1, abs(js)), lambda: "divergence %r, swapped %r" % (js, sj)
    )
    want = (ref_nll(p, q, e) + ref_nll(q, p, e)) / 2
    require(abs(js - want) <= 1e-9 * max(1, abs(want)), lambda: "divergence %r, expected %r" % (js, want))
    for f, value in (
        (compute_clipped_negative_log_likelihood, ref_nll(p, q, e)),
        (compute_jensen_shannon_divergence, js),
    ):
        got = evaluate_distribution_distance(a, b, f, distance_measure_parameters=params)
        require(abs(got - value) <= 1e-9 * max(1, abs(value)), lambda: "evaluated %r, direct %r" % (got, value))
    require(
        (a.distribution_dict, b.distribution_dict) == keep, "a distribution was modified by a distance"
    )
    ctx.label("binary" if binary else "general")
    ctx.nontrivial(gap > 1e-6 and len(set(p) | set(q)) > 1 and set(p) != set(q))


# ------------------------------------------------------------------------- files

PATHS = {
    "str": lambda f: f,
    "path": pathlib.Path,
    "bytes": lambda f: f.encode(),
}


def load(f, path, how):
    if how == "open":
        with open(path) as h:
            return f(h)
    if how == "stringio":
        with open(path) as h:
            return f(io.StringIO(h.read()))
    return f(PATHS[how](path))


def check_files(case, ctx):
    ds = [build(d) for d in case["ds"]]
    before = [dict(d.distribution_dict) for d in ds]
    path = ctx.path("d.json")
    one = case["one"]
    if one:
        save_measurement_outcome_distribution(ds[0], PATHS[case["save"]](path))
        back = [load(load_measurement_outcome_distribution, path, case["load"])]
        want = ds[:1]
    else:
        save_measurement_outcome_distributions(list(ds), PATHS[case["save"]](path))
        back = load(load_measurement_outcome_distributions, path, case["load"])
        want = ds
    require(
        isinstance(back, list) and len(back) == len(want), lambda: "%d of %d distributions" % (len(back), len(want))
    )
    for x, y in zip(back, want):
        require(isinstance(x, MeasurementOutcomeDistribution), lambda: "loaded %r" % x)
        a, b = read(x), read(y)
        require(
            set(a) == set(b) and same(a, b, 1e-12) and close_ratios(a, b, 1e-13), lambda: "loaded %s, saved %s" % (a, b)
        )
    require([dict(d.distribution_dict) for d in ds] == before, "saving modified a distribution")
    m = max(x for d in case["ds"][: 1 if one else None] for k, _, _ in d for x in k) if case["ds"] else 0
    ctx.label("multi-digit" if m > 9 else "digits")
    ctx.nontrivial(bool(want) and any(len(d.distribution_dict) > 1 for d in want))


def check_probabilities(case, ctx):
    n = case["n"]
    r = np.random.RandomState(case["seed"])
    p = r.uniform(size=2**n)
    p[r.uniform(size=2**n) < case["zeros"]] = 0
    p[r.randint(2**n)] += 0.5
    p /= p.sum()
    arg = list(p) if case["list"] else p.copy()
    got = read(create_bitstring_distribution_from_probability_distribution(arg))
    want = {tuple((i >> (n - 1 - q)) & 1 for q in range(n)): float(x) for i, x in enumerate(p)}
    require(same(got, want, 1e-9), lambda: "%s, expected %s" % (got, want))
    require(all(len(k) == n for k in got), "length of the outcomes")
    require(np.array_equal(np.asarray(arg), p), "the array was modified")
    ctx.nontrivial(n >= 2)


# -------------------------------------------------------------------- strategies

weights = st.one_of(
    st.integers(0, 20),
    st.sampled_from([0.0, 0, 0.5, 0.25, 1.0, 1, 1e-12, 1e12, 3, 1e-200, 1e200]),
    st.floats(0, 5).map(lambda x: round(x, 4)),
    st.floats(1e-6, 1e6),
    st.integers(1, 9).map(lambda x: ["i64", x]),
    st.floats(0.01, 5).map(lambda x: ["f64", round(x, 3)]),
)
forms = st.sampled_from(["tuple", "tuple", "digits", "comma", "np"])


@st.composite
def dists(draw, n=None, top=None, max_size=8, positive=True):
    if n is None:
        n = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 8]))
    if top is None:
        top = draw(st.sampled_from([1, 1, 1, 1, 2, 9, 11, 120]))
    if top == 1 and n > 8:
        keys = draw(
            st.lists(st.integers(0, 2**n - 1), min_size=1, max_size=max_size, unique=True)
        )
        keys = [[(k >> (n - 1 - i)) & 1 for i in range(n)] for k in keys]
    else:
        keys = draw(
            st.lists(
                st.lists(st.integers(0, top), min_size=n, max_size=n),
                min_size=1,
                max_size=max_size,
                unique_by=tuple,
            )
        )
    ws = [draw(weights) for _ in keys]
    if draw(st.integers(0, 3)) == 0:  # already normalised
        r = [1 + (i * 7) % 5 for i in range(len(keys))]
        ws = [x / sum(r) for x in r]
    elif not any(float(weight(w)) > 0 for w in ws):
        ws[draw(st.integers(0, len(ws) - 1))] = draw(st.sampled_from([1, 1.0, 0.3, 7]))
    form = draw(forms)
    mixed = draw(st.booleans())
    return [[k, draw(forms) if mixed else form, w] for k, w in zip(keys, ws)]


@st.composite
def maybe_huge(draw):
    d = draw(dists())
    huge = draw(st.integers(0, 19)) == 19
    for x in d if huge else []:
        x[2] = draw(st.sampled_from([1e308, 1.5e308, 1e307, 1.0]))
    return d


construct = st.fixed_dictionaries({"d": maybe_huge()})

rejects = st.fixed_dictionaries(
    {
        "d": dists(max_size=4),
        "why": st.sampled_from(["negative", "negative", "lengths", "lengths", "element", "key", "empty", "zero"]),
        "i": st.integers(0, 7),
        "at": st.integers(0, 7),
        "elem": st.integers(0, 2),
        "neg": st.one_of(
            st.floats(-3, -1e-3), st.sampled_from([-1, -0.5, -1e-9, -1e-15, -1e-300, -1e10])
        ),
        "fix": st.booleans(),
        "longer": st.booleans(),
    }
)

marginals = st.fixed_dictionaries(
    {
        "d": dists(),
        "normalize": st.sampled_from([True, True, True, False]),
        "calls": st.lists(
            st.tuples(st.permutations(range(8)), st.integers(0, 7), st.sampled_from(["list", "tuple", "np"])).map(
                list
            ),
            min_size=1,
            max_size=3,
        ),
    }
)


@st.composite
def pairs(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 10, 31, 33, 40, 63, 64, 65, 100]))
    top = 1 if n > 5 else draw(st.sampled_from([1, 1, 1, 1, 1, 2, 11]))
    a = draw(dists(n, top))
    b = draw(dists(n, top))
    kind = draw(st.sampled_from(["free", "free", "same support", "near", "nested"]))
    if kind == "same support":
        b = [[k, "tuple", 1 + (3 * i) % 7] for i, (k, _, _) in enumerate(a)]
    elif kind == "near":
        b = [[k, f, w] for k, f, w in a]
        b[0][2] = float(weight(b[0][2])) * 1.001 + 1e-4
    elif kind == "nested" and len(a) > 1:
        b = [[k, f, w] for k, f, w in a[: len(a) // 2]]
        if not any(float(weight(w)) > 0 for _, _, w in b):
            b[0][2] = 1.0
    return a, b


sigma = st.one_of(
    st.sampled_from([1.0, 1, 0.5, 2, 0.1, 0.01, 1e-3, 10.0, 1e3, 1e6, 1e12]), st.floats(1e-3, 100)
)


@st.composite
def distance_cases(draw):
    a, b = draw(pairs())
    return {
        "a": a,
        "b": b,
        "sigma": {
            "v": draw(st.lists(sigma, min_size=1, max_size=4)),
            "as": draw(st.sampled_from(["one", "one", "default", "list", "array", "tuple"])),
        },
        "eps": draw(
            st.one_of(st.none(), st.sampled_from([1e-9, 1e-12, 1e-3, 0.1, 0.5, 1e-15, 1e-300]), st.floats(1e-6, 0.3))
        ),
    }


files = st.fixed_dictionaries(
    {
        "ds": st.lists(dists(), min_size=1, max_size=4),
        "one": st.booleans(),
        "save": st.sampled_from(list(PATHS)),
        "load": st.sampled_from([*PATHS, "open", "stringio"]),
    }
)

probabilities = st.fixed_dictionaries(
    {
        "n": st.integers(0, 9),
        "seed": gens.seeds,
        "zeros": st.sampled_from([0.0, 0.3, 0.9]),
        "list": st.booleans(),
    }
)

# ------------------------------------------------------------- many outcomes

def rng_dist(rng, n, k, top=1, near=None):
    """k outcomes (at most) of n subsystems"""
    k = min(k, (top + 1) ** n)
    if (top + 1) ** n <= 4 * k:
        ks = rng.sample(range((top + 1) ** n), k)
        keys = [[x // (top + 1) ** (n - 1 - i) % (top + 1) for i in range(n)] for x in ks]
    else:
        # outcomes which share long stretches are the likely ones to be confused
        base = [rng.randint(0, top) for _ in range(n)]
        keys, seen = [], set()
        while len(keys) < k:
            x = list(base) if rng.random() < 0.7 else [rng.randint(0, top) for _ in range(n)]
            for _ in range(rng.randint(1, 4)):
                x[rng.randrange(n)] = rng.randint(0, top)
            if rng.random() < 0.1:
                base = x
            if tuple(x) not in seen:
                seen.add(tuple(x))
                keys.append(x)
            elif rng.random() < 0.01:
                base = [rng.randint(0, top) for _ in range(n)]
    kind = rng.choice(["ints", "floats", "scales", "normalised", "equal"])
    ws = [
        rng.randint(0, 50)
        if kind == "ints"
        else round(rng.uniform(0, 3), 5)
        if kind == "floats"
        else rng.uniform(0, 1) * 10.0 ** rng.randint(-12, 6)
        if kind == "scales"
        else 1.0
        for _ in keys
    ]
    ws[rng.randrange(len(ws))] = 1
    if kind in ("normalised", "equal"):
        r = [rng.randint(1, 9) if kind == "normalised" else 1 for _ in keys]
        ws = [x / sum(r) for x in r]
    form = rng.choice(["tuple", "digits", "comma", "np", "mixed"])
    return [
        [x, rng.choice(["tuple", "digits", "comma"]) if form == "mixed" else form, w]
        for x, w in zip(keys, ws)
    ]


def rng_shape(rng, limit):
    top = rng.choice([1, 1, 1, 2, 11])
    n = rng.choice([2, 4, 7, 9, 10, 11, 12, 16, 40, 100])
    return n, rng.choice([17, 40, 100, 128, 257, limit]), top


def rng_construct(seed):
    rng = random.Random(seed)
    n, k, top = rng_shape(rng, 2500)
    return {"d": rng_dist(rng, n, k, top)}


def rng_reject(seed):
    rng = random.Random(seed)
    n, k, top = rng_shape(rng, 1000)
    return {
        "d": rng_dist(rng, n, k, top),
        "why": rng.choice(["negative", "negative", "lengths", "lengths", "element", "key"]),
        "i": rng.randrange(10**4),
        "at": rng.randrange(100),
        "elem": rng.randrange(3),
        "neg": rng.choice([-1, -0.5, -1e-9, -1e-15, -1e-3]),
        "fix": rng.random() < 0.5,
        "longer": rng.random() < 0.5,
    }


def rng_marginals(seed):
    rng = random.Random(seed)
    n, k, top = rng_shape(rng, 1000)
    return {
        "d": rng_dist(rng, n, k, top),
        "normalize": rng.random() < 0.8,
        "calls": [
            [rng.sample(range(n), n), rng.choice([0, 1, 2, n // 2, n - 2, n - 1]), rng.choice(["list", "tuple", "np"])]
            for _ in range(rng.randint(1, 6))
        ],
    }


def rng_distances(seed):
    rng = random.Random(seed)
    n, _, top = rng_shape(rng, 100)
    if n > 12:
        top = 1
    a, b = (rng_dist(rng, n, rng.choice([17, 40, 100, 150]), top) for _ in range(2))
    if rng.random() < 0.4:  # an almost equal distribution
        b = [[k, "tuple", float(w) * rng.choice([1, 1, 1, 1.01])] for k, _, w in a]
        rng.shuffle(b)
        b = b[: rng.choice([len(b), len(b) - 1])]
    if not any(w for _, _, w in b):
        b[0][2] = 1.0
    sig = [rng.choice([1.0, 1, 0.5, 0.1, 0.01, 10.0, 1e3, round(rng.uniform(0.01, 50), 3)]) for _ in range(rng.randint(1, 12))]
    return {
        "a": a,
        "b": b,
        "sigma": {"v": sig, "as": rng.choice(["one", "default", "list", "array", "tuple"])},
        "eps": rng.choice([None, 1e-9, 1e-12, 1e-3, 0.1, 0.5]),
    }


def rng_files(seed):
    rng = random.Random(seed)
    many = rng.random() < 0.5
    ds = []
    for _ in range(rng.randint(11, 40) if many else rng.randint(1, 2)):
        n, k, top = rng_shape(rng, 1000)
        ds.append(rng_dist(rng, n, rng.randint(1, 20) if many else k, rng.choice([top, top, 120])))
    return {
        "ds": ds,
        "one": not many and rng.random() < 0.5,
        "save": rng.choice(list(PATHS)),
        "load": rng.choice([*PATHS, "open", "stringio"]),
    }


def big(f):
    return st.builds(f, st.integers(0, 10**9))


FACETS = [
    Facet("construct", check_construct, ">1 outcome, sum of weights not 1", construct, quick=2500, thorough=60000, shard=250),
    Facet("reject", check_reject, "negative value, unequal lengths, bad key", rejects, quick=1500, thorough=40000, shard=250),
    Facet("marginals", check_marginal, ">=2 subsystems and some outcomes merge", marginals, quick=2000, thorough=60000, shard=200),
    Facet("distances", check_distances, "different supports", distance_cases(), quick=2000, thorough=60000, shard=200),
    Facet("files", check_files, ">1 outcome", files, quick=1500, thorough=40000, shard=200),
    Facet("probabilities", check_probabilities, ">=2 qubits", probabilities, quick=200, thorough=4000, shard=100),
    Facet("construct-large", check_construct, ">1 outcome, sum of weights not 1", big(rng_construct), quick=150, thorough=5000, shard=20),
    Facet("reject-large", check_reject, "negative value, unequal lengths, bad key", big(rng_reject), quick=120, thorough=4000, shard=20),
    Facet("marginals-large", check_marginal, ">=2 subsystems and some outcomes merge", big(rng_marginals), quick=150, thorough=5000, shard=20),
    Facet("distances-large", check_distances, "different supports", big(rng_distances), quick=100, thorough=3000, shard=13),
    Facet("files-large", check_files, ">1 outcome", big(rng_files), quick=80, thorough=3000, shard=10),
]
