"""C10: statistics computed from measurements are the exact sample statistics."""
import itertools
import random
from collections import Counter
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum.measurements import (
    Measurements,
    check_parity,
    check_parity_of_vector,
    get_expectation_value_from_frequencies,
    get_expectation_values_from_parities,
    get_parities_from_measurements,
)
from orquestra.quantum.operators import PauliSum, PauliTerm

from .. import ops as po
from ..core import Facet, Skip, require

ASSUMPTIONS = [
    "means of no shots and Bessel's correction of one shot are undefined and not asked for",
    "terms act on measured qubits only",
    "floating point agreement to 1e-9 relative to the coefficients",
]

# case: {"w": width, "shots": [[index, multiplicity], ...] order of first appearance,
#        "shuffle": seed, "bit": "int"|"int8"|"int64", "op": [term...], "single": bool}


def bitstring(i, w):
    return tuple((i >> (w - 1 - q)) & 1 for q in range(w))


BIT = {"int": int, "int8": np.int8, "int64": np.int64, "uint8": np.uint8}


def shots_of(case):
    """The plain reference list of outcome tuples."""
    w = case["w"]
    out = [bitstring(i, w) for i, m in case["shots"] for _ in range(m)]
    if case.get("shuffle"):
        np.random.RandomState(case["shuffle"]).shuffle(out)
        out = [tuple(int(b) for b in s) for s in out]
    return out


def lib_shots(case, shots):
    t = BIT[case.get("bit", "int")]
    return [tuple(t(b) for b in s) for s in shots]


def value(qs, s):
    """+-1 eigenvalue of the product of Z on qubits qs."""
    v = 1
    for q in qs:
        if s[q]:
            v = -v
    return v


def op_of(case):
    ts = case["op"]
    if case.get("single") and ts:
        return po.term(ts[0])
    return PauliSum([po.term(t) for t in ts])


def terms_of(case):
    """Reference (coefficient, qubits) of each term, in order."""
    ts = case["op"][:1] if case.get("single") else case["op"]
    return [(complex(po.coeff(t["c"])), sorted(q for q, p in t["o"] if p == "Z")) for t in ts]


def near(a, b, scale=1.0):
    d = abs(complex(a) - complex(b))
    return d <= 1e-9 * scale + 1e-15


def check_statistics(case, ctx):
    shots = shots_of(case)
    N = len(shots)
    terms = terms_of(case)
    op = op_of(case)
    m = Measurements(lib_shots(case, shots))
    vals = [[value(qs, s) for s in shots] for _, qs in terms]
    means = [Fraction(sum(v), N) for v in vals]
    corr = [
        [Fraction(sum(a * b for a, b in zip(vi, vj)), N) for vj in vals] for vi in vals
    ]
    for bessel in (False, True):
        if bessel and N == 1:
            continue
        ev = m.get_expectation_values(op, bessel) if bessel else m.get_expectation_values(op)
        n = len(terms)
        require(
            np.shape(ev.values) == (n,), lambda: "values of shape %s" % (np.shape(ev.values),)
        )
        require(
            len(ev.correlations) == 1 and np.shape(ev.correlations[0]) == (n, n),
            "shape of the correlations",
        )
        require(
            len(ev.estimator_covariances) == 1
            and np.shape(ev.estimator_covariances[0]) == (n, n),
            "shape of the covariances",
        )
        for i, (c, qs) in enumerate(terms):
            require(
                near(ev.values[i], c * float(means[i]), abs(c)),
                lambda: "%s Z%s: expectation value %r, sample mean %r"
                % (c, qs, ev.values[i], c * float(means[i])),
            )
            for j, (d, rs) in enumerate(terms):
                sc = abs(c * d)
                require(
                    near(ev.correlations[0][i][j], c * d * float(corr[i][j]), sc),
                    lambda: "correlation of Z%s and Z%s: %r, sample mean of the product %r"
                    % (qs, rs, ev.correlations[0][i][j], c * d * float(corr[i][j])),
                )
                want = c * d * float((corr[i][j] - means[i] * means[j]) / (N - 1 if bessel else N))
                require(
                    near(ev.estimator_covariances[0][i][j], want, sc),
                    lambda: "covariance of Z%s and Z%s (bessel=%s): %r, expected %r"
                    % (qs, rs, bessel, ev.estimator_covariances[0][i][j], want),
                )
    require(
        list(m.bitstrings) == shots, "computing expectation values changed the measurements"
    )
    freq = {}
    for s in shots:
        k = "".join(map(str, s))
        freq[k] = freq.get(k, 0) + 1
    for i, (c, qs) in enumerate(terms):
        for form in (list, set, tuple, iter):
            got = get_expectation_value_from_frequencies(form(qs), freq)
            require(
                near(got, float(means[i])),
                lambda: "value of Z%s from frequencies: %r, expected %s" % (qs, got, means[i]),
            )
    label(case, ctx, terms, N)


def label(case, ctx, terms, N):
    qs = [frozenset(q) for _, q in terms]
    over = any(a & b and a != b for a, b in itertools.combinations(qs, 2))
    if over:
        ctx.label("overlapping")
    if len(set(qs)) < len(qs):
        ctx.label("repeated")
    if frozenset() in qs:
        ctx.label("constant")
    if N == 1:
        ctx.label("single-shot")
    if case["w"] == 0:
        ctx.label("width-0")
    ctx.nontrivial(over and N >= 2)


def check_parities(case, ctx):
    shots = shots_of(case)
    N = len(shots)
    terms = terms_of(case)
    op = op_of(case)
    given = lib_shots(case, shots)
    p = get_parities_from_measurements(given, op)
    require([tuple(s) for s in given] == shots, "the given shots were changed")
    n = len(terms)
    if n == 0:
        ctx.label("no-terms")
        return
    vals = [[value(qs, s) for s in shots] for _, qs in terms]
    require(np.shape(p.values) == (n, 2), lambda: "tallies of shape %s" % (np.shape(p.values),))
    require(
        len(p.correlations) == 1 and np.shape(p.correlations[0]) == (n, n, 2),
        "shape of the pairwise tallies",
    )
    for i, (_, qs) in enumerate(terms):
        even = vals[i].count(1)
        require(
            tuple(p.values[i]) == (even, N - even),
            lambda: "Z%s: tallies %s, expected %s" % (qs, list(p.values[i]), (even, N - even)),
        )
        for j, (_, rs) in enumerate(terms):
            same = sum(a == b for a, b in zip(vals[i], vals[j]))
            require(
                tuple(p.correlations[0][i][j]) == (same, N - same),
                lambda: "Z%s Z%s: tallies %s, expected %s"
                % (qs, rs, list(p.correlations[0][i][j]), (same, N - same)),
            )
        for s in shots[:20]:
            want = value(qs, s) == 1
            require(
                bool(check_parity(s, qs)) == want
                and bool(check_parity("".join(map(str, s)), qs)) == want,
                lambda: "check_parity(%r, %s)" % (s, qs),
            )
        if shots and case["w"]:
            v = check_parity_of_vector(np.array(shots), set(qs))
            require(
                [int(x) for x in v] == [(x + 1) // 2 for x in vals[i]],
                lambda: "check_parity_of_vector of Z%s" % qs,
            )
    if N:
        ev = get_expectation_values_from_parities(p)
        require(
            all(near(a, sum(v) / N) for a, v in zip(ev.values, vals)),
            "expectation values from parities",
        )
    else:
        ctx.label("no-shots")
    label(case, ctx, terms, N)


def check_counts(case, ctx):
    shots = shots_of(case)
    N = len(shots)
    m = Measurements(lib_shots(case, shots))
    counts = m.get_counts()
    want = Counter("".join(map(str, s)) for s in shots)
    require(dict(counts) == dict(want), lambda: "counts %s, expected %s" % (counts, dict(want)))
    require(sum(counts.values()) == N, "counts do not add up to the number of shots")
    back = Measurements.from_counts(counts)
    require(
        Counter(tuple(int(b) for b in s) for s in back.bitstrings) == Counter(shots),
        "from_counts(get_counts()) is another multiset of shots",
    )
    require(all(isinstance(s, tuple) for s in back.bitstrings), "shots are not tuples")
    require(back.get_counts() == dict(want), "get_counts(from_counts(counts)) != counts")
    require(counts == dict(want), "the given counts were changed")
    # adding counts to existing shots
    extra = case["extra"]
    other = shots_of(dict(case, shots=extra, shuffle=0))
    m2 = Measurements(lib_shots(case, shots))
    m2.add_counts(dict(Counter("".join(map(str, s)) for s in other)))
    require(
        Counter(tuple(int(b) for b in s) for s in m2.bitstrings)
        == Counter(shots) + Counter(other),
        "add_counts did not add the given shots",
    )
    require(
        dict(m2.get_counts()) == dict(want + Counter("".join(map(str, s)) for s in other)),
        "counts after add_counts",
    )
    require(
        Counter(tuple(int(b) for b in s) for s in m.bitstrings) == Counter(shots),
        "add_counts changed other measurements",
    )
    if N:
        d = m.get_distribution().distribution_dict
        require(
            set(map(tuple, d)) == set(shots)
            and all(abs(d[s] - c / N) <= 1e-12 for s, c in Counter(shots).items()),
            lambda: "distribution %s" % d,
        )
        total = Measurements(lib_shots(case, shots + other)).get_distribution().distribution_dict
        got = m2.get_distribution().distribution_dict
        require(
            set(total) == set(got) and all(abs(total[k] - got[k]) < 1e-12 for k in got),
            "distribution after add_counts",
        )
    if case["w"] == 0:
        ctx.label("width-0")
    if N == 0:
        ctx.label("no-shots")
    ctx.nontrivial(len(set(shots)) >= 2 and N > len(set(shots)))


def check_many(case, ctx):
    """Tens of thousands of shots of few different outcomes."""
    w, terms, op = case["w"], terms_of(case), op_of(case)
    counts = {}
    for i, m in case["shots"]:
        k = bitstring(i, w)
        counts[k] = counts.get(k, 0) + m
    N = sum(counts.values())
    shots = [s for s, m in counts.items() for _ in range(m)]
    if case["shuffle"]:
        order = np.random.RandomState(case["shuffle"]).permutation(N)
        shots = [shots[k] for k in order]
    text = {"".join(map(str, s)): m for s, m in counts.items()}
    n = len(terms)

    def total(f):
        return sum(f(s) * m for s, m in counts.items())

    m = Measurements.from_counts(text) if case["from"] else Measurements(list(shots))
    require(len(m.bitstrings) == N, "number of shots")
    require(dict(m.get_counts()) == text, lambda: "counts %s, expected %s" % (m.get_counts(), text))
    d = m.get_distribution().distribution_dict
    require(
        set(d) == set(counts) and all(near(d[s], k / N) for s, k in counts.items()),
        lambda: "distribution %s of counts %s" % (d, text),
    )
    p = get_parities_from_measurements(shots, op)
    ev = m.get_expectation_values(op)
    for i, (c, qs) in enumerate(terms):
        mean = Fraction(total(lambda s: value(qs, s)), N)
        even = total(lambda s: value(qs, s) == 1)
        require(
            tuple(p.values[i]) == (even, N - even),
            lambda: "Z%s: tallies %s, expected %s" % (qs, list(p.values[i]), (even, N - even)),
        )
        require(
            near(ev.values[i], c * float(mean), abs(c)),
            lambda: "Z%s: expectation value %r, sample mean %r" % (qs, ev.values[i], float(mean)),
        )
        require(
            near(get_expectation_value_from_frequencies(qs, text), float(mean)),
            "value from frequencies",
        )
        for j, (e, rs) in enumerate(terms):
            prod = total(lambda s: value(qs, s) * value(rs, s))
            same = (N + prod) // 2
            require(
                tuple(p.correlations[0][i][j]) == (same, N - same),
                lambda: "Z%s Z%s: tallies %s, expected %s"
                % (qs, rs, list(p.correlations[0][i][j]), (same, N - same)),
            )
            want = c * e * float(Fraction(prod, N))
            require(
                near(ev.correlations[0][i][j], want, abs(c * e)),
                lambda: "correlation of Z%s and Z%s: %r, expected %r"
                % (qs, rs, ev.correlations[0][i][j], want),
            )
            other = Fraction(total(lambda s: value(rs, s)), N)
            want = c * e * float((Fraction(prod, N) - mean * other) / N)
            require(
                abs(ev.estimator_covariances[0][i][j] - want) <= 1e-12 * max(1, abs(c * e)),
                "covariance",
            )
    back = get_expectation_values_from_parities(p)
    require(
        n == 0
        or all(
            near(a, total(lambda s: value(qs, s)) / N) for a, (_, qs) in zip(back.values, terms)
        ),
        "expectation values from parities",
    )
    top = max(counts.values())
    ctx.label("top>=%d" % max(t for t in (0, 255, 32768, 65536, 131072) if t <= top))
    ctx.nontrivial(top > 32767 and n > 0)


# fresh measurements do not share state


def check_independent(case, ctx):
    """A history of from_counts/add_counts on several objects against lists."""
    objs, model = [], []
    w = case["w"]
    for step in case["steps"]:
        k = step["do"]
        if k == "new" or not objs:
            objs.append(Measurements())
            model.append([])
        elif k == "from":
            objs.append(Measurements.from_counts(count_strings(step["shots"], w)))
            model.append(expand(step["shots"], w))
        else:
            i = step["i"] % len(objs)
            if k == "add":
                objs[i].add_counts(count_strings(step["shots"], w))
                model[i] = model[i] + expand(step["shots"], w)
            elif k == "counts":
                got = objs[i].get_counts()
                require(
                    dict(got) == dict(Counter("".join(map(str, s)) for s in model[i])), "counts"
                )
                got["junk"] = 1
            elif k == "copy":
                objs.append(Measurements.from_counts(objs[i].get_counts()))
                model.append(list(model[i]))
            elif k == "dist" and model[i]:
                d = objs[i].get_distribution().distribution_dict
                c = Counter(model[i])
                require(
                    set(d) == set(c) and all(abs(d[s] - c[s] / len(model[i])) < 1e-12 for s in c),
                    "distribution",
                )
                d.clear()
            elif k == "ev" and model[i] and w:
                q = step["q"] % w
                ev = objs[i].get_expectation_values(PauliSum([PauliTerm({q: "Z"}, 2.0)]))
                mean = sum(value([q], s) for s in model[i]) / len(model[i])
                require(near(ev.values[0], 2 * mean), "expectation value")
            elif k == "set":
                # other outcomes, as many as before if there are enough
                new = expand(step["shots"], w)
                if new and model[i]:
                    new = (new * len(model[i]))[: len(model[i])]
                objs[i].bitstrings = list(new)
                model[i] = list(new)
            elif k == "extend":
                new = expand(step["shots"], w)
                objs[i].bitstrings += list(new)
                model[i] = model[i] + new
            elif k == "parities" and model[i] and w:
                qs = sorted({step["q"] % w, (step["q"] // 2) % w})
                par = get_parities_from_measurements(
                    [tuple(b) for b in objs[i].bitstrings], PauliSum([PauliTerm({q: "Z" for q in qs}, 1.0)])
                )
                even = sum(value(qs, s) > 0 for s in model[i])
                require(
                    [int(x) for x in par.values[0]] == [even, len(model[i]) - even],
                    lambda: "parities %s of %s on %s" % (par.values, model[i], qs),
                )
        for j, (o, l) in enumerate(zip(objs, model)):
            require(
                Counter(tuple(s) for s in o.bitstrings) == Counter(l),
                lambda: "object %d after %s: %s, expected %s" % (j, step, o.bitstrings, l),
            )
    ctx.nontrivial(len(objs) >= 2 and sum(map(len, model)) >= 2)


def count_strings(shots, w):
    return dict(Counter("".join(map(str, s)) for s in expand(shots, w)))


def expand(shots, w):
    return [bitstring(i, w) for i, m in shots for _ in range(m)]


# ---------------------------------------------------------------------- strategies


@st.composite
def datasets(draw, min_shots=1, max_w=6):
    w = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 9, 14, 40, 70]))
    top = 2**w - 1
    idx = st.integers(0, top)
    low = min(draw(st.sampled_from([min_shots, 1, 1, 2, 3])), top + 1)
    pool = draw(st.lists(idx, min_size=low, max_size=8, unique=True)) if top else [0]
    shots = []
    for i in pool:
        shots.append([i, draw(st.sampled_from([1, 1, 1, 2, 3, 5, 40]))])
    if not top and min_shots == 0 and draw(st.booleans()):
        shots = []
    return {
        "w": w,
        "shots": shots,
        "shuffle": draw(st.integers(0, 99)),
        "bit": draw(st.sampled_from(["int", "int", "int8", "int64", "uint8"])),
    }


@st.composite
def ising(draw, w, min_terms=0):
    support = st.just([])
    if w:
        q = st.integers(0, w - 1)
        near_ = st.integers(0, min(w - 1, 2))
        few = st.lists(near_, min_size=1, max_size=min(w, 3), unique=True)
        support = few | few | st.lists(q | near_ | near_, max_size=min(w, 4), unique=True)
    form = st.sampled_from(["dict", "dict", "iter", "str"])
    coeff = po.real_coeffs | st.sampled_from([1.0, -1.0, {"c": [0.5, 0.0]}, {"np": -1.5}])
    ts = []
    for _ in range(draw(st.sampled_from([k for k in (0, 1, 2, 2, 3, 3, 4, 5) if k >= min_terms]))):
        s = draw(support)
        if ts and draw(st.integers(0, 4)) == 0:
            s = [q for q, _ in draw(st.sampled_from(ts))["o"]]
        ts.append({"o": [[q, "Z"] for q in s], "c": draw(coeff), "form": draw(form)})
    return ts


@st.composite
def cases(draw, min_shots=1):
    c = draw(datasets(min_shots))
    c["single"] = draw(st.integers(0, 6)) == 0
    c["op"] = draw(ising(c["w"], 1 if c["single"] else 0))
    return c


@st.composite
def count_cases(draw):
    c = draw(datasets(0))
    c["extra"] = [
        [draw(st.integers(0, 2 ** c["w"] - 1)), draw(st.integers(1, 4))]
        for _ in range(draw(st.integers(0, 3)))
    ]
    return c


@st.composite
def many_cases(draw):
    w = draw(st.integers(1, 5))
    big = st.sampled_from([200, 255, 256, 32767, 32768, 40000, 65535, 65536, 65537, 80000, 131072])
    few = st.sampled_from([1, 2, 100, 256, 300])
    shots = [[draw(st.integers(0, 2**w - 1)), draw(big)]]
    for _ in range(draw(st.integers(0, 3))):
        shots.append([draw(st.integers(0, 2**w - 1)), draw(few | big)])
    return {
        "w": w,
        "shots": shots,
        "shuffle": draw(st.integers(0, 9)),
        "from": draw(st.booleans()),
        "op": draw(ising(w, 1)),
    }


@st.composite
def histories(draw):
    w = draw(st.integers(1, 4))
    shots = st.lists(st.tuples(st.integers(0, 2**w - 1), st.integers(1, 3)).map(list), max_size=3)
    step = st.fixed_dictionaries(
        {
            "do": st.sampled_from(["new", "from", "add", "add", "counts", "copy", "dist", "ev", "set", "extend", "parities"]),
            "i": st.integers(0, 5),
            "q": st.integers(0, 5),
            "shots": shots,
        }
    )
    return {"w": w, "steps": draw(st.lists(step, min_size=1, max_size=10))}


def rng_history(seed, n):
    rng = random.Random(seed)
    w = rng.randint(1, 6)
    return {
        "w": w,
        "steps": [
            {
                "do": rng.choice(["new", "from", "add", "copy", *["counts", "dist", "ev", "parities", "set", "extend"] * 2]),
                "i": rng.choice([0, 0, 1, rng.randint(0, 9)]),
                "q": rng.randrange(12),
                "shots": [[rng.randrange(2**w), rng.randint(1, 4)] for _ in range(rng.randint(0, 4))],
            }
            for _ in range(n)
        ],
    }


long_histories = st.builds(rng_history, st.integers(0, 10**9), st.integers(15, 60))


def small_cases(tier):
    """Every multiset of up to 3 (4) shots on 1 and 2 qubits under all pairs of supports."""
    top = 3 if tier == "quick" else 5
    for w in (1, 2):
        sup = [list(s) for k in range(w + 1) for s in itertools.combinations(range(w), k)]
        op = [
            {"o": [[q, "Z"] for q in s], "c": c, "form": "dict"}
            for s, c in zip(sup + sup, [1.0, -2.0, 0.5, 3.0, 1.5, -1.0, 2.0, 0.25])
        ]
        for n in range(1, top + 1):
            for ms in itertools.combinations_with_replacement(range(2**w), n):
                yield {
                    "w": w,
                    "shots": [[i, 1] for i in ms],
                    "shuffle": 0,
                    "op": op,
                    "single": False,
                }


def both(case, ctx):
    check_statistics(case, ctx)
    check_parities(case, ctx)
    check_counts(dict(case, extra=[[0, 2]]), ctx)


OVER = "two different overlapping terms and >=2 shots"
# ------------------------------------- wide registers, many outcomes, many terms


def check_large(case, ctx):
    rng = random.Random(case["seed"])
    w = case["w"]
    pool = [rng.getrandbits(w) for _ in range(case["outcomes"])]
    pool[:1] = [1]
    shots = [[rng.choice(pool), rng.choice([1, 1, 2, 7])] for _ in range(case["shots"])]
    terms = po.big_terms(rng, case["terms"], width=w, max_len=case["len"], lo=-12, hi=12)
    op = [dict(t, o=[[q, "Z"] for q, _ in t["o"]]) for t in terms]
    op.append({"o": [[w - 1, "Z"]], "c": -2.0})
    extra = [[rng.getrandbits(w), 1] for _ in range(rng.randint(0, 40))]
    c = {"w": w, "shots": shots, "extra": extra, "shuffle": case["seed"], "bit": case["bit"], "op": op, "single": False}
    sub = Quiet()
    check_statistics(c, sub)
    check_parities(c, sub)
    check_counts(c, sub)
    ctx.label("w>=%d" % (w // 16 * 16), "outcomes>=%d" % (case["outcomes"] // 50 * 50))
    ctx.nontrivial(case["outcomes"] >= 2 and case["terms"] >= 2)


class Quiet:
    def label(self, *a):
        pass

    def nontrivial(self, *a):
        pass


large_case = st.builds(
    lambda s, w, o, n, t, ln, b: {"seed": s, "w": w, "outcomes": o, "shots": n, "terms": t, "len": ln, "bit": b},
    st.integers(0, 10**6),
    st.sampled_from([9, 11, 17, 32, 33, 63, 64, 65, 100]),
    st.sampled_from([1, 9, 60, 200]),
    st.sampled_from([1, 17, 120, 300]),
    st.sampled_from([1, 5, 11, 20]),
    st.sampled_from([1, 4, 12, 40]),
    st.sampled_from(sorted(BIT)),
)


FACETS = [
    Facet("statistics", check_statistics, OVER, cases(), quick=3000, thorough=60000, shard=250),
    Facet("parities", check_parities, OVER, cases(0), quick=3000, thorough=60000, shard=250),
    Facet("counts", check_counts, ">=2 different outcomes, one repeated", count_cases(), quick=2000, thorough=40000, shard=250),
    Facet("many", check_many, "an outcome seen more than 32767 times", many_cases(), quick=48, thorough=800, shard=6),
    Facet("histories", check_independent, ">=2 objects holding >=2 shots", histories(), quick=600, thorough=12000, shard=100),
    Facet("histories-long", check_independent, ">=2 objects holding >=2 shots", long_histories, quick=200, thorough=6000, shard=25),
    Facet("small", both, OVER, cases=small_cases, shard=40, exhaustive=True),
    Facet("large", check_large, ">=2 outcomes and terms", large_case, quick=60, thorough=2500, shard=8),
]
