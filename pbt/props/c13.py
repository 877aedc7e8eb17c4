"""C13: splitting, batching and recombining shots never loses or invents a shot."""
import random
from collections import Counter
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum.circuits import (
    RX,
    Circuit,
    H,
    X,
    combine_bitstrings,
    combine_measurement_counts,
    expand_sample_sizes,
    split_into_batches,
)
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.utils import scale_and_discretize

from ..core import Facet, fail, require

ASSUMPTIONS = [
    "sample counts, maxima and batch sizes are positive integers; results to combine come in "
    "lists as long as the multiplicities say",
    "the represented distribution is normalised (as the constructor does by default)",
    "weights are positive finite numbers, totals non-negative integers",
]

KINDS = ["int", "np"]


def items(case):
    """The circuits: opaque labels or real circuits, possibly repeated."""
    if case["items"] == "circuit":
        pool = [
            Circuit([X(0)]),
            Circuit([H(0), X(1)]),
            Circuit([RX(0.5)(2)]),
            Circuit([]),
            Circuit([X(0)], n_qubits=3),
        ]
        return [pool[i % 5] for i in case["ids"]]
    return ["circuit-%d" % i for i in case["ids"]]


def as_seq(x, kind):
    return tuple(x) if kind == "tuple" else list(x)


def ints(x, kind):
    return [np.int64(v) if kind == "np" and v < 2**62 else int(v) for v in x]


def blocks(xs, sizes):
    out, i = [], 0
    for k in sizes:
        out.append(xs[i : i + k])
        i += k
    return out, i


def expand(case):
    circuits, ns, m = items(case), ints(case["ns"], case["num"]), case["max"]
    c, n = as_seq(circuits, case["seq"]), as_seq(ns, case["seq"])
    new_c, new_n, mult = expand_sample_sizes(c, n, m)
    require(list(c) == circuits and list(n) == ns, "arguments were modified")
    new_c, new_n, mult = list(new_c), list(new_n), list(mult)
    require(
        len(mult) == len(circuits), lambda: "%d multiplicities for %d circuits" % (len(mult), len(ns))
    )
    require(
        len(new_c) == len(new_n) == sum(mult) and all(k >= 1 for k in mult),
        lambda: "%d circuits, %d sizes, multiplicities %s" % (len(new_c), len(new_n), mult),
    )
    bc, _ = blocks(new_c, mult)
    bn, _ = blocks(new_n, mult)
    for i, (cs, sizes) in enumerate(zip(bc, bn)):
        require(
            all(x == circuits[i] for x in cs),
            lambda: "copies of circuit %d are %s, expected %s" % (i, cs, circuits[i]),
        )
        require(
            all(1 <= s <= m for s in sizes),
            lambda: "circuit %d asked for %d (max %d): sizes %s" % (i, ns[i], m, sizes),
        )
        require(
            sum(map(int, sizes)) == ns[i],
            lambda: "circuit %d: sizes %s sum to %d, requested %d" % (i, sizes, sum(sizes), ns[i]),
        )
    return circuits, ns, new_c, new_n, mult


def check_expand(case, ctx):
    _, ns, new_c, _, mult = expand(case)
    if any(n % case["max"] == 0 for n in ns):
        ctx.label("exact-multiple")
    if any(n > 2**53 for n in ns):
        ctx.label("huge")
    ctx.nontrivial(len(mult) >= 2 and max(mult) >= 2)


def check_batches(case, ctx):
    circuits, ns, m = items(case), ints(case["ns"], case["num"]), case["max"]
    c, n = as_seq(circuits, case["seq"]), as_seq(ns, case["seq"])
    k = len(ns)
    if case.get("bad"):
        for args in ((c, n[: k - 1] if k else [1], m), (c, n, 0), (c, n, -m)):
            try:
                out = list(split_into_batches(*args))
            except ValueError:
                continue
            fail("split_into_batches%s accepted: %s" % (args, out))
        ctx.label("rejected")
        return
    out = list(split_into_batches(c, n, m))
    require(list(c) == circuits and list(n) == ns, "arguments were modified")
    require(
        [x for b, _ in out for x in b] == circuits,
        lambda: "batches %s of %s (max %d)" % (out, circuits, m),
    )
    i = 0
    for b, s in out:
        require(1 <= len(b) <= m, lambda: "batch of %d circuits, max %d" % (len(b), m))
        for x in ns[i : i + len(b)]:
            require(s >= x, lambda: "batch %s requests %d samples, one circuit needs %d" % (b, s, x))
        i += len(b)
    ctx.nontrivial(len(out) >= 2 and m >= 2)


def shots(rng, n, w):
    return ["".join(str(b) for b in rng.randint(0, 2, size=w)) for _ in range(n)]


def check_run(case, ctx):
    """Expand, run every copy (in batches), combine: the totals are as requested."""
    circuits, ns, new_c, new_n, mult = expand(case)
    rng = np.random.RandomState(case["seed"])
    results = []
    for batch, n_samples in split_into_batches(new_c, new_n, case["batch"]):
        for _ in batch:
            # a runner may return exactly what each copy asked for
            n = new_n[len(results)]
            require(n_samples >= n, "batch requests too few samples")
            results.append(shots(rng, int(n), case["w"]))
    require(len(results) == len(new_c), "batches do not cover every copy")
    if case["tuples"]:
        results = [[tuple(map(int, s)) for s in r] for r in results]
    want = [[s for r in b for s in r] for b in blocks(results, mult)[0]]
    before = [list(r) for r in results]
    got = combine_bitstrings(results, mult)
    require(results == before, "results were modified")
    require(
        [list(g) for g in got] == want, lambda: "combined bitstrings %s, expected %s" % (got, want)
    )
    require([len(g) for g in got] == ns, "totals of the combined bitstrings")
    counts = [dict(Counter(r)) for r in results]
    keep = [dict(c) for c in counts]
    got = combine_measurement_counts(counts, mult)
    require(counts == keep, "counts were modified")
    require(
        [dict(g) for g in got] == [dict(Counter(x)) for x in want],
        lambda: "combined counts %s of %s, multiplicities %s" % (got, counts, mult),
    )
    require([sum(g.values()) for g in got] == ns, "totals of the combined counts")
    ctx.nontrivial(len(mult) >= 2 and max(mult) >= 2 and min(mult) < max(mult))


def check_combine(case, ctx):
    """Any results, whether or not they hold what was requested."""
    mult = case["mult"]
    rng = np.random.RandomState(case["seed"])
    n = sum(mult)
    results = [shots(rng, int(rng.randint(0, 4)), case["w"]) for _ in range(n)]
    want = [[s for r in b for s in r] for b in blocks(results, mult)[0]]
    got = combine_bitstrings(results, as_seq(mult, case["seq"]))
    require([list(g) for g in got] == want, lambda: "combined bitstrings %s" % (got,))
    counts = [dict(Counter(r)) for r in results]
    got = combine_measurement_counts(counts, as_seq(mult, case["seq"]))
    require(
        [{k: v for k, v in g.items() if v} for g in got] == [dict(Counter(x)) for x in want],
        lambda: "combined counts %s of %s, multiplicities %s" % (got, counts, mult),
    )
    # the same result object handed over for several copies
    same = results[0] if results else []
    hist = dict(Counter(same))
    got = combine_bitstrings([same] * n, mult)
    require([sorted(g) for g in got] == [sorted(same * k) for k in mult], "one list for every copy")
    got = combine_measurement_counts([hist] * n, mult)
    require(
        [dict(g) for g in got] == [{x: v * k for x, v in Counter(same).items()} for k in mult]
        and hist == dict(Counter(same)),
        lambda: "combined counts %s of one dictionary %s, multiplicities %s" % (got, hist, mult),
    )
    for f, r in ((combine_bitstrings, results), (combine_measurement_counts, counts)):
        for wrong in (r + r[:1] if r else [r[:0]], r[:-1]):
            if len(wrong) == n:
                continue
            try:
                out = f(wrong, mult)
            except ValueError:
                continue
            fail("%s of %d results for multiplicities %s: %s" % (f.__name__, len(wrong), mult, out))
    ctx.nontrivial(len(mult) >= 2 and max(mult) >= 2)


# ----------------------------------------------------------------- representing


def distribution(case):
    """{outcome: probability}; "parts" are weights in units of 1/number of shots."""
    w, vals = case["w"], case["base"]
    keys = []
    for i in case["keys"]:
        key = []
        for _ in range(w):
            key.append(i % vals)
            i //= vals
        keys.append(tuple(key))
    parts = case["parts"][: len(keys)]
    out = {}
    for k, p in zip(keys, parts):
        out.setdefault(k, p)
    if not sum(out.values()):
        out[next(iter(out))] = 1.0
    return out


def check_represent(case, ctx):
    raw = distribution(case)
    total = sum(raw.values())
    n = case["n"] if case["n"] else max(1, int(round(total)))
    probs = {k: v / total for k, v in raw.items()}
    dist = MeasurementOutcomeDistribution(dict(probs))
    support = {k for k, v in dist.distribution_dict.items() if v > 0}
    before = dict(dist.distribution_dict)
    rounded = sum(round(p * n) for p in before.values())
    for r in range(case["repeat"]):
        np.random.seed(case["seed"] + r)
        m = Measurements.get_measurements_representing_distribution(dist, n)
        require(
            len(m.bitstrings) == n,
            lambda: "%d shots of %s, requested %d" % (len(m.bitstrings), before, n),
        )
        got = {tuple(b) for b in m.bitstrings}
        require(got <= support, lambda: "%s outside the support of %s" % (got - support, before))
        require(sum(m.get_counts().values()) == n, "counts")
        require(dist.distribution_dict == before, "the distribution was modified")
    ctx.label("exact" if rounded == n else "add" if rounded < n else "remove")
    if any(not v for v in before.values()):
        ctx.label("zero-probability")
    ctx.nontrivial(rounded != n and len(support) >= 3)


def weight(x, how):
    if how == "np":
        return np.float64(x) if isinstance(x, float) else x if x > 2**62 else np.int64(x)
    return x


def check_scale(case, ctx):
    ws = [weight(x, case["as"]) for x in case["ws"]]
    if case["as"] == "array" and all(isinstance(x, float) or x < 2**62 for x in ws):
        ws = np.array(ws)
    before = list(ws)
    total = case["total"]
    out = scale_and_discretize(ws, np.int64(total) if case["np_total"] and total < 2**62 else total)
    require(list(ws) == before, "weights were modified")
    out = list(out)
    require(len(out) == len(before), "length")
    require(
        all(isinstance(x, (int, np.integer)) for x in out), lambda: "not integers: %r" % (out,)
    )
    require(sum(map(int, out)) == total, lambda: "%s sum to %s, not %d" % (out, sum(out), total))
    exact = [Fraction(w.item() if isinstance(w, np.generic) else w) for w in before]
    s = sum(exact)
    for w, x in zip(exact, out):
        d = abs(w * total / s - int(x))
        require(
            d <= 1 + Fraction(1, 10**9),
            lambda: "weights %s, total %d: %d is %.6g away from its share" % (before, total, x, d),
        )
    if total > 2**50:
        ctx.label("huge")
    ctx.nontrivial(len(out) >= 3 and len(set(out)) >= 2 and len(set(exact)) >= 2)


# ------------------------------------------------------------------------ strategies

seqs = st.sampled_from(["list", "list", "tuple"])


@st.composite
def requests(draw, small=False):
    m = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 7, 10] + ([] if small else [100, 1000, 8192])))
    if not small and draw(st.integers(0, 5)) == 0:
        m = draw(st.integers(2**50, 2**70))
    n = draw(st.integers(0, 6))
    ns = []
    for _ in range(n):
        k = draw(st.integers(1, 6 if small else 12))
        ns.append(max(1, k * m + draw(st.sampled_from([0, 0, 1, -1, m // 2, -(m // 2)]))))
    return {
        "items": draw(st.sampled_from(["label", "label", "circuit"])),
        "ids": draw(st.lists(st.integers(0, 4), min_size=n, max_size=n)),
        "ns": ns,
        "max": m,
        "num": draw(st.sampled_from(["int", "int", "np"])),
        "seq": draw(seqs),
    }


@st.composite
def runs(draw):
    c = draw(requests(small=True))
    c["batch"] = draw(st.integers(1, 8))
    c["seed"] = draw(st.integers(0, 9999))
    c["w"] = draw(st.integers(1, 3))
    c["tuples"] = draw(st.booleans())
    return c


@st.composite
def batchings(draw):
    n = draw(st.integers(0, 12))
    return {
        "items": draw(st.sampled_from(["label", "label", "circuit"])),
        "ids": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)),
        "ns": draw(st.lists(st.integers(1, 30), min_size=n, max_size=n)),
        "max": draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 12, 100])),
        "num": draw(st.sampled_from(["int", "np"])),
        "seq": draw(seqs),
        "bad": draw(st.integers(0, 7)) == 0,
    }


combines = st.fixed_dictionaries(
    {
        "mult": st.lists(st.integers(1, 5), max_size=6),
        "seed": st.integers(0, 9999),
        "w": st.integers(1, 3),
        "seq": seqs,
    }
)


@st.composite
def representations(draw):
    w = draw(st.sampled_from([1, 2, 2, 3, 4, 6]))
    base = draw(st.sampled_from([2, 2, 2, 3, 12]))
    top = base**w - 1
    k = draw(st.integers(1, min(16, top + 1)))
    keys = draw(st.lists(st.integers(0, top), min_size=k, max_size=k, unique=True))
    # shares just above or below a half, whole numbers, tiny or no weight
    frac = st.sampled_from([0.5, 0.5001, 0.51, 0.499, 0.49, 0.9, 0.1, 0.75, 0.25, 0.0, 1e-9, 0.999999])
    style = draw(st.sampled_from(["near-half", "mixed", "free"]))
    parts = []
    for _ in range(k):
        if style == "free":
            parts.append(draw(st.floats(0, 50, allow_nan=False)))
        elif style == "near-half":
            parts.append(draw(st.sampled_from([0.5001, 0.51, 0.55, 0.6, 0.5, 1.5, 1.51, 2.5])))
        else:
            parts.append(draw(st.sampled_from([0, 0, 1, 1, 2, 7])) + draw(frac))
    # rescaled by "n" = 0: as many shots as the parts sum to
    return {
        "w": w,
        "base": base,
        "keys": keys,
        "parts": parts,
        "n": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 17, 100, 1001])),
        "seed": draw(st.integers(0, 9999)),
        "repeat": 4,
    }


@st.composite
def scalings(draw):
    w = st.one_of(
        st.sampled_from([0.1, 0.2, 0.3, 0.5, 1.0, 1 / 3, 0.7, 1e-3, 1e-12, 1e15]),
        st.floats(1e-6, 1e3, allow_nan=False),
        st.integers(1, 20),
        st.integers(1, 2**80) if draw(st.integers(0, 5)) == 0 else st.integers(1, 9),
    )
    ws = draw(st.lists(w, min_size=1, max_size=12))
    if draw(st.integers(0, 4)) == 0:
        ws = [ws[0]] * len(ws)
    return {
        "ws": ws,
        "total": draw(
            st.one_of(
                st.integers(0, 60),
                st.integers(0, 60),
                st.integers(0, 10**6),
                st.integers(0, 2**90),
                st.sampled_from([len(ws), len(ws) - 1, len(ws) + 1, 10**15, 2**53 + 1]),
            )
        ),
        "as": draw(st.sampled_from(["", "", "np", "array"])),
        "np_total": draw(st.booleans()),
    }


def small_expansions(tier):
    """Every pair (requested, maximum) up to a bound, alone and next to another."""
    top = 24 if tier == "quick" else 64
    for m in range(1, top + 1):
        yield {
            "items": "label",
            "ids": list(range(top)),
            "ns": list(range(1, top + 1)),
            "max": m,
            "num": "int",
            "seq": "list",
        }


def small_batches(tier):
    top = 7 if tier == "quick" else 12
    for n in range(top + 1):
        for m in range(1, top + 2):
            for r in range(max(n, 1)):
                ns = [(3 * i) % 7 + 1 for i in range(n)]
                yield {
                    "items": "label",
                    "ids": list(range(n)),
                    "ns": ns[r:] + ns[:r],
                    "max": m,
                    "num": "int",
                    "seq": "list",
                }


# ------------------------------------------------------------------- large inputs


@st.composite
def big_requests(draw):
    rng = random.Random(draw(st.integers(0, 10**6)))
    n = draw(st.sampled_from([9, 17, 33, 65, 129]))
    m = draw(st.sampled_from([1, 2, 3, 7, 100]))
    top = draw(st.sampled_from([3, 40, 300]))
    return {
        "items": draw(st.sampled_from(["label", "circuit"])),
        "ids": [rng.randrange(50) for _ in range(n)],
        "ns": [max(1, rng.randint(1, top) * m + rng.choice([0, 0, 1, -1])) for _ in range(n)],
        "max": m,
        "num": draw(st.sampled_from(["int", "np"])),
        "seq": draw(seqs),
    }


@st.composite
def big_batchings(draw):
    rng = random.Random(draw(st.integers(0, 10**6)))
    n = draw(st.sampled_from([17, 64, 65, 128, 257, 1000]))
    return {
        "items": "label",
        "ids": [rng.randrange(99) for _ in range(n)],
        "ns": [rng.choice([1, 5, 1000, 10**6, 2**40]) + rng.randrange(9) for _ in range(n)],
        "max": draw(st.sampled_from([1, 2, 3, 7, 10, 16, 17, 63, 64, 65, 100, 128, 999, 1000, 1001])),
        "num": draw(st.sampled_from(["int", "np"])),
        "seq": draw(seqs),
    }


@st.composite
def big_runs(draw):
    rng = random.Random(draw(st.integers(0, 10**6)))
    n = draw(st.sampled_from([9, 17, 40]))
    return {
        "items": "label",
        "ids": list(range(n)),
        "ns": [rng.randint(1, 60) for _ in range(n)],
        "max": draw(st.sampled_from([1, 2, 7, 30])),
        "num": "int",
        "seq": "list",
        "batch": draw(st.sampled_from([1, 7, 11, 64, 100])),
        "seed": draw(st.integers(0, 9999)),
        "w": draw(st.sampled_from([1, 2, 11, 40])),
        "tuples": draw(st.booleans()),
    }


big_combines = st.fixed_dictionaries(
    {
        "mult": st.sampled_from([3, 11, 30]).flatmap(
            lambda k: st.lists(st.sampled_from([1, 1, 2, 7, 17, 40]), min_size=k, max_size=k)
        ),
        "seed": st.integers(0, 9999),
        "w": st.sampled_from([1, 2, 12, 40]),
        "seq": seqs,
    }
)


@st.composite
def big_representations(draw):
    rng = random.Random(draw(st.integers(0, 10**6)))
    w = draw(st.sampled_from([5, 8, 11, 17]))
    k = draw(st.sampled_from([9, 17, 32, 33, 100, 300]))
    style = draw(st.sampled_from(["uniform", "above", "below", "decay", "one-big"]))
    keys = rng.sample(range(2**w), min(k, 2**w))
    parts = {
        "uniform": lambda i: 1.0,
        "above": lambda i: rng.randint(0, 3) + 0.51,
        "below": lambda i: rng.randint(1, 3) + 0.49,
        "decay": lambda i: 1000 * 0.9**i,
        "one-big": lambda i: 0.6 if i else 500.0,
    }[style]
    return {
        "w": w,
        "base": 2,
        "keys": keys,
        "parts": [parts(i) for i in range(len(keys))],
        "n": draw(st.sampled_from([0, 0, 1, 7, 100, 1000, 20000])),
        "seed": draw(st.integers(0, 9999)),
        "repeat": 1,
    }


@st.composite
def big_scalings(draw):
    rng = random.Random(draw(st.integers(0, 10**6)))
    k = draw(st.sampled_from([17, 33, 65, 129, 500, 1001]))
    kind = draw(st.sampled_from(["equal", "ints", "floats", "wide", "few-big"]))
    ws = {
        "equal": lambda i: 0.1,
        "ints": lambda i: rng.randint(1, 1000),
        "floats": lambda i: rng.uniform(1e-3, 1),
        "wide": lambda i: 10.0 ** rng.uniform(-9, 9),
        "few-big": lambda i: 1e6 if i % 50 == 0 else 1e-3,
    }[kind]
    return {
        "ws": [ws(i) for i in range(k)],
        "total": draw(st.sampled_from([0, 1, k - 1, k, k + 1, 2 * k + 1, 1000, 10**6 + 1, 2**60 + 1])),
        "as": draw(st.sampled_from(["", "np", "array"])),
        "np_total": draw(st.booleans()),
    }


MANY = ">=2 circuits, one expanded"
FACETS = [
    Facet("expand", check_expand, MANY, requests(), quick=2500, thorough=60000, shard=250),
    Facet("expand-small", check_expand, MANY, cases=small_expansions, shard=4, exhaustive=True),
    Facet("batches", check_batches, ">=2 batches of up to >=2", batchings(), quick=1500, thorough=30000, shard=250),
    Facet("batches-small", check_batches, ">=2 batches of up to >=2", cases=small_batches, shard=60, exhaustive=True),
    Facet("run", check_run, "circuits of different multiplicities", runs(), quick=1500, thorough=30000, shard=150),
    Facet("combine", check_combine, ">=2 groups, one of >=2 results", combines, quick=1200, thorough=20000, shard=200),
    Facet("represent", check_represent, ">=3 outcomes, rounding off by >=1 shot", representations(), quick=3000, thorough=100000, shard=250),
    Facet("scale", check_scale, ">=3 weights, not all equal", scalings(), quick=4000, thorough=100000, shard=400),
    Facet("expand-large", check_expand, MANY, big_requests(), quick=60, thorough=1500, shard=15),
    Facet("batches-large", check_batches, ">=2 batches of up to >=2", big_batchings(), quick=120, thorough=3000, shard=30),
    Facet("run-large", check_run, "circuits of different multiplicities", big_runs(), quick=40, thorough=1500, shard=10),
    Facet("combine-large", check_combine, ">=2 groups, one of >=2 results", big_combines, quick=40, thorough=1500, shard=10),
    Facet("represent-large", check_represent, ">=3 outcomes, rounding off by >=1 shot", big_representations(), quick=80, thorough=3000, shard=20),
    Facet("scale-large", check_scale, ">=3 weights, not all equal", big_scalings(), quick=200, thorough=6000, shard=50),
]
