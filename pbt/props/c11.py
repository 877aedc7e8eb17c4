"""C11: operators and result artefacts survive dict, file and text round trips."""
import io
import itertools
import json
import os
import pathlib
import random

import numpy as np
from hypothesis import strategies as st
from orquestra.quantum import utils as ou
from orquestra.quantum.circuits import layouts as ol
from orquestra.quantum.measurements import (
    ExpectationValues,
    Measurements,
    Parities,
    load_expectation_values,
    load_parities,
    save_expectation_values,
    save_parities,
)
from orquestra.quantum.operators import (
    PauliSum,
    PauliTerm,
    convert_dict_to_op,
    convert_op_to_dict,
    load_operator,
    load_operator_set,
    save_operator,
    save_operator_set,
)

from .. import ops as po
from ..core import Facet, fail, require

ASSUMPTIONS = [
    "coefficients are finite with parts of magnitude below 1e15",
    "a loaded file is read as text; paths are str, bytes or PathLike",
    "lists hold JSON values (no tuples, no non-string keys)",
]

SOURCES = ["str", "pathlib", "bytes", "open", "stringio"]
source = st.sampled_from(SOURCES)


def through(save, load, obj, kind, ctx, target=None):
    """Save to a scratch file, load back from the given kind of source."""
    p = ctx.path("artefact.json")
    save(obj, pathlib.Path(p) if target == "pathlib" else p)
    return reload(load, p, kind)


def reload(load, p, kind):
    if kind == "str":
        return load(p)
    if kind == "pathlib":
        return load(pathlib.Path(p))
    if kind == "bytes":
        return load(os.fsencode(p))
    with open(p) as f:
        if kind == "open":
            return load(f)
        return load(io.StringIO(f.read()))


# ------------------------------------------------------------------------ operators


def scale(m):
    return 1e-8 * (len(m) + 1) + 1e-12 * po.m_l1(m)


def same_matrix(a, b, what):
    require(
        po.m_close(a, b, max(scale(a), scale(b))),
        lambda: "%s: %s became %s" % (what, a, b),
    )


def parts(c):
    c = complex(c)
    return (c.real, c.imag)


def exact(op, back, what):
    """Terms of a simplified operator are preserved exactly."""
    a = {t.operations: parts(t.coefficient) for t in op.terms}
    b = {t.operations: parts(t.coefficient) for t in back.terms}
    require(
        len(back.terms) == len(b) and a == b,
        lambda: "%s: terms %s became %s" % (what, op, back),
    )


def operator(case):
    if case["term"]:
        return po.term(case["ts"][0]), po.t_model(case["ts"][0])
    return po.psum(case["ts"]), po.s_model(case["ts"])


def labels(case, ctx):
    cs = [complex(po.coeff(t["c"])) for t in case["ts"]]
    if any(not [q for q, p in t["o"] if p != "I"] for t in case["ts"]):
        ctx.label("constant")
    if any(c.imag for c in cs):
        ctx.label("complex")
    if any(c.imag and not c.real for c in cs):
        ctx.label("imaginary")
    if any(0 < abs(c) < 1e-4 for c in cs):
        ctx.label("small")
    if any(abs(c) > 1e10 for c in cs):
        ctx.label("large")
    if not case["ts"]:
        ctx.label("empty")
    ctx.nontrivial(len(case["ts"]) >= 2 and any(c.imag or abs(c) < 1e-3 for c in cs))


def check_dict(case, ctx):
    op, model = operator(case)
    text = str(op)
    d = convert_op_to_dict(op)
    for what, back in (
        ("dictionary", convert_dict_to_op(d)),
        ("JSON text", convert_dict_to_op(json.loads(json.dumps(d)))),
        (
            "file",
            through(save_operator, load_operator, op, case["src"], ctx, case["dst"]),
        ),
    ):
        same_matrix(po.m_of(back), model, what)
        if not case["term"]:
            s = op.simplify()
            exact(s, convert_dict_to_op(convert_op_to_dict(s)), "simplified, " + what)
            if len(s.terms) == len(op.terms):
                exact(op, back, what)
        elif abs(complex(op.coefficient)) > 2e-8:
            exact(op, back, what)
    s = op if case["term"] else op.simplify()
    if not case["term"]:
        exact(s, through(save_operator, load_operator, s, case["src"], ctx), "file")
    require(str(op) == text, "the operator was changed")
    labels(case, ctx)


def check_text(case, ctx):
    op, model = operator(case)
    s = str(op)
    back = PauliSum(s)
    same_matrix(po.m_of(back), model, "printed %r, parsed" % s)
    require(repr(op) == s, "repr differs from str")
    if case["term"]:
        same_matrix(po.m_of(PauliTerm(s)), model, "printed %r, parsed as a term" % s)
    for t in op.terms:
        same_matrix(po.m_of(PauliTerm(str(t))), po.m_of(t), "term printed as %r" % str(t))
    if not case["term"]:
        simple = op.simplify()
        same_matrix(po.m_of(PauliSum(str(simple))), model, "simplified, printed")
    labels(case, ctx)


def check_set(case, ctx):
    ops = [po.term(ts[0]) if t else po.psum(ts) for t, ts in case["set"]]
    back = through(save_operator_set, load_operator_set, ops, case["src"], ctx, case["dst"])
    require(len(back) == len(ops), "number of operators")
    for op, b, (t, ts) in zip(ops, back, case["set"]):
        same_matrix(po.m_of(b), po.t_model(ts[0]) if t else po.s_model(ts), "operator list")
        if not t and len(op.simplify().terms) == len(op.terms):
            exact(op, b, "operator list")
    ctx.nontrivial(len(ops) >= 2)


# -------------------------------------------------------------------------- arrays


def array(a):
    """{"shape", "kind", "v": [...]} -> ndarray"""
    v = np.array(a["v"], dtype=float)
    if a["kind"] == "complex":
        v = v + 1j * np.array(a["w"], dtype=float)
    elif a["kind"] == "int":
        v = v.astype(int)
    elif a["kind"] == "float32":
        v = v.astype(np.float32)
    return v.reshape(a["shape"])


def same_array(a, b, what):
    require(
        isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b)),
        lambda: "%s: %r became %r" % (what, a, b),
    )


def same_frames(a, b, what):
    require((a is None) == (b is None), lambda: "%s: %r became %r" % (what, a, b))
    if a is not None:
        require(len(a) == len(b), lambda: "%s: %d frames became %d" % (what, len(a), len(b)))
        for x, y in zip(a, b):
            same_array(x, y, what)


def frames(f):
    return None if f is None else [array(x) for x in f]


def check_expectation_values(case, ctx):
    ev = ExpectationValues(
        array(case["values"]), frames(case["corr"]), frames(case["cov"])
    )
    d = ev.to_dict()
    for what, back in (
        ("dictionary", ExpectationValues.from_dict(d)),
        ("JSON text", ExpectationValues.from_dict(json.loads(json.dumps(d)))),
        (
            "file",
            through(
                save_expectation_values, load_expectation_values, ev, case["src"], ctx, case["dst"]
            ),
        ),
    ):
        same_array(ev.values, back.values, what + ": values")
        same_frames(ev.correlations, back.correlations, what + ": correlations")
        same_frames(
            ev.estimator_covariances, back.estimator_covariances, what + ": covariances"
        )
        require(bool(back == ev), what + ": loaded object is not equal to the saved one")
    n = sum(len(f or []) for f in (case["corr"], case["cov"]))
    if case["corr"] == [] or case["cov"] == []:
        ctx.label("no-frames")
    if case["values"]["kind"] == "complex":
        ctx.label("complex")
    if n >= 2:
        ctx.label("several-frames")
    ctx.nontrivial(n >= 1 and len(case["values"]["v"]) >= 1)


def check_parities(case, ctx):
    p = Parities(array(case["values"]), frames(case["corr"]))
    d = p.to_dict()
    for what, back in (
        ("dictionary", Parities.from_dict(d)),
        ("JSON text", Parities.from_dict(json.loads(json.dumps(d)))),
        ("file", through(save_parities, load_parities, p, case["src"], ctx, case["dst"])),
    ):
        same_array(p.values, back.values, what + ": values")
        same_frames(p.correlations, back.correlations, what + ": correlations")
    ctx.nontrivial(bool(case["corr"]) and len(case["values"]["v"]) >= 1)


BITS = {"int": int, "int8": np.int8, "int64": np.int64}


def check_measurements(case, ctx):
    t = BITS[case["bit"]]
    shots = [tuple(t(b) for b in s) for s in case["shots"]]
    m = Measurements(list(shots))
    back = through(
        lambda o, f: o.save(f), Measurements.load_from_file, m, case["src"], ctx, case["dst"]
    )
    require(
        list(back.bitstrings) == shots and all(isinstance(s, tuple) for s in back.bitstrings),
        lambda: "%s became %s" % (shots, back.bitstrings),
    )
    require(back.get_counts() == m.get_counts(), "counts")
    require(list(m.bitstrings) == shots, "saving changed the measurements")
    if not shots:
        ctx.label("empty")
    ctx.nontrivial(len(set(case["shots"] and map(tuple, case["shots"]))) >= 2)


def number(x):
    if isinstance(x, dict):
        return np.float64(x["np"]) if "np" in x else np.float32(x["np32"])
    return x


def check_value_estimate(case, ctx):
    v, prec = number(case["v"]), number(case["prec"])
    e = ou.ValueEstimate(v, prec) if case["given"] else ou.ValueEstimate(v)
    want = prec if case["given"] else None
    d = e.to_dict()
    for what, back in (
        ("dictionary", ou.ValueEstimate.from_dict(d)),
        ("JSON text", ou.ValueEstimate.from_dict(json.loads(json.dumps(d)))),
        (
            "file",
            through(ou.save_value_estimate, ou.load_value_estimate, e, case["src"], ctx, case["dst"]),
        ),
    ):
        require(isinstance(back, ou.ValueEstimate), what + ": type")
        require(
            float(back) == float(v)
            and (back.precision is None) == (want is None)
            and (want is None or float(back.precision) == float(want)),
            lambda: "%s: %s became %s" % (what, e, back),
        )
        require(back == e and not (back != e), what + ": not equal")
    if want is None:
        ctx.label("no-precision")
    ctx.nontrivial(want is not None)


def check_list(case, ctx):
    v = case["list"]
    back = through(ou.save_list, ou.load_list, v, case["src"], ctx, case["dst"])
    require(isinstance(back, list) and back == v, lambda: "%r became %r" % (v, back))
    ctx.nontrivial(len(v) >= 2)


def check_layouts(case, ctx):
    layers = [[tuple(g) for g in layer] for layer in case["layers"]]
    back = through(
        ol.save_circuit_layers, ol.load_circuit_layers, ol.CircuitLayers(layers), case["src"], ctx, case["dst"]
    ).layers
    require(
        back == layers and all(isinstance(g, tuple) for l in back for g in l),
        lambda: "layers %r became %r" % (layers, back),
    )
    conn = [tuple(g) for g in case["conn"]]
    back = through(
        ol.save_circuit_connectivity,
        ol.load_circuit_connectivity,
        ol.CircuitConnectivity(conn),
        case["src"],
        ctx,
        case["dst"],
    ).connectivity
    require(
        back == conn and all(isinstance(g, tuple) for g in back),
        lambda: "connectivity %r became %r" % (conn, back),
    )
    order = case["order"]
    back = through(
        ol.save_circuit_ordering, ol.load_circuit_ordering, order, case["src"], ctx, case["dst"]
    )
    require(back == order, lambda: "ordering %r became %r" % (order, back))
    if case["build"]:
        x, y, kind = case["build"]
        c, l = ol.build_circuit_layers_and_connectivity(x, y, kind)
        b = through(ol.save_circuit_layers, ol.load_circuit_layers, l, case["src"], ctx)
        require(b.layers == l.layers, "built layers")
        b = through(ol.save_circuit_connectivity, ol.load_circuit_connectivity, c, case["src"], ctx)
        require(b.connectivity == c.connectivity, "built connectivity")
        ctx.label(kind)
    ctx.nontrivial(sum(map(len, layers)) >= 2)


def check_nmeas(case, ctx):
    fm = None if case["frame"] is None else array(case["frame"])
    p = ctx.path("nmeas.json")
    k, n = number(case["k"]), case["n"]
    q = pathlib.Path(p) if case["dst"] == "pathlib" else p
    if fm is None and case["omit"]:
        ou.save_nmeas_estimate(k, n, q)
    else:
        ou.save_nmeas_estimate(k, n, q, fm)
    k2, n2, fm2 = reload(ou.load_nmeas_estimate, p, case["src"])
    require(k2 == k and n2 == n, lambda: "%r became %r" % ((k, n), (k2, n2)))
    same_frames(
        None if fm is None else [fm], None if fm2 is None else [fm2], "frame measurements"
    )
    if fm is None:
        ctx.label("no-frames")
    ctx.nontrivial(fm is not None and fm.size >= 1)


# ---------------------------------------------------------------------- strategies

big_floats = st.one_of(
    st.floats(-9e14, 9e14),
    st.floats(-10, 10),
    st.builds(lambda m, e: m * 10.0**e, st.floats(-10, 10), st.integers(-12, 13)),
    st.builds(
        lambda m, e: m * 10.0**e, st.integers(-9, 9), st.integers(-7, 13)
    ),
    st.sampled_from([0.0, -0.0, 1e-5, -1e-5, 1e-7, 123456789.123, 1e14, 1 / 3, -0.1]),
)
num = st.one_of(st.integers(-20, 20), st.integers(-(10**14), 10**14), big_floats, po.nice)
coefficient = st.one_of(
    num,
    num,
    st.builds(lambda a, b: {"c": [a, b]}, num, num),
    st.builds(lambda a, b: {"c": [a, b]}, st.sampled_from([0, 0.0, -0.0]), num),
    st.builds(lambda a, b: {"c": [a, b]}, num, st.sampled_from([0, 0.0, -0.0])),
    big_floats.map(lambda x: {"np": x}),
)
qubit = st.one_of(st.integers(0, 3), st.integers(0, 12), st.sampled_from([10, 99, 101, 12345]))


@st.composite
def a_term(draw):
    o = draw(
        st.lists(
            st.tuples(qubit, st.sampled_from("XYZXYZI")).map(list),
            max_size=4,
            unique_by=lambda x: x[0],
        )
    )
    return {
        "o": o,
        "c": draw(coefficient),
        "form": draw(st.sampled_from(["dict", "iter"])),
    }


a_sum = st.lists(a_term(), max_size=5)
io_kw = {"src": source, "dst": st.sampled_from(["str", "pathlib"])}
operators = st.one_of(
    st.fixed_dictionaries({"term": st.just(True), "ts": a_term().map(lambda t: [t]), **io_kw}),
    st.fixed_dictionaries({"term": st.just(False), "ts": a_sum, **io_kw}),
    st.fixed_dictionaries({"term": st.just(False), "ts": st.lists(a_term(), min_size=2, max_size=4), **io_kw}),
)
operator_sets = st.fixed_dictionaries(
    {
        "set": st.lists(
            st.one_of(
                a_sum.map(lambda s: [False, s]), a_term().map(lambda t: [True, [t]])
            ),
            max_size=4,
        ),
        **io_kw,
    }
)

values = st.one_of(
    st.floats(-1e6, 1e6),
    st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.0, 1.0, -1.0, 1 / 3, 1e-300, 5e-324]),
)


@st.composite
def arrays(draw, shape, kinds=("float", "float", "complex", "int", "float32")):
    size = int(np.prod(shape))
    kind = draw(st.sampled_from(kinds))
    el = st.integers(-(2**40), 2**40) if kind == "int" else values
    if kind == "float32":
        el = st.floats(-1e6, 1e6, width=32)
    out = {
        "shape": list(shape),
        "kind": kind,
        "v": draw(st.lists(el, min_size=size, max_size=size)),
    }
    if kind == "complex":
        out["w"] = draw(
            st.one_of(
                st.lists(values, min_size=size, max_size=size), st.just([0.0] * size)
            )
        )
    return out


@st.composite
def frame_lists(draw, extra=(), sizes=(0, 1, 1, 2, 3), kinds=("float", "complex", "complex", "int")):
    k = draw(st.sampled_from([None, None, 0, 1, 1, 1, 2, 3]))
    if k is None:
        return None
    out = []
    for _ in range(k):
        n = draw(st.sampled_from(sizes))
        out.append(draw(arrays((n, n, *extra), kinds)))
    return out


@st.composite
def ev_cases(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 4]))
    return {
        "values": draw(arrays((n,))),
        "corr": draw(frame_lists()),
        "cov": draw(frame_lists()),
        "src": draw(source),
        "dst": draw(io_kw["dst"]),
    }


@st.composite
def parity_cases(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 3]))
    return {
        "values": draw(arrays((n, 2), ("int", "int", "float"))),
        "corr": draw(frame_lists((2,), kinds=("int", "float"))),
        "src": draw(source),
        "dst": draw(io_kw["dst"]),
    }


@st.composite
def measurement_cases(draw):
    w = draw(st.sampled_from([0, 1, 2, 3, 5, 12]))
    shot = st.lists(st.integers(0, 1), min_size=w, max_size=w)
    return {
        "shots": draw(st.lists(shot, max_size=6)),
        "bit": draw(st.sampled_from(["int", "int8", "int64"])),
        "src": draw(source),
        "dst": draw(io_kw["dst"]),
    }


real_number = st.one_of(
    values,
    values,
    st.integers(-(10**9), 10**9),
    values.map(lambda x: {"np": x}),
)
value_estimates = st.fixed_dictionaries(
    {
        "v": real_number,
        "prec": st.one_of(st.none(), real_number, st.floats(0, 10, width=32).map(lambda x: {"np32": x})),
        "given": st.sampled_from([True, True, True, False]),
        **io_kw,
    }
)
json_values = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-(2**70), 2**70), values, st.text(max_size=6)),
    lambda ch: st.one_of(
        st.lists(ch, max_size=3), st.dictionaries(st.text(max_size=4), ch, max_size=3)
    ),
    max_leaves=8,
)
lists = st.fixed_dictionaries({"list": st.lists(json_values, max_size=6), **io_kw})
group = st.lists(st.integers(0, 120), min_size=0, max_size=4)
layouts = st.fixed_dictionaries(
    {
        "layers": st.lists(st.lists(group, max_size=4), max_size=4),
        "conn": st.lists(group, max_size=5),
        "order": st.lists(st.integers(0, 99), max_size=6),
        "build": st.one_of(
            st.none(),
            st.tuples(st.integers(0, 9), st.none(), st.just("nearest-neighbor")).map(list),
            st.tuples(st.integers(2, 4), st.integers(2, 4), st.just("sycamore")).map(list),
        ),
        **io_kw,
    }
)


@st.composite
def nmeas_cases(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 7]))
    return {
        "k": draw(real_number),
        "n": draw(st.integers(0, 10**6)),
        "frame": draw(st.one_of(st.none(), arrays((n,), ("float", "int")))),
        "omit": draw(st.booleans()),
        "src": draw(source),
        "dst": draw(io_kw["dst"]),
    }


def text_table(tier):
    """Printing of every kind of coefficient on constants, terms and pairs of terms."""
    cs = [0, 1, -1, 2.5, -2.5, 1e-5, -1e-5, 1e-12, 1e14, -1e14, 123456789012345, 0.0, -0.0, 1e-300]
    cs += [{"c": list(p)} for p in itertools.product([0.0, -0.0, 1, -2.5, 1e-7, -1e-7, 3e14], repeat=2)]
    ops_ = [[], [[0, "X"]], [[12, "Z"], [3, "Y"]], [[5, "I"]]]
    for c in cs:
        for o in ops_:
            for form in ("dict", "iter"):
                yield {"term": True, "ts": [{"o": o, "c": c, "form": form}], "src": "str", "dst": "str"}
            yield {"term": False, "ts": [{"o": o, "c": c}], "src": "stringio", "dst": "str"}
    step = 7 if tier == "quick" else 1
    for i, (a, b) in enumerate(itertools.product(cs, repeat=2)):
        if i % step == 0:
            yield {
                "term": False,
                "ts": [{"o": [], "c": a}, {"o": [[10, "Y"]], "c": b}],
                "src": "open",
                "dst": "pathlib",
            }
            yield {
                "term": False,
                "ts": [{"o": [[1, "X"]], "c": a}, {"o": [], "c": b}],
                "src": "open",
                "dst": "pathlib",
            }


def both(case, ctx):
    check_text(case, ctx)
    check_dict(case, ctx)


RULE = ">=2 terms, one complex or small"
# --------------------------------------------------------------------- large artefacts


def rnd(rng):
    return rng.choice(
        [rng.uniform(-1, 1), rng.uniform(-1, 1), rng.gauss(0, 1) * 10.0 ** rng.randint(-12, 12), 0.0, 1 / 3, -1.0]
    )


def rnd_array(rng, shape, kind):
    size = int(np.prod(shape))
    if kind == "int":
        return {"shape": list(shape), "kind": kind, "v": [rng.randint(-(2**40), 2**40) for _ in range(size)]}
    out = {"shape": list(shape), "kind": kind, "v": [rnd(rng) for _ in range(size)]}
    if kind == "complex":
        out["w"] = [rnd(rng) if rng.random() < 0.7 else 0.0 for _ in range(size)]
    return out


def rnd_frames(rng, n, k, extra=(), kinds=("float", "complex", "int")):
    return [rnd_array(rng, (max(1, n - i), max(1, n - i), *extra), rng.choice(kinds)) for i in range(k)]


def rnd_op(rng, k, width):
    ts = []
    for _ in range(k):
        m = rng.randint(0, rng.choice([2, 5, 14]))
        c = rnd(rng) or 0.5
        if rng.random() < 0.4:
            c = {"c": [c, rnd(rng)]}
        ts.append({"o": [[q, rng.choice("XYZ")] for q in rng.sample(range(width), min(m, width))], "c": c, "form": "dict"})
    return ts


def rnd_json(rng, depth):
    x = rng.random()
    if depth and x < 0.5:
        return [rnd_json(rng, depth - 1)]
    if depth and x < 0.8:
        return {"k%d" % i: rnd_json(rng, depth - 4 if depth > 3 else 0) for i in range(rng.randint(0, 3))}
    return rng.choice([None, True, rng.randint(-(2**70), 2**70), rnd(rng), "s" * rng.randint(0, 40), "é\n\"\\\u2028"])


def check_large(case, ctx):
    rng = random.Random(case["seed"])
    n, k, io = case["n"], case["k"], {"src": case["src"], "dst": case["dst"]}
    what = case["what"]
    if what == "operator":
        c = {"term": False, "ts": rnd_op(rng, n, case["width"]), **io}
        check_dict(c, ctx)
        check_text(c, ctx)
        c = {"term": True, "ts": [{"o": [[q, rng.choice("XYZ")] for q in rng.sample(range(200), n)], "c": rnd(rng) or 2.5, "form": "dict"}], **io}
        check_dict(c, ctx)
        check_text(c, ctx)
    elif what == "operators":
        check_set({"set": [[False, rnd_op(rng, rng.randint(0, 4), case["width"])] for _ in range(n)], **io}, ctx)
    elif what == "values":
        kind = rng.choice(["float", "complex", "int"])
        check_expectation_values(
            {"values": rnd_array(rng, (n,), kind), "corr": rnd_frames(rng, min(n, 24), k), "cov": rnd_frames(rng, min(n, 24), k), **io}, ctx
        )
    elif what == "parities":
        check_parities(
            {"values": rnd_array(rng, (n, 2), "int"), "corr": rnd_frames(rng, min(n, 17), k, (2,), ("int", "float")), **io}, ctx
        )
    elif what == "measurements":
        shots = [[rng.randint(0, 1) for _ in range(case["width"])] for _ in range(n)]
        check_measurements({"shots": shots * k, "bit": rng.choice(sorted(BITS)), **io}, ctx)
    elif what == "list":
        check_list({"list": [rnd_json(rng, rng.choice([0, 1, 12, 30])) for _ in range(n)], **io}, ctx)
    elif what == "layouts":
        groups = lambda m: [rng.sample(range(200), rng.randint(1, 4)) for _ in range(m)]
        c = {"layers": [groups(rng.randint(0, 12)) for _ in range(n)], "conn": groups(n), "order": [rng.randint(0, 999) for _ in range(n)], **io}
        c["build"] = rng.choice([[n, None, "nearest-neighbor"], [rng.randint(2, 9), rng.randint(2, 9), "sycamore"]])
        check_layouts(c, ctx)
    else:
        c = {"k": rnd(rng), "n": rng.randint(0, 10**12), "frame": rnd_array(rng, (n,), rng.choice(["float", "int"])), "omit": False, **io}
        check_nmeas(c, ctx)
    ctx.label(what)
    ctx.nontrivial(n >= 9)


large_case = st.fixed_dictionaries(
    {
        "seed": st.integers(0, 10**6),
        "what": st.sampled_from(
            ["operator", "operators", "values", "parities", "measurements", "list", "layouts", "nmeas"]
        ),
        "n": st.sampled_from([5, 9, 11, 17, 33, 65, 101]),
        "k": st.sampled_from([1, 2, 11]),
        "width": st.sampled_from([3, 11, 70, 101, 1000]),
        **io_kw,
    }
).map(lambda c: dict(c, width=min(c["width"], 101)) if c["what"] == "measurements" else c)


FACETS = [
    Facet("dict", check_dict, RULE, operators, quick=1500, thorough=40000, shard=100),
    Facet("text", check_text, RULE, operators, quick=2000, thorough=60000, shard=200),
    Facet("table", both, RULE, cases=text_table, shard=100, exhaustive=True),
    Facet("operator-sets", check_set, ">=2 operators", operator_sets, quick=500, thorough=10000, shard=75),
    Facet("expectation-values", check_expectation_values, "values and at least a frame", ev_cases(), quick=1000, thorough=20000, shard=100),
    Facet("parities", check_parities, "values and at least a frame", parity_cases(), quick=600, thorough=10000, shard=100),
    Facet("measurements", check_measurements, ">=2 different outcomes", measurement_cases(), quick=600, thorough=10000, shard=100),
    Facet("value-estimates", check_value_estimate, "with precision", value_estimates, quick=800, thorough=10000, shard=100),
    Facet("lists", check_list, ">=2 elements", lists, quick=500, thorough=8000, shard=100),
    Facet("layouts", check_layouts, ">=2 groups in the layers", layouts, quick=500, thorough=8000, shard=100),
    Facet("measurement-estimates", check_nmeas, "with frames", nmeas_cases(), quick=500, thorough=8000, shard=100),
    Facet("large", check_large, ">=9 items", large_case, quick=120, thorough=5000, shard=15),
]
