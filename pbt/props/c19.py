"""C19: translating symbolic expressions preserves their value."""
import functools
import random

import mpmath
import sympy
from hypothesis import strategies as st
from orquestra.quantum.circuits import natural_key, natural_key_revlex
from orquestra.quantum.circuits.symbolic import expressions, sympy_expressions, translations

from .. import lib
from ..core import Facet, Skip, require

ASSUMPTIONS = [
    "numbers in an expression, and values of its parts, are zero or between 1e-250 and 1e250 in magnitude: "
    "the neutral tree holds Python numbers",
    "values are compared within the error of rounding every number and every operation to double precision; "
    "assignments at a pole, or where that error straddles a branch cut, are left out",
    "constants such as pi and E may be refused or translated to themselves",
    "one name stands for one symbol in an expression",
]

U = 2.0**-52


class Singular(Exception):
    pass


class Unknown(Exception):
    pass


# ------------------------------------------------- reference values with error

CONSTANTS = {
    sympy.pi: mpmath.mp.pi,
    sympy.E: mpmath.mp.e,
    sympy.GoldenRatio: mpmath.mp.phi,
    sympy.EulerGamma: mpmath.mp.euler,
    sympy.Catalan: mpmath.mp.catalan,
}


def fit(v, e):
    m = abs(v)
    if m != m or m > 1e250 or 0 < m < 1e-250:
        raise Singular()
    return v, e + U * m


def f_sin(f):
    def g(z, e):
        if e > 0.01:
            raise Singular()
        return fit(f(z), 2 * e * mpmath.exp(abs(mpmath.im(z))))

    return g


def f_tan(z, e):
    v = mpmath.tan(z)
    d = e * (1 + abs(v) ** 2)
    if d > 0.01 * max(1, abs(v)):
        raise Singular()
    return fit(v, 2 * d)


def f_exp(z, e):
    if e > 0.01:
        raise Singular()
    if abs(mpmath.re(z)) > 500:
        raise Singular()
    v = mpmath.exp(z)
    return fit(v, 2 * e * abs(v))


def off_cut(z, e):
    """The principal branch is smooth at z, or z is exactly real."""
    if abs(z) <= 100 * e:
        raise Singular()
    if isinstance(z, mpmath.mpc) and mpmath.re(z) < 0 and abs(z.imag) <= 100 * e + U * abs(z):
        raise Singular()


def f_pow(b, w):
    (z, e), (n, d) = b, w
    exact = isinstance(n, mpmath.mpf) and n == int(n) and abs(n) < 1e6
    if exact and n >= 0 and z == 0:
        return (mpmath.mpf(1), 0) if n == 0 else fit(z, e)
    if z == 0:
        if e == 0 and mpmath.re(n) > 100 * d:
            return mpmath.mpf(0), 0
        raise Singular()
    if exact:
        if abs(z) <= 100 * e:
            raise Singular()
        n = int(n)
    else:
        off_cut(z, e)
    if abs(mpmath.re(n * mpmath.log(z))) > 600:
        raise Singular()
    v = mpmath.power(z, n)
    r = abs(n) * e / abs(z) + (0 if exact else abs(mpmath.log(z)) * d)
    if r > 0.01:
        raise Singular()
    return fit(v, 2 * r * abs(v))


def f_log(z, e):
    off_cut(z, e)
    return fit(mpmath.log(z), 2 * e / abs(z))


FUNCTIONS = {
    sympy.sin: f_sin(mpmath.sin),
    sympy.cos: f_sin(mpmath.cos),
    sympy.tan: f_tan,
    sympy.exp: f_exp,
    sympy.log: f_log,
    sympy.sinh: lambda z, e: f_sin(lambda w: mpmath.sinh(z))(mpmath.mpc(0, 1) * z, e),
    sympy.cosh: lambda z, e: f_sin(lambda w: mpmath.cosh(z))(mpmath.mpc(0, 1) * z, e),
}


def value(e, env):
    """(value, error bound) of a sympy expression; env: name -> number."""
    if isinstance(e, sympy.Symbol):
        v = env[e.name]
        return (mpmath.mpc(*v) if isinstance(v, (list, tuple)) else mpmath.mpf(v)), 0
    if isinstance(e, sympy.Rational):
        v = mpmath.mpf(e.p) / mpmath.mpf(e.q)
        return fit(v, 0 if e.q == 1 and abs(e.p) < 2**53 else U * abs(v))
    if isinstance(e, sympy.Float):
        v = mpmath.mpf(e._mpf_) if hasattr(e, "_mpf_") else mpmath.mpf(str(e))
        return fit(v, 0)
    if e is sympy.I:
        return mpmath.mpc(0, 1), 0
    if isinstance(e, sympy.NumberSymbol) and e in CONSTANTS:
        return fit(+CONSTANTS[e], 0)
    if isinstance(e, sympy.Add):
        v, err = mpmath.mpf(0), 0
        for a in e.args:
            x, d = value(a, env)
            v, err = v + x, err + d + U * abs(v + x)
        return (v, err) if v == 0 else fit(v, err)
    if isinstance(e, sympy.Mul):
        v, err = mpmath.mpf(1), 0
        for a in e.args:
            x, d = value(a, env)
            v, err = v * x, (abs(v) + err) * (abs(x) + d) - abs(v * x)
            v, err = (v, err) if v == 0 else fit(v, err)
        return v, err
    if isinstance(e, sympy.Pow):
        return f_pow(value(e.args[0], env), value(e.args[1], env))
    f = FUNCTIONS.get(getattr(e, "func", None))
    if f is None:
        raise Unknown(type(e).__name__)
    return f(*value(e.args[0], env))


MP = {f: f for f in "sin cos tan cot sec csc exp log sinh cosh tanh coth sech csch asin acos atan asinh acosh atanh".split()}
MP.update(Abs="fabs", re="re", im="im", conjugate="conj")


def plain(e, env):
    """The value of a sympy expression as it stands, without any error bound."""
    if isinstance(e, sympy.Symbol):
        v = env[e.name]
        return mpmath.mpc(*v) if isinstance(v, (list, tuple)) else mpmath.mpf(v)
    if isinstance(e, sympy.Rational):
        return mpmath.mpf(e.p) / mpmath.mpf(e.q)
    if isinstance(e, sympy.Float):
        return mpmath.mpf(e._mpf_) if hasattr(e, "_mpf_") else mpmath.mpf(str(e))
    if e is sympy.I:
        return mpmath.mpc(0, 1)
    if isinstance(e, sympy.NumberSymbol) and e in CONSTANTS:
        return +CONSTANTS[e]
    a = [plain(x, env) for x in e.args]
    if isinstance(e, sympy.Add):
        return functools.reduce(lambda p, q: p + q, a, mpmath.mpf(0))
    if isinstance(e, sympy.Mul):
        return functools.reduce(lambda p, q: p * q, a, mpmath.mpf(1))
    if isinstance(e, sympy.Pow):
        if a[0] == 0 and mpmath.re(a[1]) > 0:
            return mpmath.mpf(0)
        return mpmath.power(a[0], int(a[1])) if e.args[1].is_Integer else mpmath.power(*a)
    if type(e).__name__ not in MP:  # sympy may rewrite tan(I) as I*tanh(1)
        raise Unknown(type(e).__name__)
    return getattr(mpmath, MP[type(e).__name__])(*a)


SUPPORTED = (sympy.sin, sympy.cos, sympy.tan, sympy.exp)


def supported(e):
    if isinstance(e, (sympy.Add, sympy.Mul, sympy.Pow)) or getattr(e, "func", None) in SUPPORTED:
        return all(supported(a) for a in e.args)
    return isinstance(e, (sympy.Symbol, sympy.Rational, sympy.Float)) or e is sympy.I


def tame(e):
    """No number in the expression outside the range of Python numbers."""
    for x in sympy.preorder_traversal(e):
        if isinstance(x, (sympy.Rational, sympy.Float)) and x != 0:
            if not 1e-250 < abs(x) < 1e250:
                return False
            if isinstance(x, sympy.Rational) and max(abs(x.p), x.q) > 10**250:
                return False
    return True


# -------------------------------------------------------- building expressions

NAMES = ["x", "y", "beta_2", "beta_10", "I", "pi", "cos", "a b", "λ"]


class Fresh(sympy.Function):
    pass


def impostor(name):
    return type(name, (sympy.Function,), {})


def odd(kind, args):
    """Constructs outside the supported set."""
    x = args[0]
    if kind.startswith("undef:"):
        return sympy.Function(kind[6:])(*args)
    if kind.startswith("class:"):
        return impostor(kind[6:])(*args)
    simple = {
        "pi": sympy.pi,
        "E": sympy.E,
        "golden": sympy.GoldenRatio,
        "euler": sympy.EulerGamma,
        "catalan": sympy.Catalan,
        "zoo": sympy.zoo,
        "nan": sympy.nan,
        "oo": sympy.oo,
    }
    if kind in simple:
        return simple[kind]
    s = sympy.Symbol("x")
    if kind == "piecewise":
        return sympy.Piecewise((x, s < 1), (x + 1, True))
    if kind == "derivative":
        return sympy.Derivative(sympy.Function("f")(s), s)
    if kind == "uderivative":
        return sympy.Derivative(sympy.sin(s), s)
    if kind == "subs":
        return sympy.Subs(sympy.sin(s), s, x)
    if kind == "integral":
        return sympy.Integral(x, s)
    if kind == "sum":
        return sympy.Sum(x, (s, 0, 3))
    if kind == "product":
        return sympy.Product(x, (s, 1, 3))
    if kind == "order":
        return sympy.Order(s**2)
    if kind == "indexed":
        return sympy.Indexed("a", 1)
    if kind == "element":
        return sympy.MatrixSymbol("M", 2, 2)[0, 1]
    if kind in ("Max", "Min", "Mod", "atan2", "beta", "besselj", "KroneckerDelta"):
        return getattr(sympy, kind)(x, args[-1] if len(args) > 1 else s + 1)
    return getattr(sympy, kind)(x)


UNARY = [
    "log", "asin", "acos", "atan", "sinh", "cosh", "tanh", "cot", "sec", "csc", "Abs", "re", "im",
    "conjugate", "sign", "arg", "floor", "ceiling", "gamma", "factorial", "erf", "zeta", "LambertW",
    "DiracDelta", "Heaviside", "sinc", "cbrt",
]
BINARY = ["Max", "Min", "Mod", "atan2", "KroneckerDelta", "besselj"]
CONSTS = ["pi", "E", "golden", "euler", "catalan", "zoo", "oo", "nan"]
BLOCKS = ["piecewise", "derivative", "uderivative", "subs", "integral", "sum", "product", "order", "indexed", "element"]
TABLE = ["add", "mul", "div", "sub", "pow", "cos", "sin", "exp", "sqrt", "tan"]


def build(e, positive=()):
    t = e[0]
    if t == "s":
        return sympy.Symbol(e[1], positive=True) if e[1] in positive else sympy.Symbol(e[1])
    if t == "i":
        return sympy.Integer(int(e[1]))
    if t == "f":
        return sympy.Float(e[1])
    if t == "r":
        return sympy.Rational(int(e[1]), int(e[2]))
    if t == "I":
        return sympy.I
    if t == "odd":
        return odd(e[1], [build(x, positive) for x in e[2]])
    a = [build(x, positive) for x in e[1:]]
    if t == "add":
        return functools.reduce(lambda p, q: p + q, a)
    if t == "mul":
        return functools.reduce(lambda p, q: p * q, a)
    if t == "sub":
        return a[0] - a[1]
    if t == "div":
        return a[0] / a[1]
    if t == "neg":
        return -a[0]
    if t == "pow":
        return a[0] ** a[1]
    if t == "Add":
        return sympy.Add(*a, evaluate=False)
    if t == "Mul":
        return sympy.Mul(*a, evaluate=False)
    if t == "Pow":
        return sympy.Pow(*a, evaluate=False)
    if t == "Div":
        return sympy.Mul(a[0], sympy.Pow(a[1], -1, evaluate=False), evaluate=False)
    if t == "Sub":
        return sympy.Add(a[0], sympy.Mul(-1, a[1], evaluate=False), evaluate=False)
    if t == "Fun":
        return getattr(sympy, e[1])(build(e[2], positive), evaluate=False)
    return getattr(sympy, t)(a[0])


def built(case, ctx):
    positive = case.get("pos", ())
    with lib.limit(3, ctx):
        try:
            e = build(case["e"], positive)
            for p in case.get("post", ()):
                if p == "expand":
                    e = sympy.expand(e)
                elif p == "together":
                    e = sympy.together(e)
                elif p == "diff":
                    e = sympy.diff(e, sympy.Symbol("x"))
                elif p == "swap":
                    e = e.subs(sympy.Symbol("x"), sympy.Symbol("y") - sympy.Symbol("x"))
                elif p == "number":
                    e = e.subs(sympy.Symbol("y"), sympy.Rational(-3, 2))
            ok = sympy.count_ops(e) <= 400 and tame(e)
        except (Skip, MemoryError):
            raise
        except Exception:  # sympy does not make an expression of it
            raise Skip()
        if not ok:
            raise Skip()
    return e


def translated(e):
    tree = sympy_expressions.expression_from_sympy(e)
    return translations.translate_expression(tree, sympy_expressions.SYMPY_DIALECT)


def agree(e, out, envs):
    """Compare values; number of assignments which decided."""
    if out is None:
        require(False, lambda: "%s became None" % (e,))
    try:
        out = sympy.sympify(out)
    except Exception as ex:
        require(False, lambda: "%s became %r, which is no expression: %s" % (e, out, ex))
    n = 0
    for env in envs:
        try:
            v, err = value(e, env)
        except Singular:
            continue
        if err > 1e-6 * max(1, abs(v)):
            continue
        try:
            w = plain(out, env)
        except (ArithmeticError, ValueError):
            w = mpmath.nan
        except KeyError as ex:
            require(False, lambda: "%s became %s with the new symbol %s" % (e, out, ex))
        n += 1
        require(
            abs(v - w) <= 1000 * err + 1e-300,
            lambda: "%s became %s: %s instead of %s at %s" % (e, out, w, v, env),
        )
    return n


def check_values(case, ctx):
    e = built(case, ctx)
    if not supported(e):
        ctx.label("constant" if e.has(sympy.NumberSymbol) else "rewritten")
        raise Skip()
    envs = [dict(zip(NAMES, v)) for v in case["envs"]]
    for env in envs:
        for s in case.get("pos", ()):
            v = env[s]
            env[s] = abs(v[0] if isinstance(v, list) else v) + 0.5
    with mpmath.workdps(60):
        try:
            known = [value(e, env) for env in envs[:1]]
        except Singular:
            known = None
        if known is None:
            for env in envs[1:]:
                try:
                    known = [value(e, env)]
                    break
                except Singular:
                    pass
        if known is None:
            raise Skip()
        with lib.limit(3, ctx):
            before = sympy.srepr(e)
            out = translated(e)
            require(sympy.srepr(e) == before, "the expression was modified")
            n = agree(e, out, envs)
    shapes = set()
    for x in sympy.preorder_traversal(e):
        if isinstance(x, sympy.Pow):
            shapes.add("reciprocal" if x.args[1] == -1 else "sqrt" if x.args[1] == 0.5 else "pow")
        elif isinstance(x, sympy.Add):
            if any(isinstance(a, sympy.Mul) and a.args and a.args[0].is_negative for a in x.args):
                shapes.add("negation")
            shapes.add("sum of %s" % min(len(x.args), 3))
        elif isinstance(x, sympy.Mul):
            shapes.add("product of %s" % min(len(x.args), 3))
        elif x.args:
            shapes.add(type(x).__name__)
    for s in shapes:
        ctx.label(s)
    ctx.nontrivial(n > 0 and len(shapes) >= 2 and bool(e.free_symbols))


# ---------------------------------------------------------- refused constructs


def check_refused(case, ctx):
    e = built(case, ctx)
    if not isinstance(e, sympy.Basic) or supported(e):
        raise Skip()
    envs = [dict(zip(NAMES, v)) for v in case["envs"]]
    with mpmath.workdps(60), lib.limit(3, ctx):
        try:
            out = translated(e)
        except Skip:
            raise
        except Exception as ex:
            ctx.label(type(ex).__name__)
            ctx.nontrivial(True)
            return
        ctx.label("translated")
        if isinstance(out, sympy.Basic) and out == e:
            return
        try:
            agree(e, out, envs)
        except Unknown as ex:
            infinite = (sympy.oo, -sympy.oo, sympy.nan, sympy.zoo)
            if e.has(*infinite) and sympy.sympify(out).has(*infinite):
                return  # infinite before and after
            require(False, lambda: "%s has the unsupported construct %s but became %s" % (e, ex, out))


def check_other(case, ctx):
    """Things which are no expressions at all, and unknown functions in a tree."""
    things = {
        "None": None,
        "str": "x",
        "list": [1, 2],
        "dict": {},
        "relation": sympy.Symbol("x") < 1,
        "equation": sympy.Eq(sympy.Symbol("x"), 1),
        "true": sympy.true,
        "and": sympy.And(sympy.Symbol("x"), sympy.Symbol("y")),
        "set": sympy.FiniteSet(1, 2),
        "interval": sympy.Interval(0, 1),
        "matrix": sympy.Matrix([[1, 2], [3, 4]]),
        "matrixsymbol": sympy.MatrixSymbol("M", 2, 2),
        "lambda": sympy.Lambda(sympy.Symbol("x"), sympy.Symbol("x")),
        "object": object(),
        "class": sympy.cos,
        "undefined": sympy.Function("f"),
    }
    fc, sym = expressions.FunctionCall, expressions.Symbol
    if case["how"] == "sympy":
        x = things[case["what"]]
        try:
            out = translated(x)
        except Exception:
            ctx.nontrivial(True)
            return
        require(False, lambda: "%r was translated to %r" % (x, out))
    if case["how"] == "leaf":
        bad = things[case["what"]]
    else:
        bad = fc(case["name"], (sym("x"),) * case["arity"])
    tree = bad
    for name, side in case["around"]:
        other = sym("y")
        two = name in ("add", "mul", "div", "sub", "pow")
        tree = fc(name, ((tree, other) if side else (other, tree)) if two else (tree,))
    try:
        out = translations.translate_expression(tree, sympy_expressions.SYMPY_DIALECT)
    except Exception:
        ctx.nontrivial(True)
        return
    require(False, lambda: "%r was translated to %r" % (tree, out))


# ------------------------------------------------------------- natural ordering


def groups(name):
    out = [""]
    digits = False
    for c in name:
        if c.isdecimal() != digits:
            out.append("")
            digits = not digits
        out[-1] += c
    if digits:
        out.append("")
    return [int(g) if i % 2 else g for i, g in enumerate(out)]


def compare(a, b):
    for x, y in zip(a, b):
        if x != y:
            return -1 if x < y else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def check_order(case, ctx):
    names = case["names"]
    make = sympy.Symbol if case["sympy"] else expressions.Symbol
    syms = [make(n) for n in names]
    for key, rev in ((natural_key, False), (natural_key_revlex, True)):
        keys = [key(s) for s in syms]
        ref = [groups(n)[::-1] if rev else groups(n) for n in names]
        for i in range(len(names)):
            for j in range(len(names)):
                c = compare(ref[i], ref[j])
                got = -1 if keys[i] < keys[j] else 1 if keys[j] < keys[i] else 0
                require(
                    got == c,
                    lambda: "%s: %r is %s %r, should be %s"
                    % (key.__name__, names[i], "=<>"[got], names[j], "=<>"[c]),
                )
        got = [s.name for s in sorted(syms, key=key)]
        want = [names[i] for i in sorted(range(len(names)), key=functools.cmp_to_key(lambda i, j: compare(ref[i], ref[j])))]
        require(got == want, lambda: "sorted by %s: %s, should be %s" % (key.__name__, got, want))
    by_text = sorted(names)
    by_number = sorted(names, key=functools.cmp_to_key(lambda a, b: compare(groups(a), groups(b))))
    ctx.nontrivial(by_text != by_number)


# ------------------------------------------------------------------ strategies

pool = st.sampled_from(NAMES)
ints = st.one_of(
    st.integers(-4, 4), st.integers(-4, 4), st.integers(-30, 30), st.integers(-(10**20), 10**20)
)
floats = st.one_of(
    st.sampled_from([0.5, -0.5, -1.0, 1.0, 2.0, -2.0, 0.1, 1e-3]),
    st.floats(-10, 10, allow_nan=False).map(lambda x: round(x, 6)),
    st.floats(1e-5, 1e5),
)
rationals = st.one_of(
    st.sampled_from([[1, 2], [-1, 2], [1, 3], [-1, 3], [3, 2], [-3, 2], [2, 3]]),
    st.tuples(st.integers(-20, 20), st.integers(1, 20)).map(list),
)
leaf = st.one_of(
    pool.map(lambda s: ["s", s]),
    pool.map(lambda s: ["s", s]),
    st.sampled_from(["x", "y"]).map(lambda s: ["s", s]),
    ints.map(lambda i: ["i", i]),
    rationals.map(lambda r: ["r", *r]),
    floats.map(lambda f: ["f", f]),
    st.just(["I"]),
)
exponents = st.one_of(
    st.sampled_from([["i", -1], ["i", -1], ["i", -2], ["i", 2], ["i", 3], ["r", 1, 2], ["r", -1, 2], ["f", 0.5],
                     ["f", -1.0], ["r", 1, 3], ["r", -3, 2], ["f", 2.0], ["I"], ["f", -0.5], ["i", 0], ["i", 1]]),
    rationals.map(lambda r: ["r", *r]),
)
minus = st.sampled_from([["i", -1], ["f", -1.0], ["i", -1], ["i", -2], ["r", -1, 2]])


def grammar(raw):
    def ext(ch):
        def many(t):
            return st.lists(ch, min_size=2, max_size=4).map(lambda a: [t, *a])

        def two(t):
            return st.tuples(st.just(t), ch, ch).map(list)

        out = [
            many("add"),
            many("mul"),
            two("sub"),
            two("sub"),
            two("div"),
            two("div"),
            st.tuples(st.just("neg"), ch).map(list),
            st.tuples(st.just("pow"), ch, exponents).map(list),
            two("pow"),
            st.tuples(st.just("sqrt"), ch).map(list),
            st.tuples(st.sampled_from(["sin", "cos", "tan", "exp"]), ch).map(list),
            # x + (-1) * y and x * (1 / y) with the operands in any order
            st.tuples(ch, minus, ch).map(lambda a: ["add", a[0], ["mul", a[1], a[2]]]),
            st.tuples(ch, exponents, ch).map(lambda a: ["mul", a[0], ["pow", a[2], a[1]]]),
        ]
        if raw:
            out += [
                many("Add"),
                many("Mul"),
                two("Sub"),
                two("Div"),
                st.tuples(st.just("Pow"), ch, exponents).map(list),
                st.tuples(ch, minus, ch).map(lambda a: ["Add", a[0], ["Mul", a[1], a[2]]]),
                st.tuples(ch, minus, ch).map(lambda a: ["Add", ["Mul", a[1], a[2]], a[0]]),
                st.tuples(ch, minus, ch).map(lambda a: ["Add", a[0], ["Mul", a[2], a[1]]]),
                st.tuples(ch, exponents, ch).map(lambda a: ["Mul", a[0], ["Pow", a[2], a[1]]]),
                st.tuples(ch, exponents, ch).map(lambda a: ["Mul", ["Pow", a[2], a[1]], a[0]]),
                st.tuples(st.sampled_from(["sin", "cos", "tan", "exp"]), ch).map(lambda a: ["Fun", *a]),
            ]
        return st.one_of(*out)

    return st.recursive(leaf, ext, max_leaves=10)


AUTO, RAW = grammar(False), grammar(True)
number = st.one_of(
    st.integers(-3, 3).map(float),
    st.floats(-4, 4).map(lambda x: round(x, 4)),
    st.floats(0.1, 3).map(lambda x: round(x, 4)),
)
point = st.lists(
    st.one_of(number, number, st.tuples(number, number).map(list)), min_size=len(NAMES), max_size=len(NAMES)
)


@st.composite
def value_cases(draw):
    raw = draw(st.sampled_from([False, True]))
    e = draw(RAW if raw else AUTO)
    depth = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 12, 40]))
    for _ in range(depth):
        e = draw(
            st.sampled_from(
                [
                    ["cos", e],
                    ["sin", e],
                    ["sub", ["s", "y"], e],
                    ["sub", e, ["s", "x"]],
                    ["sqrt", ["add", e, ["i", 3]]],
                    ["div", ["s", "x"], ["add", ["i", 2], e]],
                    ["mul", ["r", 1, 3], e],
                ]
            )
        )
    return {
        "e": e,
        "post": [] if raw or depth else draw(
            st.sampled_from([[], [], [], ["expand"], ["together"], ["diff"], ["swap"], ["number"], ["swap", "expand"]])
        ),
        "pos": draw(st.sampled_from([[], [], [], ["x"], ["x", "y"]])) if raw else [],
        "envs": draw(st.lists(point, min_size=2, max_size=3)),
    }


@st.composite
def refused_cases(draw):
    group = draw(st.sampled_from([UNARY, UNARY, BINARY, CONSTS, BLOCKS, "undef", "undef", "class"]))
    small = st.recursive(leaf, lambda ch: st.tuples(st.sampled_from(["add", "mul", "sub"]), ch, ch).map(list), max_leaves=3)
    if isinstance(group, str):
        name = draw(st.sampled_from(TABLE + ["f", "log", "Symbol", "number"]))
        k = 2 if name in TABLE[:5] and draw(st.booleans()) else draw(st.sampled_from([1, 1, 2, 3]))
        kind = "%s:%s" % (group, name)
    else:
        kind, k = draw(st.sampled_from(group)), 2
    e = ["odd", kind, [draw(small) for _ in range(k)]]
    for _ in range(draw(st.integers(0, 4))):
        o = draw(leaf)
        t = draw(st.sampled_from(["add", "sub", "rsub", "mul", "div", "rdiv", "pow", "rpow", "sqrt", "cos", "exp", "neg"]))
        if t in ("rsub", "rdiv", "rpow"):
            e = [t[1:], o, e]
        elif t in ("sqrt", "cos", "exp", "neg"):
            e = [t, e]
        else:
            e = [t, e, o]
    return {"e": e, "envs": draw(st.lists(point, min_size=2, max_size=2))}


WHAT = ["None", "str", "list", "dict", "relation", "equation", "true", "and", "set", "interval", "matrix",
        "matrixsymbol", "lambda", "object", "class", "undefined"]
around = st.lists(st.tuples(st.sampled_from(TABLE), st.booleans()).map(list), max_size=4)
other_cases = st.one_of(
    st.fixed_dictionaries({"how": st.just("sympy"), "what": st.sampled_from(WHAT)}),
    st.fixed_dictionaries({"how": st.just("leaf"), "what": st.sampled_from(WHAT), "around": around}),
    st.fixed_dictionaries(
        {
            "how": st.just("call"),
            "name": st.sampled_from(["foo", "log", "Cos", "COS", "", "asin", "neg", "cosh", "sum", "add ", "Symbol", "__add__"]),
            "arity": st.integers(1, 3),
            "around": around,
        }
    ),
)

text_part = st.one_of(
    st.sampled_from(["beta_", "theta_", "a", "b", "_", "", "x", "²", "½", "A", " ", "-", ".", "Ⅷ", "é", "+"]),
    st.text(max_size=3),
)
digit_part = st.one_of(
    st.integers(0, 25).map(str),
    st.integers(0, 10**30).map(str),
    st.sampled_from(["0", "00", "01", "007", "10", "2", "٣", "१२", "9" * 20, "1" + "0" * 20]),
)
name = st.one_of(
    st.tuples(text_part, digit_part).map("".join),
    st.tuples(text_part, digit_part, text_part, digit_part).map("".join),
    st.tuples(digit_part, text_part, digit_part).map("".join),
    st.lists(st.one_of(text_part, digit_part), min_size=1, max_size=5).map("".join),
    st.tuples(st.sampled_from(["beta_", "theta_"]), st.integers(0, 30).map(str)).map("".join),
)
order_cases = st.fixed_dictionaries(
    {"names": st.lists(name, min_size=2, max_size=6, unique=True), "sympy": st.booleans()}
)

# ----------------------------------------------- many operands, deep nesting

UNARY_OK = ["cos", "sin", "exp", "sqrt", "tan"]


def rng_leaf(rng):
    x = rng.random()
    if x < 0.55:
        return ["s", rng.choice(NAMES)]
    if x < 0.7:
        return ["i", rng.choice([-3, -2, -1, 2, 3, 5, 7, rng.randint(-10**6, 10**6)])]
    if x < 0.82:
        return ["r", rng.choice([-1, 1, 2, 3, -5]), rng.choice([2, 3, 7])]
    if x < 0.97:
        return ["f", rng.choice([0.5, -0.25, round(rng.uniform(-5, 5), 4), rng.uniform(-5, 5)])]
    return ["I"]


def rng_small(rng, raw, depth=2):
    if depth == 0 or rng.random() < 0.25:
        return rng_leaf(rng)
    t = rng.choice(["add", "mul", "sub", "div", "neg", "pow", "fun", "sub", "div"])
    a = rng_small(rng, raw, depth - 1)
    if t == "neg":
        return ["neg", a]
    if t == "fun":
        return [rng.choice(UNARY_OK), a]
    if t == "pow":
        return ["pow", a, rng.choice([["i", 2], ["i", -1], ["i", -2], ["i", 3], ["r", 1, 2], ["r", -1, 2], ["f", 0.5]])]
    b = rng_small(rng, raw, depth - 1)
    return [t.capitalize() if raw and rng.random() < 0.5 else t, a, b]


def rng_wide(rng, raw, k):
    """A sum or product of k operands."""
    t = rng.choice(["add", "add", "mul"])
    out = []
    for _ in range(k):
        x = rng_small(rng, raw, rng.choice([0, 1, 1, 2]))
        r = rng.random()
        if t == "add" and r < 0.3:
            x = ["mul", ["i", -1], x]
        elif t == "mul" and r < 0.3:
            x = ["pow", x, rng.choice([["i", -1], ["i", -1], ["i", -2], ["r", -1, 2]])]
        out.append(x)
        if rng.random() < 0.1:
            out.append(x)
    return [t.capitalize() if raw else t, *out]


def rng_deep(rng, raw, e, depth):
    for _ in range(depth):
        o = rng_leaf(rng)
        t = rng.choice(["add", "radd", "sub", "rsub", "mul", "rmul", "div", "rdiv", "fun", "sqrt", "mix"])
        if t == "fun":
            e = [rng.choice(["cos", "sin"]), e]
        elif t == "sqrt":
            e = ["sqrt", ["add", e, ["i", 7]]]
        elif t == "mix":
            e = ["add", ["mul", o, e], ["div", rng_leaf(rng), ["add", e, ["i", 5]]]] if rng.random() < 0.15 else ["sub", ["cos", e], o]
        else:
            a, b = (o, e) if t[0] == "r" else (e, o)
            name = t[1:] if t[0] == "r" else t
            e = [name.capitalize() if raw and rng.random() < 0.5 else name, a, b]
    return e


def rng_point(rng):
    return [
        round(rng.uniform(-4, 4), 4) if rng.random() < 0.75 else [round(rng.uniform(-2, 2), 3), round(rng.uniform(-2, 2), 3)]
        for _ in NAMES
    ]


def rng_values(seed):
    rng = random.Random(seed)
    raw = rng.random() < 0.5
    e = rng_wide(rng, raw, rng.choice([5, 8, 15, 30, 60])) if rng.random() < 0.7 else rng_small(rng, raw, 4)
    e = rng_deep(rng, raw, e, rng.choice([0, 0, 1, 3, 10, 25]))
    return {"e": e, "post": [], "pos": [], "envs": [rng_point(rng) for _ in range(3)]}


def rng_refused(seed):
    rng = random.Random(seed)
    kind = rng.choice(UNARY + BINARY + CONSTS + BLOCKS + ["undef:f", "undef:cos", "undef:add", "class:exp", "undef:sqrt"])
    e = ["odd", kind, [rng_small(rng, False, 1) for _ in range(2)]]
    for _ in range(rng.randint(1, 2)):
        e = rng_deep(rng, False, e, rng.choice([0, 1, 3, 8]))
        w = rng_wide(rng, False, rng.choice([3, 8, 20]))
        w.insert(rng.randint(1, len(w)), e)
        e = w
    return {"e": e, "envs": [rng_point(rng) for _ in range(2)]}


def rng_order(seed):
    rng = random.Random(seed)
    stems = rng.sample(["beta_", "theta_", "a", "b", "_", "", "x", "²", "A", " ", "-", "é"], 4)
    names = set()
    while len(names) < rng.choice([8, 25, 60]):
        parts = []
        for _ in range(rng.randint(1, 4)):
            parts.append(rng.choice(stems))
            if rng.random() < 0.85:
                parts.append(rng.choice([str(rng.randint(0, 12)), str(rng.randint(0, 300)), "0%d" % rng.randint(0, 12), str(rng.randint(0, 10**25))]))
        names.add("".join(parts))
    names.discard("")
    names = sorted(names)
    rng.shuffle(names)
    return {"names": names, "sympy": rng.random() < 0.5}


def big(f):
    return st.builds(f, st.integers(0, 10**9))


FACETS = [
    Facet("values", check_values, ">=2 kinds of node, a symbol, >=1 assignment compared", value_cases(), quick=4800, thorough=300000, shard=150),
    Facet("refused", check_refused, "refused", refused_cases(), quick=3000, thorough=60000, shard=250),
    Facet("other", check_other, "refused", other_cases, quick=600, thorough=3000, shard=200),
    Facet("order", check_order, "the natural order is not the order of the texts", order_cases, quick=4000, thorough=60000, shard=500),
    Facet("values-large", check_values, ">=2 kinds of node, a symbol, >=1 assignment compared", big(rng_values), quick=400, thorough=15000, shard=25),
    Facet("refused-large", check_refused, "refused", big(rng_refused), quick=300, thorough=8000, shard=25),
    Facet("order-large", check_order, "the natural order is not the order of the texts", big(rng_order), quick=100, thorough=3000, shard=13),
]
