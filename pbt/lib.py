"""Interpret recipes into objects of the library under test (public API only)."""
import contextlib
import math
import signal

import numpy as np
import sympy
import orquestra.quantum.circuits as oc
from orquestra.quantum.circuits import Circuit, CustomGateDefinition

from . import oracle
from .core import HarnessError, Skip
from .core import TooSlow as _TooSlow


@contextlib.contextmanager
def limit(seconds, ctx=None):
    """Give up on a case whose evaluation takes too long (counted as skipped)."""

    def stop(*_):
        raise _TooSlow()

    old = signal.signal(signal.SIGALRM, stop)
    # repeated: an exception raised inside a callback (e.g. of gc) is swallowed
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.2)
    try:
        yield
    except _TooSlow:
        if ctx is not None:
            ctx.label("too-slow")
        raise Skip()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def expr(e):
    """Recipe -> python number or sympy expression."""
    if isinstance(e, (int, float)):
        return e
    t = e[0]
    if t == "s":
        return sympy.Symbol(e[1])
    if t == "i":
        return sympy.Integer(e[1])
    if t == "f":
        return sympy.Float(e[1])
    if t == "np":
        return np.float64(e[1])
    if t == "npi":
        return np.int64(e[1])
    if t == "r":
        return sympy.Rational(e[1], e[2])
    if t == "pi":
        return sympy.pi
    if t == "I":
        return sympy.I
    if t == "c":
        return complex(e[1], e[2])
    if t == "ffn":
        return sympy.Function(e[1])(*[sympy.sympify(expr(x)) for x in e[2:]])
    a = [sympy.sympify(expr(x)) for x in e[1:]]
    if t == "add":
        return sympy.Add(*a)
    if t == "mul":
        return sympy.Mul(*a)
    if t == "sub":
        return a[0] - a[1]
    if t == "div":
        return a[0] / a[1]
    if t == "neg":
        return -a[0]
    if t == "pow":
        return a[0] ** a[1]
    if t in ("sqrt", "sin", "cos", "tan", "exp"):
        return getattr(sympy, t)(*a)
    raise HarnessError("expr %r" % (e,))


def num(m):
    """Any matrix/vector of numbers (sympy or numpy) -> complex ndarray."""
    if isinstance(m, sympy.MatrixBase):
        return _each(m, cnum)
    a = np.asarray(m)
    if a.dtype == object:
        return np.array([cnum(x) for x in a.ravel()], dtype=complex).reshape(a.shape)
    return a.astype(complex)


def cnum(x):
    if isinstance(x, sympy.Basic):
        try:
            return complex(x)
        except TypeError:
            return complex(sympy.N(x))
    return complex(x)


def _each(m, f):
    """f of every entry of a sympy matrix; equal entries are evaluated once."""
    memo, out = {}, np.zeros(m.shape, dtype=complex)
    for i, row in enumerate(m.tolist()):
        for j, x in enumerate(row):
            key = (type(x), x)
            if key not in memo:
                memo[key] = f(x)
            out[i, j] = memo[key]
    return out


def subs_num(m, env):
    """Substitute numbers for symbols, outside the library, then evaluate."""
    vals = {sympy.Symbol(k): v for k, v in env.items()}
    if isinstance(m, sympy.MatrixBase):
        return _each(
            m, lambda x: cnum(x.subs(vals, simultaneous=True) if x.free_symbols else x)
        )
    a = np.asarray(m)
    if a.dtype == object:
        out = [
            cnum(x.subs(vals, simultaneous=True)) if isinstance(x, sympy.Basic) else complex(x)
            for x in a.ravel()
        ]
        return np.array(out, dtype=complex).reshape(a.shape)
    return a.astype(complex)


# ---------------------------------------------------------------------- custom gates


def qr_unitary(n, seed):
    """A unitary; from seed 100 on one of special structure."""
    kind, seed = divmod(seed, 100)
    d = 2**n
    r = np.random.RandomState(seed)
    if kind == 4:
        return np.diag(np.exp(1j * np.round(r.uniform(-3, 3, size=d), 2)))
    if kind == 5:
        return np.diag(np.exp(0.5j * np.pi * r.randint(0, 4, size=d)))[r.permutation(d)]
    a = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)) * (kind not in (2, 6, 7))
    q, rr = np.linalg.qr(a)
    q = q * (np.diag(rr) / np.abs(np.diag(rr)))
    if kind == 1:  # symmetric
        return q @ q.T
    if kind in (3, 6):  # hermitian, complex or real
        u = (q * r.choice([1, -1], size=d)) @ q.conj().T
        return (u + u.conj().T) / 2
    if kind == 7:  # imaginary
        return 1j * q
    if kind == 8:  # acts on one half of the register's states only
        out = np.eye(d, dtype=complex)
        h = d // 2
        at = h * (seed % 2)
        out[at : at + h, at : at + h] = qr_unitary(n - 1, seed) if n > 1 else np.exp(1j * seed)
        return out
    if kind == 9:  # anti-hermitian
        u = (q * r.choice([1j, -1j], size=d)) @ q.conj().T
        return (u - u.conj().T) / 2
    return q


def raw_matrix(n, seed):
    """Small, well conditioned, neither unitary nor normal."""
    r = np.random.RandomState(seed)
    a = r.randint(-2, 3, size=(2**n, 2**n)) + 1j * r.randint(-2, 3, size=(2**n, 2**n))
    return np.triu(a, 1) * 0.5 + np.tril(a, -1) * 0.25 + np.diag(2 + np.arange(2**n) % 3)


def custom_def(c):
    """c = {"name":..., "kind":..., "n":..., "seed":..., "params":[names]}"""
    k = c["kind"]
    if k == "raw":
        m = sympy.Matrix(raw_matrix(c["n"], c["seed"]).tolist())
        return CustomGateDefinition(c["name"], m, ())
    if k == "qr":
        m = sympy.Matrix(qr_unitary(c["n"], c["seed"]).tolist())
        return CustomGateDefinition(c["name"], m, ())
    if k in FACTORY:
        n, hermitian, f, _ref = FACTORY[k]
        return lambda *ps: oc.MatrixFactoryGate(c["name"], f, ps, n, hermitian)
    names = c["params"]
    s = [sympy.Symbol(x) for x in names]
    m = symbolic_template(k, s)
    return CustomGateDefinition(c["name"], m, tuple(s))


def symbolic_template(k, s):
    I, ex = sympy.I, sympy.exp
    if k == "rot1":  # one parameter, one qubit
        (a,) = s
        return sympy.Matrix(
            [[sympy.cos(a), -sympy.sin(a)], [sympy.sin(a), sympy.cos(a)]]
        )
    if k == "ph2":  # two parameters, one qubit, asymmetric in them
        a, b = s
        return sympy.Matrix(
            [
                [sympy.cos(a), -ex(I * b) * sympy.sin(a)],
                [ex(-I * b) * sympy.sin(a), sympy.cos(a)],
            ]
        )
    if k == "diag2":  # two parameters, two qubits
        a, b = s
        return sympy.Matrix(
            [
                [0, ex(I * a), 0, 0],
                [1, 0, 0, 0],
                [0, 0, 0, ex(I * (a - 2 * b))],
                [0, 0, ex(I * b), 0],
            ]
        )
    if k == "tri2":  # three parameters, two qubits
        a, b, c = s
        return sympy.Matrix(
            [
                [ex(I * a * b), 0, 0, 0],
                [0, sympy.cos(c), 0, -sympy.sin(c)],
                [0, 0, ex(0.5 * I * a), 0],
                [0, sympy.sin(c), 0, sympy.cos(c)],
            ]
        )
    raise HarnessError(k)


def template_value(c, vals):
    """Independent numeric value of a custom gate recipe at parameter values."""
    k = c["kind"]
    if k == "qr":
        return qr_unitary(c["n"], c["seed"])
    if k == "raw":
        return raw_matrix(c["n"], c["seed"])
    if k in FACTORY:
        return FACTORY[k][3](*[complex(v).real for v in vals])
    cos, sin, e = math.cos, math.sin, oracle.ph
    if k == "rot1":
        (a,) = vals
        return np.array([[cos(a), -sin(a)], [sin(a), cos(a)]], dtype=complex)
    if k == "ph2":
        a, b = vals
        return np.array([[cos(a), -e(b) * sin(a)], [e(-b) * sin(a), cos(a)]])
    m = np.zeros((4, 4), dtype=complex)
    if k == "diag2":
        a, b = vals
        m[0, 1], m[1, 0], m[2, 3], m[3, 2] = e(a), 1, e(a - 2 * b), e(b)
        return m
    if k == "tri2":
        a, b, c_ = vals
        m[0, 0], m[2, 2] = e(a * b), e(0.5 * a)
        m[1, 1] = m[3, 3] = cos(c_)
        m[1, 3], m[3, 1] = -sin(c_), sin(c_)
        return m
    raise HarnessError(k)


# gates made directly from a function computing their matrix: qubits, self-adjoint,
# function, the same with numpy
_h4 = [[1, 0, 2, 0], [0, -1, 0, 1j], [2, 0, 3, 1], [0, -1j, 1, 0.5]]


def _f_none():
    return sympy.Matrix([[1, 2 * sympy.I], [-2 * sympy.I, 3]])


def _f_one(a):
    return sympy.Matrix([[a, 1], [1, -a / 2]])


def _f_two():
    return sympy.Matrix(_h4)


def _f_skew(a, b):
    return sympy.Matrix([[0, sympy.exp(sympy.I * a)], [sympy.exp(sympy.I * b), 0]])


FACTORY = {
    "f-none": (1, True, _f_none, lambda: np.array([[1, 2j], [-2j, 3]])),
    "f-one": (1, True, _f_one, lambda a: np.array([[a, 1], [1, -a / 2]], dtype=complex)),
    "f-two": (2, True, _f_two, lambda: np.array(_h4)),
    "f-skew": (
        1,
        False,
        _f_skew,
        lambda a, b: np.array([[0, oracle.ph(a)], [oracle.ph(b), 0]]),
    ),
}
FACTORY_PARAMS = {"f-none": 0, "f-one": 1, "f-two": 0, "f-skew": 2}

TEMPLATE_QUBITS = {"rot1": 1, "ph2": 1, "diag2": 2, "tri2": 2}
TEMPLATE_PARAMS = {"rot1": 1, "ph2": 2, "diag2": 2, "tri2": 3}

# ---------------------------------------------------------------------------- gates
# gate recipe: {"g": NAME, "p": [expr...]} | {"custom": def, "p": [...]} |
#              {"w": "dagger"|"exp"|"ctrl"|"pow", "k": int, "e": exponent, "of": gate}


def exponent(e):
    if isinstance(e, list):
        return sympy.Rational(e[1], e[2]) if e[0] == "r" else sympy.Integer(e[1])
    return e


_POWER = type(oc.T.power(3))  # the class is not exported


TINY_ROOTS = False  # whether roots of gates with tiny angles may be built


def gate(r):
    if "g" in r:
        ref = getattr(oc, r["g"])
        return ref(*[expr(p) for p in r["p"]]) if r.get("p") else ref
    if "custom" in r:
        return custom_def(r["custom"])(*[expr(p) for p in r.get("p", [])])
    inner = gate(r["of"])
    w = r["w"]
    if w == "pow" and not TINY_ROOTS and isinstance(exponent(r["e"]), (float, sympy.Rational)):
        # what sympy makes of such a root is C07's known finding, decided there
        if any(isinstance(p, float) and 0 < abs(p) < 1e-90 for p in base(r).get("p") or []):
            raise Skip()
    if r.get("direct"):
        # the wrapper built directly rather than by the method of the gate
        if w == "ctrl":
            return oc.ControlledGate(inner, r["k"])
        if w == "pow":
            return _POWER(inner, exponent(r["e"]))
        return {"dagger": oc.Dagger, "exp": oc.Exponential}[w](inner)
    if w == "dagger":
        return inner.dagger
    if w == "exp":
        return inner.exp
    if w == "ctrl":
        return inner.controlled(r["k"])
    if w == "pow":
        return inner.power(exponent(r["e"]))
    raise HarnessError(w)


def arity(r):
    if "g" in r:
        return oracle.GATES[r["g"]][1]
    if "custom" in r:
        c = r["custom"]
        if c["kind"] in FACTORY:
            return FACTORY[c["kind"]][0]
        return c["n"] if c["kind"] in ("qr", "raw") else TEMPLATE_QUBITS[c["kind"]]
    return arity(r["of"]) + (r["k"] if r["w"] == "ctrl" else 0)


def base(r):
    while "of" in r:
        r = r["of"]
    return r


def gate_symbols(r):
    out = set()
    for p in base(r).get("p", []) or []:
        oracle.expr_symbols(p, out)
    return out


def ref_base_matrix(r, env):
    vals = [oracle.eval_expr(p, env) for p in r.get("p", []) or []]
    if "g" in r:
        return np.asarray(oracle.GATES[r["g"]][2](*vals), dtype=complex)
    return template_value(r["custom"], vals)


def ref_gate_matrix(r, env=None):
    """Reference matrix by textbook definitions; power/exp via scipy (principal)."""
    import scipy.linalg as sl

    env = env or {}
    if "of" not in r:
        return ref_base_matrix(r, env)
    m = ref_gate_matrix(r["of"], env)
    w = r["w"]
    if w == "dagger":
        return m.conj().T
    if w == "ctrl":
        return oracle.controlled(m, r["k"])
    if w == "exp":
        return sl.expm(m)
    e = float(exponent(r["e"]))
    if e == int(e):
        return np.linalg.matrix_power(m, int(e))
    return sl.fractional_matrix_power(m, e)


def op(o):
    """{"gate": recipe, "q": [...]} or {"phase": [params]} or {"reset": q}"""
    if "phase" in o:
        return oc.MultiPhaseOperation(tuple(expr(p) for p in o["phase"]))
    if "reset" in o:
        return oc.ResetOperation(o["reset"])
    return gate(o["gate"])(*o["q"])


def circuit(c):
    """{"n": width or None, "ops": [...]}"""
    return Circuit([op(o) for o in c["ops"]], n_qubits=c["n"])
