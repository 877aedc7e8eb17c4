"""Independent numpy reference semantics.  No code of the library is used here."""
import cmath
import math

import numpy as np
import scipy.linalg

I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PAULI = {"I": I2, "X": PX, "Y": PY, "Z": PZ}


def kron(*ms):
    out = np.eye(1, dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def rot(gen, a):
    """exp(-i a/2 gen) for an involutive generator."""
    return math.cos(a / 2) * np.eye(len(gen)) - 1j * math.sin(a / 2) * gen


def ph(a):
    return cmath.exp(1j * a)


_H = (PX + PZ) / math.sqrt(2)


def _gpi(t):
    return np.array([[0, ph(-t)], [ph(t), 0]])


def _ms(a, b):
    m = np.eye(4, dtype=complex)
    m[0, 3] = -1j * ph(-(a + b))
    m[1, 2] = -1j * ph(-(a - b))
    m[2, 1] = -1j * ph(a - b)
    m[3, 0] = -1j * ph(a + b)
    return m / math.sqrt(2)


def _xy(a):
    m = np.eye(4, dtype=complex)
    m[1, 1] = m[2, 2] = math.cos(a / 2)
    m[1, 2] = m[2, 1] = 1j * math.sin(a / 2)
    return m


SWAP = np.eye(4)[[0, 2, 1, 3]].astype(complex)

GATES = {
    # name: (number of parameters, number of qubits, matrix function)
    "X": (0, 1, lambda: PX),
    "Y": (0, 1, lambda: PY),
    "Z": (0, 1, lambda: PZ),
    "H": (0, 1, lambda: _H),
    "I": (0, 1, lambda: I2),
    "S": (0, 1, lambda: np.diag([1, 1j])),
    "SX": (0, 1, lambda: np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2),
    "T": (0, 1, lambda: np.diag([1, ph(math.pi / 4)])),
    "RX": (1, 1, lambda a: rot(PX, a)),
    "RY": (1, 1, lambda a: rot(PY, a)),
    "RZ": (1, 1, lambda a: rot(PZ, a)),
    "RH": (1, 1, lambda a: ph(a / 2) * rot(_H, a)),
    "PHASE": (1, 1, lambda a: np.diag([1, ph(a)])),
    "U3": (
        3,
        1,
        lambda t, p, l: ph((p + l) / 2) * rot(PZ, p) @ rot(PY, t) @ rot(PZ, l),
    ),
    "GPi": (1, 1, _gpi),
    "GPi2": (1, 1, lambda t: (I2 - 1j * _gpi(t)) / math.sqrt(2)),
    "CNOT": (0, 2, lambda: scipy.linalg.block_diag(I2, PX)),
    "CZ": (0, 2, lambda: np.diag([1, 1, 1, -1]).astype(complex)),
    "SWAP": (0, 2, lambda: SWAP),
    "ISWAP": (0, 2, lambda: SWAP * np.array([1, 1j, 1j, 1])),
    "CPHASE": (1, 2, lambda a: np.diag([1, 1, 1, ph(a)])),
    "XX": (1, 2, lambda a: rot(kron(PX, PX), a)),
    "YY": (1, 2, lambda a: rot(kron(PY, PY), a)),
    "ZZ": (1, 2, lambda a: rot(kron(PZ, PZ), a)),
    "XY": (1, 2, _xy),
    "MS": (2, 2, _ms),
    "Delay": (1, 1, lambda a: I2),
}

HERMITIAN = {"X", "Y", "Z", "H", "I", "GPi", "CNOT", "CZ", "SWAP", "Delay"}


def apply_op(psi, u, qubits, n):
    """u (2^k x 2^k) on the listed qubits of a state (or a matrix of column states)."""
    k = len(qubits)
    psi = np.asarray(psi, dtype=complex)
    tail = psi.shape[1:]
    t = psi.reshape((2,) * n + (-1,))
    g = np.asarray(u, dtype=complex).reshape((2,) * (2 * k))
    t = np.tensordot(g, t, axes=(list(range(k, 2 * k)), list(qubits)))
    t = np.moveaxis(t, list(range(k)), list(qubits))
    return t.reshape((2**n,) + tail)


def embed(u, qubits, n):
    return apply_op(np.eye(2**n, dtype=complex), u, qubits, n)


def circuit_matrix(ops, n):
    """ops: list of (matrix, qubits) in program order."""
    m = np.eye(2**n, dtype=complex)
    for u, q in ops:
        m = apply_op(m, u, q, n)
    return m


def controlled(u, k):
    d = len(u)
    return scipy.linalg.block_diag(np.eye(d * 2**k - d), u).astype(complex)


def bits(i, n):
    return tuple((i >> (n - 1 - q)) & 1 for q in range(n))


def index(bs):
    i = 0
    for b in bs:
        i = 2 * i + b
    return i


def pauli_string(ops, n, coeff=1.0):
    """ops: dict qubit -> letter."""
    return coeff * kron(*[PAULI[ops.get(q, "I")] for q in range(n)])


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    d = np.abs(a - b)
    return bool(np.all(np.isfinite(a)) and d.max() <= tol * max(1.0, np.abs(b).max()))


def close_up_to_phase(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    k = np.argmax(np.abs(b))
    if abs(b.flat[k]) < 1e-12:
        return close(a, b, tol)
    p = a.flat[k] / b.flat[k]
    if abs(abs(p) - 1) > 1e-6:
        return False
    return close(a, p * b, tol)


# ------------------------------------------------------------- scalar expression trees


def eval_expr(e, env):
    """Value of an expression recipe (see lib.expr) under env: name -> number."""
    if isinstance(e, (int, float)):
        return e
    t = e[0]
    if t == "s":
        return env[e[1]]
    if t in ("i", "f", "np", "npi"):
        return e[1]
    if t == "r":
        return e[1] / e[2]
    if t == "pi":
        return math.pi
    if t == "I":
        return 1j
    if t == "c":
        return complex(e[1], e[2])
    a = [eval_expr(x, env) for x in e[1:]]
    if t == "add":
        r = a[0]
        for x in a[1:]:
            r = r + x
        return r
    if t == "mul":
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if t == "sub":
        return a[0] - a[1]
    if t == "div":
        return a[0] / a[1]
    if t == "neg":
        return -a[0]
    if t == "pow":
        return _pow(a[0], a[1])
    if t == "sqrt":
        return _real(cmath.sqrt(a[0]))
    f = {"sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan, "exp": cmath.exp}[t]
    return _real(f(a[0]))


def _real(z):
    return z.real if isinstance(z, complex) and z.imag == 0 else z


def _pow(a, b):
    if isinstance(b, int) or (isinstance(b, float) and b == int(b) and abs(b) < 1e6):
        return a ** int(b)
    if isinstance(b, complex) and b.imag == 0:
        return _pow(a, b.real)
    return _real(cmath.exp(b * cmath.log(a)))


def magnitude(e, env):
    """Size of the largest intermediate sums: scale for rounding error comparisons."""
    if isinstance(e, (int, float)):
        return abs(e)
    t = e[0]
    if t in ("s", "i", "f", "np", "npi", "r", "pi", "I", "c"):
        return abs(eval_expr(e, env))
    a = [magnitude(x, env) for x in e[1:]]
    if t in ("add", "sub"):
        return sum(a)
    if t == "mul":
        return math.prod(a)
    if t == "pow" and isinstance(e[2], list) and e[2][0] == "i" and e[2][1] >= 0:
        return a[0] ** e[2][1]
    if t in ("sin", "cos"):
        return 1 + a[0]
    if t == "neg":
        return a[0]
    if t == "div":
        return a[0] / max(abs(eval_expr(e[2], env)), 1e-300)
    return abs(eval_expr(e, env)) * (1 + sum(a))


def expr_symbols(e, acc=None):
    acc = set() if acc is None else acc
    if isinstance(e, list):
        if e[0] == "s":
            acc.add(e[1])
        else:
            for x in e[1:]:
                expr_symbols(x, acc)
    return acc
