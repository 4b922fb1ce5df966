"""Independent reference: a plain state-vector model with its own gate definitions."""
import cmath
import math

import numpy as np

I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PAULI = {"X": PX, "Y": PY, "Z": PZ, "I": I2}


def _exp_pauli(p, a):
    """exp(-i a/2 P) for an involutive P."""
    return math.cos(a / 2) * np.eye(len(p)) - 1j * math.sin(a / 2) * p


def euler(a, b, c, d):
    """General single-qubit unitary e^{ia} Rz(b) Ry(c) Rz(d)."""
    return cmath.exp(1j * a) * _exp_pauli(PZ, b) @ _exp_pauli(PY, c) @ _exp_pauli(PZ, d)


def rand_unitary(seed, n):
    """Deterministic pseudo-random 2^n unitary (QR of a complex Gaussian matrix)."""
    rs = np.random.RandomState(seed & 0x7FFFFFFF)
    m = rs.normal(size=(2**n, 2**n)) + 1j * rs.normal(size=(2**n, 2**n))
    q, r = np.linalg.qr(m)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def kron_lsb(mats):
    """Kronecker product with mats[0] on the least significant position."""
    out = np.array([[1.0 + 0j]])
    for m in mats:
        out = np.kron(m, out)
    return out


def qubit_op_matrix(terms, n):
    """terms: [[ [ [idx, 'X'], ... ], coeff ], ...] -> matrix on n qubits (qubit 0 = LSB)."""
    out = np.zeros((2**n, 2**n), dtype=complex)
    for term, c in terms:
        ms = [I2] * n
        for i, a in term:
            ms[i] = ms[i] @ PAULI[a]
        co = complex(*c) if isinstance(c, (list, tuple)) else c
        out += co * kron_lsb(ms)
    return out


def herm_exp(h, t):
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-1j * w * t)) @ v.conj().T


def qft_matrix(n):
    """The transform the library's QFT gate denotes: DFT with bit-reversed output order."""
    N = 2**n
    m = np.zeros((N, N), dtype=complex)
    for j in range(N):
        for k in range(N):
            rk = int(format(k, f"0{n}b")[::-1], 2) if n else 0
            m[rk, j] = cmath.exp(2j * math.pi * j * k / N) / math.sqrt(N)
    return m


def entangle_matrix(n):
    N = 2**n
    m = np.zeros((N, N), dtype=complex)
    for j in range(N):
        b0 = j & 1
        rest = j >> 1
        for v in (0, 1):
            amp = (1 if not (b0 and v) else -1) / math.sqrt(2)
            r2 = rest ^ ((2 ** (n - 1) - 1) if v else 0)
            m[(r2 << 1) | v, j] += amp
    return m


def ucr_matrix(angles, pauli, k):
    """Uniformly controlled rotation; bits 0..k-1 = control value, bit k = target."""
    N = 2 ** (k + 1)
    m = np.zeros((N, N), dtype=complex)
    for c in range(2**k):
        r = _exp_pauli(pauli, angles[c])
        for a in (0, 1):
            for b in (0, 1):
                m[c | (a << k), c | (b << k)] = r[a, b]
    return m


FIXED1 = {
    "H": np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2),
    "X": PX, "Y": PY, "Z": PZ,
    "S": np.diag([1, 1j]), "Sdag": np.diag([1, -1j]),
    "T": np.diag([1, cmath.exp(0.25j * math.pi)]), "Tdag": np.diag([1, cmath.exp(-0.25j * math.pi)]),
    "SqrtX": 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]),
    "SqrtXdag": 0.5 * np.array([[1 - 1j, 1 + 1j], [1 + 1j, 1 - 1j]]),
}
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
FIXED2 = {
    "Swap": SWAP,
    "SqrtSwap": np.array([[1, 0, 0, 0], [0, .5 + .5j, .5 - .5j, 0], [0, .5 - .5j, .5 + .5j, 0], [0, 0, 0, 1]]),
    "SqrtSwapdag": np.array([[1, 0, 0, 0], [0, .5 - .5j, .5 + .5j, 0], [0, .5 + .5j, .5 - .5j, 0], [0, 0, 0, 1]]),
}
ROT1 = {"Rx": PX, "Ry": PY, "Rz": PZ}
ROT2 = {"Rxx": np.kron(PX, PX), "Ryy": np.kron(PY, PY), "Rzz": np.kron(PZ, PZ)}


def gate_matrix(g, p, sizes):
    """Matrix of a named gate on quregs of the given sizes (first qubit of first qureg = LSB)."""
    n = sum(sizes)
    if g in FIXED1:
        return FIXED1[g]
    if g in FIXED2:
        return FIXED2[g]
    if g in ROT1:
        return _exp_pauli(ROT1[g], p[0])
    if g in ROT2:
        return _exp_pauli(ROT2[g], p[0])
    if g == "R":
        return np.diag([1, cmath.exp(1j * p[0])])
    if g == "Ph":
        return np.eye(2, dtype=complex) * cmath.exp(1j * p[0])
    if g == "Mat1":
        return euler(*p)
    if g == "MatN":
        return rand_unitary(p[0], n)
    if g == "QFT":
        return qft_matrix(n)
    if g == "QFTdag":
        return qft_matrix(n).conj().T
    if g == "Entangle":
        return entangle_matrix(n)
    if g == "UCRy":
        return ucr_matrix(p[0], PY, sizes[0])
    if g == "UCRz":
        return ucr_matrix(p[0], PZ, sizes[0])
    if g == "TimeEvolution":
        return herm_exp(qubit_op_matrix(p[1], n), p[0])
    if g == "QubitOp":
        return qubit_op_matrix(p[0], n)
    if g == "Barrier":
        return np.eye(2**n, dtype=complex)
    if g == "FlipBits":
        return kron_lsb([PX if (p[0] >> i) & 1 else I2 for i in range(n)])
    f = math_function(g, p, sizes)
    if f is not None:
        return math_matrix(f, sizes)
    raise KeyError(g)


def math_function(g, p, sizes):
    """Classical reversible map on register values, or None."""
    if g == "AddConstant":
        return lambda x: [(x[0] + p[0]) % 2 ** sizes[0]]
    if g == "SubConstant":
        return lambda x: [(x[0] - p[0]) % 2 ** sizes[0]]
    if g == "AddConstantModN":
        return lambda x: [(x[0] + p[0]) % p[1] if x[0] < p[1] else x[0]]
    if g == "SubConstantModN":
        return lambda x: [(x[0] - p[0]) % p[1] if x[0] < p[1] else x[0]]
    if g == "MultiplyByConstantModN":
        return lambda x: [(x[0] * p[0]) % p[1] if x[0] < p[1] else x[0]]
    if g == "AddQuantum":
        if len(sizes) == 2:
            return lambda x: [x[0], (x[0] + x[1]) % 2 ** sizes[1]]
        return lambda x: [x[0], (x[0] + x[1]) % 2 ** sizes[1], x[2] ^ (((x[0] + x[1]) >> sizes[1]) & 1)]
    if g == "SubtractQuantum":
        return lambda x: [x[0], (x[1] - x[0]) % 2 ** sizes[1]]
    if g == "ComparatorQuantum":
        # flips the third register's bit when the first value exceeds the second
        return lambda x: [x[0], x[1], x[2] ^ (1 if x[0] > x[1] else 0)]
    if g == "DivideQuantum":
        # (dividend, 0, divisor) -> (remainder, quotient, divisor)
        return lambda x: [x[0] % x[2], x[0] // x[2], x[2]] if x[2] and x[1] == 0 else list(x)
    if g == "MultiplyQuantum":
        return lambda x: [x[0], x[1], (x[2] + x[0] * x[1]) % 2 ** sizes[2]]
    return None


def math_matrix(f, sizes):
    n = sum(sizes)
    N = 2**n
    m = np.zeros((N, N), dtype=complex)
    for i in range(N):
        vals = []
        s = 0
        for k in sizes:
            vals.append((i >> s) & (2**k - 1))
            s += k
        out = f(list(vals))
        j = 0
        s = 0
        for k, v in zip(sizes, out):
            j |= (v & (2**k - 1)) << s
            s += k
        m[j, i] += 1
    return m


class RefError(Exception):
    """The reference itself rejects the step (illegal scenario step)."""


class Ref:
    """State vector over named qubits; names[i] is bit i."""

    def __init__(self):
        self.names = []
        self.v = np.array([1.0 + 0j])

    def copy(self):
        r = Ref()
        r.names = list(self.names)
        r.v = self.v.copy()
        return r

    def pos(self, q):
        return self.names.index(q)

    def alloc(self, q):
        if q in self.names:
            raise RefError(f"dup {q}")
        self.names.append(q)
        self.v = np.concatenate([self.v, np.zeros_like(self.v)])

    def apply(self, m, targets, controls=(), cstate=None):
        """m acts on targets (first = LSB); controls with 0/1 states."""
        n = len(self.names)
        if len(set(targets) | set(controls)) != len(targets) + len(controls):
            raise RefError("repeated qubit")
        cstate = cstate if cstate is not None else "1" * len(controls)
        tp = [self.pos(t) for t in targets]
        cp = [self.pos(c) for c in controls]
        psi = self.v.reshape((2,) * n)
        idx = [slice(None)] * n
        for p, s in zip(cp, cstate):
            idx[n - 1 - p] = int(s)
        sub = psi[tuple(idx)]
        fixed = sorted(n - 1 - p for p in cp)

        def axis(p):
            a = n - 1 - p
            return a - sum(1 for f in fixed if f < a)

        axes = [axis(p) for p in reversed(tp)]
        k = len(tp)
        moved = np.moveaxis(sub, axes, range(k))
        shp = moved.shape
        res = (m @ moved.reshape(2**k, -1)).reshape(shp)
        psi = psi.copy()
        psi[tuple(idx)] = np.moveaxis(res, range(k), axes)
        self.v = psi.reshape(-1)

    def prob(self, qs, bits):
        """Probability that the named qubits read the bits."""
        idx = np.arange(len(self.v))
        ok = np.ones(len(self.v), dtype=bool)
        for q, b in zip(qs, bits):
            ok &= ((idx >> self.pos(q)) & 1) == int(b)
        return float(np.sum(np.abs(self.v[ok]) ** 2))

    def project(self, q, b):
        p = self.prob([q], [b])
        if p < 1e-14:
            raise RefError(f"zero probability outcome {q}={b}")
        idx = np.arange(len(self.v))
        self.v = np.where(((idx >> self.pos(q)) & 1) == int(b), self.v, 0) / math.sqrt(p)
        return p

    def classical(self, q, tol=1e-9):
        p = self.prob([q], [1])
        if p < tol:
            return 0
        if p > 1 - tol:
            return 1
        return None

    def free(self, q):
        # strict: a qubit which is almost, but not quite, classical must not be released
        b = self.classical(q, 1e-13)
        if b is None:
            raise RefError(f"free of non-classical qubit {q}")
        idx = np.arange(len(self.v))
        p = self.pos(q)
        self.v = self.v[((idx >> p) & 1) == b]
        self.names.pop(p)
        nrm = np.linalg.norm(self.v)
        self.v = self.v / nrm
        return b

    def vector(self, order):
        """State with order[i] as bit i."""
        n = len(self.names)
        assert sorted(map(str, order)) == sorted(map(str, self.names)), (order, self.names)
        psi = self.v.reshape((2,) * n)
        axes = [n - 1 - self.pos(q) for q in reversed(order)]
        return np.transpose(psi, axes).reshape(-1) if n else self.v

    def marginal(self, qs):
        """Probabilities of the little-endian value of the listed qubits."""
        out = np.zeros(2 ** len(qs))
        idx = np.arange(len(self.v))
        key = np.zeros(len(self.v), dtype=int)
        for i, q in enumerate(qs):
            key |= ((idx >> self.pos(q)) & 1) << i
        np.add.at(out, key, np.abs(self.v) ** 2)
        return out


def fidelity(a, b):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na == 0 or nb == 0:
        return 0.0
    return float(abs(np.vdot(a, b)) / (na * nb))
