"""Scripts of operations on the compiled simulator's own interface: generation and execution."""
import math

import numpy as np

from . import ref as R

ONE = ["H", "X", "Y", "Z", "S", "T", "SqrtX", "Rx", "Rz", "Mat"]


def matrix(op):
    g, p = op["g"], op["p"]
    if g == "Rx" or g == "Rz":
        return R.gate_matrix(g, p, [1])
    if g == "Mat":
        return R.rand_unitary(p[0], len(op["t"]))
    return R.gate_matrix(g, [], [len(op["t"])])


def gen(rng, length, maxq, exotic=True):
    ops, live, nxt = [], [], 0
    for _ in range(rng.randint(1, maxq)):
        ops.append({"op": "alloc", "q": nxt})
        live.append(nxt)
        nxt += 1
    mixed = False
    for _ in range(length):
        x = rng.random()
        if x < 0.1 and len(live) < maxq:
            ops.append({"op": "alloc", "q": nxt})
            live.append(nxt)
            nxt += 1
        elif x < 0.62:
            k = rng.choice([1, 1, 1, 1, 2, 2, 3, 4, 5])
            k = min(k, len(live))
            t = rng.sample(live, k)
            g = rng.choice(ONE) if k == 1 else "Mat"
            p = [round(rng.uniform(-4, 4), 3)] if g in ("Rx", "Rz") else ([rng.getrandbits(20)] if g == "Mat" else [])
            rest = [q for q in live if q not in t]
            ops.append({"op": "gate", "g": g, "p": p, "t": t, "c": rng.sample(rest, min(len(rest), rng.choice([0, 0, 0, 1, 1, 2, 3])))})
        elif x < 0.67:
            ops.append({"op": "run"})
        elif x < 0.73:
            ops.append({"op": "measure", "q": rng.sample(live, rng.randint(1, len(live)))})
        elif x < 0.79 and len(live) > 1:
            q = rng.choice(live)
            live.remove(q)
            ops.append({"op": "free", "q": q})
        elif x < 0.82:
            ops.append({"op": rng.choice(["classical", "cheat"]), "q": rng.choice(live)})
        elif x < 0.85:
            t = rng.sample(live, rng.randint(1, len(live)))
            rest = [q for q in live if q not in t]
            ops.append({"op": rng.choice(["math", "addc", "addm"]), "t": t, "c": rng.sample(rest, min(len(rest), rng.choice([0, 1]))), "a": rng.randint(-5, 9)})
        elif x < 0.88:
            ops.append({"op": "expect", "q": list(live), "terms": terms(rng, len(live))})
        elif x < 0.90 and exotic:
            ops.append({"op": "apply", "q": list(live), "terms": terms(rng, len(live))})
        elif x < 0.93:
            rest = rng.sample(live, rng.randint(1, len(live)))
            c = [q for q in live if q not in rest]
            ops.append({"op": "evolve", "q": rest, "terms": terms(rng, len(rest)), "time": round(rng.uniform(-1, 1), 3), "c": rng.sample(c, min(len(c), rng.choice([0, 0, 1])))})
        elif x < 0.96:
            q = rng.sample(live, rng.randint(1, len(live)))
            ops.append({"op": "prob", "q": q, "bits": [rng.getrandbits(1) for _ in q]})
        elif x < 0.97:
            ops.append({"op": "amp", "q": rng.sample(live, len(live)), "bits": [rng.getrandbits(1) for _ in live]})
        elif x < 0.985:
            ops.append({"op": "set", "q": rng.sample(live, len(live)), "v": rng.getrandbits(20)})
        else:
            q = rng.sample(live, rng.randint(1, len(live)))
            ops.append({"op": "collapse", "q": q, "bits": [rng.getrandbits(1) for _ in q]})
    return ops


def terms(rng, n):
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.randint(0, min(n, 3))
        out.append([[[i, rng.choice("XYZ")] for i in sorted(rng.sample(range(n), k))], round(rng.uniform(-1, 1), 3)])
    return out


def vec(seed, n):
    v = R.rand_unitary(seed, n)[:, 0] if n <= 6 else np.eye(2**n, dtype=complex)[seed % 2**n]
    return [complex(x) for x in v]


class Run:
    """One simulator object executing a script."""

    def __init__(self, sim):
        self.sim = sim
        self.live = []

    def possible(self, op):
        need = [op["q"]] if isinstance(op.get("q"), int) else list(op.get("q", [])) + list(op.get("t", [])) + list(op.get("c", []))
        if op["op"] == "alloc":
            return op["q"] not in self.live
        if op["op"] == "evolve":
            need = op["q"] + op["c"]
        if op["op"] in ("amp", "set", "expect", "apply") and sorted(op["q"]) != sorted(self.live):
            return False
        return all(q in self.live for q in need) and bool(self.live)

    def step(self, op, call=None):
        """Result of one operation (plain data), or 'error ...'."""
        s, k = self.sim, op["op"]
        if k == "alloc":
            s.allocate_qubit(op["q"])
            self.live.append(op["q"])
        elif k == "gate":
            s.apply_controlled_gate(matrix(op).tolist(), op["t"], op["c"])
        elif k == "run":
            s.run()
        elif k == "measure":
            return [bool(b) for b in s.measure_qubits(op["q"])]
        elif k == "free":
            r = s.measure_qubits([op["q"]])
            s.deallocate_qubit(op["q"])
            self.live.remove(op["q"])
            return bool(r[0])
        elif k == "classical":
            c = bool(s.is_classical(op["q"], 1e-12))
            return [c, bool(s.get_classical_value(op["q"], 1e-12)) if c else None]
        elif k == "cheat":
            return self.state()
        elif k == "math":
            n, a = len(op["t"]), op["a"]
            f = lambda x: [(x[0] * 3 + a) % 2**n if n > 1 else x[0] ^ (a & 1)]  # noqa
            if call is not None:
                g = f

                def f(x):
                    call()
                    return g(x)

            s.emulate_math(f, [op["t"]], op["c"])
        elif k == "addc":
            s.emulate_math_addConstant(op["a"], [op["t"]], op["c"])
        elif k == "addm":
            s.emulate_math_addConstantModN(op["a"], 2 ** len(op["t"]), [op["t"]], op["c"])
        elif k == "expect":
            return float(s.get_expectation_value(self.term(op, float), op["q"]))
        elif k == "apply":
            s.apply_qubit_operator(self.term(op, complex), op["q"])
        elif k == "evolve":
            s.emulate_time_evolution(self.term(op, float), op["time"], op["q"], op["c"])
        elif k == "prob":
            return float(s.get_probability([bool(b) for b in op["bits"]], op["q"]))
        elif k == "amp":
            return complex(s.get_amplitude([bool(b) for b in op["bits"]], op["q"]))
        elif k == "set":
            s.set_wavefunction(vec(op["v"], len(op["q"])), op["q"])
        elif k == "collapse":
            try:
                s.collapse_wavefunction(op["q"], [bool(b) for b in op["bits"]])
            except RuntimeError as e:
                return "refused " + str(e)[:40]
        return None

    def term(self, op, typ):
        return [([(i, a) for i, a in t], typ(c)) for t, c in op["terms"]]

    def state(self):
        m, v = self.sim.cheat()
        return [sorted(m.items()), np.array(v)]


def close(a, b, tol=1e-8):
    """Equal up to rounding."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1.0, float(np.max(np.abs(b), initial=0)))))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or a is None or b is None:
        return a == b
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if a != a or b != b:
            return (a != a) == (b != b)
        return abs(a - b) <= tol * max(1.0, abs(b))
    return a == b


def show(x):
    if isinstance(x, np.ndarray):
        return f"state of norm {float(np.vdot(x, x).real):.6f}"
    if isinstance(x, list) and x and isinstance(x[-1], np.ndarray):
        return f"[{x[0]}, {show(x[-1])}]"
    return repr(x)[:120]
