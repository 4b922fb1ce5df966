"""C09: every simulator against an independent reference, on histories of operations, queries and illegal requests."""
import random

import numpy as np

from .. import chain, compiled, env, stream
from .. import prog as P
from .. import ref as R
from ..core import Result, World

GATES = ["H", "X", "Y", "Z", "S", "Sdag", "T", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Ph", "Mat1", "Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz",
         "MatN", "MatN", "TimeEvolution", "AddConstant", "SubConstant", "AddQuantum", "SubtractQuantum", "ComparatorQuantum", "MathFn"]
TOL = 1e-7  # amplitudes
ILLEGAL = ["prob_unknown", "amp_unknown", "amp_missing", "expect_unknown", "expect_size", "oper_size", "oper_unknown", "collapse_zero",
           "collapse_unknown", "collapse_size", "set_size", "set_missing", "set_unknown", "set_repeat", "free_super", "free_unknown",
           "alloc_twice", "matrix_size", "gate_unknown", "ctrl_unknown", "measure_unknown", "math_unknown", "evolve_unknown", "measure_ctrl",
           "gate_6", "prob_short", "math_raises", "math_raises_late", "convert"]


class Lock(P.Expander):
    """Reference in lock-step with the library."""

    def __init__(self, rn):
        super().__init__({})
        self.rn = rn

    def measure(self, s):
        i = self.rn.ids[s][-1] if s not in self.rn.s.q else self.rn.s.q[s].id
        v = self.rn.outcomes.get(i, [None])[-1]
        if v is None:
            raise P.Exhausted(s)
        p = self.r.prob([s], [v])
        self.measured.add(s)
        self.last[s] = v
        if p < 1e-9:
            self.problems.append(f"qubit {s} measured as {v}, an outcome of probability {p:.3g}")
            raise P.Invalid("impossible outcome")
        self.r.project(s, v)


class Mismatch(Exception):
    pass


class C09(World):
    ID = "C09"
    TECH = ("deterministic simulation: seeded histories of operations, queries and injected illegal requests on the compiled simulator (fusion "
            "on/off) and the Python one, in lock-step with a reference model")
    NOTE = ("Seeded search over histories. The full state (amplitudes, up to one global phase) is compared after seeded steps and at the end, "
            "every query against the reference, and the state must be unchanged after every rejected request and every query.")
    RULE = "one evaluation = one history of operations, queries and illegal requests on one simulator; distinct by event-log digest"
    DISTINCT = "distinct (simulator, operation or request, size class) triples exercised"
    QUICK = 16000
    THOROUGH = 200000
    REAL = ["projectq.backends._sim._simulator", "projectq.backends._sim._pysim", "projectq.backends._sim C++ kernels (compiled from the tree)"]
    STUB = ["reference state vector (oracle)"]
    ASSUME = ["modular arithmetic is only emulated where register values are below the modulus (elsewhere it is not reversible)",
              "non-unitary operators are undone by set_wavefunction before probabilities are used again",
              "single OpenMP thread here: schedules of the parallel kernels are the subject of C11"]

    def prepare(self):
        env.setup()
        env.pysim_class()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        impl = rng.choice(["cpp", "fused", "fused", "py"])
        nq = rng.choice([1, 2, 3, 4, 5]) if impl == "py" else rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
        g = P.Gen(rng, GATES, max_qubits=nq, max_controls=rng.choice([0, 1, 2, 4]), flushes=0, gcs=False, ifs=False, blocks=("control", "dagger"),
                  no_inv=("MathFn",))
        g.block_gates = [x for x in GATES if x not in ("MathFn", "ComparatorQuantum")]
        ops = []
        sl = g.new_slots(rng.randint(1, min(4, nq)))
        ops.append({"op": "alloc", "q": sl})
        g.live += sl
        size = rng.choice([6, 15, 30]) if tier == "quick" else rng.choice([10, 30, 80])
        pq = rng.choice([0.1, 0.3, 0.6])
        for _ in range(size):
            live = list(g.live)
            if rng.random() < pq:
                ops.append(self.extra(rng, live))
            else:
                if rng.random() < 0.15 and live and len(live) >= 2:
                    # non-commuting Hamiltonian
                    k = rng.randint(1, min(3, len(live)))
                    op = {"op": "g", "g": "TimeEvolution", "t": [rng.sample(live, k)],
                          "p": [rng.uniform(-2, 2), P.pauli_terms(rng, k, rng.randint(1, 3)) + ([[[], 0.7]] if rng.random() < 0.3 else [])]}
                    rest = [s for s in live if s not in op["t"][0]]
                    if rest and rng.random() < 0.4:
                        op["c"], op["cs"] = [rng.choice(rest)], rng.choice("01")
                    ops.append(op)
                else:
                    ops += g.top_op(1)
        return {"impl": impl, "map": int(rng.random() < 0.25), "ops": ops, "sim": rng.getrandbits(30), "hold": rng.getrandbits(1)}

    def extra(self, rng, live):
        k = rng.choice(["state", "state", "prob", "prob", "amp", "expect", "expect", "collapse", "set", "operator", "modn", "illegal", "illegal",
                        "illegal", "pipe"])
        o = {"op": k, "seed": rng.getrandbits(30)}
        if k == "illegal":
            o["k"] = rng.choice(ILLEGAL)
        return o

    def execute(self, sc):
        from projectq import MainEngine
        from projectq.backends import Simulator
        from projectq.cengines import ManualMapper

        r = Result()
        env.quiesce()
        random.seed(sc["sim"] ^ 0x5A5A)
        np.random.seed(sc["sim"])
        if sc["impl"] == "py":
            import contextlib
            import io

            with contextlib.redirect_stdout(io.StringIO()):
                sim = env.pysim_class()(rnd_seed=sc["sim"])
        else:
            sim = Simulator(gate_fusion=sc["impl"] == "fused", rnd_seed=sc["sim"])
        stages = [ManualMapper(lambda i: 5 * i + 2)] if sc["map"] else []
        eng = MainEngine(sim, stages)
        rn = P.Runner(eng)
        x = Lock(rn)
        self.sim, self.eng, self.rn, self.x, self.sc, self.r = sim, eng, rn, x, sc, r
        self.held = []
        self.scale = 1.0
        try:
            for i, op in enumerate(sc["ops"]):
                self.i = i
                before = self.vec() if op["op"] not in ("alloc", "g", "measure", "free", "control", "dagger", "gc") else None
                try:
                    self.step(op)
                except P.Invalid as e:
                    r.log("invalid", e)
                    if x.problems:
                        r.violate("outcome", f"operation {i}: {x.problems[0]}")
                    else:
                        r.nontrivial = False
                    return r
                except Mismatch as e:
                    r.violate("query" if op["op"] != "illegal" else "illegal request", f"operation {i} ({op['op']} {op.get('k', '')}): {e}")
                    return r
                except Exception as e:  # noqa
                    r.violate("error", f"operation {i} ({op['op']} {op.get('g', '')}): {type(e).__name__}: {e}")
                    return r
                if before is not None and op["op"] not in ("collapse", "set", "operator", "modn", "pipe"):
                    if not np.array_equal(before, self.vec()) and not np.allclose(before, self.vec(), atol=1e-12):
                        r.violate("query changes state", f"operation {i} ({op['op']} {op.get('k', '')}) changed the state")
                        return r
                n = len(rn.s.q)
                r.cover.add(f"{sc['impl']}:{op['op']}:{op.get('k') or op.get('g') or ''}:{min(n, 6)}:{len(op.get('c', []))}")
            self.state()
            for m, v, m2, v2 in self.held:
                if m != m2 or not np.array_equal(v, np.asarray(v2)):
                    r.violate("held state", "a state returned earlier changed afterwards")
        except Mismatch as e:
            r.violate("state", f"at the end: {e}")
        finally:
            self.held = []
            compiled.silence(eng)
            rn.s.q.clear()
            self.sim = self.eng = self.rn = self.x = None
            r.hit("ops", len(sc["ops"]))
            r.log(sorted((k, tuple(o)) for k, o in rn.outcomes.items()))
        return r

    # ---------------------------------------------------------------- steps
    def step(self, op):
        k = op["op"]
        f = getattr(self, "do_" + k, None)
        if f is not None:
            return f(op, random.Random(op["seed"]))
        if k in ("alloc", "g", "measure", "free", "control", "dagger"):
            if k in ("control", "dagger"):
                # legality first: an illegal release inside would be swallowed
                t = Lock(self.rn)
                t.r, t.live, t.inst = self.x.r.copy(), set(self.x.live), dict(self.x.inst)
                t.step(op, True)
            elif k == "free" and op.get("how") == "raw":
                for s in op["q"]:
                    if s in self.x.live and self.x.r.classical(s, 1e-13) is None:
                        raise P.Invalid("superposed")
            self.rn.step(op, True)
            self.x.step(op, True)
            if op.get("how") == "cycle":
                import gc

                gc.collect()
                for z in list(self.x.zombies):
                    self.x.r.free(z)
                self.x.zombies.clear()
            self.r.log(k, len(self.x.live))
            if len(self.x.r.names) and (self.sc["sim"] >> (self.i % 25)) % 3 == 0:
                self.state()

    def ids(self):
        m = self.rn.eng.mapper.current_mapping if self.rn.eng.mapper is not None else None
        return {s: (m[q.id] if m is not None else q.id) for s, q in self.rn.s.q.items()}

    def vec(self):
        m, v = self.sim.cheat()
        v = np.array(v, dtype=complex)
        n = len(m)
        order = [i for i in sorted(m)]
        psi = v.reshape((2,) * n)
        axes = [n - 1 - m[q] for q in reversed(order)]
        return np.transpose(psi, axes).reshape(-1) if n else v

    def state(self):
        m, v = self.sim.cheat()
        if self.sc["hold"]:
            self.held.append((dict(m), np.array(v), m, v))
            self.held = self.held[-3:]
        m = dict(m)
        v = np.array(v, dtype=complex)
        ids = self.ids()
        if set(ids.values()) != set(m) or sorted(m.values()) != list(range(len(m))):
            raise Mismatch(f"simulator holds {m}, program has {sorted(ids.values())}")
        want = self.x.r.vector(chain.order_by(ids, m))
        self.same(v, want, "state")

    def phase(self):
        """Global phase (and norm) of the simulator's state relative to the reference."""
        m, v = self.sim.cheat()
        v = np.array(v, dtype=complex)
        want = self.x.r.vector(chain.order_by(self.ids(), m))
        k = int(np.argmax(abs(want)))
        return v[k] / want[k]

    def same(self, v, want, what):
        if len(v) != len(want):
            raise Mismatch(f"{what}: {len(v)} amplitudes, expected {len(want)}")
        k = int(np.argmax(abs(want)))
        ph = v[k] / want[k] if abs(want[k]) > 0 else 1
        if not abs(abs(ph) - 1) < TOL or not np.allclose(v, ph * want, atol=TOL):
            raise Mismatch(f"{what} differs from the reference by {np.max(abs(v - ph * want)):.3g} (norm {np.linalg.norm(v):.9f})")
        self.r.log(what, round(float(abs(ph)), 6))

    def some(self, rng, lo=1):
        sl = sorted(self.rn.s.q)
        return rng.sample(sl, rng.randint(min(lo, len(sl)), len(sl)))

    def bits(self, rng, n):
        b = [rng.randint(0, 1) for _ in range(n)]
        return b, rng.choice([b, [bool(v) for v in b], "".join(map(str, b)), tuple(b)])

    def do_state(self, op, rng):
        self.state()

    def do_gc(self, op, rng=None):
        pass

    def do_pipe(self, op, rng):
        """Queries which must not be affected by buffered gates: issue, ask at once."""
        if not self.rn.s.q:
            return
        for _ in range(rng.randint(1, 4)):
            s = rng.choice(sorted(self.rn.s.q))
            g = {"op": "g", "g": rng.choice(["H", "T", "SqrtX"]), "p": [], "t": [[s]]}
            rest = [o for o in sorted(self.rn.s.q) if o != s]
            if rest and rng.random() < 0.7:
                g["c"] = rng.sample(rest, rng.randint(1, min(2, len(rest))))
                g["cs"] = "".join(rng.choice("01") for _ in g["c"])
            self.rn.step(g, True)
            self.x.step(g, True)
        k = rng.choice(["prob", "amp", "expect", "state"])
        getattr(self, "do_" + k)(op, rng)

    def do_prob(self, op, rng):
        q = self.some(rng)
        b, form = self.bits(rng, len(q))
        got = self.sim.get_probability(form, [self.rn.s.q[s] for s in q])
        want = self.x.r.prob(q, b)
        self.r.log("prob", round(want, 6))
        if not abs(got - want) < TOL:
            raise Mismatch(f"probability of {b} on {q} is {got}, expected {want}")

    def do_amp(self, op, rng):
        q = rng.sample(sorted(self.rn.s.q), len(self.rn.s.q))
        b, form = self.bits(rng, len(q))
        got = self.sim.get_amplitude(form, [self.rn.s.q[s] for s in q])
        want = self.x.r.vector(q)[sum(v << i for i, v in enumerate(b))] * self.phase()
        if not abs(got - want) < TOL:
            raise Mismatch(f"amplitude of {b} on {q} is {got}, expected {want}")

    def do_expect(self, op, rng):
        q = self.some(rng)
        if not q:
            return
        terms = P.pauli_terms(rng, len(q), rng.randint(1, 4))
        if rng.random() < 0.4:
            terms.append([[], round(rng.uniform(-1, 1), 4)])
        self.odd_terms(rng, terms)
        got = self.sim.get_expectation_value(P.qubit_operator(terms), [self.rn.s.q[s] for s in q])
        m = R.qubit_op_matrix(terms, len(q))
        t = self.x.r.copy()
        before = t.v
        t.apply(m, q)
        want = float(np.vdot(before, t.v).real)
        self.r.log("expect", round(want, 6))
        if not abs(got - want) < TOL * 10:
            raise Mismatch(f"expectation value of {terms} on {q} is {got}, expected {want}")

    def do_collapse(self, op, rng):
        q = self.some(rng)
        b, form = self.bits(rng, len(q))
        if self.x.r.prob(q, b) < 1e-6:
            # take a possible outcome instead
            w = self.x.r.marginal(q)
            k = int(np.argmax(w))
            b = [(k >> i) & 1 for i in range(len(q))]
            form = b
        self.sim.collapse_wavefunction([self.rn.s.q[s] for s in q], form)
        for s, v in zip(q, b):
            self.x.r.project(s, v)
        self.state()

    def do_set(self, op, rng):
        q = rng.sample(sorted(self.rn.s.q), len(self.rn.s.q))
        v = P.state_vector(rng.getrandbits(30), len(q)) if q else np.array([1.0 + 0j])
        self.sim.set_wavefunction(rng.choice([v, v.tolist()]), [self.rn.s.q[s] for s in q])
        self.x.r.names, self.x.r.v = list(q), v.copy()
        self.state()

    def do_operator(self, op, rng):
        """A (generally non-unitary) operator; checked, then undone."""
        q = self.some(rng)
        if not q:
            return
        terms = P.pauli_terms(rng, len(q), rng.randint(1, 3))
        terms = [[t, [c, rng.choice([0.0, round(rng.uniform(-1, 1), 3)])]] for t, c in terms]
        self.odd_terms(rng, terms, True)
        order = sorted(self.rn.s.q)
        m, v = self.sim.cheat()
        v0 = np.array(v, dtype=complex)
        m0 = dict(m)
        self.sim.apply_qubit_operator(P.qubit_operator(terms), [self.rn.s.q[s] for s in q])
        t = self.x.r.copy()
        ph = self.phase_of(v0, m0)
        t.apply(R.qubit_op_matrix(terms, len(q)), q)
        m, v = self.sim.cheat()
        want = t.vector(chain.order_by(self.ids(), m)) * ph
        if not np.allclose(np.array(v), want, atol=TOL * 10):
            raise Mismatch(f"operator {terms} on {q}: differs by {np.max(abs(np.array(v) - want)):.3g}")
        inv = {i: s for s, i in self.ids().items()}
        self.sim.set_wavefunction(v0, [self.rn.s.q[inv[i]] for i in sorted(m0, key=m0.get)])
        del order
        self.state()

    def odd_terms(self, rng, terms, cplx=False):
        """Coefficients nobody writes by hand but programs compute: vanishing, huge, identity."""
        for t in terms:
            if rng.random() < 0.2:
                c = rng.choice([1e-9, -1e-8, 1e-7, 3e-13, 25.0])
                t[1] = [c, 0.0] if cplx else c
        if rng.random() < 0.15:
            terms.insert(0, [[], [rng.uniform(-1, 1), 0.3] if cplx else rng.uniform(-1, 1)])
        rng.shuffle(terms)

    def phase_of(self, v, m):
        want = self.x.r.vector(chain.order_by(self.ids(), m))
        k = int(np.argmax(abs(want)))
        return v[k] / want[k]

    def do_modn(self, op, rng):
        """Modular arithmetic on a state supported below the modulus."""
        sl = sorted(self.rn.s.q)
        if not sl:
            return
        q = rng.sample(sl, len(sl))
        k = rng.randint(1, min(4, len(q)))
        reg = q[:k]
        N = rng.randint(2, 2**k)
        v = P.state_vector(rng.getrandbits(30), len(q))
        for i in range(len(v)):
            if (i & (2**k - 1)) >= N:
                v[i] = 0
        if np.linalg.norm(v) < 1e-6:
            return
        v /= np.linalg.norm(v)
        self.sim.set_wavefunction(v, [self.rn.s.q[s] for s in q])
        self.x.r.names, self.x.r.v = list(q), v.copy()
        import math

        kind = rng.choice(["AddConstantModN", "SubConstantModN", "MultiplyByConstantModN"])
        a = rng.randrange(0, N)
        if kind[0] == "M":
            a = rng.choice([a for a in range(1, N + 1) if math.gcd(a, N) == 1])
            a = a % N if N > 1 else a
        g = {"op": "g", "g": kind, "p": [a, N], "t": [reg], "inv": int(kind[0] != "M" and rng.random() < 0.2)}
        rest = q[k:]
        if rest and rng.random() < 0.5:
            g["c"] = rng.sample(rest, 1)
            g["cs"] = rng.choice("01")
        self.rn.step(g, True)
        # the reference: a permutation of the values below N
        f = {"A": lambda x: (x + a) % N, "S": lambda x: (x - a) % N, "M": lambda x: (x * a) % N}[kind[0]]
        m = np.zeros((2**k, 2**k), dtype=complex)
        for x in range(2**k):
            m[f(x) if x < N else x, x] = 1
        if g["inv"]:
            m = m.T
        self.x.r.apply(m, reg, g.get("c", []), g.get("cs", ""))
        self.state()

    # ---------------------------------------------------------------- illegal requests: rejected, nothing changes
    def do_illegal(self, op, rng):
        from projectq import ops
        from projectq.ops import Command
        from projectq.types import WeakQubitRef

        q = sorted(self.rn.s.q)
        rng.shuffle(q)
        Q = [self.rn.s.q[s] for s in q]
        n = len(q)
        ghost = WeakQubitRef(self.eng, 4000)
        k = op["k"]
        sim = self.sim
        H = ops.QubitOperator
        f = None

        def send(gate, regs, ctrl=()):
            # straight to the simulator, as a compiler stage would
            c = Command(self.eng, gate, tuple(regs), controls=list(ctrl))
            ids = self.ids()
            rev = {self.rn.s.q[s].id: i for s, i in ids.items()}
            for reg in c.all_qubits:
                for w in reg:
                    w.id = rev.get(w.id, w.id)
            sim.receive([c])

        weak = [WeakQubitRef(self.eng, x.id) for x in Q]
        if k == "prob_unknown":
            f = lambda: sim.get_probability([0] * (n + 1), Q + [ghost])  # noqa
        elif k == "amp_unknown":
            f = lambda: sim.get_amplitude([0] * (n + 1), Q + [ghost])  # noqa
        elif k == "amp_missing" and n:
            f = lambda: sim.get_amplitude([0] * (n - 1), Q[:-1])  # noqa
        elif k == "expect_unknown":
            f = lambda: sim.get_expectation_value(H("Z0"), [ghost])  # noqa
        elif k == "expect_size" and n:
            f = lambda: sim.get_expectation_value(H(f"X0 Z{n}"), Q)  # noqa
        elif k == "oper_size" and n:
            f = lambda: sim.apply_qubit_operator(H(f"X0 Z{n}"), Q)  # noqa
        elif k == "oper_unknown":
            f = lambda: sim.apply_qubit_operator(H("Z0"), [ghost])  # noqa
        elif k == "collapse_zero" and n:
            for b in range(2**n):
                bits = [(b >> i) & 1 for i in range(n)]
                if self.x.r.prob(q, bits) < 1e-14:
                    f = lambda: sim.collapse_wavefunction(Q, bits)  # noqa
                    break
        elif k == "collapse_unknown":
            f = lambda: sim.collapse_wavefunction(Q + [ghost], [0] * (n + 1))  # noqa
        elif k == "collapse_size" and n:
            f = lambda: sim.collapse_wavefunction(Q, [0] * (n - 1))  # noqa
        elif k == "set_size" and n:
            f = lambda: sim.set_wavefunction([1.0] + [0.0] * (2 ** (n + 1) - 1), Q)  # noqa
        elif k == "set_missing" and n:
            f = lambda: sim.set_wavefunction([1.0] + [0.0] * (2 ** (n - 1) - 1), Q[:-1])  # noqa
        elif k == "set_unknown" and n:
            f = lambda: sim.set_wavefunction([1.0] + [0.0] * (2**n - 1), Q[:-1] + [ghost])  # noqa
        elif k == "set_repeat" and n >= 2:
            f = lambda: sim.set_wavefunction([0.0] * (2**n - 1) + [1.0], Q[:-1] + Q[:1])  # noqa
        elif k == "free_super" and n:
            s = [i for i, x in enumerate(q) if 1e-3 < self.x.r.prob([x], [1]) < 1 - 1e-3]
            if s:
                f = lambda: send(ops.Deallocate, [[weak[s[0]]]])  # noqa
        elif k == "free_unknown":
            f = lambda: send(ops.Deallocate, [[ghost]])  # noqa
        elif k == "alloc_twice" and n:
            f = lambda: send(ops.Allocate, [[weak[0]]])  # noqa
        elif k == "matrix_size" and n >= 2:
            f = lambda: send(ops.MatrixGate(np.matrix(np.eye(4))), [[weak[0]]])  # noqa
        elif k == "gate_unknown":
            f = lambda: send(ops.X, [[ghost]])  # noqa
        elif k == "ctrl_unknown" and n:
            f = lambda: send(ops.X, [[weak[0]]], [ghost])  # noqa
        elif k == "measure_unknown":
            f = lambda: send(ops.Measure, [[ghost]])  # noqa
        elif k == "math_unknown" and n:
            f = lambda: send(ops.BasicMathGate(lambda a: [a ^ 1]), [[weak[0], ghost]])  # noqa
        elif k == "evolve_unknown" and n:
            f = lambda: send(ops.TimeEvolution(0.7, H("X0 Z1")), [[weak[0], ghost]])  # noqa
        elif k == "measure_ctrl" and n >= 2:
            f = lambda: send(ops.Measure, [[weak[0]]], [weak[1]])  # noqa
        elif k == "gate_6" and n >= 6:
            f = lambda: send(ops.MatrixGate(np.matrix(np.eye(64))), [weak[:6]])  # noqa
        elif k == "prob_short" and n:
            f = lambda: sim.get_probability([0] * (n - 1), Q)  # noqa
        elif k in ("math_raises", "math_raises_late") and n:
            cnt = [0]

            def fn(a):
                cnt[0] += 1
                if k == "math_raises" or cnt[0] == 2 ** max(0, n - 1):
                    raise ZeroDivisionError("user function")
                return [a ^ 1]

            f = lambda: send(ops.BasicMathGate(fn), [weak[: min(n, 2)]])  # noqa
        elif k == "convert" and n:
            un = [s for s in q if s not in self.x.measured]
            if un:
                f = lambda: int(self.rn.s.q[un[0]])  # noqa
        if f is None:
            return
        try:
            got = f()
        except Exception as e:  # noqa
            self.r.hit("fault.illegal." + k)
            self.r.log("rejected", k)
            e.__traceback__ = None
        else:
            raise Mismatch(f"accepted (returned {got!r})"[:200])
        self.state()

    def shrink_paths(self, sc):
        return ["ops"]

    def simplify(self, sc):
        if sc["map"]:
            yield dict(sc, map=0)
        if sc["hold"]:
            yield dict(sc, hold=0)


WORLD = C09
