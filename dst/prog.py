"""Programs as data: generator, runner on the real library, expansion on the reference.

A program is a list of operations (JSON):
  {"op":"alloc","q":[slots],"dirty":0|1}          allocate one register (slots are ints, unique per program)
  {"op":"g","g":name,"p":[..],"t":[[slots],..],"inv":0|1,"c":[slots],"cs":"01..","syn":0..2}
  {"op":"measure","q":[slots]}
  {"op":"free","q":[slots],"how":"del"|"cycle"|"raw"}   del/cycle: measured first
  {"op":"flush"} {"op":"gc"}
  {"op":"if","q":slot,"neg":0|1,"body":[..]}            flush, read, branch (top level only)
  {"op":"control","c":[slots],"cs":"..","body":[..]}
  {"op":"dagger","body":[..]} {"op":"loop","n":k,"body":[..]}
  {"op":"cu","compute":[..],"action":[..],"custom":[..]|null}
Operations that refer to slots which are not live are skipped, in the runner and in the reference alike, so that any
sub-list of a program is a program.
"""
import copy
import gc
import math

import numpy as np

from . import ref as R


# ------------------------------------------------------------------------------------------------ gates on the library
def make_gate(g, p, inv=0):
    import projectq.libs.math as lm
    import projectq.ops as ops

    simple = {"H": "H", "X": "X", "Y": "Y", "Z": "Z", "S": "S", "Sdag": "Sdag", "T": "T", "Tdag": "Tdag", "SqrtX": "SqrtX",
              "Swap": "Swap", "SqrtSwap": "SqrtSwap", "QFT": "QFT", "Entangle": "Entangle", "Barrier": "Barrier"}
    rot = ("Rx", "Ry", "Rz", "Rxx", "Ryy", "Rzz", "R", "Ph")
    if g in simple:
        r = getattr(ops, simple[g])
    elif g in rot:
        r = getattr(ops, g)(p[0])
    elif g == "Mat1":
        r = ops.MatrixGate(np.matrix(R.euler(*p)))
    elif g == "MatN":
        r = ops.MatrixGate(np.matrix(R.rand_unitary(p[0], p[1])))
    elif g == "UCRy":
        r = ops.UniformlyControlledRy(list(p[0]))
    elif g == "UCRz":
        r = ops.UniformlyControlledRz(list(p[0]))
    elif g == "TimeEvolution":
        r = ops.TimeEvolution(p[0], qubit_operator(p[1]))
    elif g == "QubitOp":
        r = qubit_operator(p[0])
    elif g == "FlipBits":
        r = ops.FlipBits(p[0])
    elif g == "StatePrep":
        r = ops.StatePreparation(state_vector(p[0], p[1]).tolist())
    elif g in ("AddConstant", "SubConstant"):
        r = getattr(lm, g)(p[0])
    elif g in ("AddConstantModN", "SubConstantModN", "MultiplyByConstantModN"):
        r = getattr(lm, g)(p[0], p[1])
    elif g in ("AddQuantum", "SubtractQuantum", "ComparatorQuantum", "DivideQuantum", "MultiplyQuantum"):
        r = getattr(lm, g)
    elif g == "MathFn":
        r = ops.BasicMathGate(user_function(p))
    elif g == "QPE":
        r = ops.QPE(make_gate(p[0], p[1]))
    else:
        raise KeyError(g)
    if inv:
        r = ops.get_inverse(r)
    return r


def user_function(p):
    """A user-defined reversible function on registers, named by p."""
    kind = p[0]
    if kind == "xor":  # second ^= first
        return lambda a, b: [a, b ^ (a & p[1])]
    if kind == "addc":
        return lambda a: [a + p[1]]
    if kind == "perm":  # affine permutation modulo a power of two (odd multiplier)
        return lambda a: [(a * p[1] + p[2]) % (1 << p[3])]
    raise KeyError(kind)


def state_vector(seed, n):
    rs = np.random.RandomState(seed & 0x7FFFFFFF)
    v = rs.normal(size=2**n) + 1j * rs.normal(size=2**n)
    if seed % 3 == 0:  # sparse
        v[rs.permutation(2**n)[: 2**n // 2]] = 0
    return v / np.linalg.norm(v)


def qubit_operator(terms):
    from projectq.ops import QubitOperator

    op = QubitOperator()
    for term, c in terms:
        co = complex(*c) if isinstance(c, (list, tuple)) else c
        op += QubitOperator(tuple((i, a) for i, a in term), co)
    return op


def ref_gate(g, p, sizes, inv=0):
    """Matrix of the gate, from the reference's own definitions."""
    if g == "StatePrep":
        v = state_vector(p[0], p[1])
        N = len(v)
        # any unitary with first column v (only used on |0..0>)
        m = R.rand_unitary(12345, p[1]).copy()
        m[:, 0] = v
        q, r = np.linalg.qr(m)
        q = q * (np.diag(r) / np.abs(np.diag(r)))
        m = q
    elif g == "MathFn":
        f = user_function(p)
        m = R.math_matrix(lambda x: list(f(*x)), sizes)
    elif g == "QPE":
        m = qpe_matrix(R.gate_matrix(p[0], p[1], [sizes[1]]), sizes[0], sizes[1])
    else:
        m = R.gate_matrix(g, p, sizes)
    return m.conj().T if inv else m


def qpe_matrix(u, na, ns):
    """Textbook phase estimation with the library's bit order: controlled U^(2^i) on ancilla i, then inverse QFT."""
    n = na + ns
    r = R.Ref()
    m = np.zeros((2**n, 2**n), dtype=complex)
    iq = R.qft_matrix(na).conj().T
    for j in range(2**n):
        r = R.Ref()
        r.names = list(range(n))
        r.v = np.zeros(2**n, dtype=complex)
        r.v[j] = 1
        for a in range(na):
            r.apply(R.FIXED1["H"], [a])
        for a in range(na):
            r.apply(np.linalg.matrix_power(u, 2**a), list(range(na, n)), [a])
        # the inverse transform acts on the ancillas in reverse order
        r.apply(iq, list(range(na)))
        m[:, j] = r.v
    return m


# ------------------------------------------------------------------------------------------------ the real side
class UserError(Exception):
    """Injected exception."""


class Slots:
    """Live qubits of a program on the library side."""

    def __init__(self):
        self.q = {}  # slot -> Qubit
        self.zombies = []  # reference cycles keeping released qubits alive until collection


class Cycle:
    def __init__(self, q):
        self.q = q
        self.me = self


class Runner:
    """Executes a program on a MainEngine."""

    def __init__(self, eng, collect_gc=True):
        self.eng = eng
        self.s = Slots()
        self.outcomes = {}  # qubit id -> list of recorded values, in order
        self.ids = {}  # slot -> list of qubit ids it had
        self.reads = []  # [slot, value] from int()
        self.collect_gc = collect_gc
        self.zombie_slots = []
        self.count = 0  # user-level operations issued
        self.raise_at = None
        self.noise = None  # optional hook called before every user-level operation
        orig = eng.set_measurement_result

        def spy(qubit, value):
            self.outcomes.setdefault(qubit.id, []).append(int(bool(value)))
            return orig(qubit, value)

        eng.set_measurement_result = spy

    def run(self, ops, top=True):
        for op in ops:
            self.step(op, top)

    def live(self, slots):
        return all(s in self.s.q for s in slots)

    def step(self, op, top):
        k = op["op"]
        getattr(self, "do_" + k)(op, top)

    def tick(self):
        if self.noise is not None:
            self.noise(self)
        if self.raise_at is not None and self.count == self.raise_at:
            self.count += 1
            raise UserError("injected")
        self.count += 1

    def do_alloc(self, op, top):
        if any(s in self.s.q for s in op["q"]):
            return
        self.tick()
        if len(op["q"]) == 1 and not op.get("reg"):
            reg = self.eng.allocate_qubit(dirty=bool(op.get("dirty")))
        else:
            reg = self.eng.allocate_qureg(len(op["q"]))
        for s, q in zip(op["q"], list(reg)):
            self.s.q[s] = q
            self.ids.setdefault(s, []).append(q.id)

    def do_g(self, op, top):
        from projectq import ops
        from projectq.meta import Control

        flat = [s for r in op["t"] for s in r]
        if not self.live(flat + op.get("c", [])):
            return
        self.tick()
        g = make_gate(op["g"], op.get("p", []), op.get("inv", 0))
        regs = tuple([self.s.q[s] for s in r] for r in op["t"])
        if all(len(r) == 1 for r in regs) and op["g"] not in MULTI_REG:
            regs = tuple(r[0] for r in regs)
        if len(regs) == 1:
            regs = regs[0]
        c = op.get("c", [])
        cs = op.get("cs") or "1" * len(c)
        syn = op.get("syn", 0)
        if not c:
            if syn == 1 and isinstance(regs, list) and False:
                pass
            g | regs
            return
        cq = [self.s.q[s] for s in c]
        if "0" not in cs and syn == 1:
            t = regs if isinstance(regs, tuple) else (regs,)
            ops.C(g, len(c)) | ((cq,) + t)
        elif syn == 2 and len(c) > 1:
            k = len(c) // 2
            with Control(self.eng, cq[:k], ctrl_state=cs[:k]):
                with Control(self.eng, cq[k:], ctrl_state=cs[k:]):
                    g | regs
        elif syn == 3:
            # integer form: least significant bit belongs to the first control
            with Control(self.eng, cq, ctrl_state=int(cs[::-1], 2)):
                g | regs
        else:
            with Control(self.eng, cq, ctrl_state=cs):
                g | regs

    def do_measure(self, op, top):
        from projectq.ops import All, Measure

        if not self.live(op["q"]):
            return
        self.tick()
        qs = [self.s.q[s] for s in op["q"]]
        if op.get("syn") == 1:
            All(Measure) | qs
        elif op.get("syn") == 2 and len(qs) == 1:
            Measure | qs
        else:
            for q in qs:
                Measure | q

    def do_free(self, op, top):
        from projectq.ops import Measure

        for s in op["q"]:
            if s not in self.s.q:
                continue
            self.tick()
            q = self.s.q[s]
            if op.get("how") != "raw":
                Measure | q
            if op.get("how") == "cycle":
                Cycle(q)
                self.zombie_slots.append(s)
            del self.s.q[s]
            del q

    def do_flush(self, op, top):
        self.tick()
        self.eng.flush()

    def do_gc(self, op, top):
        if self.collect_gc:
            gc.collect()

    def do_if(self, op, top):
        if op["q"] not in self.s.q or not top:
            return
        q = self.s.q[op["q"]]
        if not self.outcomes_expected(q):
            return
        self.tick()
        self.eng.flush()
        v = int(q)
        self.reads.append([op["q"], v])
        if v != op.get("neg", 0):
            self.run(op["body"], top)

    def outcomes_expected(self, q):
        return q.id in self.measured

    @property
    def measured(self):
        # the qubit has been measured at least once (flush first so that the result is available)
        self.eng.flush()
        return self.outcomes

    def do_control(self, op, top):
        from projectq.meta import Control

        if not self.live(op["c"]):
            self.run(op["body"], False)
            return
        self.tick()
        with Control(self.eng, [self.s.q[s] for s in op["c"]], ctrl_state=op.get("cs") or "1" * len(op["c"])):
            self.run(op["body"], False)

    def leaving(self):
        """The stored commands of the innermost block are about to be executed."""

    def do_dagger(self, op, top):
        from projectq.meta import Dagger

        self.tick()
        with Dagger(self.eng):
            self.run(op["body"], False)
            self.leaving()

    def do_loop(self, op, top):
        from projectq.meta import Loop

        self.tick()
        with Loop(self.eng, op["n"]):
            self.run(op["body"], False)
            self.leaving()

    def do_cu(self, op, top):
        from projectq.meta import Compute, CustomUncompute, Uncompute

        self.tick()
        before = set(self.s.q)
        with Compute(self.eng):
            self.run(op["compute"], False)
        anc = set(self.s.q) - before
        self.run(op["action"], False)
        if op.get("custom") is not None:
            with CustomUncompute(self.eng):
                self.run(op["custom"], False)
        else:
            self.leaving()
            Uncompute(self.eng)
        for a in anc:
            self.s.q.pop(a, None)


MULTI_REG = {"QFT", "Entangle", "UCRy", "UCRz", "TimeEvolution", "QubitOp", "FlipBits", "StatePrep", "MatN", "Barrier",
             "AddConstant", "SubConstant", "AddConstantModN", "SubConstantModN", "MultiplyByConstantModN", "AddQuantum",
             "SubtractQuantum", "ComparatorQuantum", "DivideQuantum", "MultiplyQuantum", "MathFn", "QPE"}


# ------------------------------------------------------------------------------------------------ the reference side
class Invalid(Exception):
    """The program is not a legal program (e.g. releases a qubit in superposition)."""


class Exhausted(Exception):
    """The real run stopped before this outcome was recorded."""


class Expander:
    """Executes a program on the reference with the outcomes the real run recorded."""

    def __init__(self, outcomes, reads=None):
        self.r = R.Ref()
        self.outcomes = {k: list(v) for k, v in outcomes.items()}  # slot-instance -> values
        self.live = set()
        self.inst = {}  # slot -> how many times allocated
        self.measured = set()
        self.last = {}  # slot -> last outcome
        self.problems = []
        self.zombies = []
        self.alloc_count = 0
        self.prim = 0
        self.logp = 0.0

    # -- primitives
    def emit(self, prims):
        for p in prims:
            self.prim += 1
            if p[0] == "U":
                try:
                    self.r.apply(p[1], p[2], p[3], p[4])
                except R.RefError as e:
                    raise Invalid(str(e))
            elif p[0] == "alloc":
                try:
                    self.r.alloc(p[1])
                except R.RefError as e:
                    raise Invalid(str(e))
            elif p[0] == "free":
                try:
                    self.r.free(p[1])
                except R.RefError as e:
                    raise Invalid(str(e))
            elif p[0] == "prep":
                for q in p[1]:
                    if self.r.prob([q], [0]) < 1 - 1e-9:
                        raise Invalid("state preparation on a used qubit")

    def run(self, ops, top=True):
        for op in ops:
            self.step(op, top)

    def step(self, op, top):
        k = op["op"]
        if k == "alloc":
            self.emit(self.expand([op]))
        elif k == "g":
            self.emit(self.expand([op]))
        elif k == "measure":
            if all(s in self.live for s in op["q"]):
                for s in op["q"]:
                    self.measure(s)
        elif k == "free":
            for s in op["q"]:
                if s not in self.live:
                    continue
                if op.get("how") != "raw":
                    self.measure(s)
                self.live.discard(s)
                if op.get("how") == "cycle":
                    self.r.names[self.r.pos(s)] = ("zombie", s, len(self.zombies))
                    self.zombies.append(("zombie", s, len(self.zombies)))
                else:
                    self.emit([("free", s)])
        elif k == "if":
            if op["q"] in self.live and top and op["q"] in self.measured:
                if self.last[op["q"]] != op.get("neg", 0):
                    self.run(op["body"], top)
        elif k in ("control", "dagger", "loop", "cu"):
            self.legal([op])
            self.emit(self.expand([op]))

    bare = False

    def legal(self, ops):
        """Compute sections run unconditionally: what they release must be classical even where the control is off."""
        if not any(compute_under_control(op) for op in ops):
            return
        t = copy.copy(self)
        t.r, t.live, t.inst, t.measured, t.bare = self.r.copy(), set(self.live), dict(self.inst), set(self.measured), True
        t.emit(t.expand(ops))

    def measure(self, s):
        lst = self.outcomes.get((s, self.inst[s]))
        if not lst:
            raise Exhausted(s)
        v = lst.pop(0)
        self.measured.add(s)
        self.last[s] = v
        p = self.r.prob([s], [v])
        self.logp += math.log(max(p, 1e-300))
        if p < 1e-9:
            self.problems.append(f"qubit {s} measured as {v}, an outcome of probability {p:.3g}")
            raise Invalid("impossible outcome")
        self.r.project(s, v)

    # -- expansion to primitives
    def expand(self, ops, ctrl=(), cs=""):
        """List of primitives; keeps track of live slots."""
        out = []
        for op in ops:
            k = op["op"]
            if k == "alloc":
                if any(s in self.live for s in op["q"]):
                    continue
                for s in op["q"]:
                    self.live.add(s)
                    self.inst[s] = self.inst.get(s, -1) + 1
                    self.measured.discard(s)
                    out.append(("alloc", s))
            elif k == "g":
                flat = [s for r in op["t"] for s in r]
                c = op.get("c", [])
                if not all(s in self.live for s in flat + c):
                    continue
                sizes = [len(r) for r in op["t"]]
                m = ref_gate(op["g"], op.get("p", []), sizes, op.get("inv", 0))
                if op["g"] == "StatePrep":
                    out.append(("prep", flat))
                allc = tuple(ctrl) + tuple(c)
                if op["g"] == "Barrier":
                    continue
                allcs = cs + (op.get("cs") or "1" * len(c))
                # the same control may be given twice with the same value
                cc, ss = [], ""
                for q, v in zip(allc, allcs):
                    if q in cc:
                        if ss[cc.index(q)] != v:
                            raise Invalid("conflicting control values")
                    else:
                        cc.append(q)
                        ss += v
                out.append(("U", m, flat, tuple(cc), ss))
            elif k == "free":
                for s in op["q"]:
                    if s in self.live:
                        if op.get("how") != "raw":
                            raise Invalid("measurement inside a block")
                        self.live.discard(s)
                        out.append(("free", s))
            elif k == "control":
                if not all(s in self.live for s in op["c"]):
                    out += self.expand(op["body"], ctrl, cs)
                else:
                    out += self.expand(op["body"], tuple(ctrl) + tuple(op["c"]), cs + (op.get("cs") or "1" * len(op["c"])))
            elif k == "dagger":
                before = set(self.live)
                body = self.expand(op["body"], ctrl, cs)
                if self.live != before:
                    raise Invalid("qubits cross a dagger block")
                out += inverse(body)
            elif k == "loop":
                before = set(self.live)
                body = self.expand(op["body"], ctrl, cs)
                if self.live != before:
                    raise Invalid("qubits cross a loop block")
                for _ in range(op["n"]):
                    out += body
            elif k == "cu":
                before = set(self.live)
                keep = ctrl, cs
                if self.bare:
                    # as the library does it: only the action is controlled
                    ctrl, cs = (), ""
                comp = self.expand(op["compute"], ctrl, cs)
                if not before <= self.live:
                    raise Invalid("release of an outer qubit inside compute")
                mid = set(self.live)
                act = self.expand(op["action"], *keep)
                if not mid <= self.live:
                    raise Invalid("action releases a compute qubit")
                out += comp + act
                if op.get("custom") is not None:
                    out += self.expand(op["custom"], ctrl, cs)
                    if (mid - before) & self.live:
                        raise Invalid("custom uncompute leaves ancillas")
                else:
                    out += inverse(comp)
                    for s in mid - before:
                        self.live.discard(s)
                ctrl, cs = keep
            elif k in ("flush", "gc"):
                continue
            elif k in ("measure", "if"):
                raise Invalid(k + " inside a block")
        return out


def compute_under_control(op, under=False):
    if op["op"] == "cu" and under:
        return True
    under = under or op["op"] == "control"
    return any(compute_under_control(o, under) for k in ("body", "compute", "action", "custom") for o in op.get(k) or [])


def inverse(prims):
    out = []
    for p in reversed(prims):
        if p[0] == "U":
            out.append(("U", p[1].conj().T, p[2], p[3], p[4]))
        elif p[0] == "alloc":
            out.append(("free", p[1]))
        elif p[0] == "free":
            out.append(("alloc", p[1]))
        elif p[0] == "prep":
            raise Invalid("state preparation inverted")
    return out


def outcomes_by_slot(runner):
    """Recorded outcomes per allocation instance of each slot."""
    out = {}
    for s, ids in runner.ids.items():
        for i, qid in enumerate(ids):
            if qid in runner.outcomes:
                out[(s, i)] = list(runner.outcomes[qid])
    return out


# ------------------------------------------------------------------------------------------------ generation
def angle(rng):
    return rng.choice([
        rng.uniform(-2 * math.pi, 4 * math.pi), rng.uniform(-math.pi, math.pi), math.pi / 2, -math.pi / 2, math.pi, 2 * math.pi,
        4 * math.pi, 0.0, math.pi / 4, 1e-13, 4 * math.pi - 1e-13, rng.uniform(-1e-3, 1e-3), 3 * math.pi])


def pauli_terms(rng, n, nterms, hermitian=True):
    out = []
    for _ in range(nterms):
        k = rng.randint(1, n)
        idx = sorted(rng.sample(range(n), k))
        t = [[i, rng.choice("XYZ")] for i in idx]
        out.append([t, round(rng.uniform(-1.5, 1.5), 6)])
    return out


GATES_1 = ["H", "X", "Y", "Z", "S", "Sdag", "T", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Ph", "Mat1"]
GATES_2 = ["Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz", "MatN"]
GATES_N = ["QFT", "Entangle", "TimeEvolution", "QubitOp", "FlipBits", "UCRy", "UCRz", "Barrier"]
GATES_MATH = ["AddConstant", "SubConstant", "AddConstantModN", "SubConstantModN", "MultiplyByConstantModN", "AddQuantum",
              "SubtractQuantum", "ComparatorQuantum", "MathFn"]


class Gen:
    """Random program over a budget of qubits; only legal programs."""

    def __init__(self, rng, gates, max_qubits=4, max_controls=2, neg=True, blocks=("control", "dagger", "loop", "cu"),
                 ifs=True, frees=True, measures=True, flushes=0.08, ctrl_gates=None, inv=True, max_total=None, gcs=True,
                 max_ops=25, ctrl_max=None, no_inv=(), dirty=False, block_gates=None):
        self.rng = rng
        self.gates = gates
        self.max_qubits = max_qubits
        self.max_controls = max_controls
        self.neg = neg
        self.blocks = list(blocks)
        self.ifs, self.frees, self.measures, self.flushes = ifs, frees, measures, flushes
        self.ctrl_gates = set(ctrl_gates if ctrl_gates is not None else gates)
        self.inv = inv
        self.max_total = max_total or 10**9
        self.total = 0
        self.gcs = gcs
        self.max_ops = max_ops
        self.ctrl_max = ctrl_max or {}
        self.no_inv = set(no_inv)
        self.slot = 0
        self.live = []
        self.measured = set()
        self.dirty = dirty
        self.block_gates = block_gates or gates
        self.pending = 0  # zombies: released in the program, still occupying the device

    def new_slots(self, n):
        out = list(range(self.slot, self.slot + n))
        self.slot += n
        self.total += n
        return out

    def ctrls(self, avail, gate, used=0):
        """Pick extra controls from the available slots."""
        rng = self.rng
        if gate not in self.ctrl_gates or not avail or rng.random() < 0.55:
            return [], ""
        mx = min(len(avail), self.ctrl_max.get(gate, self.max_controls) - used)
        if mx <= 0:
            return [], ""
        k = rng.randint(1, mx)
        c = rng.sample(avail, k)
        cs = "".join(rng.choice("01") if self.neg and rng.random() < 0.5 else "1" for _ in c)
        return c, cs

    def gate_op(self, live, used=0, gates=None):
        """One gate on the live slots (or None); used = controls already imposed by enclosing blocks."""
        rng = self.rng
        for _ in range(20):
            g = rng.choice(gates or self.gates)
            if used and g not in self.ctrl_gates:
                continue
            if used > self.ctrl_max.get(g, self.max_controls):
                continue
            n = len(live)
            op = {"op": "g", "g": g}
            p = []
            if g in GATES_1:
                if n < 1:
                    continue
                t = [[rng.choice(live)]]
                if g in ("Rx", "Ry", "Rz", "R", "Ph"):
                    p = [angle(rng)]
                elif g == "Mat1":
                    p = [rng.uniform(-3, 3) for _ in range(4)]
                    if rng.random() < 0.2:
                        p = [rng.choice([0, math.pi / 2, math.pi]) for _ in range(4)]
            elif g in GATES_2:
                k = 2
                if g == "MatN":
                    k = rng.choice([2, 2, 3, 4, 5]) if n >= 5 else rng.choice([2, 2, 3]) if n >= 3 else 2
                if n < k:
                    continue
                s = rng.sample(live, k)
                if g in ("Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz"):
                    t = [[s[0]], [s[1]]]
                    if g.startswith("R"):
                        p = [angle(rng)]
                else:
                    t = [s]
                    p = [rng.getrandbits(20), k]
            elif g in GATES_N:
                if n < 1:
                    continue
                k = rng.randint(1, min(n, 3))
                if g in ("UCRy", "UCRz"):
                    if n < 2:
                        continue
                    k = rng.randint(1, min(n - 1, 2))
                    s = rng.sample(live, k + 1)
                    t = [s[:k], [s[k]]]
                    p = [[angle(rng) for _ in range(2**k)]]
                else:
                    if g == "Entangle" and n < 2:
                        continue
                    if g == "Entangle":
                        k = max(2, k)
                    s = rng.sample(live, k)
                    t = [s]
                    if g == "TimeEvolution":
                        p = [rng.choice([angle(rng), rng.uniform(-1, 1)]), self.hermitian(k)]
                    elif g == "QubitOp":
                        idx = sorted(rng.sample(range(k), rng.randint(1, k)))
                        ph = rng.choice([[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]])
                        p = [[[[[i, rng.choice("XYZ")] for i in idx], ph]]]
                    elif g == "FlipBits":
                        p = [rng.getrandbits(k)]
            elif g in GATES_MATH:
                r = self.math_op(g, live)
                if r is None:
                    continue
                t, p = r
            else:
                raise KeyError(g)
            op["t"] = t
            op["p"] = p
            flat = [s for r in t for s in r]
            if self.inv and g not in self.no_inv and rng.random() < 0.2:
                op["inv"] = 1
            if g == "MathFn":
                op.pop("inv", None)
            c, cs = self.ctrls([s for s in live if s not in flat], g, used)
            if g == "Barrier":
                c = []
            if c:
                op["c"], op["cs"] = c, cs
                op["syn"] = rng.randint(0, 3)
            return op
        return None

    def hermitian(self, k):
        rng = self.rng
        if rng.random() < 0.6:
            return pauli_terms(rng, k, 1)
        # commuting terms: all Z, or a random single Pauli letter
        a = rng.choice("XYZ")
        out = []
        seen = set()
        for _ in range(rng.randint(2, 3)):
            idx = tuple(sorted(rng.sample(range(k), rng.randint(1, k))))
            if idx in seen:
                continue
            seen.add(idx)
            out.append([[[i, a] for i in idx], round(rng.uniform(-1, 1), 6)])
        return out

    def math_op(self, g, live):
        rng = self.rng
        n = len(live)
        if g in ("AddConstant", "SubConstant"):
            k = rng.randint(1, min(3, n)) if n else 0
            if k < 1:
                return None
            return [rng.sample(live, k)], [rng.randrange(0, 2**k)]
        if g in ("AddConstantModN", "SubConstantModN", "MultiplyByConstantModN"):
            return None  # only on registers with known bounded values: see modular()
        if g in ("AddQuantum", "SubtractQuantum"):
            k = n // 2
            if k < 1:
                return None
            k = rng.randint(1, min(2, k))
            s = rng.sample(live, 2 * k)
            return [s[:k], s[k:]], []
        if g == "ComparatorQuantum":
            k = (n - 1) // 2
            if k < 1:
                return None
            k = rng.randint(1, min(2, k))
            s = rng.sample(live, 2 * k + 1)
            return [s[:k], s[k : 2 * k], [s[2 * k]]], []
        if g == "MathFn":
            kind = rng.choice(["xor", "addc", "perm"])
            if kind == "xor":
                k = n // 2
                if k < 1:
                    return None
                k = rng.randint(1, min(2, k))
                s = rng.sample(live, 2 * k)
                return [s[:k], s[k:]], ["xor", rng.getrandbits(k)]
            k = rng.randint(1, min(3, n)) if n else 0
            if k < 1:
                return None
            if kind == "addc":
                return [rng.sample(live, k)], ["addc", rng.randrange(2**k)]
            return [rng.sample(live, k)], ["perm", rng.randrange(2**k) | 1, rng.randrange(2**k), k]
        return None

    def block_body(self, live, depth, used, n, scoped=True):
        """Operations legal inside a block: gates and nested blocks (ancillas only in balanced form)."""
        out = []
        for _ in range(n):
            r = self.rng.random()
            if depth > 0 and r < 0.25:
                b = self.block(live, depth - 1, used)
                if b:
                    out.append(b)
                    continue
            if r < 0.35 and scoped and self.room() and len(live) >= 1:
                out += self.local_ancilla(live, used)
                continue
            g = self.gate_op(live, used, self.block_gates)
            if g:
                out.append(g)
        return out

    def room(self, n=1):
        return len(self.live) + self.pending + self.extra + n <= self.max_qubits and self.total + n <= self.max_total

    extra = 0

    def local_ancilla(self, live, used):
        """alloc a; CNOT into it; use it; CNOT back; free: balanced, returns to |0>."""
        rng = self.rng
        src = rng.choice(live)
        a = self.new_slots(1)[0]
        cn = {"op": "g", "g": "X", "p": [], "t": [[a]], "c": [src], "cs": "1", "syn": rng.randint(0, 1)}
        mid = []
        others = [s for s in live if s != src]
        if others and "Rz" in self.gates and used + 1 <= self.max_controls:
            mid = [{"op": "g", "g": rng.choice([g for g in ("Rz", "X", "Z", "H") if g in self.gates] or ["X"]),
                    "p": [rng.uniform(-3, 3)], "t": [[rng.choice(others)]], "c": [a], "cs": "1"}]
        elif "Z" in self.gates:
            mid = [{"op": "g", "g": "Z", "p": [], "t": [[a]]}]
        if used + 1 > self.max_controls:
            cn = {"op": "g", "g": "Z", "p": [], "t": [[a]]}
            mid = []
        return [{"op": "alloc", "q": [a]}, cn] + mid + [dict(cn), {"op": "free", "q": [a], "how": "raw"}]

    def block(self, live, depth, used):
        rng = self.rng
        kinds = [k for k in self.blocks if k != "control" or (used < self.max_controls and len(live) >= 2)]
        if not kinds or not live:
            return None
        k = rng.choice(kinds)
        n = rng.randint(1, 3)
        if k == "control":
            m = rng.randint(1, min(2, len(live) - 1, self.max_controls - used))
            c = rng.sample(live, m)
            cs = "".join(rng.choice("01") if self.neg and rng.random() < 0.5 else "1" for _ in c)
            rest = [s for s in live if s not in c]
            return {"op": "control", "c": c, "cs": cs, "body": self.block_body(rest, depth, used + m, n)}
        if k == "dagger":
            return {"op": "dagger", "body": self.block_body(live, depth, used, n)}
        if k == "loop":
            return {"op": "loop", "n": rng.choice([0, 1, 2, 2, 3]), "body": self.block_body(live, depth, used, n)}
        # compute / uncompute, optionally with an ancilla living through the action
        comp = []
        inner = outer = list(live)
        anc = None
        if self.room() and len(live) >= 2 and rng.random() < 0.6:
            # ancilla living through the action: the action may read it but must leave everything it depends on alone
            anc = self.new_slots(1)[0]
            k2 = rng.randint(1, len(live) - 1)
            mix = rng.sample(live, len(live))
            inner, outer = mix[:k2] + [anc], mix[k2:]
            comp.append({"op": "alloc", "q": [anc]})
            src = mix[0]
            # inside Control, the compute section is executed unconditionally: `used` does not count for it,
            # but an enclosing Compute/Dagger/Loop may still be controlled, so stay within the limit
            if used + 1 <= self.max_controls:
                comp.append({"op": "g", "g": "X", "p": [], "t": [[anc]], "c": [src], "cs": "1"})
            self.extra += 1
        comp += self.block_body(inner, depth, used, n)
        act = self.block_body(outer, depth, used, rng.randint(1, 2))
        if anc is not None:
            for _ in range(rng.randint(1, 2)):
                if used + 1 <= self.max_controls:
                    act.append({"op": "g", "g": rng.choice([g for g in ("X", "Rz", "Z", "Ry") if g in self.ctrl_gates] or ["X"]),
                                "p": [rng.uniform(-3, 3)], "t": [[rng.choice(outer)]], "c": [anc],
                                "cs": rng.choice(["1", "0"]) if self.neg else "1"})
                else:
                    act.append({"op": "g", "g": "Z", "p": [], "t": [[rng.choice(outer)]]})
        custom = None
        if rng.random() < 0.35:
            custom = invert_ops(comp)
        if anc is not None:
            self.extra -= 1
        return {"op": "cu", "compute": comp, "action": act, "custom": custom}

    def generate(self):
        rng = self.rng
        out = []
        n0 = rng.randint(1, max(1, min(self.max_qubits, 3)))
        sl = self.new_slots(n0)
        out.append({"op": "alloc", "q": sl, "reg": rng.randint(0, 1)})
        self.live += sl
        for _ in range(rng.randint(3, self.max_ops)):
            out += self.top_op(2)
        return out

    def top_op(self, depth):
        rng = self.rng
        r = rng.random()
        live = self.live
        if r < 0.09 and self.room():
            k = rng.randint(1, 2)
            while k > 1 and not self.room(k):
                k -= 1
            sl = self.new_slots(k)
            self.live = live + sl
            op = {"op": "alloc", "q": sl}
            if k == 1 and self.dirty and rng.random() < 0.3:
                op["dirty"] = 1
            return [op]
        if r < 0.15 and self.measures and live:
            q = rng.sample(live, rng.randint(1, len(live)))
            self.measured |= set(q)
            return [{"op": "measure", "q": q, "syn": rng.randint(0, 2)}]
        if r < 0.21 and self.frees and len(live) > 1:
            q = rng.sample(live, 1)
            self.live = [s for s in live if s not in q]
            how = "cycle" if self.gcs and rng.random() < 0.3 else "del"
            if how == "cycle":
                self.pending += 1
            self.measured -= set(q)
            return [{"op": "free", "q": q, "how": how}]
        if self.flushes and r < 0.21 + self.flushes:
            return [{"op": "flush"}]
        if r < 0.33 and self.gcs:
            self.pending = 0
            return [{"op": "gc"}]
        if r < 0.38 and self.ifs and self.measured and depth > 0:
            q = rng.choice(sorted(self.measured))
            body = []
            save = list(self.live), set(self.measured), self.pending
            for _ in range(rng.randint(1, 3)):
                # no allocation or release inside the branch: live sets agree on both paths
                g = self.gate_op(self.live)
                if g:
                    body.append(g)
            self.live, self.measured, self.pending = save
            return [{"op": "if", "q": q, "neg": rng.randint(0, 1), "body": body}]
        if r < 0.52 and self.blocks and live:
            b = self.block(live, depth, 0)
            return [b] if b else []
        if live:
            g = self.gate_op(live)
            if g:
                # runs of related gates: cancellation and merging chances for the optimiser
                if rng.random() < 0.25:
                    h = dict(g)
                    if h.get("p") and isinstance(h["p"][0], float) and h["g"].startswith("R"):
                        h["p"] = [rng.choice([-g["p"][0], angle(rng)])]
                    elif self.inv and g["g"] not in self.no_inv and g["g"] != "MathFn":
                        h["inv"] = 1 - g.get("inv", 0)
                    out = [g]
                    if rng.random() < 0.4:
                        x = self.gate_op(live)
                        if x:
                            out.append(x)
                    return out + [h]
                return [g]
        return []


def slots_of(op):
    out = set()
    for k in ("q", "c"):
        v = op.get(k)
        if isinstance(v, list):
            out |= set(v)
        elif isinstance(v, int):
            out.add(v)
    for r in op.get("t", []):
        out |= set(r)
    for k in ("body", "compute", "action", "custom"):
        for o in op.get(k) or []:
            out |= slots_of(o)
    return out


def touches(op, s):
    return s in slots_of(op)


def written(op):
    """Slots an operation may change (targets); controls are only read."""
    out = set()
    for r in op.get("t", []):
        out |= set(r)
    if op["op"] in ("alloc", "free", "measure"):
        out |= set(op["q"])
    for k in ("body", "compute", "action", "custom"):
        for o in op.get(k) or []:
            out |= written(o)
    return out


def writes_any(op, slots):
    return bool(written(op) & set(slots))


def invert_ops(ops):
    """Hand-written inverse of a list of block-legal operations."""
    out = []
    for o in reversed(ops):
        o = dict(o)
        k = o["op"]
        if k == "alloc":
            out.append({"op": "free", "q": list(reversed(o["q"])), "how": "raw"})
        elif k == "free":
            out.append({"op": "alloc", "q": list(reversed(o["q"]))})
        elif k == "g":
            o["inv"] = 1 - o.get("inv", 0)
            if o["g"] == "MathFn":
                o = invert_mathfn(o)
            out.append(o)
        elif k in ("control", "loop"):
            o["body"] = invert_ops(o["body"])
            out.append(o)
        elif k == "dagger":
            out.append({"op": "dagger", "body": invert_ops(o["body"])})
        elif k == "cu":
            o["action"] = invert_ops(o["action"])
            out.append(o)
        else:
            out.append(o)
    return out


def invert_mathfn(o):
    p = o["p"]
    o = dict(o)
    o.pop("inv", None)
    if p[0] == "addc":
        k = len(o["t"][0])
        o["p"] = ["addc", (-p[1]) % 2**k]
    elif p[0] == "perm":
        inv = pow(p[1], -1, 1 << p[3])
        o["p"] = ["perm", inv, (-p[2] * inv) % (1 << p[3]), p[3]]
    return o
