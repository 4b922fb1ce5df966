"""Compiler chains under simulation: stock set-ups, assembled chains, probes and re-batching links."""
import math
import random

import numpy as np


# ------------------------------------------------------------------------------------------------ engines of ours
def _classes():
    from projectq.cengines import BasicEngine
    from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate

    class Link(BasicEngine):
        """Holds commands between two stages and delivers them in seeded batches; a flush drains it."""

        def __init__(self, seed, p_hold=0.6):
            super().__init__()
            self.rng = random.Random(seed)
            self.buf = []
            self.p_hold = p_hold
            self.batches = 0

        def receive(self, command_list):
            for cmd in command_list:
                self.buf.append(cmd)
                if isinstance(cmd.gate, FlushGate):
                    self.drain()
                elif self.rng.random() > self.p_hold:
                    # deliver a prefix, the rest stays
                    self.drain(self.rng.randint(1, len(self.buf)))

        def drain(self, n=None):
            n = len(self.buf) if n is None else n
            while n > 0:
                k = self.rng.randint(1, n)
                out, self.buf = self.buf[:k], self.buf[k:]
                n -= k
                self.batches += 1
                self.send(out)

    class Probe(BasicEngine):
        """Sees every command at one point of the chain; optional predicate plays the target's gate set."""

        def __init__(self, predicate=None, name=""):
            super().__init__()
            self.predicate = predicate
            self.name = name
            self.log = []
            self.bad = []

        def is_available(self, cmd):
            if self.predicate is not None:
                return bool(self.predicate(cmd))
            return super().is_available(cmd)

        def receive(self, command_list):
            for cmd in command_list:
                self.log.append(snap(cmd))
                if self.predicate is not None and not isinstance(cmd.gate, FlushGate) and not self.predicate(cmd):
                    self.bad.append(str(cmd))
            self.send(command_list)

    class Peak(BasicEngine):
        """Counts the qubits simultaneously alive in front of the mapper."""

        def __init__(self):
            super().__init__()
            self.live = set()
            self.peak = 0
            self.total = 0

        def receive(self, command_list):
            for cmd in command_list:
                if isinstance(cmd.gate, AllocateQubitGate):
                    self.live.add(cmd.qubits[0][0].id)
                    # identifiers are used up in order; some never reach the chain (unexecuted loop bodies)
                    self.total = max(self.total + 1, cmd.qubits[0][0].id + 1)
                    self.peak = max(self.peak, len(self.live))
                elif isinstance(cmd.gate, DeallocateQubitGate):
                    self.live.discard(cmd.qubits[0][0].id)
                self.send([cmd])

    return Link, Probe, Peak


_cls = None


def classes():
    global _cls
    if _cls is None:
        _cls = _classes()
    return _cls


def Link(*a, **k):
    return classes()[0](*a, **k)


def Probe(*a, **k):
    return classes()[1](*a, **k)


def snap(cmd):
    """Plain-data picture of a command."""
    from projectq.ops import FlushGate

    return ("Flush" if isinstance(cmd.gate, FlushGate) else str(cmd.gate), tuple(tuple(q.id for q in r) for r in cmd.qubits), tuple(q.id for q in cmd.control_qubits),
            cmd.control_state, tuple(str(t.logical_qubit_id) if hasattr(t, "logical_qubit_id") else type(t).__name__ for t in cmd.tags))


# ------------------------------------------------------------------------------------------------ faked device lists
IBM_MAPS = {
    "ibmq_bowtie": [(0, 1), (0, 2), (1, 2), (3, 2), (3, 4), (4, 2)],
    "ibmq_line": [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2), (3, 4), (4, 3)],
    "ibmq_T": [(1, 0), (1, 2), (3, 1), (3, 4)],
}
# the 2x8 grid the set-up for this device assumes, each edge usable in one direction only
MELBOURNE = [(0, 1), (2, 1), (2, 3), (4, 3), (5, 4), (5, 6), (6, 15), (14, 13), (12, 13), (11, 12), (11, 10), (10, 9), (9, 8), (8, 7),
             (0, 14), (13, 1), (12, 2), (3, 11), (4, 10), (9, 5), (6, 8), (15, 7)]


def ibm_devices():
    d = {k: {"coupling_map": [list(x) for x in v], "version": "1", "nq": 5} for k, v in IBM_MAPS.items()}
    d["ibmq_16_melbourne"] = {"coupling_map": [list(x) for x in MELBOURNE], "version": "1", "nq": 16}
    d["ibmq_qasm_simulator"] = {"coupling_map": [], "version": "1", "nq": 32}
    return d


def fake_services():
    """Device lists come from tables instead of the network."""
    import projectq.setups.aqt as aqt
    import projectq.setups.awsbraket as aws
    import projectq.setups.ibm as ibm
    import projectq.setups.ionq as ionq

    ibm.show_devices = lambda *a, **k: ibm_devices()
    aqt.show_devices = lambda *a, **k: {"aqt_simulator": {"nq": 11, "version": "0", "url": "sim/"}}
    aws.show_devices = lambda *a, **k: {
        "SV1": {"nq": 34}, "Aspen-8": {"nq": 32}, "IonQ Device": {"nq": 11}}

    class FakeIonQ:
        def authenticate(self, token=None):
            pass

        def show_devices(self):
            return {"ionq_simulator": {"nq": 29, "target": "simulator"}, "ionq_qpu": {"nq": 11, "target": "qpu"}}

    ionq.IonQ = FakeIonQ


GATE_BY_NAME = ["X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Ph", "Rxx", "Ryy", "Rzz", "CNOT", "CZ",
                "Swap", "TimeEvolution", "QFT", "Barrier"]


def gates_by_name(names):
    import projectq.ops as ops

    if names == "any":
        return "any"
    out = []
    for n in names:
        if n == "CZ":
            out.append(ops.C(ops.Z))
        else:
            out.append(getattr(ops, n))
    return tuple(out)


def declared_set(one, two, other=()):
    """Independent reading of a declared gate set: predicate over commands."""
    import projectq.ops as ops

    def matches(cmd, names, nq):
        nc = len(cmd.control_qubits)
        for n in names:
            if n == "CNOT":
                if nc == 1 and cmd.gate == ops.X:
                    return True
            elif n == "CZ":
                if nc == 1 and cmd.gate == ops.Z:
                    return True
            else:
                g = getattr(ops, n)
                if isinstance(g, type):
                    if isinstance(cmd.gate, g) and (nq is None or nc == 0 or True):
                        return True
                elif cmd.gate == g and nc == 0:
                    return True
        return False

    def pred(cmd):
        n = sum(len(r) for r in cmd.all_qubits)
        if isinstance(cmd.gate, ops.ClassicalInstructionGate):
            return True
        if "0" in cmd.control_state:
            return False
        if n == 1:
            return one == "any" or matches(cmd, one, 1) or matches(cmd, other, None)
        if n == 2:
            return two == "any" or matches(cmd, two, 2) or matches(cmd, other, None)
        return matches(cmd, other, None)

    return pred


def rule_set():
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq.cengines import DecompositionRuleSet

    return DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])


class Built:
    """A chain: engines, predicate at the end, device topology."""

    def __init__(self):
        self.engines = []
        self.predicate = None
        self.mapper = None
        self.edges = None  # undirected set of frozensets, or None
        self.directed = None
        self.positions = None
        self.max_live = None
        self.max_total = None
        self.may_reject = ()  # exception texts meaning "does not fit"
        self.single_run = False


def build(pipe, stage_rng_seed=0):
    """Engine list for a pipeline description (JSON)."""
    from projectq import cengines as ce
    from projectq import setups  # noqa

    b = Built()
    k = pipe["kind"]
    if k == "default":
        import projectq.setups.default as s

        b.engines = s.get_engine_list()
    elif k == "restricted":
        import projectq.setups.restrictedgateset as s

        b.engines = s.get_engine_list(one_qubit_gates=gates_by_name(pipe["one"]), two_qubit_gates=gates_by_name(pipe["two"]),
                                      other_gates=gates_by_name(pipe.get("other", [])))
        b.predicate = declared_set(pipe["one"], pipe["two"], pipe.get("other", []))
    elif k == "linear":
        import projectq.setups.linear as s

        b.engines = s.get_engine_list(num_qubits=pipe["n"], cyclic=pipe["cyclic"], one_qubit_gates=gates_by_name(pipe["one"]),
                                      two_qubit_gates=gates_by_name(pipe["two"]))
        b.predicate = declared_set(pipe["one"], pipe["two"])
        b.edges, b.positions = line_edges(pipe["n"], pipe["cyclic"])
        b.max_live = pipe["n"]
    elif k == "grid":
        import projectq.setups.grid as s

        b.engines = s.get_engine_list(num_rows=pipe["rows"], num_columns=pipe["cols"], one_qubit_gates=gates_by_name(pipe["one"]),
                                      two_qubit_gates=gates_by_name(pipe["two"]))
        b.predicate = declared_set(pipe["one"], pipe["two"])
        b.edges, b.positions = grid_edges(pipe["rows"], pipe["cols"])
        b.max_live = pipe["rows"] * pipe["cols"]
    elif k == "ion":
        import projectq.setups.trapped_ion_decomposer as s

        b.engines = s.get_engine_list()
        b.predicate = declared_set(["Rx", "Ry"], ["Rxx"])
    elif k == "ibm":
        import projectq.setups.ibm as s
        from projectq.backends import IBMBackend

        fake_services()
        b.engines = s.get_engine_list(device=pipe["device"])
        b.predicate = IBMBackend().is_available
        if pipe["device"] == "ibmq_qasm_simulator":
            b.max_total = 32
        elif pipe["device"] == "ibmq_16_melbourne":
            b.directed = set(MELBOURNE)
            b.positions = set(range(16))
            b.max_live = 16
        else:
            b.directed = set(IBM_MAPS[pipe["device"]])
            b.positions = set(range(5))
            b.max_total = 5
            b.single_run = True
            b.may_reject = ("Circuit cannot be mapped without using Swaps", "Too many qubits allocated")
    elif k == "aqt":
        import projectq.setups.aqt as s
        from projectq.backends import AQTBackend

        fake_services()
        b.engines = s.get_engine_list(device="aqt_simulator")
        b.predicate = AQTBackend(device="aqt_simulator").is_available
        b.max_total = 11
    elif k == "ionq":
        import projectq.setups.ionq as s
        from projectq.backends import IonQBackend

        fake_services()
        b.engines = s.get_engine_list(device=pipe["device"])
        b.predicate = IonQBackend(device=pipe["device"]).is_available
        b.max_total = 11 if pipe["device"] == "ionq_qpu" else 29
    elif k == "aws":
        import projectq.setups.awsbraket as s
        from projectq.backends import AWSBraketBackend

        fake_services()
        b.engines = s.get_engine_list(device=pipe["device"])
        b.predicate = AWSBraketBackend(device=pipe["device"]).is_available
    elif k == "custom":
        b.engines = custom(pipe["stages"], b)
    else:
        raise KeyError(k)
    from projectq.cengines import BasicMapperEngine

    b.peak = None
    for i, e in enumerate(b.engines):
        if isinstance(e, BasicMapperEngine):
            b.mapper = e
            b.peak = classes()[2]()
            b.engines.insert(i, b.peak)
            break
    return b


def line_edges(n, cyclic):
    e = {frozenset((i, i + 1)) for i in range(n - 1)}
    if cyclic and n > 2:
        e.add(frozenset((0, n - 1)))
    return e, set(range(n))


def grid_edges(r, c):
    e = set()
    for i in range(r):
        for j in range(c):
            if j + 1 < c:
                e.add(frozenset((i * c + j, i * c + j + 1)))
            if i + 1 < r:
                e.add(frozenset((i * c + j, (i + 1) * c + j)))
    return e, set(range(r * c))


class Mark:
    """A tag of the user's own; as the documentation demands of tags, it can be compared, and no more."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Mark) and self.n == other.n

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return f"Mark({self.n})"


def marker(seed):
    """A stage which puts tags of the user's on some of the commands."""
    import random

    from projectq.cengines import CommandModifier
    from projectq.ops import FlushGate

    rng = random.Random(seed)
    often = rng.choice([0.2, 0.5, 1.0])
    kinds = rng.choice([1, 2])

    def mod(cmd):
        if not isinstance(cmd.gate, FlushGate) and rng.random() < often:
            m = Mark(rng.randrange(kinds))
            cmd.tags = [m] + cmd.tags if rng.random() < 0.5 else cmd.tags + [m]
        return cmd

    return CommandModifier(mod)


def custom(stages, b):
    """Hand-assembled chain."""
    from projectq import backends as be
    from projectq import cengines as ce

    out = []
    for s in stages:
        k = s["stage"]
        if k == "tags":
            out.append(ce.TagRemover())
        elif k == "opt":
            out.append(ce.LocalOptimizer(s["m"]))
        elif k == "rep":
            out.append(ce.AutoReplacer(rule_set()))
        elif k == "filter":
            pred = declared_set(s["one"], s["two"], s.get("other", []))
            out.append(ce.InstructionFilter(lambda eng, cmd, p=pred: p(cmd)))
        elif k == "manual":
            perm = s["perm"]
            out.append(ce.ManualMapper(lambda i, p=perm: p[i] if i < len(p) else i + 1000))
        elif k == "linear":
            out.append(ce.LinearMapper(s["n"], cyclic=s.get("cyclic", False), storage=s.get("storage", 1000)))
            b.edges, b.positions = line_edges(s["n"], s.get("cyclic", False))
            b.max_live = s["n"]
        elif k == "grid":
            m = {int(a): c for a, c in s["perm"]} if s.get("perm") else None
            out.append(ce.GridMapper(s["rows"], s["cols"], m, storage=s.get("storage", 1000)))
            e, p = grid_edges(s["rows"], s["cols"])
            if m:
                e = {frozenset(m[x] for x in f) for f in e}
                p = {m[x] for x in p}
            b.edges, b.positions = e, p
            b.max_live = s["rows"] * s["cols"]
        elif k == "bounded":
            from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper

            out.append(BoundedQubitMapper(s["n"]))
            b.max_live = s["n"]
            b.positions = set(range(s["n"]))
        elif k == "ibm5":
            out.append(ce.IBM5QubitMapper(connections={tuple(e) for e in s["edges"]}))
            out.append(ce.SwapAndCNOTFlipper({tuple(e) for e in s["edges"]}))
            b.directed = {tuple(e) for e in s["edges"]}
            b.positions = set(range(5))
            b.max_live = 5
        elif k == "flip":
            edges = {tuple(x) for x in s["edges"]}
            b.directed = edges
            out.append(ce.SwapAndCNOTFlipper(edges))
        elif k == "mark":
            out.append(marker(s["seed"]))
        elif k == "mod":
            out.append(ce.CommandModifier(lambda cmd: cmd))
        elif k == "count":
            out.append(be.ResourceCounter())
        elif k == "compare":
            out.append(ce.DummyEngine())
        elif k == "draw":
            out.append(be.CircuitDrawer())
        elif k == "print":
            out.append(be.CommandPrinter(accept_input=False))
        else:
            raise KeyError(k)
    return out


# ------------------------------------------------------------------------------------------------ extraction of the state
def sim_state(eng, sim):
    """(live qubit positions -> bit index, vector) of a Simulator back-end."""
    m, v = sim.cheat()
    return dict(m), np.array(v)


def order_by(mapping_logical, sim_map):
    """logical ids ordered by bit index in the simulator vector."""
    inv = {pos: bit for pos, bit in sim_map.items()}
    return sorted(mapping_logical, key=lambda l: inv[mapping_logical[l]])
