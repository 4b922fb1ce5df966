"""Run a program through a pipeline on the real code and against the reference."""
import gc
import math
import random

import numpy as np

from . import chain, env
from . import prog as P
from . import ref as R

TOL = 2e-6

BASE = P.GATES_1 + ["Swap", "SqrtSwap", "QFT", "Entangle", "TimeEvolution", "QubitOp", "FlipBits", "UCRy", "UCRz", "AddConstant",
                    "SubConstant", "AddQuantum", "SubtractQuantum", "ComparatorQuantum"]
NATIVE_1 = ["H", "X", "Y", "Z", "S", "Sdag", "T", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Ph", "Mat1"]


def support(pipe):
    """Gates with an implementation in this pipeline: (gates, controllable gates, most controls per gate)."""
    k = pipe["kind"]
    gates = list(BASE)
    ctrl = list(BASE)
    cmax = {"AddQuantum": 1, "SubtractQuantum": 1}
    if k == "default":
        gates += ["Barrier", "MatN", "Rxx", "Ryy", "Rzz", "MathFn"]
        ctrl += ["MatN", "Rxx", "Ryy", "Rzz", "MathFn"]
        cmax = {}
    elif k in ("ion", "aqt"):
        gates += ["Rxx"]
    elif k == "ionq":
        gates += ["Rxx", "Ryy", "Rzz"]
    elif k == "native":
        gates = P.GATES_1 + ["Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz", "MatN", "TimeEvolution", "AddConstant",
                             "SubConstant", "AddQuantum", "SubtractQuantum", "ComparatorQuantum", "MathFn"]
        ctrl = list(gates)
        cmax = {}
    if pipe.get("one") == "any" or pipe.get("any1"):
        bad = {"QFT", "AddConstant", "SubConstant"}
        gates = [g for g in gates if g not in bad]
        ctrl = [g for g in ctrl if g not in bad]
    return gates, ctrl, cmax


def gen_pipe(rng):
    """A pipeline description."""
    r = rng.random()
    if r < 0.14:
        return {"kind": "default"}
    if r < 0.28:
        one = rng.choice([["Rz", "Ry", "Rx", "H"], ["Rz", "Ry", "Rx", "H", "X"], "any", ["Ry", "Rz", "H", "X", "T", "S"]])
        return {"kind": "restricted", "one": one, "two": rng.choice([["CNOT"], ["CNOT"], ["CNOT", "Swap"]]), "other": []}
    if r < 0.38:
        n = rng.randint(5, 7)
        return {"kind": "linear", "n": n, "cyclic": bool(rng.getrandbits(1)), "one": rng.choice(["any", ["Rz", "Ry", "Rx", "H"]]),
                "two": ["CNOT", "Swap"] if rng.random() < 0.7 else ["CNOT"]}
    if r < 0.46:
        a, b = rng.choice([(2, 3), (3, 2), (1, 6), (2, 4), (3, 3)])
        return {"kind": "grid", "rows": a, "cols": b, "one": rng.choice(["any", ["Rz", "Ry", "Rx", "H"]]),
                "two": ["CNOT", "Swap"] if rng.random() < 0.7 else ["CNOT"]}
    if r < 0.54:
        return {"kind": "ion"}
    if r < 0.66:
        return {"kind": "ibm", "device": rng.choice(["ibmq_qasm_simulator", "ibmq_16_melbourne", "ibmq_bowtie", "ibmq_line", "ibmq_T"])}
    if r < 0.71:
        return {"kind": "aqt"}
    if r < 0.77:
        return {"kind": "ionq", "device": rng.choice(["ionq_simulator", "ionq_qpu"])}
    if r < 0.84:
        return {"kind": "aws", "device": rng.choice(["SV1", "Aspen-8", "IonQ Device"])}
    return gen_custom(rng)


def gen_custom(rng):
    """Hand-assembled chain; the simulator behind it accepts everything that reaches it."""
    st = []

    def opt():
        if rng.random() < 0.6:
            st.append({"stage": "opt", "m": rng.choice([1, 2, 3, 4, 5, 8, 10])})

    def extra():
        if rng.random() < 0.25:
            st.append(rng.choice([{"stage": k} for k in ("tags", "mod", "count")] + [{"stage": "mark", "seed": rng.getrandbits(20)}]))

    pipe = {"kind": "custom", "stages": st}
    if rng.random() < 0.35:
        # no decomposition: native commands straight to the simulator
        extra()
        opt()
        extra()
        if rng.random() < 0.4:
            st.append({"stage": "manual", "perm": rng.sample(range(40), 30)})
        opt()
        pipe["native"] = 1
        return pipe
    st.append({"stage": "rep"})
    extra()
    two = rng.choice([["CNOT"], ["CNOT", "Swap"]])
    st.append({"stage": "filter", "one": ["Rz", "Ry", "Rx", "H", "X"], "two": two})
    st.append({"stage": "tags"})
    opt()
    m = rng.random()
    if m < 0.3:
        n = rng.randint(4, 7)
        st.append({"stage": "linear", "n": n, "cyclic": bool(rng.getrandbits(1)), "storage": rng.choice([1, 2, 3, 10, 1000])})
        edges = chain.line_edges(n, st[-1]["cyclic"])[0]
    elif m < 0.65:
        a, b = rng.choice([(2, 2), (2, 3), (3, 2), (1, 5), (2, 4), (3, 3)])
        perm = None
        if rng.random() < 0.4:
            # the mapper requires the physical ids to cover 0..n-1
            ids = rng.sample(range(a * b), a * b)
            perm = [[i, ids[i]] for i in range(a * b)]
        st.append({"stage": "grid", "rows": a, "cols": b, "perm": perm, "storage": rng.choice([1, 2, 3, 10, 1000])})
        edges = chain.grid_edges(a, b)[0]
        if perm:
            mp = dict((x, y) for x, y in perm)
            edges = {frozenset(mp[x] for x in e) for e in edges}
    elif m < 0.8:
        st.append({"stage": "manual", "perm": rng.sample(range(60), 50)})
        edges = None
    else:
        edges = None
    opt()
    if edges is not None and rng.random() < 0.5:
        # one direction per connection
        if rng.random() < 0.5:
            st.append({"stage": "rep"})
            st.append({"stage": "filter", "one": ["Rz", "Ry", "Rx", "H", "X"], "two": ["CNOT"]})
        d = []
        for e in sorted(sorted(x) for x in edges):
            d.append(e if rng.random() < 0.5 else [e[1], e[0]])
            if rng.random() < 0.2:
                d.append([d[-1][1], d[-1][0]])
        st.append({"stage": "flip", "edges": d})
        opt()
    extra()
    return pipe


def budget(pipe, rng):
    """(max live user qubits, max total, max controls) so that the program with its ancillas fits the device."""
    k = pipe["kind"]
    room = rng.choice([2, 2, 1, 0])
    if k in ("linear",):
        return max(2, pipe["n"] - room), None, 2
    if k == "grid":
        return max(2, pipe["rows"] * pipe["cols"] - room), None, 2
    if k == "ibm" and pipe["device"] != "ibmq_16_melbourne":
        if pipe["device"] == "ibmq_qasm_simulator":
            return 4, 8, 1
        return 4, 4, 1
    if k == "aqt":
        return 4, 6, 1
    if k == "custom":
        for s in pipe["stages"]:
            if s["stage"] == "linear":
                return max(2, s["n"] - room), None, 2
            if s["stage"] == "grid":
                return max(2, s["rows"] * s["cols"] - room), None, 2
            if s["stage"] == "manual":
                return 5, 12, 2
    return 5, None, 2


def arith_prefix(rng, gen, pipe):
    """Registers in known basis states and an arithmetic or phase-estimation operation on them."""
    out = []
    k = pipe["kind"]
    if gen.max_qubits < 5 or gen.max_total < 10**8 or pipe.get("one") == "any" or pipe.get("native"):
        return out
    kind = rng.choice(["modn", "modn", "mul", "div", "qpe", "prep", "prep"])
    ctl = []

    def setv(reg, v):
        return [{"op": "g", "g": "X", "p": [], "t": [[s]]} for i, s in enumerate(reg) if v >> i & 1]

    if kind == "prep":
        # controlled, too: the phases of the amplitudes are then relative to the branch which stays in |0...0>
        n = rng.randint(1, 3)
        for _ in range(rng.choice([0, 1, 1, 2]) if n < 3 else rng.choice([0, 1])):
            ctl += gen.new_slots(1)
            out += [{"op": "alloc", "q": ctl[-1:]}, {"op": "g", "g": "Ry", "p": [rng.uniform(0.3, 2.8)], "t": [ctl[-1:]]}]
        reg = gen.new_slots(n)
        op = {"op": "g", "g": "StatePrep", "p": [rng.getrandbits(20), n], "t": [reg]}
        if ctl:
            op["c"], op["cs"] = list(ctl), "".join(rng.choice("01") if gen.neg else "1" for _ in ctl)
        out += [{"op": "alloc", "q": reg, "reg": 1}, op]
        gen.live += ctl + reg
        return out
    ctl = []
    if rng.random() < 0.5:
        ctl = gen.new_slots(1)
        out += [{"op": "alloc", "q": ctl}, {"op": "g", "g": "Ry", "p": [rng.uniform(0, 3)], "t": [ctl]}]
        gen.live += ctl
    if kind == "modn":
        n = rng.randint(1, 3)
        N = rng.randint(2, 2**n)
        g = rng.choice(["AddConstantModN", "SubConstantModN", "MultiplyByConstantModN"])
        a = rng.randrange(N)
        if g == "MultiplyByConstantModN":
            n = min(n, 2)
            N = rng.randint(2, 2**n)
            a = rng.choice([x for x in range(1, N) if math.gcd(x, N) == 1] or [1])
        reg = gen.new_slots(n)
        out += [{"op": "alloc", "q": reg, "reg": 1}] + setv(reg, rng.randrange(N))
        op = {"op": "g", "g": g, "p": [a % N, N], "t": [reg]}
    elif kind == "mul":
        n = 1
        r = [gen.new_slots(n), gen.new_slots(n), gen.new_slots(2 * n + 1)]
        out += [{"op": "alloc", "q": x, "reg": 1} for x in r]
        out += setv(r[0], rng.randrange(2**n)) + setv(r[1], rng.randrange(2**n))
        op = {"op": "g", "g": "MultiplyQuantum", "p": [], "t": r}
        ctl = []
        reg = r[0] + r[1] + r[2]
    elif kind == "div":
        n = 2
        r = [gen.new_slots(n), gen.new_slots(n), gen.new_slots(n)]
        out += [{"op": "alloc", "q": x, "reg": 1} for x in r]
        # the circuit is defined for divisors whose top bit is clear
        out += setv(r[0], rng.randrange(1, 2**n)) + setv(r[2], 1)
        op = {"op": "g", "g": "DivideQuantum", "p": [], "t": r}
        ctl = []
        reg = r[0] + r[1] + r[2]
    else:
        na = rng.randint(1, 2)
        r = [gen.new_slots(na), gen.new_slots(1)]
        out += [{"op": "alloc", "q": x, "reg": 1} for x in r]
        out += [{"op": "g", "g": "Ry", "p": [rng.uniform(0, 3)], "t": [r[1]]}]
        op = {"op": "g", "g": "QPE", "p": [rng.choice(["R", "Rz", "Rx"]), [rng.uniform(-3, 3)]], "t": r}
        reg = r[0] + r[1]
    if kind in ("mul", "div") and k != "default" and gen.max_qubits < 6:
        gen.live += reg
        return out
    gen.live += reg
    if ctl and kind != "qpe":
        op["c"], op["cs"] = ctl, rng.choice("01") if gen.neg else "1"
    out.append(op)
    return out


def gen_scenario(seed, tier, pipe=None, **over):
    rng = random.Random(seed)
    pipe = pipe or gen_pipe(rng)
    q, tot, mc = budget(pipe, rng)
    sup = support({"kind": "native"} if pipe.get("native") else pipe)
    single = pipe["kind"] == "ibm" and pipe["device"] in chain.IBM_MAPS
    kw = dict(max_qubits=min(q, rng.choice([2, 3, 4, 5, 5, 6])), max_total=tot, max_controls=rng.choice([0, 1, mc]) if mc else 0,
              ctrl_gates=sup[1], ctrl_max=sup[2], no_inv=("MathFn",), max_ops=rng.choice([4, 8, 15, 25] if tier == "quick" else [4, 8, 15, 30, 60]),
              flushes=rng.choice([0, 0.05, 0.2]))
    if single:
        kw.update(flushes=0, ifs=False, frees=False, gcs=False, measures=False, max_controls=1, blocks=())
        sup = (P.GATES_1 + ["Swap", "UCRy"], P.GATES_1, {})
        kw["ctrl_gates"] = P.GATES_1
    if pipe["kind"] in ("ibm", "aqt"):
        kw["blocks"] = ("control", "dagger", "loop")
    kw["block_gates"] = [g for g in sup[0] if g != "MathFn"]  # user functions have no inverse
    kw.update(over)
    g = P.Gen(rng, sup[0], **kw)
    pre = []
    if not single and rng.random() < 0.25:
        pre = arith_prefix(rng, g, pipe)
    prog = pre + g.generate()
    links = sorted(rng.sample(range(12), rng.choice([0, 0, 1, 2, 4])))
    return {"pipe": pipe, "prog": prog, "links": [[i, rng.getrandbits(30)] for i in links], "sim": rng.getrandbits(30),
            "fusion": rng.getrandbits(1), "gc": rng.getrandbits(1)}


def insert_links(engines, links, b):
    """Insert re-batching links at the given stage boundaries."""
    out = list(engines)
    for pos, seed in sorted(links, reverse=True):
        out.insert(pos % (len(engines) + 1), chain.Link(seed))
    return out


def silence(eng):
    for q in list(eng.active_qubits):
        q.id = -1
    eng.flush = lambda *a, **k: None
    eng.active_qubits.clear()
    env.ATEXIT.clear()


class Run:
    """Outcome of one program on one pipeline."""

    def __init__(self):
        self.error = None
        self.built = None
        self.probe = None
        self.runner = None
        self.eng = None
        self.sim = None
        self.state = None
        self.mapping = None


def topology_violation(b, log):
    """First command that two-qubit-acts on positions the device does not connect."""
    for g, regs, ctrl, cs, tags in log:
        n = sum(len(r) for r in regs) + len(ctrl)
        if g.startswith(("Measure", "Allocate", "Deallocate", "Flush", "Barrier")):
            ids = [i for r in regs for i in r]
            if b.positions is not None and any(i not in b.positions for i in ids) and not g.startswith("Flush"):
                return f"{g} on position {ids} outside the device"
            continue
        ids = [i for r in regs for i in r] + list(ctrl)
        if b.positions is not None and any(i not in b.positions for i in ids):
            return f"{g} on position {ids} outside the device"
        if n == 2:
            if b.edges is not None and frozenset(ids) not in b.edges:
                return f"{g} {ids} on unconnected positions"
            if b.directed is not None and len(ctrl) == 1 and g == "X":
                if (ctrl[0], regs[0][0]) not in b.directed:
                    return f"CNOT {ctrl[0]}->{regs[0][0]} against the device's direction"
        elif n > 2 and b.edges is not None:
            return f"{g} on {n} qubits on a device with two-qubit connections"
    return None


def execute(sc, r, teardown=True):
    """Run scenario sc, report into Result r.  Returns the Run (closed down)."""
    from projectq import MainEngine
    from projectq.backends import Simulator

    env.quiesce()
    run = Run()
    random.seed(sc["sim"] ^ 0x5A5A)
    np.random.seed(sc["sim"] & 0x7FFFFFFF)
    b = run.built = chain.build(sc["pipe"])
    run.probe = pr = chain.Probe(b.predicate)
    run.sim = sim = Simulator(gate_fusion=bool(sc["fusion"]), rnd_seed=sc["sim"])
    engines = insert_links(b.engines, sc.get("links", []), b) + [pr]
    run.eng = eng = MainEngine(sim, engines)
    run.runner = rn = P.Runner(eng, collect_gc=bool(sc.get("gc", 1)))
    try:
        try:
            rn.run(sc["prog"])
            eng.flush()
        except Exception as e:  # noqa
            run.error = e
        judge(sc, r, run, teardown)
    finally:
        silence(eng)
        rn.s.q.clear()
        gc.collect()
    r.cover.update(f"{g}/{len(c)}/{cs}" for g, regs, c, cs, t in pr.log if len(g) < 12)
    r.hit("ops", rn.count)
    r.hit("commands", len(pr.log))
    r.hit("pipe." + sc["pipe"]["kind"])
    if sc.get("links"):
        r.hit("fault.rebatched_boundaries", len(sc["links"]))
    return run


def judge(sc, r, run, teardown):
    rn, eng, sim, b, pr = run.runner, run.eng, run.sim, run.built, run.probe
    x = P.Expander(P.outcomes_by_slot(rn))
    exhausted = False
    try:
        x.run(sc["prog"])
    except P.Exhausted:
        exhausted = True
    except P.Invalid as e:
        if x.problems:
            r.violate("outcome", x.problems[0])
            return
        r.nontrivial = False
        r.log("invalid program", e)
        return
    if run.error is not None:
        msg = f"{type(run.error).__name__}: {run.error}"
        if b.peak is not None and b.max_live is not None and b.peak.peak > b.max_live or b.max_total is not None and b.peak is not None and b.peak.total > b.max_total or any(t in msg for t in b.may_reject):
            r.hit("probe.does_not_fit")
            r.nontrivial = False
            r.log("does not fit")
            return
        r.violate("error", f"pipeline {sc['pipe']['kind']}: {msg}")
        return
    if exhausted:
        r.violate("lost measurement", "a measured qubit has no recorded outcome after the final flush")
        return
    if pr.bad:
        r.violate("not accepted", f"{pr.bad[0]} reached a back-end that does not accept it ({sc['pipe']})")
        return
    t = topology_violation(b, pr.log)
    if t:
        r.violate("topology", t)
        return
    # collect garbage that is still waiting, on both sides
    gc.collect()
    eng.flush()
    for z in x.zombies:
        x.r.free(z)
    if b.single_run:
        run.state = sim.cheat()
    m, v = chain.sim_state(eng, sim)
    ids = {s: q.id for s, q in rn.s.q.items()}
    if b.mapper is not None:
        cm = b.mapper.current_mapping
        mp = {}
        for s, i in ids.items():
            if i not in cm:
                r.violate("mapping", f"live qubit {i} is not in the mapping after a flush")
                return
            mp[s] = cm[i]
    else:
        mp = ids
    if set(mp) != x.live:
        r.violate("harness-live", f"{sorted(mp)} vs {sorted(x.live)}")
        return
    if sorted(mp.values()) != sorted(m):
        r.violate("live qubits", f"program has positions {sorted(mp.values())}, back-end holds {sorted(m)}")
        return
    f = R.fidelity(x.r.vector(chain.order_by(mp, m)), v)
    r.log("fid", round(f, 6), "outcomes", sorted((k, tuple(o)) for k, o in rn.outcomes.items()))
    for c in pr.log:
        r.log(c)
    if abs(np.linalg.norm(v) - 1) > 1e-6:
        r.violate("norm", f"state norm {np.linalg.norm(v)}")
        return
    if not f > 1 - TOL:
        r.violate("state", f"fidelity {f:.9f} with the program's ideal state (pipeline {sc['pipe']})")
        return
    # values readable at the end are the last recorded ones
    for s, q in rn.s.q.items():
        if s in x.last and s in x.measured:
            if int(q) != x.last[s]:
                r.violate("read", f"qubit reads {int(q)}, recorded outcome {x.last[s]}")
    if teardown and not b.single_run:
        from projectq.ops import Measure

        try:
            for s in list(rn.s.q):
                q = rn.s.q.pop(s)
                Measure | q
                del q
            eng.flush()
        except Exception as e:  # noqa
            r.violate("teardown", f"{type(e).__name__}: {e}")
            return
        m, _ = sim.cheat()
        if m:
            r.violate("leak", f"positions {sorted(m)} still allocated after every qubit was released")
