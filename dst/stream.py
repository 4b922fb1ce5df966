"""Programs through hand-assembled chains, judged at every flush."""
import gc
import random

import numpy as np

from . import chain, compiled, env
from . import prog as P
from . import ref as R

TOL = 2e-6


def _tag_classes():
    from projectq.cengines import BasicEngine
    from projectq.ops import FlushGate

    class Ident:
        """Marks one issued command."""

        def __init__(self, n):
            self.n = n

        def __eq__(self, other):
            return isinstance(other, Ident) and other.n == self.n

        def __hash__(self):
            return hash(self.n)

        def __repr__(self):
            return f"#{self.n}"

    class TagIn(BasicEngine):
        """First engine: gives every command an identity."""

        def __init__(self):
            super().__init__()
            self.issued = []  # (n, gate, ids)

        def receive(self, command_list):
            for cmd in command_list:
                if not isinstance(cmd.gate, FlushGate):
                    n = len(self.issued)
                    self.issued.append((n, str(cmd.gate), tuple(q.id for reg in cmd.all_qubits for q in reg)))
                    cmd.tags = cmd.tags + [Ident(n)]
            self.send(command_list)

    class TagOut(BasicEngine):
        """Last engine: which identities arrived, in which order."""

        def __init__(self):
            super().__init__()
            self.seen = []  # identity (or None) per arriving command
            self.flushes = 0

        def receive(self, command_list):
            for cmd in command_list:
                if isinstance(cmd.gate, FlushGate):
                    self.flushes += 1
                else:
                    self.seen.append([t.n for t in cmd.tags if isinstance(t, Ident)])
            self.send(command_list)

    return TagIn, TagOut


_tc = None


def tag_classes():
    global _tc
    if _tc is None:
        _tc = _tag_classes()
    return _tc


class Flushing(P.Runner):
    """Runner which takes a snapshot after every top-level flush."""

    def __init__(self, eng, sim, mapper, **k):
        super().__init__(eng, **k)
        self.sim = sim
        self.mapper = mapper
        self.snaps = []
        self.index = -1
        self.on_flush = None
        self.measured_slots = {}

    def run_top(self, ops):
        for i, op in enumerate(ops):
            self.index = i
            self.step(op, True)
            if op["op"] == "flush":
                self.snapshot()

    def do_measure(self, op, top):
        if self.live(op["q"]):
            for s in op["q"]:
                self.measured_slots[s] = self.s.q[s].id
        super().do_measure(op, top)

    def snapshot(self):
        m, v = chain.sim_state(self.eng, self.sim)
        ids = {s: q.id for s, q in self.s.q.items()}
        cm = dict(self.mapper.current_mapping or {}) if self.mapper is not None else None
        reads = {}
        for s, i in self.measured_slots.items():
            if s in self.s.q and self.s.q[s].id == i:
                try:
                    reads[s] = int(self.s.q[s])
                except Exception as e:  # noqa
                    reads[s] = repr(e)
        snap = {"index": self.index, "m": m, "v": v, "ids": ids, "cm": cm, "reads": reads}
        self.snaps.append(snap)
        if self.on_flush is not None:
            self.on_flush(self, snap)
        return snap


def judge_snaps(r, rn, ops, tol=TOL, what="state", skip_idle=True):
    """Replay on the reference with the recorded outcomes, compare at every snapshot.  False: program is not legal."""
    x = P.Expander(P.outcomes_by_slot(rn))
    si = 0
    snaps = rn.snaps
    for i, op in enumerate(ops):
        try:
            x.step(op, True)
        except P.Exhausted as e:
            r.violate("lost measurement", f"measured qubit {e} has no recorded outcome (operation {i})")
            return x
        except P.Invalid as e:
            if x.problems:
                r.violate("outcome", x.problems[0])
                return x
            r.nontrivial = False
            r.log("invalid program", e)
            return None
        while si < len(snaps) and snaps[si]["index"] == i:
            if not judge_snap(r, x, snaps[si], tol, what):
                return x
            si += 1
    while si < len(snaps):
        if not judge_snap(r, x, snaps[si], tol, what):
            return x
        si += 1
    return x


def judge_snap(r, x, s, tol, what):
    where = f"at the flush after operation {s['index']}"
    ids = s["ids"]
    if s["cm"] is not None:
        mp = {}
        for slot, i in ids.items():
            if i not in s["cm"]:
                r.violate("mapping", f"{where}: live qubit {i} is not in the reported mapping {s['cm']}")
                return False
            mp[slot] = s["cm"][i]
    else:
        mp = ids
    if set(mp) != x.live:
        r.violate("harness-live", f"{sorted(mp)} vs {sorted(x.live)}")
        return False
    if len(set(mp.values())) != len(mp):
        r.violate("mapping", f"{where}: two live qubits share a position: {mp}")
        return False
    if sorted(mp.values()) != sorted(s["m"]):
        r.violate("live qubits", f"{where}: program has positions {sorted(mp.values())}, back-end holds {sorted(s['m'])}")
        return False
    f = R.fidelity(x.r.vector(chain.order_by(mp, s["m"])), s["v"])
    r.log("fid", s["index"], round(f, 6))
    if not f > 1 - tol:
        r.violate(what, f"{where}: fidelity {f:.9f} with the program's ideal state")
        return False
    for slot, v in s["reads"].items():
        if slot in x.last and v != x.last[slot]:
            r.violate("read", f"{where}: qubit of slot {slot} reads {v}, its recorded outcome is {x.last[slot]}")
            return False
    return True


def start(sc, r, stages, tagged=False, head=(), tail=(), sim=None):
    """Chain of described stages with links, probe and (optionally) identity tags; returns (eng, runner, built, probe, tags)."""
    from projectq import MainEngine
    from projectq.backends import Simulator

    env.quiesce()
    random.seed(sc["sim"] ^ 0x5A5A)
    np.random.seed(sc["sim"] & 0x7FFFFFFF)
    b = chain.Built()
    engines = chain.custom(stages, b)
    from projectq.cengines import BasicMapperEngine

    for e in engines:
        if isinstance(e, BasicMapperEngine):
            b.mapper = e
    pr = chain.Probe(None)
    sim = sim or Simulator(gate_fusion=bool(sc.get("fusion")), rnd_seed=sc["sim"])
    engines = compiled.insert_links(engines, sc.get("links", []), b)
    ti = to = None
    if tagged:
        ti, to = tag_classes()[0](), tag_classes()[1]()
        engines = [ti] + engines + [to]
    engines = list(head) + engines + list(tail) + [pr]
    eng = MainEngine(sim, engines)
    rn = Flushing(eng, sim, b.mapper, collect_gc=bool(sc.get("gc", 1)))
    b.engines = engines
    return eng, rn, b, pr, (ti, to)


def finish(eng, rn, r, pr, sc):
    compiled.silence(eng)
    rn.s.q.clear()
    gc.collect()
    r.hit("ops", rn.count)
    r.hit("commands", len(pr.log))
    if sc.get("links"):
        r.hit("fault.rebatched_boundaries", len(sc["links"]))
    r.hit("flushes", sum(1 for c in pr.log if c[0] == "Flush"))
    for c in pr.log:
        r.log(c)
    r.log(sorted((k, tuple(o)) for k, o in rn.outcomes.items()))


def gen_links(rng, n):
    k = rng.choice([0, 1, 1, 2, 3, 5])
    return [[i, rng.getrandbits(30)] for i in sorted(rng.sample(range(n + 3), min(k, n + 3)))]
