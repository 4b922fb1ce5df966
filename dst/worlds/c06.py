"""C06: compute, control, dagger and loop blocks equal their expansion by hand."""
import random

from .. import blocks, chain, env, stream
from .. import prog as P
from ..core import Result, World
from . import c02, c05

GATES = ["H", "X", "Y", "Z", "S", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Ph", "Mat1", "Swap", "SqrtSwap", "Rzz", "MatN", "AddConstant",
         "TimeEvolution", "AddQuantum", "MathFn"]


class C06(World):
    ID = "C06"
    TECH = ("deterministic simulation: seeded nested block programs with measurement, flushes and illegal uses on seeded chains with and "
            "without native loops and re-batching links; refinement against expansion by hand, life-cycle invariants")
    NOTE = ("Seeded search. State, live qubits and outcomes are compared at every flush with the program expanded by hand on the reference; "
            "both ends of the chain are checked for the life cycle of every ancilla; illegal uses must raise and leave the state alone.")
    RULE = "one evaluation = one random program of nested blocks on a random chain; non-trivial = legal program; distinct by event-log digest"
    DISTINCT = "distinct nesting patterns (kinds along each path of blocks, with ancillas)"
    QUICK = 15000
    THOROUGH = 160000
    REAL = ["projectq.meta", "projectq.ops._command", "projectq.cengines", "projectq.backends Simulator"]
    STUB = ["reference state vector and hand expansion (oracle)", "engine with native loops", "re-batching links"]
    ASSUME = ["custom uncompute sections are the inverse of the compute section, as the documentation demands when the block is controlled"]

    def prepare(self):
        env.setup()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        st = []
        for _ in range(rng.randint(0, 2)):
            st.append(rng.choice([{"stage": "opt", "m": rng.choice([1, 3, 5, 10])}, {"stage": "rep"}, {"stage": "tags"}, {"stage": "mod"}]))
        native = rng.choice([0, 0, 0, 0, 1, 1, 2, 2])
        ops, g = blocks.gen_prog(rng, tier, GATES, rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4]), rng.choice([2, 3, 4, 5, 6]))
        ops.append({"op": "flush"})
        bad = None
        if rng.random() < 0.25:
            bad = rng.choice(sorted(blocks.BAD))
            if bad == "measure_dagger" or bad not in blocks.TWO or len(g.live) >= 2:
                ops += [{"op": "bad", "k": bad}, {"op": "flush"}]
        return {"stages": st, "native": native, "prog": ops, "links": stream.gen_links(rng, len(st)), "sim": rng.getrandbits(30),
                "fusion": rng.getrandbits(1)}

    def execute(self, sc):
        r = Result()
        # in front: behind an engine which reorders there is no loop body left; what translates commands keeps their order and tags
        head = [blocks.loop_engine()] if sc["native"] else []
        if sc["native"] == 2:
            head = translator() + head
        eng, rn, b, pr, _ = stream.start(sc, r, sc["stages"], head=head)
        rn.__class__ = blocks.BlockRunner
        front = chain.Probe(None)
        front.main_engine, front.next_engine = eng, eng.next_engine
        eng.next_engine = front
        eng.n_engines += 1
        rejected = None
        try:
            try:
                for i, op in enumerate(sc["prog"]):
                    rn.index = i
                    if op["op"] == "bad":
                        rejected = self.bad(sc, r, rn, eng, op)
                        if r.violations:
                            break
                        if op["k"] not in blocks.HARMLESS:
                            break
                    else:
                        rn.step(op, True)
                    if op["op"] == "flush":
                        rn.snapshot()
            except Exception as e:  # noqa
                r.violate("error", f"operation {rn.index}: {type(e).__name__}: {e}")
                x = blocks.BlockExpander(P.outcomes_by_slot(rn))
                try:
                    x.run(sc["prog"][: rn.index + 1])
                except P.Exhausted:
                    pass
                except P.Invalid as e2:
                    r.log("invalid", e2)
                    r.violations.clear()
                    r.nontrivial = False
                return r
            if not r.violations:
                self.judge(sc, r, rn, front, pr)
            else:
                x = blocks.BlockExpander(P.outcomes_by_slot(rn))
                try:
                    x.run(sc["prog"])
                except P.Exhausted:
                    pass
                except P.Invalid:
                    r.violations.clear()
                    r.nontrivial = False
        finally:
            rn.leaked = None
            stream.finish(eng, rn, r, pr, sc)
        pats = set()

        def walk(ops, path):
            for o in ops:
                if o["op"] in ("control", "dagger", "loop", "cu"):
                    p = path + o["op"][0] + ("c" if o.get("custom") is not None else "") + ("l" if o.get("live") else "")
                    for k in ("body", "compute", "action", "custom"):
                        walk(o.get(k) or [], p + k[0])
                elif o["op"] == "alloc" and path:
                    pats.add(path + "a")
                elif path:
                    pats.add(path)

        walk(sc["prog"], "")
        r.cover.update(f"{sc['native']}{p}" for p in pats)
        r.hit("probe.illegal_uses_rejected", int(rejected is True))
        if head:
            r.hit("probe.native_loop_repetitions", head[-1].repeated)
        return r

    def bad(self, sc, r, rn, eng, op):
        if op["k"] in blocks.TWO and len(rn.s.q) < 2 or not rn.s.q:
            return None
        if sc["native"] and op["k"] in ("loop_leak", "loop_foreign"):
            return None
        chain0 = engines(eng)
        n0 = eng.n_engines
        try:
            rn.do_bad(op, True)
            if op["k"] in blocks.DEFERRED:
                eng.flush()
        except Exception as e:  # noqa
            del e
        else:
            r.violate("not rejected", f"illegal use '{op['k']}' was accepted")
            return False
        if engines(eng) != chain0 or eng.n_engines != n0:
            r.violate("chain", f"after the rejected use '{op['k']}' the chain is {names(eng)}")
        return True

    def judge(self, sc, r, rn, front, pr):
        old = P.Expander
        try:
            stream.P.Expander = blocks.BlockExpander
            x = stream.judge_snaps(r, rn, sc["prog"])
        finally:
            stream.P.Expander = old
        if x is None or r.violations:
            return
        v = c05.lifecycle(front.log, "start of the chain", bool(sc["native"]))[0] or c05.lifecycle(pr.log, "back-end", bool(sc["native"]))[0]
        if v:
            r.violate("life cycle", v)

    def shrink_paths(self, sc):
        return ["prog"]

    def simplify(self, sc):
        for i in range(len(sc["links"])):
            yield dict(sc, links=sc["links"][:i] + sc["links"][i + 1 :])
        for i in range(len(sc["stages"])):
            yield dict(sc, stages=sc["stages"][:i] + sc["stages"][i + 1 :])
        if sc["native"]:
            yield dict(sc, native=sc["native"] - 1)


def translator():
    """Replaces gates with several or negative controls and swaps, in front of the engine with native loops."""
    from projectq.cengines import AutoReplacer, InstructionFilter
    from projectq.ops import BasicMathGate, ClassicalInstructionGate, SwapGate, XGate

    def known(eng, cmd):
        if isinstance(cmd.gate, (ClassicalInstructionGate, BasicMathGate)):
            return eng.next_engine.is_available(cmd)
        n = len(cmd.control_qubits)
        return all(int(x) for x in cmd.control_state) and (n < 2 or n == 2 and isinstance(cmd.gate, XGate)) and not isinstance(cmd.gate, SwapGate)

    return [AutoReplacer(chain.rule_set()), InstructionFilter(known)]


def engines(eng):
    out = []
    e = eng
    while e is not None:
        out.append(id(e))
        if e.is_last_engine:
            break
        e = e.next_engine
    return out


def names(eng):
    out = []
    e = eng
    while e is not None:
        out.append(type(e).__name__)
        if e.is_last_engine:
            break
        e = e.next_engine
    return out


WORLD = C06
