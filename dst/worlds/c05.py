"""C05: every qubit is allocated once and released exactly once, however it goes away."""
import gc
import random
import sys

import numpy as np

from .. import chain, compiled, env, stream
from .. import prog as P
from ..core import Result, World
from . import c02

GATES = ["H", "X", "Z", "S", "Rx", "Rz", "Swap"]


def dirty_engine():
    from projectq.cengines import BasicEngine
    from projectq.meta import DirtyQubitTag

    class DirtyOk(BasicEngine):
        """A stage which declares that it handles dirty qubits (and forwards them)."""

        def is_meta_tag_handler(self, tag):
            return tag == DirtyQubitTag

        def receive(self, command_list):
            self.send(command_list)

    return DirtyOk()


class LifeRunner(P.Runner):
    def __init__(self, eng, sim, mapper, watch):
        super().__init__(eng)
        self.sim, self.mapper, self.watch = sim, mapper, watch
        self.block = 0
        self.exits = False  # the outermost block executes its commands
        self.zombies = set()  # ids waiting for the garbage collector
        self.loose = set()  # ids collected since the last flush was complete
        self.aliases = []
        self.stale = []
        self.index = -1
        self.problem = None
        self.dirty_ids = set()
        self.reuse_tried = 0

    # -- blocks: remember that one is open (the collector must not release outer qubits there)
    def do_dagger(self, op, top):
        self.blocked(super().do_dagger, op, top)

    def do_loop(self, op, top):
        self.blocked(super().do_loop, op, top)

    def do_cu(self, op, top):
        self.blocked(super().do_cu, op, top)

    def leaving(self):
        self.exits = self.block == 1

    def blocked(self, f, op, top):
        self.exits = False
        self.block += 1
        try:
            f(op, top)
        finally:
            self.block -= 1
            self.exits = False

    def do_alloc(self, op, top):
        before = set(self.s.q)
        super().do_alloc(op, top)
        if op.get("dirty") and len(op["q"]) == 1:
            for s in set(self.s.q) - before:
                self.dirty_ids.add(self.s.q[s].id)

    def do_free(self, op, top):
        from projectq.ops import Measure

        how = op.get("how")
        if how in ("raw", "del", None):
            return super().do_free(op, top)
        for s in op["q"]:
            if s not in self.s.q:
                continue
            self.tick()
            q = self.s.q.pop(s)
            Measure | q
            if how == "cycle":
                self.zombies.add(q.id)
                P.Cycle(q)
            elif how == "alias":
                self.aliases.append(q)
                self.watch.aliased.add((id(self), q.id))
            elif how == "explicit":
                q.__del__()
                self.stale.append(q)
            del q

    def do_unalias(self, op, top):
        self.watch.aliased -= {(id(self), q.id) for q in self.aliases}
        self.aliases = []

    def do_scope(self, op, top):
        """A function with local qubits, left normally or by an exception."""
        if any(s in self.s.q for s in op["own"]):
            return

        def inner():
            self.run(op["body"], top)
            local = [self.s.q.pop(s) for s in op["own"] if s in self.s.q]
            from projectq.ops import Measure

            for q in local:
                Measure | q
            if op.get("cyc") and op.get("exc"):
                self.zombies |= {q.id for q in local}
            if op.get("exc"):
                raise P.UserError("in a scope")

        def outer():
            try:
                inner()
            except P.UserError as e:
                if op.get("cyc"):
                    keep = e  # frame -> exception -> traceback -> frame  # noqa

        outer()

    def do_gc(self, op, top):
        self.watch.collect(False)

    def do_flush(self, op, top):
        self.tick()
        self.loose_before = set(self.loose)
        self.eng.flush()
        self.loose -= self.loose_before

    def do_reuse(self, op, top):
        from projectq.meta import Control
        from projectq.ops import CNOT, H, Measure, X

        if not self.stale or not self.s.q:
            return
        q = self.stale[op["i"] % len(self.stale)]
        other = self.s.q[sorted(self.s.q)[op["i"] % len(self.s.q)]]
        n = len(self.watch.front[id(self)].log)
        k = op["kind"]
        gcs = False
        try:
            if k == 0:
                H | q
            elif k == 1:
                CNOT | (q, other)
            elif k == 2:
                CNOT | (other, q)
            elif k == 3:
                Measure | q
            elif k == 4:
                with Control(self.eng, q):
                    X | other
            elif k == 5:
                self.eng.deallocate_qubit(q)
            elif k == 6:
                int(q)
            else:
                q.__del__()
                return
        except Exception:  # noqa: rejected, as it must be
            self.reuse_tried += 1
            # frames of the traceback keep the other qubit alive, in a reference cycle
            gcs = True
        else:
            self.problem = self.problem or f"use {k} of a released qubit was accepted"
        new = [c for c in self.watch.front[id(self)].log[n:] if c[0] != "Deallocate"]
        if new:
            self.problem = self.problem or f"use {k} of a released qubit issued {new}"
        del q, other
        if gcs:
            self.watch.collect(False)


class Watch:
    """Garbage collection at chosen Python calls inside the library, and what it is allowed to collect."""

    def __init__(self, points, allow_block):
        self.points = set(points)
        self.n = 0
        self.want = False
        self.runners = []
        self.front = {}
        self.aliased = set()
        self.fired = self.fired_busy = self.fired_exit = 0
        self.allow_block = allow_block

    def safe(self, frame):
        busy = [r for r in self.runners if r.block and r.zombies]
        if self.allow_block or not busy:
            return True
        # a block which executes its commands: a stage behind it is at work
        code = frame.f_code
        return all(r.exits for r in busy) and code.co_name == "receive" and "/meta/" not in code.co_filename

    def collect(self, injected, frame=None):
        if not self.safe(frame or sys._getframe(1)):
            return False
        if injected:
            self.fired_exit += any(r.exits and r.zombies for r in self.runners)
        hit = any(r.zombies for r in self.runners)
        for r in self.runners:
            r.loose |= r.zombies
            r.zombies = set()
        gc.collect()
        if injected:
            self.fired += 1
            self.fired_busy += hit
        return True

    def prof(self, frame, event, arg):
        if event != "call" or "/projectq/" not in frame.f_code.co_filename:
            return
        self.n += 1
        if self.n in self.points or self.want:
            self.want = not self.collect(True, frame)


def lifecycle(log, where, mapped):
    """Check one stream of snaps; (violation, live ids, seen ids)."""
    live, gone, released, dirty, bad = set(), set(), {}, {}, None
    for pos, c in enumerate(log):
        g, qs, cs, _, tags = c
        ids = [i for reg in qs for i in reg] + list(cs)
        if g == "Flush":
            continue
        if -1 in ids:
            return f"{where}: {g} on a released qubit reached the chain ({ids})", live, gone, dirty
        if g == "Allocate":
            i = ids[0]
            if i in live:
                return f"{where}: qubit {i} allocated twice", live, gone, dirty
            if i in gone and not mapped:
                return f"{where}: identifier {i} used again after its release", live, gone, dirty
            live.add(i)
            dirty[i] = "DirtyQubitTag" in tags
        elif g == "Deallocate":
            i = ids[0]
            if i not in live:
                return f"{where}: qubit {i} released {'twice' if i in gone else 'without allocation'}", live, gone, dirty
            if ("DirtyQubitTag" in tags) != dirty[i] and not mapped:
                return f"{where}: qubit {i} allocated with dirty={dirty[i]}, released with dirty={not dirty[i]}", live, gone, dirty
            live.discard(i)
            gone.add(i)
        else:
            for i in ids:
                if i not in live:
                    return f"{where}: {g} on qubit {i}, which is {'released' if i in gone else 'not allocated'}", live, gone, dirty
    return None, live, gone, dirty


class LifeExpander(P.Expander):
    def step(self, op, top):
        k = op["op"]
        if k == "free" and op.get("how") in ("alias", "explicit"):
            op = dict(op, how="cycle" if op["how"] == "alias" else "del")
        if k in ("unalias", "reuse"):
            return
        if k == "scope":
            if any(s in self.live for s in op["own"]):
                return
            self.run(op["body"], top)
            own = [s for s in op["own"] if s in self.live]
            for s in own:
                super().step({"op": "free", "q": [s], "how": "cycle"}, True)
            return
        super().step(op, top)


class C05(World):
    ID = "C05"
    TECH = "deterministic simulation: seeded garbage collection at any call inside the library, scopes, exceptions, several engines and teardown paths as scheduled events; life-cycle invariants over the recorded streams"
    NOTE = ("Seeded search. Both ends of the chain are recorded; every identifier must be allocated once, used only while live, released "
            "once; the back-end's live set is compared with the model at every flush and must be empty after teardown.")
    RULE = ("one evaluation = one or two engines with random chains and programs, run interleaved, with the garbage collector run at "
            "seeded calls inside the library, ended by one of four teardown paths; non-trivial = legal program; distinct by event-log digest")
    DISTINCT = "distinct (stage kinds, way of release, teardown) tuples"
    QUICK = 5000
    THOROUGH = 120000
    REAL = ["projectq.types._qubit", "projectq.cengines", "projectq.meta", "projectq.backends Simulator"]
    STUB = ["time at which the garbage collector runs", "atexit dispatch", "recording engines at both ends"]
    ASSUME = ["releases by the collector of qubits from outside a Compute/Dagger/Loop block, while that block is open, are explored only "
              "by the directed scenario recorded as a known finding"]

    def prepare(self):
        env.setup()
        for d in self.directed("quick"):
            self.execute(dict(d, allow_block=0))  # imports on first use are calls, too

    def directed(self, tier):
        out = []
        for i, blk in enumerate(("dagger", "loop", "cu")):
            body = [{"op": "g", "g": "X", "p": [], "t": [[1]]}, {"op": "gcnow"}]
            b = {"op": "cu", "compute": body, "action": [], "custom": None} if blk == "cu" else {"op": blk, "n": 2, "body": body}
            out.append({"engines": [{"stages": [{"stage": "opt", "m": 5}], "dirty": 0, "prog": [
                {"op": "alloc", "q": [0, 1], "reg": 1}, {"op": "free", "q": [0], "how": "cycle"}, b, {"op": "flush"}]}],
                "order": 1, "points": [], "teardown": "flush", "sim": 5, "allow_block": 1})
        return out

    def generate(self, seed, tier):
        rng = random.Random(seed)
        engines = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            st, _, mc, nq, flip = c02.gen_stages(rng)
            mapped = any(s["stage"] in ("linear", "grid") for s in st)
            man = any(s["stage"] == "manual" for s in st)
            g = P.Gen(rng, GATES, max_qubits=min(nq, 6), max_controls=1, ctrl_gates=["X", "Z", "H", "S", "Rx", "Rz"], ifs=False, gcs=True,
                      neg=not flip, flushes=rng.choice([0.03, 0.1]), dirty=True, max_total=45 if man else None,
                      blocks=rng.choice([(), ("dagger", "loop"), ("dagger", "loop", "cu"), ("dagger", "loop", "cu", "control")]) if not mapped else rng.choice([(), ("dagger", "loop")]),
                      max_ops=rng.choice([6, 12, 25]) if tier == "quick" else rng.choice([10, 30, 60]))
            if not man and rng.random() < 0.2:
                g.gates = GATES
            ops = self.spice(rng, g.generate(), g, nq)
            engines.append({"stages": st, "dirty": int(rng.random() < 0.4), "prog": ops})
        n = sum(len(e["prog"]) for e in engines)
        pts = sorted({int(rng.uniform(1, 130 * n)) for _ in range(rng.choice([0, 2, 6, 12]))})
        return {"engines": engines, "order": rng.getrandbits(30), "points": pts, "teardown": rng.choice(["flush", "flush", "atexit", "atexit", "drop", "exc"]),
                "passing": [{"at": rng.randint(0, n + 1), "n": rng.randint(1, 3), "m": rng.choice([1, 10]), "flush": rng.randint(0, 1)}
                            for _ in range(rng.choice([0, 0, 1, 2]))],
                "sim": rng.getrandbits(30)}

    def spice(self, rng, ops, g, nq):
        """More ways to go: aliases, explicit finaliser calls, scopes, exceptions, uses after release."""
        out = []
        for op in ops:
            if op["op"] == "free" and op.get("how") in ("del", "cycle"):
                op = dict(op, how=rng.choice(["del", "cycle", "cycle", "alias", "explicit"]))
            out.append(op)
            if op["op"] == "free" and op.get("how") == "explicit" and rng.random() < 0.6:
                out.append({"op": "reuse", "i": rng.randint(0, 9), "kind": rng.randint(0, 7)})
            r = rng.random()
            if r < 0.08:
                out.append({"op": "unalias"})
            elif r < 0.2 and g.total + 2 <= g.max_total:
                k = rng.randint(1, 2)
                own = g.new_slots(k)
                body = [{"op": "alloc", "q": own, "reg": rng.randint(0, 1)}]
                for s in own:
                    body.append({"op": "g", "g": rng.choice(["H", "X", "S"]), "p": [], "t": [[s]]})
                if k == 2 and rng.random() < 0.5:
                    body.append({"op": "g", "g": "X", "p": [], "t": [[own[0]]], "c": [own[1]], "cs": "1"})
                if rng.random() < 0.3:
                    body.append({"op": "flush"})
                out.append({"op": "scope", "own": own, "body": body, "exc": rng.randint(0, 1), "cyc": rng.randint(0, 1)})
        return out

    # ------------------------------------------------------------------------------------------------
    def execute(self, sc):
        from projectq import MainEngine
        from projectq.backends import Simulator

        r = Result()
        env.quiesce()
        random.seed(sc["sim"])
        np.random.seed(sc["sim"] & 0x7FFFFFFF)
        w = Watch(sc["points"], sc.get("allow_block"))
        rns, fronts, ends, engs, sims, built = [], [], [], [], [], []
        for i, e in enumerate(sc["engines"]):
            b = chain.Built()
            engines = chain.custom(e["stages"], b)
            from projectq.cengines import BasicMapperEngine

            mapper = next((x for x in engines if isinstance(x, BasicMapperEngine)), None)
            front, end = chain.Probe(None), chain.Probe(None)
            peak = chain.classes()[2]()
            sim = Simulator(rnd_seed=sc["sim"] + i)
            chain_ = [front, peak] + engines + ([dirty_engine()] if e["dirty"] else []) + [end]
            eng = MainEngine(sim, chain_)
            rn = LifeRunner(eng, sim, mapper, w)
            w.runners.append(rn)
            w.front[id(rn)] = front
            rns.append(rn), fronts.append(front), ends.append(end), engs.append(eng), sims.append(sim), built.append((b, peak, mapper))
        order = random.Random(sc["order"])
        pos = [0] * len(rns)
        err = None
        passing = sorted(sc.get("passing", []), key=lambda p: p["at"])
        sys.setprofile(w.prof)
        try:
            while err is None:
                ready = [i for i, e in enumerate(sc["engines"]) if pos[i] < len(e["prog"])]
                while passing and (not ready or passing[0]["at"] <= sum(pos)):
                    self.pass_by(passing.pop(0), r, w)
                if not ready or r.violations:
                    break
                i = order.choice(ready)
                op = sc["engines"][i]["prog"][pos[i]]
                rns[i].index = pos[i]
                pos[i] += 1
                try:
                    rns[i].step(op, True)
                except Exception as e:  # noqa
                    err = (i, op, e)
                    break
                if op["op"] == "flush":
                    v = self.at_flush(rns[i], built[i])
                    if v:
                        r.violate("live set", f"engine {i} after operation {rns[i].index}: {v}")
                        break
        finally:
            sys.setprofile(None)
        cut = [len(f.log) for f in fronts], [len(e.log) for e in ends]
        if err is None and not r.violations:
            err = self.teardown(sc, r, rns, engs, sims)
        else:
            for e in engs:
                compiled.silence(e)
        self.judge(sc, r, rns, fronts, ends, sims, built, pos, err)
        for rn, e in zip(rns, engs or []):
            compiled.silence(e)
        for k, (f, en) in enumerate(zip(fronts, ends)):
            # the final releases are issued in the order of a set of addresses
            for c in f.log[: cut[0][k]] + sorted(f.log[cut[0][k] :], key=repr):
                r.log(c)
            for c in en.log[: cut[1][k]] + sorted(en.log[cut[1][k] :], key=repr):
                r.log("e", c)
            r.hit("commands", len(en.log))
        r.hit("fault.gc_inside_library_call", w.fired)
        r.hit("fault.gc_released_qubits_inside_call", w.fired_busy)
        r.hit("fault.gc_while_a_block_executes", w.fired_exit)
        r.hit("probe.uses_after_release_rejected", sum(rn.reuse_tried for rn in rns))
        r.hit("fault.teardown_" + sc["teardown"])
        how = {op.get("how") if op["op"] == "free" else op["op"] for e in sc["engines"] for op in e["prog"] if op["op"] in ("free", "scope")}
        for e in sc["engines"]:
            k = "+".join(s["stage"] for s in e["stages"])
            r.cover.update(f"{k}:{h}:{sc['teardown']}" for h in how)
        return r

    def pass_by(self, p, r, w):
        """Another engine of the same process, whose life ends here with commands still in its buffers."""
        from projectq import MainEngine
        from projectq.backends import Simulator
        from projectq.cengines import LocalOptimizer
        from projectq.ops import S, X

        handlers = len(env.ATEXIT)

        def life():
            front, end = chain.Probe(None), chain.Probe(None)
            eng = MainEngine(Simulator(rnd_seed=1), [front, LocalOptimizer(p["m"]), end])
            qs = [eng.allocate_qubit() for _ in range(p["n"])]
            if p["flush"]:
                eng.flush()
            for i, q in enumerate(qs):
                X | q
                S | q
            return front.log, end.log

        front, end = life()
        w.collect(True)
        gone = [c for c in end if c[0] != "Flush"]
        if sorted(map(repr, gone)) != sorted(repr(c) for c in front if c[0] != "Flush") or not end or end[-1][0] != "Flush":
            r.violate("engine goes away", f"of the commands {front} of a collected engine only {end} were delivered")
        if len([c for c in gone if c[0] == "Deallocate"]) != p["n"]:
            r.violate("engine goes away", f"a collected engine has not released its qubits: {end}")
        if len(env.ATEXIT) != handlers:
            r.violate("engine goes away", f"{handlers} engines had registered to be finished at exit, {len(env.ATEXIT)} after another one had come and gone")
        r.hit("fault.engine_collected_with_buffered_commands")

    def at_flush(self, rn, built):
        m, _ = chain.sim_state(rn.eng, rn.sim)
        have = set(m)
        live = {q.id for q in rn.s.q.values()} | {q.id for q in rn.aliases}
        may = live | rn.zombies | rn.loose
        if built[2] is not None:
            cm = built[2].current_mapping or {}
            if not live <= set(cm):
                return f"live qubits {sorted(live - set(cm))} are not in the mapping"
            live = {cm[i] for i in live}
            if not live <= have:
                return f"positions {sorted(live - have)} of live qubits are not allocated"
            if len(have) > len(may):
                return f"{len(have)} positions are allocated, at most {len(may)} qubits are alive"
            return None
        if not live | rn.zombies <= have:
            return f"qubits {sorted((live | rn.zombies) - have)} are alive in the program but not at the back-end"
        if not have <= may:
            return f"qubits {sorted(have - may)} have been released but the back-end still holds them"
        return None

    def teardown(self, sc, r, rns, engs, sims):
        t = sc["teardown"]
        try:
            if t != "exc":
                from projectq.ops import Measure

                for rn in rns:
                    for s in sorted(rn.s.q):
                        Measure | rn.s.q[s]
            if t == "flush":
                for e in engs:
                    e.flush(deallocate_qubits=True)
            elif t == "atexit":
                errs = env.run_atexit()
                if errs:
                    return (0, {"op": "atexit"}, errs[0])
            elif t == "exc":
                sys.last_type = ValueError
                try:
                    n = [len(f.log) for f in self_logs(rns)]
                    errs = env.run_atexit()
                    if errs:
                        return (0, {"op": "atexit"}, errs[0])
                    for rn in rns:
                        rn.s.q.clear()
                        rn.aliases.clear()
                    gc.collect()
                    if [len(f.log) for f in self_logs(rns)] != n:
                        r.violate("teardown", "commands were issued at exit after an uncaught exception")
                finally:
                    del sys.last_type
                for e in engs:
                    compiled.silence(e)
                return None
            if t in ("flush", "atexit"):
                for i, rn in enumerate(rns):
                    refs = list(rn.s.q.values()) + rn.aliases
                    if any(q.id != -1 for q in refs):
                        r.violate("teardown", f"after teardown ({t}) engine {i} has qubits which still look alive: {[q.id for q in refs]}")
                    m, _ = chain.sim_state(rn.eng, sims[i])
                    if m:
                        r.violate("teardown", f"after teardown ({t}) engine {i} still holds qubits {sorted(m)}")
            # what remains in the program goes away afterwards: nothing may be sent again
            for rn in rns:
                rn.s.q.clear()
                rn.aliases.clear()
            n = [len([c for c in f.log if c[0] != "Flush"]) for f in self_logs(rns)]
            gc.collect()
            if t == "drop":
                for rn, sim in zip(rns, sims):
                    rn.eng.flush()
                    m, _ = chain.sim_state(rn.eng, sim)
                    if m:
                        r.violate("teardown", f"all references are gone, the back-end still holds qubits {sorted(m)}")
            elif [len([c for c in f.log if c[0] != "Flush"]) for f in self_logs(rns)] != n:
                r.violate("teardown", f"qubits were released again after teardown ({t})")
        except Exception as e:  # noqa
            return (0, {"op": "teardown"}, e)
        return None

    def judge(self, sc, r, rns, fronts, ends, sims, built, pos, err):
        legal = True
        for i, rn in enumerate(rns):
            x = LifeExpander(P.outcomes_by_slot(rn))
            try:
                x.run(sc["engines"][i]["prog"][: pos[i]])
            except P.Exhausted:
                pass
            except P.Invalid as e:
                r.log("invalid", e)
                legal = False
        if not legal:
            r.violations.clear()
            r.nontrivial = False
            return
        if err is not None:
            i, op, e = err
            if any(b.max_live is not None and peak.peak > b.max_live for b, peak, _ in built):
                r.hit("probe.does_not_fit")
                r.violations.clear()
                r.nontrivial = False
                return
            if sc.get("allow_block") and type(e).__name__ == "QubitManagementError":
                r.violate("gc in block", f"a qubit from outside a {op['op']} block was collected while the block was open: {type(e).__name__}")
                return
            r.violate("error", f"engine {i}, {op['op']}: {type(e).__name__}: {e}")
            return
        if r.violations:
            return
        for i, rn in enumerate(rns):
            if rn.problem:
                r.violate("use after release", rn.problem)
                return
            st = [s["stage"] for s in sc["engines"][i]["stages"]]
            own = "linear" in st or "grid" in st
            v, live, gone, dirty = lifecycle(fronts[i].log, f"engine {i}, start of the chain", False)
            if v:
                r.violate("life cycle", v)
                return
            if sc["teardown"] != "exc" and live:
                r.violate("life cycle", f"engine {i}: qubits {sorted(live)} were never released")
                return
            v, live2, gone2, dirty2 = lifecycle(ends[i].log, f"engine {i}, back-end", own)
            if v:
                r.violate("life cycle", v)
                return
            if sc["teardown"] != "exc" and live2:
                r.violate("life cycle", f"engine {i}: the back-end still holds {sorted(live2)}")
                return
            if "opt" not in st and not own and sc["teardown"] != "exc":
                a = sorted(c[0] for c in fronts[i].log if "llocate" in c[0])
                bb = sorted(c[0] for c in ends[i].log if "llocate" in c[0])
                if a != bb:
                    r.violate("life cycle", f"engine {i}: {len(a)} allocations and releases were issued, {len(bb)} arrived")
                    return
            want = rn.dirty_ids if sc["engines"][i]["dirty"] else set()
            got = {q for q in dirty if dirty[q]}
            if want != got:
                r.violate("dirty", f"engine {i}: qubits requested as dirty {sorted(want)}, marked {sorted(got)}")
                return

    def shrink_paths(self, sc):
        return ["engines"]

    def simplify(self, sc):
        for i in range(len(sc["points"])):
            yield dict(sc, points=sc["points"][:i] + sc["points"][i + 1 :])
        for i in range(len(sc.get("passing", []))):
            yield dict(sc, passing=sc["passing"][:i] + sc["passing"][i + 1 :])
        if len(sc["engines"]) > 1:
            for i in range(len(sc["engines"])):
                yield dict(sc, engines=[sc["engines"][i]])
        for k, e in enumerate(sc["engines"]):
            for i in range(len(e["stages"])):
                e2 = dict(e, stages=e["stages"][:i] + e["stages"][i + 1 :])
                yield dict(sc, engines=sc["engines"][:k] + [e2] + sc["engines"][k + 1 :])


def self_logs(rns):
    return [rn.watch.front[id(rn)] for rn in rns]


def _gcnow(self, op, top):
    self.watch.collect(True)


LifeRunner.do_gcnow = _gcnow
_orig_expand = LifeExpander.expand


def _expand(self, ops, ctrl=(), cs=""):
    return _orig_expand(self, [o for o in ops if o["op"] != "gcnow"], ctrl, cs)


LifeExpander.expand = _expand
WORLD = C05
