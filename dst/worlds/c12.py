"""C12: allocations that fail while the compiled simulator works."""
import ctypes
import random

import numpy as np

from .. import sched, simops
from ..core import Result, World


class CallbackError(Exception):
    """The user's function fails (it ran out of memory itself, say)."""


class C12(World):
    ID = "C12"
    TECH = ("deterministic simulation: allocations of the compiled simulator go through the harness; seeded ones fail (any, or only those of the size of a "
            "state), once or from then on; state vectors end at inaccessible pages and vanish when freed; a twin without faults as reference")
    NOTE = ("Seeded search over scripts and failing allocations. After an error the state is the one before the operation, the operation can be repeated, and "
            "later operations agree with the twin; overruns and uses after release stop the process and are reported.")
    RULE = "one evaluation = one script with its failing allocations; distinct by event-log digest"
    DISTINCT = "distinct (operation, allocation that failed, size class, outcome) tuples"
    QUICK = 24000
    THOROUGH = 600000
    REAL = ["projectq/backends/_sim/_cppkernels (both kernel sets)", "projectq/backends/_sim/_cppsim.cpp"]
    STUB = ["malloc, operator new, posix_memalign", "uniform draws (same for both twins)"]
    ASSUME = ["allocations of the interpreter itself do not fail", "a measurement that failed may have consumed its random draw"]
    HANG_S = 60

    def prepare(self):
        sched.prepare()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        ops = simops.gen(rng, rng.choice([2, 5, 10, 16]), rng.choice([2, 3, 5, 6]))
        faults = {}
        dense = rng.choice([0.15, 0.4, 0.8])
        for i, o in enumerate(ops):
            if rng.random() < dense:
                x = rng.random()
                if x < 0.4:
                    f = {"at": rng.randrange(4), "min": "state", "sticky": int(rng.random() < 0.4)}
                else:
                    f = {"at": rng.choice([rng.randrange(8), rng.randrange(60), rng.randrange(600), rng.randrange(3000)]), "min": 0, "sticky": 0}
                if o["op"] == "math" and rng.random() < 0.5:
                    f = {"call": rng.choice([0, 1, 3, rng.randrange(30)])}
                f["retry"] = int(rng.random() < 0.6)
                o["fault"] = f
        return {"ops": ops, "intrin": rng.getrandbits(1), "rnd": rng.getrandbits(30), "fence": int(rng.random() < 0.8)}

    def execute(self, sc):
        r = Result()
        sched.pin()
        sched.fresh(lambda: self.run(sc, r))
        return r

    def run(self, sc, r):
        lib = sched.lib(sc["intrin"])
        L = lib.lib
        lib.config(sc["rnd"], 1, 0)
        L.memory_fence(sc["fence"])
        rng = random.Random(sc["rnd"])
        hot = simops.Run(lib.mod.Simulator(1))
        cold = simops.Run(lib.mod.Simulator(1))
        before = None  # twin's state before the operation
        try:
            for i, op in enumerate(sc["ops"]):
                if not hot.possible(op):
                    continue
                draws = [rng.random() for _ in range(2)]
                f = op.get("fault")
                n = len(hot.live)
                if op["op"] == "free":
                    # two operations: the first one is not disturbed
                    a = self.step(lib, hot, {"op": "measure", "q": [op["q"]]}, draws)
                    b = self.step(lib, cold, {"op": "measure", "q": [op["q"]]}, draws)
                    if not simops.close(a, b):
                        r.violate("result", f"operation {i} (measure {op['q']}): {simops.show(a)}, the twin's is {simops.show(b)}")
                        return
                    op = dict(op, op="dealloc")
                    if cold.live:
                        before = cold.state()
                got = self.step(lib, hot, op, draws, f, n, r)
                err = isinstance(got, Exception)
                r.log(i, op["op"], type(got).__name__ if err else simops.show(got), f and f.get("fired"))
                r.hit("op." + op["op"])
                if f and f.get("fired"):
                    r.hit("fault." + ("callback" if "call" in f else ("state_allocation" if f["min"] else "allocation") + (".sticky" if f["sticky"] else "")))
                    r.cover.add(f"{op['op']}:{f.get('at', f.get('call'))}:{f.get('min')}:{err}:{n}")
                if err:
                    if not (f and f.get("fired")):
                        b = self.step(lib, cold, op, draws)
                        if isinstance(b, Exception) and type(b) is type(got):
                            continue  # both refuse
                        r.violate("error", f"operation {i} ({op['op']}) without a fault: {type(got).__name__}: {got}")
                        return
                    where = f"operation {i} ({op['op']} on {n} qubits) failed ({type(got).__name__}, allocation {f.get('at', f.get('call'))}"
                    where += f", {f['min'] or 'any size'}{', sticky' if f['sticky'] else ''})" if "min" in f else ", user function)"
                    if before is not None and hot.live:
                        try:
                            now = hot.state()
                        except Exception as e:  # noqa
                            now = [type(e).__name__, str(e)]
                        if not simops.close(now, before):
                            r.violate("state lost", f"{where}: afterwards the simulator holds {simops.show(now)}, not the state before it, {simops.show(before)}: "
                                      f"{self.compare(now, before)}")
                            return
                    r.hit("errors")
                    if not f["retry"]:
                        continue
                    got = self.step(lib, hot, op, draws)
                    if isinstance(got, Exception):
                        r.violate("not repeatable", f"{where}: repeating it fails with {type(got).__name__}: {got}")
                        return
                want = self.step(lib, cold, op, draws)
                if isinstance(want, Exception):
                    r.violate("error", f"operation {i} ({op['op']}): twin fails with {type(want).__name__}: {want}")
                    return
                if not simops.close(got, want):
                    r.violate("result", f"operation {i} ({op['op']}): {simops.show(got)}, the twin's is {simops.show(want)}")
                    return
                before = cold.state() if cold.live else None
            if hot.live:
                a, b = hot.state(), cold.state()
                if not simops.close(a, b):
                    r.violate("state", f"final state differs from the twin's: {self.compare(a, b)}")
        finally:
            lib.calm()
            L.dst_set_draws(None, 0)
            del hot, cold
            L.memory_fence(0)

    def compare(self, a, b):
        try:
            if a[0] != b[0]:
                return f"qubits {a[0]} / {b[0]}"
            return f"largest difference {float(np.max(np.abs(a[1] - b[1]))):.3g}, norms {float(np.vdot(a[1], a[1]).real):.6g} / {float(np.vdot(b[1], b[1]).real):.6g}"
        except Exception:  # noqa
            return "shapes differ"

    def step(self, lib, run, op, draws, f=None, n=0, r=None):
        """Result or the exception."""
        d = (ctypes.c_double * len(draws))(*draws)
        self._keep = d
        lib.lib.dst_set_draws(d, len(draws))
        calls = [0]
        call = None
        if f and "call" in f:
            f["fired"] = 0

            def call():
                calls[0] += 1
                if calls[0] - 1 == f["call"]:
                    f["fired"] = 1
                    raise CallbackError("user function fails")

        try:
            if f and "at" in f:
                lib.arm(f["at"], 16 * 2 ** max(n - 1, 0) if f["min"] else 0, f["sticky"])
            try:
                if op["op"] == "dealloc":
                    run.sim.deallocate_qubit(op["q"])
                    run.live.remove(op["q"])
                    return None
                return run.step(op, call)
            finally:
                if f and "at" in f:
                    f["fired"] = lib.calm()[0]
        except Exception as e:  # noqa
            e.__traceback__ = None
            return e

    def shrink_paths(self, sc):
        return ["ops"]

    def simplify(self, sc):
        for i, o in enumerate(sc["ops"]):
            if "fault" in o:
                yield dict(sc, ops=sc["ops"][:i] + [{k: v for k, v in o.items() if k != "fault"}] + sc["ops"][i + 1 :])
        if sc["fence"]:
            yield dict(sc, fence=0)
        for i, o in enumerate(sc["ops"]):
            if o.get("c"):
                yield dict(sc, ops=sc["ops"][:i] + [dict(o, c=o["c"][1:])] + sc["ops"][i + 1 :])


WORLD = C12
