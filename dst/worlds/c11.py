"""C11: the parallel sections of the compiled simulator under every thread schedule."""
import random

import numpy as np

from .. import sched, simops
from ..core import Result, World


class C11(World):
    ID = "C11"
    TECH = ("deterministic simulation: the compiled simulator built against a scheduler in place of the OpenMP runtime; the threads of every parallel region "
            "run one at a time and a seeded generator decides after every memory access who goes on; happens-before check of every pair of accesses")
    NOTE = ("Seeded search over operation scripts, team sizes, schedules, vectorised and plain kernels. Results after every operation and the final state are "
            "compared with the run on one thread; unsynchronised conflicting accesses are reported even when the result is right.")
    RULE = "one evaluation = one script with one team size and schedule; distinct by event-log digest (which includes the schedule's hash)"
    DISTINCT = "distinct (schedule hash) values: sequences of (position, thread) at the switches"
    QUICK = 16000
    THOROUGH = 600000
    REAL = ["projectq/backends/_sim/_cppkernels (both kernel sets)", "projectq/backends/_sim/_cppsim.cpp"]
    STUB = ["OpenMP runtime (teams of real threads, one running at a time)", "memory access instrumentation (compiler's thread sanitizer calls)"]
    ASSUME = ["memory accesses take effect one after another (no weak-memory reordering; the happens-before check covers what would need it)",
              "results of reductions are equal up to rounding"]
    HANG_S = 60

    def prepare(self):
        sched.prepare()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        maxq = rng.choice([2, 4, 6, 7, 8] if tier == "quick" else [2, 4, 6, 8, 9, 10])
        length = rng.choice([2, 5, 10] if maxq > 6 else [3, 8, 16])
        return {"ops": simops.gen(rng, length, maxq), "threads": rng.choice([2, 2, 3, 4, 5, 7, 8]), "period": rng.choice([1, 2, 3, 5, 10, 40, 200, 1000]),
                "intrin": rng.getrandbits(1), "rnd": rng.getrandbits(30)}

    def run(self, *a):
        return sched.fresh(lambda: self.run_here(*a))

    def run_here(self, sc, intrin, threads, period, r=None):
        lib = sched.lib(intrin)
        lib.config(sc["rnd"], threads, period)
        run = simops.Run(lib.mod.Simulator(sc["rnd"] & 0xFFFFFF))
        out = []
        for op in sc["ops"]:
            if not run.possible(op):
                out.append("skipped")
                continue
            try:
                out.append(run.step(op))
            except Exception as e:  # noqa
                out.append(f"{type(e).__name__}: {e}")
                if r is not None:
                    r.hit("errors")
            if r is not None:
                r.hit("op." + op["op"])
        out.append(run.state() if run.live else None)
        return out, lib.stats()

    def execute(self, sc):
        r = Result()
        sched.pin()
        want, _ = self.run(sc, sc["intrin"], 1, 0)
        got, st = self.run(sc, sc["intrin"], sc["threads"], sc["period"], r)
        r.hit("fault.thread_switch", st["switches"])
        r.hit("accesses", st["accesses"])
        r.hit("parallel_regions", st["regions"])
        r.hit(f"threads.{sc['threads']}")
        r.hit("kernels." + ("vectorised" if sc["intrin"] else "plain"))
        r.sim_time = st["accesses"] * 1e-9
        r.cover.add(str(st["hash"]))
        r.log(st["hash"], st["accesses"], st["switches"], st["regions"], [simops.show(x) for x in got])
        r.nontrivial = st["switches"] > 0
        if st["races"]:
            r.violate("race", f"{st['races']} unsynchronised conflicting accesses with {sc['threads']} threads; first: {st['race']}")
            return r
        if self.differ(sc, got, want, r, "schedule", f"{sc['threads']} threads", "1 thread"):
            return r
        other, _ = self.run(sc, not sc["intrin"], 1, 0)
        names = ("plain kernels", "vectorised kernels")
        self.differ(sc, other, want, r, "kernels", names[not sc["intrin"]], names[bool(sc["intrin"])])
        return r

    def differ(self, sc, got, want, r, kind, a, b):
        for i, (x, y) in enumerate(zip(got, want)):
            if not simops.close(x, y):
                op = sc["ops"][i] if i < len(sc["ops"]) else {"op": "final state"}
                r.violate(kind, f"operation {i} ({op['op']}): {simops.show(x)} with {a}, {simops.show(y)} with {b}")
                return True
        return False

    def shrink_paths(self, sc):
        return ["ops"]

    def simplify(self, sc):
        if sc["threads"] > 2:
            yield dict(sc, threads=2)
        for p in (1000, 40, 5):
            if sc["period"] < p:
                yield dict(sc, period=p)
        for i, o in enumerate(sc["ops"]):
            if o.get("c"):
                yield dict(sc, ops=sc["ops"][:i] + [dict(o, c=o["c"][1:])] + sc["ops"][i + 1 :])


WORLD = C11
