"""C10: same program, same seed, same everything."""
import random

import numpy as np

from .. import compiled, env, repro
from .. import prog as P
from ..core import Result, World

HOW = {"gseed": 1}


EDGE = (0, 0, 1, 2**31 - 1, 2**31, 2**32 - 2)


def edge_seed(rng, seed):
    """A seed from the whole range the simulators accept, its ends included."""
    return rng.choice(EDGE) if rng.random() < 0.15 else seed


class C10(World):
    ID = "C10"
    TECH = ("deterministic simulation: each seeded program is executed twice under seeded differences that must not matter (hash seed, memory "
            "layout, collection points, earlier and interleaved engines, use of the global generators, worker threads) and the records compared")
    NOTE = ("Seeded search over programs, pipelines and circumstances. Command streams at the back-end, outcome sequences and errors must be "
            "identical, states equal to 1e-9. Runs under another hash seed and thread count take place in a separate interpreter.")
    RULE = "one evaluation = one program executed under two circumstances; distinct by event-log digest"
    DISTINCT = "distinct (pipeline kind, simulator, set of varied circumstances) combinations"
    QUICK = 2500
    THOROUGH = 60000
    REAL = ["projectq.cengines", "projectq.setups", "projectq.meta", "projectq.backends._sim (C++ and Python)"]
    STUB = ["none in the chain; the second interpreter is driven over a pipe"]
    ASSUME = ["programs keep no qubit in a reference cycle (collection timing then legitimately decides when such a qubit is released)"]
    HANG_S = 60

    def prepare(self):
        env.setup()
        env.pysim_class()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        if rng.random() < 0.04:
            return {"mode": "differ", "impl": rng.choice(["cpp", "fused", "py"]), "seed": edge_seed(rng, rng.getrandbits(31))}
        if rng.random() < 0.05:
            return {"mode": "default", "impl": rng.choice(["cpp", "py"]), "seed": rng.getrandbits(31)}
        pipe = compiled.gen_pipe(rng)
        impl = rng.choice(["cpp", "fused", "fused", "py"])
        s = compiled.gen_scenario(rng.getrandbits(60), tier, pipe, gcs=False)
        if impl == "py" and (pipe["kind"] in ("default",) or any("MathFn" in str(o) for o in s["prog"])):
            impl = "cpp"
        how = {"gseed": rng.getrandbits(30)}
        for k, p in (("junk", 0.6), ("warm", 0.4), ("other", 0.4), ("gcs", 0.4), ("draws", 0.5)):
            if rng.random() < p:
                how[k] = rng.getrandbits(20) + 1
        how["wimpl"], how["oimpl"] = rng.choice(["cpp", "py"]), rng.choice(["cpp", "py"])
        where = rng.choice([None, None, [11, 1], [23, 3]])
        return {"mode": "twice", "pipe": pipe, "prog": s["prog"], "links": s["links"], "impl": impl, "seed": edge_seed(rng, s["sim"]), "end": int(rng.random() < 0.7),
                "how": how, "where": where}

    def execute(self, sc):
        r = Result()
        getattr(self, "run_" + sc["mode"])(sc, r)
        return r

    def run_twice(self, sc, r):
        job = {k: sc[k] for k in ("pipe", "prog", "links", "impl", "seed", "end")}
        a = repro.trace({"sc": job, "how": HOW})
        ask = {"sc": job, "how": sc["how"]}
        b = repro.elsewhere(*sc["where"], ask) if sc["where"] else repro.trace(ask)
        if not a["fits"]:
            r.nontrivial = False
        for k in ("junk", "warm", "other", "gcs", "draws"):
            if sc["how"].get(k):
                r.hit("fault." + k)
        if sc["where"]:
            r.hit("fault.other_interpreter")
        r.cover.add(f"{sc['pipe']['kind']}:{sc['impl']}:{sc['where']}:{','.join(k for k in sorted(sc['how']) if len(k) > 3 and sc['how'][k])}")
        r.hit("commands", len(a["stream"]))
        r.hit("outcomes", len(a["outcomes"]))
        r.log(a["stream"], a["outcomes"], a["error"])
        if a["error"] != b["error"]:
            r.violate("error", f"first run: {a['error']}; second run: {b['error']}")
            return
        if a["stream"] != [list(x) for x in b["stream"]]:
            i = next((i for i, (x, y) in enumerate(zip(a["stream"], b["stream"])) if x != list(y)), min(len(a["stream"]), len(b["stream"])))
            r.violate("stream", f"command {i} of {len(a['stream'])}/{len(b['stream'])}: {a['stream'][i:i + 1]} against {b['stream'][i:i + 1]}")
            return
        if a["outcomes"] != [list(x) for x in b["outcomes"]]:
            r.violate("outcomes", f"{a['outcomes']} against {b['outcomes']}")
            return
        if a["state"] or b["state"]:
            x, y = np.array(a["state"][1]), np.array(b["state"][1])
            if [list(p) for p in a["state"][0]] != [list(p) for p in b["state"][0]] or x.shape != y.shape or not np.allclose(x, y, atol=1e-9):
                r.violate("state", "the two runs end in different states")

    def flips(self, sim, n=64):
        from projectq import MainEngine
        from projectq.ops import H, Measure

        eng = MainEngine(sim, [])
        q = eng.allocate_qubit()
        out = []
        for _ in range(n):
            H | q
            Measure | q
            eng.flush()
            out.append(int(q))
        compiled.silence(eng)
        return out

    def run_differ(self, sc, r):
        """64 fair coins: equal for equal seeds, different for different ones."""
        env.quiesce()
        a = self.flips(repro.simulator(sc["impl"], sc["seed"]))
        b = self.flips(repro.simulator(sc["impl"], sc["seed"]))
        c = self.flips(repro.simulator(sc["impl"], sc["seed"] + 1))
        r.log("differ", a)
        r.cover.add("differ:" + sc["impl"])
        if a != b:
            r.violate("outcomes", "64 coins differ between two simulators with the same seed")
        if a == c:
            r.violate("seed ignored", "64 coins are the same for different seeds")
        if len(set(a)) == 1:
            r.violate("seed ignored", "64 coins all fell on the same side")

    def run_default(self, sc, r):
        """Unseeded simulators take their seed from the global generator: reproducible with it, different from each other."""
        env.quiesce()

        def two():
            random.seed(sc["seed"])
            return [self.flips(repro.simulator(sc["impl"], None)) for _ in range(2)]

        a, b = two(), two()
        r.log("default", a)
        r.cover.add("default:" + sc["impl"])
        if a != b:
            r.violate("outcomes", "unseeded simulators are not reproducible although the global generator was seeded")
        if a[0] == a[1]:
            r.violate("seed ignored", "two unseeded simulators produce the same 64 coins")

    def shrink_paths(self, sc):
        return ["prog"]

    def simplify(self, sc):
        if sc["mode"] != "twice":
            return
        if sc["links"]:
            yield dict(sc, links=[])
        for k in ("junk", "warm", "other", "gcs", "draws"):
            if sc["how"].get(k):
                yield dict(sc, how={x: v for x, v in sc["how"].items() if x != k})
        if sc["where"]:
            yield dict(sc, where=None)


WORLD = C10
