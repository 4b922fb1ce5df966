"""C03: the local optimiser alone, on streams made to be optimised."""
import math
import random

from .. import env, stream
from .. import prog as P
from ..core import Result, World

ONE = ["H", "X", "Y", "Z", "S", "Sdag", "T", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Ph", "Mat1"]
TWO = ["Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz", "MatN"]
MANY = ["TimeEvolution", "QubitOp", "FlipBits", "AddConstant", "SubConstant", "AddQuantum", "SubtractQuantum",
        "ComparatorQuantum", "MathFn", "Barrier", "QFT", "Entangle", "UCRy", "UCRz"]


def mutate(rng, op, live, controls=True):
    """A command related to an earlier one: its inverse, a variant with other roles, controls, values or angle."""
    o = {k: (list(map(list, v)) if k == "t" else list(v) if isinstance(v, list) else v) for k, v in op.items()}
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(9)
        flat = [s for r in o["t"] for s in r]
        if k in (0, 1) and o["g"] not in ("MathFn",):
            o["inv"] = 1 - o.get("inv", 0)
        elif k == 2 and o.get("p") and isinstance(o["p"][0], float) and o["g"] in ("Rx", "Ry", "Rz", "R", "Ph", "Rxx", "Ryy", "Rzz"):
            o["p"] = [rng.choice([-o["p"][0], 4 * math.pi - o["p"][0], 2 * math.pi - o["p"][0], o["p"][0], P.angle(rng), -o["p"][0] + 1e-6])]
        elif k == 2 and o["g"] == "TimeEvolution":
            o["p"] = [rng.choice([-o["p"][0], o["p"][0] / 2, P.angle(rng)]), [[t, c * rng.choice([1, 1, -1, 2, 0.5])] for t, c in o["p"][1]]]
        elif k == 3 and len(flat) > 1:
            # other roles on the same qubits
            perm = rng.sample(flat, len(flat))
            t, i = [], 0
            for r in o["t"]:
                t.append(perm[i : i + len(r)])
                i += len(r)
            o["t"] = t
        elif k == 4 and o.get("c") and len(o["c"]) >= 1 and len(flat) >= 1:
            # swap a control with a target
            ci, ti = rng.randrange(len(o["c"])), rng.randrange(len(o["t"]))
            qi = rng.randrange(len(o["t"][ti]))
            o["c"][ci], o["t"][ti][qi] = o["t"][ti][qi], o["c"][ci]
        elif k == 5 and o.get("c"):
            i = rng.randrange(len(o["c"]))
            o["cs"] = o["cs"][:i] + rng.choice("01") + o["cs"][i + 1 :]
        elif k == 6 and o.get("c"):
            i = rng.randrange(len(o["c"]))
            o["c"] = o["c"][:i] + o["c"][i + 1 :]
            o["cs"] = o["cs"][:i] + o["cs"][i + 1 :]
        elif k == 7 and o["g"] != "Barrier" and controls:
            free = [s for s in live if s not in flat and s not in o.get("c", [])]
            if free:
                o["c"] = o.get("c", []) + [rng.choice(free)]
                o["cs"] = (o.get("cs") or "") + rng.choice("01")
        elif k == 8 and len(o.get("c", [])) > 1:
            j = list(range(len(o["c"])))
            rng.shuffle(j)
            o["c"] = [o["c"][i] for i in j]
            o["cs"] = "".join(o["cs"][i] for i in j)
    return o


class C03(World):
    ID = "C03"
    TECH = "deterministic simulation: seeded command streams, window sizes, arrival batching and flush points, state against a reference at every flush"
    NOTE = ("Seeded search. Streams are built from near-repetitions (inverses, merged angles, swapped roles, other control values) around "
            "measurements, releases and barriers; the optimised stream runs on the real simulator and is compared with the reference at every flush.")
    RULE = ("one evaluation = one stream through one to three optimisers with seeded windows and re-batching; non-trivial = legal program in "
            "which the optimiser removed or merged at least one command; distinct by event-log digest")
    DISTINCT = "distinct (window, gate, controls) of commands that left the optimiser"
    QUICK = 10000
    THOROUGH = 120000
    REAL = ["projectq.cengines._optimize", "projectq.ops", "projectq.meta", "projectq.backends._sim"]
    STUB = ["re-batching links", "reference state vector (oracle)"]
    ASSUME = ["allocation and release of an otherwise unused qubit may cancel"]

    def prepare(self):
        env.setup()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        pool = rng.choice([ONE, ONE + TWO, ONE + TWO + MANY, ["Rx", "Rz", "R", "X", "H", "Swap"], ["X", "Z", "Rz", "Rzz", "Swap", "TimeEvolution"],
                           TWO, MANY])
        st = [{"stage": "opt", "m": rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 30])} for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if set(pool) & set(MANY):
            st.append({"stage": "rep"})  # turns what the simulator does not know into what it knows
        g = P.Gen(rng, pool, max_qubits=rng.choice([1, 2, 2, 3, 4]), max_controls=rng.choice([0, 1, 2]), flushes=0.05, ifs=True, gcs=False,
                  blocks=rng.choice([(), (), ("control", "dagger", "loop", "cu")]), block_gates=[x for x in pool if x not in ("MathFn", "Barrier")] or None, no_inv=("MathFn",))
        n0 = rng.randint(1, g.max_qubits)
        sl = g.new_slots(n0)
        g.live += sl
        ops = [{"op": "alloc", "q": sl, "reg": 1}]
        for s in sl:
            if rng.random() < 0.7:
                ops.append({"op": "g", "g": "Mat1", "p": [rng.uniform(-3, 3) for _ in range(4)], "t": [[s]]})
        hist = []
        for _ in range(rng.choice([6, 12, 25] if tier == "quick" else [10, 25, 50])):
            if hist and rng.random() < 0.6:
                o = mutate(rng, rng.choice(hist[-4:]), g.live, controls=g.max_controls > 0)
                ops.append(o)
                hist.append(o)
                continue
            new = g.top_op(1)
            for o in new:
                ops.append(o)
                if o["op"] == "g":
                    hist.append(o)
        ops.append({"op": "flush"})
        return {"stages": st, "prog": ops, "links": stream.gen_links(rng, len(st)), "sim": rng.getrandbits(30), "fusion": rng.getrandbits(1)}

    def execute(self, sc):
        r = Result()
        eng, rn, b, pr, _ = stream.start(sc, r, sc["stages"])
        try:
            try:
                rn.run_top(sc["prog"])
            except Exception as e:  # noqa
                x = P.Expander(P.outcomes_by_slot(rn))
                try:
                    x.run(sc["prog"][: rn.index + 1])
                except P.Exhausted:
                    pass
                except P.Invalid:
                    r.nontrivial = False
                    return r
                r.violate("error", f"{type(e).__name__}: {e}")
                return r
            if stream.judge_snaps(r, rn, sc["prog"]) is None:
                return r
        finally:
            stream.finish(eng, rn, r, pr, sc)
        out = sum(1 for c in pr.log if c[0] not in ("Flush",))
        issued = rn.count - r.stats.get("flushes", 0)
        if out >= issued:
            r.nontrivial = r.nontrivial and bool(len(pr.log) > 4)
        r.hit("probe.removed", max(0, issued - out))
        m = sc["stages"][0]["m"]
        r.cover.update(f"{m}:{c[0].split('(')[0]}/{len(c[2])}/{c[3]}" for c in pr.log)
        return r

    def shrink_paths(self, sc):
        return ["prog"]

    def simplify(self, sc):
        for i in range(len(sc["links"])):
            yield dict(sc, links=sc["links"][:i] + sc["links"][i + 1 :])
        if len(sc["stages"]) > 1:
            yield dict(sc, stages=sc["stages"][:1])


WORLD = C03
