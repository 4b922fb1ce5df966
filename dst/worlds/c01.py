"""C01: whole compiler pipelines against ideal semantics."""
from .. import compiled, env
from ..core import Result, World


class C01(World):
    ID = "C01"
    RULE = ("one evaluation = one random program (allocation, gates, blocks, measurement, branches on outcomes, releases, garbage "
            "collection, flushes) on one pipeline (stock set-up or assembled chain) with seeded re-batching between stages, its final "
            "state and outcomes compared with the reference; non-trivial = the program is legal and fits; distinct by event-log digest")
    DISTINCT = "distinct (gate, number of controls, control values) kinds seen at the back-end boundary"
    TECH = "deterministic simulation: seeded programs, outcomes, flush/GC points and inter-stage batching, against a reference state vector"
    NOTE = ("Seeded search; every run compares the complete final state and all outcomes of the real chain and simulator with an "
            "independent state-vector model, so no property violation on an explored run can pass unnoticed beyond 2e-6 in fidelity.")
    QUICK = 4000
    THOROUGH = 60000
    REAL = ["projectq.cengines (all stages)", "projectq.setups.*", "projectq.setups.decompositions", "projectq.libs.math", "projectq.meta",
            "projectq.ops", "projectq.backends._sim (compiled from the tree)"]
    STUB = ["device lists of cloud services (tables)", "the reference state vector (oracle)"]
    ASSUME = ["gates without a decomposition rule for a pipeline's gate set (two-qubit Rxx/Ryy/Rzz, multi-qubit matrices; more than one "
              "control on quantum adders) are rejected by design and not generated there",
              "pipelines declared to take 'any' one-qubit gate do not get one-qubit QFTs (the simulator behind them has no matrix for it)",
              "comparison up to a global phase with tolerance 2e-6 on the fidelity"]

    def prepare(self):
        env.setup()

    def generate(self, seed, tier):
        return compiled.gen_scenario(seed, tier)

    def execute(self, sc):
        r = Result()
        compiled.execute(sc, r)
        return r

    def shrink_paths(self, sc):
        return ["prog"]

    def simplify(self, sc):
        if sc["links"]:
            yield dict(sc, links=[])
        if sc["pipe"]["kind"] == "custom":
            st = sc["pipe"]["stages"]
            for i in range(len(st)):
                if st[i]["stage"] not in ("rep", "filter"):
                    yield dict(sc, pipe=dict(sc["pipe"], stages=st[:i] + st[i + 1 :]))
        if sc["fusion"]:
            yield dict(sc, fusion=0)


WORLD = C01
