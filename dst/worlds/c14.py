"""C14: cloud results are reported for the right qubits, undistorted."""
import random

from .. import cloud, cloudrun, env
from ..core import Result, World

KINDS = {"wrong-circuit", "wrong-probabilities", "impossible-outcome", "frequency", "no-result", "bad-payload", "clean-failure", "op-failed", "endless"}


class CloudWorld(World):
    KINDS = KINDS
    LEVEL = "exploration"
    REAL = ["back-ends", "HTTP and Braket/Azure clients", "set-ups, mappers, compiler engines", "requests library above the transport adapter", "Azure SDK Target and Job"]
    STUB = ["the five services (transport adapter, boto3 clients, Azure workspace and blob store)", "clock and sleep", "terminal prompt"]
    HANG_S = 60
    ASSUME = [
        "the service models follow the services' public interfaces as this repository's own tests and clients describe them",
        "programs measure at the end of a circuit; every submitted circuit has at least one gate",
        "angles for AQT are multiples of 0.01 pi (the resolution its interface transmits)",
        "Azure: Target, Job and polling code of the SDK run for real; the workspace and blob store are models",
    ]

    def prepare(self):
        env.setup()
        import projectq.backends  # noqa

    def execute(self, sc):
        res = Result()
        cloudrun.Session(sc, res).run()
        keep = [v for v in res.violations if v[0] in self.KINDS]
        for v in res.violations:
            if v[0] not in self.KINDS:
                res.hit("other:" + v[0])
        res.violations = keep
        res.cover.add(self.key(sc, res))
        res.nontrivial = res.stats.get("jobs", 0) > 0 or res.stats.get("unrunnable", 0) > 0
        return res

    def key(self, sc, res):
        return f"{sc['service']}|{sc['cfg']['mapper']['kind']}|{sc['cfg']['device']}|{sorted(k for k in res.stats if k.startswith('fault'))}|{[len(r['ops']) for r in sc['rounds']]}"

    def shrink_paths(self, sc):
        return ["rounds"]


class C14(CloudWorld):
    ID = "C14"
    QUICK = 12000
    THOROUGH = 200000
    RULE = "seeded programs on six simulated services; the service's view of the submitted circuit is compared with an independent state vector, every report with the histogram the service returned"
    DISTINCT = "service, mapper, device and circuit sizes"

    def generate(self, seed, tier):
        rng = random.Random(seed)
        service = rng.choice(cloud.SERVICES)
        n = rng.choice([1, 2, 2, 3, 3, 4] + ([5] if tier == "thorough" else []))
        cfg = cloudrun.config(rng, service, n)
        slots = list(range(n))
        if rng.random() < 0.06:
            # one histogram, many draws
            ops = cloudrun.gen_round(rng, service, slots, cfg["setup"], depth=2)
            if cfg["mapper"]["kind"] in ("setup", "linear", "ionq_setup"):
                cfg["mapper"] = {"kind": "bounded", "n": n}
                cfg["setup"] = False
                ops = cloudrun.gen_round(rng, service, slots, False, depth=2)
            if cfg["mapper"]["kind"] in ("none", "basic"):
                cfg["mapper"] = {"kind": "bounded", "n": n}
            r = cloudrun.reply(rng, polls=False)
            r["polls"] = 0
            K = 40
            rounds = [{"ops": ops, "reply": r, "u": (i + 0.5) / K, "series": "s"} for i in range(K)]
        else:
            rounds = [{"ops": cloudrun.gen_round(rng, service, slots, cfg["setup"]), "reply": cloudrun.reply(rng)}]
            if rng.random() < 0.5:
                rounds[0]["u"] = rng.choice([0.0, 2.0**-53, 1e-9, 0.5, 0.25, 1 / 3, 1 - 2.0**-53, 1 - 1e-12, rng.random()])
        return {"seed": seed & 0xFFFFFFFF, "service": service, "cfg": cfg, "rounds": rounds, "teardown": rng.choice(["exit", "flush", "drop"])}


WORLD = C14
