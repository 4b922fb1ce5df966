"""C18: successive cloud circuits are independent of each other."""
import random

from .. import cloud, cloudrun
from .c14 import KINDS, CloudWorld
from .c15 import faults


class C18(CloudWorld):
    ID = "C18"
    QUICK = 10000
    THOROUGH = 200000
    KINDS = KINDS | {"resubmitted", "invented-result", "foreign-result", "no-error"}
    RULE = "seeded sequences of circuits on one engine which succeed, fail or are interrupted, with surviving and new qubits; every circuit is judged as if it were the first"
    DISTINCT = "service, mapper, fault kinds and circuit sizes"

    def generate(self, seed, tier):
        rng = random.Random(seed)
        service = rng.choice(cloud.SERVICES)
        n = rng.choice([1, 2, 2, 3])
        cfg = cloudrun.config(rng, service, n, setup_p=0.1, multi=True)
        m = cfg["mapper"]
        pin = m["kind"] in ("none",)
        routing = m["kind"] in ("setup", "linear", "ionq_setup")
        azure = service.startswith("azure")
        cfg["kw"].update(num_retries=rng.choice([60, 3000] if azure else [4, 8, 3000]), interval=1)
        slots = list(range(n))
        rounds = []
        k = rng.choice([2, 2, 3, 3, 4, 5] + ([8] if tier == "thorough" else []))
        for i in range(k):
            sub = rng.sample(slots, rng.randint(1, n))
            sp = {"ops": cloudrun.gen_round(rng, service, sub, cfg["setup"], depth=rng.choice([0, 0, 1, 2, 4])), "reply": cloudrun.reply(rng)}
            if i < k - 1 and rng.random() < 0.5:
                sp["faults"] = faults(rng, 2)
                sp["reply"]["end"] = rng.choice(["done"] * 3 + ["failed", "cancelled", "gone", "never"])
                sp["offline"] = rng.random() < 0.05
                if service == "ibm" or service == "ionq":
                    sp["auth"] = rng.random() > 0.05
            if rng.random() < 0.3:
                sp["after"] = [{"k": "flush"}]
            if rng.random() < 0.15:
                sp["tight"] = 0
            if not routing and not pin and rng.random() < 0.4:
                sp["keep"] = True
            rounds.append(sp)
        for a, b in zip(rounds, rounds[1:]):
            if a.get("keep") and rng.random() < 0.8:
                b["reuse"] = True
        return {"seed": seed & 0xFFFFFFFF, "service": service, "cfg": cfg, "rounds": rounds, "teardown": rng.choice(["exit", "flush", "drop"])}


WORLD = C18
