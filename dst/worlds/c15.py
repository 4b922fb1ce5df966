"""C15: a circuit is submitted to a paid service at most once."""
import random

from .. import cloud, cloudrun
from .c14 import CloudWorld


def faults(rng, most=3, sleeps=True, requests=12):
    out = []
    for _ in range(rng.choice([0] + list(range(1, most + 1)) * 2)):
        if sleeps and rng.random() < 0.2:
            out.append({"on": "sleep", "at": rng.choice([0, 0, 1, 2, 3]), "kind": rng.choice(["sigint", "sigint", "stall"])})
        else:
            out.append({"on": "req", "at": rng.randrange(requests), "kind": rng.choice(cloud.NET_FAULTS + ["sigint"])})
    return out


def session(rng, service, n, rounds, most=3, keep=0.3, setup_p=0.15, retries=(3, 4, 5, 10, 20)):
    cfg = cloudrun.config(rng, service, n, setup_p=setup_p, multi=True)
    cfg["kw"]["num_retries"] = rng.choice(retries)
    if service.startswith("azure"):
        cfg["kw"]["num_retries"] = rng.choice([1, 60, 200, 3000])
    cfg["kw"]["interval"] = rng.choice([0.5, 1, 2])
    slots = list(range(n))
    out = []
    for _ in range(rounds):
        sub = rng.sample(slots, rng.randint(1, n))
        sp = {"ops": cloudrun.gen_round(rng, service, sub, cfg["setup"]), "reply": cloudrun.reply(rng), "faults": faults(rng, most)}
        sp["reply"]["end"] = rng.choice(["done"] * 5 + ["failed", "cancelled", "gone", "never"])
        if rng.random() < 0.06:
            sp["reply"]["reject"] = True
        sp["after"] = [{"k": rng.choice(["flush", "barrier_flush"])} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        sp["keep"] = rng.random() < keep
        out.append(sp)
    return cfg, out


class C15(CloudWorld):
    ID = "C15"
    QUICK = 16000
    THOROUGH = 200000
    KINDS = {"resubmitted", "foreign-result", "invented-result", "endless"}
    RULE = "seeded sessions of flush, failure, further flushes, retrieval and teardown with network faults, lost replies and interrupts at seeded requests; the service counts jobs, every result is traced to the job of its own flush"
    DISTINCT = "service, device, fault kinds and circuit sizes"

    def generate(self, seed, tier):
        rng = random.Random(seed)
        service = rng.choice(cloud.SERVICES)
        n = rng.choice([1, 2, 3])
        cfg, rounds = session(rng, service, n, rng.choice([1, 1, 2, 3, 4] if tier == "thorough" else [1, 1, 2, 3]))
        sc = {"seed": seed & 0xFFFFFFFF, "service": service, "cfg": cfg, "rounds": rounds, "teardown": rng.choice(["exit", "flush", "drop"])}
        if rng.random() < 0.35:
            sc["retrieve"] = {
                "of": 0, "polls": rng.choice([0, 0, 1, 2, 4]), "end": rng.choice(["done"] * 4 + ["failed", "never", "gone"]),
                "faults": faults(rng, 1) if rng.random() < 0.4 else [],
            }
        return sc


WORLD = C15
