"""C16: waiting for a cloud job is bounded and interruptible without losing it."""
import random

from .. import cloud, cloudrun
from .c14 import CloudWorld


class C16(CloudWorld):
    ID = "C16"
    QUICK = 16000
    THOROUGH = 250000
    KINDS = {"too-many-polls", "too-long", "late-result", "lost-job", "handler", "result-of-failed", "endless"}
    RULE = "seeded job progressions, polling settings, interrupts, stalls and network faults at polls; polls and virtual time are counted against the configured limits, errors must name the job, the interrupt handler must be back"
    DISTINCT = "service, device, fault kinds and circuit sizes"

    def generate(self, seed, tier):
        rng = random.Random(seed)
        service = rng.choice(cloud.SERVICES)
        azure = service.startswith("azure")
        n = rng.choice([1, 2])
        cfg = cloudrun.config(rng, service, n, setup_p=0.1, multi=True)
        retries = rng.choice([0, 1, 2, 3, 5, 8, 60, 61, 130, 3000])
        if azure:
            retries = rng.choice([1, 2, 10, 60, 250, 3000])
        interval = rng.choice([0.1, 0.5, 1, 2.5])
        cfg["kw"].update(num_retries=retries, interval=interval)
        rounds = []
        for _ in range(rng.choice([1, 1, 2])):
            rep = cloudrun.reply(rng)
            rep["end"] = rng.choice(["done"] * 6 + ["failed", "failed", "cancelled", "gone", "never"])
            if rep["end"] == "never" and retries > 200 and rng.random() < 0.7:
                rep["end"] = "failed"
            if azure:
                rep.pop("polls")
                rep["after"] = rng.choice([0, 0, 1, 5, 30, 61, 130, 400, max(0, retries * interval + rng.choice([-40, -5, 5, 100]))])
            else:
                rep["polls"] = rng.choice([0, 0, 1, 2, 3, retries - 1, retries, retries + 1, 59, 60, 61, 119, 121])
                rep["polls"] = min(max(rep["polls"], 0), 200)
                if rng.random() < 0.12:
                    rep["offline_after"] = rng.choice([1, 2, 30, 59, 60, 61, 90])
            fs = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                if rng.random() < 0.4:
                    fs.append({"on": "sleep", "at": rng.choice([0, 0, 1, 2, 5, 60]), "kind": rng.choice(["sigint", "sigint", "sigint", "stall"])})
                else:
                    fs.append({"on": "req", "at": rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 64, 66]), "kind": rng.choice(cloud.NET_FAULTS + ["sigint", "sigint"])})
            sp = {"ops": cloudrun.gen_round(rng, service, list(range(n)), cfg["setup"], depth=rng.choice([0, 1])), "reply": rep, "faults": fs}
            sp["auth"] = rng.random() > 0.03
            rounds.append(sp)
        sc = {"seed": seed & 0xFFFFFFFF, "service": service, "cfg": cfg, "rounds": rounds, "teardown": rng.choice(["exit", "flush", "drop"])}
        if rng.random() < 0.2:
            sc["retrieve"] = {
                "of": 0, "polls": rng.choice([0, 1, 2, retries - 1 if retries > 0 else 0, retries]) if retries < 200 else 3,
                "end": rng.choice(["done", "done", "failed", "cancelled", "gone", "never"] if retries < 200 else ["done", "failed"]),
            }
        return sc


WORLD = C16
