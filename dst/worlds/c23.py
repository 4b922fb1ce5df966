"""C23: credentials never leave the authenticated channel."""
import random

from .. import cloud, cloudrun
from .c14 import CloudWorld
from .c15 import session


class C23(CloudWorld):
    ID = "C23"
    QUICK = 16000
    THOROUGH = 200000
    KINDS = {"leak"}
    RULE = "seeded sessions with given or typed credentials, faults at every kind of request and interrupts; everything printed, raised or sent to another host is searched for the credentials"
    DISTINCT = "service, device, fault kinds and circuit sizes"

    def generate(self, seed, tier):
        rng = random.Random(seed)
        service = rng.choice(["ibm", "ibm", "aqt", "aqt", "ionq", "ionq", "aws", "aws", "azure_ionq"])
        cfg, rounds = session(rng, service, rng.choice([1, 2]), rng.choice([1, 1, 2]), most=4)
        if service != "azure_ionq":
            cfg["typed"] = rng.random() < 0.5
        cfg.pop("verbose", None)
        for r in rounds:
            if rng.random() < 0.15:
                r["auth"] = False
            if rng.random() < 0.1:
                r["offline"] = True
        sc = {"seed": seed & 0xFFFFFFFF, "service": service, "cfg": cfg, "rounds": rounds, "teardown": rng.choice(["exit", "flush", "drop"])}
        if rng.random() < 0.2:
            sc["retrieve"] = {"of": 0, "polls": rng.choice([0, 1, 30]), "end": rng.choice(["done", "failed", "never"])}
        if cfg["setup"] and rng.random() < 0.5:
            sc["build_faults"] = [{"on": "req", "at": rng.randrange(3), "kind": rng.choice(cloud.NET_FAULTS)}]
            sc["may_refuse"] = True
        return sc


WORLD = C23
