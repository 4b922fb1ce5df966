"""C17: nothing is submitted when it cannot run."""
import random

from .. import cloud, cloudrun
from .c14 import CloudWorld
from .c15 import faults


class C17(CloudWorld):
    ID = "C17"
    QUICK = 16000
    THOROUGH = 250000
    KINDS = {"submitted-unrunnable", "no-error", "unclear-error", "clean-failure", "invented-result"}
    RULE = "seeded catalogues, device states and sizes around the needed one, failing authentication and network faults before the submission; jobs created at the service and the error raised are compared with what the scenario allows"
    DISTINCT = "service, device, fault kinds and circuit sizes"

    def generate(self, seed, tier):
        rng = random.Random(seed)
        service = rng.choice(cloud.SERVICES)
        azure = service.startswith("azure")
        case = rng.choice(["fit", "fit", "unfit", "unfit", "auth", "offline", "offline", "faults", "sizes", "sizes"])
        if service == "aqt" and case == "sizes":
            case = "unfit"
        if azure and case in ("unfit", "auth", "sizes"):
            case = "offline"
        n = rng.choice([1, 2, 3, 4])
        cfg = cloudrun.config(rng, service, n, setup_p=0.0)
        m = cfg["mapper"]
        slots = list(range(n))
        spec = {"ops": cloudrun.gen_round(rng, service, slots, False, measure=rng.sample(slots, n)), "reply": cloudrun.reply(rng)}
        rounds = [spec]
        needed = max(m["perm"][:n]) + 1 if m["kind"] == "manual" else n
        dev = cfg["device"]
        others = rng.sample([{"nq": 1}, {"nq": 40}, {"nq": needed}], rng.randint(0, 2))
        if service == "ibm":
            cfg["catalogue"] = {dev: {"nq": needed, "coupling": []}}
            cfg["catalogue"].update({f"other{i}": dict(o, coupling=[]) for i, o in enumerate(others)})
        elif service == "ionq":
            hw = True
            dev = rng.choice(["qpu", "simulator"])
            cfg["kw"] = {"use_hardware": hw, "num_runs": 100}
            cfg["device"] = dev if hw else "ionq_simulator"
            if hw:
                cfg["kw"]["device"] = dev
            cfg["catalogue"] = {"qpu": {"nq": needed}, "simulator": {"nq": needed}}
        elif service == "aws":
            cfg["kw"]["device"] = cfg["device"] = dev = rng.choice(["SV1", "SV1", "Aspen-8", "IonQ Device"])
            cfg["catalogue"] = {dev: {"nq": needed, "type": "SIMULATOR"} if dev == "SV1" else {"nq": needed, "region": "us-west-1" if dev == "Aspen-8" else "us-east-1"}}
            for i, o in enumerate(others):
                cfg["catalogue"][f"Other{i}"] = dict(o)
        if case == "unfit":
            if service == "aqt":
                k = 12
                dev = rng.choice(["aqt_simulator", "aqt_simulator_noise", "aqt_device"])
                if dev == "aqt_device":
                    k = 5
                cfg["kw"] = {"use_hardware": True, "num_runs": 100, "device": dev}
                cfg["device"] = dev
                cfg["mapper"] = {"kind": rng.choice(["manual", "bounded", "none"]), "n": k, "perm": rng.sample(range(k), k)}
                spec["ops"] = [{"k": "alloc", "s": s} for s in range(k)] + [{"k": "g", "g": "Ry", "p": [0.5], "t": [s], "c": []} for s in range(k)]
                if rng.random() < 0.5:  # few qubits, but one beyond the end
                    cfg["mapper"] = {"kind": "manual", "n": k, "perm": [k - 1] + list(range(k - 1))}
                    spec["ops"] = [{"k": "alloc", "s": 0}, {"k": "g", "g": "Ry", "p": [0.5], "t": [0], "c": []}]
                    k = 1
                spec["ops"] += [{"k": "meas", "q": [s]} for s in range(k)]
            else:
                less = needed - 1 if needed > 1 and rng.random() < 0.8 else max(0, needed - rng.choice([1, 2]))
                cfg["catalogue"][dev]["nq"] = less
        elif case == "auth":
            spec["auth"] = False
            if service == "ibm" and rng.random() < 0.3:
                cfg["typed"] = True
        elif case == "offline":
            spec["offline"] = rng.choice([True, "Degraded", "Unavailable"]) if azure else True
            if service == "aqt" and rng.random() < 0.3:
                cfg["kw"] = {"use_hardware": True, "num_runs": 100, "device": "aqt_moon"}
                cfg["device"] = "aqt_moon"
            elif rng.random() < 0.4:  # back again for the next circuit
                spec2 = dict(spec, ops=cloudrun.gen_round(rng, service, slots, False), offline=False)
                rounds.append(spec2)
        elif case == "sizes":  # the device changes between circuits of different sizes
            del rounds[:]
            for _ in range(rng.choice([2, 2, 3, 4])):
                sub = rng.sample(slots, rng.randint(1, n))
                rounds.append({"ops": cloudrun.gen_round(rng, service, sub, False), "reply": cloudrun.reply(rng), "tight": rng.choice([0, 0, 0, -1]),
                               "keep": m["kind"] == "manual" and rng.random() < 0.3})
        elif case == "faults":
            spec["faults"] = faults(rng, 2, sleeps=False, requests=4)
            if rng.random() < 0.5:
                rounds.append({"ops": cloudrun.gen_round(rng, service, slots, False), "reply": cloudrun.reply(rng)})
        if case in ("fit", "offline") and rng.random() < 0.3 and service != "ionq":
            cfg["typed"] = not azure
        return {"seed": seed & 0xFFFFFFFF, "service": service, "cfg": cfg, "rounds": rounds, "teardown": rng.choice(["exit", "flush", "drop"])}


WORLD = C17
