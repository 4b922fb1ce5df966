"""Sessions with simulated cloud services: scenario generator, executor and judgement."""
import contextlib
import gc
import io
import math
import random
import signal
import sys

import numpy as np

from . import chain, cloud, env
from . import ref as R
from .core import Result

PI = math.pi
NATIVE = {
    # name -> (parameters, targets, allowed numbers of controls)
    "ibm": {"H": (0, 1, [0]), "Rx": (1, 1, [0]), "Ry": (1, 1, [0]), "Rz": (1, 1, [0]), "X": (0, 1, [1])},
    "aqt": {"Rx": (1, 1, [0]), "Ry": (1, 1, [0]), "Rxx": (1, 2, [0])},
    "ionq": {"X": (0, 1, [0, 1, 2, 3]), "Y": (0, 1, [0]), "Z": (0, 1, [0]), "H": (0, 1, [0]), "Rx": (1, 1, [0]), "Ry": (1, 1, [0]),
             "Rz": (1, 1, [0]), "S": (0, 1, [0]), "Sdag": (0, 1, [0]), "T": (0, 1, [0]), "Tdag": (0, 1, [0]), "SqrtX": (0, 1, [0]),
             "Rxx": (1, 2, [0]), "Ryy": (1, 2, [0]), "Rzz": (1, 2, [0]), "Swap": (0, 2, [0])},
    "aws": {"X": (0, 1, [0, 1, 2]), "Y": (0, 1, [0, 1]), "Z": (0, 1, [0, 1]), "H": (0, 1, [0]), "Rx": (1, 1, [0]), "Ry": (1, 1, [0]),
            "Rz": (1, 1, [0]), "R": (1, 1, [0, 1]), "S": (0, 1, [0]), "Sdag": (0, 1, [0]), "T": (0, 1, [0]), "Tdag": (0, 1, [0]),
            "SqrtX": (0, 1, [0]), "Swap": (0, 2, [0, 1])},
    "azure_quantinuum": {"X": (0, 1, [0, 1, 2]), "Y": (0, 1, [0]), "Z": (0, 1, [0, 1, 2]), "H": (0, 1, [0]), "Rx": (1, 1, [0]), "Ry": (1, 1, [0]),
                         "Rz": (1, 1, [0]), "S": (0, 1, [0]), "Sdag": (0, 1, [0]), "T": (0, 1, [0]), "Tdag": (0, 1, [0]),
                         "Rxx": (1, 2, [0]), "Ryy": (1, 2, [0]), "Rzz": (1, 2, [0])},
}
NATIVE["azure_ionq"] = dict(NATIVE["ionq"], SqrtXdag=(0, 1, [0]))
GENERAL = {"X": (0, 1, [0, 1, 2]), "Y": (0, 1, [0]), "Z": (0, 1, [0]), "H": (0, 1, [0]), "S": (0, 1, [0]), "T": (0, 1, [0]), "Tdag": (0, 1, [0]),
           "Rx": (1, 1, [0]), "Ry": (1, 1, [0]), "Rz": (1, 1, [0, 1]), "Swap": (0, 2, [0])}


def angle(rng):
    # multiples of 0.01 pi: the resolution at which the AQT interface transmits angles
    return round(rng.choice([rng.randint(1, 199), rng.randint(-99, 99) or 7, 50, 25, 100, 150]) * 0.01, 2) * PI


def gen_gates(rng, table, slots, depth, angle=angle):
    ops = []
    names = sorted(table)
    for _ in range(depth):
        g = rng.choice(names)
        np_, nt, ncs = table[g]
        nc = rng.choice([c for c in ncs if c + nt <= len(slots)] or [None])
        if nc is None or nt + nc > len(slots):
            continue
        qs = rng.sample(slots, nt + nc)
        ops.append({"k": "g", "g": g, "p": [angle(rng) for _ in range(np_)], "t": qs[:nt], "c": qs[nt:]})
    return ops


def gen_round(rng, service, slots, setup, depth=None, measure=None):
    """Allocation in a seeded order, gates which make the outcome distribution lopsided, measurements in a seeded order."""
    table = GENERAL if setup else NATIVE[service]
    ops = [{"k": "alloc", "s": s} for s in rng.sample(slots, len(slots))]
    for s in slots:  # every qubit gets its own bias: exchanged qubits show
        ops.append({"k": "g", "g": "Ry", "p": [angle(rng)], "t": [s], "c": []})
    ops += gen_gates(rng, table, slots, depth if depth is not None else rng.choice([0, 1, 2, 3, 5, 8]))
    if service == "aqt":  # controlled rotations are taken apart into half angles
        for o in ops:
            if o.get("c") and o["p"]:
                o["p"] = [round(x / PI / 0.02) * 0.02 * PI for x in o["p"]]
    if not setup and rng.random() < 0.15:
        ops.insert(rng.randint(len(slots), len(ops)), {"k": "barrier", "q": list(slots)})
    m = measure if measure is not None else rng.sample(slots, rng.choice([len(slots), len(slots), rng.randint(1, len(slots))]))
    ops += [{"k": "meas", "q": [s]} for s in m]
    return ops


def gate_obj(g, p):
    from projectq import ops as O

    if g == "Sdag":
        return O.Sdag
    if g == "Tdag":
        return O.Tdag
    if g == "SqrtXdag":
        return O.get_inverse(O.SqrtX)
    cls = getattr(O, g)
    return cls(*p) if p else cls


def ref_matrix(g, p):
    inv = {"Sdag": "S", "Tdag": "T", "SqrtXdag": "SqrtX"}
    if g in inv:
        return R.gate_matrix(inv[g], p, [1]).conj().T
    if g == "Swap":
        return R.gate_matrix("Swap", p, [1, 1])
    n = 2 if g in ("Rxx", "Ryy", "Rzz") else 1
    return R.gate_matrix(g, p, [1] * n)


def chain_text(e):
    out = []
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        out.append(f"{type(x).__name__}: {x} {getattr(x, '__notes__', '')}")
        todo += [x.__cause__, x.__context__]
    return "\n".join(out)


class Scrub(Exception):
    pass


class Session:
    def __init__(self, sc, res):
        self.sc, self.res = sc, res
        self.cfg = sc["cfg"]
        self.service = sc["service"]
        self.sim = cloud.Sim(sc, res)
        self.server = cloud.SERVERS[self.service](self.sim, self.cfg)
        self.out = io.StringIO()
        self.raised = []
        self.q = {}
        self.eng = None
        self.tally = {}

    # -------------------------------------------------------------------------------------------- building
    def engines(self):
        from projectq import cengines as C
        from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper

        m = self.cfg.get("mapper", {"kind": "none"})
        k = m["kind"]
        if k == "none":
            return []
        if k == "manual":
            table = {}
            perm = m["perm"]

            def place(qid):
                if qid < 0:  # the flush command
                    return qid
                if qid not in table:
                    live = {table[x.id] for x in self.q.values() if x.id in table}
                    table[qid] = next(p for p in perm if p not in live and p not in self.taken)
                    self.taken.add(table[qid])
                return table[qid]

            self.taken = set()
            return [C.ManualMapper(place)]
        if k == "bounded":
            return [BoundedQubitMapper(m["n"])]
        if k == "basic":
            b = C.BasicMapperEngine()
            b.current_mapping = {i: i for i in range(m["n"])}
            return [b]
        if k == "linear":
            from projectq.ops import CNOT, H, Rx, Ry, Rz
            from projectq.setups import linear

            return linear.get_engine_list(m["n"], cyclic=m.get("cyclic", False), one_qubit_gates=(Rx, Ry, Rz, H), two_qubit_gates=(CNOT,))
        if k == "setup":
            import importlib

            s = importlib.import_module("projectq.setups." + {"aws": "awsbraket"}.get(self.service, self.service))
            if self.service == "aws":
                cred = None if self.cfg.get("typed") else {"AWS_ACCESS_KEY_ID": cloud.KEYID, "AWS_SECRET_KEY": cloud.SECRET}
                return s.get_engine_list(credentials=cred, device=self.cfg["device"])
            return s.get_engine_list(token=None if self.cfg.get("typed") else cloud.TOKEN, device=self.cfg["device"])
        if k == "ionq_setup":  # the compiler of the IonQ set-up in front of an Azure target
            from projectq.ops import H, Rx, Rxx, Ry, Ryy, Rz, Rzz, S, Sdag, Swap, T, Tdag, X, Y, Z
            from projectq.setups import restrictedgateset

            two = (Rxx, Ryy, Rzz) + ((Swap,) if self.service == "azure_ionq" else ())
            return restrictedgateset.get_engine_list(
                one_qubit_gates=(X, Y, Z, Rx, Ry, Rz, H, S, Sdag, T, Tdag), two_qubit_gates=two
            ) + [BoundedQubitMapper(m["n"])]
        raise KeyError(k)

    def build(self, **kw):
        from projectq import MainEngine

        cfg = dict(self.cfg, kw=dict(self.cfg.get("kw", {}), **kw))
        be = cloud.make_backend(self.service, cfg, self.server)
        self.be = be
        engines = self.engines()
        if self.cfg.get("mark") is not None:
            engines = [chain.marker(self.cfg["mark"])] + engines
        self.eng = MainEngine(backend=be, engine_list=engines)
        self.sim.mapping_now = lambda: self.eng.mapper.current_mapping if self.eng.mapper is not None else None

    # -------------------------------------------------------------------------------------------- operations
    def do_ops(self, ops, r):
        """Issue commands; the reference follows.  Returns the measured slots in order."""
        from projectq.meta import Control
        from projectq.ops import Barrier, Measure

        measured = []
        for op in ops:
            k = op["k"]
            if k == "alloc":
                if op["s"] in self.q:
                    continue
                self.q[op["s"]] = self.eng.allocate_qubit()[0]
                r.alloc(op["s"])
                self.ids[op["s"]] = self.q[op["s"]].id
                self.fresh.add(op["s"])
            elif k == "g":
                qs = op["t"] + op["c"]
                if not all(s in self.fresh for s in qs) or any(s in measured for s in qs):
                    continue
                t = tuple(self.q[s] for s in op["t"])
                g = gate_obj(op["g"], op["p"])
                if op["c"]:
                    with Control(self.eng, [self.q[s] for s in op["c"]]):
                        g | (t if len(t) > 1 else t[0])
                else:
                    g | (t if len(t) > 1 else t[0])
                r.apply(ref_matrix(op["g"], op["p"]), op["t"], op["c"])
                self.gates += 1
            elif k == "barrier":
                qs = [self.q[s] for s in op["q"] if s in self.fresh and s not in measured]
                if qs and self.service != "azure_ionq":
                    Barrier | tuple(qs)
            elif k == "meas":
                for s in op["q"]:
                    if s in self.fresh and s not in measured:
                        Measure | self.q[s]
                        measured.append(s)
            elif k == "free":
                s = op["s"]
                if s in self.q and (s in measured or (s in r.names and r.classical(s, 1e-9) is not None)):
                    q = self.q.pop(s)
                    self.fresh.discard(s)
                    del q
                    if s in measured:
                        self.gone.append(s)
        return measured

    def attempt(self, f):
        try:
            f()
            return None
        except Exception as e:  # noqa
            t = chain_text(e)
            self.scrub(e)
            self.raised.append(t)
            return (type(e).__name__, t)
        except KeyboardInterrupt as e:
            t = chain_text(e)
            self.scrub(e)
            self.raised.append(t)
            return ("KeyboardInterrupt", t)

    @staticmethod
    def scrub(e):
        seen = set()
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            e.__traceback__ = None
            e = e.__cause__ or e.__context__

    # -------------------------------------------------------------------------------------------- a round
    def round(self, i, spec):
        sim, res = self.sim, self.res
        sim.begin(i, spec)
        sim.token_ok = spec.get("auth", True)
        sim.catalogue_off = spec.get("offline") is True
        sim.availability = spec["offline"] if isinstance(spec.get("offline"), str) else None
        if hasattr(self, "taken"):
            self.taken.clear()
        self.ids = getattr(self, "ids", {})
        self.fresh = set()
        self.gone = []
        self.gates = 0
        r = R.Ref()
        self.reused = set(self.q)
        if spec.get("reuse"):  # qubits of earlier circuits take part again (every circuit starts in |0...0>)
            for s in self.q:
                r.alloc(s)
                self.fresh.add(s)
            if self.q:
                res.hit("reused_qubits")
        before = len(sim.order)
        mark = self.out.tell()
        t0 = sim.now
        box = {}
        err = self.attempt(lambda: box.update(m=self.do_ops(spec["ops"], r)))
        measured = box.get("m", [])
        if err:
            res.log("round", i, "operations failed", err[0])
            res.violate("op-failed", f"round {i}: issuing commands raised {err[1][:300]}")
        else:
            size = self.resize(spec)
            self.unfit = self.fits_not()
            u = spec.get("u")
            with dice(u) as used:
                err = self.attempt(lambda: self.eng.flush())
            self.drew = used[0]
            res.log("round", i, "flush", err[0] if err else "ok", "jobs", len(sim.order) - before, "t", round(sim.now - t0, 3))
            self.judge(i, spec, r, measured, err, before, mark, t0)
            if size is not None:
                self.cfg["catalogue"][self.cfg["device"]]["nq"] = size
        sim.calm()
        # nothing new: nothing may be submitted
        for a in spec.get("after", []):
            n = len(sim.order)
            if a["k"] == "flush":
                e = self.attempt(lambda: self.eng.flush())
                res.hit("empty_flush")
            elif a["k"] == "barrier_flush":
                e = self.attempt(lambda: self.eng.flush(deallocate_qubits=False))
            if len(sim.order) > n:
                res.violate("resubmitted", f"round {i}: a flush without new commands submitted {len(sim.order) - n} more job(s)")
        if not spec.get("keep"):
            for s in list(self.q):
                q = self.q.pop(s)
                del q
        if len(sim.order) - before > 1:
            res.violate("resubmitted", f"round {i} created {len(sim.order) - before} jobs")

    def needs(self):
        """Number of device positions the circuit needs."""
        k = self.cfg.get("mapper", {"kind": "none"})["kind"]
        ids = [self.q[s].id for s in self.fresh if s in self.q]
        if k == "manual":
            m = self.eng.mapper.current_mapping or {}
            pos = [m[x] for x in ids if x in m]
        elif k == "none" or k == "setup" and self.service == "aws":  # no mapper: positions are the logical numbers
            pos = ids
        elif k == "bounded":
            m = self.eng.mapper.current_mapping or {}
            pos = list(range(len(ids))) + [m[x] for x in ids if x in m]
        else:
            return None
        return max(pos, default=-1) + 1

    def capacity(self):
        d = self.cfg["device"]
        if self.service == "aqt":
            return {"aqt_simulator": 11, "aqt_simulator_noise": 11, "aqt_device": 4}.get(d)
        if self.service.startswith("azure"):
            return None
        if self.service == "ionq" and d not in ("qpu", "simulator"):
            return {"ionq_qpu": 11, "ionq_simulator": 29}[d]
        return self.cfg["catalogue"][d]["nq"]

    def resize(self, spec):
        """The device now has exactly as many qubits as this circuit needs (or one less); returns the former size."""
        d = self.cfg["device"]
        n = self.needs()
        if spec.get("tight") is None or not n or d not in self.cfg["catalogue"] or "nq" not in self.cfg["catalogue"][d]:
            return None
        old = self.cfg["catalogue"][d]["nq"]
        self.cfg["catalogue"][d]["nq"] = max(0, n + spec["tight"])
        self.res.hit("fault.device_resized")
        return old

    def fits_not(self):
        n, c = self.needs(), self.capacity()
        return n is not None and c is not None and n > c

    def offline(self, spec):
        if self.service == "aqt" and self.cfg["device"] not in ("aqt_simulator", "aqt_simulator_noise", "aqt_device"):
            return True
        if self.service == "ionq" and self.cfg["device"] not in ("qpu", "simulator"):
            return False  # the old names stand for entries which the client itself keeps
        return bool(spec.get("offline"))

    def judge(self, i, spec, r, measured, err, before, mark, t0):
        sim, res = self.sim, self.res
        new = sim.order[before:]
        started = [j for j in new if j.started]
        text = self.out.getvalue()[mark:] + (err[1] if err else "")
        kw = self.cfg.get("kw", {})
        reply0 = spec.get("reply", {})
        retries, interval = kw.get("num_retries", 3000), kw.get("interval", 1)
        offline, unfit = self.offline(spec), self.unfit
        clean = not sim.fired and not reply0.get("offline_after") and spec.get("auth", True) and not offline and not unfit
        reply = spec.get("reply", {})
        end = reply.get("end", "done")
        azure = self.service.startswith("azure")
        if "after" in reply:
            in_time = reply["after"] + 31 <= retries * interval
        else:
            in_time = reply.get("polls", 0) + 1 <= retries
            if azure:
                in_time = in_time and retries * interval >= 200
        sig = signal.getsignal(signal.SIGINT)
        if sig is not self.handler:
            res.violate("handler", f"round {i}: SIGINT handler is {sig!r} after the flush")
            signal.signal(signal.SIGINT, self.handler)
        if not self.gates:
            return
        if err and "without using Swaps" in err[1] and self.cfg["device"] == "ibmq_five":
            res.hit("needs_swaps")  # documented limit of IBM5QubitMapper
            return
        # ---- what could not run
        if not spec.get("auth", True) or offline or unfit:
            res.hit("unrunnable")
            res.hit("unrunnable:" + ("auth" if not spec.get("auth", True) else "offline" if offline else "unfit"))
            if new:
                res.violate("submitted-unrunnable", f"round {i}: {self.why(spec)}, but {len(new)} job(s) were created")
            if not err:
                res.violate("no-error", f"round {i}: {self.why(spec)}, but flush() returned normally")
            elif spec.get("auth", True) and not sim.fired:
                want = ["DeviceOfflineError", "AzureQuantumTargetNotFoundError"] if offline else []
                if unfit:
                    want.append("DeviceTooSmall")
                if err[0] not in want:
                    res.violate("unclear-error", f"round {i}: {self.why(spec)}, but the error is {err[1][:200]}")
            return
        if clean and end == "done" and in_time and (err or not started):
            res.violate("clean-failure", f"round {i}: nothing went wrong, but flush() {'raised ' + err[1][:300] if err else 'submitted nothing'}")
        if not started:
            if not err:
                res.violate("no-error", f"round {i}: nothing was submitted (faults {sim.fired}), but flush() returned normally")
            self.no_results(i, measured, "nothing was submitted")
            return
        job = started[-1]
        if job.bad:
            res.violate("bad-payload", f"round {i}: {job.bad}; {job.prog}")
            return
        # ---- the wait
        waited = sim.now - job.created_at
        polls = job.polls
        polite = "stall" not in sim.fired
        if azure:
            if polite and waited > retries * interval + 45:
                res.violate("too-long", f"round {i}: waited {waited:.1f} s, limit {retries} x {interval} s")
        else:
            if polls > retries:
                res.violate("too-many-polls", f"round {i}: {polls} polls, limit {retries}")
            if polite and waited > retries * interval + 0.1 + 0.05 * sim.nreq:
                res.violate("too-long", f"round {i}: waited {waited:.1f} s, limit {retries} x {interval} s")
            if polite and not err and "polls" in reply and polls > reply["polls"] + 1 and not set(sim.fired) & set(cloud.NET_FAULTS + ["device_offline"]):
                res.violate("late-result", f"round {i}: {polls} polls although the result was there at poll {reply['polls'] + 1}")
        if job.ended_polls > 1 and end in ("failed", "cancelled", "gone") and not azure:
            res.violate("too-many-polls", f"round {i}: job was {end}, but the client kept polling ({job.ended_polls} polls after the end)")
        if end in ("failed", "cancelled", "gone") and polls and not err:
            res.violate("result-of-failed", f"round {i}: the job {end}, but flush() returned normally")
        if end == "never" and not err:
            res.violate("result-of-failed", f"round {i}: the job never finished, but flush() returned normally")
        submitted_known = self.id_reached_client(job)
        if err and submitted_known and end in ("done", "never") and job.id not in text:
            res.violate("lost-job", f"round {i}: the wait for {job.id} ended with an error which does not name it: {err[1][:300]} (faults {sim.fired})")
        # ---- the circuit
        loc = self.locations(job, measured, i)
        if loc is None:
            return
        ideal = job.ideal()
        got = marginal(ideal, [loc[s] for s in measured])
        want = r.marginal(measured)
        bad = max((abs(got.get(bits(k, len(measured)), 0.0) - p) for k, p in enumerate(want)), default=0)
        if bad > 1e-6:
            res.violate("wrong-circuit", f"round {i}: the submitted circuit yields another distribution for {measured} (at {[loc[s] for s in measured]}): off by {bad:.3g}; {job.prog}")
            return
        res.hit("circuit_checked")
        if err:
            if end != "done":
                self.no_results(i, measured, f"the job {end}")
            return
        # ---- what is reported
        self.reported(i, job, measured, loc, spec)

    def id_reached_client(self, job):
        """Whether the wait for the job began."""
        return job.id in self.sim.waited

    def why(self, spec):
        return "authentication fails" if not spec.get("auth", True) else "the device is offline" if self.offline(spec) else "the circuit does not fit"

    def locations(self, job, measured, i):
        """Position of every slot in the submitted job (from the mapping at the time of submission)."""
        loc = {}
        for s in self.ids:
            q = self.ids[s]
            if job.mapping is None:
                loc[s] = q
            elif q in job.mapping:
                loc[s] = job.mapping[q]
        if job.locs is not None:
            if all(s in loc for s in measured):
                if sorted(job.locs) != sorted(loc[s] for s in measured):
                    self.res.violate("wrong-circuit", f"round {i}: measured {measured} at {[loc[s] for s in measured]}, the job measures {job.locs}")
                    return None
            elif len(job.locs) != len(measured):
                self.res.violate("wrong-circuit", f"round {i}: measured {measured}, the job measures {job.locs}")
                return None
            else:
                loc.update(zip(measured, job.locs))
        if any(s not in loc for s in measured):
            return None
        return loc

    def reported(self, i, job, measured, loc, spec):
        res = self.res
        hist = job.histogram()
        tot = sum(c for _, c in hist)
        h = {s: c / tot for s, c in hist}
        joint = marginal(h, [loc[s] for s in measured])
        live = [s for s in measured if s in self.q]
        rs = random.Random(f"{self.sc['seed']}-{i}")
        subsets = [live] + [rs.sample(live, rs.randint(1, len(live))) for _ in range(2) if live]
        if job.locs is None and self.service in ("aqt", "aws") and (self.service, self.cfg["mapper"]["kind"]) != ("aqt", "none"):
            ok = [s for s in self.fresh if s in self.q and loc.get(s, 99) < job.n]
            if ok:
                subsets.append(rs.sample(sorted(ok), rs.randint(1, len(ok))))
        for sub in subsets:
            if not sub:
                continue
            e = None
            box = {}
            e = self.attempt(lambda: box.update(p=self.be.get_probabilities([self.q[s] for s in sub])))
            if e:
                res.violate("wrong-probabilities", f"round {i}: get_probabilities({sub}) raised {e[1][:200]}")
                continue
            p = box["p"]
            want = marginal(h, [loc[s] for s in sub])
            keys = set(p) | set(want)
            off = max(abs(p.get(k, 0.0) - want.get(k, 0.0)) for k in keys)
            tot_p = sum(p.values())
            if off > 1e-9 or abs(tot_p - 1) > 1e-9 or min(p.values()) < 0 or any(len(k) != len(sub) for k in p):
                res.violate("wrong-probabilities", f"round {i}: {sub} at {[loc[s] for s in sub]}: reported {p}, the service's histogram {h} says {want}")
            if hasattr(self.be, "get_probability"):
                st = "".join(rs.choice("01") for _ in sub)
                e = self.attempt(lambda: box.update(v=self.be.get_probability(st, [self.q[s] for s in sub])))
                if e or abs(box["v"] - want.get(st, 0.0)) > 1e-9:
                    res.violate("wrong-probabilities", f"round {i}: get_probability({st}, {sub}) {'raised ' + e[1][:200] if e else box['v']}, expected {want.get(st, 0.0)}")
            res.hit("probabilities_checked")
        vals = {}
        for s in live:
            e = self.attempt(lambda: vals.update({s: int(self.q[s])}))
            if e:
                res.violate("no-result", f"round {i}: qubit {s} was measured but reading it raises {e[1][:150]}")
                return
        if len(live) == len(measured):
            key = "".join(str(vals[s]) for s in measured)
            res.log("outcome", i, key)
            if joint.get(key, 0.0) <= 0:
                res.violate("impossible-outcome", f"round {i}: registered {key} for {measured}; the histogram has {joint}")
            else:
                t = self.tally.setdefault(spec.get("series", i), {"n": 0, "k": {}, "p": joint, "dictated": True, "u": []})
                t["n"] += 1
                t["k"][key] = t["k"].get(key, 0) + 1
                t["dictated"] &= self.drew == 1
                t["u"].append(spec.get("u"))
            res.hit("outcome_checked")
        elif live:
            part = marginal(h, [loc[s] for s in live])
            key = "".join(str(vals[s]) for s in live)
            if part.get(key, 0.0) <= 0:
                res.violate("impossible-outcome", f"round {i}: registered {key} for {live}; the histogram has {part}")

    def no_results(self, i, measured, why):
        live = [s for s in measured if s in self.q]
        if live:
            box = {}
            if not self.attempt(lambda: box.update(p=self.be.get_probabilities([self.q[s] for s in live]))):
                self.res.violate("invented-result", f"round {i}: {why}, yet get_probabilities({live}) is {box['p']}")
                return
        for s in measured:
            if s in self.q and s not in self.reused:
                box = {}
                e = self.attempt(lambda: box.update(v=int(self.q[s])))
                if not e:
                    self.res.violate("invented-result", f"round {i}: {why}, yet qubit {s} reads {box['v']}")
                    return

    # -------------------------------------------------------------------------------------------- the whole session
    def run(self):
        sc, res, sim = self.sc, self.res, self.sim
        env.quiesce()
        old = signal.getsignal(signal.SIGINT)

        def handler(*a):
            raise KeyboardInterrupt()

        self.handler = handler
        signal.signal(signal.SIGINT, handler)
        st, nst = random.getstate(), np.random.get_state()
        random.seed(sc["seed"])
        np.random.seed(sc["seed"] & 0xFFFFFFFF)
        try:
            with cloud.installed(sim, self.server, self.service, self.cfg.get("typed")), contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(self.out):
                try:
                    self.session()
                except cloud.Stuck:
                    res.violate("endless", f"more than 20000 requests or sleeps ({sim.now:.0f} s of simulated time)")
                    signal.signal(signal.SIGINT, handler)
        finally:
            signal.signal(signal.SIGINT, old)
            random.setstate(st)
            np.random.set_state(nst)
        res.sim_time = sim.now
        self.leaks()
        return res

    def run_in_thread(self):
        """One of several sessions: the surroundings belong to all of them."""
        self.handler = signal.getsignal(signal.SIGINT)
        with cloud.installed(self.sim, self.server, self.service, self.cfg.get("typed")):
            self.session()
        return self.res

    def session(self):
        sc, res, sim = self.sc, self.res, self.sim
        sim.begin(-1, {"faults": sc.get("build_faults", [])})
        err = self.attempt(self.build)
        if err:
            res.log("build failed", err[0])
            if not sim.fired and not sc.get("may_refuse"):
                res.violate("clean-failure", f"building the engine raised {err[1][:300]}")
            return
        for i, spec in enumerate(sc["rounds"]):
            self.round(i, spec)
        self.frequencies()
        ret = sc.get("retrieve")
        n = len(sim.order)
        self.teardown("rounds")
        if ret:
            self.retrieval(ret)

    def frequencies(self):
        for t in self.tally.values():
            n = t["n"]
            if n < 24:
                continue
            self.res.hit("frequency_series")
            for k in set(t["k"]) | set(t["p"]):
                f, p = t["k"].get(k, 0) / n, t["p"].get(k, 0.0)
                tol = 2.5 / n + (0 if t["dictated"] else 6 * math.sqrt(p * (1 - p) / n))
                # dictated uniform numbers are evenly spread: an interval of length p is hit n p +- 1 times; marginalising sums several
                if t["dictated"]:
                    tol = 9.0 / n if n < 60 else 9.0 / n
                if abs(f - p) > tol:
                    self.res.violate("frequency", f"outcome {k} registered in {t['k'].get(k, 0)} of {n} runs, reported frequency {p:.4f}; all: {t['k']} vs {t['p']}")
                    return

    def teardown(self, what):
        sim, res = self.sim, self.res
        sim.begin(sim.round + 1, {})
        n = len(sim.order)
        how = self.sc.get("teardown", "exit")
        if how == "exit":
            env.run_atexit()
        elif how == "flush":
            self.attempt(lambda: self.eng.flush(deallocate_qubits=True))
        self.q.clear()
        self.eng = None
        self.be = None
        sim.mapping_now = lambda: None
        if not cloud.ROUTED:
            gc.collect()
            env.run_atexit()
        if len(sim.order) > n:
            res.violate("resubmitted", f"teardown submitted {len(sim.order) - n} more job(s)")

    def retrieval(self, ret):
        """A new program run asks for an earlier job instead of running its circuit."""
        sim, res = self.sim, self.res
        jobs = [j for j in sim.order if j.round == ret["of"] and j.started]
        if not jobs or jobs[0].bad:
            return
        job = jobs[0]
        if ret["of"] != 0:
            return  # only the same program with the same numbering of its qubits can retrieve it
        res.hit("retrieval")
        job.reply["polls"] = job.polls + ret.get("polls", 0)
        job.reply.pop("after", None)
        job.reply["end"] = ret.get("end", "done")
        job.ended_polls = 0
        start = job.polls
        n = len(sim.order)
        sim.begin(sim.round + 1, {"faults": ret.get("faults", [])})
        sim.token_ok, sim.catalogue_off = True, False
        err = self.attempt(lambda: self.build(retrieve_execution=job.id, **ret.get("kw", {})))
        if err:
            return
        spec = self.sc["rounds"][ret["of"]]
        if hasattr(self, "taken"):
            self.taken.clear()
        self.ids, self.fresh, self.gone, self.gates, self.reused = {}, set(), [], 0, set()
        r = R.Ref()
        box = {}
        mark = self.out.tell()
        err = self.attempt(lambda: box.update(m=self.do_ops(spec["ops"], r)))
        if not err:
            with dice(None) as used:
                err = self.attempt(lambda: self.eng.flush())
            self.drew = used[0]
        res.log("retrieval", err[0] if err else "ok")
        if signal.getsignal(signal.SIGINT) is not self.handler:
            res.violate("handler", "SIGINT handler replaced by the retrieval")
            signal.signal(signal.SIGINT, self.handler)
        retries = dict(self.cfg.get("kw", {}), **ret.get("kw", {})).get("num_retries", 3000)
        if not self.service.startswith("azure") and job.polls - start > retries:
            res.violate("too-many-polls", f"retrieval: {job.polls - start} polls, limit {retries}")
        if len(sim.order) > n:
            res.violate("resubmitted", f"retrieving {job.id} submitted {len(sim.order) - n} job(s)")
        elif err and not sim.fired and job.reply["end"] == "done" and ret.get("polls", 0) + 1 <= retries:
            res.violate("foreign-result", f"retrieving the finished job {job.id} raised {err[1][:300]}")
        elif not err and job.reply["end"] != "done":
            res.violate("result-of-failed", "retrieval of a job which did not finish returned normally")
        elif not err:
            m = box["m"]
            loc = self.locations(job, m, "retrieval")
            if loc is not None:
                nv = len(res.violations)
                self.tally = {}
                self.reported("retrieval", job, m, loc, {})
                for v in res.violations[nv:]:
                    v[0] = "foreign-result"
        for s in list(self.q):
            self.q.pop(s)
        self.teardown("retrieval")

    def leaks(self):
        if self.cfg.get("verbose"):
            return
        text = self.out.getvalue() + "\n".join(self.raised)
        for name, t in (("token", cloud.TOKEN), ("secret key", cloud.SECRET), ("access key id", cloud.KEYID)):
            if t in text:
                k = text.index(t)
                self.res.violate("leak", f"the {name} appears in the output or in an exception: ...{text[max(0, k - 80):k]}<{name}>")
        for host, all_ in self.sim.requests:
            ours = host in self.server.hosts
            if not ours and (cloud.TOKEN in all_ or cloud.SECRET in all_ or cloud.SESSION in all_):
                self.res.violate("leak", f"credentials were sent to {host}")


def bits(k, n):
    return "".join(str(k >> i & 1) for i in range(n))


def marginal(h, pos):
    out = {}
    for s, p in h.items():
        k = "".join(s[i] for i in pos)
        out[k] = out.get(k, 0.0) + p
    return out


@contextlib.contextmanager
def dice(u):
    """Dictates the uniform number which selects the registered outcome."""
    used = [0]
    if u is None:
        yield used
        return
    r0, c0 = random.random, np.random.choice

    def rnd():
        used[0] += 1
        return u

    def choice(a, size=None, replace=True, p=None):
        if p is None or size is not None:
            return c0(a, size, replace, p)
        c0(a, p=p)  # numpy's own validation of the distribution
        used[0] += 1
        cdf = np.cumsum(np.asarray(p, dtype=float))
        cdf /= cdf[-1]
        return np.asarray(a)[int(np.searchsorted(cdf, u, side="right"))]

    undo = [cloud.substitute(random, "random", rnd), cloud.substitute(np.random, "choice", choice)]
    try:
        yield used
    finally:
        for f in undo:
            f()


# ------------------------------------------------------------------------------------------------ configurations
def config(rng, service, n, setup_p=0.25, multi=False):
    """Catalogue, mapper and back-end arguments on which a circuit of n qubits fits."""
    cfg = {"kw": {}}
    setup = rng.random() < setup_p
    cap = n + rng.choice([0, 0, 1, 3])
    shots = rng.choice([64, 100, 1000, 4096])
    perm = list(range(cap))
    rng.shuffle(perm)
    kinds = ["manual", "manual", "bounded"]
    if service == "ibm":
        cfg["kw"].update(use_hardware=True, num_runs=shots)
        dev = "ibmq_" + rng.choice(["essex", "x"])
        if setup and not multi:
            how = rng.choice(["sim", "five", "grid", "linear"])
            if how == "sim":
                dev, cap = "ibmq_qasm_simulator", 32
                cfg["mapper"] = {"kind": "setup"}
            elif how == "five" and n <= 5:
                dev, cap = "ibmq_five", 5
                cfg["mapper"] = {"kind": "setup"}
            elif how == "grid":
                dev, cap = "ibmq_16_melbourne", 16
                cfg["mapper"] = {"kind": "setup"}
            else:
                cap = n + rng.choice([0, 1, 2])
                cap = max(cap, 2)
                cfg["mapper"] = {"kind": "linear", "n": cap, "cyclic": rng.random() < 0.3 and cap > 2}
        cfg["catalogue"] = {dev: {"nq": cap, "coupling": []}, "other": {"nq": 2, "coupling": []}}
        if dev == "ibmq_five":
            cfg["catalogue"][dev]["coupling"] = [[0, 1], [1, 0], [1, 2], [1, 3], [1, 4], [2, 1], [3, 1], [4, 1]]
        if dev == "ibmq_16_melbourne":
            cp = []
            for a in range(16):
                x, y = divmod(a, 8)
                cp += [[a, x * 8 + y + 1]] if y < 7 else []
                cp += [[a, a + 8]] if x == 0 else []
            cfg["catalogue"][dev]["coupling"] = [[melb(a), melb(b)] for a, b in cp]
        cfg["device"] = cfg["kw"]["device"] = dev
    elif service == "aqt":
        cfg["kw"].update(use_hardware=True, num_runs=rng.choice([50, 100, 200]))
        kinds.append("none")
        dev = rng.choice(["aqt_simulator", "aqt_simulator", "aqt_simulator_noise"] + (["aqt_device"] if cap <= 4 else []))
        if setup and not multi:
            dev = "aqt_simulator"
            cfg["mapper"] = {"kind": "setup"}
        if rng.random() < 0.1 and dev == "aqt_simulator":
            cfg["kw"].pop("use_hardware")
            cfg["device"] = dev
        else:
            cfg["kw"]["device"] = cfg["device"] = dev
        cfg["catalogue"] = {}
    elif service == "ionq":
        hw = rng.random() < 0.6
        dev = rng.choice(["qpu", "simulator", "ionq_qpu", "ionq_simulator"]) if hw else "ionq_simulator"
        cfg["kw"].update(use_hardware=hw, num_runs=shots)
        if hw:
            cfg["kw"]["device"] = dev
        cfg["device"] = dev
        cfg["catalogue"] = {"qpu": {"nq": max(cap, 4)}, "simulator": {"nq": 29}}
        if setup:
            cfg["mapper"] = {"kind": "setup"}
    elif service == "aws":
        dev = rng.choice(["SV1", "Aspen-8", "IonQ Device"]) if setup else "SV1"
        kinds = ["manual", "none", "none", "bounded"]
        cfg["kw"].update(use_hardware=True, num_runs=shots, device=dev)
        cfg["device"] = dev
        cfg["catalogue"] = {"SV1": {"nq": 34, "type": "SIMULATOR"}, "Aspen-8": {"nq": 31, "region": "us-west-1"}, "IonQ Device": {"nq": 11}}
        if setup:
            cfg["mapper"] = {"kind": "setup"}
    elif service == "azure_ionq":
        hw = rng.random() < 0.5
        cfg["kw"].update(use_hardware=hw, num_runs=shots, target_name="ionq.qpu" if hw else "ionq.simulator")
        cfg["device"] = cfg["kw"]["target_name"]
        cfg["catalogue"] = {cfg["device"]: {"av": "Available"}}
        if setup:
            cfg["mapper"] = {"kind": "ionq_setup", "n": cap}
    else:
        hw = rng.random() < 0.5
        cfg["kw"].update(use_hardware=hw, num_runs=shots, target_name="quantinuum.qpu.h1-1" if hw else "quantinuum.sim.h1-1e")
        cfg["device"] = cfg["kw"]["target_name"]
        cfg["catalogue"] = {cfg["device"]: {"av": "Available"}}
        if setup:
            cfg["mapper"] = {"kind": "ionq_setup", "n": cap}
    if "mapper" not in cfg:
        k = rng.choice(kinds)
        cfg["mapper"] = {"kind": k, "n": cap, "perm": perm} if k == "manual" else {"kind": k, "n": cap}
    cfg["setup"] = cfg["mapper"]["kind"] in ("setup", "ionq_setup", "linear")
    # printing what happens and asking for the credentials must not make a difference
    if rng.random() < 0.15:
        cfg["verbose"] = True
    if rng.random() < 0.15 and not service.startswith("azure"):
        cfg["typed"] = True
    if rng.random() < 0.15:
        cfg["mark"] = rng.getrandbits(20)
    return cfg


def melb(a):
    return a if a < 7 else {7: 15, 8: 14, 9: 13, 10: 12, 11: 11, 12: 10, 13: 9, 14: 8, 15: 7}[a]


def reply(rng, polls=True):
    r = {"mode": rng.choice(["exact", "exact", "weird"]), "seed": rng.randrange(1 << 30)}
    if rng.random() < 0.3:
        r["zeros"] = True
    if polls:
        r["polls"] = rng.choice([0, 0, 1, 2, 5])
    return r
