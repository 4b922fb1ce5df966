"""C08: measurement outcomes are faithful, repeatable projections, reported for the right qubit."""
import contextlib
import io
import math
import random

import numpy as np

from .. import chain, compiled, env, stream
from .. import prog as P
from .. import ref as R
from ..core import Result, World

GATES = ["H", "H", "X", "Y", "S", "T", "SqrtX", "Rx", "Ry", "Ry", "Rz", "Swap", "Entangle", "FlipBits"]
NATIVE = [g for g in GATES if g not in ("Entangle", "FlipBits")]
EDGE = [0.0, 5e-324, 2.0**-64, 2.0**-53, 0.25, 0.5, 0.75, 1 / 3, 1 - 2.0**-53, 1 - 2.0**-52]
ALPHA = 25.0  # a statistical alarm needs evidence exp(-ALPHA)


class Reader(stream.Flushing):
    """Reads values back at seeded points."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.bad = None

    def do_read(self, op, top):
        for s in op["q"]:
            if s not in self.s.q:
                continue
            q = self.s.q[s]
            got = self.outcomes.get(q.id)
            form = {"int": int, "bool": lambda x: int(bool(x)), "str": lambda x: int(int(x))}[op["form"]]
            try:
                v = form(q)
            except Exception as e:  # noqa
                e.__traceback__ = None
                v = None
                if got:
                    self.bad = self.bad or f"qubit {s} has the recorded outcomes {got} but reading it raises {type(e).__name__}"
            else:
                if not got:
                    self.bad = self.bad or f"qubit {s} was never measured but reads {v}"
                elif v != got[-1]:
                    self.bad = self.bad or f"qubit {s} reads {v}, its last recorded outcome is {got[-1]}"
            self.reads.append([s, v])

    def do_batch(self, op, top):
        """One measurement request for several qubits at once."""
        from projectq.ops import Command, Measure

        if not self.live(op["q"]):
            return
        self.tick()
        for s in op["q"]:
            self.measured_slots[s] = self.s.q[s].id
        qs = [self.s.q[s] for s in op["q"]]
        if op["split"] and len(qs) > 1:
            k = 1 + op["split"] % (len(qs) - 1)
            regs = (qs[:k], qs[k:])
        else:
            regs = (qs,)
        self.eng.receive([Command(self.eng, Measure, regs)])


class X(P.Expander):
    def step(self, op, top):
        k = op["op"]
        if k == "batch":
            k = "measure"
            op = dict(op, op="measure")
        if k == "read":
            return
        super().step(op, top)


def kl(a, b):
    out = 0.0
    if a > 0:
        out += a * math.log(a / b)
    if a < 1:
        out += (1 - a) * math.log((1 - a) / (1 - b))
    return out


class C08(World):
    ID = "C08"
    TECH = ("deterministic simulation: seeded programs full of repeated, mid-circuit, batched and conditional measurements through seeded chains; "
            "random draws dictated by the simulator (including the ends of the interval) or seeded and tested statistically")
    NOTE = ("Seeded search. Programs: every outcome must be possible, the state after it its normalised projection (reference state vector), "
            "reads must return exactly the recorded outcome of that qubit or raise. Dictated draws: the outcome lies in the state's support. "
            "Statistics: Chernoff bound at exp(-25) per event on joint outcome frequencies, so a sound simulator is never flagged in practice.")
    RULE = "one evaluation = one program, one dictated-draw sequence or one batch of repeated measurements; distinct by event-log digest"
    DISTINCT = "distinct (mode, simulator, chain shape, measurement form) combinations"
    QUICK = 12000
    THOROUGH = 120000
    REAL = ["projectq.backends._sim (C++ and Python)", "projectq.cengines (optimizer, mappers, main engine)", "projectq.types._qubit"]
    STUB = ["uniform random draws (dictated or seeded)", "reference state vector (oracle)"]
    ASSUME = ["outcomes of probability below 1e-9 count as impossible in programs (draws within 1e-9 of the ends are only dictated on states "
              "whose zero amplitudes are exact)"]

    def prepare(self):
        env.setup()
        env.pysim_class()

    # ------------------------------------------------------------------------------------------------ generation
    def generate(self, seed, tier):
        rng = random.Random(seed)
        r = rng.random()
        if r < 0.72:
            return self.gen_prog(rng, tier)
        if r < 0.94:
            n = rng.randint(1, 4)
            steps = []
            for _ in range(rng.randint(1, 6)):
                steps.append({"v": self.gen_state(rng, n), "draw": rng.choice(EDGE), "q": rng.sample(range(n), rng.randint(1, n)),
                              "batch": rng.getrandbits(1), "order": rng.sample(range(n), n)})
            return {"mode": "edge", "impl": rng.choice(["cpp", "py"]), "n": n, "steps": steps, "sim": rng.getrandbits(30)}
        n = rng.randint(1, 3)
        return {"mode": "stat", "impl": rng.choice(["cpp", "cpp", "py"]), "n": n, "v": self.gen_state(rng, n), "q": rng.sample(range(n), rng.randint(1, n)),
                "batch": rng.getrandbits(1), "order": rng.sample(range(n), n), "shots": 400 if tier == "quick" else 4000, "sim": rng.getrandbits(30),
                "map": rng.getrandbits(1)}

    def gen_state(self, rng, n):
        """Amplitudes with exact zeros: [re, im] per entry."""
        k = rng.choice(["dyadic", "sparse", "dense", "basis", "tail"])
        N = 2**n
        if k == "basis":
            w = [0.0] * N
            w[rng.randrange(N)] = 1.0
        elif k == "dyadic":
            m = rng.choice([x for x in (1, 4, 16) if x <= N])
            w = [0.0] * N
            for i in rng.sample(range(N), m):
                w[i] = m**-0.5
        elif k == "tail":
            a = rng.sample(range(N), 2) if N > 1 else [0]
            w = [0.0] * N
            e = rng.choice([1e-3, 0.05])
            w[a[0]] = (1 - e) ** 0.5
            if len(a) > 1:
                w[a[1]] = e**0.5
        else:
            w = [rng.random() if k == "dense" or rng.random() < 0.5 else 0.0 for _ in range(N)]
            if not any(w):
                w[rng.randrange(N)] = 1.0
            s = math.sqrt(sum(x * x for x in w))
            w = [x / s for x in w]
        return [[x * c for c in rng.choice([(1, 0), (0, 1), (-1, 0), (0.6, 0.8)])] for x in w]

    def gen_prog(self, rng, tier):
        impl = rng.choice(["cpp", "fused", "fused", "py"])
        kind = rng.choice(["bare", "opt", "manual", "linear", "grid", "bounded", "mixed"])
        st = []
        pool = list(NATIVE)
        nq = rng.randint(2, 4 if impl == "py" else 5)
        if kind == "bare":
            pass
        elif kind == "opt":
            st = [{"stage": "opt", "m": rng.choice([1, 2, 5, 10])}]
        elif kind == "manual":
            st = [{"stage": "manual", "perm": rng.sample(range(40), 30)}]
        else:
            pool = list(GATES)
            st = [{"stage": "rep"}, {"stage": "filter", "one": ["Rz", "Ry", "Rx", "H", "X"], "two": ["CNOT", "Swap"]}]
            if rng.random() < 0.5:
                st.append({"stage": "opt", "m": rng.choice([2, 5, 10])})
            if kind == "linear":
                st.append({"stage": "linear", "n": nq + 1, "cyclic": bool(rng.getrandbits(1)), "storage": rng.choice([1, 3, 1000])})
            elif kind == "grid":
                st.append({"stage": "grid", "rows": 2, "cols": (nq + 2) // 2, "perm": None, "storage": rng.choice([1, 3, 1000])})
            elif kind == "bounded":
                st.append({"stage": "bounded", "n": 40})
            else:
                st.append({"stage": "manual", "perm": rng.sample(range(60), 50)})
            if rng.random() < 0.5:
                st.append({"stage": "opt", "m": rng.choice([1, 2, 5])})
        mapped = any(s["stage"] in ("manual", "linear", "grid", "bounded") for s in st)
        ctl = [g for g in pool if g not in ("Entangle", "FlipBits")]
        g = P.Gen(rng, pool, max_qubits=nq, max_controls=1, flushes=0.06, gcs=False, blocks=rng.choice([(), ("control", "dagger")]),
                  ctrl_gates=ctl, block_gates=NATIVE, max_total=12 if kind in ("manual", "mixed", "bounded") else None)
        sl = g.new_slots(rng.randint(1, nq))
        g.live += sl
        ops = [{"op": "alloc", "q": sl, "reg": 1}]
        for _ in range(rng.choice([8, 16, 30] if tier == "quick" else [10, 30, 60])):
            r = rng.random()
            live = g.live
            if r < 0.2 and live:
                q = rng.sample(live, rng.randint(1, len(live)))
                g.measured |= set(q)
                if not mapped and rng.random() < 0.5:
                    ops.append({"op": "batch", "q": q, "split": rng.randint(0, 3)})
                else:
                    ops.append({"op": "measure", "q": q, "syn": rng.randint(0, 2)})
                if rng.random() < 0.3:
                    ops.append({"op": "measure", "q": rng.sample(q, rng.randint(1, len(q))), "syn": 0})
                if rng.random() < 0.5:
                    ops.append({"op": "flush"})
            elif r < 0.4 and live:
                ops.append({"op": "read", "q": rng.sample(live, rng.randint(1, len(live))), "form": rng.choice(["int", "bool", "str"])})
            else:
                ops += g.top_op(1)
        ops.append({"op": "flush"})
        ops.append({"op": "read", "q": list(range(g.slot)), "form": "int"})
        draws = []
        if rng.random() < 0.6:
            draws = [rng.choice([1e-9, 1e-6, 0.001, 0.25, 0.4999999, 0.5, 0.5000001, 0.75, 0.999, 1 - 1e-6, 1 - 1e-9, rng.random()]) for _ in range(rng.choice([3, 10, 40]))]
        return {"mode": "prog", "impl": impl, "stages": st, "prog": ops, "links": stream.gen_links(rng, len(st)), "sim": rng.getrandbits(30),
                "fusion": int(impl == "fused"), "draws": draws}

    # ------------------------------------------------------------------------------------------------ execution
    def back_end(self, sc, draws=()):
        from projectq.backends import Simulator

        if sc["impl"] == "py":
            cls = env.pysim_class()
            import projectq.backends._sim._pysim as mod

            dice = env.Dice(draws, sc["sim"])
            mod.random = dice
            with contextlib.redirect_stdout(io.StringIO()):
                return cls(rnd_seed=sc["sim"])
        env.dictate_draws(draws)
        return Simulator(gate_fusion=sc["impl"] == "fused", rnd_seed=sc["sim"])

    def release_seams(self):
        import projectq.backends._sim._pysim as mod

        env.dictate_draws()
        mod.random = random

    def execute(self, sc):
        r = Result()
        try:
            getattr(self, "run_" + sc["mode"])(sc, r)
        finally:
            self.release_seams()
        r.hit("mode." + sc["mode"])
        return r

    def run_prog(self, sc, r):
        eng, rn, b, pr, _ = stream.start(sc, r, sc["stages"], sim=self.back_end(sc, sc["draws"]))
        rd = Reader.__new__(Reader)
        rd.__dict__ = rn.__dict__
        rd.bad = None
        rn = rd
        judge = True
        try:
            try:
                rn.run_top(sc["prog"])
            except Exception as e:  # noqa
                x = X(P.outcomes_by_slot(rn))
                try:
                    x.run(sc["prog"][: rn.index + 1])
                except P.Exhausted:
                    pass
                except P.Invalid:
                    r.nontrivial = False
                    judge = False
                    return
                if b.max_live is not None and "grid" in str(sc["stages"]) and "too many" in str(e).lower():
                    r.nontrivial = False
                    judge = False
                    return
                r.violate("error", f"operation {rn.index} ({sc['prog'][rn.index]['op']}): {type(e).__name__}: {e}")
                judge = False
                return
            if judge:
                if rn.bad:
                    r.violate("read", rn.bad)
                    return
                self.judge_snaps(r, rn, sc["prog"])
        finally:
            stream.finish(eng, rn, r, pr, sc)
            r.hit("reads", len(rn.reads))
            r.hit("measurements", sum(len(v) for v in rn.outcomes.values()))
            if sc["draws"]:
                r.hit("fault.dictated_draw", min(len(sc["draws"]), sum(len(v) for v in rn.outcomes.values())))
            shape = "+".join(s["stage"] for s in sc["stages"])
            for op in sc["prog"]:
                if op["op"] in ("measure", "batch", "read", "if"):
                    r.cover.add(f"{sc['impl']}:{shape}:{op['op']}:{len(op['q']) if isinstance(op['q'], list) else 1}")
            r.log(rn.reads)

    def judge_snaps(self, r, rn, ops):
        import dst.stream as S

        save = P.Expander
        try:
            P.Expander = X
            return S.judge_snaps(r, rn, ops)
        finally:
            P.Expander = save

    def engine(self, sc, draws, mapped=False):
        from projectq import MainEngine
        from projectq.cengines import ManualMapper

        env.quiesce()
        sim = self.back_end(sc, draws)
        eng = MainEngine(sim, [ManualMapper(lambda i: 3 * i + 1)] if mapped else [])
        qs = eng.allocate_qureg(sc["n"])
        eng.flush()
        return eng, sim, list(qs)

    def measure(self, eng, qs, st):
        from projectq.ops import Command, Measure

        if st["batch"] and eng.mapper is None and len(st["q"]) > 1:
            eng.receive([Command(eng, Measure, ([qs[i] for i in st["q"]],))])
        else:
            for i in st["q"]:
                Measure | qs[i]
        eng.flush()
        return [int(qs[i]) for i in st["q"]]

    def run_edge(self, sc, r):
        draws = []
        for st in sc["steps"]:
            draws += [st["draw"]] * (1 if st["batch"] else len(st["q"]))
        eng, sim, qs = self.engine(sc, draws)
        try:
            for k, st in enumerate(sc["steps"]):
                v = np.array([complex(a, b) for a, b in st["v"]])
                sim.set_wavefunction(v, [qs[i] for i in st["order"]])
                got = self.measure(eng, qs, st)
                r.hit("fault.dictated_draw")
                r.log("edge", k, got)
                r.cover.add(f"edge:{sc['impl']}:{st['draw']}:{len(st['q'])}:{st['batch']}")
                pos = [st["order"].index(i) for i in st["q"]]
                w = v.copy()
                for i in range(len(w)):
                    if any((i >> p & 1) != b for p, b in zip(pos, got)):
                        w[i] = 0
                n = np.linalg.norm(w)
                if n == 0:
                    r.violate("impossible outcome", f"step {k}: draw {st['draw']!r} gave {got} for qubits {st['q']}, which has no amplitude in {st['v']}")
                    return
                m, s = sim.cheat()
                ids = {i: q.id for i, q in enumerate(qs)}
                s = np.array(s)
                order = chain.order_by(ids, m)
                t = R.Ref()
                t.names, t.v = list(st["order"]), w / n
                if n > 1e-5 and R.fidelity(t.vector(order), s) < 1 - 1e-6:
                    r.violate("projection", f"step {k}: after outcome {got} the state is not the projection (norm {np.linalg.norm(s):.6g})")
                    return
                # again: the same
                if n > 1e-5 and self.measure(eng, qs, dict(st, batch=0)) != got:
                    r.violate("repeat", f"step {k}: measuring again does not give {got}")
                    return
        except Exception as e:  # noqa
            r.violate("error", f"{type(e).__name__}: {e}")
        finally:
            compiled.silence(eng)

    def run_stat(self, sc, r):
        eng, sim, qs = self.engine(sc, [], bool(sc["map"]))
        try:
            v = np.array([complex(a, b) for a, b in sc["v"]])
            pos = [sc["order"].index(i) for i in sc["q"]]
            k = len(pos)
            p = [0.0] * 2**k
            for i, a in enumerate(v):
                p[sum((i >> q & 1) << j for j, q in enumerate(pos))] += abs(a) ** 2
            cnt = [0] * 2**k
            order = [qs[i] for i in sc["order"]]
            for _ in range(sc["shots"]):
                sim.set_wavefunction(v, order)
                got = self.measure(eng, qs, sc)
                cnt[sum(b << j for j, b in enumerate(got))] += 1
            r.log("stat", cnt)
            r.hit("shots", sc["shots"])
            r.cover.add(f"stat:{sc['impl']}:{sc['n']}:{k}:{sc['batch']}:{sc['map']}")
            n = sc["shots"]
            events = [({j}, f"outcome {j:0{k}b}") for j in range(2**k)]
            for m in range(1, 2**k):
                events.append(({j for j in range(2**k) if bin(j & m).count("1") & 1}, f"odd parity of bits {m:0{k}b}"))
            for ev, name in events:
                pe = min(1.0, sum(p[j] for j in ev))
                ce = sum(cnt[j] for j in ev)
                if pe < 1e-12 or pe > 1 - 1e-12:
                    bad = ce != (0 if pe < 0.5 else n)
                else:
                    bad = n * kl(ce / n, pe) > ALPHA
                if bad:
                    r.violate("frequency", f"{name} of qubits {sc['q']}: {ce} times in {n}, its probability is {pe:.6g}")
                    return
        except Exception as e:  # noqa
            r.violate("error", f"{type(e).__name__}: {e}")
        finally:
            compiled.silence(eng)

    def shrink_paths(self, sc):
        return ["prog", "steps", "draws"]

    def simplify(self, sc):
        if sc["mode"] == "prog":
            if sc["links"]:
                yield dict(sc, links=[])
            for i, s in enumerate(sc["stages"]):
                if s["stage"] == "opt":
                    yield dict(sc, stages=sc["stages"][:i] + sc["stages"][i + 1 :])


WORLD = C08
