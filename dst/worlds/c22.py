"""C22: the unitary simulator against matrix products, with its measurements and releases."""
import math
import random
import warnings

import numpy as np

from .. import env
from ..chain import marker
from .. import prog as P
from .. import ref as R
from ..core import Result, World

ONE = ["H", "X", "Y", "Z", "S", "Sdag", "T", "Tdag", "SqrtX"]
MAXQ = 5


def embed(m, t, c, cs, n):
    """Gate on positions t, controlled by positions c being in state cs, of n qubits."""
    out = np.zeros((2**n, 2**n), dtype=complex)
    for j in range(2**n):
        if any((j >> p) & 1 != int(b) for p, b in zip(c, cs)):
            out[j, j] = 1
            continue
        a = sum(((j >> p) & 1) << k for k, p in enumerate(t))
        rest = j & ~sum(1 << p for p in t)
        for b in range(2 ** len(t)):
            out[rest | sum(((b >> k) & 1) << p for k, p in enumerate(t)), j] += m[b, a]
    return out


def same(a, b, phase=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if phase:
        w = np.vdot(b, a)
        if abs(w) < 1e-9:
            return False
        a = a * (abs(w) / w)
    return bool(np.allclose(a, b, atol=1e-7))


class Model:
    """What the documentation promises, computed from the operations alone."""

    def __init__(self):
        self.ids = []  # logical qubits by position (allocation order)
        self.n = 0
        self.u = np.eye(1, dtype=complex)  # current unitary
        self.alt = None  # the same, should a later allocation count
        self.history = []  # accepted forms of every entry
        self.stale = False
        self.shrunk = False
        self.branches = [np.ones(1, dtype=complex)]  # states the qubits may be in
        self.flushed = False

    def restart(self):
        self.history.append([self.u] + ([self.alt] if self.alt is not None else []))
        self.u = np.eye(2**self.n, dtype=complex)
        self.alt = None
        self.stale = self.shrunk = False

    def alloc(self, q):
        if self.shrunk:
            self.restart()
        elif self.stale and self.alt is None:
            self.alt = self.u
        self.ids.append(q)
        self.n += 1
        self.u = np.kron(np.eye(2), self.u)
        self.branches = [np.concatenate([b, 0 * b]) for b in self.branches]

    def gate(self, m, t, c, cs):
        if self.stale or self.shrunk:
            self.restart()
        e = embed(m, [self.ids.index(x) for x in t], [self.ids.index(x) for x in c], cs, self.n)
        self.u = e @ self.u
        self.branches = [e @ b for b in self.branches]

    def project(self, b, q, v):
        p = self.ids.index(q)
        keep = np.array([(j >> p) & 1 == v for j in range(len(b))])
        out = np.where(keep, b, 0)
        pr = float(np.vdot(out, out).real)
        return (out / math.sqrt(pr) if pr > 1e-10 else None), pr

    def outcome(self, qs, vals):
        """Condition on an outcome; False if it is impossible."""
        new = []
        for b in self.branches:
            for q, v in zip(qs, vals):
                b, _ = self.project(b, q, int(v)) if b is not None else (None, 0)
            if b is not None:
                new.append(b)
        self.branches = new
        return bool(new)

    def prob(self, q):
        """Range of probabilities of 1 over the possible states."""
        ps = [self.project(b, q, 1)[1] for b in self.branches]
        return min(ps), max(ps)

    def free(self, q, known=None):
        p = self.ids.index(q)
        new = []
        for b in self.branches:
            for v in (0, 1):
                x, _ = self.project(b, q, v)
                if x is not None:
                    x = x.reshape(-1, 2, 2**p)[:, v, :].reshape(-1)
                    if not any(abs(abs(np.vdot(x, y)) - 1) < 1e-9 for y in new):
                        new.append(x)
        self.branches = new
        self.ids.remove(q)
        self.n -= 1
        self.shrunk = True


class C22(World):
    ID = "C22"
    TECH = ("deterministic simulation: seeded programs with flushes, measurements, refused measurements, releases and new allocations at every place, seeded or "
            "dictated random draws (0 and the largest below 1 included), behind no engine, a mapper or a compiler; matrix products as reference")
    NOTE = "Seeded search. After every operation the reported unitary and the whole history are compared with products computed by an independent embedding; outcomes must have non-zero probability given everything observed, and repeated runs follow the distribution."
    RULE = "one evaluation = one program (or one program repeated for its distribution); distinct by event-log digest"
    DISTINCT = "distinct (chain, gate, controls, positions order, state of the history flags) tuples"
    QUICK = 8000
    THOROUGH = 200000
    REAL = ["projectq.backends._unitary", "projectq.cengines", "projectq.ops"]
    STUB = ["random.random seen by the simulator (seeded or dictated)", "engine behind the simulator (recorder)"]
    ASSUME = ["an allocation between a measurement and the next gate may or may not extend the unitary that goes to the history",
              "compilation through AutoReplacer is exact up to a global phase"]
    HANG_S = 60

    def prepare(self):
        env.setup()

    # ---------------------------------------------------------------- scenarios
    def exact_gate(self, rng, live, young):
        """Gates without any rounding: amplitudes that are zero are exactly zero."""
        g = rng.choice(["X", "X", "Y", "Z", "S", "Swap", "H", "H", "X", "X"])
        if g == "Swap" and len(live) < 2:
            g = "X"
        qs = rng.sample(live, 2 if g == "Swap" else 1)
        if g == "H":
            if qs[0] not in young:
                g = "X"
            else:
                young.discard(qs[0])
                return {"op": "g", "g": "H", "p": [], "inv": 0, "t": qs, "c": [], "cs": ""}
        rest = [x for x in live if x not in qs]
        c = rng.sample(rest, min(len(rest), rng.choice([0, 1, 1, 2])))
        young.difference_update(qs + c)
        return {"op": "g", "g": g, "p": [], "inv": 0, "t": qs, "c": c, "cs": "1" * len(c)}

    def gate(self, rng, live, chain):
        n = len(live)
        names = ONE + ["Rx", "Ry", "Rz", "R", "Ph", "Mat1"]
        if n >= 2:
            names = names + ["Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz", "MatN", "MatN", "MatN"]
        if chain == "auto":
            names = names + ["QFT", "Entangle"]
        g = rng.choice(names)
        op = {"op": "g", "g": g, "p": [], "inv": 0}
        k = 1
        if g in ("Rx", "Ry", "Rz", "R", "Ph", "Rxx", "Ryy", "Rzz"):
            op["p"] = [rng.choice([round(rng.uniform(-7, 7), 3), 0.0, math.pi, math.pi / 2, 2 * math.pi])]
        if g == "Mat1":
            op["p"] = [round(rng.uniform(-3, 3), 3) for _ in range(4)]
        if g in ("Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz"):
            k = 2
        if g in ("QFT", "Entangle"):
            k = rng.randint(1, min(3, n))
            if g == "Entangle" and k < 2:
                op["g"] = "H"
                k = 1
        if g == "MatN":
            k = rng.choice([2, 2, 3]) if n > 2 else 2
            op["p"] = [rng.getrandbits(20), k]
        if g in ("S", "T", "SqrtX", "SqrtSwap", "Rx", "Mat1") and rng.random() < 0.2 and g != "Mat1":
            op["inv"] = 1
        qs = rng.sample(live, k)
        rest = [x for x in live if x not in qs]
        nc = min(len(rest), rng.choice([0, 0, 0, 1, 1, 2, 3]))
        if op["g"] in ("QFT", "Entangle"):
            nc = min(nc, 1)
        op["t"] = qs
        op["c"] = rng.sample(rest, nc)
        op["cs"] = "".join(rng.choice("111110" if chain in ("auto", "direct") else "1") for _ in range(nc))
        return op

    def generate(self, seed, tier):
        rng = random.Random(seed)
        chain = rng.choice(["direct", "direct", "direct", "mid", "map", "auto"])
        ops, live, nxt = [], [], 0
        shots = rng.random() < 0.03
        length = rng.choice([3, 8, 15, 30]) if not shots else rng.choice([4, 8])
        top = 3 if shots else MAXQ
        exact = not shots and rng.random() < 0.2
        young = set()
        for _ in range(length):
            x = rng.random()
            if not live or (x < 0.16 and len(live) < top):
                k = rng.randint(1, min(3, top - len(live)))
                ops.append({"op": "alloc", "q": list(range(nxt, nxt + k))})
                live += range(nxt, nxt + k)
                young |= set(range(nxt, nxt + k))
                nxt += k
            elif x < 0.62:
                ops.append(self.exact_gate(rng, live, young) if exact else self.gate(rng, live, chain))
            elif x < 0.72:
                ops.append({"op": "flush"})
            elif x < 0.84:
                qs = rng.sample(live, rng.randint(1, min(2, len(live)))) if rng.random() < 0.8 else list(live)
                if rng.random() < 0.75:
                    ops.append({"op": "flush"})
                ops.append({"op": "meas", "q": qs})
            elif x < 0.88:
                ops.append({"op": "cmeas", "q": rng.choice(live), "c": rng.choice(live)})
            elif x < 0.91:
                ops.append({"op": "query", "q": rng.sample(live, rng.randint(1, len(live)))})
            else:
                q = rng.choice(live)
                live.remove(q)
                ops.append({"op": "free", "q": q})
        if shots:
            ops = [o for o in ops if o["op"] not in ("cmeas", "query")]
            ops += [{"op": "flush"}, {"op": "meas", "q": list(live)}]
        return {"chain": chain, "ops": ops, "mark": rng.getrandbits(20) if rng.random() < 0.4 else None, "map": rng.sample(range(40), 40), "rnd": rng.getrandbits(40),
                "draws": [rng.choice([0.0, 1 - 2**-53, 0.5, round(rng.random(), 4)] if exact else [1e-7, 1 - 1e-7, 0.5, round(rng.random(), 4)]) for _ in range(8)] if rng.random() < 0.5 and not shots else [],
                "shots": 160 if shots else 0}

    # ---------------------------------------------------------------- execution
    def make(self, sc):
        from projectq import MainEngine
        from projectq.backends import UnitarySimulator
        from projectq.cengines import AutoReplacer, BasicEngine, DecompositionRuleSet, ManualMapper, TagRemover
        from projectq.setups import decompositions

        sim = UnitarySimulator()
        rec = None
        ch = sc["chain"]
        if ch == "direct":
            eng = MainEngine(sim, [])
        elif ch == "mid":
            class Recorder(BasicEngine):
                def __init__(self):
                    super().__init__()
                    self.got = []

                def is_available(self, cmd):
                    return True

                def receive(self, command_list):
                    self.got += command_list

            class Before(BasicEngine):
                def __init__(self):
                    super().__init__()
                    self.got = []
                    self.refused = set()

                def receive(self, command_list):
                    self.got += command_list
                    try:
                        self.send(command_list)
                    except RuntimeError:
                        self.refused |= set(range(len(self.got) - len(command_list), len(self.got)))
                        raise

            rec = (Before(), Recorder())
            eng = MainEngine(rec[1], [rec[0], sim])
        elif ch == "map":
            m = sc["map"]
            eng = MainEngine(sim, ([marker(sc["mark"])] if sc.get("mark") is not None else []) + [TagRemover(), ManualMapper(lambda i: m[i] if 0 <= i < len(m) else i)])
        else:
            if not hasattr(self, "rules"):
                self.rules = DecompositionRuleSet(modules=[decompositions])
            eng = MainEngine(sim, [AutoReplacer(self.rules), TagRemover()])
        return eng, sim, rec

    def execute(self, sc):
        r = Result()
        r.hit("chain." + sc["chain"])
        env.quiesce()
        if not sc["shots"]:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.once(sc, r, sc["draws"], sc["rnd"])
            return r
        # the same program many times: the outcomes follow the distribution
        from collections import Counter

        seen = Counter()
        want = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k in range(sc["shots"]):
                got = self.once(sc, r, [], sc["rnd"] + k, tree=k == 0)
                if r.violations:
                    return r
                if k == 0:
                    want = got[1]
                seen[got[0]] += 1
        n = sc["shots"]
        for o in set(seen) | set(want):
            p = want.get(o, 0.0)
            if not plausible(seen.get(o, 0), n, p):
                r.violate("distribution", f"outcomes {o} came {seen.get(o, 0)} times in {n} runs; probability {p:.4f}")
                return r
        r.hit("distributions")
        r.log(sorted(seen.items()))
        return r

    def once(self, sc, r, draws, rnd, tree=False):
        import projectq.backends._unitary as mod
        from projectq.meta import Control
        from projectq.ops import Measure

        eng, sim, rec = self.make(sc)
        dice = env.Dice(draws, rnd)
        m = Model()
        q = {}
        old = mod.random if hasattr(mod, "random") else None
        st = random.getstate()
        random.seed(rnd)
        np.random.seed(rnd & 0x7FFFFFFF)
        if old is random:
            mod.random = dice
        outcome = []
        dist = Tree() if tree else None
        try:
            for k, op in enumerate(sc["ops"]):
                if not self.step(sc, k, op, eng, sim, m, q, r, outcome, dist):
                    return None
                p = self.compare(sc, k, op, sim, m, r)
                if p:
                    r.violate("unitary", p)
                    return None
            if rec:
                a, b = [c for i, c in enumerate(rec[0].got) if i not in rec[0].refused], rec[1].got
                if [str(c) for c in a] != [str(c) for c in b] or any(x is not y and x != y for x, y in zip(a, b)):
                    r.violate("forwarding", f"{len(a)} commands received, {len(b)} sent on, or not the same")
                    return None
        finally:
            random.setstate(st)
            if old is not None:
                mod.random = old
            q.clear()
            eng.active_qubits.clear()
        return tuple(outcome), dist.leaves() if tree else None

    def step(self, sc, k, op, eng, sim, m, q, r, outcome, dist):
        from projectq.meta import Control
        from projectq.ops import Measure

        kind = op["op"]
        need = op.get("t", []) + op.get("c", []) if kind == "g" else ([op["q"], op["c"]] if kind == "cmeas" else ([op["q"]] if kind == "free" else op.get("q", [])))
        if kind != "alloc" and any(s not in q for s in need):
            return True
        if kind == "cmeas" and op["q"] == op["c"]:
            return True
        where = f"operation {k} ({kind} {need})"
        try:
            if kind == "alloc":
                for s in op["q"]:
                    if s in q or m.n >= MAXQ + 1:
                        continue
                    q[s] = eng.allocate_qubit()[0]
                    m.alloc(s)
                    if dist:
                        dist.alloc(s)
            elif kind == "g":
                gate = P.make_gate(op["g"], op["p"], op["inv"])
                if op["g"] == "Entangle" or op["g"] == "QFT":
                    arg = [q[s] for s in op["t"]]
                elif op["g"] == "MatN":
                    arg = [q[s] for s in op["t"]]
                else:
                    arg = tuple(q[s] for s in op["t"]) if len(op["t"]) > 1 else q[op["t"][0]]
                mat = P.ref_gate(op["g"], op["p"], [len(op["t"])] if op["g"] in ("MatN", "QFT", "Entangle") else [1] * len(op["t"]), op["inv"])
                if op["c"]:
                    with Control(eng, [q[s] for s in op["c"]], ctrl_state=op["cs"]):
                        gate | arg
                else:
                    gate | arg
                m.gate(mat, op["t"], op["c"], op["cs"])
                m.flushed = False
                if dist:
                    dist.gate(mat, op["t"], op["c"], op["cs"])
                order = [m.ids.index(s) for s in op["t"]]
                r.cover.add(f"{sc['chain']}:{op['g']}:{op['cs']}:{order == sorted(order)}:{len(order)}:{m.n}")
            elif kind == "flush":
                eng.flush()
                m.flushed = True
            elif kind == "meas":
                return self.measure(sc, where, op, eng, sim, m, q, r, outcome, dist)
            elif kind == "cmeas":
                # refused; nothing changes
                if sc["chain"] != "direct":
                    return True
                from projectq.ops import Command
                from projectq.types import WeakQubitRef

                try:
                    eng.send([Command(eng, Measure, ([WeakQubitRef(eng, q[op["q"]].id)],), controls=[WeakQubitRef(eng, q[op["c"]].id)])])
                except (RuntimeError, ValueError):
                    r.hit("refused.controlled_measurement")
                else:
                    r.violate("refusal", f"{where}: a controlled measurement was accepted")
                    return False
            elif kind == "query":
                if sc["chain"] not in ("direct", "mid"):
                    return True
                vals = [bool(v) for v in sim.measure_qubits([q[s].id for s in op["q"]])]
                r.log(k, "query", vals)
                if not m.outcome(op["q"], vals):
                    r.violate("outcome", f"{where}: {vals} has probability zero")
                    return False
            elif kind == "free":
                if dist:
                    dist.free(op["q"])
                eng.deallocate_qubit(q.pop(op["q"]))
                m.free(op["q"])
        except Exception as e:  # noqa
            r.violate("error", f"{where}: {type(e).__name__}: {e}")
            return False
        r.hit("op." + kind)
        r.log(k, kind, need)
        return True

    def measure(self, sc, where, op, eng, sim, m, q, r, outcome, dist):
        from projectq.ops import Measure

        vals = []
        for s in op["q"]:
            try:
                Measure | q[s]
            except RuntimeError as e:
                if m.flushed:
                    r.violate("error", f"{where}: refused although everything was flushed: {e}")
                    return False
                r.hit("refused.measurement")
                r.log("refused")
                p = self.compare(sc, where, op, sim, m, r)
                if p:
                    r.violate("unitary", p)
                    return False
                return True
            except Exception as e:  # noqa
                r.violate("error", f"{where}: {type(e).__name__}: {e}")
                return False
            if not m.flushed:
                r.violate("refusal", f"{where}: a measurement was answered although gates were not flushed")
                return False
            m.stale = True
            v = int(q[s])
            vals.append(v)
            if dist:
                dist.measure(s)
            outcome.append(v)
            lo, hi = m.prob(s)
            if not m.outcome([s], [v]):
                r.violate("outcome", f"{where}: qubit {s} reads {v}; the probability of 1 is {lo:.6f}..{hi:.6f} given everything observed before")
                return False
        r.hit("measured", len(vals))
        r.log(where, vals)
        return True

    def compare(self, sc, k, op, sim, m, r):
        phase = sc["chain"] == "auto"
        u = sim.unitary
        h = sim.history
        if len(h) != len(m.history):
            return f"after operation {k} ({op['op']}): the history has {len(h)} entries, {len(m.history)} unitaries were completed"
        for i, (a, b) in enumerate(zip(h, m.history)):
            if not any(same(a, x, phase) for x in b):
                return f"after operation {k} ({op['op']}): history entry {i} (shape {np.shape(a)}) is not the unitary completed then (shape {b[0].shape})"
        if not (same(u, m.u, phase) or (m.alt is not None and same(u, m.alt, phase))):
            return f"after operation {k} ({op['op']}): the unitary (shape {np.shape(u)}) is not the product of the gates since the last reset (shape {m.u.shape})"
        # what the caller does with the copies is his business
        u *= 0
        for x in h:
            x *= 0
        return None

    def shrink_paths(self, sc):
        return ["ops"]

    def simplify(self, sc):
        if sc["draws"]:
            yield dict(sc, draws=[])
        if sc["chain"] != "direct":
            yield dict(sc, chain="direct")
        for i, o in enumerate(sc["ops"]):
            if o["op"] == "g" and o["c"]:
                yield dict(sc, ops=sc["ops"][:i] + [dict(o, c=o["c"][1:], cs=o["cs"][1:])] + sc["ops"][i + 1 :])


class Tree:
    """Distribution of all outcomes of a program."""

    def __init__(self):
        self.ids = []
        self.nodes = [((), 1.0, np.ones(1, dtype=complex))]

    def alloc(self, q):
        self.ids.append(q)
        self.nodes = [(o, p, np.concatenate([v, 0 * v])) for o, p, v in self.nodes]

    def gate(self, m, t, c, cs):
        e = embed(m, [self.ids.index(x) for x in t], [self.ids.index(x) for x in c], cs, len(self.ids))
        self.nodes = [(o, p, e @ v) for o, p, v in self.nodes]

    def split(self, q, note):
        pos = self.ids.index(q)
        new = []
        for o, p, v in self.nodes:
            for b in (0, 1):
                x = np.where(np.array([(j >> pos) & 1 == b for j in range(len(v))]), v, 0)
                w = float(np.vdot(x, x).real)
                if w > 1e-12:
                    new.append((o + (b,) if note else o, p * w, x / math.sqrt(w)))
        self.nodes = new
        return pos

    def measure(self, q):
        self.split(q, True)

    def free(self, q):
        pos = self.split(q, False)
        self.nodes = [(o, p, self.drop(v, pos)) for o, p, v in self.nodes]
        self.ids.remove(q)

    def drop(self, v, pos):
        v = v.reshape(-1, 2, 2**pos)
        return (v[:, 0, :] + v[:, 1, :]).reshape(-1)

    def leaves(self):
        out = {}
        for o, p, _ in self.nodes:
            out[o] = out.get(o, 0.0) + p
        return out


def plausible(k, n, p):
    """Could k of n happen with probability p? (tails below 1e-9 are not believed)"""
    if p < 1e-9:
        return k == 0
    if p > 1 - 1e-9:
        return k == n
    def pmf(i):
        return math.exp(math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + i * math.log(p) + (n - i) * math.log1p(-p))

    tail = sum(pmf(i) for i in (range(k, n + 1) if k >= n * p else range(0, k + 1)))
    return tail > 1e-11


WORLD = C22
