"""C19: the classical simulator against a plain array of bits."""
import math
import random

from .. import chain, compiled, env
from .. import prog as P
from .. import ref as R
from ..core import Result, World

ARITH = ["AddConstant", "SubConstant", "AddConstantModN", "SubConstantModN", "MultiplyByConstantModN", "AddQuantum", "SubtractQuantum",
         "ComparatorQuantum", "DivideQuantum", "MultiplyQuantum", "MathFn"]
CIRCUIT = ["AddQuantum", "SubtractQuantum", "ComparatorQuantum", "MultiplyQuantum"]


class C19(World):
    ID = "C19"
    TECH = ("deterministic simulation: seeded histories of allocation, release, reads, writes, controlled NOTs, arithmetic and injected illegal "
            "requests behind seeded mappers, optimisers and re-batching links, in lock-step with an array of bits")
    NOTE = "Seeded search over histories. After seeded steps, after every rejected request and at the end, every live bit is compared with the model."
    RULE = "one evaluation = one history on one chain; distinct by event-log digest"
    DISTINCT = "distinct (chain, operation, register size class, controls) tuples exercised"
    QUICK = 16000
    THOROUGH = 300000
    REAL = ["projectq.backends._sim._classical_simulator", "projectq.libs.math gates and rules", "mappers, optimiser, replacer, tag remover in front of it"]
    STUB = ["array of bits (oracle)", "re-batching links"]
    ASSUME = ["modular arithmetic is used on values below the modulus, division with an empty quotient register and 0 < divisor <= dividend (as documented)",
              "reads and writes are preceded by a flush where a stage in front of the simulator buffers"]

    def prepare(self):
        env.setup()
        chain.rule_set()

    # ---------------------------------------------------------------- scenarios
    def generate(self, seed, tier):
        rng = random.Random(seed)
        pipe = rng.choice(["direct", "direct", "manual", "manual", "buffered", "bounded", "linear", "grid", "arith", "front"])
        cap = {"direct": 90, "manual": 70, "buffered": 40, "bounded": 16, "linear": 6, "grid": 6, "arith": 24, "front": 9}[pipe]
        cap = rng.choice([cap, min(cap, 8)])
        mod = {"pipe": pipe, "mark": rng.getrandbits(20) if rng.random() < 0.2 else None, "cap": cap, "a": rng.choice([1, 3, 7]), "b": rng.choice([0, 1, 5]), "m": rng.choice([1, 2, 5, 10]),
               "links": [[rng.randrange(5), rng.getrandbits(20)] for _ in range(rng.choice([1, 2]))] if pipe in ("buffered", "arith") and rng.random() < 0.7 else [],
               "rows": 2, "cols": 3, "cyc": int(rng.random() < 0.3)}
        size = rng.choice([8, 20, 40]) if tier == "quick" else rng.choice([10, 40, 120])
        nxt, live, total = 0, [], 0
        ops = []

        def take(k):
            return rng.sample(live, k)

        def ctrl(rest, most):
            k = rng.choice([0, 0, 1, 1, 2, 3])
            k = min(k, most, len(rest))
            c = rng.sample(rest, k)
            return {"c": c, "cs": "".join(rng.choice("01") for _ in c)} if c else {}

        routed = pipe in ("linear", "grid")
        for _ in range(size):
            k = rng.choice(["alloc", "x", "x", "x", "math", "math", "free", "write", "read", "meas", "wbit", "illegal", "flush", "check"])
            if k == "alloc" or not live:
                room = (cap - len(live)) if pipe != "bounded" else cap - total
                n = min(room, rng.choice([1, 1, 2, 3, 5, 12, 33]))
                if n <= 0:
                    if pipe == "bounded":
                        ops.append({"op": "flush"})
                    continue
                q = list(range(nxt, nxt + n))
                nxt += n
                total += n
                live += q
                ops.append({"op": "alloc", "q": q})
            elif k == "x":
                t = take(1)
                if (routed or pipe == "arith") and len(live) > 1 and rng.random() < 0.2:
                    ops.append({"op": "swap", "q": take(2)})
                    continue
                ops.append({"op": "x", "t": t[0], **ctrl([s for s in live if s not in t], 1 if routed else 4)})
            elif k == "math" and not routed:
                o = self.math(rng, live, pipe)
                if o:
                    ops.append(o)
            elif k == "free":
                q = take(rng.randint(1, min(3, len(live))))
                for s in q:
                    live.remove(s)
                ops.append({"op": "free", "q": q, "meas": int(rng.random() < 0.5)})
            elif k == "write" and pipe != "front":
                q = take(rng.randint(1, len(live)))
                ops.append({"op": "write", "q": q, "v": rng.choice([0, (1 << len(q)) - 1, rng.getrandbits(len(q))])})
            elif k == "wbit" and pipe != "front":
                ops.append({"op": "wbit", "q": take(1), "v": rng.choice([0, 1, True, False])})
            elif k == "read":
                ops.append({"op": "read", "q": take(rng.randint(1, len(live)))})
            elif k == "meas":
                ops.append({"op": "meas", "q": take(rng.randint(1, min(4, len(live))))})
            elif k == "illegal":
                kinds = ["big", "negative", "unknown_read", "unknown_write"]
                if pipe in ("direct", "manual"):
                    kinds += ["h", "raises", "raises", "short"]
                if pipe == "front":
                    kinds = ["unknown_read"]
                ops.append({"op": "illegal", "k": rng.choice(kinds), "q": take(rng.randint(1, min(4, len(live)))), "seed": rng.getrandbits(20)})
            elif k in ("flush", "check"):
                ops.append({"op": k})
                if k == "flush" and pipe == "bounded":
                    total = len(live)
            if k in ("write", "wbit", "read", "illegal", "check") and pipe == "bounded":
                total = len(live)
        return {"mod": mod, "ops": ops, "sim": rng.getrandbits(30)}

    def math(self, rng, live, pipe):
        g = rng.choice(CIRCUIT if pipe == "arith" else ARITH)
        n = len(live)
        big = rng.random() < 0.2
        k = rng.randint(1, min(max(1, n), 40 if big else 5))

        def regs(*sizes):
            if sum(sizes) > n:
                return None
            p = rng.sample(live, sum(sizes))
            out = []
            for s in sizes:
                out.append(p[:s])
                p = p[s:]
            return out

        if g in ("AddConstant", "SubConstant"):
            t, p = regs(k), [rng.choice([rng.getrandbits(k + 2), 1, 0, -3, 1 << k])]
        elif g.endswith("ModN"):
            N = rng.randint(2, (1 << k)) if k > 0 else 2
            a = rng.randrange(0, N)
            if g[0] == "M":
                for _ in range(50):
                    a = rng.randrange(1, N) if N > 1 else 1
                    if math.gcd(a, N) == 1:
                        break
                else:
                    a = 1
            t, p = regs(k), [a, N]
        elif g in ("AddQuantum", "SubtractQuantum"):
            k = min(k, n // 2)
            if g == "AddQuantum" and rng.random() < 0.4:
                t = regs(k, k, 1)
            else:
                t = regs(k, k)
            p = []
        elif g == "ComparatorQuantum":
            k = min(k, (n - 1) // 2)
            t, p = regs(k, k, 1), []
        elif g == "DivideQuantum":
            k = min(k, n // 3)
            t, p = regs(k, k, k), []
        elif g == "MultiplyQuantum":
            k = min(k, (n - 1) // 4)
            t, p = regs(k, k, 2 * k + 1), []
        else:
            kind = rng.choice(["xor", "addc", "perm"])
            if kind == "xor":
                k = min(k, n // 2)
                t, p = regs(k, k), ["xor", rng.getrandbits(k) if k else 0]
            elif kind == "addc":
                t, p = regs(k), ["addc", rng.getrandbits(k)]
            else:
                t, p = regs(k), ["perm", rng.getrandbits(k) | 1, rng.getrandbits(k), k]
        if not t or any(not r for r in t):
            return None
        used = {s for r in t for s in r}
        o = {"op": "math", "g": g, "p": p, "t": t}
        rest = [s for s in live if s not in used]
        most = (0 if g == "MultiplyQuantum" or len(t) == 3 and g == "AddQuantum" else 1) if pipe == "arith" else 3
        k = min(rng.choice([0, 0, 1, 2, 3]), most, len(rest))
        if k:
            o["c"] = rng.sample(rest, k)
            o["cs"] = "".join(rng.choice("01") for _ in range(k))
        if g in ("AddConstant", "SubConstant", "AddConstantModN", "SubConstantModN", "AddQuantum", "SubtractQuantum", "ComparatorQuantum") and rng.random() < 0.15 and not (g == "AddQuantum" and len(t) == 3):
            o["inv"] = 1
        return o

    # ---------------------------------------------------------------- execution
    def engines(self, mod):
        from projectq import cengines as ce

        b = chain.Built()
        p = mod["pipe"]
        if p in ("direct", "front"):
            st = []
        elif p == "manual":
            st = [ce.ManualMapper(lambda i: mod["a"] * i + mod["b"])]
        elif p == "buffered":
            st = [ce.TagRemover(), ce.LocalOptimizer(mod["m"])]
        elif p == "bounded":
            st = chain.custom([{"stage": "opt", "m": mod["m"]}, {"stage": "bounded", "n": mod["cap"]}], b)
        elif p in ("linear", "grid"):
            st = [{"stage": "linear", "n": mod["cap"], "cyclic": bool(mod["cyc"])}] if p == "linear" else [{"stage": "grid", "rows": 2, "cols": 3}]
            st = chain.custom(st + [{"stage": "rep"}, {"stage": "opt", "m": mod["m"]}], b)
        else:
            from projectq import ops as O
            from projectq.ops import XGate
            from projectq.types import Qubit  # noqa

            def basic(eng, cmd):
                return isinstance(cmd.gate, XGate) or cmd.gate in (O.Measure, O.Allocate, O.Deallocate)

            st = chain.custom([{"stage": "rep"}], b) + [ce.InstructionFilter(basic)] + chain.custom([{"stage": "opt", "m": mod["m"]}], b)
        if mod.get("mark") is not None:
            st = [chain.marker(mod["mark"])] + st
        return compiled.insert_links(st, mod["links"], b)

    def execute(self, sc):
        from projectq import MainEngine
        from projectq.backends import ClassicalSimulator, Simulator

        r = Result()
        env.quiesce()
        random.seed(sc["sim"])
        mod = sc["mod"]
        sim = ClassicalSimulator()
        self.q = {}
        self.bits = {}
        self.mod, self.sim, self.r = mod, sim, r
        back = None
        if mod["pipe"] == "front":
            back = Simulator(rnd_seed=sc["sim"])
            eng = MainEngine(back, [sim])
        else:
            eng = MainEngine(sim, self.engines(mod))
        self.eng, self.back = eng, back
        self.lazy = mod["pipe"] not in ("direct", "manual", "front")
        try:
            for i, op in enumerate(sc["ops"]):
                try:
                    bad = self.step(op)
                except Exception as e:  # noqa
                    bad = ("error", f"{type(e).__name__}: {e}")
                    e.__traceback__ = None
                if bad:
                    r.violate(bad[0], f"operation {i} ({op['op']} {op.get('g', op.get('k', ''))}): {bad[1]}")
                    return r
                r.cover.add(f"{mod['pipe']}:{op['op']}:{op.get('g') or op.get('k') or ''}:{len(self.bits).bit_length()}:{len(op.get('c', []))}")
            bad = self.compare(True)
            if bad:
                r.violate(bad[0], "at the end: " + bad[1])
        finally:
            compiled.silence(eng)
            self.q.clear()
            self.eng = self.sim = self.back = None
            r.hit("ops", len(sc["ops"]))
        return r

    def ready(self):
        if self.lazy:
            self.eng.flush()

    def compare(self, measure=False):
        """Every live bit, read singly, as one register and (at the end) by measurement."""
        self.ready()
        order = sorted(self.q, key=lambda s: hash((s * 7919) % 1009))
        got = {s: self.sim.read_bit(self.q[s]) for s in order}
        self.r.log("bits", sorted(self.bits.items()))
        if got != self.bits:
            return ("bits", f"read_bit gives {[s for s in order if got[s] != self.bits[s]]} wrong: {got}, expected {self.bits}")
        v = self.sim.read_register([self.q[s] for s in order])
        want = sum(self.bits[s] << i for i, s in enumerate(order))
        if v != want:
            return ("bits", f"read_register({order}) is {v}, expected {want}")
        if self.back is not None and order:
            p = self.back.get_probability([self.bits[s] for s in order], [self.q[s] for s in order])
            if abs(p - 1) > 1e-6:
                return ("forwarded", f"the next engine holds the bits with probability {p}")
        if measure:
            return self.measure(order)

    def measure(self, q):
        from projectq.ops import Measure

        for s in q:
            Measure | self.q[s]
        self.ready()
        if self.back is not None:
            self.eng.flush()
        for s in q:
            if int(self.q[s]) != self.bits[s]:
                return ("measured", f"qubit {s} measured as {int(self.q[s])}, its bit is {self.bits[s]}")

    def val(self, reg):
        return sum(self.bits[s] << i for i, s in enumerate(reg))

    def put(self, reg, v):
        for i, s in enumerate(reg):
            self.bits[s] = v >> i & 1

    def active(self, op):
        return all(self.bits[s] == int(b) for s, b in zip(op.get("c", []), op.get("cs", "")))

    def step(self, op):
        from projectq.meta import Control
        from projectq.ops import BasicMathGate, H, Measure, Swap, X  # noqa

        k = op["op"]
        slots = list(op.get("q", [])) + list(op.get("c", [])) + ([op["t"]] if k == "x" else [s for g in op["t"] for s in g] if k == "math" else [])
        if k == "alloc":
            for s, q in zip(op["q"], self.eng.allocate_qureg(len(op["q"]))):
                self.q[s] = q
                self.bits[s] = 0
            return
        if any(s not in self.q for s in slots):
            return
        if k == "x":
            self.controlled(op, lambda: X | self.q[op["t"]])
            if self.active(op):
                self.bits[op["t"]] ^= 1
        elif k == "swap":
            a, b = op["q"]
            Swap | (self.q[a], self.q[b])
            self.bits[a], self.bits[b] = self.bits[b], self.bits[a]
        elif k == "math":
            vals = [self.val(t) for t in op["t"]]
            if op["g"].endswith("ModN") and vals[0] >= op["p"][1]:
                return
            if op["g"] == "DivideQuantum" and (vals[1] != 0 or vals[2] == 0 or vals[2] > vals[0]):
                return
            if op["g"] == "MultiplyQuantum" and vals[2] != 0 and self.mod["pipe"] == "arith":
                return  # the circuit is for an empty product register
            g = P.make_gate(op["g"], op["p"], op.get("inv", 0))
            self.controlled(op, lambda: g | tuple([self.q[s] for s in t] for t in op["t"]))
            if self.active(op):
                sizes = [len(t) for t in op["t"]]
                if op["g"] == "MathFn":
                    out = P.user_function(op["p"])(*vals)
                elif op["g"] == "DivideQuantum":
                    out = [vals[0] % vals[2], vals[0] // vals[2], vals[2]]
                elif op.get("inv"):
                    inv = {"AddConstant": "SubConstant", "SubConstant": "AddConstant", "AddConstantModN": "SubConstantModN", "SubConstantModN": "AddConstantModN",
                           "SubtractQuantum": "AddQuantum", "ComparatorQuantum": "ComparatorQuantum"}
                    if op["g"] == "AddQuantum":
                        out = [vals[0], (vals[1] - vals[0]) % 2 ** sizes[1]]
                    else:
                        out = R.math_function(inv[op["g"]], op["p"], sizes)(vals)
                else:
                    out = R.math_function(op["g"], op["p"], sizes)(vals)
                for t, v in zip(op["t"], out):
                    self.put(t, v)
        elif k == "free":
            if op["meas"]:
                bad = self.measure(op["q"])
                if bad:
                    return bad
            for s in op["q"]:
                if s in self.q:
                    q = self.q.pop(s)
                    del self.bits[s]
                    del q
        elif k == "write":
            self.ready()
            self.sim.write_register([self.q[s] for s in op["q"]], op["v"])
            self.put(op["q"], op["v"])
        elif k == "wbit":
            self.ready()
            self.sim.write_bit(self.q[op["q"][0]], op["v"])
            self.bits[op["q"][0]] = int(op["v"])
        elif k == "read":
            self.ready()
            v = self.sim.read_register([self.q[s] for s in op["q"]])
            if v != self.val(op["q"]):
                return ("bits", f"read_register({op['q']}) is {v}, expected {self.val(op['q'])}")
        elif k == "meas":
            return self.measure(op["q"])
        elif k == "flush":
            self.eng.flush()
        elif k == "check":
            return self.compare()
        elif k == "illegal":
            return self.illegal(op)

    def controlled(self, op, f):
        from projectq.meta import Control

        if op.get("c"):
            with Control(self.eng, [self.q[s] for s in op["c"]], ctrl_state=op["cs"]):
                f()
        else:
            f()

    def illegal(self, op):
        from projectq.ops import BasicMathGate, H
        from projectq.types import WeakQubitRef

        rng = random.Random(op["seed"])
        q = [self.q[s] for s in op["q"]]
        self.ready()
        k = op["k"]
        ghost = WeakQubitRef(self.eng, 99999)
        if k == "big":
            f = lambda: self.sim.write_register(q, rng.choice([1 << len(q), (1 << len(q)) + 1]))  # noqa
        elif k == "negative":
            f = lambda: self.sim.write_register(q, -1)  # noqa
        elif k == "unknown_read":
            f = lambda: rng.choice([lambda: self.sim.read_bit(ghost), lambda: self.sim.read_register(q + [ghost])])()  # noqa
        elif k == "unknown_write":
            f = lambda: self.sim.write_bit(ghost, 1)  # noqa
        elif k == "h":
            f = lambda: H | q[0]  # noqa
        elif k == "short":
            # a user function which returns too few values
            f = lambda: BasicMathGate(lambda a, b: [a ^ 1][:0] + [1 // 0]) | ([q[0]], q[1:]) if len(q) > 1 else H | q[0]  # noqa
        else:

            def boom(*a):
                raise P.UserError("in the function")

            f = lambda: BasicMathGate(boom) | (q,)  # noqa
            if self.mod["pipe"] not in ("direct", "manual"):
                return
        try:
            f()
        except Exception as e:  # noqa
            e.__traceback__ = None
            self.r.hit("fault.rejected_" + k)
            self.r.log("rejected", k, type(e).__name__)
            return self.compare()
        if k == "unknown_read" or k == "unknown_write" or k in ("big", "negative", "h"):
            return ("accepted", f"{k} on {op['q']} raised nothing")


WORLD = C19
