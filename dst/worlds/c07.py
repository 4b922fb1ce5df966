"""C07: an exception inside a block leaves the chain of engines as it was."""
import gc
import random

from .. import blocks, chain, env, stream
from .. import prog as P
from .. import ref as R
from ..core import Result, World
from . import c06

GATES = ["H", "X", "Y", "Z", "S", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Ph", "Swap", "SqrtSwap", "Rzz", "MatN", "AddConstant", "MathFn"]
class OddError(Exception):
    """An exception which takes more than a message (as UnicodeDecodeError and JSONDecodeError do)."""

    def __init__(self, where, text):
        super().__init__(f"{where}: {text}")
        self.where = where


EXCS = {"Odd": OddError, "User": P.UserError, "Interrupt": KeyboardInterrupt, "Exit": SystemExit, "Closed": GeneratorExit, "Value": ValueError,
        "Memory": MemoryError, "Stop": StopIteration}
TOL = 2e-6


def make_exc(cls):
    return (lambda text: cls(7, text)) if cls is OddError else cls


def fault_engine():
    from projectq.cengines import BasicEngine
    from projectq.ops import Allocate, Deallocate, FlushGate

    class Fault(BasicEngine):
        """Loses the n-th command it is asked to handle and raises instead."""

        def __init__(self):
            super().__init__()
            self.n = None
            self.exc = None
            self.fired = 0

        def arm(self, n, exc):
            self.n, self.exc = n, exc

        def disarm(self):
            self.n = None

        def receive(self, command_list):
            for cmd in command_list:
                # a failing release would be swallowed by Python: finalisers cannot raise
                # (nor do we lose an allocation whose release may be buffered behind us)
                if self.n is not None and not isinstance(cmd.gate, FlushGate) and cmd.gate not in (Allocate, Deallocate):
                    if self.n == 0:
                        self.n = None
                        self.fired += 1
                        raise self.exc("injected by an engine")
                    self.n -= 1
                self.send([cmd])

    return Fault()


class Runner(blocks.BlockRunner):
    raised = None

    def do_raise(self, op, top):
        self.raised = make_exc(EXCS[op["exc"]])("injected by the user")
        raise self.raised


def bodies(op, path=()):
    """All bodies of a block tree as (path, list)."""
    for k in ("body", "compute", "action", "custom"):
        if op.get(k) is not None:
            yield path + (op["op"] + "." + k,), op[k]
            for o in op[k]:
                yield from bodies(o, path + (op["op"] + "." + k,))


class C07(World):
    ID = "C07"
    TECH = ("deterministic simulation: exceptions injected at seeded points of seeded nested blocks (user code, engines, interrupts, failure to "
            "enter a block), followed by further use of the same engine; invariants on the chain and refinement of everything that follows")
    NOTE = ("Seeded search. After every injected exception the chain of engine objects is compared with the one before the outermost block, "
            "qubits from before must still exist, and all later commands are compared with the reference starting from the state found then.")
    RULE = ("one evaluation = one history of several programs, each aborted by an injected exception somewhere inside a block and continued; "
            "non-trivial = at least one injection fired; distinct by event-log digest")
    DISTINCT = "distinct (path of blocks to the injection, kind of injection) pairs"
    QUICK = 8000
    THOROUGH = 160000
    REAL = ["projectq.meta", "projectq.cengines._main", "projectq.cengines", "projectq.types", "projectq.backends Simulator"]
    STUB = ["reference state vector (oracle)", "failing engine"]
    ASSUME = ["Deallocate is not made to fail: Python swallows exceptions in finalisers",
              "when the exception leaves the action between a top-level Compute and its Uncompute, the section stays open (the library cannot "
              "know that it was abandoned); only its transparency is checked then",
              "which part of an aborted block has been executed is not prescribed (targets with native loops are left out: what they do with the "
              "start of a loop whose end never comes is theirs)"]

    def prepare(self):
        env.setup()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        pos = rng.choice(["front", "front", "end"])
        st = []
        for _ in range(rng.randint(0, 2)):
            # in front of a failing back-end only stages which do not buffer: otherwise it fails after the block
            st.append(rng.choice([{"stage": "rep"}, {"stage": "tags"}] + ([{"stage": "opt", "m": rng.choice([1, 5, 10])}, {"stage": "mod"}]
                                                                      if pos == "front" else [])))
        nq = rng.choice([2, 3, 4, 5])
        g = P.Gen(rng, GATES, max_qubits=nq, max_controls=2, ifs=rng.random() < 0.3, gcs=False, neg=True, flushes=0.06, no_inv=("MathFn",),
                  max_ops=6)
        g.block_gates = [x for x in GATES if x != "MathFn"]
        sl = g.new_slots(rng.randint(1, min(3, nq)))
        first = [{"op": "alloc", "q": sl, "reg": rng.randint(0, 1)}]
        g.live += sl
        eps = []
        for e in range(rng.choice([1, 1, 2, 2, 3] if tier == "quick" else [1, 2, 3, 5, 8])):
            setup = first if e == 0 else []
            for _ in range(rng.randint(0, 3)):
                setup = setup + g.top_op(1)
            setup = setup + [{"op": "flush"}]
            live0 = list(g.live), set(g.measured)
            b = None
            for _ in range(5):
                b = b or g.block(g.live, rng.choice([0, 1, 2, 3]), 0)
            g.live, g.measured = live0
            if b is None:
                continue
            b = blocks.vary(rng, g, b, False)
            kind = rng.choice(["user", "user", "user", "engine", "engine", "limit"])
            f = {"kind": kind, "exc": rng.choice(sorted(EXCS))}
            if kind == "user":
                bs = list(bodies(b))
                path, body = rng.choice(bs)
                body.insert(rng.randint(0, len(body)), {"op": "raise", "exc": f["exc"]})
            elif kind == "engine":
                f["n"] = rng.choice([0, 0, 1, 2, 3, rng.randint(0, 20)])
                if f["exc"] == "Stop":
                    f["exc"] = "Value"
            else:
                f["n"] = rng.choice([0, 1, 1, 2])
            after = []
            for _ in range(rng.randint(1, 5)):
                after += g.top_op(2)
            eps.append({"setup": setup, "block": b, "fault": f, "after": after + [{"op": "flush"}], "stale": rng.randint(0, 2)})
        return {"stages": st, "pos": pos, "eps": eps, "sim": rng.getrandbits(30), "fusion": rng.getrandbits(1)}

    def execute(self, sc):
        r = Result()
        fe = fault_engine()
        head = [fe] if sc["pos"] == "front" else []
        tail = [fe] if sc["pos"] == "end" else []
        eng, rn, b, pr, _ = stream.start(sc, r, sc["stages"], head=head, tail=tail)
        rn.__class__ = Runner
        self.fired = 0
        try:
            self.history(sc, r, rn, eng, fe)
        finally:
            rn.raised = None
            stream.finish(eng, rn, r, pr, sc)
        r.nontrivial = r.nontrivial and self.fired > 0
        return r

    def history(self, sc, r, rn, eng, fe):
        base = None
        done = []
        for e, ep in enumerate(sc["eps"]):
            rn.snaps = []
            try:
                rn.run_top(ep["setup"])
            except Exception as x:  # noqa
                if not self.judge(r, rn, base, done + ep["setup"], False):
                    return
                r.violate("error", f"episode {e}: {type(x).__name__} before the block: {x}")
                return
            if not self.judge(r, rn, base, done + ep["setup"]):
                return
            live0 = set(rn.s.q)
            pre = {s: q.id for s, q in rn.s.q.items()}
            chain0, names0, n0 = c06.engines(eng), c06.names(eng), eng.n_engines
            f = ep["fault"]
            limit = eng.n_engines_max
            if f["kind"] == "engine":
                fe.arm(f["n"], make_exc(EXCS[f["exc"]]))
            elif f["kind"] == "limit":
                eng.n_engines_max = eng.n_engines + f["n"]
            got = None
            rn.raised = None
            try:
                rn.step(ep["block"], True)
            except BaseException as x:  # noqa
                got = (type(x), x is rn.raised, str(x))
                x.__traceback__ = None
                del x
            fe.disarm()
            eng.n_engines_max = limit
            fired = {"user": rn.raised is not None, "engine": fe.fired > 0, "limit": got is not None}[f["kind"]]
            fe.fired = 0
            where = f"episode {e} ({f['kind']} {f['exc'] if f['kind'] != 'limit' else ''})"
            path = self.path(ep["block"])
            user = rn.raised
            rn.raised = None
            gc.collect()
            if f["kind"] == "limit" and got and not (got[0] is RuntimeError and "Too many" in got[2]):
                fired = False
            if fired:
                self.fired += 1
                r.hit("fault." + f["kind"] + ("." + f["exc"] if f["kind"] != "limit" else ""))
                r.cover.add(f"{path}:{f['kind']}")
                if got is None:
                    r.violate("swallowed", f"{where}: the exception did not reach the caller")
                    return
                if f["kind"] == "user" and not got[1] or f["kind"] == "engine" and not issubclass(got[0], EXCS[f["exc"]]):
                    r.violate("other exception", f"{where}: the caller got {got[0].__name__}: {got[2][:300]}")
                    return
            elif got is not None:
                # not injected: only legal when the program itself is not
                if self.legal(ep["block"]):
                    r.violate("error", f"{where}: block failed by itself with {got[0].__name__}: {got[2][:300]}")
                else:
                    r.nontrivial = False
                return
            del user
            now = c06.engines(eng)
            if fired and now != chain0 and self.left_open(ep["block"], f, path, live0):
                # an abandoned compute section stays in front; it must be transparent
                names = c06.names(eng)
                k = len(now) - len(chain0)
                if now[0] != chain0[0] or now[1 + k :] != chain0[1:] or set(names[1 : 1 + k]) - {"ComputeEngine"} or eng.n_engines != n0 + k:
                    r.violate("chain", f"{where}: chain was {names0} ({n0}), is {names} ({eng.n_engines})")
                    return
            elif now != chain0 or eng.n_engines != n0:
                r.violate("chain", f"{where}: chain was {names0} ({n0}), is {c06.names(eng)} ({eng.n_engines})")
                return
            # qubits which never came into being: using them is refused
            for s in list(rn.s.q):
                if rn.s.q[s].id == -1:
                    if ep["stale"]:
                        try:
                            self.use(rn.s.q[s])
                            eng.flush()
                        except Exception as x:  # noqa
                            x.__traceback__ = None
                        else:
                            r.violate("stale qubit", f"{where}: a qubit whose allocation was discarded can be used")
                            return
                    del rn.s.q[s]
            lost = [s for s in pre if s in rn.s.q and rn.s.q[s].id != pre[s]]
            if lost:
                r.violate("lost qubit", f"{where}: qubits of slots {lost} from before the block are gone")
                return
            rn.snaps = []
            try:
                eng.flush()
                rn.index = -1
                base = rn.snapshot()
            except Exception as x:  # noqa
                if not self.legal(ep["block"]):
                    # e.g. it had released an entangled qubit before it was aborted
                    r.nontrivial = False
                    return
                r.violate("error", f"{where}: flush after the exception failed: {type(x).__name__}: {x}")
                return
            held = set(rn.s.q[s].id for s in rn.s.q)
            for s, i in pre.items():
                if s in rn.s.q and i not in base["m"]:
                    r.violate("lost qubit", f"{where}: qubit {i} from before the block is not held by the back-end any more")
                    return
            if f["kind"] == "user" and not held <= set(base["m"]) and self.legal(ep["block"]):
                r.violate("live qubits", f"{where}: handles {sorted(held)} but back-end holds {sorted(base['m'])}")
                return
            base["inst"] = {s: len(v) for s, v in rn.ids.items()}
            base["out"] = {i: len(v) for i, v in rn.outcomes.items()}
            # qubits allocated inside the aborted block whose handles survived: ordinary qubits, measured and released
            inner = sorted(s for s in rn.s.q if s not in pre)
            if not held <= set(base["m"]):
                # the failing engine lost an allocation: those handles are not usable
                for s in list(rn.s.q):
                    if rn.s.q[s].id not in base["m"]:
                        q = rn.s.q.pop(s)
                        q.id = -1
                inner = [s for s in inner if s in rn.s.q]
                base["ids"] = {s: q.id for s, q in rn.s.q.items()}
            done = [{"op": "free", "q": [s], "how": "del"} for s in inner] + ep["after"]
            rn.snaps = []
            try:
                rn.run_top(done)
            except Exception as x:  # noqa
                if not self.judge(r, rn, base, done, False):
                    return
                r.violate("error", f"{where}: continuing failed: {type(x).__name__}: {x}")
                return
            if not self.judge(r, rn, base, done):
                return
        return

    def judge(self, r, rn, base, ops, compare=True):
        """Everything since the last exception against the reference; False: stop."""
        if r.violations:
            return False
        if base is None:
            out = P.outcomes_by_slot(rn)
            x = blocks.BlockExpander(out)
            ghosts = set()
        else:
            out = {}
            for s, ids in rn.ids.items():
                for i, qid in enumerate(ids):
                    out[(s, i)] = rn.outcomes.get(qid, [])[base["out"].get(qid, 0) :]
            x = blocks.BlockExpander(out)
            byid = {i: s for s, i in base["ids"].items()}
            names = [None] * len(base["m"])
            for qid, p in base["m"].items():
                names[p] = byid.get(qid, ("ghost", qid))
            x.r.names, x.r.v = names, base["v"].copy()
            x.live = set(base["ids"])
            for s in x.live:
                x.inst[s] = rn.ids[s].index(base["ids"][s])
                seen = rn.outcomes.get(base["ids"][s], [])[: base["out"].get(base["ids"][s], 0)]
                if seen:
                    x.measured.add(s)
                    x.last[s] = seen[-1]
            for s, k in base["inst"].items():
                x.inst.setdefault(s, k - 1)
            ghosts = set(n for n in names if isinstance(n, tuple))
        si = 0
        for i, op in enumerate(ops):
            try:
                x.step(op, True)
            except P.Exhausted as e:
                r.violate("lost measurement", f"measured qubit {e} has no recorded outcome (operation {i})")
                return False
            except P.Invalid as e:
                if x.problems:
                    r.violate("outcome", x.problems[0])
                else:
                    r.nontrivial = False
                    r.log("invalid program", e)
                return False
        # snapshots carry the index within the last list run; compare the last one only when everything was executed
        self.x = x
        if compare and rn.snaps:
            s = rn.snaps[-1]
            ids = s["ids"]
            if set(ids) != x.live:
                r.violate("harness-live", f"{sorted(ids)} vs {sorted(x.live)}")
                return False
            want = set(ids.values()) | {g[1] for g in ghosts}
            if want != set(s["m"]):
                r.violate("live qubits", f"program has {sorted(want)}, back-end holds {sorted(s['m'])}")
                return False
            byid = {i: k for k, i in ids.items()}
            order = [None] * len(s["m"])
            for qid, p in s["m"].items():
                order[p] = byid.get(qid, ("ghost", qid))
            fid = R.fidelity(x.r.vector(order), s["v"])
            r.log("fid", round(fid, 6))
            if not fid > 1 - TOL:
                r.violate("state", f"fidelity {fid:.9f} with what was issued since the {'start' if base is None else 'exception'}")
                return False
            for slot, v in s["reads"].items():
                if slot in x.last and v != x.last[slot]:
                    r.violate("read", f"qubit of slot {slot} reads {v}, its recorded outcome is {x.last[slot]}")
                    return False
        return True

    @staticmethod
    def use(q):
        from projectq.ops import X

        X | q

    def legal(self, block):
        try:
            self.x.step(block, True)
        except P.Invalid:
            return False
        return True

    @staticmethod
    def left_open(op, f, path, live):
        """Is there a compute section which nothing else encloses and which may have been abandoned in its action?"""
        while True:
            if op["op"] == "cu":
                return not (f["kind"] == "user" and path.split(">")[0] == "cu.compute")
            if not (op["op"] == "loop" and op["n"] == 1 or op["op"] == "control" and not set(op["c"]) <= live):
                return False
            # a loop of one turn and a control on nothing are no blocks
            path = path.partition(">")[2]
            sub = [o for o in op["body"] if o["op"] in ("cu", "loop", "control", "dagger")]
            if f["kind"] == "user":
                sub = [o for o in sub if any(x["op"] == "raise" for _, b in bodies(o) for x in b)]
            if len(sub) != 1:
                return bool(sub)
            op = sub[0]

    @staticmethod
    def path(block):
        for p, body in bodies(block):
            if any(o["op"] == "raise" for o in body):
                return ">".join(p)
        return block["op"]

    def shrink_paths(self, sc):
        return ["eps"]

    def simplify(self, sc):
        for i in range(len(sc["stages"])):
            yield dict(sc, stages=sc["stages"][:i] + sc["stages"][i + 1 :])


WORLD = C07
