"""Block programs: deeper nesting, other spellings, illegal uses, exceptions; shared by C06 and C07."""
import copy

from . import prog as P
from . import stream


def loop_engine():
    from projectq.cengines import BasicEngine
    from projectq.meta import LoopTag

    class LoopNative(BasicEngine):
        """A target with native loops: repeats commands which carry loop tags (outermost tag last)."""

        def __init__(self):
            super().__init__()
            self.group = []
            self.tag = None
            self.repeated = 0

        def is_meta_tag_handler(self, tag):
            return tag == LoopTag

        @staticmethod
        def outer(cmd):
            t = [t for t in cmd.tags if isinstance(t, LoopTag)]
            return t[-1] if t else None

        def play(self, cmds, depth):
            """cmds: list of (cmd, [loop tags inner..outer])."""
            i = 0
            while i < len(cmds):
                c, tags = cmds[i]
                if not tags:
                    c = copy.deepcopy(c)
                    c.tags = [t for t in c.tags if not isinstance(t, LoopTag)]
                    self.send([c])
                    i += 1
                    continue
                j = i
                while j < len(cmds) and cmds[j][1] and cmds[j][1][-1] == tags[-1]:
                    j += 1
                for _ in range(tags[-1].num):
                    self.repeated += 1
                    self.play([(x, t[:-1]) for x, t in cmds[i:j]], depth + 1)
                i = j

        def receive(self, command_list):
            for cmd in command_list:
                t = self.outer(cmd)
                if self.group and t != self.tag:
                    self.drain()
                if t is None:
                    self.send([cmd])
                else:
                    self.tag = t
                    self.group.append((cmd, [x for x in cmd.tags if isinstance(x, LoopTag)]))

        def drain(self):
            g, self.group = self.group, []
            self.play(g, 0)

    return LoopNative()


class BlockRunner(stream.Flushing):
    """Adds spellings of Control, live compute/uncompute (with measurement inside), illegal uses, exceptions."""

    def do_control(self, op, top):
        from projectq.meta import Control
        from projectq.ops import CtrlAll

        if not self.live(op["c"]):
            self.run(op["body"], False)
            return
        self.tick()
        c = [self.s.q[s] for s in op["c"]]
        cs = op.get("cs") or "1" * len(c)
        syn = op.get("syn", 0)
        if syn == 1:
            cs = int(cs[::-1], 2)
        elif syn == 2 and len(set(cs)) == 1:
            cs = CtrlAll.One if cs[0] == "1" else CtrlAll.Zero
        elif syn == 3 and len(c) == 1:
            c = c[0]
        with Control(self.eng, c, ctrl_state=cs):
            self.run(op["body"], False)

    def do_cu(self, op, top):
        if not (op.get("live") and top):
            return super().do_cu(op, top)
        from projectq.meta import Compute, CustomUncompute, Uncompute

        self.tick()
        before = set(self.s.q)
        with Compute(self.eng):
            self.run(op["compute"], False)
        anc = set(self.s.q) - before
        self.run(op["action"], True)
        if op.get("custom") is not None:
            with CustomUncompute(self.eng):
                self.run(op["custom"], False)
        else:
            Uncompute(self.eng)
        for a in anc:
            self.s.q.pop(a, None)

    def do_raise(self, op, top):
        raise P.UserError("injected")

    def do_bad(self, op, top):
        """An illegal use of a block; must raise."""
        BAD[op["k"]](self)


class BlockExpander(P.Expander):
    def step(self, op, top):
        if op["op"] == "cu" and op.get("live") and top:
            before = set(self.live)
            self.legal(op["compute"])
            comp = self.expand(op["compute"])
            if not before <= self.live:
                raise P.Invalid("release of an outer qubit inside compute")
            mid = set(self.live)
            self.emit(comp)
            for o in op["action"]:
                if o["op"] == "free" or o["op"] == "alloc":
                    raise P.Invalid("allocation in a live action")
                self.step(o, True)
            if op.get("custom") is not None:
                self.emit(self.expand(op["custom"]))
                if (mid - before) & self.live:
                    raise P.Invalid("custom uncompute leaves ancillas")
            else:
                self.emit(P.inverse(comp))
                for s in mid - before:
                    self.live.discard(s)
            return
        if op["op"] == "bad":
            return
        super().step(op, top)


# ------------------------------------------------------------------------------------------------ illegal uses
def _first(rn):
    return rn.s.q[sorted(rn.s.q)[0]]


def bad_uncompute(rn):
    from projectq.meta import Uncompute

    Uncompute(rn.eng)


def bad_custom(rn):
    from projectq.meta import CustomUncompute

    with CustomUncompute(rn.eng):
        pass


def bad_dagger_leak(rn):
    from projectq.meta import Dagger
    from projectq.ops import H

    with Dagger(rn.eng):
        keep = rn.eng.allocate_qubit()
        H | keep
        rn.leaked = keep


def bad_loop_leak(rn):
    from projectq.meta import Loop
    from projectq.ops import H

    with Loop(rn.eng, 3):
        keep = rn.eng.allocate_qubit()
        H | keep
        rn.leaked = keep


def bad_loop_foreign(rn):
    from projectq.meta import Loop
    from projectq.ops import X

    if len(rn.s.q) < 1:
        raise P.UserError("not possible")
    extra = rn.eng.allocate_qubit()
    with Loop(rn.eng, 2):
        X | _first(rn)
        X | _first(rn)
        extra[0].__del__()


def bad_compute_foreign(rn):
    from projectq.meta import Compute, Uncompute
    from projectq.ops import X

    extra = rn.eng.allocate_qubit()
    with Compute(rn.eng):
        X | _first(rn)
        X | _first(rn)
        extra[0].__del__()
    Uncompute(rn.eng)


def bad_dagger_foreign(rn):
    from projectq.meta import Dagger

    extra = rn.eng.allocate_qubit()
    with Dagger(rn.eng):
        extra[0].__del__()


def bad_custom_leak(rn):
    from projectq.meta import Compute, CustomUncompute

    with Compute(rn.eng):
        rn.leaked = rn.eng.allocate_qubit()
    with CustomUncompute(rn.eng):
        pass


def bad_custom_leak2(rn):
    from projectq.meta import Compute, CustomUncompute
    from projectq.ops import X

    with Compute(rn.eng):
        X | _first(rn)
    with CustomUncompute(rn.eng):
        X | _first(rn)
        rn.leaked = rn.eng.allocate_qubit()


def bad_measure_dagger(rn):
    from projectq.meta import Dagger
    from projectq.ops import Measure

    with Dagger(rn.eng):
        Measure | _first(rn)


def bad_measure_compute(rn):
    from projectq.meta import Compute, Uncompute
    from projectq.ops import Measure

    with Compute(rn.eng):
        Measure | _first(rn)
    Uncompute(rn.eng)


def bad_math_dagger(rn):
    from projectq.meta import Dagger
    from projectq.ops import BasicMathGate

    with Dagger(rn.eng):
        BasicMathGate(lambda a: [a]) | [_first(rn)]


def bad_control_tuple(rn):
    from projectq.meta import Control

    with Control(rn.eng, (_first(rn),)):
        pass


def bad_control_state(rn):
    from projectq.meta import Control

    with Control(rn.eng, [_first(rn)], ctrl_state="10"):
        pass


def bad_control_state2(rn):
    from projectq.meta import Control

    with Control(rn.eng, [_first(rn)], ctrl_state=2):
        pass


def bad_control_state3(rn):
    from projectq.meta import Control

    with Control(rn.eng, [_first(rn)], ctrl_state="x"):
        pass


def bad_control_conflict(rn):
    from projectq.meta import Control
    from projectq.ops import X

    a, b = sorted(rn.s.q)[:2]
    with Control(rn.eng, [rn.s.q[a]], ctrl_state="1"):
        with Control(rn.eng, [rn.s.q[a]], ctrl_state="0"):
            X | rn.s.q[b]


def bad_loop_neg(rn):
    from projectq.meta import Loop

    with Loop(rn.eng, -1):
        pass


def bad_loop_type(rn):
    from projectq.meta import Loop

    with Loop(rn.eng, 2.5):
        pass


def bad_uncompute_in_control(rn):
    """A block opened between compute and uncompute is still open: Uncompute has no compute section."""
    from projectq.meta import Compute, Control, Uncompute
    from projectq.ops import X

    a, b = sorted(rn.s.q)[:2]
    with Compute(rn.eng):
        X | rn.s.q[b]
        X | rn.s.q[b]
    try:
        with Control(rn.eng, [rn.s.q[a]]):
            Uncompute(rn.eng)
    finally:
        # the user's clean-up: close the section
        Uncompute(rn.eng)


BAD = {k[4:]: v for k, v in list(globals().items()) if k.startswith("bad_")}
# bad uses which leave the state as it was
HARMLESS = ["uncompute", "custom", "dagger_leak", "loop_leak", "control_tuple", "control_state", "control_state2", "control_state3",
            "control_conflict", "loop_neg", "loop_type", "uncompute_in_control"]
# the inverse of these has no meaning; it is refused at the latest where it would be executed
DEFERRED = ["measure_dagger", "math_dagger", "measure_compute"]
TWO = ("control_conflict", "uncompute_in_control")


def gen_prog(rng, tier, gates, mc, depth, nq, flushes=0.06, math=True):
    """Programs made mostly of nested blocks."""
    g = P.Gen(rng, gates, max_qubits=nq, max_controls=mc, ifs=rng.random() < 0.3, gcs=False, neg=True, flushes=flushes,
              no_inv=("MathFn",), max_ops=rng.choice([4, 8, 14]) if tier == "quick" else rng.choice([6, 12, 24]))
    g.block_gates = [x for x in gates if x != "MathFn"]
    sl = g.new_slots(rng.randint(1, min(3, nq)))
    out = [{"op": "alloc", "q": sl, "reg": rng.randint(0, 1)}]
    g.live += sl
    for s in sl:
        if rng.random() < 0.6:
            out.append({"op": "g", "g": rng.choice(["H", "Ry"]), "p": [rng.uniform(-3, 3)], "t": [[s]]})
    for _ in range(rng.randint(1, g.max_ops)):
        if rng.random() < 0.55:
            b = g.block(g.live, rng.randint(1, depth), 0)
            if b:
                out.append(vary(rng, g, b))
        else:
            out += g.top_op(depth)
    return out, g


def vary(rng, g, b, top=True):
    """Other spellings; repeated controls; measurement between compute and uncompute."""
    if b["op"] == "control":
        b["syn"] = rng.randint(0, 3)
    for k in ("body", "compute", "action", "custom"):
        if b.get(k):
            b[k] = [vary(rng, g, o, False) if o["op"] in ("control", "dagger", "loop", "cu") else o for o in b[k]]
    if b["op"] == "control" and rng.random() < 0.1 and b["body"]:
        # the same qubits once more, with the same values
        b["body"] = [{"op": "control", "c": b["c"], "cs": b["cs"], "body": b["body"]}]
    if top and b["op"] == "cu" and b.get("custom") is None and rng.random() < 0.3:
        if not any(o["op"] in ("alloc", "free") for o in b["action"]):
            b["live"] = 1
            if rng.random() < 0.5:
                b["action"].append({"op": "flush"})
            used = P.slots_of({"op": "x", "body": b["compute"]})
            rest = [s for s in g.live if s not in used]
            if rest:
                q = rng.choice(rest)
                b["action"].append({"op": "measure", "q": [q]})
                if rng.random() < 0.4:
                    b["action"].append({"op": "if", "q": q, "neg": 0, "body": [{"op": "g", "g": "Z", "p": [], "t": [[q]]}]})
    return b
