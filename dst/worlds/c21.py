"""C21: drawings and their settings file on a disk that fails."""
import json
import os
import random
import tempfile

from .. import disk, env
from .. import prog as P
from ..core import Result, World

MARKS = [f"line width=0.{i}7pt" for i in range(1, 8)]


class C21(World):
    ID = "C21"
    TECH = ("deterministic simulation: sequences of drawings, settings changes and edits by the user on a simulated disk; every call (open, read, write, sync, "
            "close, rename, remove) can fail, be cut short, or be the last one before a crash or a power failure; model of the allowed file contents")
    NOTE = "Seeded search over operation sequences and fault positions; crash semantics: dead process (its buffers are lost) and power failure (unsynced data and directory changes are lost)."
    RULE = "one evaluation = one sequence of operations with its faults; distinct by event-log digest"
    DISTINCT = "distinct (operation, file before, fault, call, file after) tuples"
    QUICK = 16000
    THOROUGH = 600000
    REAL = ["projectq.backends._circuits._to_latex", "projectq.backends._circuits._drawer", "json, io buffering layers"]
    STUB = ["system calls on files of the scratch directory", "the user's editor", "a second process drawing in the middle of an operation"]
    ASSUME = ["a power failure never undoes what was synced, nor operations completed before the current one",
              "another process changes the file only by drawing"]
    HANG_S = 30

    def prepare(self):
        env.setup()

    # ---------------------------------------------------------------- scenarios
    def generate(self, seed, tier):
        rng = random.Random(seed)
        ops = []
        kinds = rng.choice([["io"], ["crash"], ["power"], ["io", "short"], ["io", "crash", "power", "short", "intr"], ["crash", "power"], ["intr", "io"]])
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            x = rng.random()
            if x < 0.5:
                op = {"op": "draw", "c": rng.randrange(3), "par": rng.getrandbits(1)}
            elif x < 0.72:
                op = {"op": "write", "s": rng.randrange(len(MARKS))}
            elif x < 0.83:
                ops.append({"op": "user", "s": rng.randrange(len(MARKS))})
                continue
            elif x < 0.87:
                ops.append({"op": "broken", "k": rng.randrange(5), "s": rng.randrange(len(MARKS)), "frac": round(rng.random(), 3)})
                continue
            elif x < 0.94:
                ops.append({"op": "delete"})
                continue
            else:
                ops.append({"op": "cd", "d": rng.randrange(2)})
                continue
            if rng.random() < 0.6:
                op["faults"] = disk.seeded_faults(rng, kinds)
            if rng.random() < 0.15:
                op["mid"] = [rng.randrange(9), rng.randrange(3)]
            ops.append(op)
        return {"ops": ops, "chunk": rng.choice([0, 0, 64, 300]), "rnd": rng.getrandbits(40)}

    # ---------------------------------------------------------------- helpers
    def settings(self, k):
        from projectq.backends._circuits import _to_latex

        s = _to_latex.get_default_settings()
        if k is not None:
            s["lines"]["style"] = MARKS[k]
            s["gates"]["HGate"]["width"] = 0.5 + k / 10
            s["gates"][f"Own{k}"] = {"width": 1.0 + k}
        return s

    def drawers(self):
        """Three circuits, recorded once."""
        from projectq import MainEngine
        from projectq.backends import CircuitDrawer
        from projectq.meta import Control
        from projectq.ops import CNOT, H, Measure, QFT, Rx, Swap

        out = []
        for c in range(3):
            d = CircuitDrawer()
            eng = MainEngine(d, [])
            q = eng.allocate_qureg(c + 2)
            H | q[0]
            CNOT | (q[0], q[1])
            if c:
                Swap | (q[1], q[2])
                with Control(eng, q[0]):
                    Rx(0.5) | q[2]
            if c == 2:
                QFT | q
                Measure | q[3]
            eng.flush()
            out.append((d, eng, q))
        return out

    def clean(self, c, par, text):
        """Drawing of a circuit with the settings file being `text`, no faults."""
        key = (c, par, text)
        if key not in self.cache:
            with tempfile.TemporaryDirectory(prefix="dst-clean-") as d:
                old = os.getcwd()
                os.chdir(d)
                try:
                    with open("settings.json", "w") as f:
                        f.write(text)
                    try:
                        self.cache[key] = self.d[c][0].get_latex(draw_gates_in_parallel=bool(par))
                    except Exception as e:  # noqa
                        self.cache[key] = e
                finally:
                    os.chdir(old)
        return self.cache[key]

    def read(self):
        try:
            with disk.real_open("settings.json") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def complete(self, text, s):
        """Is the file a complete copy of these settings?"""
        try:
            return json.loads(text) == json.loads(json.dumps(s))
        except (TypeError, ValueError):
            return False

    # ---------------------------------------------------------------- execution
    def execute(self, sc):
        r = Result()
        env.quiesce()
        self.d = self.drawers()
        self.cache = {}
        old = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="dst-disk-") as root:
            root = os.path.realpath(root)
            for i in range(2):
                os.mkdir(os.path.join(root, f"d{i}"))
            cwd = os.path.join(root, "d0")
            os.chdir(cwd)
            try:
                rng = disk.dice(sc["rnd"])
                for k, op in enumerate(sc["ops"]):
                    if not self.step(sc, k, op, root, rng, r):
                        return r
                for i in range(2):
                    os.chdir(os.path.join(root, f"d{i}"))
                    # no more faults: a drawing must come out unless the user's own file is unreadable
                    if not self.step(sc, 99, {"op": "draw", "c": 1, "par": 1}, root, rng, r):
                        return r
            finally:
                os.chdir(old)
                for d, eng, q in self.d:
                    eng.active_qubits.clear()
                self.d = None
        return r

    def step(self, sc, k, op, root, rng, r):
        kind = op["op"]
        before = self.read()
        if kind == "cd":
            os.chdir(os.path.join(root, f"d{op['d']}"))
            r.log(k, "cd", op["d"])
            return True
        if kind == "delete":
            if before is not None:
                disk.real_remove("settings.json")
            r.log(k, "delete")
            return True
        if kind in ("user", "broken"):
            text = json.dumps(self.settings(op["s"]), indent=1)
            if kind == "broken":
                text = [text[: int(op["frac"] * (len(text) - 2))], "", "{", text.replace(":", "=", 1), "# my settings\n" + text][op["k"]]
            with disk.real_open("settings.json", "w") as f:
                f.write(text)
            r.log(k, kind, op["s"], len(text))
            return True
        dsk = disk.Disk(root, op.get("faults", []), random.Random(rng.getrandbits(40)))
        dsk.chunk = sc["chunk"]
        problem = []
        if op.get("mid"):
            at, c = op["mid"]

            def hook(i):
                if i != at:
                    return
                dsk.hook = None
                pid = os.getpid
                faults, sticky, dsk.faults, dsk.sticky = dsk.faults, dsk.sticky, {}, None
                n = dsk.n
                os.getpid = lambda: 1 + pid()
                now = self.read()
                try:
                    tex = self.d[c][0].get_latex(draw_gates_in_parallel=True)
                    seen = self.read()
                    if tex != self.clean(c, 1, now if now is not None else seen):
                        problem.append(("concurrent drawing", f"a drawing by another process during {kind} (call {i}) does not follow its settings"))
                except Exception as e:  # noqa
                    if before is None or not isinstance(self.clean(c, 1, before), Exception):
                        problem.append(("concurrent drawing", f"a drawing by another process during {kind} (call {i}): {type(e).__name__}: {e}"))
                finally:
                    os.getpid = pid
                    dsk.faults, dsk.sticky, dsk.n = faults, sticky, n
                r.hit("fault.concurrent_drawing")

            dsk.hook = hook
        out = err = None
        with disk.mounted(dsk):
            try:
                if kind == "draw":
                    out = self.d[op["c"]][0].get_latex(draw_gates_in_parallel=bool(op["par"]))
                else:
                    from projectq.backends._circuits import _to_latex

                    out = _to_latex.write_settings(self.settings(op["s"]))
                dsk.end()
            except (Exception, KeyboardInterrupt, disk.Crash) as e:  # noqa
                err = e
                e.__traceback__ = None
        env.quiesce()
        for f in dsk.fired:
            r.hit(f"fault.{f[0]}.{f[1]}")
        hard = [f for f in dsk.fired if f[0] != "short"]
        gone = any(f[0] in ("crash", "power") for f in dsk.fired)
        after = self.read()
        name = f"{kind} with {'no settings file' if before is None else 'a settings file'}, faults {dsk.fired}"
        r.log(k, kind, dsk.ops, dsk.fired, type(err).__name__, out is not None, None if after is None else len(after))
        r.hit("op." + kind)
        r.cover.add(f"{kind}:{before is None}:{dsk.fired[:2]}:{type(err).__name__}:{after is None}:{after == before}")
        if problem:
            r.violate(*problem[0])
            return False
        if err is not None and not hard and not (kind == "draw" and before is not None and isinstance(self.clean(op["c"], op["par"], before), Exception)):
            r.violate("error", f"{name}: {type(err).__name__}: {err}")
            return False
        # ---- the file
        dflt = self.settings(None)
        if kind == "draw":
            if before is not None:
                if after != before:
                    r.violate("settings changed", f"{name}: the existing settings file was {'removed' if after is None else 'changed'}")
                    return False
            elif after is not None and not self.complete(after, dflt):
                r.violate("half-written", f"{name}: settings.json is neither absent nor complete: {len(after)} characters {after[-30:]!r}")
                return False
            elif after is None and out is not None and not gone:
                r.violate("not written", f"{name}: the drawing succeeded, the defaults were not written")
                return False
        else:
            s = self.settings(op["s"])
            new = after is not None and self.complete(after, s)
            # defaults may also come from the drawing of another process
            other = op.get("mid") and before is None and after is not None and self.complete(after, dflt)
            if not new and after != before and not other:
                r.violate("half-written", f"{name}: settings.json holds neither the previous nor the new settings: {None if after is None else after[-30:]!r}")
                return False
            if out is not None and not gone and not new:
                r.violate("lost write", f"{name}: write_settings returned, the file is not the new one")
                return False
        # ---- the drawing
        if kind == "draw" and out is not None:
            text = before if before is not None else (after if after is not None else json.dumps(dflt))
            ref = self.clean(op["c"], op["par"], text)
            if isinstance(ref, Exception):
                r.violate("settings dropped", f"{name}: a drawing came out although the settings file cannot be used ({type(ref).__name__})")
                return False
            if out != ref:
                r.violate("drawing", f"{name}: the drawing does not follow the settings file")
                return False
            style = json.loads(text)["lines"]["style"]
            if f"edgestyle}}=[{style}]" not in out.replace("\\tikzset{", "").replace(" ", "").replace("\n", "") and style.replace(" ", "") not in out.replace(" ", ""):
                r.violate("drawing", f"{name}: the line style {style!r} of the settings is not used")
                return False
            r.hit("drawings")
        if err is not None and gone:
            r.hit("crashes")
        return True

    def shrink_paths(self, sc):
        return ["ops"]

    def simplify(self, sc):
        for i, op in enumerate(sc["ops"]):
            for k in ("mid", "faults"):
                if op.get(k):
                    yield dict(sc, ops=sc["ops"][:i] + [{x: v for x, v in op.items() if x != k}] + sc["ops"][i + 1 :])
        if sc["chunk"]:
            yield dict(sc, chunk=0)


WORLD = C21
