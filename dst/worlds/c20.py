"""C20: counters, printers and drawers anywhere in the chain and as its end."""
import contextlib
import gc
import io
import random

import numpy as np

from .. import chain, compiled, env, observe
from .. import prog as P
from ..core import Result, World


class Watching(P.Runner):
    """Runner which looks at the observers after every flush."""

    look = None

    def do_flush(self, op, top):
        super().do_flush(op, top)
        if self.look:
            self.look()


class C20(World):
    ID = "C20"
    TECH = ("deterministic simulation: seeded programs through seeded chains with observers between two taps at seeded positions or as last engine, "
            "seeded answers at the keyboard; reports recomputed from the tapped stream after every flush and at the end")
    NOTE = ("Seeded search. Streams in front of and behind every observer and at the back-end with and without the observers must be equal; counts, "
            "width, depth, printed lines, drawn items and registered results are recomputed from the stream.")
    RULE = "one evaluation = one program on one chain with its observers; distinct by event-log digest"
    DISTINCT = "distinct (observer, role, pipeline kind, gate, controls) tuples reported"
    QUICK = 4000
    THOROUGH = 90000
    REAL = ["projectq.backends._resource", "projectq.backends._printer", "projectq.backends._circuits", "projectq.cengines", "projectq.setups",
            "projectq.backends._sim (C++)"]
    STUB = ["keyboard (seeded answers)", "standard output (captured)", "taps and re-batching links"]
    ASSUME = ["drawings do not distinguish controls on |0> from controls on |1>, and show no dot for a control inside the box of a multi-qubit gate",
              "Matplotlib drawings refuse multi-qubit gates on wires that are not adjacent (documented)"]
    HANG_S = 60

    def prepare(self):
        env.setup()
        import matplotlib

        matplotlib.use("Agg")

    # ---------------------------------------------------------------- scenarios
    def observer(self, rng, last, mpl):
        k = rng.choice(["count", "count", "print", "draw", "draw"] + (["mpl"] if mpl else []))
        o = {"k": k}
        if k == "print":
            o["inplace"] = int(rng.random() < 0.3)
        if k == "draw":
            o["ordered"] = rng.getrandbits(1)
            o["par"] = rng.getrandbits(1)
            if rng.random() < 0.3:
                o["loc"] = rng.sample(range(24), 24)
            if rng.random() < 0.3:
                o["set"] = {"shadow": rng.getrandbits(1), "dbl": rng.getrandbits(1), "init": rng.getrandbits(1), "zero": rng.getrandbits(1),
                            "id": rng.getrandbits(1), "cshadow": rng.getrandbits(1)}
        if k == "mpl":
            o["order"] = rng.getrandbits(20) if rng.random() < 0.5 else None
        if last and k != "count":
            o["ask"] = int(rng.random() < 0.5)
            o["dflt"] = rng.choice([0, 1, False, True])
        return o

    def generate(self, seed, tier):
        rng = random.Random(seed)
        last = rng.random() < 0.4
        mpl = rng.random() < 0.04
        pipe = compiled.gen_custom(rng) if rng.random() < 0.5 else compiled.gen_pipe(rng)
        over = {"max_ops": rng.choice([4, 8, 15])} if tier == "quick" else {}
        if mpl:
            over["max_ops"] = 6
        for _ in range(20):
            s = compiled.gen_scenario(rng.getrandbits(60), tier, pipe, **over)
            # thousands of commands tell no more than hundreds
            if not any(t in str(s["prog"]) for t in ("ModN", "DivideQuantum", "MultiplyQuantum", "QPE")):
                break
        n = rng.choice([1, 1, 2, 3])
        obs = [[rng.randrange(14), self.observer(rng, False, mpl)] for _ in range(0 if last and rng.random() < 0.6 else n)]
        if sum(o["k"] == "print" for _, o in obs) > 1:
            obs = obs[:1]
        end = None
        if last:
            end = self.observer(rng, True, mpl)
            if end["k"] == "print":
                obs = [x for x in obs if x[1]["k"] != "print"]
        return {"pipe": pipe, "prog": s["prog"], "links": s["links"], "sim": s["sim"], "fusion": s["fusion"], "gc": s["gc"], "obs": obs, "end": end,
                "keys": rng.getrandbits(30), "mark": rng.getrandbits(20) if rng.random() < 0.3 else None}

    # ---------------------------------------------------------------- execution
    def chain_run(self, sc, obs, r, with_obs=True):
        """One run; returns a record."""
        from projectq import MainEngine
        from projectq.backends import Simulator

        env.quiesce()
        random.seed(sc["sim"] ^ 0x5A5A)
        np.random.seed(sc["sim"] & 0x7FFFFFFF)
        b = chain.build(sc["pipe"])
        engines = compiled.insert_links(b.engines, sc.get("links", []), b)
        if sc.get("mark") is not None:
            engines = [chain.marker(sc["mark"])] + engines
        groups = []
        if with_obs:
            for pos, o in sorted(sc["obs"], key=lambda e: -(e[0] % (len(engines) + 1))):
                g = (o, observe.Tap(), observe.make(o), observe.Tap())
                groups.append(g)
                p = pos % (len(engines) + 1)
                engines[p:p] = list(g[1:])
        final = observe.Tap()
        engines = engines + [final]
        end = None
        if sc["end"]:
            end = observe.make(sc["end"])
            groups.append((sc["end"], final, end, None))
        back = end if end is not None else Simulator(gate_fusion=bool(sc["fusion"]), rnd_seed=sc["sim"])
        typist = observe.Typist(sc["keys"])
        out = io.StringIO()
        rec = {"final": final, "groups": groups, "error": None, "typist": typist, "problem": None}
        eng = None
        with observe.keyboard(typist):
            eng = MainEngine(back, engines)
            rn = rec["runner"] = Watching(eng, collect_gc=bool(sc.get("gc", 1)))
            if with_obs:
                rn.look = lambda: rec.__setitem__("problem", rec["problem"] or self.glance(groups))
            try:
                with contextlib.redirect_stdout(out):
                    rn.run(sc["prog"])
                    eng.flush()
            except Exception as e:  # noqa
                rec["error"] = e
            rec["text"] = out.getvalue()
            try:
                if with_obs:
                    rec["problem"] = rec["problem"] or self.judge(sc, rec, r, eng)
            finally:
                compiled.silence(eng)
                rn.s.q.clear()
                rec["stream"] = [e[0] for e in final.log]
                rec["errtext"] = rec["error"] and f"{type(rec['error']).__name__}: {rec['error']}"
                rec["outcomes"] = {k: list(v) for k, v in rn.outcomes.items()}
                rec["error"] = None
                gc.collect()
        return rec

    def glance(self, groups):
        """After a flush: everything has passed, the counters are up to date."""
        for o, a, ob, z in groups:
            if a.raised is not None:
                continue
            if z is not None and [e[0] for e in a.log] != [e[0] for e in z.log]:
                return ("forwarding", self.forward(o, a, z))
            if o["k"] == "count":
                p = observe.judge_counter(ob, a.log, "after a flush")
                if p:
                    return ("count", p)
        return None

    def forward(self, o, a, z):
        x, y = [e[0] for e in a.log], [e[0] for e in z.log]
        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        return f"{o['k']}: received {x[i:i + 1]}, sent {y[i:i + 1]} (command {i} of {len(x)}/{len(y)})"

    def judge(self, sc, rec, r, eng):
        for o, a, ob, z in rec["groups"]:
            if z is not None:
                if a.raised is not None and (z.raised is None or z.raised > a.raised):
                    return ("error", f"{o['k']}: {type(rec['error']).__name__}: {rec['error']} while {a.log[a.raised - 1][0]} passed")
                if a.raised is not None:
                    # an illegal program failed further down; what happens afterwards is not this engine's business
                    del a.log[a.raised:], z.log[a.raised:]
                if [e[0] for e in a.log] != [e[0] for e in z.log] or any(p[1] != q[1] for p, q in zip(a.log, z.log) if p[1] is not q[1]):
                    return ("forwarding", self.forward(o, a, z))
                if a.raised is not None:
                    continue
            elif a.raised is not None:
                return ("error", f"{o['k']} as last engine: {type(rec['error']).__name__}: {rec['error']}")
            role = "last" if z is None else "mid"
            for s, g, _ in observe.real(a.log):
                if len(s[0]) < 14:
                    r.cover.add(f"{o['k']}:{role}:{sc['pipe']['kind']}:{s[0].split('(')[0]}:{len(s[2])}")
            r.hit(f"observer.{o['k']}.{role}")
            if o["k"] == "count" and a.raised is None:
                p = observe.judge_counter(ob, a.log, "at the end")
                if p:
                    return ("count", p)
            elif o["k"] == "print":
                want = observe.printed(a.log, o.get("inplace") and z is not None)
                if o.get("inplace") and z is None:
                    # measurements of a last engine go on lines of their own
                    want = "".join(t + "\n" if s[0] == "Measure" else f"\x00\r\t\x1b[K{t}\r" for s, _, t in observe.real(a.log))
                # an illegal program ends in an error (other engines then report on their own state)
                if rec["text"] != want and rec["error"] is None:
                    return ("printed", f"printed {first_diff(rec['text'], want)}")
            elif o["k"] == "draw" and len(a.log) <= 250:
                p = self.latex(o, ob, a.log, r)
                if p:
                    return ("drawn", p)
            elif o["k"] == "mpl" and len(a.log) <= 120:
                p = self.figure(o, ob, a.log, r)
                if p:
                    return ("drawn", p)
        if sc["end"]:
            return self.results(sc, rec, r, eng)
        return None

    def results(self, sc, rec, r, eng):
        """Every measured qubit has its result under its own identity."""
        answers = list(rec["typist"].answers)
        if rec["typist"].invalid:
            r.hit("fault.invalid_input", rec["typist"].invalid)
        exp = {}
        for s, gate, _ in observe.real(rec["final"].log):
            if s[0] != "Measure":
                continue
            lid = next((int(t) for t in s[4] if t.lstrip("-").isdigit()), None)
            for q in s[1]:
                for i in q:
                    if sc["end"].get("ask"):
                        if not answers:
                            return ("results", f"{i} was measured, nobody was asked")
                        v = answers.pop(0)
                    else:
                        v = int(sc["end"].get("dflt", 0))
                    exp.setdefault(i if lid is None else lid, []).append(v)
        if answers:
            return ("results", f"{len(answers)} answers were asked for without a measurement")
        got = {k: list(v) for k, v in rec["runner"].outcomes.items()}
        if got != exp:
            bad = sorted(k for k in set(got) | set(exp) if got.get(k) != exp.get(k))[:3]
            return ("results", f"registered {({k: got.get(k) for k in bad})}, expected {({k: exp.get(k) for k in bad})} (by qubit)")
        for s, q in rec["runner"].s.q.items():
            if q.id in exp and int(q) != exp[q.id][-1]:
                return ("results", f"qubit {q.id} reads {int(q)}, its result is {exp[q.id][-1]}")
        r.hit("measured", len(exp))
        return None

    def latex(self, o, ob, log, r):
        loc = o.get("loc")
        st = None
        if o.get("set"):
            from projectq.backends._circuits._to_latex import get_default_settings

            st = get_default_settings()
            z = o["set"]
            st["gate_shadow"] = bool(z["shadow"])
            st["control"]["shadow"] = bool(z["cshadow"])
            st["lines"]["double_classical"] = bool(z["dbl"])
            st["lines"]["init_quantum"] = bool(z["init"])
            st["gates"]["AllocateQubitGate"]["draw_id"] = bool(z["id"])
            st["gates"]["AllocateQubitGate"]["allocate_at_zero"] = bool(z["zero"])
        with observe.scratch(st):
            try:
                tex = ob.get_latex(ordered=bool(o["ordered"]), draw_gates_in_parallel=bool(o["par"]))
                again = ob.get_latex(ordered=bool(o["ordered"]), draw_gates_in_parallel=bool(o["par"]))
            except RecursionError:
                raise
            except Exception as e:  # noqa
                return f"get_latex: {type(e).__name__}: {e}"
        if again != tex:
            return "two drawings of the same circuit differ"
        f = (lambda i: loc[i] if i < len(loc) else i) if loc else None
        return observe.judge_tikz(tex, log, f, monotone=not (o.get("set") or {}).get("zero"), ordered=o["ordered"])

    def figure(self, o, ob, log, r):
        import matplotlib.pyplot as plt

        ids = []
        for s, g, _ in observe.real(log):
            if type(g).__name__ == "AllocateQubitGate" and s[1][0][0] not in ids:
                ids.append(s[1][0][0])
        if not ids:
            return None
        if o["order"] is not None:
            perm = random.Random(o["order"]).sample(range(len(ids)), len(ids))
            pos = dict(zip(ids, perm))
            kw = {"drawing_order": pos}
        else:
            # the first qubit on top
            srt = sorted(ids)
            pos = {i: len(srt) - 1 - k for k, i in enumerate(srt)}
            kw = {}
        apart = any(len(t) > 1 and not s[0].startswith(("Swap", "Allocate")) and sorted(t) != list(range(min(t), max(t) + 1))
                    for s, g, _ in observe.real(log) for t in [[pos[i] for q in s[1] for i in q]])
        try:
            fig, axes = ob.draw(**kw)
        except RuntimeError as e:
            if apart and "non-neighbouring" in str(e):
                r.hit("probe.not_adjacent")
                plt.close("all")
                return None
            return f"draw: {type(e).__name__}: {e}"
        except Exception as e:  # noqa
            plt.close("all")
            return f"draw: {type(e).__name__}: {e}"
        try:
            if apart:
                return "a multi-qubit gate on wires apart was drawn"
            return observe.judge_figure(axes, log, pos)
        finally:
            plt.close("all")

    def execute(self, sc):
        r = Result()
        rec = self.chain_run(sc, sc["obs"], r)
        r.hit("commands", len(rec["stream"]))
        r.hit("pipe." + sc["pipe"]["kind"])
        for c in rec["stream"]:
            r.log(c)
        r.log(sorted(rec["outcomes"].items()), rec["text"], rec["errtext"])
        if rec["problem"]:
            r.violate(*rec["problem"])
            return r
        if sc["obs"]:
            ref = self.chain_run(sc, [], r, with_obs=False)
            if rec["errtext"] and ref["errtext"]:
                pass  # an illegal program; the engines' own state after the first error is undefined
            elif rec["errtext"] != ref["errtext"]:
                r.violate("error", f"with observers: {rec['errtext']}; without: {ref['errtext']}")
            elif rec["stream"] != ref["stream"]:
                i = next((i for i, (p, q) in enumerate(zip(rec["stream"], ref["stream"])) if p != q), min(len(rec["stream"]), len(ref["stream"])))
                r.violate("interference", f"with {[o['k'] for _, o in sc['obs']]} in the chain, command {i} at the back-end is "
                          f"{rec['stream'][i:i + 1]}, without it is {ref['stream'][i:i + 1]}")
            elif rec["outcomes"] != ref["outcomes"]:
                r.violate("interference", f"outcomes {rec['outcomes']} with observers, {ref['outcomes']} without")
        if rec["errtext"]:
            r.nontrivial = False
        return r

    def shrink_paths(self, sc):
        return ["prog", "obs"]

    def simplify(self, sc):
        if sc["links"]:
            yield dict(sc, links=[])
        if sc.get("mark") is not None:
            yield dict(sc, mark=None)
        if sc["pipe"]["kind"] == "custom":
            st = sc["pipe"]["stages"]
            for i in range(len(st)):
                if st[i]["stage"] not in ("rep", "filter"):
                    yield dict(sc, pipe=dict(sc["pipe"], stages=st[:i] + st[i + 1 :]))
        for i, (p, o) in enumerate(sc["obs"]):
            for k in ("loc", "set"):
                if o.get(k):
                    yield dict(sc, obs=sc["obs"][:i] + [[p, {x: v for x, v in o.items() if x != k}]] + sc["obs"][i + 1 :])
        if sc["end"]:
            for k in ("loc", "set"):
                if sc["end"].get(k):
                    yield dict(sc, end={x: v for x, v in sc["end"].items() if x != k})


def first_diff(a, b):
    i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return f"{a[max(0, i - 20):i + 60]!r}, expected {b[max(0, i - 20):i + 60]!r}"


WORLD = C20
