"""C02: buffering stages deliver everything, once, in order, at the flush."""
import random

from .. import chain, env, stream
from .. import prog as P
from ..core import Result, World

ONE = ["H", "X", "Y", "Z", "S", "Tdag", "Rx", "Ry", "Rz", "R", "Ph", "Mat1"]


def gen_stages(rng):
    """(stages, gates, control limit, qubits)"""
    st = []
    mapper = None

    def simple():
        r = rng.random()
        if r < 0.55:
            st.append({"stage": "opt", "m": rng.choice([1, 2, 3, 4, 5, 7, 10, 20])})
        elif r < 0.7:
            st.append({"stage": "tags"})
        elif r < 0.75:
            st.append({"stage": "mod"})
        elif r < 0.83:
            st.append({"stage": "mark", "seed": rng.getrandbits(20)})
        else:
            st.append({"stage": rng.choice(["count", "compare", "draw", "print"])})

    for _ in range(rng.randint(0, 3)):
        simple()
    gates = ONE + ["Swap", "SqrtSwap", "Rzz", "MatN", "QFTlike"]
    gates.remove("QFTlike")
    mc, nq = 2, 5
    r = rng.random()
    edges = None
    if r < 0.25:
        n = rng.randint(2, 6)
        mapper = {"stage": "linear", "n": n, "cyclic": bool(rng.getrandbits(1)), "storage": rng.choice([1, 2, 3, 5, 10, 1000])}
        edges = chain.line_edges(n, mapper["cyclic"])[0]
        nq = n
    elif r < 0.5:
        a, b = rng.choice([(1, 3), (2, 2), (2, 3), (3, 2), (1, 5)])
        perm = None
        if rng.random() < 0.5:
            ids = rng.sample(range(a * b), a * b)
            perm = [[i, ids[i]] for i in range(a * b)]
        mapper = {"stage": "grid", "rows": a, "cols": b, "perm": perm, "storage": rng.choice([1, 2, 3, 5, 10, 1000])}
        edges = chain.grid_edges(a, b)[0]
        if perm:
            mp = dict(map(tuple, perm))
            edges = {frozenset(mp[x] for x in e) for e in edges}
        nq = a * b
    elif r < 0.65:
        mapper = {"stage": "manual", "perm": rng.sample(range(60), 50)}
    flip = False
    if mapper:
        st.append(mapper)
        if edges is not None:
            gates = ONE + ["Swap"]
            mc = 1
    for _ in range(rng.randint(0, 2)):
        simple()
    if edges is not None and rng.random() < 0.4:
        flip = True
        d = []
        for e in sorted(sorted(x) for x in edges):
            d.append(e if rng.random() < 0.5 else [e[1], e[0]])
            if rng.random() < 0.2:
                d.append([d[-1][1], d[-1][0]])
        st.append({"stage": "flip", "edges": d})
        for _ in range(rng.randint(0, 2)):
            simple()
    if not st:
        simple()
    return st, gates, mc, nq, flip


class C02(World):
    ID = "C02"
    TECH = "deterministic simulation: seeded chains, window sizes, hand-over batching and flush points; exactly-once and order over the delivered history, state against a reference at every flush"
    NOTE = ("Seeded search. Every issued command carries an identity; at every flush the identities at the back-end must be all issued "
            "ones, once each, in program order per qubit; independently, state, live qubits and readable results are compared with "
            "the reference at every flush.")
    RULE = ("one evaluation = one random program with flushes on one random chain of buffering stages with seeded re-batching links; "
            "non-trivial = legal program; distinct by event-log digest")
    DISTINCT = "distinct (stage kinds, gate kind) pairs"
    QUICK = 8000
    THOROUGH = 80000
    REAL = ["projectq.cengines (optimiser, mappers, swap/CNOT flipper, tag remover, modifier, main engine)", "projectq.backends (simulator, counter, printer, drawer)"]
    STUB = ["re-batching links between stages", "identity tagger and collector", "reference state vector (oracle)"]
    ASSUME = ["an engine between two stages keeps its duty to hand everything on when a flush passes"]

    def prepare(self):
        env.setup()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        st, gates, mc, nq, flip = gen_stages(rng)
        cg = [g for g in gates if g not in ("Swap",)] if mc == 1 else gates
        g = P.Gen(rng, gates, max_qubits=min(nq, rng.choice([1, 2, 3, 4, 5])), max_controls=rng.choice([1, mc]), ctrl_gates=cg,
                  ifs=rng.random() < 0.5, gcs=False, neg=True, flushes=rng.choice([0.03, 0.1, 0.25]), max_total=45 if any(s["stage"] == "manual" for s in st) else None,
                  blocks=rng.choice([(), ("control", "dagger", "loop", "cu")]) if mc > 1 else rng.choice([(), ("dagger", "loop")]),
                  max_ops=rng.choice([6, 15, 30]) if tier == "quick" else rng.choice([10, 30, 60]))
        ops = g.generate() + [{"op": "flush"}]
        return {"stages": st, "prog": ops, "links": stream.gen_links(rng, len(st)), "sim": rng.getrandbits(30), "fusion": rng.getrandbits(1),
                "tagged": int(rng.random() < 0.7), "flip": int(flip)}

    def execute(self, sc):
        r = Result()
        eng, rn, b, pr, (ti, to) = stream.start(sc, r, sc["stages"], tagged=bool(sc["tagged"]))
        state = {"bad": None}

        def on_flush(rn, snap):
            if ti is not None and state["bad"] is None:
                state["bad"] = self.delivered(ti, to, sc)

        rn.on_flush = on_flush
        try:
            try:
                rn.run_top(sc["prog"])
            except Exception as e:  # noqa
                r.violate("error", f"{type(e).__name__}: {e} (stages {sc['stages']})")
                # an illegal program (e.g. release of a qubit in superposition) may raise
                x = P.Expander(P.outcomes_by_slot(rn))
                try:
                    x.run(sc["prog"][: rn.index + 1])
                except P.Exhausted:
                    pass
                except P.Invalid:
                    r.violations.clear()
                    r.nontrivial = False
                return r
            x = stream.judge_snaps(r, rn, sc["prog"])
            if x is None:
                return r
            if state["bad"] and not r.violations:
                r.violate(*state["bad"])
            t = stream.compiled.topology_violation(b, pr.log)
            if t and not r.violations:
                r.violate("topology", t)
        finally:
            stream.finish(eng, rn, r, pr, sc)
        kinds = "+".join(s["stage"] for s in sc["stages"])
        r.cover.update(f"{kinds}:{c[0].split('(')[0]}/{len(c[2])}" for c in pr.log)
        if ti is not None:
            r.hit("probe.identities", len(ti.issued))
        return r

    def delivered(self, ti, to, sc):
        """Exactly once, in order per qubit; None or a violation."""
        first, last, count = {}, {}, {}
        for pos, ns in enumerate(to.seen):
            for n in ns:
                first.setdefault(n, pos)
                last[n] = pos
                count[n] = count.get(n, 0) + 1
        ident = [g for g in ti.issued]
        # grid and linear mappers issue allocations and releases of their own
        own = any(s["stage"] in ("linear", "grid") for s in sc["stages"])
        missing = [(n, g, ids) for n, g, ids in ident if n not in first and not droppable(g) and not (own and "llocate" in g)]
        if missing:
            return "not delivered", f"after a flush, {len(missing)} issued commands have not reached the back-end; first: {missing[0]}"
        if not sc["flip"]:
            dup = [n for n, c in count.items() if c > 1]
            if dup:
                return "delivered twice", f"command {ti.issued[dup[0]]} reached the back-end {count[dup[0]]} times"
        kinds = [s["stage"] for s in sc["stages"]]
        if sc["flip"] and "flip" in kinds and "opt" in kinds[kinds.index("flip") :]:
            # one command became several single-qubit ones, which a later stage may send independently
            return None
        per = {}
        for n, g, ids in ti.issued:
            if n not in first:
                continue
            for q in ids:
                if q in per and last[per[q]] > first[n]:
                    return "order", f"commands {ti.issued[per[q]]} and {ti.issued[n]} share qubit {q} and arrived in the wrong order"
                per[q] = n
        return None

    def shrink_paths(self, sc):
        return ["prog"]

    def simplify(self, sc):
        for i in range(len(sc["links"])):
            yield dict(sc, links=sc["links"][:i] + sc["links"][i + 1 :])
        for i in range(len(sc["stages"])):
            if sc["stages"][i]["stage"] not in ("linear", "grid"):
                yield dict(sc, stages=sc["stages"][:i] + sc["stages"][i + 1 :])


def droppable(name):
    """Gates which may be equal to the identity (rotation by a multiple of the period)."""
    return name.startswith(("Rx(", "Ry(", "Rz(", "R(", "Ph(", "Rzz("))


WORLD = C02
