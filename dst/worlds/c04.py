"""C04: qubit mappers over long allocation/use/release/flush histories."""
import math
import random

import numpy as np

from .. import chain, env, stream
from .. import prog as P
from .. import ref as R
from ..core import Result, World

ONE = ["H", "X", "Y", "Z", "S", "Tdag", "Rx", "Ry", "Rz", "R", "Mat1"]


class C04(World):
    ID = "C04"
    TECH = "deterministic simulation: seeded allocation/use/release/measure/flush histories on every mapper, sizes and storage limits; topology and occupancy invariants on the mapped stream, state and queries by logical qubit against a reference at every flush"
    NOTE = ("Seeded search. Every command leaving the mapper is checked against the device graph and the set of occupied positions; at every "
            "flush the reported mapping is used to read the real simulator's state, which must be the reference's.")
    RULE = ("one evaluation = one history on one mapper configuration with seeded re-batching; non-trivial = legal history that fits the "
            "device; distinct by event-log digest")
    DISTINCT = "distinct (mapper, size, positions) of two-qubit commands"
    QUICK = 8000
    THOROUGH = 120000
    REAL = ["projectq.cengines mappers and SwapAndCNOTFlipper", "projectq.backends._ionq._ionq_mapper", "projectq.backends._sim"]
    STUB = ["re-batching links", "reference state vector (oracle)"]
    ASSUME = ["the five-qubit mapper is run once per circuit, as it documents", "programs that need more positions than the device has may be rejected"]

    def prepare(self):
        env.setup()

    def generate(self, seed, tier):
        rng = random.Random(seed)
        r = rng.random()
        edges = None
        gates, mc = ONE + ["Swap"], 1
        st = []
        kw = {}
        if r < 0.34:
            n = rng.choice([1, 2, 3, 4, 5, 6, 7])
            m = {"stage": "linear", "n": n, "cyclic": bool(rng.getrandbits(1)), "storage": rng.choice([1, 2, 3, 4, 6, 10, 30, 1000])}
            edges = chain.line_edges(n, m["cyclic"])[0]
            nq = n
        elif r < 0.72:
            a, b = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3), (2, 4)])
            perm = None
            if rng.random() < 0.5:
                ids = rng.sample(range(a * b + rng.choice([0, 0, 5])), a * b)
                perm = [[i, ids[i]] for i in range(a * b)]
            m = {"stage": "grid", "rows": a, "cols": b, "perm": perm, "storage": rng.choice([1, 2, 3, 4, 6, 10, 30, 1000]),
                 "opt": rng.choice([None, None, "random"])}
            edges = chain.grid_edges(a, b)[0]
            if perm:
                mp = dict(map(tuple, perm))
                edges = {frozenset(mp[x] for x in e) for e in edges}
            nq = a * b
        elif r < 0.82:
            m = {"stage": "manual", "perm": rng.sample(range(60), 50)}
            nq = 5
            gates = ONE + ["Swap", "MatN", "Rzz"]
            mc = 2
            kw["max_total"] = 45
        elif r < 0.92:
            nq = rng.randint(1, 6)
            m = {"stage": "bounded", "n": nq}
            gates = ONE + ["Swap", "MatN", "Rzz"]
            mc = 2
        else:
            m = {"stage": "ibm5", "edges": [list(e) for e in rng.choice(list(chain.IBM_MAPS.values()))]}
            nq = rng.choice([2, 3, 4, 5])
            gates = ["X"]
            kw.update(max_total=nq, flushes=0, frees=False, ifs=False, measures=True)
        if rng.random() < 0.3:
            st.append({"stage": "opt", "m": rng.choice([2, 5, 10])})
        st.append(m)
        if rng.random() < 0.3:
            st.append({"stage": "opt", "m": rng.choice([2, 5, 10])})
        if edges is not None and rng.random() < 0.35:
            d = []
            for e in sorted(sorted(x) for x in edges):
                d.append(e if rng.random() < 0.5 else [e[1], e[0]])
                if rng.random() < 0.2:
                    d.append([d[-1][1], d[-1][0]])
            st.append({"stage": "flip", "edges": d})
        kw.setdefault("flushes", rng.choice([0.02, 0.1, 0.25]))
        kw.setdefault("ifs", rng.random() < 0.3)
        cap = max(1, min(nq, rng.choice([nq, nq, nq - 1, 4])))
        if m["stage"] == "grid" and cap < nq and rng.random() < 0.5:
            cap = nq
        cap = min(cap, 7)
        g = P.Gen(rng, gates, max_qubits=cap, max_controls=mc if m["stage"] != "ibm5" else 1,
                  ctrl_gates=[x for x in gates if x not in ("Swap", "MatN", "Rzz")] if mc == 1 else gates, gcs=False,
                  neg=m["stage"] != "ibm5", blocks=(), max_ops=rng.choice([8, 20, 40] if tier == "quick" else [15, 40, 80]), **kw)
        if m["stage"] == "ibm5":
            ops = self.ibm5_prog(rng, g, nq, m)
        else:
            ops = g.generate()
            if rng.random() < 0.5:
                # churn: allocate up to the limit, entangle, release, allocate again
                ops += self.churn(rng, g, cap, gates)
        ops.append({"op": "flush"})
        return {"stages": st, "prog": ops, "links": stream.gen_links(rng, len(st)), "sim": rng.getrandbits(30), "fusion": rng.getrandbits(1),
                "queries": rng.getrandbits(30)}

    def ibm5_prog(self, rng, g, nq, m):
        """CNOT circuit that embeds into the device without swaps."""
        phys = rng.sample(range(5), nq)
        inv = {p: i for i, p in enumerate(phys)}
        sl = g.new_slots(nq)
        g.live += sl
        ops = [{"op": "alloc", "q": sl, "reg": 1}]
        ed = [(inv[a], inv[b]) for a, b in m["edges"] if a in inv and b in inv]
        for _ in range(rng.randint(2, 14)):
            if ed and rng.random() < 0.6:
                a, b = rng.choice(ed)
                ops.append({"op": "g", "g": "X", "p": [], "t": [[sl[b]]], "c": [sl[a]], "cs": "1", "syn": rng.randint(0, 3)})
            else:
                ops.append({"op": "g", "g": "Mat1", "p": [rng.uniform(-3, 3) for _ in range(4)], "t": [[rng.choice(sl)]]})
        for s in rng.sample(sl, rng.randint(0, nq)):
            ops.append({"op": "measure", "q": [s]})
        return ops

    def churn(self, rng, g, cap, gates):
        ops = []
        for _ in range(rng.randint(1, 4)):
            while g.room():
                k = 1
                sl = g.new_slots(k)
                g.live = g.live + sl
                ops.append({"op": "alloc", "q": sl})
                ops.append({"op": "g", "g": "Mat1", "p": [rng.uniform(-3, 3) for _ in range(4)], "t": [[sl[0]]]})
            for _ in range(rng.randint(1, 6)):
                o = g.gate_op(g.live)
                if o:
                    ops.append(o)
            if rng.random() < 0.5:
                ops.append({"op": "flush"})
            if len(g.live) > 1:
                q = rng.sample(g.live, rng.randint(1, len(g.live) - 1))
                g.live = [s for s in g.live if s not in q]
                ops.append({"op": "free", "q": q, "how": "del"})
            if rng.random() < 0.3:
                ops.append({"op": "flush"})
        return ops

    def execute(self, sc):
        r = Result()
        qr = random.Random(sc["queries"])
        eng, rn, b, pr, _ = stream.start(sc, r, sc["stages"])
        asked = []

        def on_flush(rn, snap):
            # queries by logical qubit through the public back-end interface
            live = sorted(rn.s.q)
            if not live or qr.random() < 0.4:
                return
            qs = qr.sample(live, qr.randint(1, len(live)))
            bits = [qr.randint(0, 1) for _ in qs]
            p = rn.sim.get_probability(bits, [rn.s.q[s] for s in qs])
            k = qr.randrange(len(qs)) + 1
            terms = [[[[i, qr.choice("XYZ")] for i in range(k)], 1.0]]
            e = rn.sim.get_expectation_value(P.qubit_operator(terms), [rn.s.q[s] for s in qs])
            a = rn.sim.get_amplitude([qr.randint(0, 1) for _ in live], []) if not live else None
            order = qr.sample(live, len(live))
            abits = [qr.randint(0, 1) for _ in live]
            a = rn.sim.get_amplitude(abits, [rn.s.q[s] for s in order])
            asked.append((snap["index"], qs, bits, p, terms, e, order, abits, a))

        rn.on_flush = on_flush
        try:
            try:
                rn.run_top(sc["prog"])
            except Exception as e:  # noqa
                x = P.Expander(P.outcomes_by_slot(rn))
                try:
                    x.run(sc["prog"][: rn.index + 1])
                except P.Exhausted:
                    pass
                except P.Invalid:
                    r.nontrivial = False
                    return r
                if self.exceeds(sc):  # the rejection may have come up in a finaliser, where Python drops it
                    r.nontrivial = False
                    r.hit("probe.does_not_fit")
                    return r
                r.violate("error", f"{type(e).__name__}: {e} ({sc['stages']})")
                return r
            x = stream.judge_snaps(r, rn, sc["prog"])
            if x is None or r.violations:
                return r
            self.stream_invariants(sc, r, b, pr)
            if not r.violations:
                self.judge_queries(sc, r, rn, asked)
        finally:
            stream.finish(eng, rn, r, pr, sc)
        kind = next(s["stage"] for s in sc["stages"] if s["stage"] in ("linear", "grid", "manual", "bounded", "ibm5"))
        r.hit("mapper." + kind)
        for g, regs, c, cs, t in pr.log:
            ids = [i for q in regs for i in q] + list(c)
            if len(ids) == 2:
                r.cover.add(f"{kind}:{b.max_live}:{ids}")
            if g == "Swap":
                r.hit("probe.swaps")
        return r

    def exceeds(self, sc):
        """Bounded mapper: positions are not reused within one circuit."""
        n = next((s["n"] for s in sc["stages"] if s["stage"] == "bounded"), None)
        if n is None:
            return False
        live, since, base = set(), 0, 0
        for op in sc["prog"]:
            if op["op"] == "alloc":
                for s in op["q"]:
                    if s not in live:
                        live.add(s)
                        since += 1
                        if base + since > n:
                            return True
            elif op["op"] == "free":
                live -= set(op["q"])
            elif op["op"] in ("flush", "if"):
                since, base = 0, len(live)
        return False

    def stream_invariants(self, sc, r, b, pr):
        t = stream.compiled.topology_violation(b, pr.log)
        if t:
            r.violate("topology", t)
            return
        live = set()
        for g, regs, c, cs, tags in pr.log:
            ids = [i for q in regs for i in q] + list(c)
            if g in ("Allocate", "AllocateDirty"):
                if ids[0] in live:
                    r.violate("occupied", f"position {ids[0]} allocated while its previous occupant is alive")
                    return
                live.add(ids[0])
                if b.max_live is not None and len(live) > b.max_live:
                    r.violate("occupied", f"{len(live)} positions in use on a device with {b.max_live}")
                    return
            elif g == "Flush":
                continue
            else:
                if not set(ids) <= live:
                    r.violate("not allocated", f"{g} on {ids}, live positions {sorted(live)}")
                    return
                if len(set(ids)) != len(ids):
                    r.violate("same position", f"{g} on {ids}")
                    return
                if g == "Deallocate":
                    live.discard(ids[0])

    def judge_queries(self, sc, r, rn, asked):
        x = P.Expander(P.outcomes_by_slot(rn))
        it = iter(asked)
        cur = next(it, None)
        for i, op in enumerate(sc["prog"]):
            x.step(op, True)
            while cur is not None and cur[0] == i:
                _, qs, bits, p, terms, e, order, abits, a = cur
                pe = x.r.prob(qs, bits)
                if abs(p - pe) > 1e-6:
                    r.violate("query", f"probability of {bits} on slots {qs}: {p}, should be {pe}")
                    return
                m = R.qubit_op_matrix(terms, len(terms[0][0]))
                y = x.r.copy()
                y.apply(m, qs[: len(terms[0][0])])
                ee = np.vdot(x.r.v, y.v)
                if abs(e - ee) > 1e-6:
                    r.violate("query", f"expectation of {terms} on slots {qs}: {e}, should be {ee}")
                    return
                v = x.r.vector(order)
                ae = v[sum(bt << k for k, bt in enumerate(abits))]
                if abs(abs(a) - abs(ae)) > 1e-6:
                    r.violate("query", f"amplitude {abits} on slots {order}: |{a}|, should be |{ae}|")
                    return
                r.hit("queries", 3)
                cur = next(it, None)

    def shrink_paths(self, sc):
        return ["prog"]

    def simplify(self, sc):
        for i in range(len(sc["links"])):
            yield dict(sc, links=sc["links"][:i] + sc["links"][i + 1 :])
        for i in range(len(sc["stages"])):
            if sc["stages"][i]["stage"] in ("opt", "flip"):
                yield dict(sc, stages=sc["stages"][:i] + sc["stages"][i + 1 :])


WORLD = C04
