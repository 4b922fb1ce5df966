"""Run one program with one seed under stated circumstances and return everything observable about it."""
import contextlib
import gc
import io
import json
import os
import random
import subprocess
import sys

import numpy as np

from . import chain, compiled, env
from . import prog as P


def simulator(impl, seed):
    from projectq.backends import Simulator

    if impl == "py":
        with contextlib.redirect_stdout(io.StringIO()):
            return env.pysim_class()(rnd_seed=seed)
    return Simulator(gate_fusion=impl == "fused", rnd_seed=seed)


class Filler:
    """A second engine at work between the operations of the first."""

    def __init__(self, seed, impl):
        from projectq import MainEngine

        rng = random.Random(seed)
        self.sim = simulator(impl, rng.getrandbits(30))
        self.eng = MainEngine(self.sim, [])
        self.rn = P.Runner(self.eng)
        g = P.Gen(rng, ["H", "X", "Ry", "Swap"], max_qubits=3, max_controls=1, gcs=False, flushes=0.1, max_ops=60, blocks=())
        self.ops = g.generate()
        self.rng = rng

    def step(self, n=None):
        for _ in range(n if n is not None else self.rng.choice([0, 1, 2])):
            if self.ops:
                self.rn.step(self.ops.pop(0), True)

    def close(self):
        compiled.silence(self.eng)
        self.rn.s.q.clear()


def trace(job):
    """job: scenario plus the circumstances 'how'.  Returns a JSON-able record."""
    from projectq import MainEngine
    from projectq.ops import Measure

    sc, how = job["sc"], job["how"]
    env.quiesce()
    random.seed(how.get("gseed", 1))
    np.random.seed(how.get("gseed", 1))
    keep = []
    if how.get("junk"):
        rng = random.Random(how["junk"])
        keep = [bytearray(rng.randint(1, 3000)) for _ in range(rng.randint(10, 400))]
        del keep[:: rng.randint(2, 5)]
    if how.get("warm"):
        f = Filler(how["warm"], how.get("wimpl", "cpp"))
        f.step(40)
        f.close()
        del f
    other = Filler(how["other"], how.get("oimpl", "cpp")) if how.get("other") else None
    b = chain.build(sc["pipe"])
    pr = chain.Probe(None)
    sim = simulator(sc["impl"], sc["seed"])
    eng = MainEngine(sim, compiled.insert_links(b.engines, sc.get("links", []), b) + [pr])
    rn = P.Runner(eng)
    order = []
    spy = eng.set_measurement_result

    def note(qubit, value):
        order.append([qubit.id, int(bool(value))])
        return spy(qubit, value)

    eng.set_measurement_result = note
    grng = random.Random(how.get("gcs", 0))

    def noise(_):
        if other is not None:
            other.step()
        if how.get("gcs") and grng.random() < 0.3:
            gc.collect()
        if how.get("draws"):
            # somebody else uses the global generators
            random.random()
            np.random.random()

    rn.noise = noise
    err = None
    state = []
    try:
        if how.get("gcs", 0) % 3 == 1:
            gc.enable()
            gc.set_threshold(1 + how["gcs"] % 50, 2, 2)
        rn.run(sc["prog"])
        eng.flush()
        m, v = sim.cheat()
        state = [sorted(m.items()), [[float(x.real), float(x.imag)] for x in np.array(v)]]
        if sc["end"] and not b.single_run:
            for s in sorted(rn.s.q):
                Measure | rn.s.q[s]
            eng.flush(deallocate_qubits=True)
    except Exception as e:  # noqa
        err = f"{type(e).__name__}: {e}"[:300]
    finally:
        gc.set_threshold(700, 10, 10)
        gc.disable()
        compiled.silence(eng)
        rn.s.q.clear()
        if other is not None:
            other.close()
    del keep
    return {"error": err, "stream": [list(map(str, c)) for c in pr.log], "outcomes": order, "state": state, "fits": fits(b, err)}


def fits(b, err):
    if err and any(t in err for t in b.may_reject):
        return False
    return not (b.peak is not None and b.max_live is not None and b.peak.peak > b.max_live)


def serve():
    """Child process: one job per line."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    env.setup()
    env.pysim_class()
    for line in sys.stdin:
        try:
            res = trace(json.loads(line))
        except BaseException as e:  # noqa
            res = {"harness": f"{type(e).__name__}: {e}"}
        out.write(json.dumps(res) + "\n")
        out.flush()


class Child:
    def __init__(self, hashseed, threads):
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), DST_KEEP_HASHSEED="1", DST_THREADS=str(threads), OMP_WAIT_POLICY="passive")
        self.p = subprocess.Popen([sys.executable, "-m", "dst", "reproserve"], cwd=env.VERIF, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)

    def ask(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"error": f"process died with status {self.p.wait()}", "stream": [], "outcomes": [], "state": [], "fits": True}
        r = json.loads(line)
        if "harness" in r:
            raise RuntimeError(r["harness"])
        return r


_children = {}


def elsewhere(hashseed, threads, job):
    k = (os.getpid(), hashseed, threads)
    c = _children.get(k)
    if c is None or c.p.poll() is not None:
        c = _children[k] = Child(hashseed, threads)
    return c.ask(job)
