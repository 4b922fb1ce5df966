"""C13: independent engines in concurrent threads."""
import ctypes
import io
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import threading

import numpy as np

from .. import chain, cloud, cloudrun, compiled, env, repro, sched
from .. import prog as P
from ..core import Result, World
from . import c14

HANG = 40


class CoLock:
    """A lock whose waiters let the others go on (the code under test has none today)."""

    make = staticmethod(threading.Lock)
    lib = None

    def __init__(self):
        self._l = self.make()

    def acquire(self, blocking=True, timeout=-1):
        L = CoLock.lib
        if L is None or L.baton_self() < 0 or not blocking:
            return self._l.acquire(blocking, timeout)
        L.baton_switch()
        while not self._l.acquire(False):
            L.baton_switch()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):  # what Condition asks of a re-entrant lock
        return getattr(self.__dict__["_l"], k)


class CoRLock(CoLock):
    make = staticmethod(threading.RLock)


class C13(World):
    ID = "C13"
    TECH = ("deterministic simulation: two or three engines in threads of one process; a seeded scheduler decides at every line of library code, every operation, "
            "user callback, network request and (where the interpreter lock is released) every memory access who goes on; each engine alone as reference")
    NOTE = ("Seeded search over engines (compiling pipelines with the C++ or Python simulator, user-defined arithmetic, resource counting, drawing, cloud sessions) "
            "and interleavings. Streams at the back-end, outcomes, errors, texts and states must be those of each engine alone in a process of its own.")
    RULE = "one evaluation = two or three programs in one interleaving; distinct by event-log digest (which includes the digest of all switches)"
    DISTINCT = "distinct schedules (digest of the sequence of switches)"
    QUICK = 2200
    THOROUGH = 40000
    REAL = ["projectq.cengines", "projectq.setups", "projectq.meta", "projectq.backends (simulators, resource counter, drawer, cloud clients)", "_cppsim.cpp: interpreter-lock release, callbacks"]
    STUB = ["thread scheduling", "services and clock of the cloud sessions"]
    ASSUME = ["each engine and its qubits are used by one thread only", "simulators get their seeds explicitly (the default seed comes from the global generator)"]
    HANG_S = 200

    def prepare(self):
        lock, rlock = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = CoLock, CoRLock
        try:
            env.setup(ext=env.build_scheduled(True))
        finally:
            threading.Lock, threading.RLock = lock, rlock
        env.pysim_class()
        self.path = sys.modules["projectq.backends._sim._cppsim"].__file__
        L = self.lib = ctypes.CDLL(self.path)
        L.baton_config.argtypes = [ctypes.c_uint64, ctypes.c_uint, ctypes.c_uint]
        CoLock.lib = L
        import boto3  # noqa
        import matplotlib.pyplot  # noqa
        import projectq.backends  # noqa
        import projectq.libs.math  # noqa
        import projectq.libs.revkit  # noqa
        import projectq.setups.decompositions  # noqa
        import requests  # noqa

        # nothing may be imported for the first time while threads run
        for k in ("default", "restrictedgateset", "linear", "grid", "trapped_ion_decomposer", "ibm", "aqt", "ionq", "awsbraket"):
            __import__("projectq.setups." + k)
        from azure.quantum.job import base_job, job  # noqa

        chain.classes()

    # -------------------------------------------------------------------------------------------- generation
    def job(self, rng, tier):
        x = rng.random()
        if x < 0.12:
            sc = None
            while sc is None or sc["service"].startswith("azure") or len(sc["rounds"]) > 1:
                sc = c14.C14.generate(self, rng.getrandbits(50), "quick")
            n = max(len([o for o in sc["rounds"][0]["ops"] if o["k"] == "alloc"]), 1)
            if sc["cfg"]["mapper"]["kind"] in ("setup", "ionq_setup"):
                sc["cfg"]["mapper"] = {"kind": "bounded", "n": n}
                sc["cfg"]["setup"] = False
                sc["rounds"][0]["ops"] = cloudrun.gen_round(rng, sc["service"], list(range(n)), False)
            sc["teardown"] = rng.choice(["flush", "drop"])
            sc["rounds"][0].setdefault("u", rng.random())
            return {"kind": "cloud", "sc": sc}
        impl = rng.choice(["cpp", "fused", "fused", "py"])
        if x < 0.35:
            pipe = {"kind": "default"}
            impl = rng.choice(["cpp", "fused"])
        else:
            pipe = compiled.gen_pipe(rng)
        s = compiled.gen_scenario(rng.getrandbits(60), "quick", pipe, gcs=False, max_ops=rng.choice([3, 5, 8]), max_total=6)
        if impl == "py" and (pipe["kind"] == "default" or any("MathFn" in str(o) for o in s["prog"])):
            impl = "cpp"
        return {"kind": "sim", "pipe": pipe, "prog": s["prog"], "links": s["links"], "impl": impl, "seed": s["sim"], "end": int(rng.random() < 0.7),
                "watch": [w for w in ("counter", "drawer") if rng.random() < 0.25]}

    def generate(self, seed, tier):
        rng = random.Random(seed)
        n = rng.choice([2, 2, 2, 3])
        jobs = [self.job(rng, tier) for _ in range(n)]
        if rng.random() < 0.15:
            jobs[1] = dict(jobs[0])  # the same program twice: what is mixed up between equal engines
            if jobs[1]["kind"] == "sim":
                jobs[1]["seed"] = rng.getrandbits(30)
        return {"jobs": jobs, "mode": rng.choice(["ops", "lines", "lines"]), "period": rng.choice([2, 5, 20, 100, 700]), "native": rng.choice([0, 3, 30, 300]),
                "sched": rng.getrandbits(50)}

    # -------------------------------------------------------------------------------------------- one engine
    def sim_job(self, j, noise=None):
        from projectq import MainEngine
        from projectq.backends import CircuitDrawer, ResourceCounter
        from projectq.ops import Measure

        b = chain.build(j["pipe"])
        pr = chain.Probe(None)
        sim = repro.simulator(j["impl"], j["seed"])
        watch = [{"counter": ResourceCounter, "drawer": CircuitDrawer}[w]() for w in j["watch"]]
        eng = MainEngine(sim, compiled.insert_links(b.engines, j["links"], b) + watch + [pr])
        rn = P.Runner(eng)
        rn.noise = noise
        order = []
        spy = eng.set_measurement_result

        def note(qubit, value):
            order.append([qubit.id, int(bool(value))])
            return spy(qubit, value)

        eng.set_measurement_result = note
        err, state, texts = None, [], []
        try:
            rn.run(j["prog"])
            eng.flush()
            m, v = sim.cheat()
            state = [sorted(m.items()), np.array(v)]
            if j["end"] and not b.single_run:
                for s in sorted(rn.s.q):
                    Measure | rn.s.q[s]
                eng.flush(deallocate_qubits=True)
            for w in watch:
                if isinstance(w, ResourceCounter):
                    texts.append(str(w))
                elif len(pr.log) < 150:
                    texts.append(w.get_latex())
        except Exception as e:  # noqa
            err = f"{type(e).__name__}: {e}"[:300]
            e.__traceback__ = None
        finally:
            compiled.silence(eng)
            rn.s.q.clear()
        return {"error": err, "stream": [list(map(str, c)) for c in pr.log], "outcomes": order, "state": state, "texts": texts, "reads": rn.reads}

    def cloud_job(self, j, noise=None):
        res = Result()
        try:
            cloudrun.Session(j["sc"], res).run_in_thread()
        except cloud.Stuck:
            res.violate("endless", "more than 20000 requests or sleeps")
        return {"error": None, "log": list(map(str, res.trace)), "judged": [list(map(str, v)) for v in res.violations], "jobs": res.stats.get("jobs", 0)}

    def run_job(self, j, noise=None):
        try:
            return getattr(self, j["kind"] + "_job")(j, noise)
        except BaseException as e:  # noqa
            return {"error": f"{type(e).__name__}: {e}"[:300]}

    # -------------------------------------------------------------------------------------------- processes
    def child(self, fn):
        """fn() in a process of its own: (value, None) or (None, what happened)."""
        r, w = os.pipe()
        d = tempfile.mkdtemp(prefix="dst-c13-")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(HANG)
                os.chdir(d)
                cloud.ROUTED = True
                sys.stdout = sys.stderr = io.StringIO()
                v = pickle.dumps(fn())
                with os.fdopen(w, "wb") as f:
                    f.write(v)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
        if st:
            sig = st & 127
            return None, "does not end" if sig == signal.SIGALRM else f"died of signal {sig}" if sig else f"ended with status {st >> 8}"
        return pickle.loads(data), None

    def together(self, sc):
        L = self.lib
        n = len(sc["jobs"])
        out = [None] * n
        root = os.path.realpath(os.path.join(env.REPO, "projectq")) + os.sep
        mine = os.path.realpath(P.__file__)
        lines = sc["mode"] == "lines"
        files = {}
        noises = {}
        make = P.user_function

        def user_function(p):
            f = make(p)

            def g(*a):
                noises[threading.get_ident()]()
                return f(*a)

            return g

        P.user_function = user_function
        fire = cloud.Sim.boundary

        def boundary(sim, what):
            noises[threading.get_ident()]()
            return fire(sim, what)

        cloud.Sim.boundary = boundary

        def watched(f):
            v = files.get(f)
            if v is None:
                p = os.path.realpath(f)
                v = files[f] = p == mine or p.startswith(root)
            return v

        def body(i):
            rng = random.Random(sc["sched"] * 8 + i)
            left = [1 + int(rng.expovariate(1 / sc["period"]))]
            per = [sc["period"]]

            calls = [0]

            def each(frame, event, arg):
                if event == "line":
                    left[0] -= 1
                    if left[0] <= 0:
                        per[0] *= 1.002  # long runs: fewer and fewer switches
                        left[0] = 1 + int(rng.expovariate(1 / per[0]))
                        L.baton_switch()
                return each

            def tracer(frame, event, arg):
                c = frame.f_code
                if c.co_name == "<module>" or not watched(c.co_filename):
                    return None
                calls[0] += 1
                # long runs: only some of the calls are watched line by line, in the end only operations
                if calls[0] > 8000:
                    sys.settrace(None)
                    return None
                return each if calls[0] < 3000 or rng.random() < 0.08 else None

            L.baton_enter(i)
            try:
                if lines:
                    sys.settrace(tracer)
                noises[threading.get_ident()] = lambda *_: rng.random() < 0.4 and L.baton_switch()
                try:
                    out[i] = self.run_job(sc["jobs"][i], noises[threading.get_ident()])
                finally:
                    sys.settrace(None)
            finally:
                L.baton_leave()

        L.baton_config(sc["sched"], 1, sc["native"])
        L.baton_group(n)
        ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        L.baton_begin()
        for t in ts:
            t.join()
        a = (ctypes.c_uint64 * 5)()
        L.baton_stats(a)
        L.baton_group(0)
        return out, a[1], a[4]

    def execute(self, sc):
        r = Result()
        sched.pin()
        env.quiesce()
        got, died = self.child(lambda: self.together(sc))
        kinds = "+".join(sorted(j["pipe"]["kind"] + ":" + j["impl"] if j["kind"] == "sim" else "cloud:" + j["sc"]["service"] for j in sc["jobs"]))
        if died:
            r.violate("together", f"the process with the engines [{kinds}] in threads {died}")
            return r
        recs, switches, digest = got
        r.log(kinds, switches, digest)
        r.hit("switches", switches)
        r.hit("fault.preempted", switches)
        r.hit("mode." + sc["mode"])
        r.cover.add(f"{digest:x}")
        r.nontrivial = switches > 1
        for i, j in enumerate(sc["jobs"]):
            alone, died = self.child(lambda: self.run_job(j))
            if died:
                r.violate("alone", f"engine {i} ({kinds}) alone {died}")
                return r
            d = self.differ(recs[i], alone)
            r.hit("engines." + j["kind"])
            if d:
                r.violate(d[0], f"engine {i} of [{kinds}], {switches} switches: {d[1]}")
                return r
            r.log(len(alone.get("stream", ())), alone.get("outcomes"), alone["error"])
        return r

    def differ(self, a, b):
        if any((x["error"] or "").startswith("RecursionError") for x in (a, b)):
            return None  # illegal programs may end at the interpreter's limit, which threads reach at another depth
        if a["error"] != b["error"]:
            return "error", f"in a thread {a['error']}; alone {b['error']}"
        for k in ("stream", "outcomes", "reads", "texts", "log", "judged", "jobs"):
            x, y = a.get(k), b.get(k)
            if x != y:
                if isinstance(x, list):
                    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    return k, f"{k} entry {i} of {len(x)}/{len(y)}: in a thread {str(x[i:i + 1])[:300]}, alone {str(y[i:i + 1])[:300]}"
                return k, f"{k}: in a thread {x}, alone {y}"
        x, y = a.get("state"), b.get("state")
        if bool(x) != bool(y):
            return "state", "one of the runs has no state"
        if x and (x[0] != y[0] or x[1].shape != y[1].shape or not np.allclose(x[1], y[1], atol=1e-9)):
            return "state", "the final states differ"
        return None

    def shrink_paths(self, sc):
        return ["jobs"]

    def simplify(self, sc):
        js = sc["jobs"]
        for i, j in enumerate(js):
            if j["kind"] == "sim":
                n = len(j["prog"])
                for k in (n // 2, n // 4, 1):
                    if k:
                        for a in range(0, n, k):
                            yield dict(sc, jobs=js[:i] + [dict(j, prog=j["prog"][:a] + j["prog"][a + k :])] + js[i + 1 :])
                if j["links"]:
                    yield dict(sc, jobs=js[:i] + [dict(j, links=[])] + js[i + 1 :])
                if j["watch"]:
                    yield dict(sc, jobs=js[:i] + [dict(j, watch=[])] + js[i + 1 :])


WORLD = C13
