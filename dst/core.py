"""Exploration driver: seeded scenarios, worker processes, minimisation, replay files, evidence."""
import copy
import hashlib
import importlib
import json
import mmap
import os
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Result:
    """What one execution of one scenario produced."""

    def __init__(self):
        self.violations = []  # [kind, detail]
        self.stats = {}  # counters: faults fired, probes hit, operations executed
        self.cover = set()  # coverage keys (strings): what makes this run distinct
        self.trace = []  # event log
        self.sim_time = 0.0
        self.nontrivial = True

    def violate(self, kind, detail=""):
        self.violations.append([kind, str(detail)[:1500]])
        self.trace.append(f"VIOLATION {kind}")

    def hit(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def log(self, *a):
        self.trace.append(" ".join(str(x) for x in a))

    def digest(self):
        h = hashlib.sha1()
        for t in self.trace:
            h.update(t.encode())
            h.update(b"\n")
        for v in self.violations:
            h.update(v[0].encode())
        return h.hexdigest()


class World:
    """One property: scenario generator, executor and oracle."""

    ID = "?"
    LEVEL = "exploration"
    RULE = ""
    QUICK = 400
    THOROUGH = 20000
    REAL = []
    STUB = []
    ASSUME = []
    TECH = "deterministic simulation with fault injection"
    NOTE = ""
    HANG_S = 60  # wall seconds after which one scenario counts as not making progress

    def prepare(self):
        """Once, in the parent, before workers fork (builds, imports)."""

    def generate(self, seed, tier):
        raise NotImplementedError

    def execute(self, sc):
        raise NotImplementedError

    def shrink_paths(self, sc):
        """Names of the scenario lists which may be shrunk."""
        return [k for k, v in sc.items() if isinstance(v, list)]

    def simplify(self, sc):
        """Extra candidate simplifications (iterator of scenarios)."""
        return iter(())

    def directed(self, tier):
        """Fixed scenarios that always run first (regressions of earlier findings, boundary cases)."""
        return []


def setup_all():
    import glob

    for p in sorted(glob.glob(os.path.join(VERIF, "dst/worlds/[cn][0-9][0-9].py"))):
        # one process each: worlds may need different builds of the extension
        pid = os.path.basename(p)[:-3].upper()
        c = os.fork()
        if c == 0:
            try:
                load_world(pid).prepare()
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(1)
        _, st = os.waitpid(c, 0)
        if st:
            print(f"setup of {pid} failed", file=sys.stderr)
            return 1
    return 0


def load_world(pid):
    return importlib.import_module(f"dst.worlds.{pid.lower()}").WORLD()


# ------------------------------------------------------------------------------------------------ execution helpers
def run_scenario(world, sc):
    """Execute; harness errors are returned separately from violations."""
    st = random.getstate()
    try:
        return world.execute(copy.deepcopy(sc)), None
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        return None, traceback.format_exc()
    finally:
        random.setstate(st)


def scenario_for(world, index, base_seed, tier):
    d = world._directed
    if index < len(d):
        return d[index]
    return world.generate((base_seed << 32) + index, tier)


class Slot:
    """Shared memory: which index each worker executes, since when."""

    def __init__(self, n):
        self.m = mmap.mmap(-1, 16 * n)

    def set(self, w, idx):
        self.m[16 * w : 16 * w + 16] = struct.pack("qd", idx, time.time())

    def get(self, w):
        return struct.unpack("qd", self.m[16 * w : 16 * w + 16])


def _hush():
    """What the code under test prints must not mix with the check's own lines."""
    if os.environ.get("DST_NOISE"):
        return
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)
    os.close(n)


def _worker(world, w, n, base_seed, tier, total, deadline, wfd, slot, start_at):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    _hush()
    out = os.fdopen(wfd, "w")
    agg = None

    def fresh():
        return {"runs": 0, "nontrivial": [], "cover": set(), "stats": {}, "sim": 0.0}

    agg = fresh()

    def emit():
        nonlocal agg
        agg["cover"] = sorted(agg["cover"])
        out.write(json.dumps({"agg": agg}) + "\n")
        out.flush()
        agg = fresh()

    idx = start_at
    while idx < total and time.time() < deadline:
        slot.set(w, idx)
        sc = scenario_for(world, idx, base_seed, tier)
        res, err = run_scenario(world, sc)
        if err is not None:
            out.write(json.dumps({"harness": err, "index": idx, "scenario": sc}) + "\n")
            out.flush()
        else:
            agg["runs"] += 1
            agg["sim"] += res.sim_time
            for k, v in res.stats.items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            for c in res.cover:
                agg["cover"].add(int(hashlib.md5(c.encode()).hexdigest()[:12], 16))
            if res.nontrivial:
                agg["nontrivial"].append(int(res.digest()[:12], 16))
            if res.violations:
                out.write(json.dumps({"violation": res.violations, "index": idx, "scenario": sc}) + "\n")
                out.flush()
        if agg["runs"] >= 64:
            emit()
        idx += n
    emit()
    slot.set(w, -1)
    out.write(json.dumps({"done": 1}) + "\n")
    out.flush()
    os._exit(0)


def isolated(world, sc, timeout):
    """Run one scenario in a forked child: ('ok', violations, digest) / ('harness', text) / ('crash', sig) / ('hang',)."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _hush()
            res, err = run_scenario(world, sc)
            msg = {"h": err} if err else {"v": res.violations, "d": res.digest(), "t": res.trace[-200:]}
            with os.fdopen(wfd, "w") as f:
                f.write(json.dumps(msg))
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    end = time.time() + timeout
    while True:
        rl, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
        if not rl:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ("hang",)
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("crash", os.WTERMSIG(st))
    try:
        m = json.loads(data)
    except ValueError:
        return ("crash", os.WEXITSTATUS(st))
    if m.get("h"):
        return ("harness", m["h"])
    return ("ok", m["v"], m["d"], m["t"])


def verdict(world, sc, timeout):
    """Normalised list of [kind, detail] for a scenario, running isolated."""
    r = isolated(world, sc, timeout)
    if r[0] == "ok":
        return r[1]
    if r[0] == "crash":
        return [[f"crash:{r[1]}", "the process died while executing the scenario"]]
    if r[0] == "hang":
        return [["hang", f"no progress within {timeout} s of wall time"]]
    return [["harness", r[1]]]


# ------------------------------------------------------------------------------------------------ minimisation
def _lists_in(obj, path=()):
    """All (path) of lists of dict-like operations inside a scenario, outermost first."""
    if isinstance(obj, list):
        yield path
        for i, x in enumerate(obj):
            if isinstance(x, dict):
                yield from _lists_in(x, path + (i,))
    elif isinstance(obj, dict):
        for k, v in obj.items():
            if isinstance(v, list) and v and all(isinstance(e, dict) for e in v):
                yield from _lists_in(v, path + (k,))


def _get(o, path):
    for p in path:
        o = o[p]
    return o


def _with(sc, path, val):
    sc = copy.deepcopy(sc)
    if not path:
        return val
    _get(sc, path[:-1])[path[-1]] = val
    return sc


def minimise(world, sc, kind, budget_s, timeout):
    end = time.time() + budget_s

    def fails(c):
        return any(v[0] == kind for v in verdict(world, c, timeout))

    best = sc
    changed = True
    tried = 0
    while changed and time.time() < end:
        changed = False
        for root in world.shrink_paths(best):
            if root not in best:
                continue
            for path in list(_lists_in(best[root])):
                full = (root,) + path
                try:
                    lst = _get(best, full)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(lst, list):
                    continue  # this place is gone
                n = len(lst)
                size = max(1, n // 2)
                while size >= 1 and time.time() < end:
                    i = 0
                    while i < len(lst) and time.time() < end:
                        cand = _with(best, full, lst[:i] + lst[i + size :])
                        tried += 1
                        if fails(cand):
                            best = cand
                            lst = _get(best, full)
                            changed = True
                        else:
                            i += size
                    size //= 2
        for cand in world.simplify(best):
            if time.time() > end:
                break
            tried += 1
            if fails(cand):
                best = cand
                changed = True
                break
    return best, tried


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        doc = json.load(f)
    return [k for k in doc.get("findings", []) if k["property"] == pid]


def is_known(pid, violation, findings):
    for k in findings:
        if k["kind"] == violation[0] and (not k.get("match") or k["match"] in violation[1]):
            return True
    return False


# ------------------------------------------------------------------------------------------------ check
def check(pid, tier, seed, total=None, workers=None, budget=None, quiet=False):
    t0 = time.time()
    world = load_world(pid)
    world.prepare()
    world._directed = list(world.directed(tier))
    findings = known_findings(pid)
    total = total or (world.QUICK if tier == "quick" else world.THOROUGH)
    total += len(world._directed)
    workers = workers or min(8, os.cpu_count() or 1)
    budget = budget or (480 if tier == "quick" else 3600)
    deadline = t0 + budget
    slot = Slot(workers)
    procs = {}
    agg = {"runs": 0, "nontrivial": set(), "cover": set(), "stats": {}, "sim": 0.0}
    hits = []
    harness = []
    known = {}

    def spawn(w, start):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            try:
                _worker(world, w, workers, seed, tier, total, deadline, wfd, slot, start)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(wfd)
        procs[w] = {"pid": pid_, "fd": r, "buf": b"", "done": False}

    for w in range(workers):
        slot.set(w, -1)
        spawn(w, w)

    def note_violation(v, sc, idx):
        real = []
        for x in v:
            if is_known(pid, x, findings):
                known[x[0]] = known.get(x[0], 0) + 1
            else:
                real.append(x)
        if real:
            hits.append((real, sc, idx))

    def handle(line):
        m = json.loads(line)
        if "agg" in m:
            a = m["agg"]
            agg["runs"] += a["runs"]
            agg["sim"] += a["sim"]
            agg["nontrivial"].update(a["nontrivial"])
            agg["cover"].update(a["cover"])
            for k, v in a["stats"].items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
        elif "violation" in m:
            note_violation(m["violation"], m["scenario"], m["index"])
        elif "harness" in m:
            harness.append((m["harness"], m["scenario"], m["index"]))
        elif "done" in m:
            return True
        return False

    def stop_all():
        for p in procs.values():
            try:
                os.kill(p["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass

    crash_retries = 0
    while procs:
        rl, _, _ = select.select([p["fd"] for p in procs.values()], [], [], 1.0)
        for w in list(procs):
            p = procs[w]
            if p["fd"] in rl:
                b = os.read(p["fd"], 1 << 20)
                if b:
                    p["buf"] += b
                    while b"\n" in p["buf"]:
                        line, p["buf"] = p["buf"].split(b"\n", 1)
                        if handle(line):
                            p["done"] = True
                    continue
                # end of file: worker ended
                os.close(p["fd"])
                _, st = os.waitpid(p["pid"], 0)
                idx, _ = slot.get(w)
                del procs[w]
                if p["done"]:
                    continue
                # died: attribute to the scenario it was executing
                sc = scenario_for(world, idx, seed, tier)
                v = verdict(world, sc, world.HANG_S)
                if v and v[0][0] != "harness":
                    note_violation(v, sc, idx)
                else:
                    crash_retries += 1
                    if crash_retries > 5:
                        harness.append((f"worker died (status {st}), not reproducible", sc, idx))
                        continue
                if not hits:
                    spawn(w, idx + workers)
            else:
                idx, since = slot.get(w)
                if idx >= 0 and time.time() - since > world.HANG_S:
                    os.kill(p["pid"], signal.SIGKILL)
                    os.waitpid(p["pid"], 0)
                    os.close(p["fd"])
                    del procs[w]
                    sc = scenario_for(world, idx, seed, tier)
                    v = verdict(world, sc, 2 * world.HANG_S)
                    if v and v[0][0] != "harness":
                        note_violation(v, sc, idx)
                    if not hits:
                        spawn(w, idx + workers)
        if hits or len(harness) > 20:
            stop_all()
            for w in list(procs):
                p = procs.pop(w)
                os.close(p["fd"])
                os.waitpid(p["pid"], 0)
            break

    rc = 0
    if hits:
        hits.sort(key=lambda h: h[2])
        v, sc, idx = hits[0]
        kind = v[0][0]
        mini, tried = minimise(world, sc, kind, 60 if tier == "quick" else 180, world.HANG_S)
        vv = [x for x in verdict(world, mini, 2 * world.HANG_S) if x[0] == kind] or v
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{pid}-{seed}-{idx}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "index": idx, "kind": kind, "detail": vv[0][1],
                       "minimised_with": tried, "scenario": mini}, f, indent=1)
        rep = subprocess.run([PY, "-m", "dst", "replay", path], cwd=VERIF, capture_output=True, text=True)
        same = rep.returncode == 1
        if not same:
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "index": idx, "kind": kind, "detail": v[0][1],
                           "minimised_with": 0, "scenario": sc}, f, indent=1)
            rep = subprocess.run([PY, "-m", "dst", "replay", path], cwd=VERIF, capture_output=True, text=True)
            same = rep.returncode == 1
        print(f"  seed={seed} index={idx} kind={kind} replay_reproduces={same}")
        print("  " + vv[0][1].replace("\n", "\n  ")[:3000])
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    wall = time.time() - t0
    planned = total
    done = agg["runs"]
    if rc == 0 and harness:
        print(f"harness errors: {len(harness)}; first (index {harness[0][2]}):\n{harness[0][0]}", file=sys.stderr)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        with open(os.path.join(VERIF, "replays", f"{pid}-harness.json"), "w") as f:
            json.dump({"property": pid, "seed": seed, "index": harness[0][2], "kind": "harness",
                       "detail": harness[0][0], "scenario": harness[0][1]}, f, indent=1)
        rc = 2
    if rc == 0 and done < max(1, planned // 5):
        print(f"only {done} of {planned} scenarios ran before the time limit", file=sys.stderr)
        rc = 2
    det = None
    if rc == 0:
        det = determinism(world, pid, tier, seed, 8 if tier == "quick" else 48)
    samples = [scenario_for(world, i, seed, tier) for i in (len(world._directed), len(world._directed) + 1)]
    faults = {k: v for k, v in sorted(agg["stats"].items()) if k.startswith("fault.")}
    probes = {k: v for k, v in sorted(agg["stats"].items()) if k.startswith("probe.")}
    ops = {k: v for k, v in sorted(agg["stats"].items()) if not k.startswith(("fault.", "probe."))}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": world.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": world.RULE,
            "samples": samples,
            "planned_scenarios": planned,
            "runs_per_hour_one_seed_each": int(done / max(wall, 1e-3) * 3600),
            "simulated_seconds": agg["sim"],
            "faults_fired": faults,
            "probes_hit": probes,
            "operations": ops,
            "distinct_states_or_interleavings": len(agg["cover"]),
            "distinctness_measure": getattr(world, "DISTINCT", "distinct coverage keys (see rule)"),
            "real_components": world.REAL,
            "stub_components": world.STUB,
            "determinism_recheck": det,
            "known_findings_seen": known,
            "workers": workers,
        },
        "assumptions": world.ASSUME,
        "wall_s": round(wall, 2),
        "violations": len(hits),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in findings:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if not quiet:
        print(f"{pid} {tier}: {done}/{planned} scenarios, {len(agg['nontrivial'])} distinct non-trivial, "
              f"{sum(faults.values())} faults fired, {wall:.1f} s, rc={rc}"
              + (f", determinism {det}" if det else ""))
    return rc


def determinism(world, pid, tier, seed, n):
    """Re-execute a sample of scenarios in fresh interpreters under another hash seed; compare event-log digests."""
    base = len(world._directed)
    idx = [base + i * 7 for i in range(n)]
    env = dict(os.environ, PYTHONHASHSEED="4242", DST_KEEP_HASHSEED="1")
    procs = []
    for part in range(2):
        sub = idx[part::2]
        procs.append(subprocess.Popen([PY, "-m", "dst", "digest", pid, tier, str(seed)] + [str(i) for i in sub],
                                      cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    mine = {}
    for i in idx:
        r = isolated(world, scenario_for(world, i, seed, tier), world.HANG_S)
        mine[i] = r[2] if r[0] == "ok" else r[0]
    other = {}
    for p in procs:
        o, _ = p.communicate()
        for line in o.splitlines():
            if line.startswith("DIGEST "):
                _, i, d = line.split()
                other[int(i)] = d
    div = [i for i in idx if mine[i] != other.get(i)]
    if div:
        print(f"note: {len(div)} of {n} runs differ in a fresh interpreter (indices {div[:5]})", file=sys.stderr)
    return {"checked": n, "diverged": len(div)}


def digest_cmd(pid, tier, seed, indices):
    world = load_world(pid)
    world.prepare()
    world._directed = list(world.directed(tier))
    for i in indices:
        r = isolated(world, scenario_for(world, i, seed, tier), world.HANG_S)
        print("DIGEST", i, r[2] if r[0] == "ok" else r[0], flush=True)
    return 0


def replay(path, verbose=False):
    with open(path) as f:
        doc = json.load(f)
    world = load_world(doc["property"])
    world.prepare()
    world._directed = []
    r = isolated(world, doc["scenario"], 2 * world.HANG_S)
    if r[0] == "ok":
        v = r[1]
        if verbose:
            print("\n".join(r[3]))
    elif r[0] == "harness":
        print(r[1], file=sys.stderr)
        return 2
    else:
        v = [[f"crash:{r[1]}" if r[0] == "crash" else "hang", ""]]
    for x in v:
        print("  ", x[0], "|", x[1])
    if any(x[0] == doc["kind"] for x in v) or (v and doc["kind"] == "harness"):
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    if v:
        print(f"different violation: {v[0][0]} instead of {doc['kind']}")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def survey(pid, tier, seed, total, workers=8):
    """Development aid: run scenarios without stopping at the first violation; group what is found."""
    import collections

    world = load_world(pid)
    world.prepare()
    world._directed = list(world.directed(tier))
    t0 = time.time()
    pipes = []
    for w in range(workers):
        r, wfd = os.pipe()
        if os.fork() == 0:
            os.close(r)
            _hush()
            with os.fdopen(wfd, "w") as f:
                def alarm(*a):
                    raise KeyboardInterrupt("hang: " + "".join(traceback.format_stack()[-8:]))

                signal.signal(signal.SIGALRM, alarm)
                for i in range(w, total, workers):
                    sc = scenario_for(world, i, seed, tier)
                    t1 = time.time()
                    signal.alarm(20)
                    try:
                        res, err = run_scenario(world, sc)
                    except KeyboardInterrupt as e:
                        err = str(e)
                    signal.alarm(0)
                    if err:
                        f.write(json.dumps([i, "HARNESS", err[-600:], 0, 0]) + "\n")
                    else:
                        v = res.violations[0] if res.violations else ["", ""]
                        f.write(json.dumps([i, v[0], v[1], int(res.nontrivial), time.time() - t1]) + "\n")
                    f.flush()
            os._exit(0)
        os.close(wfd)
        pipes.append(os.fdopen(r))
    groups = collections.defaultdict(list)
    n = nt = 0
    slow = []
    done = set()
    for p in pipes:
        for line in p:
            i, k, d, t, dt = json.loads(line)
            done.add(i)
            n += 1
            nt += t
            slow.append((dt, i))
            if k:
                groups[k + " | " + "".join(c for c in d[-90 if k == "HARNESS" else 0:][:90] if not c.isdigit())].append((i, d))
    for k, v in sorted(groups.items(), key=lambda x: -len(x[1])):
        print(len(v), k.replace("\n", " / "), [i for i, _ in v[:6]])
        if k.startswith("HARNESS"):
            print(v[0][1])
    print("ran", n, "of", total, "nontrivial", nt, f"{time.time() - t0:.1f}s", "slowest", sorted(slow)[-3:], "missing", [i for i in range(total) if i not in done][:5])
    return 0


def one(pid, tier, seed, index, mini):
    """Development aid: run one index, optionally minimised; print scenario and verdict."""
    world = load_world(pid)
    world.prepare()
    world._directed = list(world.directed(tier))
    sc = scenario_for(world, index, seed, tier)
    v = verdict(world, sc, world.HANG_S)
    print(v)
    if mini and v:
        sc, n = minimise(world, sc, v[0][0], 60, world.HANG_S)
        print(verdict(world, sc, world.HANG_S))
    path = f"/tmp/{pid}-{index}.json"
    with open(path, "w") as f:
        json.dump({"property": pid, "kind": v[0][0] if v else "", "scenario": sc}, f, indent=1)
    print(json.dumps(sc))
    print(path)
    return 0
