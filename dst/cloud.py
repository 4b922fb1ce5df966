"""Simulated cloud services: virtual clock, network with faults, and one server model per supported provider.

The back-ends, HTTP clients, the `requests` library (down to the transport adapter), the Azure SDK's target/job/polling
code, set-ups, mappers and compilers run for real; below them everything is simulated and decided by the scenario.
"""
import contextlib
import gc
import io
import json
import math
import random
import re
import signal
import sys
import threading
import time
import urllib.parse

import numpy as np

from . import env
from . import ref as R

TOKEN = "tok-5ecret-0f-the-user"
SECRET = "s3cr3t-key-0f-the-user"
KEYID = "AKIA-key-id-0f-the-user"
SESSION = "sess10n-0f-the-user"

NET_FAULTS = ["refused", "lost", "err500", "err502", "garbage", "missing", "err429"]


class Stuck(BaseException):
    """The client goes on for ever."""


# ------------------------------------------------------------------------------------------------ gates on the device
def _u3(t, p, l):
    return np.array(
        [[math.cos(t / 2), -np.exp(1j * l) * math.sin(t / 2)], [np.exp(1j * p) * math.sin(t / 2), np.exp(1j * (p + l)) * math.cos(t / 2)]]
    )


_V = np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2
_H = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
_SW = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def _diag(a):
    return np.diag([1, np.exp(1j * a)])


def device_matrix(g, p):
    pauli = {"x": R.PX, "y": R.PY, "z": R.PZ}
    if g in pauli:
        return pauli[g]
    if g == "h":
        return _H
    if g in ("s", "si", "sdg"):
        return _diag(math.pi / 2 if g == "s" else -math.pi / 2)
    if g in ("t", "ti", "tdg"):
        return _diag(math.pi / 4 if g == "t" else -math.pi / 4)
    if g in ("v", "vi"):
        return _V if g == "v" else _V.conj().T
    if g in ("rx", "ry", "rz"):
        return R._exp_pauli(pauli[g[1]], p[0])
    if g in ("rxx", "ryy", "rzz"):
        return R._exp_pauli(np.kron(pauli[g[1]], pauli[g[1]]), p[0])
    if g == "swap":
        return _SW
    if g in ("phaseshift", "u1"):
        return _diag(p[0])
    if g == "u2":
        return _u3(math.pi / 2, p[0], p[1])
    if g == "u3":
        return _u3(*p)
    raise ValueError(f"unknown device gate {g}")


class BadPayload(Exception):
    pass


class Job:
    def __init__(self, jid, prog, n, locs, shots, reply, rnd, device):
        self.id, self.prog, self.n, self.locs, self.shots, self.reply, self.round, self.device = (
            jid, prog, n, locs, shots, reply, rnd, device)
        self.polls = 0
        self.created_at = 0.0
        self.mapping = None
        self.started = True
        self.ended_polls = 0

    def check(self):
        for g, p, c, t in self.prog:
            qs = list(c) + list(t)
            if any(not isinstance(q, int) or q < 0 or q >= self.n for q in qs):
                raise BadPayload(f"{g} on {qs}, but the job declares {self.n} qubits")
            if len(set(qs)) != len(qs):
                raise BadPayload(f"{g} on {qs}: a qubit twice")
        for q in self.locs or []:
            if q < 0 or q >= self.n:
                raise BadPayload(f"measurement of {q}, but the job declares {self.n} qubits")
        if self.locs and len(set(self.locs)) != len(self.locs):
            raise BadPayload(f"measurements {self.locs}: a qubit twice")

    def ideal(self):
        """Exact outcome distribution over all positions: dict string (position 0 first) -> probability."""
        used = sorted({q for _, _, c, t in self.prog for q in list(c) + list(t)})
        r = R.Ref()
        for q in used:
            r.alloc(q)
        for g, p, c, t in self.prog:
            r.apply(device_matrix(g, p), list(t), list(c))
        m = r.marginal(used)
        out = {}
        for k, v in enumerate(m):
            if v > 1e-13:
                s = ["0"] * self.n
                for i, q in enumerate(used):
                    s[q] = str(k >> i & 1)
                out["".join(s)] = float(v)
        return out

    def histogram(self):
        """What the service reports: list of (string over all positions, count), counts sum to the shots."""
        rs = random.Random(self.reply.get("seed", 0))
        shots = self.reply.get("shots") or self.shots
        mode = self.reply.get("mode", "exact")
        if mode == "exact":
            d = sorted(self.ideal().items())
            c = [[s, int(p * shots)] for s, p in d]
            rest = shots - sum(x[1] for x in c)
            fr = sorted(range(len(d)), key=lambda i: -(d[i][1] * shots - c[i][1]))
            for i in range(rest):
                c[fr[i % len(fr)]][1] += 1
            h = [x for x in c if x[1] or self.reply.get("zeros")]
        else:
            k = rs.choice([1, 2, 3, 3, 4, 5])
            seen = []
            while len(seen) < min(k, 2**self.n):
                s = "".join(rs.choice("01") for _ in range(self.n))
                if s not in seen:
                    seen.append(s)
            w = [rs.choice([0, 1, 1, 2, 7, 50]) for _ in seen]
            if not sum(w):
                w[0] = 1
            tot = sum(w)
            c = [x * shots // tot for x in w]
            c[max(range(len(w)), key=lambda i: w[i])] += shots - sum(c)
            h = [[s, x] for s, x in zip(seen, c) if x or self.reply.get("zeros")]
        if self.locs is not None and self.reply.get("clbits"):
            # classical register: positions without a measurement read 0
            acc = {}
            for s, x in h:
                t = "".join(ch if i in self.locs else "0" for i, ch in enumerate(s))
                acc[t] = acc.get(t, 0) + x
            h = [[s, x] for s, x in acc.items()]
        rs.shuffle(h)
        return h


# ------------------------------------------------------------------------------------------------ the simulated world
class Sim:
    """Clock, network faults, interrupts, jobs."""

    def __init__(self, sc, res):
        self.sc, self.res = sc, res
        self.now = 0.0
        self.nreq = 0  # requests in this round
        self.nsleep = 0
        self.sleeps_total = 0
        self.faults = {}
        self.fired = []
        self.jobs = {}
        self.order = []
        self.round = -1
        self.reply = {}
        self.polls_since = []
        self.requests = []  # (host, everything sent)
        self.catalogue_off = False
        self.availability = None
        self.token_ok = True
        self.mapping_now = lambda: None
        self.waited = set()  # jobs a status request was made for

    def begin(self, rnd, spec):
        self.round = rnd
        self.nreq = self.nsleep = 0
        self.faults = {(f.get("on", "req"), f["at"]): f["kind"] for f in spec.get("faults", [])}
        self.fired = []
        self.reply = spec.get("reply", {})

    def calm(self):
        self.faults = {}

    def sleep(self, dt):
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        self.now += dt
        self.sleeps_total += 1
        k = self.nsleep
        self.nsleep += 1
        if self.sleeps_total > 20000:
            raise Stuck()
        f = self.faults.pop(("sleep", k), None)
        if f == "sigint":
            self.fire(f)
            signal.raise_signal(signal.SIGINT)
        elif f == "stall":
            self.fire(f)
            self.now += 600

    def fire(self, f):
        self.fired.append(f)
        self.res.hit("fault." + f)

    def boundary(self, what):
        """Every request to any service passes here; returns the fault to inject."""
        k = self.nreq
        self.nreq += 1
        self.now += 0.01
        self.res.hit("requests")
        if k > 20000:
            raise Stuck()
        f = self.faults.pop(("req", k), None)
        if f:
            self.fire(f)
            self.res.log("fault", f, "at request", k, what)
        if f == "sigint":
            signal.raise_signal(signal.SIGINT)
        return f

    def new_job(self, prog, n, locs, shots, device):
        jid = f"job-{len(self.order) + 1:04d}-x"
        j = Job(jid, prog, n, locs, shots, dict(self.reply), self.round, device)
        j.created_at = self.now
        m = self.mapping_now()
        j.mapping = dict(m) if m is not None else None
        self.jobs[jid] = j
        self.order.append(j)
        self.res.log("job", jid, n, locs, shots, device, len(prog), json.dumps(prog, default=float)[:300])
        self.res.hit("jobs")
        try:
            j.check()
            j.bad = None
        except BadPayload as e:
            j.bad = str(e)
        return j

    def refuses(self):
        """Whether the service declines new jobs in this round (queue full, quota)."""
        if self.reply.get("reject"):
            self.fire("submission_refused")
            return True
        return False

    def forget(self, j):
        self.order.remove(j)
        del self.jobs[j.id]

    def poll(self, j):
        """State of the job at this poll: 'pending' / 'done' / 'failed' / 'cancelled' / 'gone'."""
        j.polls += 1
        r = j.reply
        if j.polls == r.get("offline_after"):
            self.catalogue_off = True
            self.fire("device_offline")
        end = r.get("end", "done")
        if "after" in r:  # by virtual time
            if end == "never" or self.now - j.created_at < r["after"]:
                return "pending"
        elif end == "never" or j.polls <= r.get("polls", 0):
            return "pending"
        j.ended_polls += 1
        return end


# ------------------------------------------------------------------------------------------------ HTTP services
class Http:
    """Below requests: stands in for HTTPAdapter.send."""

    def __init__(self, sim, server):
        self.sim, self.server = sim, server

    def send(self, adapter, request, **kw):
        import requests

        url = urllib.parse.urlsplit(request.url)
        body = request.body or b""
        if isinstance(body, bytes):
            body = body.decode()
        self.sim.requests.append((url.netloc, request.url + "\n" + str(dict(request.headers)) + "\n" + body))
        if "jobDataUploaded" not in url.path and url.netloc in self.server.hosts:
            self.sim.waited.update(j for j in self.sim.jobs if j in url.path or "id=" + j in body)
        path = url.path + ("?" + url.query if url.query else "")
        f = self.sim.boundary(request.method + " " + url.path)
        where = f"HTTPSConnectionPool(host='{url.hostname}', port=443)"
        if f == "refused":
            raise requests.exceptions.ConnectionError(f"{where}: Max retries exceeded with url: {path} (Caused by NewConnectionError('Connection refused'))", request=request)
        resp = requests.Response()
        resp.request, resp.url, resp.headers["Content-Type"] = request, request.url, "application/json"
        resp.encoding = "utf-8"
        resp.raw = None
        if f == "err500":
            resp.status_code, resp._content, resp.reason = 500, b'{"error": "internal"}', "Internal Server Error"
            return resp
        if f == "err429":
            resp.status_code, resp._content, resp.reason = 429, b'{"error": "slow down"}', "Too Many Requests"
            resp.headers["Retry-After"] = "1"
            return resp
        status, obj = self.server.route(request.method, url, dict(urllib.parse.parse_qsl(url.query)), request.headers, body)
        if f == "lost":
            raise requests.exceptions.ReadTimeout(f"{where}: Read timed out. (read timeout=5.0)", request=request)
        if f == "err502":
            resp.status_code, resp._content, resp.reason = 502, b"<html>Bad gateway</html>", "Bad Gateway"
            return resp
        resp.status_code = status
        resp.reason = {200: "OK", 401: "Unauthorized", 404: "Not Found", 400: "Bad Request"}.get(status, "?")
        if f == "garbage":
            resp._content = b"<html>maintenance</html>"
        elif f == "missing":
            resp._content = b"[]" if isinstance(obj, list) else b"{}"
        else:
            resp._content = json.dumps(obj).encode()
        return resp


class IBMServer:
    hosts = ("auth.quantum-computing.ibm.com", "api.quantum-computing.ibm.com")
    storage = "object-storage.example"

    def __init__(self, sim, cfg):
        self.sim, self.cfg = sim, cfg
        self.pending = {}

    def route(self, method, url, q, headers, body):
        p = url.path
        if url.netloc == self.hosts[0]:
            if json.loads(body).get("apiToken") == TOKEN and self.sim.token_ok:
                return 200, {"id": SESSION, "ttl": 1}
            return 401, {"error": {"message": "Invalid credentials"}}
        if url.netloc == self.storage:
            jid = p.strip("/").split("/")[0]
            if method == "PUT":
                self.upload(jid, body)
                return 200, {}
            j = self.sim.jobs[jid]
            return 200, {"results": [{"data": {"counts": {hex(int(s[::-1], 2)): c for s, c in j.histogram()}}}]}
        if q.get("access_token") != SESSION or not self.sim.token_ok:
            return 401, {"error": {"message": "token"}}
        if p.endswith("/devices/v/1"):
            if self.sim.catalogue_off:
                return 200, []
            return 200, [
                {"backend_name": k, "n_qubits": v["nq"], "coupling_map": v.get("coupling", []), "backend_version": "1.0.0"}
                for k, v in self.cfg["catalogue"].items()
            ]
        if p.endswith("/Jobs") and method == "POST":
            if self.sim.refuses():
                return 200, {"error": {"status": 403, "name": "QUOTA", "message": "queue is full"}}
            dev = json.loads(body)["backend"]["name"]
            j = self.sim.new_job([], 0, None, 0, dev)
            j.started = False
            return 200, {"id": j.id, "objectStorageInfo": {"uploadUrl": f"https://{self.storage}/{j.id}/up?sig=abc"}}
        m = re.search(r"/Jobs/([^/]+)(/.*)?$", p)
        j = self.sim.jobs.get(m.group(1)) if m else None
        if j is None:
            return 404, {"error": "no such job"}
        tail = m.group(2)
        if tail == "/jobDataUploaded":
            j.started = True
            return 200, {"job": {"id": j.id, "status": "VALIDATING"}}
        if tail == "/resultDownloadUrl":
            return 200, {"url": f"https://{self.storage}/{j.id}/res?sig=abc"}
        if tail == "/resultDownloaded":
            return 200, {}
        st = self.sim.poll(j)
        if st == "gone":
            return 404, {"error": "no such job"}
        names = {"done": "COMPLETED", "failed": "ERROR_RUNNING_JOB", "cancelled": "CANCELLED"}
        return 200, {"id": j.id, "status": names.get(st) or ["VALIDATING", "VALIDATED", "RUNNING"][min(j.polls - 1, 2)]}

    def upload(self, jid, body):
        j = self.sim.jobs[jid]
        try:
            o = json.loads(body)
            e = o["experiments"][0]
            j.n = e["header"]["memory_slots"]
            j.shots = o["config"]["shots"]
            prog, locs = [], []
            for i in e["instructions"]:
                if i["name"] == "measure":
                    if i["memory"] != i["qubits"]:
                        raise BadPayload(f"measurement of {i['qubits']} into {i['memory']}")
                    locs += i["qubits"]
                elif i["name"] == "cx":
                    prog.append(("x", [], i["qubits"][:1], i["qubits"][1:]))
                elif i["name"] != "barrier":
                    prog.append((i["name"], i.get("params", []), [], i["qubits"]))
            j.prog, j.locs = prog, locs
            j.check()
        except BadPayload as e:
            j.bad = str(e)
        except Exception as e:  # noqa
            j.bad = f"unreadable payload: {e!r}"
        j.reply["clbits"] = True
        self.sim.res.log("uploaded", j.id, j.n, j.locs, j.shots, json.dumps(j.prog, default=float)[:300])


class AQTServer:
    hosts = ("gateway.aqt.eu",)
    storage = None
    DEVICES = {"sim/": "aqt_simulator", "sim/noise-model-1": "aqt_simulator_noise", "lint/": "aqt_device"}

    def __init__(self, sim, cfg):
        self.sim, self.cfg = sim, cfg

    def route(self, method, url, q, headers, body):
        b = dict(urllib.parse.parse_qsl(body))
        if b.get("access_token") != TOKEN or headers.get("Ocp-Apim-Subscription-Key") != TOKEN or not self.sim.token_ok:
            return 401, {"message": "Access denied"}
        dev = self.DEVICES.get(url.path.replace("/marmot/", ""))
        if method != "PUT" or dev is None:
            return 404, {}
        if "data" in b:
            bad = None
            prog = []
            try:
                for g, a, qs in json.loads(b["data"]):
                    prog.append(({"X": "rx", "Y": "ry", "MS": "rxx"}[g], [a * math.pi], [], qs))
            except Exception as e:  # noqa
                bad = f"unreadable payload: {e!r}"
            j = self.sim.new_job(prog, int(b["no_qubits"]), None, int(b["repetitions"]), dev)
            j.bad = bad or j.bad
            if self.sim.refuses():
                self.sim.forget(j)
                return 200, {"id": j.id, "status": "error", "message": "queue is full"}
            return 200, {"id": j.id, "status": "queued"}
        j = self.sim.jobs.get(b.get("id"))
        if j is None:
            return 404, {}
        st = self.sim.poll(j)
        if st == "gone":
            return 404, {}
        if st == "done":
            s = []
            for k, c in j.histogram():
                s += [int(k[::-1], 2)] * c
            random.Random(j.reply.get("seed", 0)).shuffle(s)
            return 200, {"id": j.id, "status": "finished", "samples": s, "no_qubits": j.n}
        if st == "pending":
            return 200, {"id": j.id, "status": "queued" if j.polls <= j.reply.get("queued", 0) else "running"}
        return 200, {"id": j.id, "status": {"failed": "error", "cancelled": "invalid"}[st], "message": "x"}


IONQ_NAMES = {"xx": "rxx", "yy": "ryy", "zz": "rzz"}


def ionq_prog(circ):
    prog = []
    for g in circ:
        c = g.get("controls", [g["control"]] if "control" in g else [])
        t = g.get("targets", [g["target"]] if "target" in g else [])
        prog.append((IONQ_NAMES.get(g["gate"], g["gate"]), [g["rotation"]] if "rotation" in g else [], c, t))
    for g, p, c, t in prog:
        device_matrix(g, p)
    return prog


class IonQServer:
    hosts = ("api.ionq.co",)
    storage = None

    def __init__(self, sim, cfg):
        self.sim, self.cfg = sim, cfg

    def route(self, method, url, q, headers, body):
        if headers.get("Authorization") != f"apiKey {TOKEN}" or not self.sim.token_ok:
            return 401, {"error": "Unauthorized", "message": "bad key"}
        p = url.path
        if p.endswith("/backends"):
            if self.sim.catalogue_off:
                return 200, []
            return 200, [{"backend": k, "qubits": v["nq"], "status": "available"} for k, v in self.cfg["catalogue"].items()]
        if method == "POST" and p.endswith("/jobs"):
            o = json.loads(body)
            bad = None
            prog = []
            try:
                prog = ionq_prog(o["body"]["circuit"])
                locs = o["registers"]["meas_mapped"]
                n = o["body"]["qubits"]
            except Exception as e:  # noqa
                bad, locs, n = f"unreadable payload: {e!r}", [], 1
            j = self.sim.new_job(prog, n, locs, o["shots"], o["target"])
            j.bad = bad or j.bad
            j.meta = o["metadata"]
            if self.sim.refuses():
                self.sim.forget(j)
                return 200, {"status": "failed", "failure": {"code": "Full", "error": "queue"}, "id": j.id}
            return 200, {"id": j.id, "status": "ready"}
        j = self.sim.jobs.get(p.split("/")[-1])
        if j is None:
            return 404, {"error": "Not Found", "message": "no such job"}
        st = self.sim.poll(j)
        if st == "gone":
            return 404, {"error": "Not Found", "message": "no such job"}
        out = {"id": j.id, "status": {"done": "completed", "failed": "failed", "cancelled": "canceled"}.get(st)}
        if st == "pending":
            out["status"] = ["ready", "submitted", "running"][min(j.polls - 1, 2)]
        if st == "done":
            acc = {}
            h = j.histogram()
            tot = sum(c for _, c in h)
            for s, c in h:
                k = str(sum(int(s[l]) << i for i, l in enumerate(j.locs)))
                acc[k] = acc.get(k, 0) + c
            out.update(
                qubits=j.n,
                metadata=j.meta,
                registers={"meas_mapped": j.locs},
                data={"registers": {"meas_mapped": {k: v / tot for k, v in acc.items()}}},
            )
        return 200, out


# ------------------------------------------------------------------------------------------------ AWS
class AWSServer:
    hosts = ()
    storage = None
    ARN = "arn:aws:braket:us-east-1:123456789012:quantum-task/"

    def __init__(self, sim, cfg):
        self.sim, self.cfg = sim, cfg

    def client(self, service, region_name=None, aws_access_key_id=None, aws_secret_access_key=None, **kw):
        self.sim.requests.append(("boto3", ""))
        return _Boto(self, service, region_name, (aws_access_key_id, aws_secret_access_key))


class _Boto:
    def __init__(self, server, service, region, cred):
        self.srv, self.service, self.region, self.cred = server, service, region, cred

    def _pre(self, op):
        from botocore.exceptions import ClientError, EndpointConnectionError

        sim = self.srv.sim
        f = sim.boundary(op)
        if f == "refused":
            raise EndpointConnectionError(endpoint_url=f"https://{self.service}.{self.region}.amazonaws.com/")
        if f in ("err500", "garbage", "missing"):
            raise ClientError({"Error": {"Code": "InternalServiceException", "Message": "internal"}}, op)
        if self.cred != (KEYID, SECRET) or not sim.token_ok:
            raise ClientError({"Error": {"Code": "AccessDeniedException", "Message": "denied"}}, op)
        if f == "err429" or op == "CreateQuantumTask" and sim.refuses():
            raise ClientError({"Error": {"Code": "ThrottlingException" if f else "ServiceQuotaExceededException", "Message": "slow down"}}, op)
        return f

    def _post(self, f, op, val):
        from botocore.exceptions import ClientError, ReadTimeoutError

        if f == "lost":
            raise ReadTimeoutError(endpoint_url=f"https://{self.service}.amazonaws.com/")
        if f == "err502":
            raise ClientError({"Error": {"Code": "InternalServiceException", "Message": "bad gateway"}}, op)
        return val

    def _devs(self):
        off = self.srv.sim.catalogue_off
        return {k: v for k, v in self.srv.cfg["catalogue"].items() if not off and v.get("region", "us-east-1") == self.region}

    def search_devices(self, filters):
        f = self._pre("SearchDevices")
        return self._post(f, "SearchDevices", {"devices": [
            {"deviceArn": f"arn:dev/{k}", "deviceName": k, "deviceType": v.get("type", "QPU")} for k, v in self._devs().items()]})

    def get_device(self, deviceArn):
        f = self._pre("GetDevice")
        k = deviceArn.split("/")[1]
        v = self.srv.cfg["catalogue"][k]
        caps = {
            "braketSchemaHeader": {"name": "x", "version": "1"},
            "paradigm": {"qubitCount": v["nq"], "connectivity": {"fullyConnected": True, "connectivityGraph": {}}},
            "deviceParameters": {
                "properties": {"braketSchemaHeader": {"const": {"name": "a", "version": "1"}}},
                "definitions": {"GateModelParameters": {"properties": {"braketSchemaHeader": {"const": {"name": "b", "version": "1"}}}}},
            },
        }
        return self._post(f, "GetDevice", {"deviceType": v.get("type", "QPU"), "deviceName": k, "deviceCapabilities": json.dumps(caps)})

    def create_quantum_task(self, action, deviceArn, deviceParameters, outputS3Bucket, outputS3KeyPrefix, shots):
        f = self._pre("CreateQuantumTask")
        bad = None
        prog = []
        try:
            for i in json.loads(action)["instructions"]:
                name = i["type"]
                c = i["controls"] if "controls" in i else [i["control"]] if "control" in i else []
                t = i["targets"] if "targets" in i else [i["target"]]
                base = {"cnot": "x", "ccnot": "x", "cy": "y", "cz": "z", "cphaseshift": "phaseshift", "cswap": "swap"}.get(name, name)
                want = {"cnot": 1, "ccnot": 2, "cy": 1, "cz": 1, "cphaseshift": 1, "cswap": 1}.get(name, 0)
                if len(c) != want:
                    raise BadPayload(f"{name} with {len(c)} controls")
                device_matrix(base, [0.0])
                prog.append((base, [i["angle"]] if "angle" in i else [], c, t))
            n = json.loads(deviceParameters)["paradigmParameters"]["qubitCount"]
        except Exception as e:  # noqa
            bad, n = f"unreadable payload: {e!r}", 1
        sim = self.srv.sim
        j = sim.new_job(prog, n, None, shots, deviceArn.split("/")[1])
        j.bad = bad or j.bad
        j.s3 = (outputS3Bucket, outputS3KeyPrefix)
        del sim.jobs[j.id]
        j.id = self.srv.ARN + j.id
        sim.jobs[j.id] = j
        return self._post(f, "CreateQuantumTask", {"quantumTaskArn": j.id})

    def get_quantum_task(self, quantumTaskArn):
        from botocore.exceptions import ClientError

        self.srv.sim.waited.add(quantumTaskArn)
        f = self._pre("GetQuantumTask")
        j = self.srv.sim.jobs.get(quantumTaskArn)
        st = self.srv.sim.poll(j) if j else "gone"
        if st == "gone":
            raise ClientError({"Error": {"Code": "ResourceNotFoundException", "Message": "no such task"}}, "GetQuantumTask")
        name = {"done": "COMPLETED", "failed": "FAILED", "cancelled": "CANCELLED"}.get(st) or ["CREATED", "QUEUED", "RUNNING"][min(j.polls - 1, 2)]
        if st == "cancelled" and j.ended_polls == 1 and j.reply.get("cancelling"):
            name = "CANCELLING"
        out = {"quantumTaskArn": j.id, "status": name, "deviceArn": f"arn:dev/{j.device}", "outputS3Bucket": j.s3[0],
               "outputS3Directory": f"{j.s3[1]}/{j.id.split('/')[-1]}", "shots": j.shots}
        if st == "failed":
            out["failureReason"] = "broken"
        return self._post(f, "GetQuantumTask", out)

    def get_object(self, Bucket, Key):
        f = self._pre("GetObject")
        jid = self.srv.ARN + Key.split("/")[-2]
        j = self.srv.sim.jobs[jid]
        h = j.histogram()
        tot = sum(c for _, c in h)
        if self.srv.cfg["catalogue"][j.device].get("type", "QPU") == "QPU":
            o = {"measurementProbabilities": {s: c / tot for s, c in h}, "measuredQubits": list(range(j.n))}
        else:
            ms = []
            for s, c in h:
                ms += [[int(ch) for ch in s]] * c
            random.Random(j.reply.get("seed", 0)).shuffle(ms)
            o = {"measurements": ms, "measuredQubits": list(range(j.n))}
        return self._post(f, "GetObject", {"Body": io.BytesIO(json.dumps(o).encode())})


# ------------------------------------------------------------------------------------------------ Azure
class AzureServer:
    """Stands in for azure.quantum.Workspace and the blob storage; the SDK's Target and Job classes are real."""

    hosts = ()
    storage = None
    name = "ws"

    def __init__(self, sim, cfg):
        self.sim, self.cfg = sim, cfg
        self.blobs = {}
        self.by_sdk = {}

    def _pre(self, op):
        from azure.core.exceptions import HttpResponseError, ServiceRequestError

        f = self.sim.boundary(op)
        if f == "refused":
            raise ServiceRequestError("connection refused")
        if f in ("err500", "garbage", "missing") or not self.sim.token_ok:
            raise HttpResponseError("Operation returned an invalid status 'Internal Server Error'" if f else "Unauthorized")
        if f == "err429" or op == "submit job" and self.sim.refuses():
            raise HttpResponseError("Operation returned an invalid status 'Too Many Requests'" if f else "(InsufficientQuota) quota exceeded")
        return f

    def _post(self, f, v):
        from azure.core.exceptions import HttpResponseError, ServiceResponseError

        if f == "lost":
            raise ServiceResponseError("read timed out")
        if f == "err502":
            raise HttpResponseError("Operation returned an invalid status 'Bad Gateway'")
        return v

    # Workspace interface used by the SDK's Target, TargetFactory and Job
    def append_user_agent(self, v):
        pass

    def get_latest_session_id(self):
        return None

    def get_container_uri(self, job_id=None, container_name=None):
        return f"https://store.example/job-{job_id}?sv=1&se=2"

    def _get_target_status(self, name, provider_id):
        f = self._pre("target status")
        v = None if self.sim.catalogue_off else self.cfg["catalogue"].get(name)
        out = []
        if v is not None:
            out.append((provider_id, _Status(name, self.sim.availability or v.get("av", "Available"))))
        return self._post(f, out)

    def submit_job(self, job):
        from azure.quantum.job import Job as SDKJob

        f = self._pre("submit job")
        d = job.details
        data = self.blobs[d.input_data_uri]
        bad, prog, n, locs = None, [], 1, None
        shots = (d.input_params or {}).get("shots") or (d.input_params or {}).get("count") or 100
        try:
            if d.target.startswith("ionq"):
                o = json.loads(data)
                prog, n = ionq_prog(o["circuit"]), o["qubits"]
                locs = (d.metadata or {}).get("meas_map")
                locs = json.loads(locs) if isinstance(locs, str) else locs
            else:
                prog, n, locs = qasm_prog(data.decode())
        except Exception as e:  # noqa
            bad = f"unreadable payload: {e!r}"
        j = self.sim.new_job(prog, n, locs, shots, d.target)
        j.bad = bad or j.bad
        del self.sim.jobs[j.id]
        j.sdk = d
        j.id = d.id
        self.sim.jobs[d.id] = j
        d.status = "Waiting"
        return self._post(f, SDKJob(self, d))

    def get_job(self, job_id):
        from azure.core.exceptions import ResourceNotFoundError
        from azure.quantum.job import Job as SDKJob

        self.sim.waited.add(job_id)
        f = self._pre("get job")
        j = self.sim.jobs.get(job_id)
        st = self.sim.poll(j) if j else "gone"
        if st == "gone":
            raise ResourceNotFoundError("no such job")
        d = j.sdk
        d.status = {"done": "Succeeded", "failed": "Failed", "cancelled": "Cancelled"}.get(st) or ["Waiting", "Executing"][min(j.polls - 1, 1)]
        d.output_data_uri = f"https://store.example/out/{job_id}?se=1"
        return self._post(f, SDKJob(self, d))

    def upload(self, data, name):
        f = self._pre("upload")
        uri = f"https://store.example/in/{len(self.blobs)}?se=1"
        self.blobs[uri] = data
        return self._post(f, uri)

    def download(self, uri):
        f = self._pre("download")
        jid = uri.split("/")[-1].split("?")[0]
        j = self.sim.jobs[jid]
        h = j.histogram()
        tot = sum(c for _, c in h)
        if j.device.startswith("ionq"):
            o = {"histogram": {str(int(s[::-1], 2)): c / tot for s, c in h}}
        else:
            c = []
            for s, k in h:
                c += ["".join(ch if i in (j.locs or []) else "0" for i, ch in enumerate(s))] * k
            random.Random(j.reply.get("seed", 0)).shuffle(c)
            o = {"c": c}
        return self._post(f, json.dumps(o).encode())


class _Status:
    def __init__(self, n, av):
        self.id, self.current_availability, self.average_queue_time = n, av, 1


def qasm_prog(text):
    n = int(re.search(r"qreg q\[(\d+)\]", text).group(1))
    if int(re.search(r"creg c\[(\d+)\]", text).group(1)) != n:
        raise BadPayload("register sizes differ")
    prog, locs = [], []
    for line in text.split(";"):
        line = line.strip()
        if not line or line.startswith(("OPENQASM", "include", "qreg", "creg", "barrier")):
            continue
        m = re.fullmatch(r"measure q\[(\d+)\] -> c\[(\d+)\]", line)
        if m:
            if m.group(1) != m.group(2):
                raise BadPayload(line)
            locs.append(int(m.group(1)))
            continue
        m = re.fullmatch(r"(\w+)(?:\(([^)]*)\))?\s+(.*)", line)
        g = m.group(1)
        p = [float(m.group(2))] if m.group(2) else []
        qs = [int(re.fullmatch(r"q\[(\d+)\]", x.strip()).group(1)) for x in m.group(3).split(",")]
        nc = 0
        while g.startswith("c") and g not in ("c",):
            g = g[1:]
            nc += 1
        device_matrix(g, p or [0.0])
        prog.append((g, p, qs[:nc], qs[nc:]))
    return prog, n, locs


SERVERS = {"ibm": IBMServer, "aqt": AQTServer, "ionq": IonQServer, "aws": AWSServer, "azure_ionq": AzureServer, "azure_quantinuum": AzureServer}
SERVICES = list(SERVERS)


# ------------------------------------------------------------------------------------------------ installing the seams
ROUTED = False  # several sessions in threads: every thread sees its own seams
_routes = {}
_plain = {}  # what the routes replaced


def substitute(obj, name, val):
    """obj.name = val until the returned function is called (for this thread only if ROUTED)."""
    raw = obj.__dict__[name] if isinstance(obj, type) else getattr(obj, name)
    if not ROUTED:
        setattr(obj, name, val)
        return lambda: setattr(obj, name, raw)
    static = isinstance(raw, staticmethod) or isinstance(val, staticmethod)
    key = (id(obj), name)
    if key not in _routes:
        table = {}
        plain = raw.__func__ if isinstance(raw, staticmethod) else raw

        def proxy(*a, **k):
            return table.get(threading.get_ident(), plain)(*a, **k)

        _routes[key] = table
        _plain[key] = plain
        setattr(obj, name, staticmethod(proxy) if static else proxy)
    table = _routes[key]
    table[threading.get_ident()] = val.__func__ if isinstance(val, staticmethod) else val
    return lambda: table.pop(threading.get_ident(), None)


@contextlib.contextmanager
def installed(sim, server, service, typed):
    import getpass

    import requests.adapters

    saved = []

    def patch(obj, name, val):
        saved.append(substitute(obj, name, val))

    patch(time, "sleep", sim.sleep)
    patch(time, "time", lambda: 1.6e9 + sim.now)
    patch(time, "monotonic", lambda: sim.now)

    def prompt(prompt="", stream=None):
        sim.res.hit("prompted")
        if not typed:
            raise EOFError("no terminal")
        return SECRET if "SECRET" in prompt else KEYID if "KEY_ID" in prompt else TOKEN

    patch(getpass, "getpass", prompt)
    if service in ("ibm", "aqt", "ionq"):
        h = Http(sim, server)
        patch(requests.adapters.HTTPAdapter, "send", lambda self, request, **kw: h.send(self, request, **kw))
        if service == "aqt":  # its device list is a table in the client: the seam lets devices leave it
            from projectq.backends._aqt._aqt_http_client import AQT

            table = _plain.get((id(AQT), "update_devices_list"), AQT.update_devices_list)

            def update(self, *a, **k):
                table(self, *a, **k)
                if sim.catalogue_off:
                    self.backends.clear()

            patch(AQT, "update_devices_list", update)
    elif service == "aws":
        import boto3

        patch(boto3, "client", server.client)
    else:
        from azure.quantum.job import base_job
        from azure.quantum.job import job as job_mod

        patch(base_job.BaseJob, "upload_input_data", staticmethod(
            lambda container_uri, input_data, content_type=None, blob_name="inputData", encoding="", return_sas_token=False: server.upload(input_data, blob_name)))
        patch(base_job.BaseJob, "download_data", lambda self, uri: server.download(uri))
        patch(job_mod.Job, "submit", job_mod.Job.submit)
    try:
        yield
    finally:
        for undo in reversed(saved):
            undo()


def make_backend(service, cfg, server):
    """The real back-end, configured from the scenario."""
    from projectq import backends as B

    kw = dict(cfg.get("kw", {}))
    kw.setdefault("verbose", bool(cfg.get("verbose")))
    if service in ("ibm", "aqt", "ionq"):
        kw["token"] = None if cfg.get("typed") else TOKEN
        cls = {"ibm": B.IBMBackend, "aqt": B.AQTBackend, "ionq": B.IonQBackend}[service]
        return cls(**kw)
    if service == "aws":
        if not cfg.get("typed"):
            kw["credentials"] = {"AWS_ACCESS_KEY_ID": KEYID, "AWS_SECRET_KEY": SECRET}
        kw["s3_folder"] = ["bucket", "dir"]
        return B.AWSBraketBackend(**kw)
    return B.AzureQuantumBackend(workspace=server, **kw)
