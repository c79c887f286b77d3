"""A simulated Pasqal Cloud behind the HTTP boundary: the real pasqal_cloud SDK runs unmodified, `requests` is the seam.

Service time is simulated time. Every HTTP request has a latency, split into the way there and the way back; the service
looks at (or changes) its state at the moment in between."""
from __future__ import annotations

import json
from typing import Any

from .seams import S

ISO = "2026-01-01T00:00:00Z"


class Resp:
    def __init__(self, status: int, data: Any, url: str):
        self.status_code = status
        self._data = data
        self.url = url
        self.text = json.dumps(data) if not isinstance(data, bytes) else "<html>"
        self.reason = "sim"
        self.headers: dict = {}

    def json(self) -> Any:
        if isinstance(self._data, bytes):
            raise ValueError("no json")
        return json.loads(json.dumps(self._data))

    def raise_for_status(self) -> None:
        import requests
        if self.status_code >= 400:
            raise requests.HTTPError(f"{self.status_code} Error for url: {self.url}", response=self)


class Cloud:
    """lifecycles: list (one per created workload, in creation order) of [(time after creation, status), ...]."""

    def __init__(self, clock: Any, emit: Any, lifecycles: list, latency: Any, net: dict[int, dict]):
        self.clock = clock
        self.emit = emit
        self.life = lifecycles
        self.latency = latency     # callable -> (there, back)
        self.net = net             # request number -> fault
        self.nreq = 0
        self.work: dict[str, dict] = {}
        self.fired: dict[str, int] = {}

    def status(self, w: dict, t: float) -> str:
        st = w["life"][0][1]
        for dt, s in w["life"]:
            if w["t0"] + dt <= t:
                st = s
        return st

    def view(self, wid: str) -> dict:
        w = self.work[wid]
        st = self.status(w, self.clock.t)
        d = {"id": wid, "project_id": "p", "status": st, "backend": w["req"]["backend"], "workload_type": w["req"]["workload_type"],
             "config": w["req"]["config"], "created_at": ISO, "updated_at": ISO, "errors": ["boom"] if st == "ERROR" else None}
        if st == "DONE":
            d["result"] = {"of": wid}
        return d

    def request(self, method: str, url: str, json: Any = None, **kw: Any) -> Resp:
        import copy
        import requests
        k = self.nreq
        self.nreq += 1
        f = self.net.get(k)
        there, back = self.latency(k)
        path = url.split("/api/")[-1] if "/api/" in url else url
        payload = copy.deepcopy(json)

        def fire():
            self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1
            self.emit("net", k, f["kind"], method)
        if f and f["kind"] == "refused":           # never reaches the service
            fire()
            self.clock.t += there
            raise requests.ConnectionError("simulated connection failure")
        if f and f["kind"] == "stall":
            fire()
            there += f["d"]
        self.clock.t += there
        if f and f["kind"] == "http":
            fire()
            self.clock.t += back
            return Resp(f["code"], {"status": "error", "code": str(f["code"]), "message": "no", "data": {}}, url)
        if method == "POST" and path.endswith("/workloads"):
            wid = f"w{len(self.work):03d}-{k}"
            self.work[wid] = {"req": payload, "t0": self.clock.t, "life": self.life[len(self.work) % len(self.life)]}
            self.emit("created", wid, self.clock.t)
            data = self.view(wid)
        elif method == "GET" and "/workloads/" in path:
            wid = path.rsplit("/", 1)[-1]
            if wid not in self.work:
                self.clock.t += back
                return Resp(404, {"status": "fail", "code": "404", "message": "not found", "data": {}}, url)
            data = self.view(wid)
            self.emit("served", wid, data["status"], self.clock.t)
        elif method == "PUT" and path.endswith("/cancel"):
            wid = path.split("/")[-2]
            w = self.work[wid]
            w["life"] = [(dt, s) for dt, s in w["life"] if w["t0"] + dt <= self.clock.t] + [(self.clock.t - w["t0"], "CANCELED")]
            data = self.view(wid)
        else:
            raise RuntimeError(f"unexpected request {method} {url}")
        if f and f["kind"] == "lost":              # the service acted, the answer is lost
            fire()
            self.clock.t += back
            raise requests.ConnectionError("simulated loss of the response")
        if f and f["kind"] == "read_timeout":
            fire()
            self.clock.t += 30.0
            raise requests.exceptions.ReadTimeout("simulated")
        if f and f["kind"] == "garbled":
            fire()
            self.clock.t += back
            return Resp(200, b"<html>", url)
        self.clock.t += back
        return Resp(200, {"status": "success", "code": "200", "message": "OK", "data": data}, url)


def connect(cloud: Cloud) -> Any:
    """A real SDK connected to the simulated cloud (installs the transport)."""
    import requests
    import pasqal_cloud
    from pasqal_cloud.authentication import TokenProvider

    class Token(TokenProvider):
        def get_token(self):
            return "token"

    requests.request = lambda method, url, **k: cloud.request(method, url, **k)
    requests.get = lambda url, **k: cloud.request("GET", url, **k)
    import requests.api
    requests.api.request = requests.request

    if not hasattr(cloud, "calls"):
        cloud.calls = []
    calls = cloud.calls

    class Recorded(pasqal_cloud.SDK):
        def get_workload(self, *a, **k):
            t = cloud.clock.t
            c = {"op": "get", "a": a, "k": k, "t0": t, "t1": None, "ok": False}
            calls.append(c)
            try:
                r = super().get_workload(*a, **k)
                c["ok"] = True
                c["status"] = r.status
                return r
            finally:
                c["t1"] = cloud.clock.t

        def create_workload(self, *a, **k):
            c = {"op": "create", "t0": cloud.clock.t, "t1": None, "ok": False}
            calls.append(c)
            try:
                r = super().create_workload(*a, **k)
                c["ok"] = True
                c["id"] = r.id
                return r
            finally:
                c["t1"] = cloud.clock.t

    return Recorded(token_provider=Token(), project_id="p")
