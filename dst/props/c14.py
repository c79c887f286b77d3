"""C14 a cloud workload is submitted once and arrives exactly as specified."""
from __future__ import annotations

import json
import random

from .. import programs as G
from ..runner import Violation
from ..seams import S, SimBudget, SimClock
from ..simcloud import Cloud, connect

PROP = "C14"
BOOT = ("qadence", "qadence.pasqal_cloud_connection", "qadence.ml_tools")
QUICK, THOROUGH = 500, 15000
LEVEL = "exploration"
METHOD = ("seeded interleavings of several clients' submissions, status checks and waits on one simulated service behind the HTTP boundary of the real SDK, "
          "with connection failures before and after delivery, refusals and stalls; the service log is compared with the specifications")
RULE = ("one run = 1-3 clients with up to 4 workloads each; another client may run while a request is on the wire; every arrived payload is decoded and "
        "executed; non-trivial = more than one submission or a network fault")
REAL = ["qadence.pasqal_cloud_connection, serialization, pyqtorch backend (client and service side)", "pasqal_cloud SDK with its own HTTP retries"]
STUB = ["HTTP transport and the service behind it", "clock and sleep"]
ASSUME = ["errors answered with a status the SDK itself retries are injected only before the service acts", "clients are switched at HTTP requests only"]
LISTS = ["clients", "net"]
LIST_MIN = {"clients": 1}
SIMPLE = {"nestp": 0.0}


def gen_work(rng, j, k):
    spec = G.gen_circuit(rng, prefix=f"c{j}w{k}_", hamevo=False, u=0.08)
    obs = G.parametrise_obs(rng, G.gen_obs(rng, spec["n"], ident=False, paulis="XYZN"), spec, f"c{j}w{k}_", 0.2, feat=False)
    vals = G.gen_values(rng, spec)
    for nm in list(vals):
        if rng.random() < 0.3:
            vals[nm] = vals[nm][0]
    for nm in sorted(vals):      # values that are false in a boolean context are values, too
        if rng.random() < 0.15:
            vals[nm] = [0.0] * len(vals[nm]) if isinstance(vals[nm], list) else 0.0
    rts = rng.sample(["run", "sample", "expectation"], rng.randint(1, 3))
    if rng.random() < 0.1:
        rts = rts + rts[:1]
    return {"spec": spec, "vals": vals, "f32": rng.random() < 0.3, "rts": rts,
            "obs": obs if "expectation" in rts or rng.random() < 0.3 else None,
            "backend": rng.choice(["enum", "str"]), "via": rng.choice(["spec", "spec", "model"]), "novals": not vals and rng.random() < 0.5}


def gen(rng: random.Random, i: int, tier: str) -> dict:
    clients = []
    for j in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        nw = rng.randint(1, 3)
        for k in range(nw):
            ops.append({"op": "submit", "work": gen_work(rng, j, k)})
            if rng.random() < 0.6:
                ops.append({"op": rng.choice(["status", "wait"]), "w": rng.randrange(k + 1)})
        if rng.random() < 0.2:
            ops.insert(rng.randrange(1, len(ops) + 1), {"op": "again", "w": 0})
        clients.append({"ops": ops, "conn": rng.randrange(2)})
    net = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2, 3])):
            net.append({"at": rng.randrange(10), "kind": rng.choice(["refused", "lost", "http", "http", "stall", "read_timeout", "garbled"]),
                        "d": 3.0, "code": rng.choice([400, 401, 403, 422, 503, 500, 502, 429, 504])})
    lives = [[[0.0, "PENDING"], [rng.choice([0.0, 0.5, 3.0]), rng.choice(["DONE", "DONE", "ERROR"])]] for _ in range(rng.randint(1, 4))]
    return {"clients": clients, "net": net, "lives": lives, "nestp": rng.choice([0.0, 0.3, 0.7]), "sched": rng.randrange(1 << 30),
            "lat": rng.choice([0.0, 0.2])}


def make_spec(Q, w):
    """Returns (WorkloadSpec, expectation of what must arrive)."""
    import torch
    from qadence import QuantumModel
    from qadence.types import BackendName
    circ = G.build_circuit(w["spec"])
    obs = G.build_obs(w["obs"], w["spec"]) if w["obs"] else None
    dt = torch.float32 if w["f32"] else torch.float64
    vals = {}
    for k, v in w["vals"].items():
        vals[k] = torch.tensor(v, dtype=dt)
    pv = None if (w["novals"] or not vals) else vals
    rts = [Q.ResultType(r) for r in w["rts"]]
    if w["via"] == "model":
        m = QuantumModel(circ, backend=BackendName.PYQTORCH if w["backend"] == "enum" else "pyqtorch")
        s = Q.workload_spec(m, rts, pv, obs)
    else:
        s = Q.WorkloadSpec(circ, BackendName.PYQTORCH if w["backend"] == "enum" else "pyqtorch", rts, pv, obs)
    return s, vals


def check_arrived(req, w, vals, where):
    try:
        _check_arrived(req, w, vals, where)
    except (Violation, SimBudget):
        raise
    except Exception as e:
        raise Violation("undecodable", f"{where}: what arrived cannot be decoded and run ({type(e).__name__}: {str(e)[:200]})")


def _check_arrived(req, w, vals, where):
    """Decode what arrived at the service and compare with what was specified."""
    import numpy as np
    import torch
    from qadence import QuantumModel, deserialize
    if req["workload_type"] != "qadence_circuit":
        raise Violation("wrong-type", f"{where}: workload type {req['workload_type']}")
    if req["backend"] != "pyqtorch":
        raise Violation("wrong-backend", f"{where}: backend {req['backend']!r}")
    cfg = req["config"]
    if list(cfg["result_types"]) != w["rts"]:
        raise Violation("wrong-result-types", f"{where}: {cfg['result_types']} instead of {w['rts']}")
    got = json.loads(cfg["c_values"])
    if sorted(got) != sorted(vals):
        raise Violation("wrong-values", f"{where}: parameters {sorted(got)} instead of {sorted(vals)}")
    for k, v in vals.items():
        if got[k] != v.tolist():
            raise Violation("wrong-values", f"{where}: {k} arrived as {got[k]} instead of {v.tolist()}")
    circ = deserialize(json.loads(cfg["circuit"]))
    if circ.n_qubits != w["spec"]["n"]:
        raise Violation("wrong-circuit", f"{where}: {circ.n_qubits} qubits")
    if (w["obs"] is None) != ("observable" not in cfg or cfg["observable"] is None):
        raise Violation("wrong-observable", f"{where}: observable presence differs")
    obs = deserialize(json.loads(cfg["observable"])) if w["obs"] else None
    qm = QuantumModel(circ, obs)
    t = {k: torch.tensor(v, dtype=torch.float64).reshape(-1) for k, v in got.items()}
    with torch.no_grad():
        wf = qm.run(t).numpy()
        ex = qm.expectation(t).numpy() if obs is not None else None
    B = max([len(x) for x in t.values()], default=1)
    for b in range(B):
        f = {**w["spec"]["f"], **{k: float(v[b] if len(v) > 1 else v[0]) for k, v in t.items()}}
        ref = G.state_of(w["spec"], f=f)
        if abs(ref - wf[min(b, len(wf) - 1)]).max() > 1e-5:
            raise Violation("wrong-circuit", f"{where}: the arrived circuit prepares another state (difference {abs(ref - wf[min(b, len(wf)-1)]).max():.3g})")
        if ex is not None:
            e = (ref.conj() @ G.obs_matrix(w["obs"], w["spec"]["n"], w["spec"]["v"], f) @ ref).real
            if abs(e - ex[min(b, len(ex) - 1), 0]) > 1e-5:
                raise Violation("wrong-observable", f"{where}: the arrived observable gives {ex[min(b, len(ex)-1), 0]:.6f} instead of {e:.6f}")


def execute(plan, ctx):
    import qadence.pasqal_cloud_connection as Q
    clock = S.clock = SimClock(max_events=60000)
    rng = random.Random(plan["sched"])
    log = []
    cloud = Cloud(clock, lambda *a: (log.append(a), ctx.ev(*[f"{x:.3f}" if isinstance(x, float) else x for x in a])), plan["lives"],
                  lambda k: (rng.random() * plan["lat"], rng.random() * plan["lat"]), {f["at"]: f for f in plan["net"]})
    conns = [connect(cloud), connect(cloud)]
    calls = cloud.calls

    clients = plan["clients"]
    pos = [0] * len(clients)
    busy = set()
    subs = [[] for _ in clients]           # per client: dict(work, vals, id | error)
    arrived: dict[str, tuple] = {}
    depth = [0]

    def runnable():
        return [j for j in range(len(clients)) if j not in busy and pos[j] < len(clients[j]["ops"])]

    real_request = cloud.request

    def request(method, url, **kw):
        if plan["nestp"] and depth[0] < 4 and rng.random() < plan["nestp"]:
            step()
        r = real_request(method, url, **kw)
        if plan["nestp"] and depth[0] < 4 and rng.random() < plan["nestp"] / 2:
            step()
        return r
    import requests
    requests.request = lambda method, url, **k: request(method, url, **k)

    def step():
        js = runnable()
        if not js:
            return False
        j = rng.choice(js)
        busy.add(j)
        depth[0] += 1
        if depth[0] > 1:
            ctx.fault("switch_on_the_wire")
        try:
            do(j, clients[j]["ops"][pos[j]])
        finally:
            pos[j] += 1
            busy.discard(j)
            depth[0] -= 1
        return True

    def do(j, op):
        conn = conns[clients[j]["conn"]]
        ctx.steps += 1
        if op["op"] in ("submit", "again"):
            if op["op"] == "again":
                if not subs[j]:
                    return
                w, spec, vals = subs[j][0]["work"], subs[j][0]["spec"], subs[j][0]["vals"]
            else:
                w = op["work"]
                spec, vals = make_spec(Q, w)
            rec = {"work": w, "spec": spec, "vals": vals, "id": None, "err": None, "client": j, "k": len(subs[j]), "created": [], "posts": 0}
            subs[j].append(rec)
            stack.append(rec)
            try:
                rec["id"] = Q.submit_workload(conn, spec)
            except SimBudget:
                raise Violation("no-progress", "submission never ends")
            except Violation:
                raise
            except Exception as e:
                rec["err"] = type(e).__name__
            finally:
                stack.remove(rec)
            ctx.ev("submit", j, rec["k"], rec["id"], rec["err"])
            return
        rec = subs[j][op["w"]] if op["w"] < len(subs[j]) else None
        if rec is None or rec["id"] is None:
            return
        try:
            r = Q.check_status(conn, rec["id"]) if op["op"] == "status" else Q.get_result(conn, rec["id"], timeout=5.0, refresh_time=1.0)
        except SimBudget:
            raise Violation("no-progress", "waiting never ends")
        except Violation:
            raise
        except Exception as e:
            ctx.ev(op["op"], j, type(e).__name__)
            return
        ctx.ev(op["op"], j, r.id, r.status)
        if r.id != rec["id"] or (r.result or {}).get("of") != rec["id"]:
            raise Violation("mixed-up", f"client {j} asked for {rec['id']} and got {r.id} with the result of {r.result}")

    stack: list = []
    orig_emit = cloud.emit

    def emit(*a):
        orig_emit(*a)
        if a[0] == "created":
            if not stack:
                raise Violation("unexpected-submission", "a workload was created outside any submission")
            stack[-1]["created"].append(a[1])
    cloud.emit = emit
    while step():
        pass
    nsub = 0
    for j, rs in enumerate(subs):
        for rec in rs:
            nsub += 1
            where = f"client {j} workload {rec['k']}"
            if len(rec["created"]) > 1:
                raise Violation("duplicate-submission", f"{where}: one submission created {rec['created']}")
            if rec["err"] is None:
                if rec["created"] != [rec["id"]]:
                    raise Violation("wrong-id", f"{where}: returned {rec['id']!r}, created {rec['created']}")
            for wid in rec["created"]:
                check_arrived(cloud.work[wid]["req"], rec["work"], rec["vals"], where)
    failed_creates = [c for c in calls if c["op"] == "create" and not c["ok"]]
    errs = sum(1 for rs in subs for r in rs if r["err"])
    if len(failed_creates) != errs:
        raise Violation("swallowed-error", f"{len(failed_creates)} submissions failed at the service, {errs} were reported to the caller")
    if sum(1 for c in calls if c["op"] == "create") != nsub:
        raise Violation("resubmitted", f"{nsub} submissions made {sum(1 for c in calls if c['op'] == 'create')} creation requests")
    if len(cloud.work) != sum(len(r["created"]) for rs in subs for r in rs):
        raise Violation("unexpected-submission", "workloads without a submission")
    for k, v in cloud.fired.items():
        ctx.fault(k, v)
    ctx.sim_time += clock.t
    ctx.nontrivial = nsub > 1 or bool(cloud.fired)
