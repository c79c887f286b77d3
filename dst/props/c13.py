"""C13 waiting for a cloud result."""
from __future__ import annotations

import random

from ..runner import Violation
from ..seams import S, SimBudget, SimClock
from ..simcloud import Cloud, connect

PROP = "C13"
BOOT = ("qadence.pasqal_cloud_connection",)
QUICK, THOROUGH = 1200, 40000
LEVEL = "exploration"
METHOD = ("seeded workload life cycles, request latencies, stalls, failures, sleep overshoot and wall-clock jumps in simulated time behind the HTTP "
          "boundary of the real SDK; every wait judged against the recorded service history")
RULE = ("one run = 1-4 waits on 1-3 workloads under one seeded service and network history; non-trivial = at least one wait that slept or met a fault")
REAL = ["qadence.pasqal_cloud_connection", "pasqal_cloud SDK with its own HTTP retries"]
STUB = ["HTTP transport and the service behind it", "clock and sleep"]
ASSUME = ["a request is one SDK call including the SDK's own retries", "a request that fails is reported to the caller"]
LISTS = ["waits", "net", "jumps"]
LIST_MIN = {"waits": 1}
SIMPLE = {"lat": 0.0, "overshoot": 0.0, "tick": 0.0}
EPS = 1e-6
STOP = ("CANCELED", "TIMED_OUT", "ERROR")


def gen(rng: random.Random, i: int, tier: str) -> dict:
    nw = rng.choice([1, 1, 2, 3])
    lat = rng.choice([0.0, 0.0, 0.01, 0.3, 2.0])
    lives = []
    for _ in range(nw):
        t, life = 0.0, [[0.0, "PENDING"]]
        for _ in range(rng.randint(0, 3)):
            t += rng.choice([0.1, 0.5, 1.0, 2.0, 5.0]) * rng.choice([1, 1, rng.random()])
            life.append([t, rng.choice(["RUNNING", "PAUSED", "PENDING"])])
        if rng.random() < 0.85:
            t += rng.choice([0.0, 0.3, 1.0, 3.0, 4.0, 30.0]) * rng.choice([1, 1, rng.random()])
            life.append([t, rng.choice(["DONE"] * 4 + list(STOP) + ["weird"])])
        lives.append(life)
    waits = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        to = rng.choice([0.05, 0.5, 0.99, 1.0, 2.5, 4.0, 4.0, 10.0, 60.0, round(rng.uniform(0.01, 12), 3)])
        rf = rng.choice([0.1, 0.25, 1.0, 1.0, 1.5, 3.0, 7.0, round(rng.uniform(0.05, 5), 3)])
        w = {"w": rng.randrange(nw), "timeout": to, "refresh": rf, "gap": rng.choice([0.0, 0.0, 0.5, 3.0]), "kw": rng.choice(["kw", "pos", "def"])}
        waits.append(w)
        if rng.random() < 0.35:      # finish exactly around the deadline
            lives[w["w"]] = [[0.0, "PENDING"], [to + rng.choice([-0.3, -0.02, 0.0, 0.02, 0.5 * rf]), rng.choice(["DONE", "DONE", "ERROR"])]]
    net = []
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 2, 3])):
            net.append({"at": rng.randrange(nw, nw + 12), "kind": rng.choice(["refused", "stall", "stall", "http", "http", "lost", "read_timeout", "garbled"]),
                        "d": rng.choice([0.5, 3.0, 20.0]), "code": rng.choice([400, 404, 503, 500, 502, 429])})
    jumps = [{"at": rng.randrange(1, 10), "d": rng.choice([-86400.0, -3.0, 5.0, 3600.0])} for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"lives": lives, "waits": waits, "lat": lat, "latseed": rng.randrange(1 << 30), "net": net, "jumps": jumps,
            "overshoot": rng.choice([0.0, 0.0, 0.0, 0.05, 0.5]), "tick": rng.choice([0.0, 0.0, 1e-5])}


def execute(plan, ctx):
    import qadence.pasqal_cloud_connection as Q
    clock = S.clock = SimClock(max_events=60000)
    clock.tick_per_read = plan["tick"]
    lr = random.Random(plan["latseed"])

    def latency(k):
        if not plan["lat"]:
            return 0.0, 0.0
        return lr.random() * plan["lat"], lr.random() * plan["lat"]
    served = []

    def emit(*a):
        if a[0] == "served":
            served.append(a[1:])
        ctx.ev(*[f"{x:.6f}" if isinstance(x, float) else x for x in a])
    cloud = Cloud(clock, emit, plan["lives"], latency, {f["at"]: f for f in plan["net"]})
    conn = connect(cloud)
    ids = []
    for _ in plan["lives"]:
        ids.append(conn.create_workload("qadence_circuit", "pyqtorch", {"n": len(ids)}).id)
    slept = [0]
    over = random.Random(plan["latseed"] + 1)
    fired_jumps = set()

    def on_sleep(d):
        slept[0] += 1
        for j, f in enumerate(plan["jumps"]):
            if f["at"] == slept[0] and j not in fired_jumps:
                fired_jumps.add(j)
                clock.wall_offset += f["d"]
                ctx.fault("wall_clock_jump")
        return d + (over.random() * plan["overshoot"] if plan["overshoot"] else 0.0)
    clock.on_sleep = on_sleep
    for wi, w in enumerate(plan["waits"]):
        wid = ids[w["w"]]
        clock.t += w["gap"]
        cloud.calls.clear()
        served.clear()
        f0 = dict(cloud.fired)
        t0 = clock.t
        timeout, refresh = w["timeout"], w["refresh"]
        if w["kw"] == "def":
            timeout, refresh = 60.0, 1.0
        out, val = None, None
        ns = len(clock.sleeps)
        try:
            if w["kw"] == "def":
                val = Q.get_result(conn, wid)
            elif w["kw"] == "pos":
                val = Q.get_result(conn, wid, timeout, refresh)
            else:
                val = Q.get_result(conn, workload_id=wid, refresh_time=refresh, timeout=timeout)
            out = "value"
        except SimBudget:
            raise Violation("no-progress", f"waiting {timeout} s with refresh {refresh} s never ends: {len(clock.sleeps) - ns} sleeps")
        except TimeoutError:
            out = "timeout"
        except Q.WorkloadStoppedError:
            out = "stopped"
        except Q.WorkloadNotDoneError:
            out = "notdone"
        except Exception as e:
            out = type(e).__name__
            val = e
        t1 = clock.t
        calls = list(cloud.calls)
        life = cloud.work[wid]
        ctx.ev("wait", wi, wid, f"{timeout} {refresh}", out, f"{t1 - t0:.6f}", len(calls), f"{len(served)} {[s[1] for s in served][-1:]}")
        ctx.steps += len(calls) + len(clock.sleeps) - ns
        faults = {k: v - f0.get(k, 0) for k, v in cloud.fired.items() if v != f0.get(k, 0)}
        failing = [c for c in calls if not c["ok"]]
        if any(c["op"] == "create" for c in calls):
            raise Violation("resubmitted", "waiting for a workload submitted a workload")
        if any((list(c["a"]) + list(c["k"].values()))[:1] != [wid] for c in calls if c["op"] == "get"):
            raise Violation("wrong-workload", f"asked for {wid}, requested {[c['a'] for c in calls]}")
        final = [s for s in served if s[1] == "DONE"]
        if out == "value":
            if getattr(val, "id", None) != wid or val.status != "DONE" or (val.result or {}).get("of") != wid:
                raise Violation("wrong-result", f"waiting for {wid} returned {val!r}")
            if not final or final[-1][0] != wid:
                raise Violation("not-done", "a result was returned although the service never said DONE")
        elif out == "stopped":
            if not served or served[-1][1] not in STOP:
                raise Violation("false-stop", f"reported as stopped but the service said {served[-1:]}")
        elif out == "timeout":
            if t1 - t0 < timeout - EPS:
                raise Violation("early-timeout", f"timeout {timeout} s raised after {t1 - t0:.6f} s")
            st = cloud.status(life, t0 + timeout - EPS)
            if st not in ("PENDING", "RUNNING", "PAUSED"):
                raise Violation("missed-result", f"workload was {st} by {timeout} s (since {life['t0'] + life['life'][-1][0] - t0:.3f} s) but a timeout was raised "
                                f"after {t1 - t0:.3f} s and {len(calls)} requests")
            if any(s[1] not in ("PENDING", "RUNNING", "PAUSED") for s in served):
                raise Violation("missed-result", f"the service answered {served[-1]} but a timeout was raised")
        elif failing:
            pass         # the failure of a request reached the caller
        elif out == "ValueError" and served and served[-1][1] == "weird":
            pass
        else:
            raise Violation("wrong-error", f"waiting raised {out}: {val!r}; service said {served[-1:]}; faults {faults}")
        if failing and out in ("value", "timeout", "stopped") and not any(c["ok"] for c in calls[calls.index(failing[-1]) + 1:]) and out != "timeout":
            raise Violation("swallowed-error", f"the last request failed but waiting reported {out}")
        # never much later than the timeout
        last2 = sum(c["t1"] - c["t0"] for c in calls[-2:])
        slack = refresh + last2 + 2 * plan["overshoot"] + 50 * plan["tick"] + EPS
        if t1 - t0 > timeout + slack:
            raise Violation("late", f"waiting with timeout {timeout} s ended ({out}) after {t1 - t0:.3f} s; allowed one refresh ({refresh}) and the last two requests "
                            f"({last2:.3f})")
        # promptness: refreshes are about refresh_time apart
        if len(clock.sleeps) > ns or faults:
            ctx.probe("slept_or_faulted")
        ctx.state_keys.append(f"{out}|{len(calls) > 2}|{sorted(faults)}|{bool(plan['jumps'])}")
    for k, v in cloud.fired.items():
        ctx.fault(k, v)
    ctx.sim_time += clock.t
    ctx.nontrivial = len(clock.sleeps) > 0 or bool(cloud.fired)
