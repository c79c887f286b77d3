"""C11 launching assigns unique ranks and one rendezvous."""
from __future__ import annotations

import errno
import os
import random

from ..runner import Violation
from . import c09

PROP = "C11"
BOOT = ("dst.dtrain", "dst.launch")
QUICK, THOROUGH = 500, 8000
RUN_TIMEOUT = 90
LEVEL = "exploration"
METHOD = ("deterministic simulation: seeded sequences of launches in one program, torchrun and SLURM environments over several nodes, port occupancy and "
          "failing runs injected; the set of ranks, sizes and rendezvous of every launch is checked when the processes join")


def gen(rng: random.Random, i: int, tier: str) -> dict:
    kind = rng.choice(["program", "program", "program", "torchrun", "slurm"])
    p: dict = {"kind": kind, "sched": {"seed": rng.randrange(2**31), "mode": rng.choice(["rr", "rand", "burst"])},
               "occupied": rng.choice([0.0, 0.0, 0.5, 0.9, 0.995]), "occ_seed": rng.randrange(1000)}
    if kind == "program":
        p["user_env"] = rng.choice([{}, {}, {}, {"MASTER_ADDR": "localhost", "MASTER_PORT": "23456"}])
        p["ops"] = [{"n": rng.choice([1, 1, 2, 2, 3, 4]), "api": rng.choice(["trainer", "fun"]), "fail": rng.random() < 0.2,
                     "prebuilt": rng.random() < 0.3, "again": rng.random() < 0.2} for _ in range(rng.randint(1, 4))]
    else:
        p["nodes"], p["per"] = rng.randint(1, 3), rng.randint(1, 3)
        p["gpu"] = rng.choice([0, 0, 1, 2])      # 0: CPU; 1: as many GPUs as processes; 2: more GPUs than processes
        p["fits"] = rng.choice([1, 1, 2])
        p["api"] = rng.choice(["trainer", "fun"]) if not p["gpu"] else "fun"
        p["fail_first"] = False
    return p


LISTS = ["ops"]
LIST_MIN = {"ops": 1}
SIMPLE = {"occupied": 0.0, "sched.mode": "rr", "nodes": 1, "per": 2, "gpu": 0, "fits": 1, "api": "fun", "user_env": {},
          **{f"ops.{j}.{k}": v for j in range(4) for k, v in (("n", 1), ("api", "fun"), ("fail", False), ("prebuilt", False), ("again", False))}}


class Ports:
    """Simulated port table of the host."""

    def __init__(self, frac: float, seed: int):
        self.frac, self.seed = frac, seed
        self.extra: set = set()
        self.tried: list = []

    def busy(self, port: int) -> bool:
        return port in self.extra or random.Random(f"{self.seed}/{port}").random() < self.frac

    def owner(self, port: int) -> str:
        """Address on which the other program listens."""
        return random.Random(f"{self.seed}/{port}/o").choice(["0.0.0.0", "127.0.0.1"])

    def install(self) -> None:
        import socket
        ports = self

        class FakeSocket:
            def __init__(self, *a, **k):
                self.port = None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def bind(self, addr):
                port = int(addr[1])
                if port == 0:
                    port = next(q for q in range(40000, 60000) if not ports.busy(q))
                ports.tried.append(port)
                host = {"": "0.0.0.0", "localhost": "127.0.0.1"}.get(addr[0], addr[0])
                if ports.busy(port) and (host == "0.0.0.0" or ports.owner(port) in ("0.0.0.0", host)):
                    raise OSError(errno.EADDRINUSE, "Address already in use (simulated)")
                self.port = port

            def getsockname(self):
                return ("0.0.0.0", self.port)

            def close(self):
                return None

            def __getattr__(self, n):
                return lambda *a, **k: None
        socket.socket = FakeSocket


def group_ok(ctx, what: str, rows: list, n: int, port=None, addr=None) -> None:
    ctx.check(len(rows) == n, "process-count", f"{what}: {n} processes requested, {len(rows)} ran: {rows}")
    ctx.check(sorted(r[2] for r in rows) == list(range(n)), "ranks", f"{what}: ranks {sorted(r[2] for r in rows)} for {n} processes")
    ctx.check({r[3] for r in rows} == {n}, "world-size", f"{what}: processes see {sorted({r[3] for r in rows})} processes instead of {n}")
    ctx.check(len({r[4:] for r in rows}) == 1, "rendezvous", f"{what}: processes use different rendezvous points {sorted({r[4:] for r in rows})}")
    if port is not None:
        ctx.check(rows[0][5] == str(port), "rendezvous", f"{what}: port {rows[0][5]} instead of the requested {port}")
    if addr is not None:
        ctx.check(rows[0][4] == addr, "rendezvous", f"{what}: address {rows[0][4]} instead of {addr}")


def program(plan: dict, folder: str) -> dict:
    from .. import launch as L
    from .. import simranks
    from ..dtrain import HeadCtx
    from ..seams import S, SimClock
    S.clock = SimClock()
    S.pid = 39000
    S.writers = lambda *a: None
    hc = HeadCtx()
    ports = Ports(plan["occupied"], plan["occ_seed"])
    ports.install()
    os.environ.update(plan["user_env"])
    from qadence.ml_tools.train_utils.accelerator import Accelerator
    out = []

    def construct(op):
        t0 = len(ports.tried)
        try:
            if op["api"] == "trainer":
                tr = L.make_trainer(op["n"], op["fail"], folder)
                return tr, tr.accelerator, ports.tried[t0:]
            acc = Accelerator(nprocs=op["n"], compute_setup="cpu")
            return None, acc, ports.tried[t0:]
        except RuntimeError as e:
            return None, e, ports.tried[t0:]
    built: list = [construct(op) if op["prebuilt"] else None for op in plan["ops"]]
    for j, op in enumerate(plan["ops"]):
        tr, acc, tried = built[j] or construct(op)
        row: dict = {"op": op, "tried": tried, "busy": [ports.busy(p) for p in tried], "rows": [], "error": None, "noport": None}
        out.append(row)
        if isinstance(acc, RuntimeError):
            row["noport"] = str(acc)
            continue
        for rep in range(2 if op["again"] and op["api"] == "trainer" else 1):
            w = simranks.World({**plan["sched"], "seed": plan["sched"]["seed"] + 31 * j + rep}, [], hc, root=None, rng_seed=plan["rng"] % 10000 + j)
            S.spawn = w.spawn
            L.LOCAL.clear()
            err = None
            try:
                if tr is not None:
                    tr.fit()
                else:
                    acc.distribute(L.job)({"acc": acc}, op["fail"])
            except simranks.WorldStop:
                pass
            except Exception as e:
                err = (type(e).__name__, str(e)[:600])
            finally:
                S.spawn = None
            rows = list(L.LOCAL) + [h[1:] for h in w.history if h[1] == "proc"]
            row["rows"].append(rows)
            row["error"] = err
            if w.violation:
                row["violation"] = w.violation
                return {"ops": out, "log": hc.log}
        if rows:
            ports.extra.add(int(rows[0][5]))      # afterwards another program uses that port
    return {"ops": out, "log": hc.log}


def execute(plan: dict, ctx) -> None:
    from ..phases import phase
    if plan["kind"] != "program":
        return cluster(plan, ctx)
    res = phase(lambda em: program(plan, os.path.join(ctx.scratch, "log"))).result
    for x in res["log"]:
        ctx.ev(x)
    for j, row in enumerate(res["ops"]):
        op = row["op"]
        what = f"launch {j + 1} ({op['api']}, nprocs={op['n']})"
        if row["busy"]:
            ctx.fault("port-in-use", sum(row["busy"]))
        if row["noport"] is not None:
            ctx.check(row["busy"] and all(row["busy"]), "no-port", f"{what}: {row['noport']}, tried {row['tried'][-3:]}")
            continue
        if row.get("violation"):
            raise Violation(row["violation"][0], f"{what}: {row['violation'][1]}")
        if op["fail"]:
            ctx.fault("failing-run")
            ctx.check(row["error"] is not None, "failure-hidden", f"{what}: the error of the user's code did not reach the caller")
        else:
            ctx.check(row["error"] is None, "launch-failed", f"{what}: {row['error']}")
        for rows in row["rows"]:
            ctx.ev(what, len(rows))
            if op["fail"] and op["n"] > 1:
                rs = [r[2] for r in rows]     # some processes may have been terminated before they reported
                ctx.check(len(set(rs)) == len(rs) and all(r[3] == op["n"] for r in rows), "ranks", f"{what}: {rows}")
                continue
            group_ok(ctx, what, rows, op["n"], port=plan["user_env"].get("MASTER_PORT"))
            if not plan["user_env"]:
                used = int(rows[0][5])
                ctx.check(used not in row["tried"] or not row["busy"][row["tried"].index(used)], "busy-port",
                          f"{what}: uses port {used}, which was in use when it was chosen")
                ctx.check(used in row["tried"], "port-not-own", f"{what}: uses port {used}, which it did not find to be free (tried {row['tried'][-3:]})")
            if j:
                ctx.probe("launches after other launches")


def cluster(plan: dict, ctx) -> None:
    from ..phases import phase
    nodes, per = plan["nodes"], plan["per"]
    N = nodes * per
    folder = os.path.join(ctx.scratch, "log")

    def head(em):
        import subprocess
        import torch
        from .. import launch as L
        from .. import simranks
        from ..dtrain import HeadCtx
        from ..seams import S
        hc = HeadCtx()
        Ports(plan["occupied"] if plan["occupied"] < 0.99 else 0.5, plan["occ_seed"]).install()
        w = simranks.World(plan["sched"], [], hc, root=None, rng_seed=plan["rng"] % 100000)

        def body_for(g):
            def body(me):
                node, loc = divmod(g, per)
                if plan["gpu"]:
                    torch.cuda.is_available = lambda: True
                    torch.cuda.device_count = lambda: per + (plan["gpu"] - 1)
                    torch.cuda.set_device = lambda d: me.emit("device", d)
                if plan["kind"] == "torchrun":
                    os.environ.update(RANK=str(g), LOCAL_RANK=str(loc), WORLD_SIZE=str(N), TORCHELASTIC_RUN_ID="sim",
                                      MASTER_ADDR="10.0.0.7", MASTER_PORT="29511")
                else:
                    os.environ.update(SLURM_JOB_ID="4711", SLURM_JOB_NUM_NODES=str(nodes), SLURM_NNODES=str(nodes), SLURM_NODEID=str(node),
                                      SLURM_JOB_NODELIST=f"node[0-{nodes - 1}]", SLURM_NODELIST=f"node[0-{nodes - 1}]", SLURMD_NODENAME=f"node{node}")
                    subprocess.check_output = lambda *a, **k: "".join(f"node{q}\n" for q in range(nodes)).encode()
                from qadence.ml_tools.train_utils.accelerator import Accelerator
                for rep in range(plan["fits"]):
                    if plan["api"] == "trainer":
                        tr = L.make_trainer(1 if plan["kind"] == "torchrun" else N, False, os.path.join(folder, str(g)))
                        acc, run = tr.accelerator, tr.fit
                    else:
                        acc = Accelerator(nprocs=1 if plan["kind"] == "torchrun" else N, compute_setup="gpu" if plan["gpu"] else "cpu")
                        dist_job = acc.distribute(L.job)

                        def run():
                            dist_job({"acc": acc}, False)
                    got = []
                    S.spawn = lambda fn, args, n, join: got.append((fn, args, n))
                    run()
                    S.spawn = None
                    if got:      # this node's program starts n processes; this one plays number `loc` of them
                        fn, args, n = got[0]
                        me.emit("spawned", node, n)
                        if loc < n:
                            fn(loc, *args)
                            acc.finalize()
                        for v in ("RANK", "WORLD_SIZE", "LOCAL_RANK", "MASTER_ADDR", "MASTER_PORT"):    # a spawned process ends here
                            if plan["kind"] == "slurm":
                                os.environ.pop(v, None)
            return body
        out: dict = {"error": None}
        try:
            w.run([body_for(g) for g in range(N)])
            w._raise_like_spawn()
        except simranks.WorldStop:
            pass
        except Exception as e:
            out["error"] = (type(e).__name__, str(e)[:2500])
        out.update(violation=w.violation, history=w.history, fired=w.fired, steps=w.steps, switches=w.switches, colls=w.colls, log=hc.log, faults=hc.faults)
        return out
    res = phase(head).result
    c09.absorb(ctx, res, 0)
    what = f"{plan['kind']} with {nodes} nodes x {per} processes ({'GPU' if plan['gpu'] else 'CPU'})"
    if res["violation"]:
        raise Violation(res["violation"][0], f"{what}: {res['violation'][1]}")
    ctx.check(res["error"] is None, "launch-failed", f"{what}: {res['error']}")
    ev = c09.by_rank(res, N)
    for rep in range(plan["fits"]):
        rows = []
        for g, evs in enumerate(ev):
            mine = [e for e in evs if e[0] == "proc"]
            ctx.check(len(mine) == plan["fits"], "process-count", f"{what}: process {g} took part in {len(mine)} of {plan['fits']} runs")
            rows.append(mine[rep])
            for e in evs:
                if e[0] == "spawned":
                    ctx.check(e[2] == per, "process-count", f"{what}: node {e[1]} starts {e[2]} processes")
        group_ok(ctx, what, rows, N, addr="10.0.0.7" if plan["kind"] == "torchrun" else "node0" if N > 1 else None,
                 port=29511 if plan["kind"] == "torchrun" else None)
        if plan["kind"] == "torchrun":
            ctx.check([r[2] for r in rows] == list(range(N)), "ranks", f"{what}: ranks {[r[2] for r in rows]} differ from the ones assigned by torchrun")
    if plan["gpu"] and N > 1:
        for node in range(nodes):
            devs = [[e[1] for e in ev[node * per + q] if e[0] == "device"][0] for q in range(per)]
            ctx.check(len(set(devs)) == per, "devices", f"{what}: processes of node {node} use devices {devs}")
    ctx.probe(plan["kind"] + " launches")


REAL = ["qadence accelerator, distributor, execution, trainer"]
STUB = ["torch.distributed rendezvous", "torch.multiprocessing.spawn", "sockets", "scontrol", "CUDA device queries"]
ASSUME = ["the total number of processes is a multiple of the number of nodes"]
RULE = "the processes of each launch have ranks 0..N-1 exactly once, agree on N = the requested number and on one rendezvous; a busy port is never chosen"


def warm() -> None:
    from .. import train as T
    T.warm(kinds=("lin",), opts=("sgd",))
