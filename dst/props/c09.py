"""C09 distributed replicas stay identical and terminate together."""
from __future__ import annotations

import os
import random

from ..runner import Violation

PROP = "C09"
BOOT = ("dst.dtrain",)
QUICK, THOROUGH = 320, 6000
RUN_TIMEOUT = 90
LEVEL = "exploration"
METHOD = ("deterministic simulation: 2-4 real rank processes scheduled one at a time by a seeded coordinator at every collective, "
          "file effect and user callback; interrupts and process kills injected; collective matching, deadlock and replica equality checked")


def gen(rng: random.Random, i: int, tier: str) -> dict:
    n = rng.choice([2, 2, 2, 3, 4])
    kind = rng.choice(["finite", "finite", "shuffled", "infinite", "none", "dict"])
    data = {"kind": kind, "n": rng.randint(1, 9), "batch": rng.randint(1, 4)}
    if kind == "dict":
        data = {"kind": "dict", "parts": {"a": {"kind": rng.choice(["finite", "infinite"]), "n": rng.randint(2, 6), "batch": rng.randint(1, 3)},
                                          "b": {"kind": rng.choice(["finite", "infinite"]), "n": rng.randint(2, 6), "batch": rng.randint(1, 3)}}}
    cfg = {"model": "lin", "opt": rng.choice(["adam", "adam", "sgdm", "sgd", "rms"]), "data": data,
           "checkpoint_every": rng.choice([0, 1, 1, 2]), "val_every": rng.choice([0, 0, 1, 2, 3]), "reduce": rng.random() < 0.5,
           "write_every": rng.choice([0, 1]), "lr_sched": rng.random() < 0.2, "early": rng.choice([0, 0, 0, 1, 2]),
           "per_run": rng.random() < 0.15}
    phases = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        mode = rng.choice(["rr", "rand", "rand", "bias", "burst"])
        ph = {"max_iter": rng.randint(0, 3), "nprocs": n if rng.random() < 0.8 else rng.choice([2, 3]),
              "sched": {"seed": rng.randrange(2**31), "mode": mode, "slow": rng.randrange(n)}, "faults": []}
        q = rng.random()
        if q < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                ph["faults"].append({"kind": "ki", "rank": rng.randrange(n), "point": rng.randint(1, 40)})
        elif q < 0.45:
            ph["faults"].append({"kind": "kill", "rank": rng.randrange(n), "grant": rng.randint(1, 90), "grace": rng.choice([0, 0, 3, 20])})
        phases.append(ph)
    launch = rng.choice(["spawn", "spawn", "torchrun"])
    if launch == "torchrun":    # models made of quantum circuits cannot be sent to spawned processes
        cfg["model"] = rng.choice(["lin", "qnn"])
        for ph in phases:
            ph["fits"] = rng.choice([1, 1, 2])
    return {"launch": launch, "cfg": cfg, "phases": phases}


LISTS = ["phases", "phases.0.faults", "phases.1.faults"]
LIST_MIN = {"phases": 1}
SIMPLE = {"launch": "spawn", "cfg.model": "lin", "cfg.opt": "sgd", "cfg.val_every": 0, "cfg.write_every": 0, "cfg.lr_sched": False, "cfg.early": 0,
          "cfg.reduce": False, "cfg.per_run": False, "cfg.checkpoint_every": 0, "cfg.data.kind": "finite", "cfg.data.n": 2, "cfg.data.batch": 1,
          "phases.0.max_iter": 0, "phases.1.max_iter": 0, "phases.0.nprocs": 2, "phases.1.nprocs": 2,
          "phases.0.sched.mode": "rr", "phases.1.sched.mode": "rr"}


def by_rank(res: dict, n: int) -> list:
    out = [[] for _ in range(n)]
    for h in res["history"]:
        out[h[0]].append(h[1:])
    return out


def absorb(ctx, res, k) -> None:
    for line in res["log"]:
        ctx.ev(k, line)
    for f, c in res["faults"].items():
        ctx.fault(f, c)
    ctx.steps += res["steps"]
    ctx.probe("process switches", res["switches"])
    ctx.probe("collectives", len(res["colls"]))
    if res["switches"]:
        ctx.fault("schedule-preemption", res["switches"])


def fatal(ctx, res, ph, k) -> bool:
    """Common outcome checks; True if the phase ended by a planned kill."""
    killed = any(f["kind"] == "kill" for f in res["fired"])
    if res["violation"]:
        raise Violation(res["violation"][0], f"fit {k}: {res['violation'][1]}")
    if res["error"] and not killed:
        raise Violation("training-failed", f"fit {k}: {res['error'][0]}: {res['error'][1]}")
    return killed


def check_replicas(ctx, res, ph, k, killed) -> None:
    n = ph["nprocs"]
    ev = by_rank(res, n)
    # replicas: parameters after every optimizer step, state at start and end
    steps = [[e[1] for e in evs if e[0] == "step"] for evs in ev]
    for s in range(max(map(len, steps), default=0)):
        vs = [(r, st[s]) for r, st in enumerate(steps) if s < len(st)]
        ctx.check(all(v == vs[0][1] for _, v in vs), "replicas-differ", f"fit {k}, optimizer step {s}: parameters differ between processes: {vs}")
    for stage in ("train_start", "train_end"):
        cs = [[e for e in evs if e[0] == "cb" and e[1] == stage] for evs in ev]
        for j in range(max(map(len, cs), default=0)):
            rows = {(c[j][2], c[j][5], c[j][6]) for c in cs if j < len(c)}
            ctx.check(len(rows) <= 1, "replicas-differ", f"fit {k}: at {stage} processes disagree on iteration, parameters or optimizer state: {sorted(map(str, rows))}")
    if killed:
        return
    ctx.check(all(len(st) == len(steps[0]) for st in steps), "step-count", f"fit {k}: numbers of optimizer steps {[len(s) for s in steps]}")
    ctx.check(all(any(e[0] == "exit" for e in evs) for evs in ev), "did-not-terminate", f"fit {k}: {res['states']}")
    # every process runs the same epochs in each of its fits; no epoch begins after the one in which an interrupt arrived
    runs = []
    for r in range(n):
        segs: list = []
        for h in res["history"]:
            if h[0] != r:
                continue
            if h[1] == "cb" and h[2] == "train_start":
                segs.append({"epochs": [], "ki": None})
            elif h[1] == "epoch":
                segs[-1]["epochs"].append(h[2])
            elif h[1] == "fault" and h[2] == "ki" and segs[-1]["ki"] is None:
                segs[-1]["ki"] = segs[-1]["epochs"][-1]
        runs.append(segs)
    eps = [[s["epochs"] for s in segs] for segs in runs]
    ctx.check(all(e == eps[0] for e in eps), "different-epochs", f"fit {k}: processes ran different epochs: {eps}")
    for r, segs in enumerate(runs):
        for j, s in enumerate(segs):
            if s["ki"] is not None:
                ctx.check(s["epochs"][-1] <= s["ki"], "stop-epoch",
                          f"fit {k}.{j}: process {r} was interrupted in epoch {s['ki']} but training went on to epoch {s['epochs'][-1]}")
                ctx.probe("interrupt stopped all processes")


def execute(plan: dict, ctx) -> None:
    from .. import dtrain as D
    folder = os.path.join(ctx.scratch, "root", "log")
    os.makedirs(os.path.dirname(folder))
    for k, ph in enumerate(plan["phases"]):
        res = D.run_phase(plan, ph, folder)
        absorb(ctx, res, k)
        killed = fatal(ctx, res, ph, k)
        check_replicas(ctx, res, ph, k, killed)
        if k:
            ctx.probe("resumed fits")
        if killed:
            ctx.probe("killed fits")


REAL = ["qadence trainer, accelerator, distributor, execution, callbacks, checkpoints", "torch autograd and optimizers", "one OS process per rank"]
STUB = ["torch.distributed process group (coordinator)", "DistributedDataParallel (broadcast at construction, mean of gradients)",
        "torch.multiprocessing.spawn (fork + shared-memory pickling)", "clock, trackers"]
ASSUME = ["collectives are matched in program order per process group; reductions are evaluated in rank order"]
RULE = ("every process posts the same collectives in the same order and ends; parameters equal after every step and optimizer state at start and end; "
        "an interrupt or early stop in one process ends all processes after the same epoch")


def warm() -> None:
    from .. import train as T
    T.warm(kinds=("lin", "qnn"), opts=("adam", "sgdm", "rms"))
