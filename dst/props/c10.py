"""C10 distributed training refines single-process training on the joint batch."""
from __future__ import annotations

import math
import os
import random

from ..runner import Violation
from . import c09

PROP = "C10"
BOOT = c09.BOOT
QUICK, THOROUGH = 260, 5000
RUN_TIMEOUT = 90
LEVEL = "exploration"
METHOD = ("deterministic simulation of 2-4 rank processes under seeded interleavings, compared step by step with a single-process reference "
          "on the joint batches; sharding, metric means, first-process-only effects and resumability checked over the recorded history")


def gen(rng: random.Random, i: int, tier: str) -> dict:
    if rng.random() < 0.15:
        nodes, per = rng.randint(1, 3), rng.randint(1, 3)
        return {"kind": "shard", "nodes": nodes, "per": per, "n": rng.randint(1, 12), "batch": rng.randint(1, 4), "epochs": rng.randint(1, 2),
                "launch": rng.choice(["torchrun", "slurm"]), "sched": {"seed": rng.randrange(2**31), "mode": rng.choice(["rr", "rand", "burst"])}}
    p = c09.gen(rng, i, tier)
    p["kind"] = "train"
    for ph in p["phases"]:
        ph["faults"] = [f for f in ph["faults"] if f["kind"] == "ki" and rng.random() < 0.4]
        ph["fits"] = 1
    if p["cfg"]["data"]["kind"] == "infinite" and rng.random() < 0.5:
        p["cfg"]["data"]["kind"] = "finite"
    return p


LISTS = c09.LISTS
LIST_MIN = c09.LIST_MIN
SIMPLE = {**c09.SIMPLE, "nodes": 1, "per": 2, "n": 2, "batch": 1, "epochs": 1}


def segs(evs: list) -> list:
    """Split one rank's events into epochs: list of (epoch, events)."""
    out = []
    for e in evs:
        if e[0] == "epoch":
            out.append((e[1], []))
        elif out:
            out[-1][1].append(e)
    return out


def check_shards(ctx, per_rank: list, n: int, what: str, off: int = 0) -> None:
    """per_rank: for each process the list of sample ids of one complete epoch."""
    N = len(per_rank)
    ctx.check(not any(isinstance(x, tuple) for x in per_rank), "misaligned", f"{what}: {per_rank}")
    quota = math.ceil(n / N)
    ctx.check(all(len(p) == quota for p in per_rank), "shard-size", f"{what}: {n} samples over {N} processes: {[len(p) for p in per_rank]}")
    allids = [x for p in per_rank for x in p]
    cnt = {x: allids.count(x) for x in set(allids)}
    ctx.check(set(cnt) == set(range(off, off + n)), "sample-lost", f"{what}: samples never delivered: {sorted(set(range(off, off + n)) - set(cnt))}, delivered {per_rank}")
    pad = quota * N - n
    if pad == 0:
        ctx.check(all(c == 1 for c in cnt.values()), "sample-duplicated", f"{what}: {per_rank}")
    else:
        extra = sum(c - 1 for c in cnt.values())
        ctx.check(extra == pad and max(cnt.values()) - min(cnt.values()) <= max(1, math.ceil(pad / n)), "sample-duplicated",
                  f"{what}: {pad} samples of padding, counts {cnt}")


def flat(bs: list, key: str | None = None) -> list:
    out: list = []
    for b in bs:
        x = b if key is None else b[key]
        if isinstance(x, tuple):
            raise Violation("misaligned", f"inputs and targets do not belong together: {x}")
        out += x
    return out


def reference(plan: dict, ph: dict, ev: list, k: int, ctx) -> None:
    import torch
    from .. import dtrain as D
    from .. import train as T
    cfg = plan["cfg"]
    n = ph["nprocs"]
    s0 = [e for e in ev[0] if e[0] == "state0"]
    if not s0:
        return
    model = T.make_model(cfg["model"], 0)
    with torch.no_grad():
        it = iter(s0[0][1])
        for p in model.parameters():
            if p.requires_grad:
                p.copy_(torch.tensor([next(it) for _ in range(p.numel())], dtype=p.dtype).reshape(p.shape))
    opt = T.make_opt(cfg["opt"], model, 1)
    opt.load_state_dict(s0[0][2])
    batches = [[e for e in evs if e[0] == "batch"] for evs in ev]
    steps = [[e for e in evs if e[0] == "step"] for evs in ev]
    ps = [p for p in model.parameters() if p.requires_grad]

    def tens(ids):
        if ids is None:
            return None
        if isinstance(ids, dict):
            return {kk: tens(v) for kk, v in ids.items()}
        x = torch.tensor(ids, dtype=torch.float64).reshape(-1, 1) / D.SCALE
        return x, torch.sin(4 * x)
    for s in range(min(len(b) for b in steps)):
        grads = [torch.zeros_like(p) for p in ps]
        for r in range(n):
            opt.zero_grad()
            D.loss_on(model, tens(batches[r][s][1])).backward()
            for g, p in zip(grads, ps):
                g += p.grad / n
        for g, p in zip(grads, ps):
            p.grad = g
        for g, lr in zip(opt.param_groups, batches[0][s][2]):
            g["lr"] = lr
        opt.step()
        want = D.vec(model)
        for r in range(n):
            got = steps[r][s][1]
            ctx.check(all(abs(a - b) <= 1e-7 * max(1.0, abs(b)) for a, b in zip(got, want)), "step-not-joint",
                      f"fit {k}, step {s}, process {r}: parameters {got}, single-process step on the mean gradient gives {want}")
    ctx.probe("steps compared with the single-process reference", len(steps[0]))


def metrics_ok(plan: dict, ph: dict, ev: list, k: int, ctx) -> None:
    """Epoch values: the mean over its batches of the (mean over processes, or own) batch values."""
    n = ph["nprocs"]
    red = plan["cfg"]["reduce"]

    def close(a, b):
        return a is not None and abs(a - b) <= 1e-9 * max(1.0, abs(b))

    def rows(evs):      # per epoch: local batch values, train_epoch_end record, val locals, val record
        out = []
        for ep, es in segs(evs):
            row = {"ep": ep, "train": [], "val": [], "tend": None, "vend": None}
            cur = "train"
            for e in es:
                if e[0] == "local":
                    row[cur].append((e[1], e[2]))
                elif e[0] == "cb" and e[1] == "train_epoch_end":
                    row["tend"] = e
                elif e[0] == "cb" and e[1] == "val_epoch_end":
                    row["vend"] = e
                elif e[0] == "epoch_end":
                    cur = "val"
            out.append(row)
        return out
    table = [rows(evs) for evs in ev]
    for j in range(min(map(len, table), default=0)):
        for phase, key in (("train", "tend"), ("val", "vend")):
            if any(t[j][key] is None for t in table):
                continue
            for r in range(n):
                e = table[r][j][key]
                src = [t[j][phase] for t in table] if red else [table[r][j][phase]]
                nb = len(src[0])
                ctx.check(all(len(x) == nb for x in src) and nb > 0, "batch-count", f"fit {k}, epoch {table[r][j]['ep']}: batches {[len(x) for x in src]}")
                want = sum(v[0] for x in src for v in x) / (nb * len(src))
                ctx.check(close(e[3], want), "loss-not-mean" if red else "loss-not-own",
                          f"fit {k}, epoch {table[r][j]['ep']}, process {r}: recorded {phase} loss {e[3]}, expected {want}")
                for m in ("m", "r"):
                    want = sum(v[1][m] for x in src for v in x) / (nb * len(src))
                    got = e[4].get(f"{phase}_{m}")
                    ctx.check(close(got, want), "metric-not-mean" if red else "metric-not-own",
                              f"fit {k}, epoch {table[r][j]['ep']}, process {r}: recorded {phase}_{m} {got}, expected {want}")
                ctx.probe("epoch records compared")


def sharded(plan: dict, ph: dict, ev: list, k: int, ctx) -> None:
    d = plan["cfg"]["data"]
    if d["kind"] in ("finite", "shuffled"):
        parts = {None: (d.get("n", 3), d.get("batch", 2), 0)}
    elif d["kind"] == "dict":
        # a dictionary of loaders stops with its shortest member: complete epochs only for equally long finite members
        parts = {}
        if all(p["kind"] == "finite" for p in d["parts"].values()):
            lens = {math.ceil(math.ceil(p["n"] / ph["nprocs"]) / p["batch"]) for p in d["parts"].values()}
            if len(lens) == 1:
                parts = {kk: (p["n"], p["batch"], 32 * i) for i, (kk, p) in enumerate(sorted(d["parts"].items()))}
    else:
        parts = {}
    eps = [segs(evs) for evs in ev]
    for key, (n, _, off) in parts.items():
        for j in range(min(map(len, eps))):
            if any(not any(e[0] == "epoch_end" for e in s[j][1]) for s in eps):
                continue        # interrupted epoch
            per = [flat([e[1] for e in s[j][1] if e[0] == "batch"], key) for s in eps]
            check_shards(ctx, per, n, f"fit {k}, epoch {eps[0][j][0]}" + (f", loader {key}" if key else ""), off)
            ctx.probe("epochs with complete sharding")


def first_only(ctx, res: dict, k: int) -> None:
    for h in res["history"]:
        if h[0] != 0 and h[1] in ("fs", "tracker"):
            raise Violation("not-first-process", f"fit {k}: process {h[0]} caused {h[1:]}")


def execute(plan: dict, ctx) -> None:
    if plan["kind"] == "shard":
        return execute_shard(plan, ctx)
    from .. import dtrain as D
    folder = os.path.join(ctx.scratch, "root", "log")
    os.makedirs(os.path.dirname(folder))
    final = None
    for k, ph in enumerate(plan["phases"]):
        res = D.run_phase(plan, ph, folder)
        c09.absorb(ctx, res, k)
        c09.fatal(ctx, res, ph, k)
        ev = c09.by_rank(res, ph["nprocs"])
        first_only(ctx, res, k)
        sharded(plan, ph, ev, k, ctx)
        metrics_ok(plan, ph, ev, k, ctx)
        reference(plan, ph, ev, k, ctx)
        s0 = [e for e in ev[0] if e[0] == "state0"][0]
        if final is not None and not plan["cfg"]["per_run"]:
            ctx.check(s0[1] == final[0] and s0[3] == final[1], "resume-differs",
                      f"fit {k}: starts at iteration {s0[3]} with {s0[1]}, the checkpoint of the previous run has iteration {final[1]} and {final[0]}")
            ctx.probe("resumed from a distributed checkpoint")
        end = [e for e in ev[0] if e[0] == "cb" and e[1] == "train_end"]
        last = [e for e in ev[0] if e[0] == "step"]
        params = last[-1][1] if last else s0[1]
        ret = res["returned"][0] if plan["launch"] == "spawn" else [e for e in ev[0] if e[0] == "returned"][0][1]
        ctx.check(ret == params, "returned-model", f"fit {k}: fit returned {ret}, the training ended with {params}")
        kinds = [res["returned"][1]] if plan["launch"] == "spawn" else [e[2] for r in ev for e in r if e[0] == "returned"]
        ctx.check(not any("DDP" in t or "DistributedDataParallel" in t for t in kinds), "returned-model", f"fit {k}: fit returned a wrapper of the model: {kinds}")
        final = (params, end[0][2]) if plan["cfg"]["checkpoint_every"] else None
    if final is not None and not plan["cfg"]["per_run"]:
        r = D.run_single(plan, {"max_iter": 0}, folder)
        ctx.check(r["error"] is None, "single-resume-failed", f"single-process training on the folder failed: {r['error']}")
        it, params, _ = r["seen"][0]
        ctx.check(params == final[0] and it == final[1], "single-resume-differs",
                  f"single-process training starts at iteration {it} with {params}; the distributed checkpoint has iteration {final[1]} and {final[0]}")
        ctx.probe("resumed by single-process training")


def execute_shard(plan: dict, ctx) -> None:
    """Data given to the processes of a (multi-node) accelerator run; devices are simulated, so only the loaders run."""
    import torch
    from .. import simranks
    from ..phases import phase
    from ..seams import S
    nodes, per = plan["nodes"], plan["per"]
    N = nodes * per
    if N < 2:
        ctx.nontrivial = False
        return

    def head(em):
        from .. import dtrain as D
        hc = D.HeadCtx()
        w = simranks.World(plan["sched"], [], hc, root=None, rng_seed=plan["rng"] % 100000)

        def body_for(g):
            def body(me):
                node, loc = divmod(g, per)
                torch.cuda.is_available = lambda: True
                torch.cuda.device_count = lambda: per
                torch.cuda.set_device = lambda d: None
                env = {"MASTER_ADDR": "10.0.0.1", "MASTER_PORT": "29511"}
                if plan["launch"] == "torchrun":
                    env.update(RANK=str(g), LOCAL_RANK=str(loc), WORLD_SIZE=str(N), TORCHELASTIC_RUN_ID="sim")
                else:
                    env.update(SLURM_JOB_ID="77", SLURM_JOB_NUM_NODES=str(nodes), SLURM_NODEID=str(node), SLURM_JOB_NODELIST="n")
                os.environ.update(env)
                from qadence.ml_tools.train_utils.accelerator import Accelerator
                acc = Accelerator(nprocs=N, compute_setup="gpu", backend="nccl")
                acc.setup_process(0 if plan["launch"] == "torchrun" else loc)
                (dl,) = acc.prepare(D.loader({"kind": "finite", "n": plan["n"], "batch": plan["batch"]}))
                for ep in range(plan["epochs"]):
                    me.emit("epoch", ep)
                    for b in dl:
                        me.emit("batch", D.ids_of(tuple(b)))
                        me.tick("b")
                acc.finalize()
            return body
        out = {"error": None}
        try:
            w.run([body_for(g) for g in range(N)])
            w._raise_like_spawn()
        except simranks.WorldStop:
            pass
        except Exception as e:
            out["error"] = (type(e).__name__, str(e)[:2000])
        out.update(violation=w.violation, history=w.history, fired=w.fired, steps=w.steps, switches=w.switches, colls=w.colls,
                   log=hc.log, faults=hc.faults, states=[r.state for r in w.ranks])
        return out
    res = phase(head).result
    c09.absorb(ctx, res, 0)
    c09.fatal(ctx, res, {}, 0)
    ev = c09.by_rank(res, N)
    eps = [segs(e) for e in ev]
    for j in range(plan["epochs"]):
        check_shards(ctx, [flat([e[1] for e in s[j][1] if e[0] == "batch"]) for s in eps], plan["n"], f"{nodes} nodes x {per} processes, epoch {j}")
    ctx.probe("multi-node sharding")


REAL = c09.REAL + ["torch DistributedSampler and DataLoader"]
STUB = c09.STUB + ["CUDA device queries in the multi-node loader runs"]
ASSUME = c09.ASSUME + ["parameters are compared with the reference to 1e-7 (order of floating-point summation)"]
RULE = ("each complete epoch delivers every sample to exactly one process (padding aside); every step equals the single-process step on the mean gradient; "
        "metrics are means over processes when aggregated; only process 0 touches files and trackers; checkpoints resume in single-process training")

warm = c09.warm
