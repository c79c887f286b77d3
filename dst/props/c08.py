from __future__ import annotations

from ..runner import Violation
from .. import stage as G
from . import c05
from .c05 import gen_ops, base_cfg, losses
from .c07 import val_losses

PROP = "C08"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 900, 30000
METHOD = "seeded metric histories, resumes and interrupts; stop epochs and learning rates of every parameter group compared with reference counters and formulas"
LEVEL = "exploration"
RULE = ("one run = a history of 1-4 fits (fresh, resumed, interrupted) with early-stopping and learning-rate callbacks on random stages and periods and scripted metrics; "
        "the epochs run and the learning rate of every parameter group at every batch and epoch are compared with reference counters and formulas; "
        "non-trivial = a stop or a learning-rate change happened")
REAL = ["Trainer, EarlyStopping, LRScheduler* callbacks, CallbacksManager, checkpoint save/load, torch optimizers"]
STUB = ["metric tracker (in-memory)", "progress bar", "loss values (scripted by the plan)"]
ASSUME = ["cosine annealing starts from the learning rate each group had before its first annealing; a resumed run continues with the stored learning rates"]
LISTS, LIST_MIN = c05.LISTS, {"ops": 1, "cbs": 1}
SIMPLE = {k: v for k, v in c05.SIMPLE.items()}


def gen(rng, i, tier):
    cfg = base_cfg(rng)
    cfg["opt"] = rng.choice(["sgd", "adam", "adam1", "sgd"])
    if cfg["val_every"] and rng.random() < 0.2:
        cfg["best_only"], cfg["criterion"] = True, "lt"
    cbs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["es", "es", "step", "cyclic", "cosine"])
        c = {"kind": k, "on": rng.choice(["train_epoch_end", "train_epoch_end", "train_batch_end", "train_epoch_start", "val_epoch_end"]), "every": rng.choice([1, 1, 2, 3])}
        if k == "es":
            ph = "val" if cfg["val_every"] and rng.random() < 0.5 else "train"
            c.update(on=f"{ph}_" + rng.choice(["epoch", "epoch", "batch"]) + "_end", monitor=f"{ph}_" + rng.choice(["loss", "m"]), patience=rng.choice([1, 1, 2, 3, 5]),
                     mode=rng.choice(["min", "max"]))
        elif k == "step":
            c["gamma"] = rng.choice([0.5, 0.9, 0.1, 1.5])
        elif k == "cyclic":
            c.update(base_lr=rng.choice([0.001, 0.01]), max_lr=rng.choice([0.1, 0.02]), step_size=rng.choice([1, 2, 3, 4, 5]))
        else:
            c.update(t_max=rng.choice([2, 3, 5, 10]), min_lr=rng.choice([0.0, 1e-3]))
        cbs.append(c)
    for on in ("train_start", "train_batch_end", "train_epoch_end", "train_end"):
        cbs.append({"kind": "rec", "on": on, "every": 1})
    ops = gen_ops(rng, tests=False)
    for o in ops:
        if rng.random() < 0.4:
            o["max_iter"] = rng.choice([8, 12, 20])
        if o.get("fault"):
            o["fault"]["kind"] = "ki"
    return {"cfg": cfg, "cbs": cbs, "ops": ops, "script_train": val_losses(rng) if rng.random() < 0.7 else losses(rng),
            "script_val": val_losses(rng), "script_test": [1.0], "dirseed": rng.randrange(1 << 20)}


def strip(ev):
    out = []
    for e in ev:
        if e[0] == "cb":
            out.append(("lr", e[2], e[3], e[7]))
        elif e[0] == "hook" and e[1] in ("on_train_epoch_start", "on_train_end", "on_val_epoch_start") or e[0] in ("op", "returned", "ki-escaped", "end"):
            out.append(e)
    return out


def execute(plan, ctx):
    real, ref, folder = c05.run_history(plan, ctx)
    G.compare(strip(real.ev), strip(ref.ev), "history")
    stops = sum(1 for j, o in enumerate(plan["ops"])) and sum(e[0] == "hook" and e[1] == "on_train_epoch_start" for e in real.ev) < \
        sum(o["max_iter"] + 1 for o in plan["ops"])
    lrs = {e[7] for e in real.ev if e[0] == "cb"}
    ctx.nontrivial = bool(stops) or len(lrs) > 1
    ctx.probe("runs stopped early", int(bool(stops)))
    ctx.probe("distinct learning rates", len(lrs))


warm = G.warm
