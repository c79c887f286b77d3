from __future__ import annotations

import random

from ..runner import Violation
from .. import stage as G
from . import c05
from .c05 import losses, gen_ops, base_cfg

PROP = "C06"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 900, 30000
METHOD = "seeded histories of fits, interrupts and failures with scripted losses; the record history of a simulated tracker compared record for record with a reference model"
LEVEL = "exploration"
RULE = ("one run = a history of 1-4 fits on one folder (fresh, resumed, interrupted, stopped early) with either tracking tool; the complete record history of "
        "the simulated tracker (open, metric records, figures, hyperparameters, model, close) is compared with a reference model; non-trivial = at least one metric record")
REAL = ["Trainer, CallbacksManager, TensorBoardWriter, MLFlowWriter, metric callbacks, checkpoint save/load"]
STUB = ["tensorboard SummaryWriter and the mlflow module (in-memory recorders)", "progress bar", "loss values (scripted by the plan)"]
ASSUME = ["at the end of training the metrics of the last completed epoch are recorded under the final iteration"]
LISTS, LIST_MIN, SIMPLE = c05.LISTS, c05.LIST_MIN, c05.SIMPLE


def gen(rng, i, tier):
    cfg = base_cfg(rng)
    cfg["write_every"] = rng.choice([0, 1, 2, 3, 5])
    cfg["plot_every"] = rng.choice([0, 1, 2, 3])
    cfg["n_plot"] = rng.choice([0, 1, 2])
    cfg["tool"] = rng.choice(["tb", "mlflow"])
    cfg["hyper"] = rng.random() < 0.5
    cfg["log_model"] = rng.random() < 0.4
    if cfg["val_every"] and rng.random() < 0.25:
        cfg["best_only"], cfg["criterion"] = True, rng.choice(["lt", None])
    cbs = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["write", "plot", "hyper", "rec", "es"])
        on = rng.choice(["train_epoch_end", "train_batch_end", "val_epoch_end", "val_batch_end", "train_end"])
        c = {"kind": k, "on": on, "every": rng.choice([1, 2, 3])}
        if k == "es":
            c.update(on="train_epoch_end", monitor="train_loss", patience=rng.choice([1, 2, 3]), mode="min")
        cbs.append(c)
    return {"cfg": cfg, "cbs": cbs, "ops": gen_ops(rng, tests=False), "script_train": losses(rng), "script_val": losses(rng),
            "script_test": [1.0], "dirseed": rng.randrange(1 << 20)}


def execute(plan, ctx):
    real, ref, folder = c05.run_history(plan, ctx)
    ml = plan["cfg"]["tool"] == "mlflow"
    got, plots = [], []
    for e in real.ev:
        if e[0] in ("write", "hyper", "model", "close", "boom", "op"):
            if e[0] == "write" and not e[2]:
                continue
            got.append(e)
        elif e[0] == "open":
            got.append(("open",) if ml else e)
        elif e[0] == "open-dir":
            if not e[2]:
                raise Violation("tracker-folder", f"the tracker was opened on {e[1]} before that folder existed")
        elif e[0] == "plotfn":
            plots.append(e)
        elif e[0] == "single-metric":
            got.append(e)
        elif e[0] == "fig":
            p = plots.pop(0) if plots else None
            it = p[2] if p else None
            if p is None or e[1] != f"fig{p[1]}" or e[2] != f"figure{p[1]}@{it}" or (e[3] is not None and e[3] != it):
                raise Violation("figure", f"figure record {e[1:]} does not match the plotted {p}")
            got.append(("plot", p[1], it))
    want = []
    for e in ref.ev:
        if e[0] in ("write", "hyper", "model", "close", "boom", "op", "plot"):
            if e[0] == "write" and not e[2]:
                continue
            want.append(e)
        elif e[0] == "open":
            want.append(("open",) if ml else e)
    # consecutive tensorboard records of one iteration with different names may arrive in one go
    G.compare(merge(got), merge(want), "records")
    ctx.nontrivial = any(e[0] == "write" for e in got)
    ctx.probe("metric records", sum(e[0] == "write" for e in got))
    ctx.probe("tracker sessions", sum(e[0] == "open" for e in got))


def merge(ev):
    out = []
    for e in ev:
        if e[0] == "write" and out and out[-1][0] == "write" and out[-1][1] == e[1] and not set(dict(out[-1][2])) & set(dict(e[2])):
            out[-1] = ("write", e[1], tuple(sorted(out[-1][2] + e[2])))
        else:
            out.append(e)
    return out


warm = G.warm
