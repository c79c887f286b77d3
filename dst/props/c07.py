from __future__ import annotations

from ..runner import Violation
from .. import stage as G
from . import c05
from .c05 import gen_ops, base_cfg, losses

PROP = "C07"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 600, 20000
METHOD = "seeded validation-loss histories with interrupts and failures; the stored best checkpoint is restored at every observation and compared with a reference model"
LEVEL = "exploration"
RULE = ("one run = a history of 1-4 best-only fits with scripted validation losses (plateaus, ties, NaN, regressions), criteria and margins; at every user callback and at "
        "every end the stored checkpoint is restored through the public loader and compared with the state at the last accepted validation; "
        "non-trivial = at least one accepted and one rejected validation")
REAL = ["Trainer, SaveBestCheckpoint, CallbacksManager, write_checkpoint/load_checkpoint, real files"]
STUB = ["metric tracker (in-memory)", "progress bar", "loss values (scripted by the plan)"]
ASSUME = ["every fit starts with an infinite best loss"]
LISTS, LIST_MIN = c05.LISTS, {"ops": 1, "cbs": 1}
SIMPLE = {k: v for k, v in c05.SIMPLE.items() if k not in ("cfg.val_every", "cfg.best_only", "cfg.criterion")}


def val_losses(rng):
    out, v = [], rng.choice([1.0, 5.0, 1e-3])
    for _ in range(rng.choice([2, 5, 9, 17])):
        k = rng.random()
        v = v if k < 0.2 else v * rng.choice([0.5, 0.9, 1 - 1e-6, 1 + 1e-6, 1.1, 2.0]) if k < 0.8 else "nan" if k < 0.88 else "inf" if k < 0.9 else -abs(rng.random())
        out.append(v)
        if isinstance(v, str):
            v = 1.0
    return out


def gen(rng, i, tier):
    cfg = base_cfg(rng)
    cfg.update(val_every=rng.choice([1, 1, 2, 3]), best_only=True, criterion=rng.choice(["lt", "lt_eps", "le", "rel", "always", "never", None]),
               eps=rng.choice([0.0, 1e-5, 0.1, 0.5]), nb_val=rng.choice([1, 1, 2]))
    if rng.random() < 0.1:
        cfg["best_only"] = False
    cbs = [{"kind": "rec", "on": "val_epoch_end", "every": 1}, {"kind": "rec", "on": rng.choice(["train_epoch_end", "train_batch_end", "val_epoch_start"]), "every": 1},
           {"kind": "rec", "on": "train_end", "every": 1}, {"kind": "rec", "on": "train_start", "every": 1}]
    return {"cfg": cfg, "cbs": cbs, "ops": gen_ops(rng, tests=False), "script_train": losses(rng), "script_val": val_losses(rng), "script_test": [1.0],
            "dirseed": rng.randrange(1 << 20)}


def execute(plan, ctx):
    real, ref, folder = c05.run_history(plan, ctx, peek=plan["cfg"]["best_only"])
    cfg = plan["cfg"]
    # the criterion is asked for exactly the promised (loss, best so far, margin)
    G.compare([e for e in real.ev if e[0] in ("crit", "op")], [e for e in ref.ev if e[0] in ("crit", "op")], "criterion")
    acc = sum(e[0] == "crit" and e[4] for e in real.ev)
    rej = sum(e[0] == "crit" and not e[4] for e in real.ev)
    ctx.probe("accepted", acc)
    ctx.probe("rejected", rej)
    ctx.nontrivial = acc > 0 and rej > 0
    if not cfg["best_only"]:
        return
    # what is stored at every moment
    stored, cur = None, None
    for e in real.ev:
        if e[0] == "op" and cfg.get("per_run"):
            stored = None
        if e[0] == "cb":
            cur = e[8]
        if e[0] == "crit" and e[4]:
            stored = cur      # the val_epoch_end recorder runs before the built-in callbacks
        if e[0] == "best":
            if stored is None:
                if e[1] is not None:
                    raise Violation("unexpected-checkpoint", f"files {e[1][0]} exist although no validation was accepted")
            else:
                if e[1] is None:
                    raise Violation("best-missing", "an accepted best model is not stored")
                if len(e[1][0]) != 1 or "_best_" not in e[1][0][0]:
                    raise Violation("unexpected-checkpoint", f"files {e[1][0]} exist in best-only mode")
                if e[1][1] != stored:
                    raise Violation("best-content", "the stored best checkpoint is not the model of the last accepted validation")
    import os
    if not cfg.get("per_run"):
        labs = G.labels_on_disk(folder)
        want = [("best", ("model", "opt"))] if stored else []
        if labs != want:
            raise Violation("unexpected-checkpoint", f"stored checkpoints {labs}, promised {want}")


warm = G.warm
