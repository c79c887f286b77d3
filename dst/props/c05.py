from __future__ import annotations

import os

from ..phases import SutError
from ..runner import Violation
from ..seams import S, SimClock, SimFS
from .. import stage as G

PROP = "C05"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 900, 30000
METHOD = "seeded histories of fits, tests, interrupts and failures with simulator-scripted losses, every user-visible event compared with a reference automaton"
LEVEL = "exploration"
RULE = ("one run = a history of 1-4 fits/tests on one folder with up to 6 user callbacks (stages, periods, conditions, result modifiers), scripted losses, "
        "interrupts and failures injected inside user code; the complete sequence of user-visible events (hooks, callbacks with iteration, loss, metrics, "
        "extras) is compared with a reference automaton; non-trivial = at least one user callback fired on an epoch or batch stage")
REAL = ["Trainer, BaseTrainer, CallbacksManager, Callback, checkpoint save/load", "torch / nevergrad optimizers"]
STUB = ["metric tracker (in-memory)", "progress bar", "loss values (scripted by the plan)"]
ASSUME = ["user callbacks run before built-in ones of the same stage (list order)"]
LISTS = ["ops", "cbs"]
LIST_MIN = {"ops": 1}
SIMPLE = {"cfg.val_every": 0, "cfg.checkpoint_every": 0, "cfg.write_every": 0, "cfg.plot_every": 0, "cfg.opt": "sgd", "cfg.nb_train": 1, "cfg.nb_val": 1,
          "cfg.infinite": False, "cfg.infinite_val": False, "cfg.max_batches": 0, "cfg.best_only": False, "cfg.per_run": False, "cfg.criterion": None,
          "ops.0.max_iter": 1, "ops.1.max_iter": 1, "ops.2.max_iter": 1, "ops.0.fault": None, "ops.1.fault": None, "ops.2.fault": None}


def losses(rng, n=None):
    n = n or rng.choice([1, 3, 7, 13])
    out = [rng.choice([round(rng.uniform(0, 2), 3), rng.choice([0.0, 0.25, 0.5, 1.0])]) for _ in range(n)]
    if rng.random() < 0.15:      # a diverging loss
        out[rng.randrange(n)] = rng.choice(["nan", "inf"])
    return out


def base_cfg(rng):
    return {"val_every": rng.choice([0, 0, 1, 2, 3]), "checkpoint_every": rng.choice([0, 0, 1, 2, 3]), "write_every": rng.choice([0, 1, 2]),
            "plot_every": rng.choice([0, 0, 1, 2]), "best_only": False, "criterion": None, "eps": 1e-5, "tool": rng.choice(["tb", "tb", "mlflow"]),
            "hyper": rng.random() < 0.3, "log_model": rng.random() < 0.2, "n_plot": rng.choice([0, 0, 1, 2]),
            "nb_train": rng.choice([0, 1, 2, 3]), "nb_val": rng.choice([1, 1, 2, 3]), "infinite": rng.random() < 0.2, "infinite_val": rng.random() < 0.15,
            "max_batches": rng.choice([0, 0, 0, 1, 2]), "opt": rng.choice(["sgd", "adam", "adam", "ng_1p1", "ng_rand"]),
            "per_run": rng.random() < 0.15}


def gen_ops(rng, tests=True, faults=True):
    ops = []
    for j in range(rng.choice([1, 2, 2, 3, 4])):
        if tests and j and rng.random() < 0.15:
            ops.append({"op": "test", "where": rng.choice(["same", "new"]), "nb": rng.choice([1, 2, 4]), "max_iter": 1})
            continue
        f = None
        if faults and rng.random() < 0.35:
            f = {"kind": rng.choice(["ki", "ki", "boom"]), "n": rng.choice([1, 2, 3, 5, 8, 13, 21, 34])}
        ops.append({"op": "fit", "where": rng.choice(["same", "same", "new"]), "max_iter": rng.choice([0, 1, 2, 3, 5, 8]), "fault": f})
    return ops


def gen(rng, i, tier):
    cfg = base_cfg(rng)
    if cfg["val_every"] and rng.random() < 0.4:
        cfg["best_only"], cfg["criterion"] = True, rng.choice(["lt", None])
    cbs = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        on = rng.choice(G.STAGES)
        cbs.append({"kind": "rec", "on": on, "every": rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 5]),
                    "cond": rng.choice([None, None, None, "odd_loss", "it3", "small"]), "mod": rng.choice([None, None, "dict", "fn"]),
                    "sub": rng.random() < 0.3})
    return {"cfg": cfg, "cbs": cbs, "ops": gen_ops(rng), "script_train": losses(rng), "script_val": losses(rng), "script_test": losses(rng),
            "dirseed": rng.randrange(1 << 20)}


KINDS = ("op", "hook", "cb", "cond", "loss", "boom", "ki-escaped", "returned", "end")


def strip(ev):
    out = []
    for e in ev:
        if e[0] not in KINDS:
            continue
        out.append(e[:7] if e[0] == "cb" else e)
    return out


def run_history(plan, ctx, kinds_real=None, peek=False):
    root = os.path.join(ctx.scratch, "fs")
    folder = os.path.join(root, "run")
    os.makedirs(root)
    S.fs = SimFS(root, [], seed=plan["dirseed"])
    S.clock = SimClock()
    S.clock.tick_per_read = 0.05
    S.pid = 4242
    real, ref = G.Real(plan, folder, peek), G.Ref(plan)
    S.writers = G.tracker_events(real.ev)
    try:
        for j, op in enumerate(plan["ops"]):
            if op["op"] == "test" and (real.tr is None or op["where"] == "new"):
                op = dict(op, where="same") if real.tr is not None else dict(op, op="fit", fault=None)
            if op["op"] == "test" and not ref.exists:
                continue
            try:
                real.step(op, j)
            except SutError as e:
                raise Violation("raised", f"operation {j} {op['op']}: {e}\n{e.tb[-1500:]}", f"raised:{type(e.e).__name__}")
            S.writers.flush()
            ref.step(op, j)
            if op.get("fault") and real.pts.fired:
                ctx.fault({"ki": "interrupt", "boom": "user-code-failure"}[op["fault"]["kind"]])
    finally:
        ctx.sim_time = S.clock.t
        S.fs = S.clock = S.pid = None
        S.writers = None
    for e in real.ev:
        ctx.ev(*e)
        if e[0] == "cb":
            ctx.state_keys.append(f"{e[2]}|{e[3]}|{plan['cfg']['val_every']}")
    ctx.steps = len(real.ev)
    return real, ref, folder


def execute(plan, ctx):
    real, ref, folder = run_history(plan, ctx)
    G.compare(strip(real.ev), strip(ref.ev), "stages")
    ctx.nontrivial = any(e[0] == "cb" and "epoch" in e[2] or e[0] == "cb" and "batch" in e[2] for e in real.ev)
    ctx.probe("callback firings", sum(e[0] == "cb" for e in real.ev))


warm = G.warm
