from __future__ import annotations

import copy
import os
import re
import shutil

import torch

from ..phases import phase, sut, SutError
from ..runner import Violation
from ..seams import S, SimFS
from .. import train as T

PROP = "C02"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 160, 4000
METHOD = "seeded histories of fits, interrupts and process restarts compared bit for bit with a reference training loop"
LEVEL = "exploration"
RULE = ("one run = a history of 2-5 fits on one folder (same trainer, new trainer in the same process, or new process; different initial "
        "models each time), some stopped by an interrupt; every epoch is compared bit for bit with a small reference loop that replays the "
        "recorded batches, every restart with the newest checkpoint, every stored file with the state at its label; "
        "non-trivial = at least one resume")
REAL = ["Trainer, callbacks, checkpoint save/load, real files", "torch / nevergrad optimizers", "QNN / QuantumModel / nn.Module"]
STUB = ["metric tracker (in-memory)", "progress bar"]
ASSUME = ["bitwise reproducibility of single-threaded CPU torch"]
LISTS = ["fits"]
LIST_MIN = {"fits": 1}
SIMPLE = {"cfg.val_every": 0, "cfg.opt": "adam", "cfg.model": "vec", "base_iter": 0, "cfg.batch": 4, "cfg.n": 4,
          "fits.0.max_iter": 1, "fits.1.max_iter": 1, "fits.2.max_iter": 1, "cfg.checkpoint_every": 1}

MODELS = ["lin", "vec", "named", "qm", "qnn", "qnn_scaled"]
OPTS = ["adam", "sgdm", "rms", "groups", "adamw", "adagrad", "lbfgs", "ng_1p1", "ng_de", "ng_pso"]


def gen(rng, i, tier):
    model = rng.choice(MODELS)
    opt = rng.choice(OPTS)
    if model == "qm" and opt == "groups":
        opt = "adam"
    n = rng.choice([3, 4, 5])
    cfg = {"model": model, "opt": opt, "checkpoint_every": rng.choice([1, 1, 2, 3, 5]),
           "val_every": rng.choice([0, 0, 1, 2]) if model != "qm" else 0, "n": n, "batch": rng.choice([2, 4]), "max_iter": 1}
    fits = []
    for j in range(rng.choice([2, 2, 3, 4])):
        f = {"max_iter": rng.choice([1, 2, 3, 5, 8]), "where": rng.choice(["new_process", "new_process", "new_trainer", "same_trainer"]),
             "ki": rng.randrange(1, 12) if rng.random() < 0.25 and opt != "lbfgs" else None}
        fits.append(f)
    return {"cfg": cfg, "fits": fits, "base_iter": rng.choice([0, 0, 0, 6, 8, 97, 996, 9997]), "seed": rng.randrange(1 << 20),
            "dirseed": rng.randrange(1 << 20), "legacy": rng.random() < 0.3}


def step_ref(model, opt, loss_fn, batch):
    def closure():
        opt.zero_grad()
        loss, _ = loss_fn(model, batch)
        loss.backward()
        return loss.item()
    opt.step(closure)


def segment(plan, fits, folder, root, start_index, em):
    """One process: runs consecutive fits until the next new_process."""
    cfg = plan["cfg"]
    S.fs = SimFS(root, [], seed=plan["dirseed"] + start_index)
    from qadence.ml_tools.optimize_step import optimize_step as default_step
    state = {"ki": None, "calls": 0, "armed": False}
    ng = T.is_ng(cfg["opt"])

    def em2(*a):
        if a[0] == "train_start":
            state["armed"] = True
        em(*a)

    def loss_emit():
        if not state["armed"]:      # before the first epoch an interrupt simply propagates
            return
        state["calls"] += 1
        if ng:
            em("loss")
        if state["ki"] is not None and state["calls"] == state["ki"]:
            state["ki"] = None
            em("ki")
            raise KeyboardInterrupt

    def bidx(xs):
        return None if xs is None else [float(v) for v in xs[0].flatten()]

    def my_step(model, optimizer, loss_fn, xs, device=None, dtype=None):
        out = default_step(model=model, optimizer=optimizer, loss_fn=loss_fn, xs=xs, device=device, dtype=dtype)
        em("batch", bidx(xs))
        return out

    tr = None
    for j, f in enumerate(fits):
        if tr is None or f["where"] != "same_trainer":
            tr, model, opt = T.make_trainer(dict(cfg, max_iter=f["max_iter"]), folder, em2, plan["seed"] + start_index + j, loss_emit=loss_emit)
            tr.optimize_step = my_step
            em("init", 0, T.model_digest(model), T.opt_digest(opt))
        else:
            tr.config.max_iter = f["max_iter"]
            em("again")
        state["calls"] = 0
        state["armed"] = False
        state["ki"] = f["ki"]
        m, o = sut(tr.fit)
        em("done", T.model_digest(m), T.opt_digest(o))
    S.fs = None
    return True


def execute(plan, ctx):
    cfg = plan["cfg"]
    ng = T.is_ng(cfg["opt"])
    root = os.path.join(ctx.scratch, "fs")
    folder = os.path.join(root, "run")
    os.makedirs(folder)
    # --- history
    saved = {}        # label -> (label, mdig, odig)
    newest = None
    saved_twin = {}
    if plan["base_iter"]:
        def base(em):
            from pathlib import Path
            from qadence.ml_tools import Trainer, write_checkpoint
            out = []
            for d in (3, 1, 2, 0):
                tr, model, opt = T.make_trainer(dict(cfg, val_every=0), os.path.join(ctx.scratch, "x"), None, plan["seed"] + 1000 + d)
                sut(write_checkpoint, Path(folder), model, tr.optimizer, plan["base_iter"] - d)
                out.append((plan["base_iter"] - d, T.model_digest(model), T.opt_digest(tr.optimizer)))
            if plan["legacy"]:      # files of earlier versions carry no device
                for f in os.listdir(folder):
                    os.rename(os.path.join(folder, f), os.path.join(folder, re.sub("_device_[a-z]+", "", f)))
            return out
        r = phase(base)
        if r.error:
            raise Violation("save-failed", f"{r.error}")
        for t in r.result:
            saved[t[0]] = t
        newest = plan["base_iter"]
        if not ng:
            m = T.make_model(cfg["model"], plan["seed"] + 1000)
            T.perturb(m, plan["seed"] + 1000)
            o = T.make_opt(cfg["opt"], m, plan["seed"] + 1000)
            saved_twin[newest] = (copy.deepcopy(m.state_dict()), copy.deepcopy(o.state_dict()))
    # --- split in processes
    segs = []
    for j, f in enumerate(plan["fits"]):
        if j == 0 or f["where"] == "new_process":
            segs.append((j, []))
        segs[-1][1].append(f)
    resumes = 0
    for start, fits in segs:
        r = phase(lambda em: segment(plan, fits, folder, root, start, em))
        if r.error:
            raise Violation("fit-failed", f"training failed: {r.error[0]}: {r.error[1]}\n{r.error[2]}")
        ctx.ev("segment", start, [e[:2] for e in r.events if e[0] != "loss"])
        ctx.steps += len(r.events)
        fit = start - 1
        twin = None
        loss_fn = T.data_loss()
        stopped = False
        mid = None
        for e in r.events:
            k = e[0]
            if k == "init":
                fit += 1
                cur = e
                if not ng:
                    seed = plan["seed"] + fit
                    tm = T.make_model(cfg["model"], seed)
                    T.perturb(tm, seed)
                    to = T.make_opt(cfg["opt"], tm, seed)
                    twin = (tm, to)
                if mid is not None:
                    mid = None
            elif k == "again":
                fit += 1
                cur = ("again", 0, mid[1], mid[2]) if mid else None
            elif k == "train_start":
                got = tuple(e[1:4])
                if newest is not None:
                    resumes += 1
                    want = saved[newest]
                    if got != want:
                        what = [n for n, x, y in zip(("iteration", "model", "optimizer"), got, want) if x != y]
                        raise Violation("wrong-resume", f"fit {fit} starts from iteration {got[0]} but the newest checkpoint is {want[0]}; "
                                        f"differing: {what}; stored labels {sorted(saved)}", "wrong-resume:" + ",".join(what))
                    if twin is not None:
                        twin[0].load_state_dict(copy.deepcopy(saved_twin[newest][0]))
                        twin[1].load_state_dict(copy.deepcopy(saved_twin[newest][1]))
                else:
                    want = (0, cur[2], cur[3])
                    if got != want:
                        raise Violation("wrong-start", f"a fresh training starts from iteration {got[0]} with a different state than given")
                it = got[0]
                first = it
                count = 0
                stopped = False
                if cfg["val_every"]:
                    saved[it] = got
                    newest = it
                    if twin is not None:
                        saved_twin[it] = (copy.deepcopy(twin[0].state_dict()), copy.deepcopy(twin[1].state_dict()))
            elif k == "batch":
                if twin is not None:
                    x = e[1]
                    batch = None
                    if x is not None:
                        xs, ys = T.make_xy(cfg["n"], 3)
                        rows = [[float(v) for v in xs.flatten()].index(v) for v in x]
                        batch = (xs[rows], ys[rows])
                    step_ref(twin[0], twin[1], loss_fn, batch)
            elif k == "ki":
                stopped = True
                ctx.fault("interrupt")
            elif k in ("train_epoch_end", "train_end"):
                got = tuple(e[1:4])
                if k == "train_epoch_end":
                    pass
                if twin is not None:
                    want = (T.model_digest(twin[0]), T.opt_digest(twin[1]))
                    if got[1:] != want:
                        what = [n for n, x, y in zip(("model", "optimizer"), got[1:], want) if x != y]
                        raise Violation("trajectory", f"fit {fit} {k} iteration {got[0]}: {what} differ from the reference training "
                                        f"that performed the same steps", "trajectory:" + ",".join(what))
                if k == "train_end" or (got[0] % cfg["checkpoint_every"] == 0 and got[0] != 0):
                    saved[got[0]] = got
                    newest = max(newest, got[0]) if newest is not None else got[0]
                    if twin is not None:
                        saved_twin[got[0]] = (copy.deepcopy(twin[0].state_dict()), copy.deepcopy(twin[1].state_dict()))
                if k == "train_end":
                    mid = got
                    if not stopped and got[0] != first + plan["fits"][fit]["max_iter"]:
                        raise Violation("iteration-count", f"fit {fit} from {first} with {plan['fits'][fit]['max_iter']} iterations ended at {got[0]}")
                ctx.state_keys.append(f"{min(got[0], 20)}|{cfg['opt']}|{cfg['model']}|{fit}")
            elif k == "done":
                if mid is not None and tuple(e[1:]) != tuple(mid[1:3]):
                    raise Violation("returned-state", f"fit {fit} returns a model/optimizer different from the one at the end of training")
    # --- every file restores the state at its label
    def reload(em):
        from pathlib import Path
        from qadence.ml_tools import load_checkpoint
        S.fs = SimFS(root, [], seed=plan["dirseed"] + 77)
        names = {}
        for f in sorted(os.listdir(folder)):
            m = re.match(r"(model|opt)_.*_ckpt_0*(\d+)(?:_device_.*)?\.pt$", f)
            if m:
                names.setdefault(int(m.group(2)), {})[m.group(1)] = f
        em("labels", sorted(names))
        for label, nm in sorted(names.items()):
            if len(nm) != 2:
                em("label", label, f"only {sorted(nm)}")
                continue
            tr, model, opt = T.make_trainer(dict(cfg, val_every=0), os.path.join(ctx.scratch, "y"), None, plan["seed"] + 900)
            m_, o_, it = sut(load_checkpoint, Path(folder), model, tr.optimizer, nm["model"], nm["opt"])
            em("label", label, (it, T.model_digest(m_), T.opt_digest(o_)))
        return True
    rr = phase(reload)
    if rr.error:
        raise Violation("load-failed", f"loading a stored checkpoint failed: {rr.error[0]}: {rr.error[1]}")
    labels = rr.events[0][1]
    if labels != sorted(saved):
        raise Violation("checkpoint-set", f"stored checkpoints {labels} but expected {sorted(saved)}")
    for _, label, got in rr.events[1:]:
        if got != saved[label]:
            raise Violation("checkpoint-content", f"checkpoint {label} restores {got}, expected {saved[label]}")
    ctx.probe("resumes", resumes)
    ctx.nontrivial = resumes > 0


def warm():
    T.warm(kinds=("vec", "qm", "qnn", "qnn_scaled"), opts=("adam", "groups", "sgdm", "rms", "adagrad", "lbfgs", "ng_1p1", "ng_de", "ng_pso"))
