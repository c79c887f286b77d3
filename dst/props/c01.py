from __future__ import annotations

import os

from ..phases import phase, sut
from ..runner import Violation
from ..seams import S, SimFS
from .. import train as T

PROP = "C01"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 240, 6000
METHOD = "kill at every numbered file-system effect of seeded training histories, restart compared with a reference of completed checkpoints"
LEVEL = "fault_enumeration"
RULE = ("one run = a history of 1-3 training processes on one folder, each killed (_exit) before, inside or after a file-system "
        "effect chosen by the seed, then a restart; non-trivial = at least one kill landed")
REAL = ["Trainer, callbacks, checkpoint save/load, model/optimizer (de)serialisation, real files", "torch.save/load encoding", "nevergrad dump/load"]
STUB = ["metric tracker (in-memory)", "progress bar"]
ASSUME = ["a kill keeps everything already handed to the operating system (process crash, not power loss)"]
LISTS = ["kills"]
LIST_MIN = {"kills": 1}
SIMPLE = {"cfg.max_iter": 1, "cfg.checkpoint_every": 1, "cfg.val_every": 0, "cfg.opt": "adam", "cfg.model": "vec", "base_iter": 0}

MODELS = ["lin", "vec", "vec", "qm", "qnn"]
OPTS = ["adam", "sgdm", "rms", "groups", "adamw", "ng_1p1", "ng_de"]


def gen(rng, i, tier):
    model = rng.choice(MODELS)
    opt = rng.choice(OPTS)
    if model == "qm" and opt == "groups":
        opt = "adam"
    cfg = {"model": model, "opt": opt, "max_iter": rng.choice([1, 2, 3, 4, 6]),
           "checkpoint_every": rng.choice([1, 1, 1, 2, 3]),
           "val_every": rng.choice([0, 0, 1, 2]) if model != "qm" else 0, "n": 4, "batch": rng.choice([2, 4])}
    kills = [{"u": rng.random(), "frac": rng.choice([0.0, 0.3, 0.5, 0.9, 1.0]), "flush": rng.random() < 0.7}
             for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"cfg": cfg, "kills": kills, "base_iter": rng.choice([0, 0, 0, 7, 97, 997, 9998]), "seed": rng.randrange(1 << 20),
            "dirseed": rng.randrange(1 << 20)}


def run_training(plan, cfg, folder, root, seed, faults, em, dirseed):
    S.fs = SimFS(root, faults, seed=dirseed)
    tr, model, opt = T.make_trainer(cfg, folder, em, seed, loss_emit=lambda: em("loss"))
    em("init", 0, T.model_digest(model), T.opt_digest(opt))
    sut(tr.fit)
    em("done")
    st = S.fs.step
    trace = S.fs.trace
    S.fs = None
    return {"steps": st, "trace": trace[:400]}


def saves_of(events, cfg):
    """(label, model digest, optimizer digest, completed) in time order, from the observed history."""
    out = []
    for j, e in enumerate(events):
        save = (e[0] == "train_start" and cfg["val_every"]) or \
               (e[0] == "train_epoch_end" and e[1] % cfg["checkpoint_every"] == 0) or e[0] == "train_end"
        if save:
            out.append([e[1], e[2], e[3], j + 1 < len(events)])
    return out


def start_of(events):
    for e in events:
        if e[0] == "train_start":
            return tuple(e[1:4])
    return None


def execute(plan, ctx):
    cfg = plan["cfg"]
    root = os.path.join(ctx.scratch, "fs")
    folder = os.path.join(root, "run")
    os.makedirs(folder)
    history = []          # completed/in-progress saves, in time order
    if plan["base_iter"]:
        # an older finished run left checkpoints behind, at iteration base_iter
        def base(em):
            from qadence.ml_tools import Trainer
            from qadence.ml_tools.callbacks.saveload import write_checkpoint
            from pathlib import Path
            Trainer.set_use_grad(not T.is_ng(cfg["opt"]))
            for d in (3, 2, 1, 0):
                tr, model, opt = T.make_trainer(dict(cfg, val_every=0), os.path.join(ctx.scratch, "x"), None, plan["seed"] + 1000 + d)
                sut(write_checkpoint, Path(folder), model, tr.optimizer, plan["base_iter"] - d)
            return (plan["base_iter"], T.model_digest(model), T.opt_digest(tr.optimizer))
        r = phase(base)
        if r.error:
            raise Violation("save-failed", f"saving a checkpoint failed: {r.error}")
        history.append([*r.result, True])
    # dry run on a copy to learn the number of file-system effects of one process
    import shutil
    nk = len(plan["kills"])
    fired = 0
    for p in range(nk + 1):
        seed = plan["seed"] + p
        faults = []
        if p < nk:
            dry = os.path.join(ctx.scratch, "dry", "run")
            shutil.copytree(folder, dry)
            r = phase(lambda em: run_training(plan, cfg, dry, os.path.dirname(dry), seed, [], em, plan["dirseed"] + p))
            shutil.rmtree(os.path.dirname(dry))
            if r.error:
                raise Violation("restart-failed", f"training on a folder left by {fired} kill(s) failed: {r.error[0]}: {r.error[1]}\n{r.error[2]}")
            k = plan["kills"][p]
            steps = r.result["steps"]
            faults = [{"kind": "kill", "at": int(k["u"] * steps), "frac": k["frac"], "flush": k["flush"]}]
        r = phase(lambda em: run_training(plan, cfg, folder, root, seed, faults, em, plan["dirseed"] + p))
        if r.error:
            raise Violation("restart-failed", f"training on a folder left by {fired} kill(s) failed: {r.error[0]}: {r.error[1]}\n{r.error[2]}")
        ctx.ev("phase", p, "killed" if r.killed else "done", [e[:2] for e in r.events if e[0] != "loss"])
        ctx.steps += len(r.events)
        init = tuple(next(e for e in r.events if e[0] == "init")[1:4])
        st = start_of(r.events)
        if st is not None:
            done = [h for h in history if h[3]]
            allowed = []
            if done:
                last = max(i for i, h in enumerate(history) if h[3])
                allowed = [tuple(history[last][:3])] + [tuple(h[:3]) for h in history[last + 1:]]
            else:
                allowed = [init] + [tuple(h[:3]) for h in history]
            ctx.ev("start", st[0], allowed.index(st) if st in allowed else "BAD")
            if st not in allowed:
                what = []
                if st[0] not in [x[0] for x in allowed]:
                    what.append("iteration")
                if st[1] not in [x[1] for x in allowed]:
                    what.append("model")
                if st[2] not in [x[2] for x in allowed]:
                    what.append("optimizer")
                files = sorted((f, os.path.getsize(os.path.join(folder, f))) for f in os.listdir(folder))
                raise Violation("inconsistent-restart" if done or history else "not-initial",
                                f"process {p} starts from iteration {st[0]} with a state that is no single complete checkpoint "
                                f"(differs in: {', '.join(what) or 'combination'}); allowed iterations {[x[0] for x in allowed]}; files {files[-6:]}")
            # what was loaded is now the base; saves that happened after it are superseded
            history = [h for h in history if tuple(h[:3]) == st][-1:] or history
            if history and tuple(history[-1][:3]) == st:
                history[-1][3] = True
            ctx.state_keys.append(f"it{min(st[0], 12)}|{allowed.index(st)}|{len(allowed)}|{cfg['opt']}|{cfg['model']}")
        new = saves_of(r.events, cfg)
        if not r.killed and new:
            new[-1][3] = True
        history += new
        if r.killed:
            fired += 1
            ctx.fault("kill")
            if any(not h[3] for h in history):
                ctx.probe("kill_during_checkpoint")
            elif st is None:
                ctx.probe("kill_before_training")
            else:
                ctx.probe("kill_between_checkpoints")
    ctx.nontrivial = fired > 0


def warm():
    T.warm()
