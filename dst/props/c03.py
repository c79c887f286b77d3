from __future__ import annotations

import os
import re
import shutil

from ..phases import phase, sut
from ..runner import Violation
from ..seams import S, SimFS
from .. import train as T
from .c01 import saves_of, start_of, MODELS, OPTS

PROP = "C03"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 200, 5000
METHOD = "seeded write/close/rename/read storage faults in training histories compared with a fault-free twin"
LEVEL = "fault_enumeration"
RULE = ("one run = a training process with 1-3 storage failures (ENOSPC, EIO, short write, as OSError or the RuntimeError of torch's "
        "file writer; single or lasting) placed by the seed on file-system effects of checkpoint saving, compared with the same training "
        "without failures, then every stored checkpoint is reloaded and training restarted, optionally with read errors; "
        "non-trivial = at least one failure fired")
REAL = ["Trainer, callbacks, checkpoint save/load, real files", "torch.save/load encoding", "nevergrad dump/load"]
STUB = ["metric tracker (in-memory)", "progress bar"]
ASSUME = ["failures hit files inside the log folder, not the creation of the folder itself"]
LISTS = ["faults", "reads"]
SIMPLE = {"cfg.max_iter": 1, "cfg.checkpoint_every": 1, "cfg.val_every": 0, "cfg.opt": "adam", "cfg.model": "vec", "pre": False}


def gen(rng, i, tier):
    model = rng.choice(MODELS)
    opt = rng.choice(OPTS)
    if model == "qm" and opt == "groups":
        opt = "adam"
    cfg = {"model": model, "opt": opt, "max_iter": rng.choice([1, 2, 3, 5]), "checkpoint_every": rng.choice([1, 1, 1, 2, 3]),
           "val_every": rng.choice([0, 0, 1, 2]) if model != "qm" else 0, "n": 4, "batch": rng.choice([2, 4])}
    faults = [{"kind": rng.choice(["enospc", "eio", "enospc"]), "u": rng.random(), "frac": rng.choice([0.0, 0.4, 1.0]),
               "len": rng.choice([1, 1, 1, 2, 4, 12]), "exc": rng.choice(["os", "rt"])} for _ in range(rng.choice([1, 1, 2, 3]))]
    reads = [{"kind": "read_eio", "at": rng.choice([0, 0, 1, 2]), "len": rng.choice([1, 1, 2])}] if rng.random() < 0.35 else []
    if rng.random() < 0.15:
        faults = []
    return {"cfg": cfg, "faults": faults, "reads": reads, "pre": rng.random() < 0.4, "seed": rng.randrange(1 << 20),
            "dirseed": rng.randrange(1 << 20)}


def run_training(cfg, folder, root, seed, faults, em, dirseed):
    fs = S.fs = SimFS(root, faults, seed=dirseed)
    fs.on_fault = lambda f, op, rel: em("fault", f["kind"], op, re.sub(r"\.tmp.*|\.pending.*", "", rel))
    tr, model, opt = T.make_trainer(cfg, folder, em, seed, loss_emit=lambda: em("loss"))
    em("init", 0, T.model_digest(model), T.opt_digest(opt))
    m, o = sut(tr.fit)
    em("done", T.model_digest(m), T.opt_digest(o))
    fs, S.fs = S.fs, None
    return {"steps": fs.step, "reads": fs.reads, "fired": fs.fired}


def execute(plan, ctx):
    cfg = plan["cfg"]
    root = os.path.join(ctx.scratch, "fs")
    folder = os.path.join(root, "run")
    os.makedirs(folder)
    seed = plan["seed"]
    history = []   # [label, m, o, clean]
    if plan["pre"]:
        r = phase(lambda em: run_training(cfg, folder, root, seed + 50, [], em, 1))
        if r.error:
            raise Violation("training-failed", f"fault-free training failed: {r.error}")
        history += saves_of(r.events, cfg)
        history[-1][3] = True
    ref_root = os.path.join(ctx.scratch, "ref")
    shutil.copytree(root, ref_root)
    ref = phase(lambda em: run_training(cfg, os.path.join(ref_root, "run"), ref_root, seed, [], em, plan["dirseed"]))
    if ref.error:
        raise Violation("training-failed", f"fault-free training failed: {ref.error}")
    faults = [dict(f, at=int(f["u"] * ref.result["steps"])) for f in plan["faults"]]
    r = phase(lambda em: run_training(cfg, folder, root, seed, faults, em, plan["dirseed"]))
    if r.error:
        raise Violation("training-aborted", f"a storage failure while saving aborted training: {r.error[0]}: {r.error[1]}\n{r.error[2]}")
    clean = [e for e in r.events if e[0] != "fault"]
    if clean != ref.events:
        d = next((j for j, (a, b) in enumerate(zip(clean, ref.events)) if a != b), min(len(clean), len(ref.events)))
        raise Violation("training-changed", f"a storage failure changed training: event {d}: {clean[d:d+1]} instead of {ref.events[d:d+1]}")
    # which saves were hit by a failure
    idx = [j for j, e in enumerate(r.events) if (e[0] == "train_start" and cfg["val_every"]) or
           (e[0] == "train_epoch_end" and e[1] % cfg["checkpoint_every"] == 0) or e[0] == "train_end"]
    for j in idx:
        k = j + 1
        hit = False
        while k < len(r.events) and r.events[k][0] == "fault":
            hit = True
            k += 1
        history.append([r.events[j][1], r.events[j][2], r.events[j][3], not hit])
    for k, v in r.result["fired"].items():
        ctx.fault(k, v)
    nf = sum(1 for e in r.events if e[0] == "fault")
    ctx.ev("events", [e[:2] for e in r.events if e[0] != "loss"])
    ctx.steps += len(r.events)

    # every completely stored checkpoint is still loadable with its content
    def reload(em):
        from pathlib import Path
        from qadence.ml_tools import Trainer, load_checkpoint
        Trainer.set_use_grad(not T.is_ng(cfg["opt"]))
        S.fs = SimFS(root, [], seed=plan["dirseed"] + 5)
        for label in sorted({h[0] for h in history}):
            names = {}
            for f in sorted(os.listdir(folder)):
                m = re.match(r"(model|opt)_.*_ckpt_0*(\d+)_device_.*\.pt$", f)
                if m and int(m.group(2)) == label:
                    names[m.group(1)] = f
            if len(names) < 2:
                em("label", label, None)
                continue
            tr, model, opt = T.make_trainer(dict(cfg, val_every=0), os.path.join(ctx.scratch, "y"), None, seed + 900)
            try:
                m_, o_, it = load_checkpoint(Path(folder), model, tr.optimizer, names["model"], names["opt"])
                em("label", label, (it, T.model_digest(m_), T.opt_digest(o_)))
            except Exception as e:
                em("label", label, f"{type(e).__name__}: {e}")
        return True
    rr = phase(reload)
    for _, label, got in rr.events:
        mine = [h for h in history if h[0] == label]
        ok_from = max((j for j, h in enumerate(mine) if h[3]), default=None)
        if ok_from is None:
            continue
        allowed = [tuple(h[:3]) for h in mine[ok_from:]]
        if got not in allowed:
            # a pair left half-replaced by a failure is completed when training is restarted; judge it there
            if any(not h[3] for h in mine[ok_from + 1:]):
                ctx.probe("half_replaced_pair")
                continue
            raise Violation("checkpoint-damaged", f"checkpoint {label} was stored without failure but now restores {got}, expected {allowed}")
    # restart
    s0 = max((j for j, h in enumerate(history) if h[3]), default=None)
    r2 = phase(lambda em: run_training(dict(cfg, max_iter=1), folder, root, seed + 77, plan["reads"], em, plan["dirseed"] + 9))
    rf = r2.result["fired"].get("read_eio", 0) if r2.result else sum(1 for e in r2.events if e[0] == "fault")
    if rf:
        ctx.fault("read_eio", rf)
    ctx.nontrivial = nf > 0 or rf > 0
    if r2.error:
        ctx.ev("restart-error", r2.error[0])
        if not rf:
            raise Violation("restart-failed", f"training restarted after storage failures raised {r2.error[0]}: {r2.error[1]}\n{r2.error[2]}")
        return
    st = start_of(r2.events)
    init = tuple(next(e for e in r2.events if e[0] == "init")[1:4])
    allowed = [tuple(h[:3]) for h in history[s0:]] if s0 is not None else [init] + [tuple(h[:3]) for h in history]
    if rf:
        allowed = [tuple(h[:3]) for h in history] + [init]
        ctx.probe("restart_with_read_error")
    ctx.ev("start", st[0], st in allowed)
    if st not in allowed:
        what = [n for n, k in (("iteration", 0), ("model", 1), ("optimizer", 2)) if st[k] not in [x[k] for x in allowed]]
        raise Violation("mixed-restart", f"restart takes a state that is no completely stored checkpoint: iteration {st[0]}, foreign parts: "
                        f"{what or 'combination of several checkpoints'}; stored {[(h[0], h[3]) for h in history]}; read errors {rf}")


def warm():
    T.warm()
