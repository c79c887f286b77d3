"""Multi-process training workload (everything here is importable, so that it can be sent to spawned processes)."""
from __future__ import annotations

import os
import random
from typing import Any

import torch

from qadence.ml_tools import TrainConfig, Trainer
from qadence.ml_tools import callbacks as C
from qadence.ml_tools.callbacks import Callback
from qadence.ml_tools.data import DictDataLoader, InfiniteTensorDataset, to_dataloader
from qadence.ml_tools.optimize_step import optimize_step

from . import simranks
from . import train as T
from .phases import SutError, phase
from .seams import S

SCALE = 64.0


def data(n: int, off: int = 0) -> tuple[torch.Tensor, torch.Tensor]:
    x = torch.arange(off, off + n, dtype=torch.float64).reshape(-1, 1) / SCALE
    return x, torch.sin(4 * x)


def ids_of(batch: Any) -> Any:
    if batch is None:
        return None
    if isinstance(batch, dict):
        return {k: ids_of(v) for k, v in batch.items()}
    x, y = batch
    ids = [int(round(float(v) * SCALE)) for v in x.reshape(-1)]
    if not torch.equal(y, torch.sin(4 * x)):
        return ("misaligned", ids)
    return ids


def loss_on(model: Any, batch: Any) -> torch.Tensor:
    if batch is None:
        return (model(torch.full((1, 1), 0.5, dtype=torch.float64)) ** 2).mean()
    if isinstance(batch, dict):
        ls = [((model(x) - y) ** 2).mean() for x, y in batch.values()]
        return sum(ls) / len(ls)
    x, y = batch
    return ((model(x) - y) ** 2).mean()


def loss_fn(model: Any, batch: Any) -> tuple:
    loss = loss_on(model, batch)
    me = simranks.CUR
    r = me.index if me is not None else 0
    metrics = {"m": loss.detach() * 2.0, "r": torch.tensor(1.5 * r + 0.25, dtype=torch.float64)}
    if me is not None:
        me.emit("local", float(loss), {k: float(v) for k, v in metrics.items()})
        me.tick("loss")
    return loss, metrics


def vec(model: Any) -> list:
    return [float(v) for p in T.unwrap(model).parameters() if p.requires_grad for v in p.detach().reshape(-1)]


def rec_step(model, optimizer, loss_fn, xs, device=None, dtype=None):
    me = simranks.CUR
    if me is not None:
        me.emit("batch", ids_of(xs), [float(g["lr"]) for g in optimizer.param_groups])
        me.tick("batch")
    out = optimize_step(model=model, optimizer=optimizer, loss_fn=loss_fn, xs=xs, device=device, dtype=dtype)
    if me is not None:
        me.emit("step", vec(model))
        me.tick("step")
    return out


class DTrainer(Trainer):
    def on_train_epoch_start(self) -> None:
        me = simranks.CUR
        if me is not None:
            me.in_epoch = True
            me.emit("epoch", self.current_epoch)
            me.tick("epoch")

    def on_train_epoch_end(self, *a) -> None:
        me = simranks.CUR
        if me is not None:
            me.emit("epoch_end", self.current_epoch)
            if not (self.perform_val and self.current_epoch % self.config.val_every == 0):
                me.tick("epoch_end")
                me.in_epoch = False

    def on_val_epoch_end(self, *a) -> None:
        me = simranks.CUR
        if me is not None:
            me.tick("val_end")
            me.in_epoch = False

    def on_train_end(self, *a) -> None:
        me = simranks.CUR
        if me is not None:
            me.in_epoch = False


def f(x: Any) -> Any:
    return None if x is None else float(x)


def cb_rec(trainer, config, writer):
    me = simranks.CUR
    if me is None:
        return
    r = trainer.opt_result
    me.emit("cb", str(trainer.training_stage), r.iteration, f(r.loss), {k: float(v) for k, v in (r.metrics or {}).items()},
            T.params_digest(trainer.model), T.opt_digest(trainer.optimizer))
    if str(trainer.training_stage) == "train_start":
        me.emit("state0", vec(trainer.model), trainer.optimizer.state_dict(), trainer.global_step)
    me.tick("cb")


STAGES = ("train_start", "train_batch_end", "train_epoch_end", "val_epoch_end", "train_end")


def loader(spec: dict, off: int = 0) -> Any:
    kind = spec["kind"]
    if kind == "none":
        return None
    if kind == "dict":
        return DictDataLoader({k: loader(s, off + 32 * i) for i, (k, s) in enumerate(sorted(spec["parts"].items()))})
    x, y = data(spec.get("n", 3), off)
    if kind == "shuffled":
        return torch.utils.data.DataLoader(torch.utils.data.TensorDataset(x, y), batch_size=spec.get("batch", 2), shuffle=True)
    return to_dataloader(x, y, batch_size=spec.get("batch", 2), infinite=kind == "infinite")


def build(plan: dict, folder: str, ph: dict, cls: Any = None) -> tuple:
    cfg = plan["cfg"]
    model = T.make_model(cfg["model"], plan["rng"] % 1000)
    T.perturb(model, plan["rng"] % 1000)
    opt = T.make_opt(cfg["opt"], model, 1)
    cbs = [Callback(on=s, called_every=1, callback=cb_rec) for s in STAGES]
    if cfg.get("lr_sched"):
        cbs.append(C.LRSchedulerStepDecay(on="train_epoch_end", called_every=1, gamma=0.7))
    if cfg.get("early"):
        cbs.append(C.EarlyStopping(on="train_epoch_end", called_every=1, monitor="train_loss", patience=cfg["early"], mode="max"))
    kw = dict(max_iter=ph["max_iter"], checkpoint_every=cfg["checkpoint_every"], print_every=0, write_every=cfg.get("write_every", 0),
              val_every=cfg["val_every"], verbose=False, callbacks=cbs, nprocs=ph["nprocs"], compute_setup="cpu", backend="gloo",
              all_reduce_metrics=cfg["reduce"])
    if cfg.get("per_run"):
        kw.update(root_folder=folder, create_subfolder_per_run=True)
    else:
        kw.update(log_folder=folder)
    Trainer.set_use_grad(True)
    tr = (cls or DTrainer)(model=model, optimizer=opt, config=TrainConfig(**kw), loss_fn=loss_fn, train_dataloader=loader(cfg["data"]),
                           val_dataloader=loader({"kind": "finite", "n": 4, "batch": 2}, 48) if cfg["val_every"] else None,
                           optimize_step=rec_step)
    return tr, model, opt


class HeadCtx:
    def __init__(self):
        self.log, self.faults = [], {}

    def ev(self, *a):
        self.log.append(" ".join(str(x) for x in a))

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1


def torchrun_body(plan: dict, folder: str, ph: dict, i: int, n: int, fits: int):
    def body(me):
        os.environ.update(RANK=str(i), LOCAL_RANK=str(i), WORLD_SIZE=str(n), MASTER_ADDR="127.0.0.1", MASTER_PORT="29511",
                          TORCHELASTIC_RUN_ID="sim", LOCAL_WORLD_SIZE=str(n))
        tr, model, opt = build(plan, folder, ph)
        for _ in range(fits):
            m, o = tr.fit()
            me.emit("returned", vec(m), type(m).__name__, m is model, o is opt)
    return body


def run_phase(plan: dict, ph: dict, folder: str) -> dict:
    """One head process: builds the trainer, runs fit, all ranks simulated. Returns everything observed."""
    def head(em):
        hc = HeadCtx()
        S.writers = lambda name, a, k: None
        from .seams import SimClock
        S.clock = SimClock()
        w = simranks.World(ph["sched"], ph.get("faults", []), hc, root=os.path.dirname(folder), rng_seed=plan["rng"] % 100000)
        out: dict[str, Any] = {"error": None, "returned": None}
        try:
            if plan["launch"] == "spawn":
                tr, model, opt = build(plan, folder, ph)
                S.spawn = w.spawn
                S.pid = 39999
                try:
                    m, o = tr.fit()
                    out["returned"] = (vec(m), type(m).__name__)
                finally:
                    S.spawn = None
            else:
                w.launched = ph["nprocs"]
                w.run([torchrun_body(plan, folder, ph, i, ph["nprocs"], ph.get("fits", 1)) for i in range(ph["nprocs"])])
                w._raise_like_spawn()
        except simranks.WorldStop:
            pass
        except Exception as e:
            import traceback
            out["error"] = (type(e).__name__, str(e)[:3000], traceback.format_exc()[-1500:])
        out.update(violation=w.violation, history=w.history, fired=w.fired, steps=w.steps, switches=w.switches, colls=w.colls,
                   log=hc.log, faults=hc.faults, states=[r.state for r in w.ranks], errors=[r.error for r in w.ranks])
        return out
    return phase(head).result


def run_single(plan: dict, ph: dict, folder: str) -> dict:
    """Single-process training of the same model on the same folder; reports the state it starts from."""
    def head(em):
        from .seams import SimClock
        S.clock = SimClock()
        S.pid = 39998
        S.writers = lambda name, a, k: None
        seen = []

        def rec(trainer, config, writer):
            seen.append((trainer.global_step, vec(trainer.model), T.opt_digest(trainer.optimizer)))
        tr, model, opt = build(plan, folder, {**ph, "nprocs": 1}, cls=Trainer)
        tr.config.callbacks.append(Callback(on="train_start", called_every=1, callback=rec))
        try:
            tr.fit()
        except Exception as e:
            raise SutError(e) from e
        return seen
    r = phase(head)
    return {"seen": r.result, "error": r.error}
