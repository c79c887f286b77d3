"""Scripted training runs with a reference model of the training stages.

The loss values of every batch are scripted by the plan, so the simulator owns the whole metric history. `Real` drives
the Trainer of /repo and records what user code and the tracker observe; `Ref` predicts the same history.
"""
from __future__ import annotations

import math
import os
import re
from typing import Any

import torch

from .phases import SutError
from .runner import Violation
from .seams import S
from . import train as T

HOOKS = ("on_train_start", "on_train_end", "on_train_epoch_start", "on_train_epoch_end", "on_train_batch_start", "on_train_batch_end",
         "on_val_epoch_start", "on_val_epoch_end", "on_val_batch_start", "on_val_batch_end", "on_test_batch_start", "on_test_batch_end")
STAGES = ("train_start", "train_end", "train_epoch_start", "train_epoch_end", "train_batch_start", "train_batch_end",
          "val_epoch_start", "val_epoch_end", "val_batch_start", "val_batch_end", "test_batch_start", "test_batch_end")


class Boom(RuntimeError):
    """Failure injected into user code."""


class Scripted(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.a = torch.nn.Parameter(torch.tensor([0.5, -0.25], dtype=torch.float64))
        self.b = torch.nn.Parameter(torch.tensor(1.0, dtype=torch.float64))

    def forward(self, x):
        return x.to(torch.float64) * self.a.sum() + self.b


LRS0 = [0.1, 0.02]


def make_opt(kind: str, m: Scripted, budget: int):
    if kind == "sgd":
        return torch.optim.SGD([{"params": [m.a], "lr": LRS0[0]}, {"params": [m.b], "lr": LRS0[1]}])
    if kind == "adam":
        return torch.optim.Adam([{"params": [m.a], "lr": LRS0[0]}, {"params": [m.b], "lr": LRS0[1]}])
    if kind == "adam1":
        return torch.optim.Adam(m.parameters(), lr=LRS0[0])
    return T.make_opt(kind, m, 5, budget=budget)


def lrs_of(opt) -> list:
    return [float(g["lr"]) for g in opt.param_groups] if isinstance(opt, torch.optim.Optimizer) else []


def script_val(script: list, n: int) -> float:
    v = script[n % len(script)]
    return float("nan") if v == "nan" else float("inf") if v == "inf" else float(v)


def criterion(kind: str | None, log=None):
    if kind is None:
        return None

    def f(cur, best, eps):
        c = float("nan") if cur is None else float(cur)
        b = float(best)
        r = {"lt": c < b, "lt_eps": c <= b - eps, "le": c <= b, "always": True, "never": False, "rel": c < b * (1 - eps)}[kind]
        if log is not None:
            log("crit", c, b, float(eps), r)
        return r
    return f


def condition(kind: str):
    return {"odd_loss": lambda it, loss: loss is not None and math.isfinite(loss) and int(abs(loss) * 8) % 2 == 1, "it3": lambda it, loss: it % 3 != 0,
            "small": lambda it, loss: loss is not None and loss < 0.5}[kind]


def metric(loss: float) -> float:
    return 3.0 - 2.0 * loss


class Points:
    """Counts interruptible points inside epochs and fires the planned fault there."""

    def __init__(self):
        self.n = 0
        self.on = False
        self.fault: dict | None = None
        self.fired = False

    def start(self, fault):
        self.n, self.on, self.fault, self.fired = 0, False, fault, False

    def hit(self):
        if not self.on or self.fired:
            return
        self.n += 1
        if self.fault and self.n == self.fault["n"]:
            self.fired = True
            if self.fault["kind"] == "ki":
                raise KeyboardInterrupt
            raise Boom("injected failure in user code")


# ------------------------------------------------------------------------------------------------ real side
class Real:
    def __init__(self, plan: dict, folder: str, peek_best: bool = False):
        self.plan, self.cfg, self.folder = plan, plan["cfg"], folder
        self.ev: list[tuple] = []
        self.pts = Points()
        self.ncall = {"train": 0, "val": 0, "test": 0}
        self.tr = None
        self.peek_best = peek_best
        self.trace = None

    def log(self, *a):
        if S.writers is not None:
            S.writers.flush()
        self.ev.append(a)

    def build(self, max_iter: int):
        from qadence.ml_tools import TrainConfig, Trainer
        from qadence.ml_tools import callbacks as C
        from qadence.ml_tools.data import to_dataloader
        from qadence.types import ExperimentTrackingTool
        me, cfg = self, self.cfg

        def fl(x):
            return None if x is None else float(x)

        def rec(idx, c):
            def f(trainer, config, writer):
                r = trainer.opt_result
                it = r.iteration
                me.log("cb", idx, c["on"], it if isinstance(it, int) else str(it), fl(r.loss),
                       tuple(sorted((k, float(v)) for k, v in (r.metrics or {}).items())), tuple(sorted((r.extra or {}).items())),
                       tuple(lrs_of(trainer.optimizer)), T.model_digest(trainer.model))
                if me.peek_best:
                    me.peek(trainer)
                if c["on"] not in ("train_start", "train_end") and not c["on"].startswith("test"):
                    me.pts.hit()
            return f

        def cond(idx, kind):
            fn = condition(kind)

            def f(r):
                me.log("cond", idx, r.iteration)
                return fn(r.iteration, fl(r.loss))
            return f

        cbs = []
        for idx, c in enumerate(self.plan["cbs"]):
            k = c["kind"]
            if k == "rec":
                kw: dict[str, Any] = {}
                if c.get("cond"):
                    kw["callback_condition"] = cond(idx, c["cond"])
                if c.get("mod") == "dict":
                    kw["modify_optimize_result"] = {f"x{idx}": idx}
                elif c.get("mod") == "fn":
                    def mf(r, idx=idx):
                        r.extra[f"y{idx}"] = r.iteration
                        return r
                    kw["modify_optimize_result"] = mf
                if c.get("sub"):
                    class Sub(C.Callback):
                        def __init__(self, fn, **kw):
                            super().__init__(**kw)
                            self.fn = fn

                        def run_callback(self, trainer, config, writer):
                            return self.fn(trainer, config, writer)
                    cbs.append(Sub(rec(idx, c), on=c["on"], called_every=c["every"], **kw))
                else:
                    cbs.append(C.Callback(on=c["on"], called_every=c["every"], callback=rec(idx, c), **kw))
            elif k == "es":
                cbs.append(C.EarlyStopping(on=c["on"], called_every=c["every"], monitor=c["monitor"], patience=c["patience"], mode=c["mode"]))
            elif k == "step":
                cbs.append(C.LRSchedulerStepDecay(on=c["on"], called_every=c["every"], gamma=c["gamma"]))
            elif k == "cyclic":
                cbs.append(C.LRSchedulerCyclic(on=c["on"], called_every=c["every"], base_lr=c["base_lr"], max_lr=c["max_lr"], step_size=c["step_size"]))
            elif k == "cosine":
                cbs.append(C.LRSchedulerCosineAnnealing(on=c["on"], called_every=c["every"], t_max=c["t_max"], min_lr=c["min_lr"]))
            else:
                cbs.append({"write": C.WriteMetrics, "plot": C.PlotMetrics, "save": C.SaveCheckpoint, "hyper": C.LogHyperparameters,
                            "model": C.LogModelTracker}[k](on=c["on"], called_every=c["every"]))

        def plotter(j):
            def pf(model, iteration):
                me.log("plotfn", j, iteration)
                return f"fig{j}", f"figure{j}@{iteration}"
            return pf

        fkw = {"root_folder": self.folder, "create_subfolder_per_run": True} if cfg.get("per_run") else {"log_folder": self.folder}
        config = TrainConfig(max_iter=max_iter, callbacks=cbs, **fkw, verbose=cfg.get("verbose", False),
                             print_every=cfg.get("print_every", 0), write_every=cfg["write_every"], checkpoint_every=cfg["checkpoint_every"],
                             plot_every=cfg["plot_every"], val_every=cfg["val_every"], checkpoint_best_only=cfg["best_only"],
                             validation_criterion=criterion(cfg["criterion"], me.log), val_epsilon=cfg["eps"],
                             tracking_tool=ExperimentTrackingTool.MLFLOW if cfg["tool"] == "mlflow" else ExperimentTrackingTool.TENSORBOARD,
                             hyperparams=hyper(cfg), log_model=cfg["log_model"],
                             plotting_functions=tuple(plotter(j) for j in range(cfg["n_plot"])))

        def loss_fn(model, batch):
            ph = me.phase
            v = script_val(me.plan["script_" + ph], me.ncall[ph])
            me.ncall[ph] += 1
            me.log("loss", ph, me.ncall[ph])
            if ph != "test":
                me.pts.hit()
            m = model.module if hasattr(model, "module") else model
            z = m.a.sum() + m.b
            z = z - z.detach()
            loss = torch.tensor(v, dtype=torch.float64) + (z if math.isfinite(v) else 0 * z)
            return loss, {"m": torch.tensor(metric(v), dtype=torch.float64)}

        class Rec(Trainer):
            pass

        def mk(name):
            def h(self, *a):
                me.log("hook", name)
                if name == "on_train_epoch_start":
                    me.pts.on = True
                if name not in ("on_train_start", "on_train_end") and "test" not in name:
                    me.pts.hit()
            return h
        for n in HOOKS:
            setattr(Rec, n, mk(n))

        torch.manual_seed(self.plan.get("rng", 0) + 5)
        model = Scripted()
        x = torch.arange(max(1, cfg["nb_train"] * 2)).reshape(-1, 1) / 10.0
        dl = to_dataloader(x, x, batch_size=2, infinite=cfg.get("infinite", False)) if cfg["nb_train"] else None
        vx = torch.arange(max(1, cfg["nb_val"] * 2)).reshape(-1, 1) / 10.0
        vl = to_dataloader(vx, vx, batch_size=2, infinite=cfg.get("infinite_val", False)) if cfg["val_every"] else None
        opt = make_opt(cfg["opt"], model, max_iter)
        Trainer.set_use_grad(not T.is_ng(cfg["opt"]))
        kw = {"max_batches": cfg["max_batches"]} if cfg.get("max_batches") else {}
        self.tr = Rec(model=model, optimizer=opt, config=config, loss_fn=loss_fn, train_dataloader=dl, val_dataloader=vl, **kw)
        self.nb_test = cfg.get("nb_test", 0)

    # the phase of a loss call: training mode of the model tells training from evaluation
    @property
    def phase(self) -> str:
        if self.in_test:
            return "test"
        return "train" if self.tr.model.training else "val"
    in_test = False

    def peek(self, trainer):
        """Restore the stored best checkpoint into fresh objects, through the public loader."""
        from pathlib import Path
        from qadence.ml_tools import load_checkpoint
        m = Scripted()
        o = make_opt(self.cfg["opt"], m, 10)
        if T.is_ng(self.cfg["opt"]):
            o.enable_pickling()
        folder = str(trainer.config.log_folder)
        names = sorted(f for f in os.listdir(folder) if f.startswith("model_"))
        if not names:
            self.log("best", None)
            return
        m, o, it = load_checkpoint(Path(folder), m, o)
        self.log("best", (tuple(names), T.model_digest(m), T.opt_digest(o), it))

    def step(self, op: dict, index: int) -> None:
        if self.tr is None or op["where"] == "new":
            self.build(op["max_iter"])
        self.tr.config.max_iter = op["max_iter"]
        self.log("op", index, op["op"])
        if op["op"] == "test":
            from qadence.ml_tools.data import to_dataloader
            x = torch.arange(op["nb"] * 2).reshape(-1, 1) / 10.0
            self.in_test = True
            try:
                self.tr.test(to_dataloader(x, x, batch_size=2, infinite=False))
            except Exception as e:
                raise SutError(e) from e
            finally:
                self.in_test = False
            self.log("end")
            return
        self.pts.start(op.get("fault"))
        try:
            m, o = self.tr.fit()
            self.log("returned", T.model_digest(m) == T.model_digest(self.tr.model), T.opt_digest(o) == T.opt_digest(self.tr.optimizer))
        except Boom:
            self.log("boom")
        except KeyboardInterrupt:
            self.log("ki-escaped")
        except Exception as e:
            raise SutError(e) from e
        self.log("end")


def hyper(cfg) -> dict:
    if not cfg["hyper"]:
        return {}
    return {"lr": 0.1, "n": 3, "name": "x", "flag": True, "lst": [1, 2], "none": None, "d": {"a": 1}}


def hyper_logged(cfg) -> dict:
    h = hyper(cfg)
    return {k: h[k] for k in ("lr", "n", "name", "flag") if k in h} if cfg["tool"] != "mlflow" else h


# ------------------------------------------------------------------------------------------- reference model
class _KI(Exception):
    pass


class _Boom(Exception):
    pass


class RefPoints(Points):
    def hit(self):
        try:
            super().hit()
        except KeyboardInterrupt:
            raise _KI
        except Boom:
            raise _Boom


class Ref:
    """What a user is promised about one history of fits. Predicts events; contains no code of the Trainer."""

    def __init__(self, plan: dict):
        self.plan, self.cfg = plan, plan["cfg"]
        self.ev: list[tuple] = []
        self.pts = RefPoints()
        self.ncall = {"train": 0, "val": 0, "test": 0}
        self.labels: dict[Any, Any] = {}     # stored checkpoints -> learning rates
        self.exists = False
        self.nb_t = max(1, self.cfg["nb_train"])
        if self.cfg.get("max_batches") and self.cfg["nb_train"]:
            self.nb_t = min(self.nb_t, self.cfg["max_batches"])
        self.nb_v = max(1, self.cfg["nb_val"])
        if self.cfg.get("max_batches"):
            self.nb_v = min(self.nb_v, self.cfg["max_batches"])
        if self.cfg.get("infinite") and self.cfg["nb_train"]:
            self.nb_t = 1
        if self.cfg.get("infinite_val"):
            self.nb_v = 1
        self.best = None

    def log(self, *a):
        self.ev.append(a)

    def new(self):
        self.g = self.cur = 0
        self.exists = True
        self.result = None
        self.lrs = list(LRS0) if self.cfg["opt"] in ("sgd", "adam") else [LRS0[0]] if self.cfg["opt"] == "adam1" else []
        self.lr0: list | None = None     # learning rates before the first cosine annealing

    def res(self, loss=None, metrics=()):
        self.result = {"it": self.cur, "loss": loss, "metrics": dict(metrics), "extra": {}}

    # -- stages
    def fire(self, stage: str):
        for idx, c in enumerate(self.active):
            if c["on"] != stage:
                continue
            r = self.result
            if c.get("mod") == "dict":
                r["extra"][f"x{idx}"] = idx
            elif c.get("mod") == "fn":
                r["extra"][f"y{idx}"] = r["it"]
            if stage not in ("train_start", "train_end"):
                if c["every"] == 0 or r["it"] == 0 or r["it"] % c["every"]:
                    continue
                if c.get("cond"):
                    self.log("cond", idx, r["it"])
                    if not condition(c["cond"])(r["it"], r["loss"]):
                        continue
            self.call(idx, c, stage)

    def call(self, idx, c, stage):
        k, r, cfg = c["kind"], self.result, self.cfg
        if k == "rec":
            self.log("cb", idx, stage, r["it"], r["loss"], tuple(sorted(r["metrics"].items())), tuple(sorted(r["extra"].items())),
                     tuple(self.lrs), None)
            if stage not in ("train_start", "train_end") and not stage.startswith("test"):
                self.pts.hit()
        elif k == "es":
            st = self.es[idx]
            v = r["metrics"][c["monitor"]]
            if (v < st["best"]) if c["mode"] == "min" else (v > st["best"]):
                st["best"], st["n"] = v, 0
            else:
                st["n"] += 1
            if st["n"] >= c["patience"]:
                self.stop = True
        elif k == "step":
            self.lrs = [x * c["gamma"] for x in self.lrs]
        elif k == "cyclic":
            ph = math.fmod(r["it"], 2 * c["step_size"]) / c["step_size"]
            tri = ph if ph <= 1 else 2 - ph
            self.lrs = [c["base_lr"] + (c["max_lr"] - c["base_lr"]) * tri for _ in self.lrs]
        elif k == "cosine":
            if self.lr0 is None:
                self.lr0 = list(self.lrs)
            self.lrs = [c["min_lr"] + (x - c["min_lr"]) * 0.5 * (1 + math.cos(math.pi * r["it"] / c["t_max"])) for x in self.lr0]
        elif k == "write":
            self.log("write", r["it"], tuple(sorted(r["metrics"].items())))
        elif k == "plot":
            for j in range(cfg["n_plot"]):
                self.log("plot", j, r["it"])
        elif k == "hyper":
            self.log("hyper", tuple(sorted((k, str(v)) for k, v in hyper_logged(cfg).items())))
        elif k == "model":
            if cfg["tool"] == "mlflow":
                self.log("model")
        elif k == "save":
            self.labels[r["it"]] = (list(self.lrs), self.lr0)
            self.log("save", r["it"])
        elif k == "best":
            if cfg["criterion"] is not None:
                ok = criterion(cfg["criterion"])(r["loss"], self.best_loss, cfg["eps"])
                self.log("crit", r["loss"], self.best_loss, cfg["eps"], ok)
                if ok:
                    self.best_loss = r["loss"]
                    self.labels["best"] = (list(self.lrs), self.lr0)
                    self.log("save", "best")

    def builtin(self) -> list:
        c, out = self.cfg, []

        def add(kind, on, every=1):
            out.append({"kind": kind, "on": on, "every": every})
        add("plot", "train_start")
        if c["val_every"]:
            add("write", "train_start")
            if not c["best_only"]:
                add("save", "train_start")
        if c["best_only"]:
            add("best", "val_epoch_end", c["val_every"])
        elif c["checkpoint_every"]:
            add("save", "train_epoch_end", c["checkpoint_every"])
        if c["plot_every"]:
            add("plot", "train_epoch_end", c["plot_every"])
        if c["write_every"]:
            add("write", "train_epoch_end", c["write_every"])
        if c["val_every"]:
            add("write", "val_epoch_end", c["val_every"])
        if c["hyper"]:
            add("hyper", "train_end")
        if c["log_model"]:
            add("model", "train_end")
        if c["plot_every"]:
            add("plot", "train_end")
        if not c["best_only"] and c["checkpoint_every"]:
            add("save", "train_end")
        if c["write_every"]:
            add("write", "train_end")
        return out

    def hook(self, name):
        self.log("hook", name)
        if name == "on_train_epoch_start":
            self.pts.on = True
        if name not in ("on_train_start", "on_train_end") and "test" not in name:
            self.pts.hit()

    def one_loss(self, ph):
        v = script_val(self.plan["script_" + ph], self.ncall[ph])
        self.ncall[ph] += 1
        self.log("loss", ph, self.ncall[ph])
        if ph != "test":
            self.pts.hit()
        return v, {f"{ph}_m": metric(v), f"{ph}_loss": v}

    def epoch_res(self, losses):
        if not losses:
            self.res()
            return
        n = len(losses)
        keys = losses[0][1].keys()
        self.res(sum(l for l, _ in losses) / n, {k: sum(m[k] for _, m in losses) / n for k in keys})

    def one_pass(self, ph, nb):
        self.fire(f"{ph}_epoch_start")
        out = []
        for _ in range(nb):
            self.hook(f"on_{ph}_batch_start")
            self.fire(f"{ph}_batch_start")
            l = self.one_loss(ph)
            self.res(l[0], l[1])
            self.fire(f"{ph}_batch_end")
            out.append(l)
            self.hook(f"on_{ph}_batch_end")
        self.epoch_res(out)
        self.fire(f"{ph}_epoch_end")
        return out

    def newest(self):
        nums = [k for k in self.labels if isinstance(k, int)]
        if len(self.labels) == 1:
            return next(iter(self.labels))
        return max(nums) if nums else None

    def step(self, op, index):
        if not self.exists or op["where"] == "new":
            self.new()
        self.log("op", index, op["op"])
        if op["op"] == "test":
            self.active = getattr(self, "active", [])
            for _ in range(min(op["nb"], self.cfg.get("max_batches") or op["nb"])):
                self.hook("on_test_batch_start")
                self.fire("test_batch_start") if self.result else None
                l = self.one_loss("test")
                self.res(*l)
                self.fire("test_batch_end")
                self.hook("on_test_batch_end")
            self.log("end")
            return
        self.pts.start(op.get("fault"))
        self.stop = False
        self.active = [dict(c) for c in self.plan["cbs"]] + self.builtin()
        self.es = {i: {"best": math.inf if c["mode"] == "min" else -math.inf, "n": 0} for i, c in enumerate(self.plan["cbs"]) if c["kind"] == "es"}
        self.best_loss = math.inf
        self.cur = self.g
        if self.cfg.get("per_run"):      # a folder of its own: nothing to resume from
            self.labels = {}
        n = self.newest()
        if n is not None:
            self.lrs = list(self.labels[n][0])
            self.lr0 = self.labels[n][1]
            if isinstance(n, int):
                self.g = self.cur = n
        self.res()
        self.log("open", self.g)
        try:
            if self.cfg["val_every"]:
                self.one_pass("val", self.nb_v)
            self.fire("train_start")
            self.hook("on_train_start")
            done = []
            for e in range(self.g, self.g + op["max_iter"] + 1):
                if self.stop:
                    break
                try:
                    self.cur = e
                    self.hook("on_train_epoch_start")
                    done.append(self.one_pass("train", self.nb_t))
                    self.hook("on_train_epoch_end")
                    if self.cfg["val_every"] and e % self.cfg["val_every"] == 0:
                        self.hook("on_val_epoch_start")
                        self.one_pass("val", self.nb_v)
                        self.hook("on_val_epoch_end")
                except _KI:
                    self.stop = True
            self.hook("on_train_end")
            self.epoch_res(done[-1] if done else [])
            self.fire("train_end")
            self.log("close")
            self.log("returned", True, True)
        except _Boom:
            self.log("boom")
        self.log("end")


# ------------------------------------------------------------------------------------------------ comparison
def tracker_events(calls_log: list) -> Any:
    """Returns a recorder turning raw tracker calls into the reference's events."""
    state: dict[str, Any] = {"pending": None}

    def flush():
        p = state["pending"]
        if p is not None:
            calls_log.append(("write", p[0], tuple(sorted(p[1].items()))))
            state["pending"] = None

    def rec(name, a, k):
        if name == "tb.add_scalar":
            d = dict(zip(("tag", "scalar_value", "global_step"), a))
            d.update(k)
            p = state["pending"]
            if p is not None and (p[0] != d["global_step"] or d["tag"] in p[1]):
                flush()
                p = None
            if p is None:
                p = state["pending"] = (d["global_step"], {})
            p[1][d["tag"]] = float(d["scalar_value"])
            return
        flush()
        if name == "tb.open":
            calls_log.append(("open", k["purge_step"]))
            calls_log.append(("open-dir", a[0], k["exists"]))
        elif name == "tb.close":
            calls_log.append(("close",))
        elif name == "tb.add_hparams":
            h = a[0] if a else k["hparam_dict"]
            calls_log.append(("hyper", tuple(sorted((x, str(y)) for x, y in h.items()))))
        elif name == "tb.add_figure":
            d = dict(zip(("tag", "figure", "global_step"), a))
            d.update(k)
            calls_log.append(("fig", d["tag"], d["figure"], d["global_step"]))
        elif name == "mlflow.start_run":
            calls_log.append(("open", None))
        elif name == "mlflow.end_run":
            calls_log.append(("close",))
        elif name == "mlflow.log_metrics":
            d = dict(zip(("metrics", "step"), a))
            d.update(k)
            calls_log.append(("write", d.get("step"), tuple(sorted((x, float(y)) for x, y in d["metrics"].items()))))
        elif name == "mlflow.log_metric":
            calls_log.append(("single-metric", a, tuple(k.items())))
        elif name == "mlflow.log_params":
            h = a[0] if a else k["params"]
            calls_log.append(("hyper", tuple(sorted((x, str(y)) for x, y in h.items()))))
        elif name == "mlflow.log_figure":
            calls_log.append(("fig", a[1] if len(a) > 1 else k.get("artifact_file"), a[0] if a else k.get("figure"), None))
        elif name == "mlflow.pytorch.log_model":
            calls_log.append(("model",))
    rec.flush = flush
    return rec


def same(a: Any, b: Any) -> bool:
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def compare(real: list, ref: list, what: str) -> None:
    for i in range(max(len(real), len(ref))):
        x = real[i] if i < len(real) else ("<nothing more>",)
        y = ref[i] if i < len(ref) else ("<nothing more>",)
        if not same(x, y):
            raise Violation(what, f"observation {i}: got {x}, promised {y}; previous: {real[max(0, i - 3):i]}", f"{what}:{x[0]}/{y[0]}")


def labels_on_disk(folder: str) -> list:
    out = {}
    for f in os.listdir(folder):
        m = re.match(r"(model|opt)_.*_ckpt_(.*)_device_.*\.pt$", f)
        if m:
            lab = m.group(2)
            lab = int(lab) if lab.isdigit() else lab
            out.setdefault(lab, set()).add(m.group(1))
    return sorted(((k, tuple(sorted(v))) for k, v in out.items()), key=lambda kv: str(kv[0]))


def warm():
    import shutil
    import tempfile
    from qadence.ml_tools import Trainer
    env = dict(os.environ)
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="dstwarm-")
    os.chdir(d)
    try:
        for tool in ("tb", "mlflow"):
            for opt in ("sgd", "adam", "ng_1p1"):
                plan = {"cfg": {"max_iter": 1, "val_every": 1, "checkpoint_every": 1, "write_every": 1, "plot_every": 1, "best_only": False,
                                "criterion": None, "eps": 0.0, "tool": tool, "hyper": True, "log_model": True, "n_plot": 1, "nb_train": 2,
                                "nb_val": 1, "opt": opt}, "cbs": [], "script_train": [1.0], "script_val": [1.0], "script_test": [1.0]}
                r = Real(plan, os.path.join(d, tool + opt))
                for i in range(2):
                    r.step({"op": "fit", "where": "new", "max_iter": 1}, i)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        Trainer.set_use_grad(True)
        for k in list(os.environ):
            if k not in env:
                del os.environ[k]
        os.environ.update(env)
