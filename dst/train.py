"""Training workloads shared by the training properties: models, optimizers, data, digests, the Trainer driver."""
from __future__ import annotations

import hashlib
import math
import random
from typing import Any

import numpy as np
import torch

from .seams import S


# ------------------------------------------------------------------------------------------------ models
class Lin(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.l = torch.nn.Linear(1, 2)
        self.o = torch.nn.Linear(2, 1, bias=False)

    def forward(self, x):
        return self.o(torch.tanh(self.l(x)))


class Vec(torch.nn.Module):
    """A few parameters, one frozen, one 0-dim, and a buffer."""

    def __init__(self):
        super().__init__()
        self.a = torch.nn.Parameter(torch.tensor([0.3, -0.2]))
        self.frozen = torch.nn.Parameter(torch.tensor([1.5]), requires_grad=False)
        self.s = torch.nn.Parameter(torch.tensor(0.7))
        self.register_buffer("n", torch.zeros(1))

    def forward(self, x=None):
        if self.training:
            self.n += 1
        v = (self.a * self.s).sum() * self.frozen
        return v if x is None else v * torch.ones_like(x) + x * self.a[0]


class Adoptmodel(Vec):
    """A class whose name contains the words by which checkpoint files are told apart."""


def make_model(kind: str, seed: int) -> torch.nn.Module:
    torch.manual_seed(seed)
    random.seed(seed)
    np.random.seed(seed % 2**32)
    if kind == "lin":
        return Lin()
    if kind in ("vec", "named"):
        m = Vec() if kind == "vec" else Adoptmodel()
        with torch.no_grad():
            m.a += 0.1 * torch.rand(2)
        return m
    from qadence import QNN, QuantumCircuit, QuantumModel, Z, add, chain, feature_map, hea, total_magnetization
    if kind == "qnn":
        fm = feature_map(2, param="x")
        return QNN(QuantumCircuit(2, chain(fm, hea(2, 1))), total_magnetization(2))
    if kind == "qnn_scaled":
        from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig
        from qadence.constructors import ObservableConfig
        return QNN.from_configs(register=2, obs_config=ObservableConfig(detuning=Z, scale="sc", shift="sh", trainable_transform=True),
                                fm_config=FeatureMapConfig(num_features=1), ansatz_config=AnsatzConfig(depth=1))
    if kind == "qm":
        return QuantumModel(QuantumCircuit(2, hea(2, 1)), total_magnetization(2))
    raise KeyError(kind)


def perturb(model: torch.nn.Module, seed: int) -> None:
    """Give the model deterministic distinctive trainable values."""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in model.parameters():
            if p.requires_grad:
                p += torch.rand(p.shape, generator=g, dtype=torch.float64).to(p.dtype) * 0.5


def make_opt(kind: str, model: torch.nn.Module, seed: int, budget: int = 50) -> Any:
    ps = [p for p in model.parameters() if p.requires_grad]
    # hyperparameters differ from one construction to the next: a restored optimizer must get the stored ones back
    f = 1 + (seed % 7) / 16
    if kind == "adam":
        return torch.optim.Adam(ps, lr=0.05 * f)
    if kind == "adamw":
        return torch.optim.AdamW(ps, lr=0.03 * f, weight_decay=0.1)
    if kind == "sgdm":
        return torch.optim.SGD(ps, lr=0.05 * f, momentum=0.9)
    if kind == "sgd":
        return torch.optim.SGD(ps, lr=0.05 * f)
    if kind == "rms":
        return torch.optim.RMSprop(ps, lr=0.02 * f, momentum=0.5)
    if kind == "adagrad":
        return torch.optim.Adagrad(ps, lr=0.1 * f)
    if kind == "lbfgs":
        return torch.optim.LBFGS(ps, lr=0.2 * f, max_iter=3, history_size=3)
    if kind == "groups":
        return torch.optim.Adam([{"params": ps[:1], "lr": 0.1 * f}, {"params": ps[1:], "lr": 0.02 * f}])
    import nevergrad as ng
    from qadence.ml_tools.parameters import num_parameters
    cls = {"ng_1p1": "OnePlusOne", "ng_de": "DE", "ng_opt": "NGOpt", "ng_rand": "RandomSearch", "ng_cma": "CMA", "ng_pso": "PSO"}[kind]
    o = ng.optimizers.registry[cls](budget=budget, parametrization=num_parameters(model))
    o.parametrization.random_state = np.random.RandomState(seed % 2**31)
    return o


def is_ng(kind: str) -> bool:
    return kind.startswith("ng_")


def make_xy(n: int, seed: int) -> tuple[torch.Tensor, torch.Tensor]:
    g = torch.Generator().manual_seed(seed + 17)
    x = torch.rand(n, 1, generator=g)
    return x, torch.sin(3 * x)


# ----------------------------------------------------------------------------------------------- digests
def tdig(t: Any) -> str:
    if isinstance(t, torch.Tensor):
        t = t.detach()
        return hashlib.sha256(str(tuple(t.shape)).encode() + str(t.dtype).encode() + t.contiguous().cpu().numpy().tobytes()).hexdigest()[:16]
    if isinstance(t, np.ndarray):
        return hashlib.sha256(str(t.shape).encode() + t.tobytes()).hexdigest()[:16]
    if isinstance(t, float):
        return "nan" if math.isnan(t) else repr(t)
    if isinstance(t, dict):
        return "{" + ",".join(f"{k}:{tdig(v)}" for k, v in sorted(t.items(), key=lambda kv: str(kv[0]))) + "}"
    if isinstance(t, (list, tuple)):
        return "[" + ",".join(tdig(v) for v in t) + "]"
    return repr(t)


def sha(s: str) -> str:
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def unwrap(model: Any) -> Any:
    from .seams import REAL
    return model.module if isinstance(model, (REAL["DDPstub"], REAL["DDP"])) else model


def model_digest(model: torch.nn.Module) -> str:
    m = unwrap(model)
    return sha(";".join(f"{k}={tdig(p)}" for k, p in sorted(m.named_parameters())) + "|" +
               ";".join(f"{k}={tdig(b)}" for k, b in sorted(m.named_buffers()) if k == "n"))


def params_digest(model: torch.nn.Module) -> str:
    return sha(";".join(f"{k}={tdig(p)}" for k, p in sorted(unwrap(model).named_parameters())))


def opt_digest(opt: Any) -> str:
    if isinstance(opt, torch.optim.Optimizer):
        sd = opt.state_dict()
        return sha(tdig({"state": sd["state"], "groups": [{k: v for k, v in g.items()} for g in sd["param_groups"]]}))
    # gradient-free: everything the optimizer has been told so far
    arch = opt.archive
    rows = []
    for key, val in arch.bytesdict.items():
        rows.append(f"{hashlib.sha256(key).hexdigest()[:12]}:{val.count}:{val.mean!r}")
    return sha(type(opt).__name__ + f"|{opt.num_ask}|{opt.num_tell}|" + ",".join(sorted(rows)))


# ------------------------------------------------------------------------------------------------ driver
def data_loss(emit=None):
    def loss_fn(model, data):
        if emit is not None:
            emit()
        if data is None:
            out = model() if isinstance(unwrap(model), Vec) else model.expectation({}) if hasattr(model, "expectation") else model(torch.ones(1, 1))
            loss = (out ** 2).mean()
        else:
            x, y = data
            loss = ((model(x) - y) ** 2).mean()
        return loss, {"m": loss.detach() * 2.0}
    return loss_fn


def no_data(kind: str) -> bool:
    return kind in ("qm",)


def build_config(cfg: dict, folder: str, callbacks: list) -> Any:
    from qadence.ml_tools import TrainConfig
    kw: dict[str, Any] = dict(max_iter=cfg["max_iter"], checkpoint_every=cfg.get("checkpoint_every", 0),
                              print_every=cfg.get("print_every", 0), write_every=cfg.get("write_every", 0),
                              plot_every=cfg.get("plot_every", 0), val_every=cfg.get("val_every", 0),
                              verbose=cfg.get("verbose", False), callbacks=callbacks)
    if cfg.get("per_run"):
        kw.update(root_folder=folder, create_subfolder_per_run=True)
    else:
        kw.update(log_folder=folder)
    kw.update(cfg.get("extra_cfg", {}))
    return TrainConfig(**kw)


def make_trainer(cfg: dict, folder: str, emit: Any, seed: int, extra_callbacks: list | None = None, loss_emit: Any = None):
    """cfg: model, opt, max_iter, checkpoint_every, val_every, batch, n, data(bool)"""
    from qadence.ml_tools import Trainer
    from qadence.ml_tools.callbacks import Callback
    from qadence.ml_tools.data import to_dataloader

    model = make_model(cfg["model"], seed)
    perturb(model, seed)
    opt = make_opt(cfg["opt"], model, seed, budget=cfg["max_iter"])
    cbs = []
    if emit is not None:
        def rec(name):
            def f(trainer, config, writer):
                r = trainer.opt_result
                emit(name, r.iteration, model_digest(trainer.model), opt_digest(trainer.optimizer))
            return f
        for st in ("train_start", "train_epoch_end", "train_end"):
            cbs.append(Callback(on=st, called_every=1, callback=rec(st)))
    cbs += extra_callbacks or []
    config = build_config(cfg, folder, cbs)
    Trainer.set_use_grad(not is_ng(cfg["opt"]))
    torch.manual_seed(seed)
    random.seed(seed)
    dl = vl = None
    if not no_data(cfg["model"]) and cfg.get("data", True):
        x, y = make_xy(cfg.get("n", 4), cfg.get("data_seed", 3))
        dl = to_dataloader(x, y, batch_size=cfg.get("batch", 4), infinite=False)
    if cfg.get("val_every"):
        x, y = make_xy(3, cfg.get("data_seed", 3) + 1)
        vl = to_dataloader(x, y, batch_size=3, infinite=False)
    lf = cfg.get("loss") or data_loss(loss_emit)
    if cfg.get("val_every") and dl is None:
        raise ValueError("validation needs data")
    tr = Trainer(model=model, optimizer=opt, config=config, loss_fn=lf, train_dataloader=dl, val_dataloader=vl)
    return tr, model, opt


def warm(kinds=("vec", "qm", "qnn"), opts=("adam", "groups", "sgdm", "rms", "ng_1p1", "ng_de")) -> None:
    """Trigger lazy imports once in the pristine parent, then put back every global this touches."""
    import os
    import shutil
    import tempfile
    from qadence.ml_tools import Trainer
    env = dict(os.environ)
    d = tempfile.mkdtemp(prefix="dstwarm-")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for j, m in enumerate(kinds):
            for k, o in enumerate(opts):
                if k and j:
                    continue
                for rep in range(2):
                    tr, _, _ = make_trainer({"model": m, "opt": o, "max_iter": 1, "checkpoint_every": 1}, os.path.join(d, f"{m}{o}"), None, 1)
                    tr.fit()
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        Trainer.set_use_grad(True)
        for k in list(os.environ):
            if k not in env:
                del os.environ[k]
        os.environ.update(env)
