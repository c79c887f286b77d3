"""Importable pieces of the launch workload (C11)."""
from __future__ import annotations

import torch

from qadence.ml_tools import TrainConfig, Trainer
from qadence.ml_tools.callbacks import Callback

from . import simranks

LOCAL: list = []


def note(kind: str, acc) -> None:
    row = ("proc", kind, acc.rank, acc.world_size, str(acc.master_addr), str(acc.master_port))
    if simranks.CUR is None:
        LOCAL.append(row)
    else:
        simranks.CUR.emit(*row)
        simranks.CUR.tick("note")


def job(holder: dict, fail: bool) -> None:
    note("fun", holder["acc"])
    if fail:
        raise RuntimeError("user code failed")


def cb(trainer, config, writer) -> None:
    note("trainer", trainer.accelerator)


def loss_ok(model, data):
    return (model(torch.ones(1, 1, dtype=torch.float64)) ** 2).mean(), {}


def loss_fail(model, data):
    raise RuntimeError("user code failed")


def make_trainer(n: int, fail: bool, folder: str) -> Trainer:
    m = torch.nn.Linear(1, 1).double()
    cfg = TrainConfig(max_iter=0, print_every=0, write_every=0, checkpoint_every=0, log_folder=folder, nprocs=n, compute_setup="cpu",
                      verbose=False, callbacks=[Callback(on="train_start", called_every=1, callback=cb)])
    return Trainer(m, torch.optim.SGD(m.parameters(), lr=0.1), cfg, loss_fn=loss_fail if fail else loss_ok)
