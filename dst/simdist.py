"""Process-group seam (dispatching shims); the simulated process group lives in simranks.py."""
from __future__ import annotations

from typing import Any

from .seams import REAL, S

_NAMES = ("is_initialized", "is_available", "get_rank", "get_world_size", "init_process_group", "destroy_process_group",
          "barrier", "all_reduce", "broadcast", "broadcast_object_list", "all_gather", "all_gather_object",
          "gather_object", "reduce", "get_backend", "monitored_barrier", "scatter_object_list", "is_torchelastic_launched")


def install() -> None:
    import torch.distributed as dist
    import torch.multiprocessing as mp
    import torch.nn.parallel as par
    import torch.nn.parallel.distributed as pard

    def shim(name: str):
        real = getattr(dist, name, None)
        REAL["dist." + name] = real

        def f(*a: Any, **k: Any) -> Any:
            d = S.dist
            if d is None:
                return real(*a, **k)
            return getattr(d, name)(*a, **k)

        f.__name__ = name
        setattr(dist, name, f)

    for n in _NAMES:
        shim(n)

    REAL["mp.spawn"] = mp.spawn

    def spawn(fn, args=(), nprocs=1, join=True, daemon=False, start_method="spawn"):
        if S.spawn is None:
            return REAL["mp.spawn"](fn, args=args, nprocs=nprocs, join=join, daemon=daemon, start_method=start_method)
        return S.spawn(fn, args, nprocs, join)

    mp.spawn = spawn

    RealDDP = par.DistributedDataParallel
    REAL["DDP"] = RealDDP
    import torch

    class DistributedDataParallel(torch.nn.Module):
        """Stub of DDP: broadcast at construction, gradients averaged at the end of every backward pass."""

        def __new__(cls, module, *a, **k):
            if S.dist is None:
                return RealDDP(module, *a, **k)
            return super().__new__(cls)

        def __init__(self, module, *a, **k):
            super().__init__()
            self.module = module
            self._pending = False
            self._armed = False      # like the real reducer, gradients are only reduced after a forward through the wrapper
            S.dist.ddp_init(self)
            self._hooks = [p.register_post_accumulate_grad_hook(self._on_grad)
                           for p in module.parameters() if p.requires_grad]

        def _on_grad(self, p):
            if self._armed and not self._pending:
                self._pending = True
                torch.autograd.Variable._execution_engine.queue_callback(self._finish)

        def _finish(self):
            self._pending = False
            self._armed = False
            S.dist.ddp_reduce(self)

        def forward(self, *a, **k):
            if torch.is_grad_enabled() and self.training:
                self._armed = True
            return self.module(*a, **k)

    DistributedDataParallel.__qualname__ = "DistributedDataParallel"
    DistributedDataParallel.__module__ = RealDDP.__module__
    par.DistributedDataParallel = DistributedDataParallel
    pard.DistributedDataParallel = DistributedDataParallel
    REAL["DDPstub"] = DistributedDataParallel
