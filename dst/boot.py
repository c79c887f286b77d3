"""Import order: third-party libraries, then the seams, then qadence from /repo."""
from __future__ import annotations

import logging
import os
import sys
import types
import warnings

REPO = os.environ.get("DST_REPO", "/repo")


class _Recorder:
    """Receives every tracker call as (name, args, kwargs)."""

    def __init__(self):
        self.calls = []
        self.fail = None

    def __call__(self, name, args, kwargs):
        self.calls.append((name, args, kwargs))
        if self.fail is not None:
            self.fail(name, args, kwargs)


def _fake_mlflow(S):
    m = types.ModuleType("mlflow")
    m.__path__ = []  # package
    m.__version__ = "3.1.1"

    def rec(name, ret=None):
        def f(*a, **k):
            if S.writers is not None:
                S.writers("mlflow." + name, a, k)
            return ret(*a, **k) if callable(ret) else ret

        f.__name__ = name
        return f

    class Run:
        def __init__(self, name=""):
            self.info = types.SimpleNamespace(run_id="run", run_name=name)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if S.writers is not None:
                S.writers("mlflow.end_run", (), {})

    for n in ("set_tracking_uri", "create_experiment", "set_experiment", "end_run", "log_metrics", "log_metric",
              "log_params", "log_param", "log_figure", "log_artifact", "log_artifacts", "set_tags", "set_tag"):
        setattr(m, n, rec(n))
    m.search_experiments = rec("search_experiments", lambda *a, **k: [])
    m.start_run = rec("start_run", lambda *a, **k: Run(k.get("run_name", "")))
    m.active_run = rec("active_run", lambda *a, **k: None)
    ent = types.ModuleType("mlflow.entities")
    ent.Run = Run
    mod = types.ModuleType("mlflow.models")
    mod.infer_signature = lambda *a, **k: ("signature", a, k)
    pt = types.ModuleType("mlflow.pytorch")
    pt.log_model = rec("pytorch.log_model")
    m.entities, m.models, m.pytorch = ent, mod, pt
    return {"mlflow": m, "mlflow.entities": ent, "mlflow.models": mod, "mlflow.pytorch": pt}


def _tracker_shims(S):
    import torch.utils.tensorboard as tb

    Real = tb.SummaryWriter

    class SummaryWriter(Real):  # isinstance-compatible; never opens files or threads
        def __init__(self, log_dir=None, *a, **k):
            self.log_dir = str(log_dir)
            self.sim_closed = False
            if S.writers is not None:
                S.writers("tb.open", (str(log_dir),), {"purge_step": k.get("purge_step", a[1] if len(a) > 1 else None),
                                                       "exists": os.path.isdir(str(log_dir))})

        def __getattribute__(self, n):
            if n in ("add_scalar", "add_scalars", "add_hparams", "add_figure", "add_text", "add_histogram", "close", "flush",
                     "add_graph", "add_image"):
                def f(*a, **k):
                    if S.writers is not None:
                        S.writers("tb." + n, a, k)
                return f
            return object.__getattribute__(self, n)

    SummaryWriter.__qualname__ = "SummaryWriter"
    tb.SummaryWriter = SummaryWriter
    import torch.utils.tensorboard.writer as tbw
    tbw.SummaryWriter = SummaryWriter

    import rich.live as rl
    rl.Live.start = lambda self, refresh=False: None
    rl.Live.stop = lambda self: None
    rl.Live.refresh = lambda self: None


def boot(extra: tuple = ()):
    """Returns the imported qadence module. `extra`: further qadence modules to import."""
    warnings.filterwarnings("ignore")
    warnings.showwarning = lambda *a, **k: None
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["MPLBACKEND"] = "Agg"
    for v in ("RANK", "WORLD_SIZE", "LOCAL_RANK", "MASTER_ADDR", "MASTER_PORT", "TORCHELASTIC_RUN_ID"):
        os.environ.pop(v, None)
    for v in [v for v in os.environ if v.startswith(("SLURM", "MLFLOW"))]:
        os.environ.pop(v)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import torch
    torch.set_num_threads(1)
    import numpy  # noqa
    import nevergrad  # noqa
    import sympy  # noqa
    import rich.progress  # noqa
    import torch.utils.tensorboard  # noqa
    import torch.distributed  # noqa
    import torch.multiprocessing  # noqa
    import torch.nn.parallel  # noqa
    import matplotlib  # noqa
    try:
        import pyqtorch  # noqa
        import pasqal_cloud  # noqa
        import requests  # noqa
    except Exception:
        pass
    from . import seams
    for k, v in _fake_mlflow(seams.S).items():
        sys.modules[k] = v
    _tracker_shims(seams.S)
    from . import simdist
    simdist.install()
    seams.install_base()
    import qadence
    assert os.path.realpath(qadence.__file__).startswith(os.path.realpath(REPO) + os.sep), qadence.__file__
    import importlib
    for m in extra:
        importlib.import_module(m)
    logging.disable(logging.CRITICAL)
    return qadence
