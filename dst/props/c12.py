"""C12 every run that asks for its own folder gets a fresh one."""
from __future__ import annotations

import os
import random

from ..phases import phase, sut
from ..procs import interleave
from ..runner import Violation
from ..seams import S, SimClock, SimFS
from .. import train as T

PROP = "C12"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 400, 8000
LEVEL = "exploration"
METHOD = ("seeded histories of training runs in sequential and interleaved processes on one root folder under simulated clocks (frozen, repeating, "
          "jumping back) and recycled process numbers; folder and start state of every run checked against the set of all earlier runs")
RULE = ("one run = 1-4 simulated processes, sequential or interleaved at every file-system effect, each with 1-3 fits under a clock script and a "
        "process number from a small pool; non-trivial = at least two fits")
REAL = ["ConfigManager, TrainConfig, Trainer, callbacks, checkpoint files"]
STUB = ["clock, process number, metric tracker, progress bar"]
ASSUME = ["the file system creates a directory for exactly one of several concurrent callers (mkdir is atomic)"]
LISTS = ["procs"]
LIST_MIN = {"procs": 1}
SIMPLE = {"concurrent": False, "mode": "rr", "opt": "adam", "model": "vec"}


def gen(rng: random.Random, i: int, tier: str) -> dict:
    procs = []
    base = rng.choice([1_700_000_000, 1_700_000_000, 1_709_251_199, 951_782_399])
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        script, t = [], float(base)
        for _ in range(rng.randint(1, 6)):
            t += rng.choice([0, 0, 0, 0.3, 1, -1, 3600, -3600, 86400])
            script.append(t)
        fits = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            fits.append({"folder": rng.choice(["per_run", "per_run", "per_run", "fixed", "default"]),
                         "reuse": rng.random() < 0.5, "max_iter": rng.choice([1, 2]), "ck": rng.choice([1, 1, 2, 0])})
        procs.append({"pid": rng.choice([4242, 4242, 4242, 7, 66134]), "clock": script, "fits": fits})
    return {"procs": procs, "concurrent": rng.random() < 0.6, "mode": rng.choice(["rand", "rr", "burst"]), "sched": rng.randrange(1 << 30),
            "opt": rng.choice(["adam", "sgdm", "ng_1p1"]), "model": rng.choice(["vec", "lin"]), "tool": rng.choice(["tensorboard", "tensorboard", "mlflow"]),
            "seed": rng.randrange(1 << 20), "dirseed": rng.randrange(1 << 20)}


def body(plan, j, root, em, pause):
    from pathlib import Path
    from qadence.ml_tools import TrainConfig, Trainer
    from qadence.ml_tools.callbacks import Callback
    from qadence.types import ExperimentTrackingTool
    p = plan["procs"][j]
    S.pid = p["pid"]
    S.clock = SimClock()
    S.clock.wall_script = list(p["clock"])
    fs = S.fs = SimFS(root, [], seed=plan["dirseed"] + j)
    if pause is not None:
        fs.on_step = pause

    def tracker(name, a, k):
        if name == "tb.open":
            em("open", os.path.relpath(a[0], root), k.get("exists"))
    S.writers = tracker
    os.chdir(root)
    tr = last = None
    cfgs = {}
    for f, fit in enumerate(p["fits"]):
        seed = plan["seed"] + 100 * j + f
        key = fit["folder"]

        def start(trainer, config, writer):
            em("start", os.path.relpath(str(config.log_folder), root) if os.path.isabs(str(config.log_folder)) else str(config.log_folder),
               os.path.isdir(str(config.log_folder)), trainer.opt_result.iteration, T.params_digest(trainer.model))

        if fit["reuse"] and key in cfgs:
            config = cfgs[key]      # a later run with the same configuration object
        else:
            kw = dict(max_iter=fit["max_iter"], checkpoint_every=fit["ck"], print_every=0, write_every=1, verbose=False,
                      callbacks=[Callback(on="train_start", called_every=1, callback=start)],
                      tracking_tool=ExperimentTrackingTool(plan["tool"]))
            if key == "per_run":
                kw.update(root_folder=Path(root) / "logs", create_subfolder_per_run=True)
            elif key == "fixed":
                kw.update(log_folder=Path(root) / f"mine{j}")
            else:
                kw.update(root_folder=Path(root) / "logs")
            config = TrainConfig(**kw)
        fresh_default = key == "default" and config is not cfgs.get(key)
        cfgs[key] = config
        model = T.make_model(plan["model"], seed)
        T.perturb(model, seed)
        opt = T.make_opt(plan["opt"], model, seed, budget=3)
        Trainer.set_use_grad(not T.is_ng(plan["opt"]))
        from qadence.ml_tools.data import to_dataloader
        x, y = T.make_xy(4, 3)
        em("fit", f, key, fresh_default, T.params_digest(model), fit["ck"])
        tr = Trainer(model=model, optimizer=opt, config=config, loss_fn=T.data_loss(None), train_dataloader=to_dataloader(x, y, batch_size=4))
        sut(tr.fit)
        em("end", os.path.relpath(str(config.log_folder), root) if os.path.isabs(str(config.log_folder)) else str(config.log_folder))
    return fs.step


def execute(plan, ctx):
    root = os.path.join(ctx.scratch, "fs")
    os.makedirs(root)
    n = len(plan["procs"])
    if plan["concurrent"] and n > 1:
        outs, order = interleave([lambda em, pause, j=j: body(plan, j, root, em, pause) for j in range(n)], plan["sched"], plan["mode"])
        ctx.fault("process_switch", sum(1 for a, b in zip(order, order[1:]) if a != b))
        ctx.ev("order", "".join(map(str, order)))
        ctx.steps += len(order)
        evs = sorted((e[0], j, e[1:]) for j, o in enumerate(outs) for e in o.events)
        evs = [(j, e) for _, j, e in evs]
        errs = [(j, o.error) for j, o in enumerate(outs) if o.error]
    else:
        evs, errs = [], []
        for j in range(n):
            o = phase(lambda em, j=j: body(plan, j, root, em, None))
            evs += [(j, e) for e in o.events]
            if o.error:
                errs.append((j, o.error))
            ctx.steps += o.result or 0
    for j, e in errs:
        raise Violation("run-failed", f"process {j} failed: {e[0]}: {e[1]}\n{e[2]}")
    used: dict[str, tuple] = {}
    cur: dict[int, dict] = {}
    fixed_seen: set = set()
    nfits = 0
    for j, e in evs:
        if e[0] == "fit":
            cur[j] = {"id": (j, e[1]), "kind": e[2], "fresh": e[2] == "per_run" or e[3], "init": e[4], "ck": e[5], "def": e[2] == "default" and not e[3]}
            nfits += 1
        elif e[0] == "open":
            if not e[2]:
                raise Violation("record-before-folder", f"run {cur[j]['id']}: tracker opened on {e[1]} before that folder exists")
        elif e[0] == "start":
            _, folder, exists, it, dig = e
            c = cur[j]
            c["folder"] = folder
            if not exists:
                raise Violation("folder-missing", f"run {c['id']} starts while its folder {folder} does not exist")
            if c["fresh"]:
                if folder in used:
                    raise Violation("folder-shared", f"run {c['id']} got folder {folder}, already used by run {used[folder]}")
                if it != 0 or dig != c["init"]:
                    raise Violation("loaded-foreign", f"run {c['id']} in its own folder {folder} starts at iteration {it}"
                                    f"{' with foreign parameters' if dig != c['init'] else ''}")
                if os.path.dirname(folder) != "logs":
                    raise Violation("wrong-folder", f"run {c['id']} asked for a sub-folder of logs and got {folder}")
            elif c["kind"] == "fixed":
                if folder != f"mine{j}":
                    raise Violation("wrong-folder", f"run {c['id']} was given folder mine{j} but uses {folder}")
            elif c["def"]:
                if used.get(folder, (None,))[0] != j:
                    raise Violation("wrong-folder", f"run {c['id']} repeats a configuration of process {j} but uses folder {folder} of {used.get(folder)}")
            used.setdefault(folder, c["id"])
            ctx.ev("start", c["id"], c["kind"], folder, it)
        elif e[0] == "end":
            if e[1] != cur[j].get("folder"):
                raise Violation("folder-changed", f"run {cur[j]['id']} started in {cur[j].get('folder')} and ended in {e[1]}")
    # every folder that a run with checkpoints used holds them, and nothing outside those folders was written
    allowed = {os.path.normpath(u) for u in used} | {"logs", "."}
    for d, _, files in os.walk(root):
        rel = os.path.relpath(d, root)
        if files and rel not in allowed:
            raise Violation("stray-files", f"files {sorted(files)} in {rel}, a folder no run uses")
    clocks = [x for p in plan["procs"] for x in p["clock"]]
    ctx.fault("clock_repeat", len(clocks) - len(set(clocks)))
    ctx.fault("clock_backwards", sum(1 for p in plan["procs"] for a, b in zip(p["clock"], p["clock"][1:]) if b < a))
    pids = [p["pid"] for p in plan["procs"]]
    ctx.fault("pid_recycled", len(pids) - len(set(pids)))
    ctx.sim_time += sum(abs(b - a) for p in plan["procs"] for a, b in zip(p["clock"], p["clock"][1:]))
    ctx.nontrivial = nfits > 1


def warm():
    T.warm(kinds=("vec", "lin"), opts=("adam", "sgdm", "ng_1p1"))
