from __future__ import annotations

import ast
import os
import sys

from ..boot import REPO
from ..phases import SutError, phase
from ..runner import Violation
from ..seams import S, SimClock, SimFS
from .. import stage as G, train as T
from .c05 import base_cfg, losses

PROP = "C04"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 500, 20000
METHOD = "an interrupt delivered at a seeded executed source line or file-system effect inside an epoch; stop, checkpoint, tracker and following fit compared with a reference"
LEVEL = "exploration"
RULE = ("one run = 1-2 undisturbed fits, then a fit interrupted at one executed line of qadence or one file-system effect inside an epoch (position chosen by the seed among all "
        "positions counted in a dry run), then a further fit; non-trivial = the interrupt was delivered")
REAL = ["Trainer, callbacks, tracker writers, checkpoint save/load, real files", "torch / nevergrad optimizers"]
STUB = ["metric tracker back ends (in-memory)", "progress bar", "loss values (scripted)"]
ASSUME = ["an epoch lasts from on_train_epoch_start to on_train_epoch_end, and from on_val_epoch_start to on_val_epoch_end",
          "interrupts are delivered at source lines of qadence, in user code and at file-system effects; not inside torch or nevergrad internals nor while a with-block is being left"]
LISTS = ["cbs", "before"]
SIMPLE = {"cfg.val_every": 0, "cfg.checkpoint_every": 1, "cfg.write_every": 0, "cfg.plot_every": 0, "cfg.opt": "sgd", "cfg.nb_train": 1, "cfg.nb_val": 1,
          "cfg.infinite": False, "cfg.infinite_val": False, "cfg.max_batches": 0, "cfg.hyper": False, "cfg.log_model": False, "cfg.per_run": False,
          "max_iter": 1, "after.max_iter": 1, "after.where": "new"}
PREFIX = os.path.realpath(REPO) + os.sep + "qadence" + os.sep


def gen(rng, i, tier):
    cfg = base_cfg(rng)
    cfg["checkpoint_every"] = rng.choice([0, 1, 1, 2, 3])
    cfg["hyper"] = rng.random() < 0.5
    if cfg["val_every"] and rng.random() < 0.2:
        cfg["best_only"], cfg["criterion"] = True, "lt"
    cbs = []
    for _ in range(rng.choice([0, 1, 2])):
        cbs.append({"kind": rng.choice(["rec", "rec", "save", "write"]), "on": rng.choice(["train_epoch_end", "train_batch_end", "val_epoch_end", "train_epoch_start"]),
                    "every": rng.choice([1, 2])})
    cbs.append({"kind": "rec", "on": "train_end", "every": 1})
    cbs.append({"kind": "rec", "on": "train_start", "every": 1})
    return {"cfg": cfg, "cbs": cbs, "before": [{"op": "fit", "where": "same", "max_iter": rng.choice([0, 1, 2])} for _ in range(rng.choice([0, 0, 1]))],
            "where": rng.choice(["same", "new"]), "max_iter": rng.choice([0, 1, 2, 4]), "pos": rng.random(),
            "after": {"op": "fit", "where": rng.choice(["same", "new"]), "max_iter": rng.choice([0, 1, 2])},
            "script_train": losses(rng), "script_val": losses(rng), "script_test": [1.0], "dirseed": rng.randrange(1 << 20)}


_with: dict[str, set] = {}


def with_lines(fn: str) -> set:
    """Lines of with statements (leaving the block is traced there too)."""
    if fn not in _with:
        out = set()
        try:
            for n in ast.walk(ast.parse(open(fn).read())):
                if isinstance(n, (ast.With, ast.AsyncWith)):
                    out.update(range(n.lineno, n.body[0].lineno))
        except Exception:
            pass
        _with[fn] = out
    return _with[fn]


class Lines:
    """Counts interruptible positions; raises KeyboardInterrupt at position `at`."""

    def __init__(self, at: int | None):
        self.at, self.n, self.armed, self.where = at, 0, False, None
        self.fire = lambda: None
        self.special = []

    def point(self, where):
        if not self.armed:
            return
        k = self.n
        self.n += 1
        if self.at is None and str(where).startswith(("user", "fs")):
            self.special.append(k)
        if self.at is not None and k == self.at:
            self.armed = False
            self.where = where
            self.fire()
            raise KeyboardInterrupt

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(PREFIX):
            return None
        skip = with_lines(fn)

        def local(frame, event, arg):
            if event == "line" and self.armed and frame.f_lineno not in skip:
                self.point(f"{fn[len(PREFIX):]}:{frame.f_lineno}")
            return local
        return local


class Interrupted(G.Real):
    def __init__(self, plan, folder, lines):
        super().__init__(plan, folder)
        self.lines = lines
        lines.fire = self.fired
        self.at_fire = None

    def starts(self):
        return sum(e[0] == "hook" and e[1] in ("on_train_epoch_start", "on_val_epoch_start") for e in self.ev)

    def fired(self):
        self.at_fire = self.starts()

    def log(self, *a):
        super().log(*a)
        if a[0] == "hook" and a[1] in ("on_train_epoch_start", "on_val_epoch_start") and self.watch and self.lines.where is None:
            self.lines.armed = True
        # user code (hooks, loss, callbacks, criterion) is interrupted too
        try:
            self.lines.point("user:" + str(a[1] if a[0] == "hook" else a[0]))
        finally:
            if a[0] == "hook" and a[1] in ("on_train_epoch_end", "on_val_epoch_end"):
                self.lines.armed = False
    watch = False


def history(plan, scratch, at, em):
    root = os.path.join(scratch, f"fs{at}")
    folder = os.path.join(root, "run")
    os.makedirs(root)
    lines = Lines(at)
    for d, _, fs in os.walk(PREFIX + "ml_tools"):
        for f in fs:
            if f.endswith(".py"):
                with_lines(os.path.join(d, f))
    S.fs = fs = SimFS(root, [], seed=plan["dirseed"])
    S.clock = SimClock()
    S.pid = 4242
    real, ref = Interrupted(plan, folder, lines), G.Ref(plan)
    S.writers = G.tracker_events(real.ev)
    for j, op in enumerate(plan["before"]):
        real.step(op, j)
        ref.step(op, j)
    start = len(real.ev)
    fs.on_step = lambda k, op, path: lines.point(f"fs:{op}")
    if real.tr is None or plan["where"] == "new":
        real.build(plan["max_iter"])
    real.tr.config.max_iter = plan["max_iter"]
    real.watch = True
    real.pts.start(None)
    sys.settrace(lines.tracer)
    try:
        m, o = real.tr.fit()
    except KeyboardInterrupt:
        sys.settrace(None)
        return {"n": lines.n, "where": lines.where, "escaped": True}
    except Exception as e:
        sys.settrace(None)
        raise SutError(e) from e
    finally:
        sys.settrace(None)
        lines.armed = False
    real.watch = False
    S.writers.flush()
    fs.on_step = None
    if at is None:
        return {"n": lines.n, "special": lines.special}
    out = {"n": lines.n, "where": lines.where, "escaped": False, "ev": real.ev[start:], "same": m is real.tr.model and o is real.tr.optimizer,
           "further": real.starts() - (real.at_fire or 0)}
    lf = str(real.tr.config.log_folder)
    dig = (T.model_digest(m), T.opt_digest(o))
    labels = G.labels_on_disk(lf)
    out["labels"] = labels
    from pathlib import Path
    from qadence.ml_tools import load_checkpoint
    fm = G.Scripted()
    fo = G.make_opt(plan["cfg"]["opt"], fm, 10)
    if T.is_ng(plan["cfg"]["opt"]):
        fo.enable_pickling()
    import shutil
    copy = os.path.join(scratch, f"copy{at}")
    shutil.copytree(lf, copy)
    fm, fo, it = load_checkpoint(Path(copy), fm, fo)
    out["restored"] = (T.model_digest(fm) == dig[0], T.opt_digest(fo) == dig[1], it)
    # train again
    s2 = len(real.ev)
    g_before = real.tr.global_step
    real.step(plan["after"], 99)
    S.writers.flush()
    out["again"] = real.ev[s2:]
    r2 = G.Ref(plan)
    r2.new()
    r2.ncall = dict(out_ncall(real.ev[:s2]))
    r2.g = 0 if plan["after"]["where"] == "new" else g_before
    for k, parts in labels:
        if "model" in parts:
            r2.labels[k] = ([], None)
    if out["restored"][2]:      # a checkpoint interrupted just before its files get their names is completed when it is loaded
        r2.labels.setdefault(out["restored"][2], ([], None))
    r2.step(dict(plan["after"], where="same"), 99)
    out["again_ref"] = r2.ev
    out["saved"] = [e for e in real.ev[:start]]
    S.fs = S.clock = S.pid = None
    return out


def out_ncall(ev):
    c = {"train": 0, "val": 0, "test": 0}
    for e in ev:
        if e[0] == "loss":
            c[e[1]] += 1
    return c


def execute(plan, ctx):
    r = phase(lambda em: history(plan, ctx.scratch, None, em))
    if r.error:
        raise Violation("raised", f"undisturbed fit: {r.error[0]}: {r.error[1]}")
    total = r.result["n"]
    if total == 0:
        raise RuntimeError("no interruptible position inside an epoch")
    sp = r.result["special"]
    # a third of the interrupts hit user code or file-system effects, the others any executed line
    at = sp[min(len(sp) - 1, int(plan["pos"] * 3 * len(sp)))] if plan["pos"] < 1 / 3 and sp else min(total - 1, int((plan["pos"] * 1.5 - 0.5) * total))
    r = phase(lambda em: history(plan, ctx.scratch, at, em))
    if r.error:
        raise Violation("raised", f"interrupt at position {at} of {total}: {r.error[0]}: {r.error[1]}\n{r.error[2][-1500:]}", f"raised:{r.error[0]}")
    o = r.result
    ctx.ev("interrupt", at, total, o["where"])
    ctx.fault("interrupt@" + (str(o["where"]).split(":")[0] if str(o["where"]).startswith(("fs", "user")) else "line"))
    ctx.state_keys.append(str(o["where"]))
    if o["escaped"]:
        raise Violation("escaped", f"the interrupt at {o['where']} inside an epoch propagated out of fit")
    if o["where"] is None:
        raise RuntimeError("the interrupt was not delivered")
    ev = o["ev"]
    for e in ev:
        ctx.ev(*e)
    hooks = [e[1] for e in ev if e[0] == "hook"]
    # after the interrupt: exactly the end of training
    n_end = hooks.count("on_train_end")
    ctx.check(n_end == 1, "end-actions", f"interrupt at {o['where']}: on_train_end ran {n_end} times")
    ends = [e for e in ev if e[0] == "cb" and e[2] == "train_end"]
    want = sum(c["kind"] == "rec" and c["on"] == "train_end" for c in plan["cbs"])
    ctx.check(len(ends) == want, "end-actions", f"interrupt at {o['where']}: train_end callbacks fired {len(ends)} times, expected {want}")
    ctx.check(sum(e[0] == "close" for e in ev) == 1 and sum(e[0] == "open" for e in ev) == 1, "tracker",
              f"interrupt at {o['where']}: tracker opened {sum(e[0] == 'open' for e in ev)} and closed {sum(e[0] == 'close' for e in ev)} times")
    ctx.check(ev[[e[0] for e in ev].index("close"):][1:] == [], "tracker", "records after the tracker was closed")
    if plan["cfg"]["hyper"]:
        ctx.check(sum(e[0] == "hyper" for e in ev) == 1 + 0, "end-actions", "hyperparameters not logged exactly once")
    ctx.check(o["further"] == 0, "ignored", f"after the interrupt at {o['where']} {o['further']} further epochs or validations were started")
    ctx.check(o["same"], "returned", "fit did not return the trainer's model and optimizer")
    cfg = plan["cfg"]
    if cfg["checkpoint_every"] and not cfg["best_only"]:
        ctx.check(o["restored"][0] and o["restored"][1], "final-checkpoint",
                  f"interrupt at {o['where']}: newest checkpoint does not restore the returned {'model' if not o['restored'][0] else 'optimizer'} (label {o['restored'][2]}, stored {o['labels']})")
    from .c05 import strip
    G.compare([e for e in strip(o["again"])], [e for e in strip(o["again_ref"])], "again")
    ctx.steps = total
    ctx.nontrivial = True


warm = G.warm
