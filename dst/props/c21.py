"""C21 gradient-free training: ask, evaluate, tell."""
from __future__ import annotations

import math
import os
import random
import shutil

from ..runner import Violation
from ..seams import S, SimClock, SimFS
from .. import stage as G
from .. import train as T

PROP = "C21"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 500, 15000
LEVEL = "exploration"
METHOD = ("seeded histories of gradient-free and gradient-based trainings, mode switches and user changes, with optimizers that are real or propose candidates chosen by the simulator, "
          "and interrupts or failures at chosen evaluations; every ask, evaluation, tell and parameter vector is recorded and checked")
RULE = ("one run = one model and 1-5 operations (train, switch mode around trainings, change parameters) with faults at chosen evaluations; non-trivial = at least 3 losses were told")
REAL = ["Trainer, update_ng_parameters, get/set_parameters, enable_grad_opt, disable_grad_opt", "nevergrad optimizers (except the scripted one)", "torch optimizers"]
STUB = ["candidates of the scripted optimizer", "progress bar, metric tracker"]
ASSUME = ["one process", "the candidate proposed last before a training ends is evaluated by the next gradient-free training, if the user changes nothing before"]
LISTS = ["ops", "body"]
LIST_MIN = {"ops": 1}
SIMPLE = {"fault": None, "val": 0, "nb": 1, "loss": "sq", "raise": False}
NG = ["ng_1p1", "ng_de", "ng_pso", "ng_rand", "ng_opt", "scripted", "scripted"]


def gen_op(rng, depth=0):
    r = rng.random()
    if r < 0.6 or depth > 1:
        f = {"kind": rng.choice(["ki", "boom"]), "n": rng.choice([1, 2, 3, 4, 7])} if rng.random() < 0.3 else None
        return {"op": "fit", "max_iter": rng.choice([0, 1, 2, 3, 6]), "fault": f}
    if r < 0.72:
        return {"op": "change", "d": rng.choice([0.25, -1.5])}
    return {"op": "with", "mode": rng.choice(["free", "free", "grad"]), "opt": rng.choice(NG), "topt": rng.choice(["adam", "sgd"]), "own": rng.random() < 0.2,
            "wrong": rng.random() < 0.1, "raise": rng.random() < 0.3, "body": [gen_op(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2]))]}


def gen(rng: random.Random, i: int, tier: str) -> dict:
    return {"model": rng.choice(["mix", "mix", "vec", "lin", "one", "qnn", "qm"]), "mode": rng.choice(["free", "free", "free", "grad"]), "opt": rng.choice(NG), "topt": rng.choice(["adam", "sgd"]),
            "nb": rng.choice([0, 1, 2, 3]), "val": rng.choice([0, 0, 1, 2]), "loss": rng.choice(["sq", "sq", "sq32", "wild", "const", "grad"]), "seed": rng.randrange(1 << 30),
            "ops": [gen_op(rng) for _ in range(rng.choice([1, 2, 2, 3, 5]))]}


def model_of(plan):
    import torch
    k = plan["model"]
    if k in ("lin", "vec", "qnn", "qm"):
        m = T.make_model(k, plan["seed"] % 1000)
        T.perturb(m, plan["seed"] % 1000)
        return m

    class Mix(torch.nn.Module):
        """Trainable and frozen parameters of several shapes and precisions, in between each other."""

        def __init__(self):
            super().__init__()
            P = torch.nn.Parameter
            self.f0 = P(torch.full((2, 2), 3.0), requires_grad=False)
            self.a = P(torch.arange(6.0).reshape(2, 3) / 7)
            self.s = P(torch.tensor(0.7, dtype=torch.float64))
            self.f1 = P(torch.tensor(-2.0), requires_grad=False)
            self.t = P(torch.arange(4.0, dtype=torch.float64).reshape(2, 1, 2) / 3)
            self.register_buffer("buf", torch.ones(3))

        def forward(self, x=None):
            return self.a.sum() * self.s + self.t.sum()

    class One(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.s = torch.nn.Parameter(torch.tensor(0.4))

        def forward(self, x=None):
            return self.s
    torch.manual_seed(plan["seed"])
    return Mix() if k == "mix" else One()


def vec(model):
    """All trainable values, each in its own precision, as python floats (independent of get_parameters)."""
    return [float(x) for p in model.parameters() if p.requires_grad for x in p.detach().reshape(-1)]


def frozen(model):
    return T.tdig({k: p for k, p in model.named_parameters() if not p.requires_grad}) + T.tdig({k: b for k, b in model.named_buffers() if k == "buf"})


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-6 * (1 + abs(x)) for x, y in zip(a, b))


def scripted_class():
    import nevergrad as ng
    import numpy as np

    class Scripted(ng.optimizers.base.Optimizer):
        """Proposes vectors chosen by the simulator, among them repeated and far-out ones."""

        def _internal_ask_candidate(self):
            k = self.num_ask
            d = self.parametrization.dimension
            r = random.Random(f"{self.dst_seed}/{k if k % 4 else 0}")
            v = np.array([r.choice([0.0, 1.0, -1.0, r.uniform(-3, 3), 50.0]) for _ in range(d)])
            return self.parametrization.spawn_child(new_value=v)

        def _internal_tell_candidate(self, candidate, loss):
            pass
    return Scripted


def make_ng(kind, model, seed):
    import numpy as np
    if kind != "scripted":
        return T.make_opt(kind, model, seed, budget=50)
    o = scripted_class()(parametrization=len(vec(model)), budget=50)
    o.dst_seed = seed
    o.enable_pickling = lambda: None
    o.parametrization.random_state = np.random.RandomState(seed % 2**31)
    return o


class Run:
    def __init__(self, plan, ctx, root):
        self.plan, self.ctx, self.root = plan, ctx, root
        self.told = self.nfit = self.switches = 0
        self.pending: dict = {}     # optimizer -> candidates asked and not yet told
        self.last = None            # last candidate asked in this training step
        self.evals: list = []       # evaluation of the current step, not yet told
        self.fault = None
        self.in_free = False
        self.stepped: list = []

    # ---- seams
    def patch(self):
        from nevergrad.optimization.base import Optimizer as O
        self.orig = (O.ask, O.tell)
        me = self
        depth = [0]

        def ask(opt, *a, **k):
            depth[0] += 1
            try:
                c = me.orig[0](opt, *a, **k)
            finally:
                depth[0] -= 1
            if not depth[0]:
                me.on_ask(opt, c)
            return c

        def tell(opt, cand, loss, *a, **k):
            if not depth[0]:
                me.on_tell(opt, cand, loss)
            depth[0] += 1
            try:
                return me.orig[1](opt, cand, loss, *a, **k)
            finally:
                depth[0] -= 1
        O.ask, O.tell = ask, tell

    def unpatch(self):
        from nevergrad.optimization.base import Optimizer as O
        O.ask, O.tell = self.orig

    @staticmethod
    def val(cand):
        import numpy as np
        return [float(x) for x in np.asarray(cand.value).reshape(-1)]

    def bad(self, cls, msg):
        raise Violation(cls, f"training {self.nfit}: {msg}", cls)

    def on_ask(self, opt, c):
        if not self.in_free:
            self.bad("asked-outside", "a candidate was requested outside gradient-free training")
        v = self.val(c)
        self.pending.setdefault(id(opt), []).append(v)
        self.last = v
        self.ctx.ev("ask", *[round(x, 5) for x in v[:4]])

    def on_tell(self, opt, cand, loss):
        v = self.val(cand)
        self.ctx.ev("tell", round(float(loss), 5) if math.isfinite(float(loss)) else str(loss))
        if not self.in_free:
            self.bad("told-outside", "a loss was told outside gradient-free training")
        if opt is not self.tr.optimizer:
            self.bad("wrong-optimizer", "a loss was told to an optimizer other than the current one")
        if len(self.evals) != 1:
            self.bad("not-evaluated", f"a loss was told after {len(self.evals)} evaluations since the last one")
        at, value = self.evals.pop()
        if not close(v, at):
            self.bad("wrong-candidate", f"the loss of parameters {at} was told for candidate {v}")
        f = float(loss)
        if not (f == value or math.isnan(f) and math.isnan(value) or abs(f - value) <= 1e-6 * abs(value)):
            self.bad("wrong-loss", f"loss {f} was told for a candidate whose loss is {value}")
        q = self.pending.get(id(opt), [])
        for k, c in enumerate(q):
            if close(c, v):
                del q[k]
                break
        self.told += 1

    # ---- user code
    def loss_fn(self, model, batch):
        import torch
        v = vec(model)
        plan = self.plan
        self.calls += 1
        b = 0.0 if batch is None else float(batch[0].sum())
        train = model.training
        z = sum((p * p).sum().to(torch.float64) for p in model.parameters() if p.requires_grad) + b
        if plan["loss"] == "sq32":
            z = z.to(torch.float32)
        elif plan["loss"] == "const":
            z = z * 0 + 1.0
        elif plan["loss"] == "wild" and self.calls % 3 == 0:
            z = z + float("inf") if self.calls % 2 else z * 1e30
        if not self.plan["loss"] == "grad" and self.in_free:
            z = z.detach()
        f = self.fault
        if f and train and self.calls == f["n"]:
            self.fired = True
            raise (KeyboardInterrupt() if f["kind"] == "ki" else G.Boom("injected"))
        if train and self.in_free:
            if self.last is not None and not close(self.last, v):
                self.bad("not-candidate", f"evaluated at {v} although {self.last} was proposed last")
            if self.evals:
                self.bad("not-told", "a candidate was evaluated while the previous loss was not told")
            self.evals.append((v, float(z)))
        return z, {}

    def trainer(self):
        import torch
        from qadence.ml_tools import TrainConfig, Trainer
        from qadence.ml_tools.data import to_dataloader
        plan, me = self.plan, self
        self.model = model_of(plan)
        nb = plan["nb"]
        x = torch.arange(nb * 2.0).reshape(-1, 1)
        dl = to_dataloader(x, x, batch_size=2) if nb else None
        vl = to_dataloader(x + 1, x, batch_size=2) if nb and plan["val"] else None
        cfg = TrainConfig(max_iter=1, log_folder=os.path.join(self.root, "run"), print_every=0, write_every=0, checkpoint_every=0, plot_every=0, verbose=False,
                          val_every=plan["val"] if vl else 0, checkpoint_best_only=False)
        Trainer.set_use_grad(plan["mode"] == "grad")

        class Rec(Trainer):
            def on_train_batch_end(self, lm):
                me.step_done()
        opt = self.torch_opt(plan["topt"]) if plan["mode"] == "grad" else make_ng(plan["opt"], self.model, plan["seed"])
        self.tr = Rec(model=self.model, optimizer=opt, config=cfg, loss_fn=self.loss_fn, train_dataloader=dl, val_dataloader=vl)

    def torch_opt(self, kind):
        import torch
        ps = [p for p in self.model.parameters() if p.requires_grad]
        o = torch.optim.Adam(ps, lr=0.05) if kind == "adam" else torch.optim.SGD(ps, lr=0.001)
        step = o.step

        def rec(closure=None):
            self.stepped.append(o)
            return step(closure)
        o.step = rec
        return o

    def step_done(self):
        v = vec(self.tr.model)
        self.steps += 1
        if self.in_free:
            if self.evals:
                self.bad("not-told", "a step ended without telling the loss of its evaluation")
            if self.last is None or not close(self.last, v):
                self.bad("not-applied", f"after a step the model holds {v} although {self.last} was proposed last")
        if frozen(self.tr.model) != self.frozen:
            self.bad("frozen-changed", "a parameter that is not trainable was changed")

    def fit(self, op):
        self.nfit += 1
        tr = self.tr
        self.in_free = not tr.use_grad
        self.calls = self.steps = 0
        self.fired, self.fault, self.evals, self.stepped = False, op["fault"], [], []
        self.last = vec(tr.model) if self.in_free else None     # the model holds the candidate to evaluate next
        tr.config.max_iter = op["max_iter"]
        opt, told0 = tr.optimizer, self.told
        shutil.rmtree(os.path.join(self.root, "run"), ignore_errors=True)   # no checkpoint to resume from: that is C02
        try:
            tr.fit()
        except G.Boom:
            pass
        except KeyboardInterrupt:
            self.bad("interrupt-escaped", "an interrupt escaped from training")
        finally:
            free, self.in_free = self.in_free, False
        if self.fired:
            self.ctx.fault({"ki": "interrupt", "boom": "user-code-failure"}[op["fault"]["kind"]])
        if frozen(tr.model) != self.frozen:
            self.bad("frozen-changed", "a parameter that is not trainable was changed")
        if tr.optimizer is not opt:
            self.bad("optimizer-replaced", "the trainer's optimizer was replaced by training")
        nb = max(1, self.plan["nb"])
        if free:
            left = self.pending.get(id(opt), [])
            if len(left) > 1 or left and not close(left[0], vec(tr.model)):
                self.bad("never-told", f"candidates were proposed but their loss never told: {left[:2]}")
            if self.told - told0 != self.steps and not self.fired:
                self.bad("told-count", f"{self.told - told0} losses told in {self.steps} steps")
            if self.stepped:
                self.bad("wrong-optimizer", "a gradient-based optimizer made a step in gradient-free training")
        elif any(s is not opt for s in self.stepped) or len(self.stepped) != self.steps and not self.fired:
            self.bad("wrong-optimizer", f"{len(self.stepped)} steps of the current optimizer in {self.steps} training steps")
        if not self.fired and self.steps != (op["max_iter"] + 1) * nb:
            self.bad("step-count", f"{self.steps} steps in {op['max_iter'] + 1} epochs of {nb} batches")

    def do(self, op):
        import torch
        tr = self.tr
        if op["op"] == "fit":
            self.fit(op)
        elif op["op"] == "change":
            with torch.no_grad():
                for p in tr.model.parameters():
                    if p.requires_grad:
                        p += op["d"]
            self.pending.clear()    # what was proposed before no longer is what the next training evaluates
        else:
            free = op["mode"] == "free"
            was = (tr.use_grad, tr.optimizer)
            if op["own"] and isinstance(tr.optimizer, torch.optim.Optimizer) != free:
                opt = None
            else:
                opt = make_ng(op["opt"], tr.model, self.plan["seed"] + 1) if free != op["wrong"] else self.torch_opt(op["topt"])
            self.switches += 1
            entered = False
            self.pending.pop(id(opt), None)
            try:
                with (tr.disable_grad_opt if free else tr.enable_grad_opt)(opt):
                    entered = True
                    if tr.use_grad == free:
                        self.bad("mode", f"use_grad is {tr.use_grad} inside the switch")
                    if opt is not None and tr.optimizer is not opt:
                        self.bad("mode", "the optimizer given to the switch is not used")
                    for o in op["body"]:
                        self.do(o)
                    if op["raise"]:
                        self.ctx.fault("failure-inside-switch")
                        raise G.Boom("inside")
            except G.Boom:
                pass
            except TypeError:
                if entered or not op["wrong"]:
                    raise
                self.ctx.fault("wrong-optimizer-type")
            else:
                if op["wrong"] and not op["raise"] and opt is not None:
                    self.bad("mode", "an optimizer of the wrong kind was accepted")
            if (tr.use_grad, tr.optimizer) != was:
                self.bad("not-restored", f"after the switch use_grad={tr.use_grad}, the optimizer is {'' if tr.optimizer is was[1] else 'not '}the original one")
            self.pending.clear()
            self.keep = opt


def execute(plan, ctx):
    import torch
    root = os.path.join(ctx.scratch, "fs")
    os.makedirs(root)
    S.fs = SimFS(root, [], seed=1)
    S.clock = SimClock()
    S.writers = lambda *a: None
    random.seed(plan["seed"])
    torch.manual_seed(plan["seed"])
    r = Run(plan, ctx, root)
    r.calls = r.steps = 0
    r.patch()
    try:
        r.trainer()
        r.frozen = frozen(r.model)
        for j, op in enumerate(plan["ops"]):
            try:
                r.do(op)
            except Violation:
                raise
            except Exception as e:
                import traceback
                raise Violation("raised", f"operation {j}: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", f"raised:{type(e).__name__}")
            ctx.state_keys.append(f"{op['op']}|{r.tr.use_grad}|{r.told % 30}|{plan['model']}")
    finally:
        r.unpatch()
        ctx.sim_time = S.clock.t
        S.fs = S.clock = S.writers = None
    ctx.steps = r.told + r.nfit
    ctx.nontrivial = r.told >= 3
    ctx.probe("losses told", r.told)
    ctx.probe("mode switches", r.switches)


def warm():
    G.warm()
    T.warm(kinds=("vec", "qm", "qnn"), opts=("adam", "ng_1p1", "ng_de", "ng_pso", "ng_opt", "ng_rand"))
