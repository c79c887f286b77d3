"""C22 data loaders and the batches training consumes."""
from __future__ import annotations

import os
import random

from ..phases import SutError
from ..runner import Violation
from ..seams import S, SimClock, SimFS
from .. import stage as G

PROP = "C22"
BOOT = ("qadence.ml_tools",)
QUICK, THOROUGH = 700, 25000
LEVEL = "exploration"
METHOD = ("seeded histories of several interleaved iterators, trainings, validations and tests over shared datasets under a controlled shuffle, with interrupts, failures and user "
          "code writing into batches; every delivered batch is decoded back to sample numbers and compared with a reference of passes")
RULE = ("one run = 1-3 datasets, 1-4 loaders (finite, infinite, dictionary, moved) and 1-8 operations (open an iterator, draw, train, test), with draws of other iterators scheduled "
        "inside training steps; non-trivial = at least 5 batches were delivered and checked")
REAL = ["to_dataloader, InfiniteTensorDataset, DictDataLoader, data_to_device, Trainer batch iteration, Accelerator.prepare_batch", "torch DataLoader and samplers"]
STUB = ["outcome of random.shuffle (identity, reversed, rotated, or seeded)", "progress bar, metric tracker"]
ASSUME = ["opening a new iterator of a dictionary of loaders ends the previous one", "single process (the split over processes is C10)"]
LISTS = ["ops", "steal"]
LIST_MIN = {"ops": 1}
SIMPLE = {"fault": None, "scribble": False, "max_batches": None, "dtype": None}
DT = {None: None, "f32": "float32", "f64": "float64", "c64": "float32", "c128": "float64"}


def gen_loader(rng, nsets, flat=False):
    k = rng.choice(["finite", "finite", "infinite", "infinite"] + ([] if flat else ["dict", "raw"]))
    if k == "dict":
        return {"k": "dict", "m": [gen_loader(rng, nsets, True) for _ in range(rng.choice([1, 2, 2, 3]))]}
    o = {"k": k, "s": rng.randrange(nsets), "bs": rng.choice([1, 1, 2, 3, 4, 5, 20])}
    if k == "finite" and rng.random() < 0.5:
        o["shuffle"] = rng.random() < 0.7
        o["drop"] = rng.random() < 0.3
    if rng.random() < 0.2 and not o.get("drop") and k != "raw":
        o["moved"] = True
    return o


def gen(rng: random.Random, i: int, tier: str) -> dict:
    sets = [{"n": rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 30, 30, 130]), "t": rng.choice([1, 2, 2, 3]), "dt": rng.choice(["f32", "f32", "f64", "i64"])} for _ in range(rng.choice([1, 1, 2, 3]))]
    loaders = [gen_loader(rng, len(sets)) for _ in range(rng.choice([1, 2, 3, 4]))]
    train = [j for j, l in enumerate(loaders) if l["k"] != "raw"]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.25 or not train:
            ops.append({"op": "iter", "l": rng.randrange(len(loaders))})
            ops.append({"op": "next", "it": rng.randrange(6), "k": rng.choice([1, 2, 5, 40])})
        elif r < 0.5:
            ops.append({"op": "next", "it": rng.randrange(6), "k": rng.choice([1, 2, 3, 10, 70])})
        elif r < 0.85:
            f = {"kind": rng.choice(["ki", "boom"]), "n": rng.choice([1, 2, 3, 5, 9])} if rng.random() < 0.3 else None
            ops.append({"op": "fit", "train": rng.choice([None] + train * 3), "val": rng.choice([None] + train), "max_iter": rng.choice([0, 1, 2, 4]), "val_every": rng.choice([1, 2]),
                        "same": rng.random() < 0.4, "fault": f, "steal": [[rng.randint(1, 9), rng.randrange(6), rng.choice([1, 2, 7])] for _ in range(rng.choice([0, 0, 1, 3]))]})
        elif r < 0.97:
            ops.append({"op": "test", "l": rng.choice([None] + train * 3), "steal": [[rng.randint(1, 5), rng.randrange(6), 1] for _ in range(rng.choice([0, 0, 1]))]})
        else:
            ops.append({"op": "bad", "a": rng.randint(1, 6), "b": rng.randint(1, 6)})
    return {"sets": sets, "loaders": loaders, "ops": ops, "shuffle": rng.choice(["real", "real", "identity", "reverse", "rotate"]), "seed": rng.randrange(1 << 30),
            "dtype": rng.choice([None, None, "f32", "f64", "c64", "c128"]), "max_batches": rng.choice([None, None, None, 1, 2, 3]), "scribble": rng.random() < 0.4,
            "opt": rng.choice(["sgd", "adam", "ng_1p1"])}


class Shuffle:
    def __init__(self, how, seed):
        self.how, self.rng, self.n = how, random.Random(seed), 0

    def __call__(self, x, *a):
        self.n += 1
        if self.how == "real":
            self.rng.shuffle(x)
        elif self.how == "reverse":
            x.reverse()
        elif self.how == "rotate" and len(x):
            k = self.n % len(x)
            x[:] = x[k:] + x[:k]


class Stream:
    """Decodes and checks the batches of one pass (or of an endless stream) of one member."""

    def __init__(self, world, spec, what, cap=None):
        self.w, self.spec, self.what = world, spec, what
        self.n = world.plan["sets"][spec["s"]]["n"]
        self.inf = spec["k"] in ("infinite", "raw")
        self.seen: list[int] = []
        self.batches = 0
        n, bs = self.n, 1 if spec["k"] == "raw" else spec["bs"]
        self.bs = bs
        self.total = None if self.inf else n // bs if spec.get("drop") else -(-n // bs)

    def add(self, batch, dtype=None):
        w, spec = self.w, self.spec
        data = w.tensors[spec["s"]]
        if not isinstance(batch, (list, tuple)) or len(batch) != len(data):
            raise Violation("shape", f"{self.what}: batch has {type(batch).__name__} of {len(batch) if hasattr(batch, '__len__') else '?'} tensors instead of {len(data)}", "shape")
        if spec["k"] == "raw":
            batch = [b[None] for b in batch]
        if not self.inf and self.batches >= self.total:
            raise Violation("extra-batch", f"{self.what}: a batch beyond the {self.total} of one pass", "extra-batch")
        ids = None
        for k, (b, t) in enumerate(zip(batch, data)):
            want = t.dtype if dtype is None else dtype
            if b.dtype != want:
                raise Violation("dtype", f"{self.what}: tensor {k} arrived as {b.dtype}, configured {want}", "dtype")
            if tuple(b.shape[1:]) != tuple(t.shape[1:]):
                raise Violation("shape", f"{self.what}: tensor {k} arrived with shape {tuple(b.shape)}, samples have {tuple(t.shape[1:])}", "shape")
            table = {tuple(row.reshape(-1).tolist()): j for j, row in enumerate(t.to(want))}
            got = []
            for row in b:
                key = tuple(row.reshape(-1).tolist())
                if key not in table:
                    raise Violation("data-changed", f"{self.what}: tensor {k} has the row {key} which is no sample", "data-changed")
                got.append(table[key])
            if ids is None:
                ids = got
            elif ids != got:
                raise Violation("misaligned", f"{self.what}: tensors of one batch belong to samples {ids} and {got}", "misaligned")
        left = self.n - len(self.seen)
        want_len = self.bs if self.inf else min(self.bs, left)
        if len(ids) != want_len:
            raise Violation("batch-size", f"{self.what}: batch {self.batches} has {len(ids)} samples instead of {want_len}", "batch-size")
        if not self.inf and not spec.get("shuffle") and ids != list(range(len(self.seen), len(self.seen) + len(ids))):
            raise Violation("order", f"{self.what}: samples {ids} delivered after {self.seen[-6:]} by a loader that keeps the order", "order")
        for j in ids:
            start = len(self.seen) - len(self.seen) % self.n
            if j in self.seen[start:]:
                raise Violation("sample-repeated", f"{self.what}: sample {j} delivered twice in one pass: {self.seen[start:]} then {ids}", "sample-repeated")
            self.seen.append(j)
        self.batches += 1
        self.w.count += 1
        self.w.ctx.ev(self.what, *ids)

    def ended(self):
        if self.inf:
            raise Violation("infinite-ended", f"{self.what}: an infinite loader ended after {self.batches} batches", "infinite-ended")
        if self.batches != self.total:
            raise Violation("short-pass", f"{self.what}: the pass ended after {self.batches} of {self.total} batches", "short-pass")


def members(spec):
    return [(f"m{j}", m) for j, m in enumerate(spec["m"])] if spec["k"] == "dict" else [(None, spec)]


class Pass:
    """All members of one loader during one iterator."""

    def __init__(self, world, spec, what):
        self.dict = spec["k"] == "dict"
        self.s = {k: Stream(world, m, what + (f"/{k}" if k else "")) for k, m in members(spec)}
        self.what = what

    def add(self, batch, dtype=None):
        if self.dict:
            if not isinstance(batch, dict) or list(batch) != list(self.s):
                raise Violation("dict-keys", f"{self.what}: step delivers {list(batch) if isinstance(batch, dict) else type(batch).__name__} instead of {list(self.s)}", "dict-keys")
            for k, s in self.s.items():
                s.add(batch[k], dtype)
        else:
            self.s[None].add(batch, dtype)

    @property
    def steps(self):
        return next(iter(self.s.values())).batches

    @property
    def limit(self):
        t = [s.total for s in self.s.values() if s.total is not None]
        return min(t) if t else None

    def ended(self):
        if self.limit is None or self.steps != self.limit:
            next(iter(self.s.values())).ended()


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.count = plan, ctx, 0

    def setup(self):
        import torch
        from qadence.ml_tools.data import DictDataLoader, InfiniteTensorDataset, data_to_device, to_dataloader
        from torch.utils.data import DataLoader, TensorDataset
        self.tensors = []
        for j, s in enumerate(self.plan["sets"]):
            dt = {"f32": torch.float32, "f64": torch.float64, "i64": torch.int64}[s["dt"]]
            ts = []
            for k in range(s["t"]):
                base = torch.arange(s["n"]) * 4 + 1000 * k + 7 * j
                shape = [(s["n"],), (s["n"], 2), (s["n"], 1, 3)][k]
                ts.append((base.reshape([-1] + [1] * (len(shape) - 1)).expand(shape) + torch.arange(shape[-1] if len(shape) > 1 else 1)).to(dt).contiguous())
            self.tensors.append(ts)
        self.before = [[t.clone() for t in ts] for ts in self.tensors]

        def one(l):
            ts = self.tensors[l["s"]]
            if l["k"] == "raw":
                return InfiniteTensorDataset(*ts)
            if "shuffle" in l:
                d = DataLoader(TensorDataset(*ts), batch_size=l["bs"], shuffle=l["shuffle"], drop_last=l["drop"])
            else:
                d = to_dataloader(*ts, batch_size=l["bs"], infinite=l["k"] == "infinite")
            return data_to_device(d, "cpu") if l.get("moved") else d
        self.loaders = [DictDataLoader({k: one(m) for k, m in members(l)}) if l["k"] == "dict" else one(l) for l in self.plan["loaders"]]
        self.iters = []   # [iterator, Pass, loader number, alive]

    def open(self, l):
        for it in self.iters:
            if it[2] == l and self.plan["loaders"][l]["k"] == "dict":
                it[3] = False
        self.iters.append([iter(self.loaders[l]), Pass(self, self.plan["loaders"][l], f"iterator {len(self.iters)} of loader {l}"), l, True])

    def draw(self, j, k):
        if not self.iters:
            return
        it = self.iters[j % len(self.iters)]
        for _ in range(k):
            if not it[3]:
                return
            try:
                b = next(it[0])
            except StopIteration:
                it[3] = False
                it[1].ended()
                return
            it[1].add(b)
            if self.plan["loaders"][it[2]]["k"] != "raw":
                self.scribble(b)

    def scribble(self, b):
        """User code may write into the batch it was given; samples of a raw dataset are views, so those are left alone."""
        import torch
        if not self.plan["scribble"]:
            return
        for x in (b.values() if isinstance(b, dict) else b):
            for t in (x if isinstance(x, (list, tuple)) else [x]):
                if isinstance(t, torch.Tensor) and t.ndim and t.dtype.is_floating_point:
                    t.detach().fill_(-1.0)

    def dead_dicts(self, l):
        """Training on a dictionary of loaders opens a new iterator of it."""
        for it in self.iters:
            if l is not None and it[2] == l and self.plan["loaders"][l]["k"] == "dict":
                it[3] = False

    def expected_steps(self, l):
        if l is None:
            return 1
        spec = self.plan["loaders"][l]
        p = Pass(self, spec, "")
        first = next(iter(p.s.values()))
        n = 1 if first.inf else -(-first.n // first.bs)
        if not first.inf and self.plan["max_batches"]:
            n = min(n, self.plan["max_batches"])
        return n if p.limit is None else min(n, p.limit)


class Consumption:
    """The batches one phase of training saw, cut into passes."""

    def __init__(self, world, l, what, dtype):
        self.w, self.l, self.what, self.dtype = world, l, what, dtype
        self.k = world.expected_steps(l)
        self.done = 0
        self.cur = None

    def add(self, batch):
        i = self.done % self.k if self.k else 0
        if self.k == 0:
            raise Violation("extra-batch", f"{self.what}: a batch although the loader has none", "extra-batch")
        self.done += 1
        if self.l is None:
            if batch is not None:
                raise Violation("shape", f"{self.what}: got a batch without a loader", "shape")
            return
        if i == 0:
            self.cur = Pass(self.w, self.w.plan["loaders"][self.l], f"{self.what} pass {self.done // self.k if self.k > 1 else self.done}")
        self.cur.add(batch, self.dtype)


def trainer(world, op, folder):
    import torch
    from qadence.ml_tools import TrainConfig, Trainer
    from .. import train as T
    plan = world.plan
    dt = {None: None, "f32": torch.float32, "f64": torch.float64, "c64": torch.complex64, "c128": torch.complex128}[plan["dtype"]]
    vl = op.get("val")
    cfg = TrainConfig(max_iter=op.get("max_iter", 1), log_folder=folder, print_every=0, write_every=0, checkpoint_every=0, plot_every=0, verbose=False,
                      val_every=op["val_every"] if vl is not None else 0, dtype=dt)
    model = G.Scripted()
    opt = G.make_opt(plan["opt"] if not (dt is not None and dt.is_complex) else "sgd", model, 10)
    Trainer.set_use_grad(isinstance(opt, torch.optim.Optimizer))
    state = world.state = {"calls": 0, "phase": None}

    def loss_fn(m, batch):
        ph = "test" if state["phase"] == "test" else "train" if m.training else "val"
        state["calls"] += 1
        state[ph].add(batch)
        for at, it, k in state["steal"]:
            if at == state["calls"]:
                world.draw(it, k)
        world.scribble(batch if batch is not None else [])
        f = state.get("fault")
        if f and ph != "test" and state["calls"] == f["n"]:
            state["fired"] = True
            raise (KeyboardInterrupt() if f["kind"] == "ki" else G.Boom("injected"))
        z = m.a.abs().sum() + m.b.abs()
        return (z * z).real if z.is_complex() else z * z, {}
    kw = {"max_batches": plan["max_batches"]} if plan["max_batches"] else {}
    load = lambda j: None if j is None else world.loaders[j]
    tr = Trainer(model=model, optimizer=opt, config=cfg, loss_fn=loss_fn, train_dataloader=load(op.get("train")), val_dataloader=load(vl), **kw)
    return tr


def execute(plan, ctx):
    import torch
    import qadence.ml_tools.data as D
    w = World(plan, ctx)
    root = os.path.join(ctx.scratch, "fs")
    os.makedirs(root)
    S.fs = SimFS(root, [], seed=1)
    S.clock = SimClock()
    S.writers = lambda *a: None
    torch.manual_seed(plan["seed"])
    random.seed(plan["seed"])
    shuffle = Shuffle(plan["shuffle"], plan["seed"])
    orig = random.shuffle
    random.shuffle = shuffle
    dtype = None if DT[plan["dtype"]] is None else getattr(torch, DT[plan["dtype"]])
    try:
        w.setup()
        run(w, plan, ctx, root, dtype)
    finally:
        random.shuffle = orig
        ctx.sim_time = S.clock.t
        S.fs = S.clock = S.writers = None
    for j, (ts, bs) in enumerate(zip(w.tensors, w.before)):
        for k, (t, b) in enumerate(zip(ts, bs)):
            if not torch.equal(t, b):
                raise Violation("dataset-changed", f"tensor {k} of dataset {j} was changed", "dataset-changed")
    ctx.nontrivial = w.count >= 5
    ctx.probe("batches decoded", w.count)
    ctx.probe("shuffles controlled", shuffle.n)
    ctx.steps = w.count


def run(w, plan, ctx, root, dtype):
    import torch
    from qadence.ml_tools.data import to_dataloader
    tr, last = None, None
    for j, op in enumerate(plan["ops"]):
        o = op["op"]
        try:
            if o == "iter":
                w.open(op["l"])
            elif o == "next":
                w.draw(op["it"], op["k"])
            elif o == "bad":
                ok = op["a"] == op["b"]
                try:
                    next(iter(to_dataloader(torch.zeros(op["a"]), torch.zeros(op["b"]), batch_size=1, infinite=True)))
                except ValueError:
                    if ok:
                        raise
                else:
                    if not ok:
                        raise Violation("mismatch-accepted", f"tensors of {op['a']} and {op['b']} samples were paired up", "mismatch-accepted")
            elif o == "fit":
                if tr is None or not op["same"]:
                    tr = trainer(w, op, os.path.join(root, f"run{j}"))
                    args, last = {}, dict(op)
                else:   # the same trainer goes on, with new loaders where given
                    args = {}
                    if op["train"] is not None:
                        args["train_dataloader"] = w.loaders[op["train"]]
                        last["train"] = op["train"]
                    if op["val"] is not None and last.get("val") is not None:
                        args["val_dataloader"] = w.loaders[op["val"]]
                        last["val"] = op["val"]
                    tr.config.max_iter = op["max_iter"]
                for l in (last["train"], last.get("val")):
                    w.dead_dicts(l)
                st = w.state
                st.update(phase="fit", calls=0, steal=op["steal"], fault=op["fault"], fired=False,
                          train=Consumption(w, last["train"], f"operation {j} training", dtype), val=Consumption(w, last.get("val"), f"operation {j} validation", dtype))
                boom = False
                try:
                    tr.fit(**args)
                except G.Boom:
                    boom = True
                except KeyboardInterrupt:
                    boom = True
                if st["fired"]:
                    ctx.fault({"ki": "interrupt", "boom": "user-code-failure"}[op["fault"]["kind"]])
                    if boom:
                        tr = None
                else:
                    want = (op["max_iter"] + 1) * st["train"].k
                    if st["train"].done != want:
                        raise Violation("batch-count", f"operation {j}: training of {op['max_iter'] + 1} epochs consumed {st['train'].done} batches instead of {st['train'].k} per epoch", "batch-count")
                    if last.get("val") is not None and st["val"].k and (st["val"].done == 0 or st["val"].done % st["val"].k):
                        raise Violation("batch-count", f"operation {j}: validation consumed {st['val'].done} batches, no multiple of {st['val'].k}", "batch-count")
            elif o == "test":
                if tr is None:
                    tr = trainer(w, {"train": None}, os.path.join(root, f"run{j}"))
                    last = {"train": None}
                w.dead_dicts(op["l"])
                st = w.state
                l = op["l"] if op["l"] is not None else last.get("test")
                last["test"] = l
                st.update(phase="test", calls=0, steal=op["steal"], test=Consumption(w, l, f"operation {j} testing", dtype))
                w.dead_dicts(l)
                tr.test(None if op["l"] is None else w.loaders[op["l"]])
                if st["test"].done != st["test"].k:
                    raise Violation("batch-count", f"operation {j}: testing consumed {st['test'].done} batches instead of {st['test'].k}", "batch-count")
        except Violation:
            raise
        except Exception as e:
            import traceback
            raise Violation("raised", f"operation {j} {op}: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", f"raised:{type(e).__name__}")
        ctx.state_keys.append(f"{o}|{op.get('train')}|{len(w.iters)}|{w.count % 50}")


def warm():
    G.warm()
