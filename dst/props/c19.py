"""C19 concurrent callers of independent objects never affect each other."""
from __future__ import annotations

import copy
import os
import random

import numpy as np

from .. import programs as G
from ..draws import Draws
from ..runner import Violation
from ..simthreads import Sched, Stuck

PROP = "C19"
BOOT = ("qadence", "qadence.ml_tools", "qadence.serialization", "qadence.transpile", "qadence.constructors")
QUICK, THOROUGH = 800, 15000
LEVEL = "exploration"
METHOD = ("2-3 real threads building, converting, evaluating, differentiating, serialising and training, serialised by a seeded scheduler that switches at source lines of "
          "qadence, with threads killed at chosen points; every result is compared with a dense reference and with the same calls made alone")
RULE = ("one run = 2-3 threads, 1-6 calls each, one seeded schedule of up to 300 context switches, or of interruptions by whole calls at up to 500 chosen places; non-trivial = at least 3 switches happened inside qadence while another thread was inside a call")
REAL = ["all of qadence reached from the public API (blocks, circuits, models, pyqtorch backend and engine, transpilation, serialization, Trainer), pyqtorch, torch autograd"]
STUB = ["the interpreter's thread scheduler (replaced by the seeded baton)", "locks created by qadence", "outcome of measurement draws (proportional counts)"]
ASSUME = ["threads use different parameter names (parameters are identified by name across a process) and leave process-wide settings (random seeds, Trainer.set_use_grad) alone",
          "switches happen between source lines of qadence, not inside a line (CPython 3.12 crashes when tracing bytecode instructions of several threads) and not inside torch, sympy or pyqtorch"]
LISTS = ["switches", "lines", "threads.0", "threads.1", "threads.2", "kills"]
LIST_MIN = {"threads.0": 1, "threads.1": 1, "threads.2": 1}
OPS = ["run", "exp", "sample", "grad", "serialize", "dagger", "tensor", "transpile", "params", "algebra", "hea", "fm", "build", "model", "funcs", "draw", "dict", "qnn", "train", "tomo", "noise"]
SHARED = ["run", "exp", "sample", "grad", "params", "draw", "exp2", "tomo"]


def gen(rng: random.Random, i: int, tier: str) -> dict:
    k = rng.choice([2, 2, 2, 3])
    shared = rng.random() < 0.3
    specs = []
    for t in range(k):
        spec = G.gen_circuit(rng, prefix=f"t{t}_", depth=rng.randint(1, 5), hamevo=rng.random() < 0.3)
        specs.append({"spec": spec, "obs": [G.parametrise_obs(rng, G.gen_obs(rng, spec["n"]), spec, f"t{t}_", 0.15) for _ in range(rng.choice([1, 1, 2]))], "diff": rng.choice(["ad", "ad", "gpsr"])})
        if any(isinstance(c[0], list) for o in specs[-1]["obs"] for c in o):
            specs[-1]["diff"] = "ad"        # no parameter-shift rules for parametric observables
    if rng.random() < 0.4:      # equal shapes, different values: results of the wrong thread would not fail, only be wrong
        for t in range(1, k):
            specs[t] = rename(specs[0], "t0_", f"t{t}_", rng)
    threads = []
    for t in range(k):
        ops = []
        spec = specs[0 if shared else t]["spec"]
        for _ in range(rng.randint(1, 5)):
            ops.append({"op": rng.choice(SHARED if shared else OPS), "vals": G.gen_values(rng, spec), "m": rng.randrange(2), "little": rng.random() < 0.15,
                        "state": rng.randrange(1 << 20) if rng.random() < 0.15 else None})
        threads.append(ops)
    if rng.random() < 0.25:     # the same calls everywhere
        for t in range(1, k):
            for a, o in enumerate(threads[t]):
                if a < len(threads[0]):
                    o["op"] = threads[0][a]["op"]
    style = rng.choice(["lines", "lines", "lines", "lines", "few", "even", "burst"])
    sw, lines = [], []
    if style == "lines":        # one thread is interrupted at many places by whole calls of the others
        lines = [[b, rng.choice([1, 1, 1, 2, 3]), rng.randrange(2)] for b in rng.sample(range(4096), rng.randint(40, 500))]
        for t in range(1, k):
            more = [dict(copy.deepcopy(rng.choice(threads[t]))) for _ in range(rng.randint(8, 40))]
            if not shared:
                for o in more:
                    if o["op"] in ("train", "tomo", "noise") or rng.random() < 0.5:
                        o["op"] = rng.choice(["run", "exp", "model", "sample", "build", "params", "transpile", "grad"])
            threads[t] += more
    elif style == "few":
        for _ in range(rng.randint(1, 12)):
            sw.append([int(10 ** rng.uniform(0, 4)), rng.randrange(2)])
    elif style == "even":
        g = 10 ** rng.uniform(0.3, 2.6)
        for _ in range(rng.randint(20, 300)):
            sw.append([max(1, int(rng.expovariate(1 / g))), rng.randrange(2)])
    else:
        for _ in range(rng.randint(1, 8)):
            sw.append([int(10 ** rng.uniform(1, 3.7)), rng.randrange(2)])
            for _ in range(rng.randint(5, 40)):
                sw.append([rng.randint(1, 8), rng.randrange(2)])
    kills = [[rng.randrange(k), int(10 ** rng.uniform(0.5, 4))]] if rng.random() < 0.2 else []
    return {"specs": specs, "threads": threads, "shared": shared, "switches": sw, "lines": lines, "kills": kills, "seed": rng.randrange(1 << 30)}


def rename(s: dict, a: str, b: str, rng: random.Random) -> dict:
    import json
    s = json.loads(json.dumps(s).replace(a, b))
    for kind in ("v", "f"):
        for n in s["spec"][kind]:
            s["spec"][kind][n] = round(rng.uniform(0.05, 3), 4)
    return s


class Worker:
    """One thread's world: its objects and its results."""

    def __init__(self, t: int, s: dict, ops: list, scratch: str, model=None, shared=None):
        self.t, self.spec, self.obs, self.diff, self.ops = t, s["spec"], s["obs"], s["diff"], ops
        self.n = self.spec["n"]
        self.res: list = []
        self.scratch = scratch
        self.model = model
        self.circ = shared[0] if shared else None
        self.ob = shared[1] if shared else None
        self.is_shared = shared is not None

    def setup(self):
        import qadence as q
        if self.circ is None:
            self.circ = G.build_circuit(self.spec)
            self.ob = [G.build_obs(o, self.spec) for o in self.obs]
        if self.model is None:
            self.model = q.QuantumModel(self.circ, self.ob if len(self.ob) > 1 else self.ob[0], diff_mode=self.diff)

    def go(self):
        try:
            self.setup()
        except Exception as e:
            self.res.append(("raised", type(e).__name__, str(e)[:300]))
            return
        if Sched.current is not None:
            Sched.current.boundary()
        for j, op in enumerate(self.ops):
            try:
                self.res.append(("value", op["op"], self.do(op)))
            except Exception as e:
                self.res.append(("raised", type(e).__name__, str(e)[:300]))
            if Sched.current is not None:
                Sched.current.boundary()

    def do(self, op):
        import qadence as q
        import torch
        o, m = op["op"], self.model
        t = G.tvalues(op["vals"], grad=o == "grad")
        kw = {}
        if op.get("state") is not None and o in ("run", "exp", "sample"):
            r = np.random.RandomState(op["state"])
            s = r.randn(2 ** self.n) + 1j * r.randn(2 ** self.n)
            s /= np.linalg.norm(s)
            kw["state"] = torch.tensor(s, dtype=torch.complex128).reshape(1, -1)
        if o == "run":
            e = q.Endianness.LITTLE if op["little"] and not kw else q.Endianness.BIG
            return m.run(t, endianness=e, **kw).detach().numpy()
        if o == "exp":
            return m.expectation(t, **kw).detach().numpy()
        if o == "exp2":
            return m.expectation(t, observable=m.observable(q.X(0), self.n)).detach().numpy()
        if o == "sample":
            return [sorted(c.items()) for c in m.sample(t, n_shots=200, **kw)]
        if o == "tomo":
            from qadence.measurements import Measurements
            return m.expectation(t, measurement=Measurements("tomography", {"n_shots": 200})).detach().numpy()
        if o == "noise":
            from qadence.noise import NoiseHandler
            from qadence.types import NoiseProtocol
            c = G.build_circuit(self.spec)
            m2 = q.QuantumModel(c, self.ob[0])
            m2.sample(t, n_shots=100, noise=NoiseHandler(NoiseProtocol.DIGITAL.DEPOLARIZING, {"error_probability": 0.2}))
            return m2.expectation(t).detach().numpy()
        if o == "grad":
            r = m.expectation(t)
            ps = {k: p for k, p in m._params.items() if p.requires_grad}
            leaves = list(ps.values()) + list(t.values())
            if not leaves or not r.requires_grad:
                return None
            w = torch.linspace(0.5, 1.5, r.numel(), dtype=torch.float64).reshape(r.shape)
            g = torch.autograd.grad((r * w).sum(), leaves, allow_unused=True)
            return [None if x is None else x.detach().numpy() for x in g]
        if o == "serialize":
            from qadence.serialization import deserialize, serialize
            if any(x[0] == "HamEvo" for x in self.spec["ops"]):
                return None
            c2 = deserialize(serialize(self.circ))
            return q.QuantumModel(c2).run(t).detach().numpy()
        if o == "dagger":
            return q.run(self.circ.dagger(), values=t).detach().numpy()
        if o == "tensor":
            from qadence.blocks import block_to_tensor
            return [block_to_tensor(self.circ.block, {**{k: torch.tensor([v], dtype=torch.float64) for k, v in self.spec["v"].items()}, **{k: x[:1] for k, x in t.items()}},
                                    tuple(range(self.n))).detach().numpy(), block_to_tensor(self.ob[0], {}, tuple(range(self.n))).detach().numpy()]
        if o == "transpile":
            from qadence.transpile import chain_single_qubit_ops, flatten, invert_endianness, scale_primitive_blocks_only, transpile
            b = transpile(lambda b: chain_single_qubit_ops(b), lambda b: scale_primitive_blocks_only(b), flatten)(self.circ.block)
            return [str(b), str(invert_endianness(self.circ).block), str(flatten(self.ob[0]))]
        if o == "params":
            c = self.circ
            return [[str(p) for p in c.parameters()], [str(p) for p in c.unique_parameters], c.num_parameters, c.num_unique_parameters, sorted(m.vparams), m.in_features]
        if o == "algebra":
            b = self.ob[0]
            return [str(x) for x in (2 * b, b + q.X(0), -b, b - q.Z(0), b * 0.5, q.chain(self.circ.block, q.H(0)), b @ q.X(self.n), q.kron(q.X(0), q.Y(1)) + b)]
        if o == "hea":
            h = q.hea(2, 1 + op["m"], param_prefix=f"t{self.t}h")
            m2 = q.QuantumModel(q.QuantumCircuit(2, h), q.total_magnetization(2))
            m2.reset_vparams([round(0.1 * (a + 1) + self.t, 3) for a in range(m2.num_vparams)])
            return [sorted(m2.vparams), m2.expectation({}).detach().numpy()]
        if o == "fm":
            x = f"t{self.t}x"
            f = q.feature_map(2, param=x, fm_type=q.BasisSet.CHEBYSHEV if op["m"] else q.BasisSet.FOURIER)
            return q.run(q.QuantumCircuit(2, f), values={x: torch.tensor([0.1 * (self.t + 1), 0.3])}).detach().numpy()
        if o == "build":
            c = G.build_circuit(self.spec)
            return [str(c), c == self.circ, len(str(c.block))]
        if o == "model":
            m2 = q.QuantumModel(G.build_circuit(self.spec), [G.build_obs(x, self.spec) for x in self.obs], diff_mode=self.diff)
            return m2.expectation(t).detach().numpy()
        if o == "qnn":
            m2 = q.QNN(self.circ, self.ob, inputs=sorted(self.spec["f"]) or None)
            return m2.expectation(t).detach().numpy()
        if o == "funcs":
            return [q.run(self.circ, values=t).detach().numpy(), q.expectation(self.circ, self.ob, values=t).detach().numpy(),
                    [sorted(c.items()) for c in q.sample(self.circ, values=t, n_shots=100)]]
        if o == "draw":
            return [str(self.circ), repr(self.circ), str(self.ob[0]), sorted(str(k) for k in m._params)]
        if o == "dict":
            if any(x[0] == "HamEvo" for x in self.spec["ops"]):
                return None
            m2 = type(m)._from_dict(m._to_dict(save_params=True), as_torch=True)
            return m2.expectation(t).detach().numpy()
        if o == "train":
            from qadence.ml_tools import TrainConfig, Trainer
            x = f"t{self.t}x"
            h = q.chain(q.feature_map(1, param=x), q.hea(1, 1, param_prefix=f"t{self.t}q"))
            qnn = q.QNN(q.QuantumCircuit(1, h), q.Z(0), inputs=[x])
            qnn.reset_vparams([0.2 * (a + 1) + self.t * 0.3 for a in range(qnn.num_vparams)])
            opt = torch.optim.SGD(qnn.parameters(), lr=0.1)
            cfg = TrainConfig(max_iter=2, print_every=0, write_every=0, checkpoint_every=0, val_every=0, verbose=False, root_folder=os.path.join(self.scratch, f"t{self.t}_{op['m']}"))
            xs = torch.linspace(0.1, 0.9, 3).reshape(-1, 1)
            def loss_fn(model, data):
                out = model(data[0])
                l = ((out - data[1]) ** 2).mean()
                return l, {}
            data = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(xs, torch.sin(xs + self.t)), batch_size=3)
            Trainer(qnn, opt, cfg, loss_fn, train_dataloader=data).fit()
            return np.array([float(p.detach().reshape(-1)[0]) for p in qnn.vparams.values()])
        raise KeyError(o)


def same(a, b) -> bool:
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.allclose(a, b, atol=1e-9, rtol=1e-9))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def show(x):
    return repr(x)[:220]


def reference(w: Worker, op) -> object:
    """An independent dense answer where there is one."""
    if op["op"] not in ("run", "exp") or (op["op"] == "run" and op["little"]):
        return None
    init = None
    if op.get("state") is not None:
        r = np.random.RandomState(op["state"])
        init = r.randn(2 ** w.n) + 1j * r.randn(2 ** w.n)
        init /= np.linalg.norm(init)
    st = [G.state_of(w.spec, w.spec["v"], dict(w.spec["f"], **G.element(op["vals"], b)), init) for b in range(G.batch_of(op["vals"]))]
    if op["op"] == "run":
        return np.array(st)
    return np.array([[float(np.real(s.conj() @ G.obs_matrix(o, w.n, w.spec["v"], dict(w.spec["f"], **G.element(op["vals"], b))) @ s)) for o in w.obs] for b, s in enumerate(st)])


def execute(plan, ctx):
    import qadence as q
    import torch
    torch.manual_seed(plan["seed"])
    root = (os.path.dirname(q.__file__),)
    specs, threads = plan["specs"], plan["threads"]

    def worlds(tag):
        model = shared = None
        if plan["shared"]:
            w0 = Worker(0, specs[0], [], ctx.scratch)
            w0.setup()
            model, shared = w0.model, (w0.circ, w0.ob)
        return [Worker(t, specs[0 if plan["shared"] else t], ops, os.path.join(ctx.scratch, tag), model, shared) for t, ops in enumerate(threads)]

    with Draws("quantile", "k"):
        ws = worlds("a")
        s = Sched(root, plan["switches"], plan["kills"], plan["lines"])
        try:
            s.run([w.go for w in ws])
        except Stuck as e:
            raise Violation("deadlock", f"threads block each other: {e}", "deadlock")
        if s.stuck:
            raise Violation("no-progress", f"more than {s.limit} lines executed", "no-progress")
        if s.errors:
            raise s.errors[0][1]
        alone = worlds("b")
        for w in alone:
            w.go()
    ctx.steps = s.n
    ctx.sim_time = 0.0
    ctx.probe("context switches", s.nswitch)
    for t in s.killed:
        ctx.fault("thread killed at a line")
    ctx.fault("preemption", s.nswitch)
    for a in s.trace:
        ctx.ev(*a)
    for t, (w, a) in enumerate(zip(ws, alone)):
        for j, r in enumerate(w.res):
            if j >= len(a.res):
                raise Violation("result", f"thread {t} has more results than alone", "result")
            op = w.ops[j] if j < len(w.ops) else {"op": "setup"}
            e = a.res[j]
            what = f"thread {t} call {j} ({op['op']})"
            if not same(r, e):
                raise Violation("result", f"{what} gave {show(r)} among the other threads but {show(e)} alone", f"result:{op['op']}")
            if r[0] == "value":
                ref = reference(w, op)
                if ref is not None and not (np.asarray(r[2]).shape == ref.shape and np.allclose(r[2], ref, atol=1e-6)):
                    raise Violation("result", f"{what} gave {show(r)} instead of {show(ref)}", f"reference:{op['op']}")
            ctx.ev(t, j, op["op"], r[0])
        if t not in s.killed and len(w.res) != len(a.res):
            raise Violation("result", f"thread {t} made {len(w.res)} of {len(a.res)} calls", "missing")
    ctx.nontrivial = s.nswitch >= 3


def warm():
    pass
