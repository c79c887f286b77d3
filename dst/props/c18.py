"""C18 seeded programs are reproducible."""
from __future__ import annotations

import os
import random
import shutil
import tempfile

from .. import programs as G
from .. import zygote
from ..runner import Violation
from ..seams import S, SimClock, SimFS

PROP = "C18"
BOOT = ("qadence", "qadence.ml_tools", "qadence.measurements", "qadence.mitigations", "qadence.constructors")
QUICK, THOROUGH = 160, 6000
LEVEL = "exploration"
METHOD = ("random programs of building, sampling, estimating, loading data and training, each executed in several simulated processes that differ in hash seed, entropy, "
          "process number, clock, working directory, directory order and earlier history; results are compared bit for bit")
RULE = ("one run = one program executed in 2-3 environments (interpreters with different hash seeds, one of them repeating it after re-seeding and other work); non-trivial = the "
        "program draws random numbers or has at least two parameters")
REAL = ["qadence building, transpiling, embedding, sampling, measurements, states, data loaders, Trainer", "torch, numpy, nevergrad, sympy"]
STUB = ["os.urandom, process number, clock, directory order"]
ASSUME = ["seeding means random, numpy and torch; one computing thread", "parameters of one name are one parameter"]
LISTS = ["ops", "envs"]
LIST_MIN = {"ops": 1, "envs": 2}
SIMPLE = {}
HASHES = [0, 1, 31337]
KINDS = ["model", "model", "model", "sample", "sample", "tomo", "shadow", "noisy", "grad", "state", "data", "train", "hea", "mitigate", "ser"]


def gen_ops(rng, n_ops, prefix):
    ops = []
    for k in range(n_ops):
        kind = rng.choice(KINDS)
        o = {"k": kind}
        if kind in ("model", "sample", "tomo", "shadow", "noisy", "grad", "mitigate", "ser"):
            spec = G.gen_circuit(rng, prefix=f"{prefix}{k}_", depth=rng.randint(2, 9), hamevo=kind != "ser", u=0.05 if kind != "grad" else 0.0)
            if rng.random() < 0.7:
                spec["v"] = {a: None for a in spec["v"]}
            o.update(spec=spec, vals=G.gen_values(rng, spec), obs=G.gen_obs(rng, spec["n"]), shots=rng.choice([1, 20, 300]), size=rng.randint(1, 12))
        elif kind == "state":
            o.update(n=rng.randint(1, 4), how=rng.choice(["haar_fast", "haar_slow", "rotations", "pureed", "bits", "circ_product", "circ_rot"]), b=rng.choice([1, 3]))
        elif kind == "data":
            o.update(n=rng.randint(2, 9), bs=rng.randint(1, 4), infinite=rng.random() < 0.5, shuffle=rng.random() < 0.7, take=rng.randint(1, 9))
        elif kind == "train":
            o.update(opt=rng.choice(["adam", "sgd", "ng_1p1", "ng_de", "ng_pso"]), iters=rng.randint(1, 3), nq=2, depth=rng.choice([1, 2]), data=rng.random() < 0.6)
        elif kind == "hea":
            o.update(n=rng.randint(2, 3), depth=rng.randint(1, 3), how=rng.choice(["hea", "iia", "fm", "cfg"]))
        ops.append(o)
    return ops


def gen_env(rng, i):
    return {"hash": HASHES[i % len(HASHES)] if rng.random() < 0.8 else rng.choice(HASHES), "entropy": rng.randrange(1 << 30), "pid": rng.randrange(2, 30000), "t0": rng.choice([1.0, 1.6e9, 4e9]),
            "cwd": rng.choice(["a", "b/c"]), "dir": rng.randrange(1 << 20), "before": gen_ops(rng, rng.choice([0, 0, 1, 2]), "h") if i else [], "repeat": False}


def gen(rng: random.Random, i: int, tier: str) -> dict:
    ops = gen_ops(rng, rng.randint(1, 3 if tier == "quick" else 5), "p")
    envs = [gen_env(rng, j) for j in range(rng.choice([2, 3]))]
    if rng.random() < 0.5:
        envs[-1]["repeat"] = True
        envs[-1]["between"] = gen_ops(rng, rng.choice([0, 1]), rng.choice(["q", "p"]))
    return {"ops": ops, "envs": envs, "seed": rng.randrange(1 << 31)}


# ------------------------------------------------------------------------------------------- executing a program
def flat(x):
    import numpy as np
    import torch
    if isinstance(x, torch.Tensor):
        x = x.detach().resolve_conj().numpy()
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, x.tobytes().hex(), str(np.round(x.astype(complex), 8).reshape(-1)[:6].tolist()))
    if isinstance(x, dict):
        return [(str(k), flat(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    return str(x)


def seed_all(seed):
    import numpy as np
    import torch
    random.seed(seed)
    np.random.seed(seed % (1 << 32))
    torch.manual_seed(seed)


class Unset(dict):
    """Parameters without a given value are created once each."""


def build(spec):
    from qadence.parameters import VariationalParameter
    made = {}
    orig = G.build_param

    def bp(p, sp):
        if isinstance(p, list) and p[0] == "v" and sp["v"][p[1]] is None:
            if p[1] not in made:
                made[p[1]] = VariationalParameter(p[1])
            return made[p[1]]
        return orig(p, sp)
    G.build_param = bp
    try:
        return G.build_circuit(spec)
    finally:
        G.build_param = orig


def perform(ops, folder):
    import numpy as np
    import qadence as q
    import torch
    from qadence.measurements import Measurements
    from qadence.mitigations import Mitigations
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    os.makedirs(folder, exist_ok=True)
    out = []
    for j, o in enumerate(ops):
        k = o["k"]
        if "spec" in o:
            circ = build(o["spec"])
            obs = G.build_obs(o["obs"])
            m = q.QuantumModel(circ, obs, diff_mode="ad")
            t = G.tvalues(o["vals"], grad=k == "grad")
            r = {"params": {a: p for a, p in m._params.items()}, "trainable": [a for a, p in m._params.items() if p.requires_grad], "vparams": dict(m.vparams),
                 "inputs": [str(x) for x in m.inputs], "named": [a for a, _ in m.named_parameters()], "vals": m.vals_vparams}
            if k == "model":
                r["run"] = m.run(t)
                r["exp"] = m.expectation(t)
                r["unique"] = [str(x) for x in circ.unique_parameters]
                r["uniqexpr"] = [str(x) for x in circ.parameters()] if hasattr(circ, "parameters") else None
            elif k == "sample":
                r["s"] = [sorted(c.items()) for c in m.sample(t, n_shots=o["shots"])]
                r["s2"] = [sorted(c.items()) for c in q.sample(circ, values=t, n_shots=o["shots"])]
            elif k == "tomo":
                r["e"] = m.expectation(t, measurement=Measurements("tomography", {"n_shots": o["shots"]}))
            elif k == "shadow":
                r["e"] = m.expectation(t, measurement=Measurements("shadow", {"shadow_size": o["size"], "confidence": 0.3, "accuracy": 0.1}))
            elif k in ("noisy", "mitigate"):
                kw = {"mitigation": Mitigations("readout", {"optimization_type": "mle" if o["shots"] > 1 else "constrained"})} if k == "mitigate" else {}
                r["s"] = [sorted((a, int(b)) for a, b in c.items()) for c in m.sample(t, n_shots=o["shots"], noise=NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": 0.1}), **kw)]
            elif k == "grad":
                e = m.expectation(t)
                ps = [p for p in m.parameters() if p.requires_grad]
                if e.requires_grad and ps:
                    r["g"] = list(torch.autograd.grad(e.sum(), ps + list(t.values()), allow_unused=True))
            elif k == "ser":
                q.save(m, folder, f"m{j}")
                m2 = q.load(os.path.join(folder, f"m{j}.json"))
                r["exp"] = m2.expectation(t)
                r["order"] = list(m2._params)
        elif k == "state":
            from qadence import states as ST
            from qadence.types import StateGeneratorType as SG
            h = o["how"]
            if h == "bits":
                r = {"bits": ST.rand_bitstring(o["n"])}
            elif h == "pureed":
                r = {"s": ST.rand_product_state(o["n"], o["b"]), "b": ST.rand_product_state(o["n"], 1)}
            elif h.startswith("circ"):
                r = {"b": q.run(q.QuantumCircuit(o["n"], ST.rand_product_block(o["n"])))}
            else:
                r = {"s": ST.random_state(o["n"], o["b"], type={"haar_fast": SG.HAAR_MEASURE_FAST, "haar_slow": SG.HAAR_MEASURE_SLOW, "rotations": SG.RANDOM_ROTATIONS}[h])}
        elif k == "data":
            from torch.utils.data import DataLoader, TensorDataset
            from qadence.ml_tools import to_dataloader
            x = torch.arange(o["n"]).reshape(-1, 1).float()
            dl = to_dataloader(x, x * 2, batch_size=o["bs"], infinite=True) if o["infinite"] else DataLoader(TensorDataset(x, x * 2), batch_size=o["bs"], shuffle=o["shuffle"])
            r = []
            it = iter(dl)
            for _ in range(o["take"]):
                try:
                    r.append(next(it))
                except StopIteration:
                    it = iter(dl)
        elif k == "train":
            r = train(o, os.path.join(folder, f"t{j}"))
        elif k == "hea":
            from qadence.constructors import feature_map, hea, identity_initialized_ansatz
            if o["how"] == "iia":
                b = identity_initialized_ansatz(o["n"], o["depth"])
            elif o["how"] == "fm":
                b = q.chain(feature_map(o["n"], param="x"), hea(o["n"], o["depth"]))
            elif o["how"] == "cfg":
                from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig
                from qadence.constructors import ObservableConfig
                from qadence import QNN, Z
                m = QNN.from_configs(register=o["n"], obs_config=ObservableConfig(detuning=Z, scale="sc", shift="sh", trainable_transform=True),
                                     fm_config=FeatureMapConfig(num_features=2, inputs=["x", "y"]), ansatz_config=AnsatzConfig(depth=o["depth"]))
                b = None
            else:
                b = hea(o["n"], o["depth"])
            if b is not None:
                m = q.QuantumModel(q.QuantumCircuit(o["n"], b), q.total_magnetization(o["n"]))
                v = {"x": torch.tensor([0.4])} if o["how"] == "fm" else {}
                r = {"params": dict(m._params.items()), "e": m.expectation(v)}
            else:
                r = {"params": dict(m._params.items()), "inputs": [str(x) for x in m.inputs], "e": m(torch.tensor([[0.1, 0.7], [0.3, 0.2]]))}
        out.append((k, flat(r)))
    return out


def train(o, folder):
    import torch
    from qadence import QNN, QuantumCircuit, chain, feature_map, hea, total_magnetization
    from qadence.ml_tools import TrainConfig, Trainer, to_dataloader
    from qadence.ml_tools.callbacks import Callback
    from ..train import make_opt
    m = QNN(QuantumCircuit(o["nq"], chain(feature_map(o["nq"], param="x"), hea(o["nq"], o["depth"]))), total_magnetization(o["nq"]))
    first = {a: p.detach().clone() for a, p in m.named_parameters()}
    if o["opt"].startswith("ng"):
        import nevergrad as ng
        from qadence.ml_tools.parameters import num_parameters
        opt = ng.optimizers.registry[{"ng_1p1": "OnePlusOne", "ng_de": "DE", "ng_pso": "PSO"}[o["opt"]]](budget=20, parametrization=num_parameters(m))
    else:
        opt = make_opt(o["opt"], m, 0)
    losses = []
    x = torch.rand(6, 1)
    dl = to_dataloader(x, torch.sin(x), batch_size=2, infinite=True)

    def loss(model, data):
        l = torch.nn.functional.mse_loss(model(data[0]), data[1]) if data is not None else model(torch.tensor([[0.3]])).sum() ** 2
        losses.append(l.detach().clone())
        return l, {"l": l}
    cb = Callback(on="train_epoch_end", callback=lambda t, c, w: losses.append(torch.tensor(float(t.opt_result.loss))), called_every=1)
    Trainer.set_use_grad(not o["opt"].startswith("ng"))
    tr = Trainer(m, opt, TrainConfig(max_iter=o["iters"], root_folder=folder, print_every=0, write_every=0, checkpoint_every=0, verbose=False, callbacks=[cb]), loss, dl if o["data"] else None)
    tr.fit()
    Trainer.set_use_grad(True)
    return {"first": first, "losses": losses, "last": {a: p for a, p in m.named_parameters()}, "rand": torch.rand(1)}


def serve(req):
    """Runs in a child of an interpreter with its own hash seed."""
    env, ops, seed = req
    d = tempfile.mkdtemp(prefix="dst18-")
    try:
        S.urandom = random.Random(env["entropy"])
        S.pid = env["pid"]
        S.clock = SimClock(start=env["t0"])
        w = os.path.join(d, env["cwd"])
        os.makedirs(w)
        os.chdir(w)
        S.fs = SimFS(d, [], seed=env["dir"])
        seed_all(env["entropy"])
        if env["before"]:
            perform(env["before"], os.path.join(w, "before"))
        res = []
        for rep in range(2 if env["repeat"] else 1):
            if rep:
                perform(env["between"], os.path.join(w, "between"))
            seed_all(seed)
            f = os.path.join(w, f"r{rep}")
            os.makedirs(f)
            res.append(perform(ops, f))
        return res
    finally:
        S.fs = S.clock = S.pid = None
        shutil.rmtree(d, ignore_errors=True)


def where(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {str(a)[:120]} vs {str(b)[:120]}"
    if isinstance(a, tuple) and len(a) == 4 and isinstance(a[0], str) and isinstance(a[2], str):
        return f"{path}: {a[0]}{a[1]} {a[3]} vs {b[0]}{b[1]} {b[3]}" if a != b else None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            r = where(x, y, f"{path}/{x[0] if isinstance(x, (list, tuple)) and x and isinstance(x[0], str) and len(x[0]) < 30 else i}")
            if r:
                return r
        return None
    return None if a == b else f"{path}: {str(a)[:160]} vs {str(b)[:160]}"


def execute(plan, ctx):
    import hashlib
    ref = None
    ctx.nontrivial = any(o["k"] in ("sample", "tomo", "shadow", "state", "data", "train", "noisy", "hea") or len(o.get("spec", {}).get("v", ())) > 1 for o in plan["ops"])
    for j, env in enumerate(plan["envs"]):
        r = zygote.call(env["hash"], (env, plan["ops"], plan["seed"]))
        if r[0] != "ok":
            if j == 0 and "dst/" not in r[2].strip().splitlines()[-1]:
                raise RuntimeError(f"the program failed: {r[1]}\n{r[2]}")
            raise RuntimeError(f"environment {j}: {r[1]}\n{r[2]}")
        ctx.fault(f"hash_seed_{env['hash']}")
        if env["before"]:
            ctx.fault("prior_history")
        for rep, res in enumerate(r[1]):
            ctx.steps += len(res)
            if rep:
                ctx.fault("repeated_after_reseed")
            if ref is None:
                ref = res
                ctx.ev("ref", hashlib.sha256(str(res).encode()).hexdigest()[:16], [o["k"] for o in plan["ops"]])
                continue
            d = where(ref, res)
            ctx.ev("env", j, rep, d is None)
            if d:
                raise Violation("not-reproducible", f"environment {j}{' repeated' if rep else ''} (hash seed {env['hash']} vs {plan['envs'][0]['hash']}, history {[o['k'] for o in env['before']]}): operation{d}")
    for o in plan["ops"]:
        ctx.state_keys.append(f"{o['k']}|{len(plan['envs'])}|{[bool(e['before']) for e in plan['envs']]}|{plan['envs'][-1]['repeat']}|{o.get('how', o.get('opt'))}")


def warm_server():
    from .. import train as T
    T.warm(kinds=("qnn",), opts=("adam", "sgd", "ng_1p1", "ng_de", "ng_pso"))


def warm():
    zygote.start(PROP, HASHES)
