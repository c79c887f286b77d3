"""C16 sampling: shots, support, probabilities, qubit order."""
from __future__ import annotations

import math
import random

import numpy as np

from .. import programs as G
from ..draws import POLICIES, Draws, InjectedDrawError
from ..runner import Violation

PROP = "C16"
BOOT = ("qadence", "qadence.measurements", "qadence.mitigations")
QUICK, THOROUGH = 700, 30000
LEVEL = "exploration"
METHOD = ("random programs sampled through every public entry point while a seeded policy controls every random draw (proportional, extreme, pseudo-random, failing); "
          "counters are judged against an independent dense-matrix simulation")
RULE = ("one run = one random circuit sampled 1-3 times under one draw policy; the proportional policy makes the counts a deterministic function of the probabilities the "
        "code draws with, so they are compared with the reference to one count; non-trivial = superposition, batch, noise or an injected failure")
REAL = ["qadence.sample, QuantumModel.sample, backend.sample, readout mitigation", "pyqtorch circuit execution and readout noise"]
STUB = ["torch.multinomial (the source of measurement outcomes)"]
ASSUME = ["PyTorch engine", "outcomes of probability below 1e-9 are not drawn"]
LISTS = ["calls", "spec.ops"]
LIST_MIN = {"calls": 1, "spec.ops": 1}
SIMPLE = {"flip": None}


def gen(rng: random.Random, i: int, tier: str) -> dict:
    spec = G.gen_circuit(rng, n=rng.choice([1, 2, 2, 3, 3, 4]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        spec["ops"].insert(0, ["H", [rng.randrange(spec["n"])], None])
    batch = rng.choice([1, 1, 2, 3, 5])
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = {"shots": rng.choice([1, 2, 7, 31, 100, 1000, 4096]), "little": rng.random() < 0.4,
             "api": rng.choice(["model", "model", "circuit", "block", "register", "backend"]),
             "policy": rng.choice(POLICIES + ["quantile", "quantile"]), "fail": rng.choice([None] * 5 + [0, 1, 2])}
        c["noise"] = rng.choice([None] * 4 + ["float", "conf", "corr"]) if c["api"] in ("model", "backend") else None
        c["e"] = round(rng.choice([0.01, 0.1, 0.3, 0.5, rng.random() * 0.5]), 3)
        c["mit"] = rng.choice([None, None, "mle", "constrained"]) if c["noise"] in ("float", "conf") else None
        if c["mit"] == "constrained" and spec["n"] > 3:
            c["mit"] = "mle"
        if c["mit"]:
            c["shots"] = rng.choice([1, 3, 4, 5, 6, 8, 12, 17, 200, 100000])
            if c["noise"] == "conf" and rng.random() < 0.4:
                c.update(shots=100000, policy="quantile", mit="mle", e=round(rng.uniform(0.01, 0.2), 3))
        calls.append(c)
    if rng.random() < 0.25:      # mitigation of counts as a device may report them
        m = rng.choice([1, 2, 2, 3, 4])
        N = rng.choice([1, 2, 3, 5, 8, 13, 100, 10000, 10000, 100000])
        calls.append({"api": "mitigate", "n": m, "shots": N, "mit": rng.choice(["mle", "mle", "mle", "constrained"]) if m < 4 else "mle", "noise": "conf",
                      "err": [[round(rng.choice([0.0, 0.05, 0.2, 0.4, rng.random() * 0.45]), 3) for _ in range(2)] for _ in range(m)],
                      "w": [[round(rng.choice([0.0, 0.0, 0.01, 1.0, rng.random()]), 3) for _ in range(2 ** m)] for _ in range(rng.choice([1, 2, 3]))],
                      "policy": "real", "little": False, "fail": None, "e": 0.0})
    flip = [rng.randrange(spec["n"]), round(rng.uniform(0.02, 0.5), 3)] if rng.random() < 0.15 else None
    if flip and any(c["noise"] and c["api"] != "mitigate" for c in calls):
        flip = None          # noise given to a call replaces the noise of the gates
    return {"spec": spec, "vals": G.gen_values(rng, spec, batch=batch), "calls": calls, "key": str(rng.random()),
            "init": rng.choice([None, None, None, "one", "batch"]), "initseed": rng.randrange(1 << 30),
            "flip": flip,
            "train": {nm: round(rng.uniform(-3, 3), 4) for nm in sorted(spec["v"])} if rng.random() < 0.4 else None}


def noise_of(c, n):
    import torch
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    k = c["noise"]
    if k is None:
        return None
    e = c["e"]
    if k == "float":
        o = {"error_probability": e}
    elif k == "list":
        o = {"error_probability": torch.tensor([min(e + 0.01 * j, 0.5) for j in range(n)])}
    elif k == "conf":
        m = torch.zeros(n, 2, 2, dtype=torch.float64)
        for j in range(n):
            a, b = min(e + 0.02 * j, 0.5), e / 2
            m[j] = torch.tensor([[1 - a, b], [a, 1 - b]])
        o = {"error_probability": m}
    else:
        m = torch.eye(2 ** n, dtype=torch.float64) * (1 - e) + e / 2 ** n
        return NoiseHandler(NoiseProtocol.READOUT.CORRELATED, {"confusion_matrix": m})
    return NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, o)


def execute(plan, ctx):
    import qadence as q
    import torch
    from qadence.backends.api import backend_factory
    from qadence.mitigations import Mitigations
    from qadence.noise import NoiseHandler
    from qadence.register import Register
    from qadence.types import Endianness, NoiseProtocol
    spec, n = plan["spec"], plan["spec"]["n"]
    block = G.build_block(spec)
    flip = plan["flip"]
    if flip:
        block = q.chain(block, q.X(flip[0], noise=NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": flip[1]})))
    circ = q.QuantumCircuit(n, block)
    vals = plan["vals"]
    B = G.batch_of(vals)
    rs = np.random.RandomState(plan["initseed"] % (1 << 31))
    nb = {None: 0, "one": 1, "batch": B}[plan["init"]] if not flip else 0
    init = None
    if nb:
        init = rs.normal(size=(nb, 2 ** n)) + 1j * rs.normal(size=(nb, 2 ** n))
        init /= np.linalg.norm(init, axis=1, keepdims=True)
    state = torch.tensor(init, dtype=torch.complex128) if nb else None
    vref = dict(spec["v"])
    t = G.tvalues(vals)
    model = q.QuantumModel(circ)
    if plan["train"]:
        with torch.no_grad():
            for nm, v in plan["train"].items():
                if nm in model._params:
                    model._params[nm].copy_(torch.tensor([v], dtype=model._params[nm].dtype))
    probs = {}
    for trained in (False, True):
        vv = {**vref, **(plan["train"] or {})} if trained else vref
        P = []
        for b in range(B):
            u = G.unitary(spec, vv, {**spec["f"], **G.element(vals, b)})
            s = u @ (init[min(b, nb - 1)] if nb else np.eye(2 ** n)[0])
            if flip:
                x = G._embed(G._P["X"], [flip[0]], n)
                p = (1 - flip[1]) * abs(x @ s) ** 2 + flip[1] * abs(s) ** 2
            else:
                p = abs(s) ** 2
            P.append(p)
        probs[trained] = P
    ctx.nontrivial = B > 1 or bool(flip) or any((p > 1e-9).sum() > 1 for p in probs[True])
    for k, c in enumerate(plan["calls"]):
        if c["api"] == "mitigate":
            mitigated(c, k, plan, ctx)
            continue
        en = Endianness.LITTLE if c["little"] else Endianness.BIG
        noise, kw = noise_of(c, n), {}
        if c["mit"]:
            kw["mitigation"] = Mitigations(Mitigations.READOUT, {"optimization_type": c["mit"]})
        fail = c["fail"]
        N = c["shots"]
        trained = c["api"] == "model"
        for attempt in ((0, 1) if fail is not None else (0,)):
            D = Draws(c["policy"], plan["key"], fail if attempt == 0 else None)
            torch.manual_seed(plan["initseed"] + k)
            np.random.seed((plan["initseed"] + k) % (1 << 31))
            err = None
            with D:
                try:
                    if c["api"] == "model":
                        res = model.sample(t, n_shots=N, state=state, noise=noise, endianness=en, **kw)
                    elif c["api"] == "circuit":
                        res = q.sample(circ, values=t, state=state, n_shots=N, endianness=en)
                    elif c["api"] == "block":
                        res = q.sample(n, block, values=t, state=state, n_shots=N, endianness=en)
                    elif c["api"] == "register":
                        res = q.sample(Register(n), block, values=t, state=state, n_shots=N, endianness=en)
                    else:
                        be = backend_factory("pyqtorch", diff_mode=None)
                        conv = be.convert(circ)
                        res = be.sample(conv.circuit, conv.embedding_fn(conv.params, t), n_shots=N, state=state, noise=noise, endianness=en, **kw)
                except InjectedDrawError:
                    err = "injected"
                except Exception as e:
                    err = f"{type(e).__name__}: {str(e)[:200]}"
            if D.failed:
                ctx.fault("draw_failure")
                ctx.nontrivial = True
                if err is None:
                    raise Violation("swallowed", f"call {k}: a random draw failed, yet sample returned {str(res)[:200]}")
                ctx.ev("failed", k)
                continue
            if err:
                raise Violation("sample-failed", f"call {k} ({c['api']}, {N} shots, noise {c['noise']} {c['e']}, mitigation {c['mit']}): {err}")
            ctx.fault("stream_" + c["policy"])
            ctx.steps += N
            ctx.ev("sample", k, c["api"], N, c["policy"], [sorted(r.items()) for r in res])
            ctx.state_keys.append(f"{c['api']}|{c['policy']}|{c['noise']}|{c['mit']}|{N}|{B}|{c['little']}|{n}|{plan['init']}|{bool(flip)}")
            judge(plan, c, k, res, probs[trained], D, ctx, B if spec["f"] or not nb else max(nb, B), n, noise)
            if attempt == 0:
                break
        if noise is not None and plan["calls"][k + 1:]:
            # noise given to a call stays in the converted circuit (listed under C20): continue on fresh objects
            block = G.build_block(spec)
            if flip:
                block = q.chain(block, q.X(flip[0], noise=NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": flip[1]})))
            circ = q.QuantumCircuit(n, block)
            model = q.QuantumModel(circ)
            if plan["train"]:
                with torch.no_grad():
                    for nm, v in plan["train"].items():
                        if nm in model._params:
                            model._params[nm].copy_(torch.tensor([v], dtype=model._params[nm].dtype))


def closest(v):
    """The probability distribution closest to v (projection on the simplex)."""
    u = np.sort(v)[::-1]
    cs = np.cumsum(u)
    r = max(j for j in range(len(v)) if u[j] + (1 - cs[j]) / (j + 1) > 0)
    return np.maximum(v + (1 - cs[r]) / (r + 1), 0)


def mitigated(c, k, plan, ctx):
    import torch
    from collections import Counter
    from qadence.mitigations import Mitigations
    from qadence.mitigations.protocols import apply_mitigation
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    n, N = c["n"], c["shots"]
    conf = torch.tensor([[[1 - a, b], [a, 1 - b]] for a, b in c["err"]], dtype=torch.float64)
    T = np.ones((1, 1))
    for m in conf.numpy():
        T = np.kron(T, m)
    raws = []
    for w in c["w"]:
        w = np.array(w) if sum(w) else np.ones(2 ** n)
        cnt = np.floor(w / w.sum() * N).astype(int)
        cnt[int(np.argmax(w))] += N - cnt.sum()
        raws.append(cnt)
    samples = [Counter({f"{j:0{n}b}": int(x) for j, x in enumerate(r) if x}) for r in raws]
    np.random.seed(plan["initseed"] % (1 << 31))
    noise = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": conf})
    what = f"call {k} (mitigation {c['mit']} of {[dict(s) for s in samples]}, errors {c['err']})"
    try:
        res = apply_mitigation(noise=noise, mitigation=Mitigations(Mitigations.READOUT, {"optimization_type": c["mit"]}), samples=[Counter(s) for s in samples])
    except Exception as e:
        raise Violation("mitigation-failed", f"{what}: {type(e).__name__}: {str(e)[:200]}")
    ctx.ev("mitigate", k, [sorted(r.items()) for r in res])
    ctx.state_keys.append(f"mitigate|{c['mit']}|{n}|{N}")
    ctx.steps += N
    if len(res) != len(samples):
        raise Violation("batch", f"{what}: {len(res)} counters for {len(samples)}")
    for r, raw in zip(res, raws):
        if any(len(s) != n for s in r) or any(x < 0 for x in r.values()) or sum(r.values()) != N:
            raise Violation("shots", f"{what}: {sum(r.values())} shots: {dict(r)}")
        if c["mit"] == "mle" and N >= 10000:
            want = closest(np.linalg.solve(T, raw / N))
            got = np.array([r.get(f"{j:0{n}b}", 0) for j in range(2 ** n)]) / N
            if abs(got - want).max() > 2 * (2 ** n + 2) / N:
                raise Violation("mitigation", f"{what}: {np.round(got, 4).tolist()}; the distribution closest to the inverted counts is {np.round(want, 4).tolist()}")
            ctx.probe("mitigation_closest")


def judge(plan, c, k, res, probs, D, ctx, B, n, noise):
    N = c["shots"]
    what = f"call {k} ({c['api']}, {N} shots, stream {c['policy']}, {'little' if c['little'] else 'big'} endian, noise {c['noise']}, mitigation {c['mit']})"
    if len(res) != B:
        raise Violation("batch", f"{what}: {len(res)} counters for a batch of {B}")
    for b, r in enumerate(res):
        bad = [s for s in r if not isinstance(s, str) or len(s) != n or set(s) - {"0", "1"}]
        if bad:
            raise Violation("bitstring", f"{what}: bitstring {bad[0]!r} for {n} qubits")
        cnt = [int(x) for x in r.values()]
        if any(x < 0 for x in cnt) or sum(cnt) != N:
            raise Violation("shots", f"{what}: element {b} has {sum(cnt)} shots: {dict(r)}")
        if noise is not None:
            if c["noise"] == "conf" and c["mit"] == "mle" and c["policy"] == "quantile" and N >= 100000 and c["e"] <= 0.2:
                p = probs[min(b, len(probs) - 1)]
                for s in (f"{j:0{n}b}" for j in range(2 ** n)):
                    if abs(r.get(s, 0) / N - p[int(s[::-1] if c["little"] else s, 2)]) > 0.01:
                        raise Violation("mitigation", f"{what}: element {b}: outcome {s} has {r.get(s, 0)} shots after undoing the known readout error, its probability is {p[int(s[::-1] if c['little'] else s, 2)]:.4f}")
                ctx.probe("mitigation_exact")
            continue
        p = probs[min(b, len(probs) - 1)]
        idx = {s: int(s[::-1] if c["little"] else s, 2) for s in r}
        for s in r:
            if r[s] and p[idx[s]] < 1e-10:
                raise Violation("support", f"{what}: element {b} contains {s} {r[s]} times, whose probability is {p[idx[s]]:.2g}")
        got = np.zeros(2 ** n)
        for s in r:
            got[idx[s]] += r[s]
        if len(D.calls) == B:
            d = abs(D.calls[b][0] - p).max() if len(D.calls[b][0]) == len(p) else 9.0
            ctx.probe("distribution_seen")
            if c["policy"] == "quantile" and D.calls[b][1].size == N:
                dev = abs(got - p * N).max()
                if dev > 1.001 + 1e-6 * N:
                    raise Violation("probability", f"{what}: element {b}: drawn in proportion, counts {dict(r)} deviate by {dev:.2f} from the state's probabilities {np.round(p, 4).tolist()}")
            # an order of the drawn distribution other than the reference's is fine as long as the counts follow the state
            if d > 1e-7 and not c["little"] and np.allclose(np.sort(D.calls[b][0]), np.sort(p), atol=1e-7) is False:
                raise Violation("probability", f"{what}: element {b}: drawn from {np.round(D.calls[b][0], 5).tolist()} instead of {np.round(p, 5).tolist()}")
        if (c["policy"] == "real" or not D.calls) and N >= 1000:
            for j in range(2 ** n):
                if abs(got[j] - p[j] * N) > 9 * math.sqrt(N * p[j] * (1 - p[j])) + 3:
                    raise Violation("probability", f"{what}: element {b}: outcome {j:0{n}b} seen {got[j]} times of {N}, probability {p[j]:.4f}")
