"""C17 shot-based expectation values."""
from __future__ import annotations

import random
from collections import Counter

import numpy as np

from .. import programs as G
from ..draws import Draws, InjectedDrawError, outcomes
from ..runner import Violation

PROP = "C17"
BOOT = ("qadence", "qadence.measurements", "qadence.mitigations")
QUICK, THOROUGH = 600, 25000
LEVEL = "exploration"
METHOD = ("random circuits and Pauli observables estimated while a seeded policy decides every measurement outcome (proportional, extreme, pseudo-random, failing); "
          "the reference replays the same outcomes through an independent dense-matrix simulation and the documented estimators")
RULE = ("one run = one random circuit with 1-3 observables estimated 1-2 times by tomography, shadows or from given samples; tomography policies are functions of the "
        "distribution drawn from, shadow outcomes and bases are recorded; non-trivial = more than one term, basis, batch element or an injected failure")
REAL = ["qadence.measurements (tomography, shadow, samples), QuantumModel.expectation, expectation()", "pyqtorch execution"]
STUB = ["torch.multinomial (the source of measurement outcomes); numpy.random.randint is recorded"]
ASSUME = ["PyTorch engine, default endianness, observables are sums of products of Pauli operators (and, for tomography, number operators) with constant coefficients"]
LISTS = ["calls", "spec.ops", "obs"]
LIST_MIN = {"calls": 1, "spec.ops": 1, "obs": 1}
SIMPLE = {}


def gen(rng: random.Random, i: int, tier: str) -> dict:
    spec = G.gen_circuit(rng, n=rng.choice([1, 2, 2, 3, 3]))
    n = spec["n"]
    for q in range(n):
        if rng.random() < 0.6:
            spec["ops"].append([rng.choice(["RX", "RY"]), [q], round(rng.uniform(0.1, 3), 3)])
    B = rng.choice([1, 1, 2, 3])
    obs = [G.gen_obs(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        m = rng.choice(["tomography", "tomography", "tomography", "shadow", "samples"])
        c = {"m": m, "api": rng.choice(["model", "model_opt", "expectation"]), "diff": rng.choice(["ad", "ad", "ad", "gpsr"]),
             "fail": rng.choice([None] * 6 + [0, 1, 3]), "noise": None}
        if m == "tomography":
            c.update(shots=rng.choice([1, 2, 9, 50, 1000, 20000]), policy=rng.choice(["quantile", "quantile", "hash", "hash", "rare", "mode", "first", "last", "flat"]))
            if rng.random() < 0.1:
                c["noise"] = 0.1
        elif m == "shadow":
            c.update(size=rng.randint(1, 30), conf=rng.choice([0.05, 0.1, 0.5, 0.9]), policy=rng.choice(["step", "step", "real", "rare", "mode", "first", "last"]), seed=rng.randrange(1 << 30),
                     acc=rng.choice([None, None, 3.0, 5.0, 7.5, 12.0]))       # a size, or the accuracy that determines it
        else:
            c["counters"] = [{f"{rng.randrange(2 ** n):0{n}b}": rng.randint(1, 9) for _ in range(rng.randint(1, 4))} for _ in range(rng.choice([1, 2]))]
            tot = max(sum(x.values()) for x in c["counters"])
            for x in c["counters"]:                      # one shot number for the whole batch
                k = next(iter(x))
                x[k] += tot - sum(x.values())
            c["obs"] = [G.gen_obs(rng, n, paulis="Z") for _ in range(rng.choice([1, 2]))]
        calls.append(c)
    if rng.random() < 0.35:         # observables written as nested products, sums and multiples
        obs = [{"t": gen_tree(rng, rng.sample(range(n), n), paulis="XYZ")} if rng.random() < 0.7 else o for o in obs]
        for c in calls:
            if c["m"] == "samples":
                c["obs"] = [{"t": gen_tree(rng, rng.sample(range(n), n), paulis="Z")} if rng.random() < 0.7 else o for o in c["obs"]]
    elif not any(c["m"] == "shadow" for c in calls) and rng.random() < 0.4:
        obs = [G.gen_obs(rng, n, paulis="XYZN") for _ in obs]
    if all(c["m"] == "tomography" for c in calls) and rng.random() < 0.25:
        for o in [o for o in obs if isinstance(o, list)]:           # the same operator several times on one qubit
            for t in o:
                for f in list(t[1]):
                    if f[0] in "ZX" and rng.random() < 0.5:
                        t[1].extend([list(f)] * rng.choice([1, 2]))
    if any(op[0] == "HamEvo" for op in spec["ops"]):
        for c in calls:
            c["diff"] = "ad"
    return {"spec": spec, "vals": G.gen_values(rng, spec, batch=B), "obs": obs, "calls": calls, "key": str(rng.random()),
            "init": rng.choice([None] * 6 + ["one", "batch", "batch"]), "nb": rng.choice([2, 3]), "initseed": rng.randrange(1 << 30), "scale": rng.choice([None, None, 2.0, -0.5])}


def gen_tree(rng, qs, paulis, depth=0):
    """An observable on (some of) the qubits `qs`: ["p", name, qubit], ["s", number, e], ["+", e, ...] or ["*", e, ...]."""
    x = rng.random()
    if depth > 3 or (depth and x < 0.25):
        return ["p", rng.choice(paulis), rng.choice(qs)]
    if x < 0.5:
        return ["s", rng.choice([2.0, -0.5, 3.0, 0.7]), gen_tree(rng, qs, paulis, depth + 1)]
    if x < 0.7 or len(qs) < 2:
        return ["+"] + [gen_tree(rng, qs, paulis, depth + 1) for _ in range(rng.choice([2, 2, 3]))]
    k = rng.randint(1, len(qs) - 1)
    parts = [qs[:k], qs[k:]] if len(qs) < 3 or rng.random() < 0.6 else [[q] for q in qs]
    return [rng.choice("*@")] + [gen_tree(rng, p, paulis, depth + 1) for p in parts]


def expand(e):
    if e[0] == "p":
        return [(1.0, [[e[1], e[2]]])]
    if e[0] == "s":
        return [(e[1] * c, f) for c, f in expand(e[2])]
    if e[0] == "+":
        return [t for x in e[1:] for t in expand(x)]
    out = [(1.0, [])]
    for x in e[1:]:
        out = [(a * c, f + g) for a, f in out for c, g in expand(x)]
    return out


def build_tree(e):
    import qadence as q
    if e[0] == "p":
        return getattr(q, e[1])(e[2])
    if e[0] == "s":
        return e[1] * build_tree(e[2])
    return {"+": q.add, "*": q.kron, "@": q.chain}[e[0]](*[build_tree(x) for x in e[1:]])


def flat(o):
    return expand(o["t"]) if isinstance(o, dict) else o


def build(o):
    return build_tree(o["t"]) if isinstance(o, dict) else G.build_obs(o)


def terms_of(o, scale):
    o = flat(o)
    return [((c * scale if scale else c), fac) for c, fac in o]


ROTM = {"X": G._P["H"], "Y": G._P["H"] @ G._P["SDagger"]}


def rotated(state, fac, n):
    for p, k in fac:
        if p in ROTM:
            state = G._embed(ROTM[p], [k], n) @ state
    return state


def parity(idx, fac, n):
    s = 1
    for p, k in fac:
        if p == "N":
            s *= (int(idx) >> (n - 1 - k)) & 1
            continue
        if p != "I" and (int(idx) >> (n - 1 - k)) & 1:
            s = -s
    return s


def execute(plan, ctx):
    import qadence as q
    import torch
    from qadence.measurements import Measurements
    from qadence.measurements.samples import compute_expectation
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    spec, n, vals = plan["spec"], plan["spec"]["n"], plan["vals"]
    B = G.batch_of(vals)
    init = None
    nb = 1
    if plan["init"]:
        nb = 1 if plan["init"] == "one" else B if B > 1 else plan["nb"]
        rs = np.random.RandomState(plan["initseed"] % (1 << 31))
        init = rs.normal(size=(nb, 2 ** n)) + 1j * rs.normal(size=(nb, 2 ** n))
        init /= np.linalg.norm(init, axis=1, keepdims=True)
    state = torch.tensor(init, dtype=torch.complex128) if init is not None else None
    BV, B = B, max(B, nb)
    psi = [G.state_of(spec, f={**spec["f"], **G.element(vals, min(b, BV - 1))}, init=None if init is None else init[min(b, nb - 1)]) for b in range(B)]
    T = [terms_of(o, plan["scale"]) for o in plan["obs"]]
    ctx.nontrivial = B > 1 or sum(len(t) for t in T) > 1
    for k, c in enumerate(plan["calls"]):
        what = f"call {k}: {c['m']}"
        if c["m"] == "samples":
            cn = [Counter(x) for x in c["counters"]]
            if any(not fac for o in c["obs"] for _, fac in flat(o)) and all(not fac or all(p == "I" for p, _ in fac) for o in c["obs"] for _, fac in flat(o)):
                continue
            try:
                r = compute_expectation([build(o) for o in c["obs"]], cn)
            except TypeError:        # observables it does not accept (identities)
                ctx.ev("samples-refused", k)
                continue
            if len(r) != len(c["obs"]):
                raise Violation("samples", f"{what}: {len(r)} estimates for {len(c['obs'])} observables")
            want = [[sum(cc * sum(m * parity(int(s, 2), fac, n) for s, m in x.items()) / sum(x.values()) for cc, fac in flat(o)) for x in cn] for o in c["obs"]]
            for j, (a, b) in enumerate(zip(r, want)):
                if len(a) != len(b) or np.abs(np.array(a) - np.array(b)).max() > 1e-5:
                    raise Violation("samples", f"{what}: observable {c['obs'][j]} on samples {c['counters']} is {np.array(a).tolist()}, the average parity is {b}")
            ctx.ev("samples", k, np.round(want, 6).tolist())
            ctx.steps += 1
            continue
        me = Measurements(c["m"], {"n_shots": c["shots"]} if c["m"] == "tomography" else {"shadow_size": c["size"], "confidence": c["conf"], "accuracy": 0.1}
                          if not by_accuracy(plan, c) else {"accuracy": c["acc"], "confidence": c["conf"]})
        noise = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": c["noise"]}) if c["noise"] else None
        for attempt in ((0, 1) if c["fail"] is not None else (0,)):
            circ = G.build_circuit(spec)
            obs = [(plan["scale"] * build(o) if plan["scale"] else build(o)) for o in plan["obs"]]
            t = G.tvalues(vals)
            D = Draws(c["policy"], plan["key"], c["fail"] if attempt == 0 else None)
            torch.manual_seed(plan["initseed"] + k)
            np.random.seed(c.get("seed", 0) % (1 << 31))
            err = None
            try:
                if c["api"] == "model":
                    m = q.QuantumModel(circ, obs, measurement=me, diff_mode=c["diff"], noise=noise)
                    with D:
                        r = m.expectation(t, state=state)
                elif c["api"] == "model_opt":
                    m = q.QuantumModel(circ, obs, diff_mode=c["diff"])
                    with D:
                        r = m.expectation(t, state=state, measurement=me, noise=noise)
                else:
                    with D:
                        r = q.expectation(circ, obs, values=t, state=state, measurement=me, diff_mode=c["diff"], noise=noise)
            except InjectedDrawError:
                err = "injected"
            except Exception as e:
                err = f"{type(e).__name__}: {str(e)[:200]}"
                if __import__("os").environ.get("DST_TB"):
                    __import__("traceback").print_exc()
            if D.failed:
                ctx.fault("draw_failure")
                ctx.nontrivial = True
                if err is None:
                    raise Violation("swallowed", f"{what}: a random draw failed, yet an estimate was returned")
                ctx.ev("failed", k)
                continue
            if err:
                raise Violation("estimate-failed", f"{what} ({c['api']}, {c['diff']}): {err}")
            ctx.fault("stream_" + c["policy"])
            ctx.steps += D.ndraw
            r = r.detach()
            if r.is_complex() or tuple(r.shape) != (B, len(T)):
                raise Violation("shape", f"{what}: estimate has shape {tuple(r.shape)} {r.dtype} for batch {B} and {len(T)} observables")
            r = r.numpy()
            ctx.ev(c["m"], k, np.round(r, 6).tolist())
            ctx.state_keys.append(f"{c['m']}|{c['api']}|{c['diff']}|{c['policy']}|{B}|{len(T)}|{n}|{c.get('shots', c.get('size'))}")
            for j, tj in enumerate(T):
                lim = sum(abs(cc) for cc, _ in tj) + 1e-5
                for b in range(B):
                    if not abs(r[b, j]) <= lim:
                        raise Violation("range", f"{what}: estimate {r[b, j]} of observable {tj} outside [-{lim:.3f}, {lim:.3f}]")
            if not noise:
                (tomo if c["m"] == "tomography" else shadow)(plan, c, what, r, T, psi, D, n, B, ctx)
            break


def tomo(plan, c, what, r, T, psi, D, n, B, ctx):
    N = c["shots"]
    for j, tj in enumerate(T):
        for b in range(B):
            want, exact, nt = 0.0, 0.0, 0.0
            for cc, fac in tj:
                if not fac or all(p == "I" for p, _ in fac):
                    want += cc
                    exact += cc
                    continue
                p = abs(rotated(psi[b], fac, n)) ** 2
                pr = np.array([parity(i, fac, n) for i in range(2 ** n)])
                want += cc * np.mean(pr[outcomes(c["policy"], p / p.sum(), N, plan["key"])])
                exact += cc * (p * pr).sum()
                nt += abs(cc)
            if abs(r[b, j] - want) > 1e-5 * (1 + nt):
                if c["policy"] == "quantile" and abs(r[b, j] - exact) <= nt * (2 ** n + 1) / N + 1e-6:
                    ctx.probe("quantile_within_rounding")
                    continue
                raise Violation("tomography", f"{what} with {N} shots, stream {c['policy']}, api {c['api']}: element {b}: estimate {r[b, j]:.6f} of {tj}; the shots drawn average to {want:.6f} (exact {exact:.6f})")


def by_accuracy(plan, c):
    return c.get("acc") and all(isinstance(o, list) for o in plan["obs"]) and size_for(plan["obs"], c) > 0


def size_for(T, c):      # (S23) of arXiv:2002.08953 for the largest number of qubits a term acts on
    return round(3 ** max(len({k for p, k in fac if p != "I"}) for tj in T for _, fac in tj) * 34.0 / c["acc"] ** 2)


def shadow(plan, c, what, r, T, psi, D, n, B, ctx):
    N = c["size"]
    if by_accuracy(plan, c):
        N = size_for(T, c)
    drawn = sum(len(o) for _, o in D.calls)
    if drawn != N * B:
        raise Violation("shadow-size", f"{what}: {drawn} shots were drawn for {B} sets of values, {N} each were {'needed for accuracy %s' % c['acc'] if by_accuracy(plan, c) else 'asked for'}")
    ids = [x for x in D.bases if x.shape == (N, n)]
    if len(ids) != 1 or len(D.calls) != N * B:
        ctx.probe("shadow_not_matched")
        return
    ids = ids[0]
    K = round(2.0 * np.log(2.0 * len(T) / c["conf"]))
    gates = {0: "X", 1: "Y", 2: "Z"}
    out = np.zeros((B, N), dtype=int)
    for i in range(N):
        fac = [(gates[int(ids[i, k])], k) for k in range(n)]
        for b in range(B):
            p, o = D.calls[i * B + b]
            want = abs(rotated(psi[b], fac, n)) ** 2
            if np.abs(p - want).max() > 1e-6:
                raise Violation("basis", f"{what}: shot {i} of element {b} was drawn from {np.round(p, 4).tolist()}, its recorded basis {[f[0] for f in fac]} gives {np.round(want, 4).tolist()}")
            out[b, i] = o[0]
    fl = N // K
    for j, tj in enumerate(T):
        for b in range(B):
            est = 0.0
            for cc, fac in tj:
                fac = [(p, k) for p, k in fac if p != "I"]
                if not fac:
                    est += cc
                    continue
                ms = []
                for g in range(K):
                    rows = [i for i in range(g * fl, (g + 1) * fl) if all(gates[int(ids[i, k])] == p for p, k in fac)]
                    ms.append(np.mean([parity(out[b, i], fac, n) for i in rows]) if rows else 0.0)
                ms.sort()
                est += cc * ms[(len(ms) - 1) // 2]
            if abs(r[b, j] - est) > 1e-4:
                raise Violation("shadow", f"{what} of {N} shots in {K} groups: element {b}: estimate {r[b, j]:.6f} of {tj}; median of means of the recorded shots is {est:.6f}")
    ctx.probe("shadow_matched")
