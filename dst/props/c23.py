"""C23 overlaps of circuits, exact and from shots."""
from __future__ import annotations

import copy
import random

import numpy as np

from .. import programs as G
from ..draws import Draws, InjectedDrawError
from ..runner import Violation

PROP = "C23"
BOOT = ("qadence", "qadence.overlap", "qadence.measurements")
QUICK, THOROUGH = 500, 20000
LEVEL = "exploration"
METHOD = ("pairs of random circuits whose overlap is evaluated repeatedly by every method while a seeded policy decides every measurement outcome (proportional, extreme, "
          "pseudo-random, failing); the estimate is recomputed from the recorded draws, their distribution compared with an independent dense-matrix simulation")
RULE = ("one run = one pair of circuits and 1-4 evaluations by one or two methods, exact or with shots; non-trivial = more than one pair of values, a second evaluation of one "
        "object, or an injected failure")
REAL = ["qadence.overlap, QuantumModel, sampling, block algebra (reassign, dagger, controlled blocks)", "pyqtorch execution"]
STUB = ["torch.multinomial (the source of measurement outcomes)"]
ASSUME = ["PyTorch engine; at most one feature parameter per circuit (more are refused or undefined), a feature of both circuits has one value for both",
          "the exact method is used without shots, the Jensen-Shannon method with shots"]
LISTS = ["calls", "bra.ops", "ket.ops"]
LIST_MIN = {"calls": 1, "bra.ops": 1, "ket.ops": 1}
SIMPLE = {}
METHODS = ["exact", "compute_uncompute", "swap_test", "hadamard_test", "jensen_shannon"]
FIRST, OWN = ("exact", "jensen_shannon", "compute_uncompute"), ("exact", "jensen_shannon")
BADOPS = ("T", "U")         # no adjoint in the backend / property N03


def circuit(rng, n, prefix, feat):
    while True:
        s = G.gen_circuit(rng, n=n, depth=rng.randint(1, 5), prefix=prefix, feat=feat is not None, hamevo=rng.random() < 0.3)
        if any(o[0] in BADOPS for o in s["ops"]) or len(s["f"]) > 1:
            continue
        if feat is not None and not s["f"]:
            s["ops"].append([rng.choice(["RX", "RY"]), [rng.randrange(n)], ["f", feat]])
            s["f"] = {feat: 0.5}
        return rename(s, next(iter(s["f"])), feat) if s["f"] else s


def rename(x, a, b):
    if isinstance(x, dict):
        return {(b if k == a else k): rename(v, a, b) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, a, b) for v in x]
    return b if x == a else x


def gen(rng: random.Random, i: int, tier: str) -> dict:
    n = rng.choice([1, 1, 2, 2, 3])
    form = rng.choice(["both", "both", "both", "bra", "ket", "none", "shared"])
    bra = circuit(rng, n, "b", {"both": "xb", "bra": "xb", "shared": "xs"}.get(form))
    ket = circuit(rng, n, rng.choice(["b", "k", "k"]), {"both": "xk", "ket": "xk", "shared": "xs"}.get(form))
    for k in set(bra["v"]) & set(ket["v"]):         # one name, one value
        ket["v"][k] = bra["v"][k]
    ms = [rng.choice(METHODS) for _ in range(rng.choice([1, 1, 2]))]
    calls = []
    for _ in range(rng.randint(1, 4)):
        nb, nk = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
        vb = [round(rng.uniform(-3, 3), 3) for _ in range(nb)]
        vk = [round(rng.uniform(-3, 3), 3) for _ in range(nk)]
        calls.append({"m": rng.randrange(len(ms)), "vb": vb, "vk": vb if form == "shared" else vk, "shots": rng.choice([0, 0, 1, 7, 60, 500]),
                      "policy": rng.choice(["quantile", "hash", "hash", "step", "rare", "mode", "first", "last", "flat"]), "fail": rng.choice([None] * 6 + [0, 1]), "init": [rng.random() < 0.3, rng.random() < 0.3]})
    return {"n": n, "form": form, "bra": bra, "ket": ket, "methods": ms, "calls": calls, "key": str(rng.random()), "seed": rng.randrange(1 << 30)}


def start(n, seed):
    r = np.random.RandomState(seed % (1 << 31))
    x = r.randn(2 ** n) + 1j * r.randn(2 ** n)
    return x / np.linalg.norm(x)


def jsd(a, b, size):
    p, q = np.bincount(a, minlength=size) / len(a), np.bincount(b, minlength=size) / len(b)
    h = lambda x: float(-(x[x > 0] * np.log(x[x > 0])).sum())
    return h((p + q) / 2) - (h(p) + h(q)) / 2


def execute(plan, ctx):
    import qadence as q
    import torch
    n, form = plan["n"], plan["form"]
    torch.manual_seed(plan["seed"])
    cb, ck = G.build_circuit(plan["bra"]), G.build_circuit(plan["ket"])
    obj = []
    for m in plan["methods"]:
        try:
            obj.append(q.Overlap(cb, ck, method=getattr(q.OverlapMethod, m.upper())))
        except Exception as e:
            raise Violation("overlap-failed", f"no overlap by {m} (features of {form}): {type(e).__name__}: {str(e)[:200]}", f"failed:{m}:{form}")
    used = [0] * len(obj)
    before = (repr(cb), repr(ck))
    for k, c in enumerate(plan["calls"]):
        method, o = plan["methods"][c["m"]], obj[c["m"]]
        N = 0 if method == "exact" else (c["shots"] or 5) if method == "jensen_shannon" else c["shots"]
        fb, fk = next(iter(plan["bra"]["f"]), None), next(iter(plan["ket"]["f"]), None)
        vb = c["vb"] if fb else [0.0]
        vk = c["vk"] if fk else [0.0]
        # initial states: of the bra circuit where it is run on its own or first, of the ket circuit where it is run on its own
        ib, ik = (start(n, plan["seed"] + 7 * k + z) if c.get("init", [0, 0])[z] and method in (FIRST, OWN)[z] else None for z in (0, 1))
        sb = [G.state_of(plan["bra"], f={fb: x} if fb else {}, init=ib) for x in vb]
        sk = [G.state_of(plan["ket"], f={fk: x} if fk else {}, init=ik) for x in vk]
        if form == "both":
            pairs, shape = [(i, j) for j in range(len(vk)) for i in range(len(vb))], (len(vb), len(vk))
        else:
            m = max(len(vb), len(vk))
            pairs, shape = [(min(i, len(vb) - 1), min(i, len(vk) - 1)) for i in range(m)], (m, 1)
        amp = [complex(sk[j].conj() @ sb[i]) for i, j in pairs]
        what = f"call {k} ({method}, {N} shots, stream {c['policy']}, features of {form}: {fb}={vb}, {fk}={vk}{', initial states' if ib is not None or ik is not None else ''})"
        for attempt in ((0, 1) if c["fail"] is not None and N else (0,)):
            tb = {fb: torch.tensor(vb, dtype=torch.float64)} if fb else {}
            tk = {fk: torch.tensor(vk, dtype=torch.float64)} if fk else {}
            keep = copy.deepcopy((tb, tk))
            st = {a: torch.tensor(x[None, :], dtype=torch.complex128) for a, x in (("bra_state", ib), ("ket_state", ik)) if x is not None}
            stk = copy.deepcopy(st)
            D = Draws(c["policy"], plan["key"], c["fail"] if attempt == 0 else None)
            err = None
            try:
                with D:
                    r = o(bra_param_values=tb, ket_param_values=tk, n_shots=N, **st)
            except InjectedDrawError:
                err = "injected"
            except Exception as e:
                err = f"{type(e).__name__}: {str(e)[:200]}"
                if __import__("os").environ.get("DST_TB"):
                    __import__("traceback").print_exc()
            if any(not torch.equal(st[a], stk[a]) for a in stk):
                raise Violation("inputs-changed", f"{what}: the caller's initial state was changed")
            if sorted(tb) != sorted(keep[0]) or sorted(tk) != sorted(keep[1]) or any(not torch.equal(a[x], b[x]) for a, b in zip((tb, tk), keep) for x in a) or (repr(cb), repr(ck)) != before:
                raise Violation("inputs-changed", f"{what}: the caller's values or circuits were changed")
            if D.failed:
                ctx.fault("draw_failure")
                ctx.nontrivial = True
                if err is None:
                    raise Violation("swallowed", f"{what}: a random draw failed, yet an overlap was returned")
                ctx.ev("failed", k)
                continue
            if err:
                raise Violation("overlap-failed", f"{what}: {err}", f"failed:{method}:{form}")
            r = r.detach()
            if tuple(r.shape) != shape or r.is_complex():
                raise Violation("shape", f"{what}: result has shape {tuple(r.shape)} {r.dtype} instead of {shape}")
            got = r.t().reshape(-1).numpy() if form == "both" else r.reshape(-1).numpy()
            if N:
                ctx.fault("stream_" + c["policy"])
            judge(method, N, n, what, got, amp, pairs, sb, sk, D, ctx)
            used[c["m"]] += 1
            ctx.steps += 1 + D.ndraw
            ctx.ev(method, k, N, np.round(got.astype(float), 5).tolist())
            ctx.state_keys.append(f"{method}|{form}|{n}|{N}|{c['policy'] if N else ''}|{len(pairs)}")
            ctx.nontrivial = ctx.nontrivial or len(pairs) > 1 or used[c["m"]] > 1


def judge(method, N, n, what, got, amp, pairs, sb, sk, D, ctx):
    m = len(pairs)
    F = [abs(a) ** 2 for a in amp]
    if not N:
        for e, (g, f) in enumerate(zip(got, F)):
            if abs(g - f) > 1e-5:
                raise Violation("exact", f"{what}: overlap of pair {pairs[e]} is {g}, the exact overlap {f}")
        return
    need = 2 * m if method in ("hadamard_test", "jensen_shannon") else m
    calls = D.calls
    if method == "jensen_shannon":      # a circuit without a feature is sampled once for all values of the other
        b, k = len({i for i, _ in pairs}), len({j for _, j in pairs})
        if len(calls) == b + k:
            calls = [calls[i] for i, _ in pairs] + [calls[b + j] for _, j in pairs]
    if len(calls) != need:
        raise Violation("draws", f"{what}: {len(calls)} distributions were drawn from, {need} are needed")
    for e in range(m):
        i, j = pairs[e]
        p, o = calls[e]
        if len(o) != N:
            raise Violation("shots", f"{what}: {len(o)} shots were drawn")
        half = len(p) // 2
        if method == "compute_uncompute":
            chk, est = [(p[0], F[e])], np.mean(o == 0)
        elif method == "swap_test":
            chk, est = [(p[:half].sum(), (1 + F[e]) / 2)], 2 * np.mean(o < half) - 1
        elif method == "hadamard_test":
            p2, o2 = calls[m + e]
            chk = [(p[:half].sum(), (1 + amp[e].real) / 2), (abs(2 * p2[:half].sum() - 1), abs(amp[e].imag))]
            est = (2 * np.mean(o < half) - 1) ** 2 + (2 * np.mean(o2 < half) - 1) ** 2
        else:
            p2, o2 = calls[m + e]
            chk = [(a, b) for x, s in ((p, sb[i]), (p2, sk[j])) for a, b in zip(x, abs(s) ** 2)]
            est = 1 - jsd(o, o2, 2 ** n)
        for a, b in chk:
            if abs(a - b) > 1e-5:
                raise Violation("distribution", f"{what}: pair {pairs[e]}: the shots were drawn with probability {a}, the circuits give {b}")
        if abs(got[e] - est) > 2e-5:
            raise Violation("estimate", f"{what}: pair {pairs[e]}: overlap {got[e]}, the shots drawn give {est} (exact overlap {F[e]:.6f})")


def warm():
    import qadence as q
    import torch
    from qadence.parameters import FeatureParameter
    a, b = q.QuantumCircuit(1, q.RX(0, FeatureParameter("warm_a"))), q.QuantumCircuit(1, q.RX(0, FeatureParameter("warm_b")))
    v = torch.rand(2, dtype=torch.float64)
    for m in (q.OverlapMethod.SWAP_TEST, q.OverlapMethod.HADAMARD_TEST, q.OverlapMethod.COMPUTE_UNCOMPUTE):
        q.Overlap(a, b, method=m)({"warm_a": v}, {"warm_b": v}, n_shots=5)
