"""C24 evaluations on the pulse-level backend: results, samples and independence of history."""
from __future__ import annotations

import copy
import os
import pickle
import random

import numpy as np

from .. import programs as G
from ..draws import Draws, InjectedDrawError
from ..runner import Violation
from .c20 import LineFault

PROP = "C24"
BOOT = ("qadence", "qadence.backends.pulser", "qadence.noise", "qadence.engines.torch.differentiable_backend")
QUICK, THOROUGH = 200, 5000
LEVEL = "exploration"
METHOD = ("histories of runs, samples, expectations, noisy simulations, gradients, parameter changes and failing calls (interrupted at a chosen source line, failing draws, missing "
          "values) over models on the emulated device; every result is compared with element-wise evaluations of a fresh model in a separate process and with algebra on its states, these with a dense integration of the described evolution and the emulated backend")
RULE = "one run = 1-2 models and 2-8 calls; non-trivial = at least two results compared after another call"
REAL = ["qadence.backends.pulser, QuantumModel, differentiable backend", "pulser sequences and the qutip emulator"]
STUB = ["the random source of pulser's sampling", "the cloud platform (emulation is local)"]
ASSUME = ["finite pulses and rounded times change states by less than the tolerances; noise rates that vary come with one set of values; no readout or state-preparation errors"]
LISTS = ["calls", "ops"]
LIST_MIN = {"calls": 1, "ops": 1}
SIMPLE = {}
CALLS = ["run", "run", "exp", "exp", "sample", "sample", "noisy", "noisy", "dm", "grad", "set"]
ANALOG = ["ARX", "ARY", "ARZ", "AROT", "WAIT", "ENT"]


def gen(rng: random.Random, i: int, tier: str) -> dict:
    n = rng.choice([1, 2, 2, 3])
    names, ops = {"v": {}, "f": {}}, []
    digital = rng.random() < 0.5

    def val():
        return round(rng.uniform(0.15, 4.5) * rng.choice([1, 1, -1]) if digital else rng.uniform(0.1, 3), 3)        # times are positive

    def par(sign):
        r = rng.random()
        if r < 0.35:
            return val() if sign else round(rng.uniform(0.1, 3), 3)
        kind = "v" if r < 0.65 else "f"
        k = rng.choice(["p", "q"] if kind == "v" else ["x", "y"])
        names[kind].setdefault(k, val())
        return [kind, k]

    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["RX", "RY", "RZ"]) if digital or rng.random() < 0.4 else rng.choice(ANALOG)
        if k == "ENT" and n == 1:
            k = "ARX"
        ops.append([k, rng.randrange(n), par(k[0] == "R") if k not in ("WAIT", "AROT", "ENT") else rng.randrange(100, 400, 4)])
    if any(o[0] == "ENT" for o in ops) and all(o[0] in ANALOG for o in ops):      # a chain of analog blocks only must be global
        ops.append(["RX", 0, 0.5])
    calls = []
    for _ in range(rng.randint(2, 8)):
        B = rng.choice([1, 1, 2, 3])
        c = {"m": rng.randrange(2), "call": rng.choice(CALLS), "vals": {k: [val() for _ in range(B)] for k in sorted(names["f"])},
             "shots": rng.choice([1, 7, 40, 300]), "policy": rng.choice(["quantile", "hash", "rare", "mode", "first", "last"]), "little": rng.random() < 0.2,
             "noise": [rng.choice(["DEPOLARIZING", "DEPHASING"]), [rng.choice([round(rng.uniform(0.05, 0.6), 2)] * 3 + [1e-9]) for _ in range(rng.choice([1, 1, 2]))]],
             "state": rng.randrange(1 << 20) if rng.random() < 0.2 and n < 3 else None,
             "fail": [rng.choice(["line", "line", "line", "draw", "missing", "noise"]), rng.choice([1, 10, 30, 100, 200, 400, 800])] if rng.random() < 0.25 else None,
             "to": {k: val() for k in sorted(names["v"])}}
        if c["call"] in ("noisy", "dm") and len(c["noise"][1]) > 1:
            c["vals"] = {k: v[:1] for k, v in c["vals"].items()}
        calls.append(c)
    own = [rng.choice(["DEPOLARIZING", "DEPHASING"]), [round(rng.uniform(0.05, 0.6), 2)]] if rng.random() < 0.15 else None     # noise of the model itself
    return {"n": n, "space": rng.choice([7.0, 8.0, 12.0, 50.0]), "ops": ops, **names, "obs": [G.gen_obs(rng, n) for _ in range(rng.choice([1, 1, 2]))],
            "pattern": [[round(rng.uniform(0, 1), 2) for _ in range(n)], [round(rng.uniform(0, 1), 2) for _ in range(n)], rng.choice([2.9, 8.01]), rng.choice([4.0, -9.0])] if rng.random() < 0.2 else None,
            "real": rng.random() < 0.15, "level": rng.choice([60, 60, 70]), "rot": [rng.choice([1.5, 0.0, 0.3]), rng.choice([0.4, -0.4, 2.0, 0.0, 4.0])],
            "models": rng.choice([1, 2]), "shared_cfg": rng.random() < 0.5, "cfg": rng.choice([{"sampling_rate": 1.0}, {"amplitude_local": 11.0}, {"n_steps_solv": 1e7}]) if rng.random() < 0.4 else None,
            "own": own, "grad": digital and not own, "calls": calls, "key": str(rng.random())}


class World:
    def __init__(self, plan, v=None, fresh=False, plain=False):
        import qadence as q
        self.q, self.plan = q, plan
        vals = v or plan["v"]
        par = {"v": {k: q.VariationalParameter(k, value=vals[k]) for k in plan["v"]}, "f": {k: q.FeatureParameter(k) for k in plan["f"]}}
        blocks = []
        for k, t, p in plan["ops"]:
            p = par[p[0]][p[1]] if isinstance(p, list) else p
            blocks.append({"RX": lambda: q.RX(t, p), "RY": lambda: q.RY(t, p), "RZ": lambda: q.RZ(t, p), "ARX": lambda: q.AnalogRX(p), "ARY": lambda: q.AnalogRY(p), "ARZ": lambda: q.AnalogRZ(p),
                           "AROT": lambda: q.AnalogRot(duration=p, omega=4.0 + t, delta=plan.get("rot", [1.5, 0.4])[0], phase=plan.get("rot", [1.5, 0.4])[1]), "WAIT": lambda: q.AnalogInteraction(p),
                           "ENT": lambda: q.entangle(p, qubit_support=(0, 1))}[k]())
        self.block = q.chain(*blocks)
        from qadence.analog import AddressingPattern, RydbergDevice
        from qadence.types import DeviceType
        pat = plan.get("pattern")
        if pat:
            pat = AddressingPattern(n_qubits=plan["n"], weights_amp=dict(enumerate(pat[0])), weights_det=dict(enumerate(pat[1])), amp=pat[2], det=pat[3])
        dev = RydbergDevice(pattern=pat or None, rydberg_level=plan.get("level", 60), type=DeviceType.REALISTIC if plan.get("real") else DeviceType.IDEALIZED)
        self.circ = q.QuantumCircuit(q.Register.line(plan["n"], spacing=plan["space"], device_specs=dev), self.block)
        self.obs = [G.build_obs(o) for o in plan["obs"]]
        from qadence.backends.pulser import Configuration
        self.cfg = Configuration(**plan["cfg"]) if plan["cfg"] else None
        self.models, self.v = [], []
        for _ in range(1 if fresh else plan["models"]):
            if not plan["shared_cfg"] and plan["cfg"]:
                self.cfg = Configuration(**plan["cfg"])
            self.models.append(q.QuantumModel(self.circ, self.obs, backend="pulser", diff_mode="gpsr", configuration=self.cfg,
                                               noise=self.noise({"noise": plan["own"]}) if plan.get("own") and not plain else None))
            self.v.append(dict(vals))

    def noise(self, c):
        from qadence.noise import NoiseHandler
        from qadence.types import NoiseProtocol
        p = c["noise"][1]
        return NoiseHandler(getattr(NoiseProtocol.ANALOG, c["noise"][0]), {"noise_probs": p if len(p) > 1 else p[0]})


def elements(plan, c):
    return [G.element(c["vals"], b) for b in range(G.batch_of(c["vals"]))]


def tens(x):
    import torch
    return {k: torch.tensor(v if isinstance(v, list) else [v], dtype=torch.float64) for k, v in x.items()}


def start(n, seed):
    r = np.random.RandomState(seed)
    x = r.randn(2 ** n) + 1j * r.randn(2 ** n)
    return x / np.linalg.norm(x)


def reference(plan, c, v):
    """Element-wise evaluations by a fresh model: states (columns of the evolution for given initial states), density matrices, gradients."""
    import torch
    w = World(plan, v, fresh=True, plain=True)
    m, n, out = w.models[0], plan["n"], {"psi": [], "rho": []}
    for e in elements(plan, c):
        if c["state"] is not None and c["call"] != "grad":
            s = start(n, c["state"])
            cols = [m.run(tens(e), state=torch.eye(2 ** n, dtype=torch.complex128)[k:k + 1])[0].detach().numpy() for k in range(2 ** n)]
            out["psi"].append(sum(a * col for a, col in zip(s, cols)))
        else:
            out["psi"].append(m.run(tens(e))[0].detach().numpy())
    if c["call"] in ("noisy", "dm"):
        kw = {} if c["state"] is None else {"state": torch.tensor(start(n, c["state"])[None, :], dtype=torch.complex128)}
        for p in c["noise"][1]:
            for e in elements(plan, c):
                w2 = World(plan, v, fresh=True, plain=True)
                m2 = w2.models[0]
                r = m2.backend.backend.run(m2._circuit, m2.embedding_fn(m2._params, tens(e)), noise=w2.noise({"noise": [c["noise"][0], [p]]}), **kw)
                out["rho"].append(r.reshape(2 ** n, 2 ** n).numpy())
    if c["call"] == "grad":
        out["grad"] = gradient(World(plan, v, fresh=True).models[0], c)
    if not any(o[0] == "ENT" for o in plan["ops"]):
        import qadence as q
        e = q.QuantumModel(w.circ, w.obs, backend="pyqtorch", diff_mode="ad")
        kw = {} if c["state"] is None or c["call"] == "grad" else {"state": torch.tensor(start(n, c["state"])[None, :], dtype=torch.complex128)}
        out["emu"] = [e.run(tens(x), **kw)[0].detach().numpy() for x in elements(plan, c)]
        out["ideal"] = [ideal(plan, {**v, **x}, start(n, c["state"]) if kw else None) for x in elements(plan, c)]
        if c["call"] == "grad" and plan["space"] >= 50 and not plan.get("pattern"):
            out["emugrad"] = gradient(e, c)
    return out


def ideal(plan, v, psi):
    """The documented evolution: gates act at once, analog blocks under drive, interaction C6/R^6 n_i n_j and addressing pattern."""
    from scipy.linalg import expm
    from qadence.analog.constants import C6_DICT
    n = plan["n"]
    P = {"X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1.0 + 0j, -1]), "N": np.diag([0j, 1])}

    def on(k, *at):
        r = np.eye(1)
        for z in range(n):
            r = np.kron(r, P[k] if z in at else np.eye(2))
        return r

    H0 = sum((C6_DICT[plan.get("level", 60)] / (plan["space"] * (b - a)) ** 6 * on("N", a, b) for a in range(n) for b in range(a + 1, n)), np.zeros((2 ** n, 2 ** n), complex))
    if plan.get("pattern"):
        wa, wd, amp, det = plan["pattern"]
        # detunings are negative, amplitudes above the limit of a qubit (3) are not applied
        H0 = H0 + sum(amp * wa[i] / 2 * (amp * wa[i] < 3) * on("X", i) + abs(det) * wd[i] * on("N", i) for i in range(n))
    psi = np.eye(2 ** n)[0].astype(complex) if psi is None else psi
    delta, phase = plan.get("rot", [1.5, 0.4])
    for k, t, p in plan["ops"]:
        p = v[p[1]] if isinstance(p, list) else p
        if k[0] == "R":
            psi = expm(-0.5j * p * on(k[1], t)) @ psi
            continue
        dt, om, de, ph = {"ARX": (p / np.pi, np.pi, 0, 0), "ARY": (p / np.pi, np.pi, 0, -np.pi / 2), "ARZ": (p / np.pi, 0, np.pi, 0), "AROT": (p / 1000, 4.0 + t, delta, phase), "WAIT": (p / 1000, 0, 0, 0)}[k]
        H = H0 + sum(om / 2 * (np.cos(ph) * on("X", i) - np.sin(ph) * on("Y", i)) - de * on("N", i) for i in range(n))
        psi = expm(-1j * dt * H) @ psi
    return psi


def independent(plan, what, ref, psi, n):
    """Pulse-level and emulated results against each other, as far as finite pulses and rounded times allow."""
    if "ideal" not in ref:
        return
    digital = any(o[0][0] == "R" for o in plan["ops"])
    pulses = ((plan["space"] >= 50 and not plan.get("pattern")) or not digital) and not plan.get("real")        # real devices wait between phases
    for x, e, y in zip(psi, ref["emu"], ref["ideal"]):
        lost = 1 - abs(np.vdot(e, y)) ** 2
        if lost > 1e-5:
            raise Violation("result", f"{what}: the emulated backend's state differs from the described evolution by {lost}", "emulated")
        lost = 1 - abs(np.vdot(x, y)) ** 2
        if pulses and lost > (0.02 if digital else 2e-3):
            raise Violation("result", f"{what}: the pulse-level state differs from the described evolution by {lost}", "pulses")
    if "emugrad" in ref and pulses:
        size = sum(abs(t[0]) for o in plan["obs"] for t in o) * len(plan["ops"])
        for a, y in ref["emugrad"].items():
            x = ref["grad"].get(a)
            if y is not None and (x is None or np.abs(x - y).max() > 0.06 * size):
                raise Violation("result", f"{what}: the gradient of {a} is {x} on the pulse level and {y} on the emulated backend", "grads")


def gradient(m, c):
    import torch
    t = {k: x.requires_grad_() for k, x in tens(c["vals"]).items()}
    r = m.expectation(t)
    leaves = {**{k: p for k, p in m._params.items() if p.requires_grad}, **t}
    if not leaves or not r.requires_grad:
        return {}
    wgt = torch.linspace(0.5, 1.5, r.numel(), dtype=r.dtype).reshape(r.shape)
    g = torch.autograd.grad((r * wgt).sum(), list(leaves.values()), allow_unused=True)
    return {k: None if x is None else x.detach().numpy() for k, x in zip(leaves, g)}


def apart(fn):
    """fn() in a process of its own."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                r = ("ok", fn())
            except BaseException as e:
                r = ("err", f"{type(e).__name__}: {str(e)[:300]}")
            with os.fdopen(wr, "wb") as f:
                pickle.dump(r, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def flip(x, n):
    return np.asarray(x)[..., [int(format(i, f"0{n}b")[::-1], 2) for i in range(2 ** n)]]


def tree(b):
    return (type(b).__name__, tuple(b.qubit_support), b.tag, str(getattr(b, "noise", None)), [tree(x) for x in getattr(b, "blocks", ())])


def execute(plan, ctx):
    import qadence as q
    import torch
    n = plan["n"]
    vs, refs = [dict(plan["v"]) for _ in range(plan["models"])], []
    for c in plan["calls"]:         # references first: each in a process of its own, from the state before any call
        k = c["m"] % plan["models"]
        if c["call"] == "set":
            vs[k].update(c["to"])
            refs.append(None)
            continue
        if c["call"] == "grad" and not plan["grad"]:
            c = dict(c, call="exp")
        if c["call"] == "exp" and plan.get("own"):
            c = dict(c, call="noisy", noise=plan["own"])
        st, r = apart(lambda: reference(plan, c, vs[k]))
        if st == "err" and "less than 4 data points" in str(r):       # angle below what the emulator can resolve: no call
            refs.append(None)
            continue
        if st == "err":
            raise Violation("evaluation-failed", f"a fresh model cannot be evaluated ({c['call']} {c['vals']}): {r}", f"fresh:{c['call']}")
        refs.append(r)
    try:
        w = World(plan)
    except Exception as e:
        raise Violation("evaluation-failed", f"the models cannot be built: {type(e).__name__}: {str(e)[:200]}", "build")
    before = repr((tree(w.block), [tree(o) for o in w.obs]))
    cfg_before = [repr(m.backend.backend.config) for m in w.models]
    root, done = os.path.dirname(q.__file__), 0
    for j, c in enumerate(plan["calls"]):
        k = c["m"] % plan["models"]
        m, ref = w.models[k], refs[j]
        call = "exp" if c["call"] == "grad" and not plan["grad"] else c["call"]
        what = f"call {j} ({call} on model {k}, values {c['vals']}{', noise %s' % c['noise'] if call in ('noisy', 'dm') else ''}{', initial state' if c['state'] is not None else ''})"
        if call == "set":
            m.reset_vparams([c["to"][x] for x in m.vparams])
            w.v[k].update(c["to"])
            continue
        if ref is None:
            continue
        S = None if c["state"] is None or call == "grad" else start(n, c["state"])
        for attempt in ((0, 1) if c["fail"] else (1,)):
            kind = c["fail"][0] if attempt == 0 else None
            t = tens(c["vals"])
            if kind == "missing" and t:
                t.pop(sorted(t)[0])
            keep = {a: x.clone() for a, x in t.items()}
            st = None if S is None else torch.tensor(S[None, :], dtype=torch.complex128)
            kw = {} if st is None else {"state": st}
            en = q.Endianness.LITTLE if c["little"] and call in ("run", "sample") else q.Endianness.BIG
            nz = w.noise(c)
            if kind == "noise":
                from qadence.noise import NoiseHandler
                from qadence.types import NoiseProtocol
                nz = NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": 0.1})
            D = Draws(c["policy"], plan["key"], 0 if kind == "draw" else None)
            res, err = None, None
            fault = LineFault(c["fail"][1], root) if kind == "line" else None
            try:
                with D:
                    if fault:
                        fault.__enter__()
                    try:
                        if call == "run":
                            res = m.run(t, endianness=en, **kw).detach().numpy()
                        elif call == "sample":
                            res = m.sample(t, n_shots=c["shots"], endianness=en, **kw)
                        elif call == "exp":
                            res = m.expectation(t, **kw).detach().numpy()
                        elif call == "noisy":
                            res = m.expectation(t, noise=nz, **kw).detach().numpy()
                        elif call == "dm":
                            res = m.backend.backend.run(m._circuit, m.embedding_fn(m._params, t), noise=nz, **kw).detach().numpy()
                        else:
                            res = gradient(m, dict(c, vals={a: x.tolist() for a, x in t.items()}))
                    finally:
                        if fault:
                            fault.__exit__()
            except (KeyboardInterrupt, InjectedDrawError) as e:
                err = type(e).__name__
            except Exception as e:
                err = f"{type(e).__name__}: {str(e)[:200]}"
            if any(not torch.equal(t[a], keep[a]) for a in keep) or set(t) != set(keep) or (st is not None and not np.array_equal(st.numpy()[0], S)):
                raise Violation("inputs-changed", f"{what}: the caller's values or initial state were changed")
            if repr((tree(w.block), [tree(o) for o in w.obs])) != before:
                raise Violation("inputs-changed", f"{what}: the circuit or an observable was changed")
            for z, mo in enumerate(w.models):
                if repr(mo.backend.backend.config) != cfg_before[z]:
                    raise Violation("configuration-changed", f"{what}: the configuration of model {z} became {mo.backend.backend.config} instead of {cfg_before[z]}")
            if kind:
                ctx.fault("call_" + kind)
                if D.failed and err is None:
                    raise Violation("swallowed", f"{what}: a random draw failed, yet a result was returned")
                continue
            if err:
                raise Violation("evaluation-failed", f"{what}: {err}", f"failed:{call}")
            try:
                judge(plan, c, "noisy" if call == "exp" and plan.get("own") else call, what, res, ref, D, n)
            except Violation:
                raise
            except Exception as e:
                raise Violation("result", f"{what}: the result {str(res)[:200]} has no valid form ({type(e).__name__}: {str(e)[:100]})", f"form:{call}")
            done += 1
            ctx.steps += 1
            ctx.ev(call, j, len(ref["psi"]))
            if call == "sample":
                ctx.fault("stream_" + c["policy"])
            ctx.state_keys.append(f"{call}|{n}|{len(ref['psi'])}|{c['little']}|{S is not None}|{plan['models']}|{c['noise'] and len(c['noise'][1])}|{'.'.join(sorted({o[0] for o in plan['ops']}))}")
        ctx.nontrivial = ctx.nontrivial or done > 1


def close(what, got, want, tol=2e-5, name="result"):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("shape", f"{what}: {name} has shape {got.shape} instead of {want.shape}")
    if not np.allclose(got, want, atol=tol, rtol=1e-5):
        z = int(np.argmax(np.abs(got - want).reshape(-1)))
        raise Violation("result", f"{what}: {name} is {got.reshape(-1)[z]} instead of {want.reshape(-1)[z]}", f"result:{name}")


def judge(plan, c, call, what, res, ref, D, n):
    psi, rho = np.array(ref["psi"]), ref["rho"]
    mats = [G.obs_matrix(o, n) for o in plan["obs"]]
    tol = 2e-3 if c["state"] is not None else 2e-5         # of the emulator's solver
    little = c["little"] and call in ("run", "sample")
    for p in psi:
        if abs(np.linalg.norm(p) - 1) > (1e-3 if c["state"] is not None else 1e-4):
            raise Violation("result", f"{what}: the state of a fresh model has norm {np.linalg.norm(p)}", "norm")
    independent(plan, what, ref, psi, n)
    if call == "run":
        close(what, res, flip(psi, n) if little else psi, tol, name="state")
    elif call == "exp":
        close(what, res, [[np.real(p.conj() @ o @ p) for o in mats] for p in psi], tol, name="expectation")
    elif call == "sample":
        if len(res) != len(psi) or len(D.calls) != len(psi):
            raise Violation("shape", f"{what}: {len(res)} counters of {len(D.calls)} measurements for {len(psi)} sets of values")
        for r, p, (dist, o) in zip(res, psi, D.calls):
            if len(o) != c["shots"] or sum(r.values()) != c["shots"] or any(len(b) != n for b in r):
                raise Violation("shots", f"{what}: {c['shots']} shots asked for, {len(o)} drawn, returned {dict(r)}")
            close(what, dist, np.abs(p) ** 2, max(tol, 1e-4), "distribution of the shots")
            want = {}
            for x in o:
                b = format(int(x), f"0{n}b")
                b = b[::-1] if little else b
                want[b] = want.get(b, 0) + 1
            if dict(r) != want:
                raise Violation("counts", f"{what}: the shots drawn are {want}, returned {dict(r)}")
    elif call in ("noisy", "dm"):
        for x in rho:
            if abs(np.trace(x) - 1) > 1e-3 or not np.allclose(x, x.conj().T, atol=1e-6):
                raise Violation("result", f"{what}: the density matrix of a fresh model has trace {np.trace(x)}", "trace")
        rates = [p for p in c["noise"][1] for _ in psi] if c["call"] in ("noisy", "dm") else []
        for z, p in enumerate(rates):
            if p < 1e-6:        # no noise: the state that run returns
                y = psi[z % len(psi)]
                close(what, rho[z], np.outer(y, y.conj()), 5e-3, "density matrix without noise")
        if call == "dm":
            close(what, np.asarray(res).reshape(-1, 2 ** n, 2 ** n), np.array(rho), 1e-4, "density matrix")
        else:
            close(what, np.asarray(res).reshape(len(mats), -1), [[np.real(np.trace(o @ x)) for x in rho] for o in mats], 1e-4, "noisy expectation")
    else:
        if set(res) != set(ref["grad"]):
            raise Violation("result", f"{what}: gradients of {sorted(res)} instead of {sorted(ref['grad'])}", "grads")
        for a, x in res.items():
            y = ref["grad"][a]
            close(what, np.zeros(1) if x is None else x, np.zeros(1) if y is None else y, 1e-4, f"gradient of {a}")


def warm():
    import warnings
    warnings.simplefilter("ignore")
    import qadence as q
    m = q.QuantumModel(q.QuantumCircuit(q.Register.line(1), q.chain(q.RX(0, 0.3))), observable=q.Z(0), backend="pulser", diff_mode="gpsr")
    m.sample(n_shots=2)
    m.expectation()
