"""C20 results never depend on earlier calls."""
from __future__ import annotations

import copy
import math
import os
import pickle
import random
import sys

import numpy as np

from .. import programs as G
from ..draws import Draws, InjectedDrawError
from ..runner import Violation

PROP = "C20"
BOOT = ("qadence", "qadence.ml_tools", "qadence.serialization", "qadence.transpile", "qadence.constructors")
QUICK, THOROUGH = 420, 15000
LEVEL = "exploration"
METHOD = ("seeded histories of evaluations, conversions, copies and parameter changes over several models sharing one circuit, with failing calls, failing draws and interrupts at "
          "chosen source lines; every result is compared with an independent dense reference for the parameters the caller set, and circuit, observable and inputs with what they were")
RULE = ("one run = one circuit, 1-3 models built on it and 3-16 calls, some of which are made to fail; non-trivial = at least 4 results were compared after another call on the same object")
REAL = ["QuantumModel, QNN, pyqtorch backend and engine (ad, adjoint and gpsr), embedding, transpilation, serialization, block algebra, functional API"]
STUB = ["outcome of measurement draws (proportional counts)"]
ASSUME = ["set_as_fixed, set_as_variational, tag and set_noise are asked to change the object and are not part of the histories", "noise given to a call: see known findings", "HamEvo is not serialised; adjoint differentiation is used for one observable and with RX, RY and RZ as the only parametrised gates, for the others pyqtorch's gradients are wrong"]
LISTS = ["ops"]
LIST_MIN = {"ops": 1}
SIMPLE = {"state": None, "little": False}
EVAL = ["run", "exp", "sample", "grad", "run", "exp", "exp2", "tomo"]
CONV = ["dagger", "serialize", "tensor", "algebra", "params", "draw", "assign", "to", "dict", "runfn", "expfn", "samplefn", "transpile", "equal", "hamevo", "obsconv", "newcirc", "save", "flatten"]
LITTLE_OK = True
CFG = [{}, {}, {}, {"use_single_qubit_composition": True}, {"loop_expectation": True}, {"loop_expectation": True}, {"use_sparse_observable": True}]


def gen(rng: random.Random, i: int, tier: str) -> dict:
    if i % 60 == 7:
        return {"known": rng.choice(["noise", "readout", "samename"]), "seed": rng.randrange(1 << 30)}
    spec = G.gen_circuit(rng, prefix="c", depth=rng.randint(1, 6), hamevo=rng.random() < 0.5, u=rng.choice([0.0, 0.0, 0.2]))
    pobs = rng.choice([0.0, 0.0, 0.3])
    obs = [G.parametrise_obs(rng, G.gen_obs(rng, spec["n"]), spec, "c", pobs) for _ in range(rng.choice([1, 1, 2]))]
    diff = rng.choice(["ad", "ad", "gpsr", "adjoint"])
    if diff == "adjoint" and any(o[0] in ("HamEvo", "CSWAP", "SWAP") or (o[0] not in ("RX", "RY", "RZ") and o[2] is not None) for o in spec["ops"]):
        diff = "ad"
    if any(o[0] == "U" for o in spec["ops"]) or any(isinstance(t[0], list) for o in obs for t in o):
        diff = "ad"
    if diff == "adjoint":
        obs = obs[:1]
    names = sorted(spec["v"])
    ops, prev = [], []
    for _ in range(rng.randint(3, 9 if tier == "quick" else 16)):
        r = rng.random()
        m = rng.randrange(3)
        vals = G.gen_values(rng, spec)
        if prev and rng.random() < 0.5:         # nearly the values of an earlier call
            vals = copy.deepcopy(rng.choice(prev))
            how = rng.choice(["same", "last", "longer", "shorter", "one"])
            for k in sorted(vals):
                if how == "last":
                    vals[k] = vals[k][:-1] + [round(vals[k][-1] + 0.4, 3)]
                elif how == "longer":
                    vals[k] = vals[k] + [round(vals[k][-1] - 0.7, 3)]
                elif how == "shorter":
                    vals[k] = vals[k][:1]
                elif how == "one" and k == sorted(vals)[0]:
                    vals[k] = [round(x + 0.9, 3) for x in vals[k]]
        prev.append(vals)
        e = {"m": m, "extra": rng.random() < 0.1, "vals": vals, "state": rng.randrange(1 << 20) if rng.random() < 0.2 else None, "little": rng.random() < 0.15}
        if r < 0.45:
            ops.append({"op": rng.choice(EVAL), **e})
        elif r < 0.6:
            ops.append({"op": "fail", "what": rng.choice(["missing", "batch", "state", "draw", "type", "line", "line", "line"]), "call": rng.choice(["run", "exp", "sample", "grad"]),
                        "n": rng.choice([1, 3, 10, 30, 100, 300, 900, 2500]), **e})
        elif r < 0.72:
            ops.append({"op": "set", "m": m, "to": {k: rng.randint(-180, 180) / 64 for k in names}, "back": rng.random() < 0.5, "how": rng.choice(["reset", "tensor", "copy", "load", "restore"])})
        elif r < 0.75:
            ops.append({"op": "snapshot", "m": m})
        elif r < 0.8:
            ops.append({"op": "model", "how": rng.choice(["same", "deepcopy", "pickle", "dict", "qnn"]), "m": m})
        else:
            ops.append({"op": "conv", "what": rng.choice(CONV), "line": rng.choice([None, None, None, 5, 50, 400]), **e})
    cfg = rng.choice(CFG) if diff == "ad" else {}
    return {"spec": spec, "obs": obs, "diff": diff, "ops": ops, "seed": rng.randrange(1 << 30), "cfg": cfg}


# ------------------------------------------------------------------------------------------------- reference
def ref_states(spec, v, vals, init=None):
    return [G.state_of(spec, v, dict(spec["f"], **G.element(vals, b)), init) for b in range(G.batch_of(vals))]


def ref_exp(spec, obs, v, vals, init=None):
    out = []
    for b, s in enumerate(ref_states(spec, v, vals, init)):
        out.append([float(np.real(s.conj() @ G.obs_matrix(o, spec["n"], v, dict(spec["f"], **G.element(vals, b))) @ s)) for o in obs])
    return np.array(out)


def flip(vec, n):
    idx = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2 ** n)]
    return vec[idx]


class LineFault:
    """Raises KeyboardInterrupt at the n-th source line executed inside qadence."""

    def __init__(self, n, root):
        self.n, self.root, self.k, self.fired, self.where = n, root, 0, False, None

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.k += 1
            if self.k == self.n:
                self.fired = True
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                raise KeyboardInterrupt("injected")
        return self._local

    def _glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class Model:
    def __init__(self, m, v, kind, born):
        self.m, self.v, self.kind, self.born, self.snap = m, dict(v), kind, born, None


class Run:
    def __init__(self, plan, ctx):
        import qadence as q
        self.plan, self.ctx, self.q = plan, ctx, q
        self.spec, self.obs = plan["spec"], plan["obs"]
        self.n = self.spec["n"]
        self.compared = 0
        self.root = os.path.dirname(q.__file__)

    def bad(self, cls, msg, sig=None):
        raise Violation(cls, f"operation {self.j} {self.op.get('op')}/{self.op.get('what') or self.op.get('how') or ''}: {msg}", sig or cls)

    def build(self):
        q = self.q
        self.circ = G.build_circuit(self.spec)
        self.ob = [G.build_obs(o, self.spec) for o in self.obs]
        self.circ_before, self.obs_before = self.shape(self.circ.block), [self.shape(o) for o in self.ob]
        self.models = [self.new("same")]

    def shape(self, block):
        """Everything a caller can see of a block: structure, expressions, values, noise."""
        from qadence.blocks.utils import uuid_to_expression
        ps = []
        for u, e in uuid_to_expression(block).items():
            ps.append((u, str(e), sorted((str(s), getattr(s, "trainable", None), float(getattr(s, "value", 0) or 0)) for s in getattr(e, "free_symbols", []))))
        return repr((str(block), ps, self.tree(block)))

    def tree(self, b):
        return (type(b).__name__, tuple(b.qubit_support), b.tag, str(getattr(b, "noise", None)), [self.tree(c) for c in getattr(b, "blocks", ())] if not isinstance(b, type) else None)

    def new(self, how, base=None):
        q = self.q
        obs = self.ob if len(self.ob) > 1 else self.ob[0]
        if how == "same":
            return Model(q.QuantumModel(self.circ, obs, diff_mode=self.plan["diff"], configuration=self.plan.get("cfg") or None), self.spec["v"], "qm", how)
        if how == "qnn":
            return Model(q.QNN(self.circ, obs, diff_mode=self.plan["diff"], inputs=sorted(self.spec["f"]) or None), self.spec["v"], "qnn", how)
        if how == "deepcopy":
            return Model(copy.deepcopy(base.m), base.v, base.kind, how)
        if how == "pickle":
            return Model(q.QuantumModel(pickle.loads(pickle.dumps(self.circ)), pickle.loads(pickle.dumps(obs)), diff_mode=self.plan["diff"]), self.spec["v"], "qm", how)
        if how == "dict":
            return Model(type(base.m)._from_dict(base.m._to_dict(save_params=True), as_torch=True), base.v, base.kind, how)

    def state(self, seed):
        import torch
        if seed is None:
            return None, None
        r = np.random.RandomState(seed)
        s = r.randn(2 ** self.n) + 1j * r.randn(2 ** self.n)
        s /= np.linalg.norm(s)
        return torch.tensor(s, dtype=torch.complex128).reshape(1, -1), s

    # --- evaluations
    def same(self, got, want, what, tol=1e-6):
        got = np.asarray(got)
        if got.shape != want.shape:
            self.bad("shape", f"{what} has shape {got.shape} instead of {want.shape}")
        if not np.allclose(got, want, atol=tol, rtol=1e-5):
            k = int(np.argmax(np.abs(got - want).reshape(-1)))
            self.bad("result", f"{what} is {got.reshape(-1)[k]} instead of {want.reshape(-1)[k]} for parameters {self.cur.v} and values {self.op.get('vals')}", f"result:{what}")
        self.compared += 1
        self.ctx.ev("ok", what, self.j, round(float(np.real(got.reshape(-1)[0])), 5) + 0.0)

    def call(self, mo, what, op, check=True):
        import torch
        q = self.q
        self.cur = mo
        t = G.tvalues(op["vals"], grad=what == "grad")
        if op.get("extra") and t and mo.kind == "qm" and what not in ("grad", "tomo"):
            t["unused"] = torch.full((G.batch_of(op["vals"]),), 0.25, dtype=torch.float64)
        keep = {k: x.detach().clone() for k, x in t.items()}
        st, init = self.state(op.get("state"))
        stk = None if st is None else st.clone()
        kw = {} if st is None else {"state": st}
        m, spec = mo.m, self.spec
        res = None
        try:
            if what == "run":
                little = op.get("little")
                r = m.run(t, endianness=q.Endianness.LITTLE if little and st is None else q.Endianness.BIG, **kw) if mo.kind == "qm" else m.run(t, **kw)
                little = little and st is None and mo.kind == "qm"
                if check:
                    want = np.array([flip(s, self.n) if little else s for s in ref_states(spec, mo.v, op["vals"], init)])
                    self.same(r.detach().numpy(), want, "state")
            elif what in ("exp", "exp2"):
                if what == "exp2" and mo.kind == "qm" and check:
                    o2 = [[1.0, [["X", 0]]]]
                    r = m.expectation(t, observable=m.observable(G.build_obs(o2), self.n), **kw)
                    self.same(r.detach().numpy(), ref_exp(spec, [o2], mo.v, op["vals"], init), "expectation of another observable")
                else:
                    r = m.expectation(t, **kw)
                    if check:
                        self.same(r.detach().numpy(), ref_exp(spec, self.obs, mo.v, op["vals"], init), "expectation")
            elif what == "sample":
                with Draws("quantile", "k"):
                    r = m.sample(t, n_shots=200, **kw)
                if check:
                    sts = ref_states(spec, mo.v, op["vals"], init)
                    if len(r) != len(sts):
                        self.bad("shape", f"{len(r)} counters for {len(sts)} batch elements")
                    for c, s in zip(r, sts):
                        got = np.array([c.get(format(i, f"0{self.n}b"), 0) for i in range(2 ** self.n)], dtype=float)
                        if abs(got.sum() - 200) > 0 or np.max(np.abs(got - 200 * np.abs(s) ** 2)) > 1.6:
                            self.bad("result", f"sampled {dict(c)} from probabilities {np.round(np.abs(s) ** 2, 4).tolist()}", "result:sample")
                    self.compared += 1
            elif what == "tomo":        # an estimate by shots, for this call only
                from qadence.measurements import Measurements
                if mo.kind == "qm" and not any(isinstance(x[0], list) for o in self.obs for x in o) and self.plan["diff"] == "ad":
                    with Draws("quantile", "t"):
                        r = m.expectation(t, measurement=Measurements("tomography", {"n_shots": 400}))
                    if check:
                        self.same(r.detach().numpy(), ref_exp(spec, self.obs, mo.v, op["vals"], None), "estimate", tol=0.5)
            elif what == "grad":
                r = m.expectation(t)
                w = torch.linspace(0.5, 1.5, r.numel(), dtype=torch.float64).reshape(r.shape)
                ps = {k: p for k, p in m._params.items() if p.requires_grad}
                leaves = list(ps.values()) + list(t.values())
                if not leaves or not r.requires_grad:
                    return None
                g = torch.autograd.grad((r * w).sum(), leaves, allow_unused=True)
                if check:
                    self.grads(mo, op, dict(zip(list(ps) + list(t), g)), w.numpy())
        finally:
            for k in t:
                if not torch.equal(t[k].detach(), keep[k]):
                    self.bad("inputs-changed", f"the caller's values of {k} were changed from {keep[k].tolist()} to {t[k].tolist()}")
            if set(t) != set(keep):
                self.bad("inputs-changed", f"the caller's values now have the keys {sorted(t)}")
            if st is not None and not torch.equal(st, stk):
                self.bad("inputs-changed", "the caller's initial state was changed")
        return res

    def grads(self, mo, op, g, w):
        spec, h = self.spec, 1e-5
        sv = set(spec["v"])
        for name in sorted(sv):
            if name not in g:
                self.bad("result", f"no gradient for parameter {name}", "result:grad")
            f = lambda d: float((ref_exp(spec, self.obs, dict(mo.v, **{name: mo.v[name] + d}), op["vals"]) * w).sum())
            want = (f(h) - f(-h)) / (2 * h)
            got = 0.0 if g[name] is None else float(g[name].sum())
            if abs(got - want) > 2e-4 * (1 + abs(want)):
                self.bad("result", f"gradient of {name} is {got} instead of {want}", "result:grad")
        for name in sorted(op["vals"]) if self.plan["diff"] != "adjoint" else ():      # adjoint gradients of batched values are a matter of N04
            if g.get(name) is None:
                continue
            for b in range(len(op["vals"][name])):
                def f(d):
                    x = list(op["vals"][name])
                    x[b] += d
                    return float((ref_exp(spec, self.obs, mo.v, dict(op["vals"], **{name: x})) * w).sum())
                want, got = (f(h) - f(-h)) / (2 * h), float(g[name].reshape(-1)[b])
                if abs(got - want) > 2e-4 * (1 + abs(want)):
                    self.bad("result", f"gradient of the values {name}[{b}] is {got} instead of {want}", "result:grad")
        self.compared += 1

    def check_objects(self):
        if self.shape(self.circ.block) != self.circ_before:
            self.bad("circuit-changed", f"the circuit was changed from {self.circ_before[:300]} to {self.shape(self.circ.block)[:300]}")
        for o, b in zip(self.ob, self.obs_before):
            if self.shape(o) != b:
                self.bad("observable-changed", f"the observable was changed to {self.shape(o)[:300]}")
        for k, mo in enumerate(self.models):
            now = {a: float(p.detach().reshape(-1)[0]) for a, p in mo.m._params.items() if p.requires_grad}
            for a, x in mo.v.items():
                if a in now and abs(now[a] - x) > 1e-6:
                    self.bad("model-changed", f"parameter {a} of model {k} ({mo.born}) is {now[a]} although it was set to {x}")

    # --- operations
    def do(self, op):
        mo = self.models[op.get("m", 0) % len(self.models)]
        o = op["op"]
        self.cur = mo
        if o in ("run", "exp", "exp2", "sample", "grad", "tomo"):
            if o == "grad" and op.get("state") is not None:
                op = dict(op, state=None)
            self.call(mo, o, op)
        elif o == "fail":
            self.fail(mo, op)
        elif o == "set":
            vp = list(mo.m.vparams)
            known = [k for k in vp if k in op["to"]]
            if len(known) != len(vp) or not vp:
                return
            before = dict(mo.v)
            if op.get("how") == "restore" and mo.snap is not None:
                mo.m.load_params_from_dict(mo.snap[0])
                mo.v = dict(mo.snap[1])
                self.call(mo, "exp", {"vals": {k: [0.5] for k in self.spec["f"]}})
                return
            import torch
            if op.get("how") == "copy":         # in place, as optimizers do
                with torch.no_grad():
                    for k in vp:
                        mo.m._params[k].copy_(torch.tensor([op["to"][k]]))
            elif op.get("how") == "load":
                mo.m.load_params_from_dict({"param_dict": {k: torch.tensor([op["to"][k]]) for k in vp}}, strict=False)
            elif op.get("how") == "tensor":     # values held by the caller, who goes on using them
                x = torch.tensor([op["to"][k] for k in vp])
                mo.m.reset_vparams(x)
                x.zero_()
            else:
                mo.m.reset_vparams([op["to"][k] for k in vp])
            mo.v.update({k: op["to"][k] for k in vp})
            if op["back"]:
                vals = {k: [0.5] for k in self.spec["f"]}
                self.call(mo, "exp", {"vals": vals})
                with torch.no_grad():
                    for k in vp:
                        mo.m._params[k].data = torch.tensor([before[k]], dtype=torch.float64)
                mo.v = before
        elif o == "snapshot":
            if not any(x[0] == "HamEvo" for x in self.spec["ops"]):
                mo.snap = (mo.m._to_dict(save_params=True), dict(mo.v))
        elif o == "model":
            if len(self.models) < 4 and not (op["how"] == "dict" and any(o[0] == "HamEvo" for o in self.spec["ops"])):
                self.models.append(self.new(op["how"], mo))
        else:
            self.conv(mo, op)

    def fail(self, mo, op):
        import torch
        w, what = op["what"], op["call"]
        vals = copy.deepcopy(op["vals"])
        f = None
        try:
            if w == "missing":
                if vals:
                    vals.pop(sorted(vals)[0])
                t = G.tvalues(vals)
                self.raw(mo, what, t)
            elif w == "batch":
                t = {k: torch.rand(2 + j, dtype=torch.float64) for j, k in enumerate(sorted(vals))}
                self.raw(mo, what, t)
            elif w == "state":
                self.raw(mo, what, G.tvalues(vals), state=torch.ones(1, 2 ** (self.n + 1), dtype=torch.complex128))
            elif w == "type":
                t = {k: "nonsense" for k in vals}
                self.raw(mo, what, t)
            elif w == "draw":
                with Draws("quantile", "f", fail_at=0):
                    mo.m.sample(G.tvalues(vals), n_shots=10)
            else:
                with Draws("quantile", "f"), LineFault(op["n"], self.root) as f:
                    self.raw(mo, what, G.tvalues(vals))
        except (KeyboardInterrupt, InjectedDrawError) as e:
            self.ctx.fault("interrupt-at-line" if isinstance(e, KeyboardInterrupt) else "draw-failure")
            self.ctx.ev("fault", w, f.where if f else "")
        except Exception as e:
            self.ctx.fault("failing-call:" + w)
            self.ctx.ev("fault", w, type(e).__name__)

    def raw(self, mo, what, t, **kw):
        if what == "run":
            mo.m.run(t, **kw)
        elif what == "sample":
            mo.m.sample(t, n_shots=10, **kw)
        elif what == "exp":
            mo.m.expectation(t, **kw)
        else:
            for x in t.values():
                if hasattr(x, "requires_grad_"):
                    x.requires_grad_(True)
            r = mo.m.expectation(t)
            import torch
            leaves = [p for p in mo.m._params.values() if p.requires_grad]
            if leaves and r.requires_grad:
                torch.autograd.grad(r.sum(), leaves, allow_unused=True)

    def conv(self, mo, op):
        """Conversions and copies: their own result is not judged here, only that the original stays as it was."""
        # conversions that create a parameter of the same name again are not interrupted half way (see the known finding on names)
        f = LineFault(op["line"], self.root) if op["line"] and op["what"] not in ("serialize", "save", "dict", "equal") else None
        try:
            if f:
                with f:
                    self.convert(mo, op)
            else:
                self.convert(mo, op)
        except KeyboardInterrupt:
            self.ctx.fault("interrupt-at-line")
            self.ctx.ev("fault", "conv", f.where if f else "")
        except Violation:
            raise
        except Exception as e:
            self.ctx.ev("conv-failed", op["what"], type(e).__name__)
            self.ctx.probe("conversions refused", 1)

    def convert(self, mo, op):
        import torch
        q, c, w = self.q, self.circ, op["what"]
        t = G.tvalues(op["vals"])
        if w == "dagger":
            d = c.dagger()
            q.run(d, values=t)
        elif w in ("serialize", "save", "dict") and any(o[0] == "HamEvo" for o in self.spec["ops"]):
            pass        # HamEvo has no serialised form
        elif w == "serialize":
            from qadence.serialization import deserialize, serialize
            c2 = deserialize(serialize(c))
            q.QuantumModel(c2).run(t)
        elif w == "tensor":
            from qadence.blocks import block_to_tensor
            block_to_tensor(c.block, {**{k: torch.tensor([v], dtype=torch.float64) for k, v in mo.v.items()}, **t}, tuple(range(self.n)))
            block_to_tensor(self.ob[0], {}, tuple(range(self.n)))
        elif w == "algebra":
            b = self.ob[0]
            x = [2 * b, b + q.X(0), -b, b - q.Z(0), b * 0.5, q.chain(c.block, q.H(0)), q.chain(c.block, c.block), b @ q.X(self.n)]
            y = q.chain(q.X(0), q.Y(0))
            y *= q.Z(0)
            z = q.add(b)
            z += q.X(0)
            zz = q.chain(c.block)
            zz *= q.X(0)
            [str(k) for k in x]
        elif w == "params":
            c.parameters(), c.unique_parameters, c.num_parameters, c.num_unique_parameters
            from qadence.blocks import utils as U
            U.expressions(c.block), U.uuid_to_eigen(c.block), U.parameters(c.block), U.primitive_blocks(c.block)
        elif w == "draw":
            repr(c), str(c), str(mo.m), str(self.ob[0]), c.get_blocks_by_tag("tag0"), mo.m.show_config
        elif w == "assign":
            mo.m.assign_parameters({k: x[:1] for k, x in t.items()})
        elif w == "to":
            mo.m.to("cpu")
        elif w == "dict":
            d = mo.m._to_dict(save_params=True)
            d["dst"] = 1
            c._to_dict()["block"] = None
        elif w == "runfn":
            r = q.run(c, values=t)
            r.zero_()
        elif w == "expfn":
            q.expectation(c, self.ob, values=t)
        elif w == "samplefn":
            with Draws("quantile", "s"):
                q.sample(c, values=t, n_shots=20)
        elif w == "transpile":
            from qadence.transpile import chain_single_qubit_ops, digitalize, flatten, invert_endianness, scale_primitive_blocks_only, transpile
            transpile(lambda b: chain_single_qubit_ops(b), lambda b: scale_primitive_blocks_only(b), flatten)(c.block)
            invert_endianness(c)
            invert_endianness(self.ob[0])
        elif w == "flatten":
            from qadence.transpile import flatten, scale_primitive_blocks_only, set_as_fixed
            flatten(c.block), scale_primitive_blocks_only(2 * self.ob[0], None), flatten(self.ob[0])
        elif w == "equal":
            c == G.build_circuit(self.spec), self.ob[0] == self.ob[-1], q.X(0) in c, hash(c)
            copy.copy(c), copy.deepcopy(c.block)
        elif w == "hamevo":
            q.run(q.chain(q.HamEvo(self.ob[0], 0.3)))
            self.ob[0].dagger(), c.block.dagger()
        elif w == "obsconv":
            o = mo.m.observable(self.ob[0], self.n)
            from qadence.blocks.utils import add, block_is_commuting_hamiltonian, block_is_qubit_hamiltonian
            block_is_commuting_hamiltonian(self.ob[0]), block_is_qubit_hamiltonian(self.ob[0])
        elif w == "newcirc":
            c2 = q.QuantumCircuit(self.n, c.block, q.X(0))
            m2 = q.QuantumModel(c2, self.ob[0])
            m2.reset_vparams([0.25] * m2.num_vparams)
            m2.expectation(t)
        elif w == "save":
            p = os.path.join(self.ctx.scratch, "m.pt")
            torch.save(mo.m._to_dict(save_params=True), p)
            mo.m.load_params_from_dict(torch.load(p, weights_only=False))
        return None


def known_noise(plan, ctx):
    import qadence as q
    import torch
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    ob = q.Z(0)
    c = q.QuantumCircuit(1, q.chain(q.X(0)))
    m = q.QuantumModel(c, ob)
    a = float(m.expectation({}).real)
    noise = NoiseHandler(NoiseProtocol.DIGITAL.DEPOLARIZING, {"error_probability": 0.3})
    m.sample({}, n_shots=10, noise=noise)
    b = float(m.expectation({}).real)
    ctx.nontrivial = True
    if abs(a - b) > 1e-6:
        raise Violation("noise-stays", f"expectation {a} became {b} after one sample call with digital noise", "noise-stays-in-circuit")


def known_readout(plan, ctx):
    import qadence as q
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    m = q.QuantumModel(q.QuantumCircuit(1, q.chain(q.X(0))), q.Z(0))
    noise = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": 0.3, "seed": 0})
    a = m.sample({}, n_shots=500)
    m.sample({}, n_shots=500, noise=noise)
    b = m.sample({}, n_shots=500)
    ctx.nontrivial = True
    if a != b:
        raise Violation("readout-stays", f"samples {dict(a[0])} became {dict(b[0])} after one sample call with readout noise", "readout-noise-stays-in-circuit")


def known_samename(plan, ctx):
    import qadence as q
    from qadence.parameters import VariationalParameter
    a = VariationalParameter("kfdup", value=0.5)
    c = q.QuantumCircuit(1, q.chain(q.RX(0, a)))
    VariationalParameter("kfdup", value=2.5)
    m = q.QuantumModel(c, q.Z(0))
    got = float(m.expectation({}))
    ctx.nontrivial = True
    if abs(got - math.cos(0.5)) > 1e-6:
        raise Violation("same-name", f"creating another parameter named kfdup changed the expectation of an existing circuit from {math.cos(0.5)} to {got}", "same-name-parameters-share-value")


def execute(plan, ctx):
    if "known" in plan:
        ctx.ev(plan["known"])
        return {"noise": known_noise, "readout": known_readout, "samename": known_samename}[plan["known"]](plan, ctx)
    import torch
    torch.manual_seed(plan["seed"])
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % (1 << 32))
    r = Run(plan, ctx)
    r.j, r.op = -1, {"op": "build"}
    r.build()
    for j, op in enumerate(plan["ops"]):
        r.j, r.op = j, op
        try:
            r.do(op)
            r.check_objects()
        except Violation:
            raise
        except Exception as e:
            import traceback
            raise Violation("raised", f"operation {j} {op['op']}/{op.get('how')}: {type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}", f"raised:{op['op']}:{type(e).__name__}")
        ctx.state_keys.append(f"{op['op']}|{op.get('what') or op.get('how')}|{len(r.models)}|{plan['diff']}")
    # at the end every model still gives what its parameters say
    for k, mo in enumerate(r.models):
        r.j, r.op = f"end/{k}", {"op": "exp", "vals": {f: [0.3, -0.7] for f in plan["spec"]["f"]}}
        r.call(mo, "exp", r.op)
    r.check_objects()
    ctx.steps = len(plan["ops"])
    ctx.nontrivial = r.compared >= 4
    ctx.probe("results compared with the reference", r.compared)


def warm():
    import qadence as q
    import torch
    from qadence.parameters import FeatureParameter, VariationalParameter
    for d in ("ad", "gpsr", "adjoint"):
        c = q.QuantumCircuit(2, q.chain(q.RX(0, VariationalParameter("warm_v", value=0.3)), q.RY(1, FeatureParameter("warm_x")), q.CNOT(0, 1)))
        m = q.QuantumModel(c, q.Z(0), diff_mode=d)
        m.expectation({"warm_x": torch.rand(2, dtype=torch.float64, requires_grad=True)}).sum().backward()
    m.run({"warm_x": torch.rand(2, dtype=torch.float64)})
    m.sample({"warm_x": torch.rand(2, dtype=torch.float64)}, n_shots=5)
