"""C15 saved objects survive crashes whole and load back equivalent."""
from __future__ import annotations

import json
import os
import random

from .. import programs as G
from ..phases import phase, sut
from ..runner import Violation
from ..seams import S, SimFS

PROP = "C15"
BOOT = ("qadence", "qadence.ml_tools")
QUICK, THOROUGH = 280, 10000
LEVEL = "fault_enumeration"
METHOD = ("histories of saves and loads in separate simulated processes on one folder, with kills and storage errors placed by the seed on file-system effects, "
          "truncated files and read errors; every load is compared with an independent dense-matrix reference of what may be in the file")
RULE = ("one run = 1-5 operations on 1-2 files (save of a random block, circuit, register, model or QNN in either format by either API; load; damage), each "
        "operation in its own process; a fault-free dry run counts the effects on which a kill or error is placed; non-trivial = a save was interrupted or a file "
        "overwritten or damaged")
REAL = ["qadence.save/load, QuantumModel.save/load, serialization of blocks, parameters, registers, models", "torch.save/load, json", "pyqtorch execution of what was loaded"]
STUB = ["nothing; real files below a scratch folder, effects numbered at the library boundary"]
ASSUME = ["a crash is the death of the process; what was written before it stays", "operations without serialisation support (HamEvo, analog blocks) are not generated",
          "damaged = truncated"]
LISTS = ["ops"]
LIST_MIN = {"ops": 1}
SIMPLE = {}


def refine(rng, spec):
    """Values and constants with all the digits of a double."""
    def walk(x):
        if isinstance(x, list):
            return [walk(y) for y in x]
        return x + rng.uniform(-5e-4, 5e-4) if type(x) is float else x
    for k in "vf":
        spec[k] = {nm: v + rng.uniform(-5e-5, 5e-5) for nm, v in spec[k].items()}
    spec["ops"] = walk(spec["ops"])


def gen_obj(rng, k):
    kind = rng.choice(["block", "block", "circuit", "circuit", "register", "qm", "qm", "qm", "qnn"])
    if kind == "register":
        topo = rng.choice(["line", "circle", "square", "triangular_lattice", "all_to_all", "coords", "graph"])
        o = {"kind": kind, "topo": topo, "n": rng.randint(1, 4), "spacing": rng.choice([1.0, 2.5, 8.0]), "dev": rng.choice(["def", "real", "xy"])}
        if topo == "coords":
            o["coords"] = [[round(rng.uniform(-5, 5), 3), round(rng.uniform(-5, 5), 3)] for _ in range(o["n"])]
        if topo == "graph":
            o["edges"] = [[a, b] for a in range(o["n"]) for b in range(a) if rng.random() < 0.5]
        return o
    spec = G.gen_circuit(rng, prefix=f"o{k}_", hamevo=False, u=0.08)
    if kind == "qnn":
        while not spec["f"]:
            spec = G.gen_circuit(rng, prefix=f"o{k}_", hamevo=False, u=0.08)
    noobs = kind == "qm" and rng.random() < 0.15
    obs = [G.parametrise_obs(rng, G.gen_obs(rng, spec["n"], paulis="XYZN", ident=True), spec, f"o{k}_", 0.2 if kind in ("qm", "qnn") and not noobs else 0.0, newfeat=True)
           for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.5:
        refine(rng, spec)
    o = {"kind": kind, "spec": spec, "vals": G.gen_values(rng, spec), "tag": rng.choice([None, None, "mytag"]),
         "noise": rng.choice([None, None, None, "gate"]) if kind in ("block", "circuit", "qm") else None, "nq": rng.randrange(16),
         "zero": rng.random() < 0.2}
    if o["noise"]:
        spec["ops"].append(["X", [0], None])
    elif kind in ("block", "circuit") and rng.random() < 0.3:
        spec["gn"] = {str(a): [[rng.choice(["BITFLIP", "PHASEFLIP", "DEPOLARIZING", "AMPLITUDE_DAMPING"]), round(rng.uniform(0.01, 0.4), 3)] for _ in range(rng.choice([1, 1, 2]))]
                      for a in range(len(spec["ops"])) if rng.random() < 0.6}
    if kind == "circuit" and rng.random() < 0.5:
        o["reg"] = {"topo": rng.choice(["line", "circle", "all_to_all"]), "spacing": rng.choice([1.0, 2.5, 8.0]), "dev": rng.choice(["def", "real", "xy"])}
    if kind in ("qm", "qnn"):
        o["obs"] = obs
        if noobs:
            o["obs"] = None
        o["diff"] = rng.choice(["ad", "ad", "gpsr"])
        if o["noise"]:
            o["diff"] = "ad"
        o["cfg"] = rng.choice([None, None, {"use_sparse_observable": True}, {"shift_prefac": 0.25}]) if o["diff"] != "gpsr" else None
        o["meas"] = rng.choice([None, None, None, {"protocol": "tomography", "options": {"n_shots": 17}}, {"protocol": "shadow", "options": {"accuracy": 0.1, "confidence": 0.2}}]) if o["diff"] == "ad" else None
        o["mnoise"] = rng.choice([None, None, None, "readout"]) if o["diff"] == "ad" and kind == "qm" else None
        o["mit"] = o["mnoise"] and rng.random() < 0.5
        o["train"] = {nm: round(rng.uniform(-3, 3), 4) for nm in sorted(spec["v"])} if rng.random() < 0.7 else None
        o["fix"] = [nm for nm in sorted(spec["v"]) if rng.random() < 0.3] if kind == "qm" and rng.random() < 0.3 else []
        if len(o["fix"]) == len(spec["v"]):
            o["fix"] = []
        if kind == "qnn":
            ins = sorted(spec["f"])
            rng.shuffle(ins)
            o["inputs"] = ins
    return o


def gen(rng: random.Random, i: int, tier: str) -> dict:
    ops = []
    nfiles = rng.choice([1, 1, 2])
    k = 0
    for _ in range(rng.randint(1, 4 if tier == "quick" else 6)):
        r = rng.random()
        f = rng.randrange(nfiles)
        if r < 0.75 or not ops:
            o = gen_obj(rng, k)
            k += 1
            api = rng.choice(["save", "save", "model"]) if o["kind"] in ("qm", "qnn") else "save"
            fault = None
            if rng.random() < 0.55:
                fault = {"kind": rng.choice(["kill", "kill", "enospc", "eio"]), "u": rng.random(), "frac": rng.choice([0.0, 0.3, 0.8, 1.0]),
                         "len": rng.choice([1, 1, 2, 9]), "exc": rng.choice(["os", "rt"])}
            ops.append({"op": "save", "file": f, "obj": o, "fmt": rng.choice(["JSON", "PT"]) if api == "save" else "PT", "api": api,
                        "params": rng.random() < 0.8, "fault": fault, "same": rng.random() < 0.2})
        elif r < 0.85:
            ops.append({"op": "damage", "file": f, "u": rng.random()})
        else:
            ops.append({"op": "load", "file": f, "fault": {"kind": "read_eio", "at": 0, "len": 1} if rng.random() < 0.5 else None})
    return {"ops": ops, "dirseed": rng.randrange(1 << 20), "cwd": rng.random() < 0.3, "strpath": rng.random() < 0.5}


# --------------------------------------------------------------------------------------- building and judging objects
def noise_handler(o):
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    return NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": 0.15})


def build(o):
    import networkx as nx
    import qadence as q
    from qadence.register import Register
    kind = o["kind"]
    if kind == "register":
        from qadence.analog import IdealDevice, RealisticDevice
        from qadence.analog.device import RydbergDevice
        from qadence.types import Interaction
        dev = {"def": IdealDevice, "real": RealisticDevice, "xy": lambda: RydbergDevice(interaction=Interaction.XY, rydberg_level=70)}[o["dev"]]()
        t = o["topo"]
        if t == "coords":
            return Register.from_coordinates([tuple(c) for c in o["coords"]], spacing=o["spacing"], device_specs=dev)
        if t == "graph":
            g = nx.Graph()
            g.add_nodes_from(range(o["n"]))
            g.add_edges_from([tuple(e) for e in o["edges"]])
            return Register(g, spacing=o["spacing"], device_specs=dev)
        if t == "square":
            return Register.square(max(2, min(o["n"], 3)), spacing=o["spacing"], device_specs=dev)
        if t == "triangular_lattice":
            return Register.triangular_lattice(1, 2, spacing=o["spacing"], device_specs=dev)
        n = max(o["n"], 2) if t == "circle" else o["n"]
        return getattr(Register, t)(n, spacing=o["spacing"], device_specs=dev)
    spec = o["spec"]
    block = G.build_block(spec)
    if o["noise"]:
        last = q.X(0, noise=noise_handler(o))
        sp = dict(spec, ops=spec["ops"][:-1])
        block = q.chain(*([G.build_block(sp)] if sp["ops"] else []), last)
    if o["tag"]:
        q.tag(block, o["tag"])
    if kind == "block":
        return block
    circ = q.QuantumCircuit(build({"kind": "register", "n": spec["n"], **o["reg"]}) if o.get("reg") and (spec["n"] > 1 or o["reg"]["topo"] == "line") else spec["n"], block)
    if kind == "circuit":
        return circ
    return build_model(o, circ)


def build_model(o, circ):
    import qadence as q
    import torch
    from qadence.measurements import Measurements
    from qadence.mitigations import Mitigations
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    kw = {"diff_mode": o["diff"], "configuration": o["cfg"],
          "measurement": Measurements(o["meas"]["protocol"], options=dict(o["meas"]["options"])) if o["meas"] else None}
    obs = [G.build_obs(x, o["spec"]) for x in o["obs"]] if o["obs"] else None
    if o["kind"] == "qnn":
        from qadence.ml_tools.models import QNN
        m = QNN(circ, obs, inputs=o["inputs"], **kw)
    else:
        if o["mnoise"]:
            kw["noise"] = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": 0.07})
        if o["mit"]:
            kw["mitigation"] = Mitigations(Mitigations.READOUT, {"optimization_type": "mle"})
        m = q.QuantumModel(circ, obs, **kw)
    if o["train"]:
        with torch.no_grad():
            for nm, v in o["train"].items():
                m._params[nm].copy_(torch.tensor([v], dtype=m._params[nm].dtype))
    for nm in o["fix"]:
        m._params[nm].requires_grad_(False)
    return m


def reg_view(r):
    return {"n": r.n_qubits, "pos": sorted((int(k), *[round(float(x), 9) for x in v]) for k, v in r.coords.items()),
            "edges": sorted(tuple(sorted((int(a), int(b)))) for a, b in r.edges), "dev": json.loads(json.dumps(r.device_specs._to_dict(), default=str))}


def values_differ(spec, block):
    from qadence.blocks.utils import parameters
    for p in parameters(block):
        nm = getattr(p, "name", None)
        for k, tr in (("v", True), ("f", False)):
            if nm in spec[k] and (abs(float(p.value) - spec[k][nm]) > 1e-9 or bool(p.trainable) != tr):
                return f"parameter {nm}={spec[k][nm]!r} came back as {p.value!r}, trainable={p.trainable}"
    return None


def structure(b):
    """What a user can see of a block: types, qubits, tags, noise, expressions."""
    from qadence.blocks.primitive import ParametricBlock
    nh = getattr(b, "noise", None)
    return [type(b).__name__, [int(x) for x in b.qubit_support], b.tag, [[str(p), sorted((k, float(v)) for k, v in o.items())] for p, o in zip(nh.protocol, nh.options)] if nh else None,
            sorted(str(e) for e in b.parameters.expressions()) if isinstance(b, ParametricBlock) else None,
            [structure(c) for c in (getattr(b, "blocks", None) or ([b.block] if hasattr(b, "block") else []))]]


def first_difference(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}/{i}")
    return f"{path}: {a} came back as {b}"[:300]


def judge(o, got, trained):
    """None if the loaded object is equivalent to the specified one, else what differs."""
    bad = judge_meaning(o, got, trained)
    if bad is None and o["kind"] in ("block", "circuit"):
        s = structure(got if o["kind"] == "block" else got.block)
        r = None if o["kind"] == "block" else reg_view(got.register)
        want = build(o)         # last: parameters of one name share their value
        ws = structure(want if o["kind"] == "block" else want.block)
        if s != ws:
            return "structure " + first_difference(ws, s)
        if r is not None and r != reg_view(want.register):
            return f"register {reg_view(want.register)} came back as {r}"
    return bad


def judge_meaning(o, got, trained):
    """None if the loaded object is equivalent to the specified one, else what differs. `trained`: the stored parameter values are due."""
    import numpy as np
    import torch
    import qadence as q
    from qadence.blocks import AbstractBlock
    from qadence.ml_tools.models import QNN
    from qadence.register import Register
    kind = o["kind"]
    cls = {"register": Register, "block": AbstractBlock, "circuit": q.QuantumCircuit, "qm": q.QuantumModel, "qnn": QNN}[kind]
    if not isinstance(got, cls) or (kind == "qm" and isinstance(got, QNN)):
        return f"a {kind} came back as {type(got).__name__}"
    if kind == "register":
        a, b = reg_view(build(o)), reg_view(got)
        return None if a == b else f"register {a} came back as {b}"
    spec = o["spec"]
    vvals = dict(spec["v"])
    if kind in ("qm", "qnn") and trained and o["train"]:
        vvals.update(o["train"])
    params = None
    if kind == "block":
        if (got.tag or None) != o["tag"]:
            return f"tag {o['tag']} came back as {got.tag}"
        bad = values_differ(spec, got)
        if bad:
            return bad
        m = q.QuantumModel(q.QuantumCircuit(spec["n"], got))
    elif kind == "circuit":
        if got.n_qubits != spec["n"] or (got.block.tag or None) != o["tag"]:
            return f"circuit on {spec['n']} qubits with tag {o['tag']} came back with {got.n_qubits} qubits and tag {got.block.tag}"
        bad = values_differ(spec, got.block)
        if bad:
            return bad
        m = q.QuantumModel(got)
    else:
        m = got
        if str(m._backend_name) != "pyqtorch" or str(m._diff_mode) != o["diff"]:
            return f"backend/diff_mode came back as {m._backend_name}/{m._diff_mode}"
        if m.out_features != (len(o["obs"]) if o["obs"] else 0):
            return f"{m.out_features} outputs"
        me = (m._measurement.protocol, dict(m._measurement.options)) if m._measurement else None
        if me != ((o["meas"]["protocol"], o["meas"]["options"]) if o["meas"] else None):
            return f"measurement {o['meas']} came back as {me}"
        if (m._noise is not None) != bool(o["mnoise"]) or (o["mnoise"] and (m._noise.options != [{"error_probability": 0.07}] or len(m._noise.protocol) != 1)):
            return f"noise came back as {m._noise}"
        if (m._mitigation is not None) != bool(o["mit"]) or (o["mit"] and dict(m._mitigation.options) != {"optimization_type": "mle"}):
            return "mitigation differs"
        for kk, vv in (o["cfg"] or {}).items():
            if getattr(m.backend.backend.config, kk) != vv:
                return f"configuration {kk}={vv} came back as {getattr(m.backend.backend.config, kk)}"
        if kind == "qnn" and [str(x) for x in m.inputs] != o["inputs"]:
            return f"inputs {o['inputs']} came back as {[str(x) for x in m.inputs]}"
        tr = {k for k, p in m._params.items() if p.requires_grad}
        want = set(spec["v"]) - (set(o["fix"]) if trained else set())
        used = {k for k in want if k in m._params}
        if tr != used:
            return f"trainable parameters {sorted(used)} came back as {sorted(tr)}"
    for nm in vvals:
        if nm in m._params and abs(float(m._params[nm]) - vvals[nm]) > 1e-6:
            return f"parameter {nm}={vvals[nm]} came back as {float(m._params[nm])}"
    if spec.get("gn"):
        return None         # noise of single gates is compared by structure
    t = G.tvalues(o["vals"])
    with torch.no_grad():
        if o["noise"]:
            obs = [q.Z(j) for j in range(spec["n"])]
            ex = q.QuantumModel(m._circuit.original, obs).expectation(t).numpy() if kind != "qm" else None
            if kind == "qm":
                mm = q.QuantumModel(m._circuit.abstract, obs)
                mm._params = m._params
                ex = mm.expectation(t).numpy()
            for b in range(G.batch_of(o["vals"])):
                f = G.element(o["vals"], b)
                sp = dict(spec, ops=spec["ops"][:-1])
                v = G.state_of(sp, v=vvals, f={**spec["f"], **f})
                v = G._embed(G._P["X"], [0], spec["n"]) @ v
                for j in range(spec["n"]):
                    e = (v.conj() @ G._embed(G._P["Z"], [j], spec["n"]) @ v).real
                    if j == 0:
                        e *= 1 - 2 * 0.15
                    if abs(e - ex[min(b, len(ex) - 1), j]) > 1e-6:
                        return f"noisy expectation of Z({j}) is {ex[min(b, len(ex)-1), j]:.6f} instead of {e:.6f}"
            return None
        wf = (q.QuantumModel.run(m, t) if kind == "qnn" else m.run(t)).numpy()
        ex = None
        if kind in ("qm", "qnn") and o["obs"]:
            meas, noise, mit = m._measurement, m._noise, m._mitigation
            m._measurement = m._noise = m._mitigation = None
            ex = q.QuantumModel.expectation(m, t).numpy()
            m._measurement, m._noise, m._mitigation = meas, noise, mit
    for b in range(G.batch_of(o["vals"])):
        f = G.element(o["vals"], b)
        v = G.state_of(spec, v=vvals, f={**spec["f"], **f})
        d = abs(v - wf[min(b, len(wf) - 1)]).max()
        if d > 1e-6:
            return f"the state differs by {d:.3g}"
        if ex is not None:
            for j, ob in enumerate(o["obs"]):
                e = (v.conj() @ G.obs_matrix(ob, spec["n"], vvals, {**spec["f"], **f}) @ v).real
                if abs(e - ex[min(b, len(ex) - 1), j]) > 1e-6:
                    return f"expectation {j} is {ex[min(b, len(ex)-1), j]:.6f} instead of {e:.6f}"
    return None


# ------------------------------------------------------------------------------------------------------ the run
def path_of(folder, plan, op):
    p = os.path.join(folder, f"obj{op['file']}.{op['fmt'].lower()}")
    return p


def do_save(op, folder, plan, seed, em, faults=(), root=None):
    import qadence as q
    from pathlib import Path
    from qadence.types import SerializationFormat
    obj = build(op["obj"])
    fs = S.fs = SimFS(root or folder, list(faults), seed=seed)
    fs.on_fault = lambda f, o_, rel: em("fault", f["kind"], o_)
    fold = folder if plan["strpath"] else Path(folder)
    if plan["cwd"]:
        os.chdir(folder)
        fold = "." if plan["strpath"] else Path(".")
    if op["api"] == "save":
        sut(q.save, obj, fold, f"obj{op['file']}", SerializationFormat[op["fmt"]])
    else:
        sut(obj.save, fold, f"obj{op['file']}.pt", op["params"])
    fs, S.fs = S.fs, None
    em("saved")
    if op["same"]:     # the saving process itself looks at its object again, and loads the file
        em("self", judge(op["obj"], obj, True))
    return {"steps": fs.step, "fired": fs.fired}


def loaded(op, folder, plan, em, cands, faults=()):
    """cands: list of save operations whose content may be in the file. Emits the indices that match."""
    import qadence as q
    from pathlib import Path
    p = path_of(folder, plan, op)
    S.fs = SimFS(folder, list(faults), seed=plan["dirseed"])
    out = []
    for how in ("load", "model"):
        if how == "model" and (op["fmt"] != "PT" or not cands or any(c["obj"]["kind"] not in ("qm", "qnn") for c in cands)):
            continue
        for as_torch in ((False, True) if how == "model" else (None,)):
            if as_torch and any(not (c["api"] == "save" or c["params"]) for c in cands):
                continue
            try:
                if how == "load":
                    got = q.load(p if plan["strpath"] else Path(p))
                else:
                    from qadence.ml_tools.models import QNN
                    kinds = {c["obj"]["kind"] for c in cands}
                    if len(kinds) > 1:
                        continue
                    got = (QNN if kinds == {"qnn"} else q.QuantumModel).load(p if plan["strpath"] else Path(p), as_torch=as_torch)
            except Exception as e:
                out.append((how, as_torch, "error", f"{type(e).__name__}: {str(e)[:160]}"))
                continue
            res = []
            for c in cands:
                stored = op["fmt"] == "PT" and (c["api"] == "save" or c["params"])
                trained = stored and (as_torch if how == "model" else True)
                try:
                    r = judge(c["obj"], got, trained)
                except Exception as e:
                    r = f"unusable: {type(e).__name__}: {str(e)[:160]}"
                    if os.environ.get("DST_TB"):
                        import traceback
                        traceback.print_exc()
                res.append(r)
            out.append((how, as_torch, "value", res))
    fs, S.fs = S.fs, None
    return {"out": out, "fired": fs.fired}


def execute(plan, ctx):
    folder = os.path.join(ctx.scratch, "d")
    os.makedirs(folder)
    files: dict = {}       # path -> {"cands": [...saves], "absent": bool possible, "damaged": bool}
    for k, op in enumerate(plan["ops"]):
        if op["op"] == "save":
            p = path_of(folder, plan, op)
            st = files.setdefault(p, {"cands": [], "absent": True, "damaged": False, "op": op})
            faults = []
            if op["fault"]:
                dry = os.path.join(ctx.scratch, f"dry{k}")
                os.makedirs(dry)
                r = phase(lambda em: do_save(dict(op, same=False), dry, plan, k, em))
                if r.error:
                    raise Violation("save-failed", f"operation {k}: saving raised {r.error[0]}: {r.error[1]}")
                faults = [dict(op["fault"], at=int(op["fault"]["u"] * r.result["steps"]))]
            r = phase(lambda em: do_save(op, folder, plan, k, em, faults))
            fired = [e[1] for e in r.events if e[0] == "fault"]
            for e in fired:
                ctx.fault(e)
            complete = any(e[0] == "saved" for e in r.events) and not fired
            if st["cands"] or fired:
                ctx.nontrivial = True
            ctx.ev("save", k, op["obj"]["kind"], op["fmt"], op["api"], fired[:1], r.killed, r.error[0] if r.error else None)
            if r.error and not fired:
                raise Violation("save-failed", f"operation {k}: saving raised {r.error[0]}: {r.error[1]}")
            for e in r.events:
                if e[0] == "self" and e[1]:
                    raise Violation("original-changed", f"operation {k}: after saving, the saved object itself is different: {e[1]}")
            if complete:
                st.update(cands=[op], absent=False, damaged=False)
            else:
                st["cands"] = st["cands"] + [op]
            ctx.state_keys.append(f"{op['obj']['kind']}|{op['fmt']}|{op['api']}|{fired[:1]}|{len(st['cands'])}|{st['absent']}")
        elif op["op"] == "damage":
            for p, st in files.items():
                if st["op"]["file"] == op["file"] and os.path.exists(p):
                    size = os.path.getsize(p)
                    with open(p, "r+b") as f:
                        f.truncate(int(op["u"] * (size - 1)))
                    st.update(damaged=True, cands=[])
                    ctx.fault("truncated")
                    ctx.nontrivial = True
                    ctx.ev("damage", k)
        # look at every file after every operation, in a new process
        for p, st in files.items():
            lf = [op["fault"]] if op["op"] == "load" and op["fault"] and st["op"]["file"] == op["file"] else []
            r = phase(lambda em: loaded(st["op"], folder, plan, em, st["cands"], lf))
            if r.error or r.result is None:
                raise RuntimeError(f"load phase failed {r.error}")
            rf = sum(r.result["fired"].values())
            if rf:
                ctx.fault("read_eio", rf)
            for how, as_torch, what, res in r.result["out"]:
                ctx.steps += 1
                where = f"after operation {k} ({op['op']}), {os.path.basename(p)} by {'qadence.load' if how == 'load' else f'QuantumModel.load(as_torch={as_torch})'}"
                if st["damaged"] and (what == "error" or not res):      # (a save interrupted after its last effect replaces the damaged file)
                    if what == "value":
                        raise Violation("damaged-accepted", f"{where}: a truncated file was loaded without an error")
                    continue
                if what == "error":
                    ctx.ev("load", k, how, as_torch, "error")
                    if rf or (st["absent"] and not os.path.exists(p)):
                        continue
                    raise Violation("load-failed", f"{where} failed with {res}; {len(st['cands'])} saves possible")
                ok = [j for j, x in enumerate(res) if x is None]
                ctx.ev("load", k, how, as_torch, ok)
                if not ok:
                    raise Violation("not-equivalent", f"{where}: {res[-1]}")
                if len(st["cands"]) > 1:
                    ctx.probe("after_interrupted_save_old" if 0 in ok else "after_interrupted_save_new")


def warm():
    import qadence as q
    from ..props import c15  # noqa: F401
    q.load  # noqa: B018
