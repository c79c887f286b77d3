"""Random quantum programs as JSON specs (so that plans can be minimised and replayed), their construction with the public
qadence API, and an independent dense-matrix reference."""
from __future__ import annotations

import math
import random
from typing import Any

import numpy as np
import torch

ONE = ["X", "Y", "Z", "H", "S", "T", "SDagger"]
ROT = ["RX", "RY", "RZ", "PHASE"]
TWO = ["CNOT", "CZ", "SWAP"]
MCROT = ["MCRX", "MCRY", "MCRZ", "MCPHASE"]
CROT = ["CRX", "CRY", "CRZ", "CPHASE"]


# ------------------------------------------------------------------------------------------------ generation
def gen_param(rng: random.Random, names: dict, prefix: str, feat: bool = True, expr: bool = True) -> Any:
    r = rng.random()
    if r < 0.25:
        return round(rng.uniform(-3, 3), 3)
    if r < 0.7 or not feat:
        k = rng.randrange(3)
        nm = f"{prefix}v{k}"
        names.setdefault("v", {}).setdefault(nm, round(rng.uniform(0.05, 3), 4))
        p: Any = ["v", nm]
    else:
        k = rng.randrange(2)
        nm = f"{prefix}f{k}"
        names.setdefault("f", {}).setdefault(nm, round(rng.uniform(0.05, 3), 4))
        p = ["f", nm]
    if expr and rng.random() < 0.35:
        c = rng.choice(["mul", "add", "sin", "prod"])
        if c == "mul":
            return ["mul", rng.choice([2.0, 0.5, -1.0, 3.0]), p]
        if c == "add":
            return ["add", p, round(rng.uniform(-1, 1), 2)]
        if c == "sin":
            return ["sin", p]
        nm2 = f"{prefix}v{rng.randrange(3)}"
        names.setdefault("v", {}).setdefault(nm2, round(rng.uniform(0.05, 3), 4))
        return ["prod", p, ["v", nm2]]
    return p


def gen_circuit(rng: random.Random, n: int | None = None, depth: int | None = None, prefix: str = "", feat: bool = True, expr: bool = True,
                hamevo: bool = True, nested: bool = True, u: float = 0.0) -> dict:
    n = n or rng.choice([1, 2, 2, 3, 3])
    depth = depth or rng.randint(1, 7)
    names: dict = {"v": {}, "f": {}}
    ops = []
    for _ in range(depth):
        r = rng.random()
        if n == 1 or r < 0.3:
            if rng.random() < 0.5:
                op = [rng.choice(ONE), [rng.randrange(n)], None]
            else:
                op = [rng.choice(ROT), [rng.randrange(n)], gen_param(rng, names, prefix, feat, expr)]
        elif r < 0.55:
            op = [rng.choice(ROT), [rng.randrange(n)], gen_param(rng, names, prefix, feat, expr)]
        elif r < 0.75:
            op = [rng.choice(TWO), rng.sample(range(n), 2), None]
        elif n >= 3 and r < 0.82:
            a, b, c = rng.sample(range(n), 3)
            name = rng.choice(["Toffoli", "MCZ", "CSWAP", "MCRX", "MCRY", "MCRZ", "MCPHASE"])
            op = [name, [a, b, c], gen_param(rng, names, prefix, feat, expr) if name in MCROT else None]
        elif r < 0.9 or not hamevo:
            op = [rng.choice(CROT), rng.sample(range(n), 2), gen_param(rng, names, prefix, feat, expr)]
        else:
            a, b = rng.sample(range(n), 2)
            op = ["HamEvo", [a, b], gen_param(rng, names, prefix, feat, expr)]
        if u and rng.random() < u:
            op = ["U", [rng.randrange(n)], ["u3", *[gen_param(rng, names, prefix, feat, expr) for _ in range(3)]]]
        if rng.random() < 0.1:
            op.append("tag%d" % rng.randrange(3))
        ops.append(op)
    if u:       # an operation may have been replaced
        used: set = set()

        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("v", "f") and isinstance(x[1], str):
                    used.add(x[1])
                for y in x:
                    walk(y)
        walk(ops)
        names = {k: {nm: v for nm, v in d.items() if nm in used} for k, d in names.items()}
    return {"n": n, "ops": ops, "v": names["v"], "f": names["f"], "nest": rng.randrange(3) if nested else 0}


def gen_obs(rng: random.Random, n: int, terms: int | None = None, const: bool = True, ident: bool = True, paulis: str = "XYZ",
            nest: bool = False) -> list:
    """[[coeff, [[pauli, qubit], ...]], ...]; an empty list of factors is a constant."""
    out = []
    for _ in range(terms or rng.randint(1, 4)):
        if const and rng.random() < 0.12:
            out.append([round(rng.uniform(-2, 2), 2) or 1.0, []])
            continue
        k = rng.randint(1, n)
        qs = rng.sample(range(n), k)
        fac = [[rng.choice(paulis), q] for q in qs]
        if ident and len(fac) > 1 and rng.random() < 0.15:
            fac[0][0] = "I"
        out.append([rng.choice([1.0, -1.0, 0.5, 2.0, round(rng.uniform(-2, 2), 2) or 1.0]), fac])
    return out


def parametrise_obs(rng: random.Random, obs: list, spec: dict, prefix: str, p: float = 0.3, feat: bool = True,
                    newfeat: bool = False) -> list:
    """Makes some coefficients parameters (of the circuit or of the observable only); new ones are added to the spec."""
    for term in obs:
        if rng.random() < p:
            kind = "f" if feat and rng.random() < 0.3 and (newfeat or spec["f"]) else "v"
            if spec[kind] and ((kind == "f" and not newfeat) or rng.random() < 0.4):
                nm = rng.choice(sorted(spec[kind]))
            else:
                nm = f"{prefix}w{kind}{rng.randrange(2)}"
                spec[kind].setdefault(nm, round(rng.uniform(0.05, 3), 4))
            term[0] = rng.choice([[kind, nm], ["mul", term[0], [kind, nm]], ["sin", [kind, nm]]])
    return obs


# ---------------------------------------------------------------------------------------------- construction
def build_param(p: Any, spec: dict) -> Any:
    import sympy
    from qadence.parameters import FeatureParameter, VariationalParameter
    if isinstance(p, (int, float)):
        return float(p)
    k = p[0]
    if k == "v":
        return VariationalParameter(p[1], value=spec["v"][p[1]])
    if k == "f":
        return FeatureParameter(p[1], value=spec["f"][p[1]])
    if k == "mul":
        return p[1] * build_param(p[2], spec)
    if k == "add":
        return build_param(p[1], spec) + p[2]
    if k == "sin":
        return sympy.sin(build_param(p[1], spec))
    if k == "prod":
        return build_param(p[1], spec) * build_param(p[2], spec)
    raise ValueError(p)


def build_op(op: list, spec: dict) -> Any:
    import qadence as q
    name, qs, p = op[:3]
    cls = getattr(q, name)
    if name == "HamEvo":
        gen = q.add(0.7 * q.kron(q.Z(qs[0]), q.Z(qs[1])), 0.4 * q.X(qs[0]))
        b = q.HamEvo(gen, build_param(p, spec))
    elif name in MCROT:
        b = cls(tuple(qs[:2]), qs[2], build_param(p, spec))
    elif name in ("Toffoli", "MCZ"):
        b = cls(tuple(qs[:2]), qs[2])
    elif name == "U":
        b = cls(qs[0], *[build_param(x, spec) for x in p[1:]])
    elif p is None:
        b = cls(*qs)
    elif len(qs) == 2:
        b = cls(qs[0], qs[1], build_param(p, spec))
    else:
        b = cls(qs[0], build_param(p, spec))
    if len(op) > 3:
        q.tag(b, op[3])
    return b


def build_block(spec: dict) -> Any:
    import qadence as q
    blocks = [build_op(o, spec) for o in spec["ops"]]
    for i, protos in spec.get("gn", {}).items():       # noise of single gates
        from qadence.noise import NoiseHandler
        from qadence.types import NoiseProtocol
        q.set_noise(blocks[int(i)], NoiseHandler([getattr(NoiseProtocol.DIGITAL, a) for a, _ in protos], [{"error_probability": x} for _, x in protos]))
    nest = spec.get("nest", 0)
    if nest == 1 and len(blocks) > 2:
        blocks = [q.chain(*blocks[:2]), *blocks[2:]]
    elif nest == 2 and len(blocks) > 1:
        out, i = [], 0
        while i < len(blocks):
            if i + 1 < len(blocks) and not set(blocks[i].qubit_support) & set(blocks[i + 1].qubit_support):
                out.append(q.kron(blocks[i], blocks[i + 1]))
                i += 2
            else:
                out.append(blocks[i])
                i += 1
        blocks = out
    return q.chain(*blocks) if len(blocks) != 1 else q.chain(blocks[0])


def build_circuit(spec: dict) -> Any:
    import qadence as q
    return q.QuantumCircuit(spec["n"], build_block(spec))


def build_obs(o: list, spec: dict | None = None) -> Any:
    import qadence as q
    terms = []
    for c, fac in o:
        if not fac:
            b = q.I(0)
        elif len(fac) == 1:
            b = getattr(q, fac[0][0])(fac[0][1])
        elif len({k for _, k in fac}) < len(fac):
            b = q.chain(*[getattr(q, f)(k) for f, k in fac])
        else:
            b = q.kron(*[getattr(q, f)(k) for f, k in fac])
        if isinstance(c, list):
            c = build_param(c, spec)
        terms.append(b if isinstance(c, float) and c == 1.0 else c * b)
    return terms[0] if len(terms) == 1 else q.add(*terms)


def gen_values(rng: random.Random, spec: dict, batch: int | None = None) -> dict:
    b = batch or rng.choice([1, 1, 2, 3])
    return {k: [round(rng.uniform(-3, 3), 3) for _ in range(b)] for k in sorted(spec["f"])}


def tvalues(vals: dict, grad: bool = False) -> dict:
    return {k: torch.tensor(v, dtype=torch.float64, requires_grad=grad) for k, v in vals.items()}


# -------------------------------------------------------------------------------------------- dense reference
_P = {"N": np.diag([0, 1]), "I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]),
      "H": np.array([[1, 1], [1, -1]]) / math.sqrt(2), "S": np.diag([1, 1j]), "SDagger": np.diag([1, -1j]), "T": np.diag([1, np.exp(1j * math.pi / 4)])}


def _rot(name: str, t: float) -> np.ndarray:
    if name == "PHASE":
        return np.diag([1, np.exp(1j * t)])
    return math.cos(t / 2) * np.eye(2) - 1j * math.sin(t / 2) * _P[name[-1]]


def _embed(mat: np.ndarray, qs: list, n: int) -> np.ndarray:
    """Operator on the given qubits (first listed = most significant) embedded into n qubits, qubit 0 most significant."""
    k = len(qs)
    full = np.zeros((2 ** n, 2 ** n), dtype=complex)
    rest = [q for q in range(n) if q not in qs]
    for col in range(2 ** n):
        bits = [(col >> (n - 1 - q)) & 1 for q in range(n)]
        sub = int("".join(str(bits[q]) for q in qs), 2)
        for row_sub in range(2 ** k):
            a = mat[row_sub, sub]
            if a != 0:
                nb = list(bits)
                for i, q in enumerate(qs):
                    nb[q] = (row_sub >> (k - 1 - i)) & 1
                full[int("".join(map(str, nb)), 2), col] += a
    return full


def pval(p: Any, v: dict, f: dict) -> float:
    if isinstance(p, (int, float)):
        return float(p)
    k = p[0]
    return {"v": lambda: v[p[1]], "f": lambda: f[p[1]], "mul": lambda: p[1] * pval(p[2], v, f), "add": lambda: pval(p[1], v, f) + p[2],
            "sin": lambda: math.sin(pval(p[1], v, f)), "prod": lambda: pval(p[1], v, f) * pval(p[2], v, f)}[k]()


def unitary(spec: dict, v: dict | None = None, f: dict | None = None) -> np.ndarray:
    n = spec["n"]
    v = v or spec["v"]
    f = f or spec["f"]
    u = np.eye(2 ** n, dtype=complex)
    for op in spec["ops"]:
        name, qs, p = op[:3]
        if name in _P:
            m = _embed(_P[name], qs, n)
        elif name in ROT:
            m = _embed(_rot(name, pval(p, v, f)), qs, n)
        elif name == "U":
            a, b, c = [pval(x, v, f) for x in p[1:]]
            m = _embed(_rot("RZ", c) @ _rot("RY", b) @ _rot("RZ", a), qs, n)
        elif name == "SWAP":
            m = _embed(np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]), qs, n)
        elif name in ("CNOT", "CZ"):
            c = np.eye(4, dtype=complex)
            c[2:, 2:] = _P["X" if name == "CNOT" else "Z"]
            m = _embed(c, qs, n)
        elif name in CROT:
            c = np.eye(4, dtype=complex)
            c[2:, 2:] = _rot("PHASE" if name == "CPHASE" else name[1:], pval(p, v, f))
            m = _embed(c, qs, n)
        elif name in MCROT or name in ("Toffoli", "MCZ"):
            c = np.eye(8, dtype=complex)
            c[6:, 6:] = (_P[{"Toffoli": "X", "MCZ": "Z"}[name]] if name in ("Toffoli", "MCZ")
                         else _rot("PHASE" if name == "MCPHASE" else name[2:], pval(p, v, f)))
            m = _embed(c, qs, n)
        elif name == "CSWAP":
            c = np.eye(8, dtype=complex)
            c[[5, 6]] = c[[6, 5]]
            m = _embed(c, qs, n)
        elif name == "HamEvo":
            h = 0.7 * np.kron(_P["Z"], _P["Z"]) + 0.4 * np.kron(_P["X"], _P["I"])
            w, e = np.linalg.eigh(h)
            m = _embed(e @ np.diag(np.exp(-1j * pval(p, v, f) * w)) @ e.conj().T, qs, n)
        else:
            raise ValueError(name)
        u = m @ u
    return u


def state_of(spec: dict, v: dict | None = None, f: dict | None = None, init: np.ndarray | None = None) -> np.ndarray:
    if init is None:
        init = np.zeros(2 ** spec["n"], dtype=complex)
        init[0] = 1
    return unitary(spec, v, f) @ init


def obs_matrix(o: list, n: int, v: dict | None = None, f: dict | None = None) -> np.ndarray:
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for c, fac in o:
        t = np.eye(2 ** n, dtype=complex)
        for pname, q in fac:
            t = t @ _embed(_P[pname], [q], n)
        m += (pval(c, v, f) if isinstance(c, list) else c) * t
    return m


def batch_of(vals: dict) -> int:
    return max([len(v) for v in vals.values()], default=1)


def element(vals: dict, b: int) -> dict:
    return {k: (v[b] if len(v) > 1 else v[0]) for k, v in vals.items()}
