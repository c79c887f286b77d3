"""Seam over every random draw of measurement outcomes and measurement bases.

`Draws(policy)` replaces the drawing functions the code under test reaches (torch.multinomial and Tensor.multinomial, numpy.random.randint and rand) by
ones that follow a seeded policy, record every distribution and outcome, and fail on demand. A policy only returns outcomes of non-zero probability.
"""
from __future__ import annotations

import hashlib
import random
import sys
from typing import Any

import numpy as np
import torch

EPS = 1e-9
POLICIES = ["quantile", "real", "hash", "rare", "mode", "first", "last", "flat"]


def quantile(p: np.ndarray, n: int) -> np.ndarray:
    """Counts proportional to p, rounded by largest remainder."""
    x = p * n
    c = np.floor(x + 1e-7).astype(int)
    rest = n - int(c.sum())
    order = sorted(range(len(p)), key=lambda i: (-round(x[i] - c[i], 6), i))
    i = 0
    while rest > 0:
        c[order[i % len(p)]] += 1
        rest -= 1
        i += 1
    while rest < 0:
        j = max(range(len(p)), key=lambda k: c[k])
        c[j] -= 1
        rest += 1
    return np.repeat(np.arange(len(p)), c)


def outcomes(policy: str, p: np.ndarray, n: int, key: str) -> np.ndarray:
    sup = [i for i in range(len(p)) if p[i] > EPS]
    if policy == "quantile":
        return quantile(p, n)
    if policy == "rare":
        return np.full(n, min(sup, key=lambda i: (round(p[i], 9), i)))
    if policy == "mode":
        return np.full(n, max(sup, key=lambda i: (round(p[i], 9), i)))
    if policy == "first":
        return np.full(n, sup[0])
    if policy == "last":
        return np.full(n, sup[-1])
    if policy == "flat":
        return np.array([sup[(i * 7 + len(key)) % len(sup)] for i in range(n)])
    q = np.floor((p + 3.3e-8) * 1e6).astype(int)
    r = random.Random(hashlib.sha256(f"{key}|{n}|{q.tolist()}".encode()).digest())
    cum = np.cumsum(q / q.sum())
    return np.minimum(np.searchsorted(cum, [r.random() for _ in range(n)], side="right"), len(p) - 1)


class InjectedDrawError(RuntimeError):
    pass


class Draws:
    def __init__(self, policy: str = "real", key: str = "", fail_at: int | None = None):
        self.policy, self.key, self.fail_at = policy, key, fail_at
        self.calls: list[tuple[np.ndarray, np.ndarray]] = []
        self.bases: list[np.ndarray] = []
        self.ndraw = 0
        self.failed = 0

    def _one(self, p: np.ndarray, n: int, raw: Any) -> np.ndarray:
        k = self.ndraw
        self.ndraw += 1
        if self.fail_at is not None and k == self.fail_at:
            self.failed += 1
            raise InjectedDrawError("injected: the random draw failed")
        p = np.asarray(p, dtype=float)
        p = p / p.sum()
        if self.policy == "real":
            o = raw()
        elif self.policy == "step":       # one outcome per call, following the call number
            r = random.Random(f"{self.key}|{k}")
            cum = np.cumsum(p)
            o = np.array([min(int(np.searchsorted(cum, r.random() * cum[-1], side="right")), len(p) - 1) for _ in range(n)])
            sup = [i for i in range(len(p)) if p[i] > EPS]
            o = np.array([i if p[i] > EPS else sup[0] for i in o])
        else:
            o = outcomes(self.policy, p, n, self.key)
        self.calls.append((p, np.asarray(o)))
        return o

    def __enter__(self) -> Draws:
        self.saved = (torch.multinomial, torch.Tensor.multinomial, np.random.randint)
        real, _, realint = self.saved

        def multinomial(input: Any, num_samples: int, replacement: bool = False, *, generator: Any = None, out: Any = None) -> Any:
            if not replacement and num_samples > 1:
                return real(input, num_samples, replacement, generator=generator)
            if input.dim() == 1:
                o = self._one(input.detach().cpu().numpy(), num_samples, lambda: real(input, num_samples, True, generator=generator).numpy())
                return torch.as_tensor(np.array(o), dtype=torch.int64)
            return torch.stack([multinomial(r, num_samples, True, generator=generator) for r in input])

        def randint(*a: Any, **k: Any) -> Any:
            r = realint(*a, **k)
            self.bases.append(np.array(r))
            return r

        torch.multinomial = multinomial
        torch.Tensor.multinomial = lambda s, *a, **k: multinomial(s, *a, **k)
        np.random.randint = randint
        self.pulser = [(m, m.multinomial) for m in map(sys.modules.get, ("pulser.result", "pulser_simulation.qutip_state")) if m is not None]
        for m, f in self.pulser:
            m.multinomial = lambda n, p, f=f: np.array(self._one(p, n, lambda: f(n, p)))
        return self

    def __exit__(self, *a: Any) -> None:
        torch.multinomial, torch.Tensor.multinomial, np.random.randint = self.saved
        for m, f in self.pulser:
            m.multinomial = f
