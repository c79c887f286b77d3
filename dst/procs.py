"""Several simulated OS processes on one file system, run one at a time; a seeded scheduler picks who proceeds at every
file-system effect (S.fs.on_step) and at every explicit yield point."""
from __future__ import annotations

import os
import pickle
import random
import select
import struct
from typing import Any, Callable

from .phases import Emit, PhaseResult, SutError
from .seams import REAL, S


class _Chan:
    def __init__(self, fd: int):
        self.fd = fd
        self.buf = b""

    def read(self) -> tuple | None:
        while True:
            if len(self.buf) >= 4:
                n = struct.unpack(">I", self.buf[:4])[0]
                if len(self.buf) >= 4 + n:
                    d = pickle.loads(self.buf[4:4 + n])
                    self.buf = self.buf[4 + n:]
                    return d
            b = os.read(self.fd, 1 << 16)
            if not b:
                return None
            self.buf += b


def interleave(fns: list[Callable[[Emit, Callable[[], None]], Any]], seed: int, mode: str = "rand", max_switch: int = 100000):
    """Runs every fn(emit, yield_point) in its own forked process. Returns (results, order) where `order` is the list of
    process indices in the order in which they were allowed to proceed, and every event is tagged with its global position."""
    import traceback
    rng = random.Random(seed)
    chans, gos, pids = [], [], []
    for j, fn in enumerate(fns):
        r, w = os.pipe()
        gr, gw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(gw)
            for c in chans:
                os.close(c.fd)
            for g in gos:
                os.close(g)
            em = Emit(w)
            if S.urandom is not None:
                S.urandom = random.Random(f"{S.urandom.random()}/{j}")

            def pause(*a: Any) -> None:
                em.raw("yield", None)
                if not os.read(gr, 1):
                    os._exit(9)

            code = 0
            try:
                pause()
                res = fn(em, pause)
                S.fs = None
                em.raw("res", res)
            except SutError as e:
                S.fs = None
                em.raw("err", (type(e.e).__name__, str(e.e)[:1000], e.tb))
            except KeyboardInterrupt as e:
                S.fs = None
                em.raw("err", ("KeyboardInterrupt", str(e), ""))
            except BaseException:
                S.fs = None
                em.raw("har", traceback.format_exc()[-6000:])
            finally:
                os._exit(code)
        os.close(w)
        os.close(gr)
        chans.append(_Chan(r))
        gos.append(gw)
        pids.append(pid)
    n = len(fns)
    out = [PhaseResult() for _ in range(n)]
    live = set(range(n))
    order: list[int] = []
    pos = 0

    def pump(j: int) -> None:
        """Read messages of process j until it yields or ends."""
        nonlocal pos
        while True:
            m = chans[j].read()
            if m is None:
                live.discard(j)
                _, st = os.waitpid(pids[j], 0)
                out[j].killed = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137
                if os.WIFSIGNALED(st):
                    out[j].harness = f"process {j} died from signal {os.WTERMSIG(st)}"
                return
            kind, obj = m
            if kind == "yield":
                return
            if kind == "ev":
                out[j].events.append((pos, *obj))
                pos += 1
            elif kind == "res":
                out[j].result = obj
            elif kind == "err":
                out[j].error = obj
            else:
                out[j].harness = obj

    for j in range(n):
        pump(j)
    cur = None
    while live:
        ids = sorted(live)
        if mode == "rr":
            j = ids[len(order) % len(ids)]
        elif mode == "burst" and cur in live and rng.random() < 0.8:
            j = cur
        else:
            j = rng.choice(ids)
        cur = j
        order.append(j)
        if len(order) > max_switch:
            for k in live:
                os.kill(pids[k], 9)
            raise RuntimeError("too many scheduling steps")
        os.write(gos[j], b"g")
        pump(j)
    for c in chans:
        os.close(c.fd)
    for g in gos:
        os.close(g)
    for o in out:
        if o.harness:
            raise RuntimeError("process harness error:\n" + o.harness)
    return out, order
