"""A phase is one simulated OS process: a fork of the run leader whose only durable output is files (and its event log)."""
from __future__ import annotations

import os
import pickle
import random
import struct
import traceback
from typing import Any, Callable

from .seams import REAL, S


_count = 0


class PhaseResult:
    def __init__(self):
        self.events: list[Any] = []
        self.result: Any = None
        self.error: tuple[str, str, str] | None = None   # (type name, message, traceback) of an exception from the code under test
        self.harness: str | None = None
        self.killed = False


class Emit:
    def __init__(self, fd: int):
        self.fd = fd

    def raw(self, kind: str, obj: Any) -> None:
        d = pickle.dumps((kind, obj))
        b = struct.pack(">I", len(d)) + d
        w = REAL["os.write"]
        while b:
            b = b[w(self.fd, b):]

    def __call__(self, *obj: Any) -> None:
        self.raw("ev", obj)


class SutError(Exception):
    """Wraps an exception that escaped from the code under test."""

    def __init__(self, e: BaseException):
        super().__init__(f"{type(e).__name__}: {e}")
        self.e = e
        self.tb = "".join(traceback.format_exception(e))[-4000:]


def sut(f: Callable, *a: Any, **k: Any) -> Any:
    """Call into the code under test; anything it raises becomes a SutError (harness errors stay distinguishable)."""
    try:
        return f(*a, **k)
    except Exception as e:
        raise SutError(e) from e


def phase(fn: Callable[[Emit], Any]) -> PhaseResult:
    global _count
    _count += 1
    n = _count
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        em = Emit(w)
        if S.urandom is not None:   # every simulated process has its own entropy
            S.urandom = random.Random(f"{S.urandom.random()}/{n}")
        try:
            res = fn(em)
            S.fs = None
            em.raw("res", res)
        except SutError as e:
            S.fs = None
            em.raw("err", (type(e.e).__name__, str(e.e)[:1000], e.tb))
        except KeyboardInterrupt as e:
            S.fs = None
            em.raw("err", ("KeyboardInterrupt", str(e), traceback.format_exc()[-4000:]))
        except BaseException:
            S.fs = None
            em.raw("har", traceback.format_exc()[-6000:])
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    out = PhaseResult()
    if os.WIFSIGNALED(st):
        raise RuntimeError(f"phase process died from signal {os.WTERMSIG(st)}")
    out.killed = os.WEXITSTATUS(st) == 137
    while data:
        n = struct.unpack(">I", data[:4])[0]
        kind, obj = pickle.loads(data[4:4 + n])
        data = data[4 + n:]
        if kind == "ev":
            out.events.append(obj)
        elif kind == "res":
            out.result = obj
        elif kind == "err":
            out.error = obj
        else:
            out.harness = obj
    if out.harness:
        raise RuntimeError("phase harness error:\n" + out.harness)
    return out
