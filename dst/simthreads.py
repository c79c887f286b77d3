"""Seeded scheduler for real Python threads.

Exactly one simulated thread runs at a time (a baton); every executed source line of the code under
test is a scheduling point, reached through sys.settrace. The schedule is explicit and has two forms. `switches` is a list of [gap, pick]: after `gap` scheduling points the baton goes to the
pick-th other live thread; when the list is used up, threads run to completion one after another. `lines` is a list of [bucket, visit, pick]: when a thread reaches a line of that
bucket (a hash of its place) for the visit-th time, another thread makes one whole call before it goes on. Locks created by the code under test are replaced by ones that hand over
the baton instead of blocking the process. A thread can be killed by an injected exception at one of its scheduling points.
"""
from __future__ import annotations

import sys
import threading
import zlib
from typing import Any, Callable

REAL_LOCK, REAL_RLOCK, REAL_THREAD = threading.Lock, threading.RLock, threading.Thread


class InjectedKill(BaseException):
    pass


class Stuck(Exception):
    pass


def importing(frame: Any) -> bool:
    """Inside an import the interpreter holds the module's lock: not a scheduling point."""
    while frame is not None:
        if frame.f_code.co_filename == "<frozen importlib._bootstrap>":
            return True
        frame = frame.f_back
    return False


class Sched:
    current: "Sched | None" = None

    def __init__(self, root: tuple, switches: list, kills: list, lines: list = (), limit: int = 4_000_000):
        self.root, self.switches, self.limit = root, list(switches), limit
        self.kills = {k[0]: k[1] for k in kills}
        self.lock = REAL_LOCK()
        self.ev: list = []
        self.alive: list = []
        self.n = 0                       # scheduling points so far
        self.gap = None
        self.done = REAL_LOCK()
        self.done.acquire()
        self.per: list = []
        self.trace: list = []
        self.errors: list = []
        self.local = threading.local()
        self.nswitch = 0
        self.killed: list = []
        self.stuck = False
        self.lines = {(b, v): p for b, v, p in lines}
        self.visits: dict = {}
        self.bucket: dict = {}
        self.back: dict = {}             # thread -> thread that waits for it to finish a call
        self._next_gap()

    def _next_gap(self):
        if self.switches:
            g, p = self.switches.pop(0)
            self.gap, self.pick = self.n + max(1, g), p
        else:
            self.gap, self.pick = None, 0

    # ------------------------------------------------------------------------------------------ points
    def _point(self, frame):
        t = self.local.i
        self.n += 1
        self.per[t] += 1
        k = self.kills.get(t)
        if k is not None and self.per[t] >= k and not importing(frame):
            self.kills.pop(t)
            self.killed.append(t)
            self.trace.append(("kill", t, frame.f_code.co_name))
            raise InjectedKill(f"injected at {frame.f_code.co_filename}:{frame.f_lineno}")
        if self.n > self.limit:
            self.stuck = True
            raise InjectedKill("too many scheduling points")
        if self.gap is not None and self.n >= self.gap and not importing(frame):
            p = self.pick
            self._next_gap()
            self.switch(p, (frame.f_code.co_name, frame.f_lineno))
        elif self.lines and not self.back:
            key = (frame.f_code, frame.f_lineno)
            b = self.bucket.get(key)
            if b is None:
                b = self.bucket[key] = zlib.crc32(f"{frame.f_code.co_filename.rsplit('/', 1)[-1]}:{key[1]}:{frame.f_code.co_name}".encode()) % 4096
            v = self.visits[t, key] = self.visits.get((t, key), 0) + 1
            p = self.lines.get((b, v))
            if p is not None and not importing(frame):
                self.switch(p, (frame.f_code.co_name, frame.f_lineno), True)

    def boundary(self) -> None:
        """The running thread has finished a call."""
        t = getattr(self.local, "i", None)
        w = self.back.pop(t, None)
        if w is not None and w in self.alive:
            self.switch(None, ("boundary",), to=w)

    def switch(self, pick: Any, where: Any, whole: bool = False, to: Any = None) -> bool:
        t = self.local.i
        others = [a for a in self.alive if a != t] if to is None else [to]
        pick = pick or 0
        if not others:
            return False
        u = others[pick % len(others)]
        if whole:
            self.back[u] = t
        self.nswitch += 1
        self.trace.append((t, u) + tuple(where[:1]))
        self.ev[u].release()
        self.ev[t].acquire()
        return True

    def _local(self, frame, event, arg):
        if event == "line":
            self._point(frame)
        return self._local

    def _glob(self, frame, event, arg):
        if frame.f_code.co_name == "<module>" or not frame.f_code.co_filename.startswith(self.root):
            return None
        return self._local

    # ------------------------------------------------------------------------------------------ threads
    def _body(self, i: int, fn: Callable):
        self.local.i = i
        self.ev[i].acquire()
        sys.settrace(self._glob)
        try:
            fn()
        except InjectedKill:
            pass
        except BaseException as e:      # the workload records its own exceptions
            self.errors.append((i, e))
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            self.trace.append(("end", i))
            w = self.back.pop(i, None)
            if self.alive:
                self.ev[w if w in self.alive else self.alive[0]].release()
            else:
                self.done.release()

    def run(self, fns: list, timeout: float = 25.0) -> None:
        for _ in fns:
            e = REAL_LOCK()
            e.acquire()
            self.ev.append(e)
            self.per.append(0)
        self.alive = list(range(len(fns)))
        ts = [REAL_THREAD(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        Sched.current = self
        saved = patch_locks()
        try:
            for t in ts:
                t.start()
            self.ev[0].release()
            if not self.done.acquire(timeout=timeout):
                import traceback
                fr = sys._current_frames()
                w = {i: "".join(traceback.format_stack(fr[t.ident])[-3:]) for i, t in enumerate(ts) if t.ident in fr and i in self.alive}
                raise Stuck(f"no progress; live threads {w}")
        finally:
            unpatch_locks(saved)
            Sched.current = None


class SimLock:
    """A lock that lets another simulated thread run instead of blocking."""

    def __init__(self, *a, **k):
        self.owner, self.count, self.re = None, 0, False

    def _me(self):
        s = Sched.current
        return getattr(s.local, "i", -1) if s else -1

    def acquire(self, blocking: bool = True, timeout: float = -1):
        me, tries = self._me(), 0
        while self.count and not (self.re and self.owner == me):
            s = Sched.current
            if not blocking or (timeout is not None and timeout >= 0 and tries > 3):
                return False
            tries += 1
            if tries > 10_000 or s is None or me < 0 or not s.switch(tries, ("lock", 0)):
                raise Stuck("deadlock")
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    def __init__(self, *a, **k):
        super().__init__()
        self.re = True


def patch_locks() -> list:
    """Replace the locks of already imported modules of the code under test."""
    saved = []
    lt, rt = type(REAL_LOCK()), type(REAL_RLOCK())
    for name, m in list(sys.modules.items()):
        if m is None or not (name == "qadence" or name.startswith("qadence.")):
            continue
        owners = [m] + [v for v in list(vars(m).values()) if isinstance(v, type) and getattr(v, "__module__", "") == name]
        for o in owners:
            for k, v in list(vars(o).items()):
                if isinstance(v, lt) or v is REAL_LOCK:
                    new: Any = SimLock() if isinstance(v, lt) else SimLock
                elif isinstance(v, rt) or v is REAL_RLOCK:
                    new = SimRLock() if isinstance(v, rt) else SimRLock
                else:
                    continue
                saved.append((o, k, v))
                setattr(o, k, new)
        t = vars(m).get("threading")
        if t is threading:
            saved.append((m, "threading", t))
            setattr(m, "threading", _Threading())
    return saved


def unpatch_locks(saved: list) -> None:
    for o, k, v in saved:
        setattr(o, k, v)


class _Threading:
    Lock, RLock = SimLock, SimRLock

    def __getattr__(self, k):
        return getattr(threading, k)
