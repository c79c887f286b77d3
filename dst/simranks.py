"""Simulated multi-process training: every rank is a real forked process, but exactly one of them runs at a time.

A rank runs until its next seam call (collective, file-system effect, explicit yield), where it hands control back to the
coordinator; a seeded scheduler picks who continues. Collectives complete when every member of the process group has posted
the matching operation. One scheduler seed is one interleaving.
"""
from __future__ import annotations

import io
import os
import pickle
import random
import signal
import struct
import sys
import traceback
from typing import Any

import torch

from .seams import REAL, S, SimFS

CUR: "RankDist | None" = None          # the rank object inside a rank process


class WorldStop(BaseException):
    """The simulation cannot go on; the world holds the violation."""


class Lost(BaseException):
    """Coordinator is gone."""


def _send(fd: int, obj: Any) -> None:
    d = pickle.dumps(obj)
    b = struct.pack(">I", len(d)) + d
    w = REAL["os.write"]
    while b:
        b = b[w(fd, b):]


def _recv(fd: int) -> Any:
    def rd(n):
        out = b""
        while len(out) < n:
            try:
                c = os.read(fd, n - len(out))
            except InterruptedError:
                continue
            if not c:
                raise EOFError
            out += c
        return out
    n = struct.unpack(">I", rd(4))[0]
    return pickle.loads(rd(n))


class RankFailure(RuntimeError):
    """What a rank sees when a peer has gone away (gloo: connection closed by peer)."""


class RankDist:
    """torch.distributed as seen by one rank."""

    def __init__(self, rfd: int, wfd: int, index: int):
        self.rfd, self.wfd, self.index = rfd, wfd, index
        self.inited = False
        self.rank = self.world = None
        self.in_epoch = False
        self.ddp_n = 0

    # -- protocol
    def ask(self, *req: Any) -> Any:
        _send(self.wfd, ("req", req, self.in_epoch))
        try:
            rep = _recv(self.rfd)
        except EOFError:
            os._exit(138)
        kind, val = rep
        if kind == "sig":            # an interrupt arrives while this process is at the seam
            signal.raise_signal(signal.SIGINT)
            return self.ask(*req)
        if kind == "exc":
            raise RankFailure(val)
        return val

    def emit(self, *ev: Any) -> None:
        _send(self.wfd, ("ev", ev))

    def tick(self, what: str = "") -> None:
        self.ask("yield", what)

    # -- torch.distributed
    def is_available(self):
        return True

    def is_initialized(self):
        return self.inited

    def is_torchelastic_launched(self):
        return "TORCHELASTIC_RUN_ID" in os.environ

    def _need(self):
        if not self.inited:
            raise ValueError("Default process group has not been initialized, please make sure to call init_process_group.")

    def get_rank(self, group=None):
        self._need()
        return self.rank

    def get_world_size(self, group=None):
        self._need()
        return self.world

    def get_backend(self, group=None):
        self._need()
        return "gloo"

    def init_process_group(self, backend=None, init_method=None, timeout=None, world_size=-1, rank=-1, store=None, **k):
        if self.inited:
            raise ValueError("trying to initialize the default process group twice!")
        if rank == -1:
            rank = int(os.environ["RANK"])
        if world_size == -1:
            world_size = int(os.environ["WORLD_SIZE"])
        addr, port = os.environ["MASTER_ADDR"], os.environ["MASTER_PORT"]
        self.ask("init", (str(backend), int(rank), int(world_size), addr, str(port)))
        self.rank, self.world, self.inited = int(rank), int(world_size), True

    def destroy_process_group(self, group=None):
        self._need()
        self.ask("destroy")
        self.inited = False

    def barrier(self, group=None, *a, **k):
        self._need()
        self.ask("coll", "barrier", (), None)

    monitored_barrier = barrier

    def _red(self, op):
        import torch.distributed as dist
        for n in ("SUM", "MAX", "MIN", "PRODUCT", "AVG"):
            if op == getattr(dist.ReduceOp, n):
                return n
        return str(op)

    def all_reduce(self, tensor, op=None, group=None, async_op=False):
        import torch.distributed as dist
        self._need()
        n = self._red(dist.ReduceOp.SUM if op is None else op)
        out = self.ask("coll", "all_reduce", (n, tuple(tensor.shape), str(tensor.dtype)), tensor.detach().clone())
        with torch.no_grad():
            tensor.copy_(out)

    def reduce(self, tensor, dst, op=None, group=None, async_op=False):
        import torch.distributed as dist
        self._need()
        n = self._red(dist.ReduceOp.SUM if op is None else op)
        out = self.ask("coll", "reduce", (n, tuple(tensor.shape), str(tensor.dtype), dst), tensor.detach().clone())
        if dst == self.rank:
            with torch.no_grad():
                tensor.copy_(out)

    def broadcast(self, tensor, src, group=None, async_op=False):
        self._need()
        out = self.ask("coll", "broadcast", (tuple(tensor.shape), str(tensor.dtype), src), tensor.detach().clone())
        with torch.no_grad():
            tensor.copy_(out)

    def broadcast_object_list(self, object_list, src=0, group=None, device=None, **k):
        self._need()
        data = pickle.dumps(list(object_list)) if src == self.rank else None
        out = self.ask("coll", "broadcast_object_list", (len(object_list), src), data)
        if src != self.rank:
            object_list[:] = pickle.loads(out)

    def all_gather_object(self, object_list, obj, group=None):
        self._need()
        out = self.ask("coll", "all_gather_object", (), pickle.dumps(obj))
        object_list[:] = [pickle.loads(o) for o in out]

    def gather_object(self, obj, object_gather_list=None, dst=0, group=None):
        self._need()
        out = self.ask("coll", "gather_object", (dst,), pickle.dumps(obj))
        if self.rank == dst and object_gather_list is not None:
            object_gather_list[:] = [pickle.loads(o) for o in out]

    def all_gather(self, tensor_list, tensor, group=None, async_op=False):
        self._need()
        out = self.ask("coll", "all_gather", (tuple(tensor.shape), str(tensor.dtype)), tensor.detach().clone())
        for t, o in zip(tensor_list, out):
            t.copy_(o)

    # -- DDP
    def ddp_init(self, ddp):
        self._need()
        ts = [p for p in ddp.module.parameters()] + [b for b in ddp.module.buffers()]
        meta = tuple((tuple(t.shape), str(t.dtype)) for t in ts)
        out = self.ask("coll", "ddp_init", meta, [t.detach().clone() for t in ts])
        with torch.no_grad():
            for t, o in zip(ts, out):
                t.copy_(o)

    def ddp_reduce(self, ddp):
        if not self.inited:
            raise RankFailure("process group was destroyed")
        ps = [p for p in ddp.module.parameters() if p.requires_grad and p.grad is not None]
        meta = tuple((tuple(p.shape), str(p.dtype)) for p in ps)
        out = self.ask("coll", "ddp_reduce", meta, [p.grad.detach().clone() for p in ps])
        with torch.no_grad():
            for p, o in zip(ps, out):
                p.grad.copy_(o)


def _stack_red(n: str, ts: list) -> Any:
    out = ts[0].clone()
    for t in ts[1:]:
        out = {"SUM": lambda: out + t, "AVG": lambda: out + t, "MAX": lambda: torch.maximum(out, t), "MIN": lambda: torch.minimum(out, t),
               "PRODUCT": lambda: out * t}[n]()
    return out / len(ts) if n == "AVG" else out


class _Rank:
    def __init__(self, index, pid, rfd, wfd):
        self.index, self.pid, self.rfd, self.wfd = index, pid, rfd, wfd
        self.req: Any = None       # outstanding request
        self.reply: Any = None     # ready reply
        self.state = "run"         # run, wait, ready, done, dead
        self.in_epoch = False
        self.group: Any = None
        self.rank: int | None = None
        self.grants = 0
        self.epoch_points = 0
        self.error: Any = None


class _SharedPickler(pickle.Pickler):
    """Like torch.multiprocessing: tensor storages are moved to shared memory and passed by reference."""

    def __init__(self, f, table):
        super().__init__(f)
        self.table = table

    def persistent_id(self, obj):
        if isinstance(obj, torch.storage.TypedStorage):
            u = obj._untyped_storage
            if u.nbytes():
                u.share_memory_()
            self.table.append(obj)
            return ("st", len(self.table) - 1)
        return None


class _SharedUnpickler(pickle.Unpickler):
    def __init__(self, f, table):
        super().__init__(f)
        self.table = table

    def persistent_load(self, pid):
        return self.table[pid[1]]


class World:
    """Coordinator. `sched`: {"seed", "mode": rr|rand|bias|burst, ...}; `faults`: list of
    {"kind": "ki", "rank", "point"}   interrupt at the rank's n-th seam call inside an epoch
    {"kind": "kill", "rank", "grant", "grace"}   the rank dies at its n-th seam call; the rest is terminated `grace` grants later
    """

    def __init__(self, sched: dict, faults: list, ctx: Any, root: str | None = None, rng_seed: int = 0, fs_faults: list | None = None):
        self.rng = random.Random(sched.get("seed", 0))
        self.sched = sched
        self.faults = [dict(f) for f in faults]
        self.ctx = ctx
        self.root = root
        self.rng_seed = rng_seed
        self.history: list[tuple] = []           # (rank, *event)
        self.violation: tuple | None = None
        self.ranks: list[_Rank] = []
        self.groups: dict = {}
        self.steps = 0
        self.max_steps = 30000
        self.fired: list = []
        self.colls: list = []
        self.launched = 0
        self.inits: list = []
        self.switches = 0

    # ---------------------------------------------------------------- launching
    def _fork(self, index: int, body: Any) -> _Rank:
        global CUR
        a, b = os.pipe()     # child -> coordinator
        c, d = os.pipe()     # coordinator -> child
        pid = os.fork()
        if pid == 0:
            os.close(a)
            os.close(d)
            for r in self.ranks:
                for fd in (r.rfd, r.wfd):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            code = 0
            try:
                signal.signal(signal.SIGINT, signal.default_int_handler)
                S.spawn = None
                me = RankDist(c, b, index)
                CUR = me
                S.dist = me
                from .runner import seed_all
                seed_all(self.rng_seed + 7919 * (index + 1))
                S.pid = 40000 + index
                if self.root is not None:
                    S.fs = SimFS(self.root, [], seed=self.rng_seed + index)
                    S.fs.on_step = lambda k, op, rel: me.ask("fs", op, rel)
                from .seams import SimClock
                S.clock = SimClock()
                S.clock.t = 3.0 * index
                if S.writers is not None:
                    S.writers = lambda name, args, kw: me.emit("tracker", name)
                me.ask("yield", "start")
                body(me)
                _send(b, ("done", None))
            except BaseException as e:
                try:
                    _send(b, ("fail", (type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:])))
                except BaseException:
                    pass
                code = 1
            finally:
                os._exit(code)
        os.close(b)
        os.close(c)
        return _Rank(index, pid, a, d)

    def spawn(self, fn: Any, args: Any, nprocs: int, join: bool = True) -> None:
        """Stand-in for torch.multiprocessing.spawn."""
        table: list = []
        buf = io.BytesIO()
        _SharedPickler(buf, table).dump((fn, args))
        data = buf.getvalue()

        def body_for(i):
            def body(me):
                f, a = _SharedUnpickler(io.BytesIO(data), table).load()
                f(i, *a)
            return body
        self.launched = nprocs
        self.run([body_for(i) for i in range(nprocs)])
        self._raise_like_spawn()

    def _raise_like_spawn(self) -> None:
        from torch.multiprocessing.spawn import ProcessExitedException, ProcessRaisedException
        for r in self.ranks:
            if r.error is not None:
                raise ProcessRaisedException(f"process {r.index} raised {r.error[0]}: {r.error[1]}\n{r.error[2]}", r.index, r.pid)
        for r in self.ranks:
            if r.state == "dead":
                raise ProcessExitedException(f"process {r.index} terminated with signal SIGKILL", r.index, r.pid, -9, "SIGKILL")

    # ---------------------------------------------------------------- scheduling
    def run(self, bodies: list) -> None:
        self.ranks = []
        for i, b in enumerate(bodies):
            self.ranks.append(self._fork(i, b))
        try:
            for r in self.ranks:
                self._await(r)
            self._loop()
        finally:
            for r in self.ranks:
                if r.state not in ("done",):
                    try:
                        os.kill(r.pid, signal.SIGKILL)
                    except OSError:
                        pass
                for fd in (r.rfd, r.wfd):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                try:
                    os.waitpid(r.pid, 0)
                except ChildProcessError:
                    pass

    def _await(self, r: _Rank) -> None:
        """Let rank r run until its next request."""
        while True:
            try:
                m = _recv(r.rfd)
            except EOFError:
                r.state = "dead"
                return
            if m[0] == "ev":
                self.history.append((r.index, *m[1]))
                self.ctx.ev("r", r.index, *[x if not isinstance(x, torch.Tensor) else "T" for x in m[1]])
                continue
            if m[0] == "done":
                r.state = "done"
                self.history.append((r.index, "exit"))
                return
            if m[0] == "fail":
                r.state, r.error = "failed", m[1]
                self.history.append((r.index, "fail", m[1][0], m[1][1]))
                self.ctx.ev("r", r.index, "fail", m[1][0])
                return
            r.req, r.in_epoch = m[1], m[2]
            if r.in_epoch:
                r.epoch_points += 1
                f = next((f for f in self.faults if f["kind"] == "ki" and f.get("rank", 0) % len(self.ranks) == r.index
                          and r.epoch_points == f["point"]), None)
                if f is not None:       # delivered right before the seam call; issued again if the process goes on
                    self._fire(f, r)
                    _send(r.wfd, ("sig", None))
                    continue
            self._post(r)
            return

    def _post(self, r: _Rank) -> None:
        req = r.req
        self.ctx.ev("q", r.index, req[0], *(req[1:2] if req[0] == "coll" else req[1:]))
        if req[0] in ("yield", "fs"):
            if req[0] == "fs":
                self.history.append((r.index, "fs", req[1], req[2]))
            r.state, r.reply = "ready", ("ok", None)
        elif req[0] == "init":
            r.state = "wait"
            self.inits.append((r.index, req[1]))
            self._try_init(req[1])
        elif req[0] == "destroy":
            r.group = None
            self.history.append((r.index, "destroy"))
            r.state, r.reply = "ready", ("ok", None)
        elif req[0] == "coll":
            r.state = "wait"
            self.history.append((r.index, "coll", req[1], req[2]))
            if r.group is None:
                self._fail("collective-outside-group", f"process {r.index} calls {req[1]} outside the process group")
            self._try_coll(r.group)

    def _fail(self, cls: str, msg: str) -> None:
        pos = "; ".join(f"process {r.index}: {r.state} {(r.req[0], *r.req[1:3]) if r.req and r.state in ('wait', 'ready') else ''}" for r in self.ranks)
        self.violation = (cls, f"{msg} [{pos}]")
        raise WorldStop(msg)

    def _try_init(self, spec: tuple) -> None:
        backend, rank, world, addr, port = spec
        waiting = [r for r in self.ranks if r.state == "wait" and r.req[0] == "init"]
        same = [r for r in waiting if r.req[1][3:] == (addr, port)]
        if len({r.req[1][2] for r in same}) > 1:
            self._fail("launch", f"processes of one rendezvous disagree on the number of processes: {[r.req[1] for r in same]}")
        if len({r.req[1][1] for r in same}) < len(same):
            self._fail("launch", f"two processes joined with the same rank: {[r.req[1] for r in same]}")
        if not 0 <= rank < world:
            self._fail("launch", f"rank {rank} out of range for {world} processes")
        if len(same) == world:
            g = {"members": [r for r in sorted(same, key=lambda r: r.req[1][1])], "n": 0}
            for i, r in enumerate(g["members"]):
                r.group, r.rank = g, i
                r.state, r.reply = "ready", ("ok", None)

    def _try_coll(self, g: dict) -> None:
        ms = g["members"]
        posted = [m for m in ms if m.state == "wait" and m.req[0] == "coll" and m.group is g]
        first = posted[0].req
        for m in posted[1:]:
            if m.req[1:3] != first[1:3]:
                self._fail("collective-mismatch", f"processes {posted[0].index} and {m.index} take part in different collective operations: "
                                                  f"{first[1:3]} and {m.req[1:3]}")
        if len(posted) < len(ms):
            return
        op, meta = first[1], first[2]
        data = [m.req[3] for m in ms]
        if op == "barrier":
            out = [None] * len(ms)
        elif op in ("all_reduce", "reduce"):
            out = [_stack_red(meta[0], data)] * len(ms)
        elif op == "broadcast":
            out = [data[meta[2]]] * len(ms)
        elif op == "broadcast_object_list":
            out = [data[meta[1]]] * len(ms)
        elif op in ("all_gather_object", "gather_object", "all_gather"):
            out = [data] * len(ms)
        elif op == "ddp_init":
            out = [data[0]] * len(ms)
        elif op == "ddp_reduce":
            out = [[sum(ts[1:], ts[0]) / len(ms) for ts in zip(*data)]] * len(ms)
        else:
            raise RuntimeError(op)
        g["n"] += 1
        self.colls.append(op)
        for m, o in zip(ms, out):
            m.state, m.reply = "ready", ("ok", o)

    def _pick(self, ready: list[_Rank]) -> _Rank:
        mode = self.sched.get("mode", "rand")
        if len(ready) == 1:
            return ready[0]
        if mode == "rr":
            return min(ready, key=lambda r: (r.grants, r.index))
        if mode == "bias":       # one slow process: it only moves when nothing else can, or rarely
            slow = self.sched.get("slow", 0)
            fast = [r for r in ready if r.index != slow]
            return self.rng.choice(fast) if fast and self.rng.random() < 0.95 else self.rng.choice(ready)
        if mode == "burst":
            cur = [r for r in ready if r.index == getattr(self, "_last", -1)]
            if cur and self.rng.random() < 0.85:
                return cur[0]
        return self.rng.choice(ready)

    def _loop(self) -> None:
        grace = None
        while True:
            failed = [r for r in self.ranks if r.state in ("failed", "dead")]
            if failed and grace is None:
                grace = max([f.get("grace", 0) for f in self.fired if f["kind"] == "kill"], default=0)
            if failed and grace is not None:
                if grace <= 0:
                    for r in self.ranks:
                        if r.state in ("wait", "ready"):
                            r.state = "terminated"
                    return
                grace -= 1
            ready = [r for r in self.ranks if r.state == "ready"]
            if not ready:
                waiting = [r for r in self.ranks if r.state == "wait"]
                if not waiting:
                    return
                if failed:      # blocked on a dead peer: terminated by the launcher
                    for r in waiting:
                        r.state = "terminated"
                    return
                self._fail("deadlock", f"no process can continue: {[(r.index, r.req[1], r.req[2] if len(r.req) > 2 else '') for r in waiting]} wait forever")
            self.steps += 1
            if self.steps > self.max_steps:
                self._fail("no-progress", "step budget exhausted")
            r = self._pick(ready)
            if getattr(self, "_last", None) != r.index:
                self.switches += 1
            self._last = r.index
            r.grants += 1
            f = next((f for f in self.faults if f["kind"] == "kill" and f.get("rank", 0) % len(self.ranks) == r.index
                      and r.grants == f["grant"]), None)
            if f is not None:
                self._fire(f, r)
                os.kill(r.pid, signal.SIGKILL)
                r.state = "dead"
                continue
            _send(r.wfd, r.reply)
            r.state = "run"
            self._await(r)

    def _fire(self, f: dict, r: _Rank) -> None:
        self.faults.remove(f)
        self.fired.append({**f, "hist": len(self.history)})
        self.ctx.fault({"ki": "interrupt", "kill": "process-kill"}[f["kind"]])
        self.ctx.ev("fault", f["kind"], r.index, r.req[0], r.req[1] if len(r.req) > 1 else "")
        self.history.append((r.index, "fault", f["kind"], r.req[:2]))
