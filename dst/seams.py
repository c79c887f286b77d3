"""Seams: every source of nondeterminism the simulated code can reach.

The shims are installed at the library boundary (builtins, os, time, datetime, torch, ...) BEFORE qadence is
imported, and dispatch to the real function while no simulation is active, so the shipped behaviour of /repo is
untouched and any import style in /repo ends up at the seam.
"""
from __future__ import annotations

import builtins
import datetime as _dt
import errno
import io
import os
import random as _random
import time as _time
from typing import Any


class SimKill(BaseException):
    """A simulated hard kill, used only where a real _exit is not wanted."""


class SimBudget(BaseException):
    """A run exceeded its deterministic step budget."""


class State:
    fs: "SimFS | None" = None
    clock: "SimClock | None" = None
    pid: int | None = None
    urandom: _random.Random | None = None
    urandom_calls: int = 0
    dist: Any = None          # object with the torch.distributed surface
    spawn: Any = None         # callable(fn, args, nprocs, ...)
    writers: Any = None       # recorder for tracker calls
    mlflow: Any = None
    sockets: Any = None       # port occupancy model
    subproc: Any = None


S = State()
REAL: dict[str, Any] = {}


# ----------------------------------------------------------------------------------------------- clock
class SimClock:
    """Discrete simulated time. `skew` functions may make wall time jump."""

    def __init__(self, start: float = 1_700_000_000.0, max_events: int = 200_000):
        self.t = 0.0            # monotonic simulated seconds
        self.start = start
        self.wall_offset = 0.0  # wall = start + t + wall_offset
        self.sleeps: list[float] = []
        self.events = 0
        self.max_events = max_events
        self.on_sleep: Any = None
        self.wall_script: list[float] | None = None   # explicit wall readings, consumed in order (last repeats)
        self.tick_per_read = 0.0

    def bump(self) -> None:
        self.events += 1
        if self.events > self.max_events:
            raise SimBudget(f"more than {self.max_events} clock events")

    def sleep(self, d: float) -> None:
        self.bump()
        d = float(d)
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        self.sleeps.append(d)
        if self.on_sleep is not None:
            d = self.on_sleep(d)
        self.t += d

    def monotonic(self) -> float:
        self.bump()
        self.t += self.tick_per_read
        return self.t + 1000.0

    def wall(self) -> float:
        self.bump()
        self.t += self.tick_per_read
        if self.wall_script:
            v = self.wall_script[0]
            if len(self.wall_script) > 1:
                self.wall_script.pop(0)
            return v
        return self.start + self.t + self.wall_offset


def _install_clock() -> None:
    for n in ("sleep", "time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns",
              "localtime", "gmtime", "strftime", "ctime"):
        REAL["time." + n] = getattr(_time, n)
    R = REAL

    def sleep(d):
        c = S.clock
        return R["time.sleep"](d) if c is None else c.sleep(d)

    def time():
        c = S.clock
        return R["time.time"]() if c is None else c.wall()

    def time_ns():
        c = S.clock
        return R["time.time_ns"]() if c is None else int(c.wall() * 1e9)

    def monotonic():
        c = S.clock
        return R["time.monotonic"]() if c is None else c.monotonic()

    def monotonic_ns():
        c = S.clock
        return R["time.monotonic_ns"]() if c is None else int(c.monotonic() * 1e9)

    def perf_counter():
        c = S.clock
        return R["time.perf_counter"]() if c is None else c.monotonic()

    def perf_counter_ns():
        c = S.clock
        return R["time.perf_counter_ns"]() if c is None else int(c.monotonic() * 1e9)

    def localtime(secs=None):
        if secs is None and S.clock is not None:
            secs = S.clock.wall()
        return R["time.localtime"](secs)

    def gmtime(secs=None):
        if secs is None and S.clock is not None:
            secs = S.clock.wall()
        return R["time.gmtime"](secs)

    def strftime(fmt, t=None):
        if t is None:
            t = localtime()
        return R["time.strftime"](fmt, t)

    def ctime(secs=None):
        if secs is None and S.clock is not None:
            secs = S.clock.wall()
        return R["time.ctime"](secs)

    for f in (sleep, time, time_ns, monotonic, monotonic_ns, perf_counter, perf_counter_ns, localtime, gmtime, strftime, ctime):
        setattr(_time, f.__name__, f)

    real_dt = _dt.datetime
    REAL["datetime"] = real_dt

    class _Meta(type(real_dt)):
        def __instancecheck__(cls, o):
            return isinstance(o, real_dt)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_dt)

    class datetime(real_dt, metaclass=_Meta):  # type: ignore
        @classmethod
        def now(cls, tz=None):
            if S.clock is None:
                return real_dt.now(tz)
            return real_dt.fromtimestamp(S.clock.wall(), tz)

        @classmethod
        def utcnow(cls):
            if S.clock is None:
                return real_dt.utcnow()
            return real_dt.fromtimestamp(S.clock.wall(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    datetime.__module__ = "datetime"
    datetime.__qualname__ = "datetime"
    _dt.datetime = datetime  # type: ignore


# ------------------------------------------------------------------------------------- process identity
def _install_identity() -> None:
    REAL["os.getpid"] = os.getpid
    REAL["os.urandom"] = os.urandom

    def getpid():
        return REAL["os.getpid"]() if S.pid is None else S.pid

    def urandom(n):
        if S.urandom is None:
            return REAL["os.urandom"](n)
        S.urandom_calls += 1
        return S.urandom.randbytes(n)

    os.getpid = getpid
    os.urandom = urandom
    _random._urandom = urandom  # SystemRandom / secrets / numpy SeedSequence entropy
    real_seed = _random.Random.seed

    def seed(self, a=None, version=2):
        if a is None and S.urandom is not None and type(self) is not _random.SystemRandom:
            a = int.from_bytes(urandom(64), "big")      # the C level takes its entropy from the system
        return real_seed(self, a, version)

    _random.Random.seed = seed
    _random.seed = _random._inst.seed


# ---------------------------------------------------------------------------------------- file system
class SimFS:
    """Real files below `root`, with every mutating effect numbered and subject to the fault plan.

    faults: list of dicts {"kind": kill|enospc|eio|short, "at": step, "frac": 0..1, "len": n steps}
      kill    the process dies with os._exit at that step; a write leaves `frac` of its bytes
      enospc  the operation (and all writes during `len` steps) fails with ENOSPC, a write leaves frac of its bytes
      eio     the operation fails with EIO
      read_eio reading fails: "at" counts read-opens
    """

    def __init__(self, root: str, faults: list[dict] | None = None, seed: int = 0, logfd: int | None = None):
        self.root = os.path.realpath(root)
        self.step = 0
        self.reads = 0
        self.faults = [f for f in (faults or []) if f["kind"] != "read_eio"]
        self.read_faults = [f for f in (faults or []) if f["kind"] == "read_eio"]
        self.fired: dict[str, int] = {}
        self.rng = _random.Random(seed)
        self.trace: list[str] = []
        self.logfd = logfd
        self.chunks = 3
        self.on_fault: Any = None
        self.on_step: Any = None
        self.max_steps = 100_000
        self.frozen = False

    # -- helpers
    def mine(self, path: Any) -> bool:
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(REAL["os.getcwd"](), p)
        p = os.path.normpath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path: Any) -> str:
        p = os.path.normpath(os.path.join(REAL["os.getcwd"](), os.fsdecode(os.fspath(path))))
        return os.path.relpath(p, self.root)

    def fault_for(self, op: str, path: Any) -> dict | None:
        """Number one effect and return the fault to apply to it, if any."""
        k = self.step
        self.step += 1
        if self.step > self.max_steps:
            raise SimBudget("too many file-system effects")
        if len(self.trace) < 5000:
            self.trace.append(f"{k}:{op}:{self.rel(path)}")
        if self.on_step is not None:
            self.on_step(k, op, self.rel(path))
        for f in self.faults:
            if f["kind"] == "kill":
                if f["at"] == k:
                    return f
            elif f["at"] <= k < f["at"] + f.get("len", 1):
                if op in ("mkdir", "rmdir"):    # storage of files, not of the folder itself
                    continue
                return f
        return None

    def apply(self, f: dict, op: str, path: Any, cxx: bool = False) -> None:
        key = f"{f['kind']}@{op}"
        self.fired[key] = self.fired.get(key, 0) + 1
        if self.on_fault is not None:
            self.on_fault(f, op, self.rel(path))
        if f["kind"] == "kill":
            os._exit(137)
        if cxx and f.get("exc") == "rt":   # what torch's C++ file writer raises
            raise RuntimeError(f"[enforce fail at inline_container.cc] . simulated {f['kind']}: unexpected pos 64 vs 0")
        if f["kind"] in ("enospc", "short"):
            raise OSError(errno.ENOSPC, "No space left on device (simulated)", os.fspath(path))
        raise OSError(errno.EIO, "Input/output error (simulated)", os.fspath(path))

    def effect(self, op: str, path: Any) -> None:
        f = self.fault_for(op, path)
        if f is not None:
            self.apply(f, op, path)

    def read_open(self, path: Any) -> None:
        k = self.reads
        self.reads += 1
        for f in self.read_faults:
            if f["at"] <= k < f["at"] + f.get("len", 1):
                self.fired["read_eio"] = self.fired.get("read_eio", 0) + 1
                if self.on_fault is not None:
                    self.on_fault(f, "read", self.rel(path))
                raise OSError(errno.EIO, "Input/output error (simulated)", os.fspath(path))


class SimFile:
    """Proxy around a real file opened for writing under the simulated root."""

    def __init__(self, fs: SimFS, real: Any, path: Any, mode: str):
        self.__dict__["_fs"] = fs
        self.__dict__["_f"] = real
        self.__dict__["_path"] = path
        self.__dict__["_closed_once"] = False

    def write(self, data: Any) -> Any:
        f = self._fs.fault_for("write", self._path)
        if f is not None:
            n = len(data)
            part = int(n * f.get("frac", 0.0))
            if part:
                self._f.write(data[:part])
            try:
                if f["kind"] == "kill" and f.get("flush", True):
                    self._f.flush()
            except Exception:
                pass
            self._fs.apply(f, "write", self._path)
        return self._f.write(data)

    def writelines(self, lines: Any) -> None:
        for x in lines:
            self.write(x)

    def flush(self) -> None:
        return self._f.flush()

    def close(self) -> None:
        if not self._closed_once:
            self.__dict__["_closed_once"] = True
            try:
                self._fs.effect("close", self._path)
            except OSError:
                self._f.close()
                raise
        return self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, n):
        return getattr(self.__dict__["_f"], n)

    def __setattr__(self, n, v):
        setattr(self._f, n, v)


def _install_fs() -> None:
    import torch

    for n in ("getcwd", "open", "write", "replace", "rename", "link", "symlink", "unlink", "remove", "mkdir", "rmdir", "fsync",
              "truncate", "ftruncate", "listdir", "scandir"):
        REAL["os." + n] = getattr(os, n)
    REAL["open"] = builtins.open
    R = REAL

    def sim_open(file, mode="r", *a, **k):
        fs = S.fs
        if fs is None or isinstance(file, int) or not fs.mine(file):
            return R["open"](file, mode, *a, **k)
        if any(c in mode for c in "wxa+"):
            fs.effect("open", file)
            return SimFile(fs, R["open"](file, mode, *a, **k), file, mode)
        fs.read_open(file)
        return R["open"](file, mode, *a, **k)

    builtins.open = sim_open
    io.open = sim_open

    def two(name):
        real = R["os." + name]

        def f(src, dst, *a, **k):
            fs = S.fs
            if fs is not None and (fs.mine(src) or fs.mine(dst)):
                fs.effect(name, dst if fs.mine(dst) else src)
            return real(src, dst, *a, **k)

        f.__name__ = name
        return f

    def one(name):
        real = R["os." + name]

        def f(path, *a, **k):
            fs = S.fs
            if fs is not None and not isinstance(path, int) and fs.mine(path):
                fs.effect(name, path)
            return real(path, *a, **k)

        f.__name__ = name
        return f

    for n in ("replace", "rename", "link", "symlink"):
        setattr(os, n, two(n))
    for n in ("unlink", "remove", "mkdir", "rmdir", "truncate"):
        setattr(os, n, one(n))

    fdpath: dict[int, Any] = {}

    def os_open(path, flags, *a, **k):
        fs = S.fs
        if fs is not None and fs.mine(path):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                fs.effect("open", path)
                fd = R["os.open"](path, flags, *a, **k)
                fdpath[fd] = path
                return fd
            if not os.path.isdir(path):
                fs.read_open(path)
        return R["os.open"](path, flags, *a, **k)

    def os_write(fd, data):
        fs = S.fs
        if fs is not None and fd in fdpath:
            f = fs.fault_for("write", fdpath[fd])
            if f is not None:
                part = int(len(data) * f.get("frac", 0.0))
                if part:
                    R["os.write"](fd, data[:part])
                fs.apply(f, "write", fdpath[fd])
        return R["os.write"](fd, data)

    def listdir(path="."):
        out = R["os.listdir"](path)
        fs = S.fs
        if fs is not None and not isinstance(path, int) and fs.mine(path):
            out = sorted(out)
            fs.rng.shuffle(out)
        return out

    class _Scan:
        def __init__(self, it):
            self.it = iter(it)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            return None

    def scandir(path="."):
        fs = S.fs
        if fs is not None and not isinstance(path, int) and fs.mine(path):
            with R["os.scandir"](path) as it:
                out = sorted(it, key=lambda e: e.name)
            fs.rng.shuffle(out)
            return _Scan(out)
        return R["os.scandir"](path)

    os.open, os.write, os.listdir, os.scandir = os_open, os_write, listdir, scandir

    # torch.save writes paths from C++: route path targets through the seam in a few chunks
    REAL["torch.save"] = torch.save

    def torch_save(obj, f, *a, **k):
        fs = S.fs
        if fs is None or not isinstance(f, (str, os.PathLike)) or not fs.mine(f):
            return R["torch.save"](obj, f, *a, **k)
        flt = fs.fault_for("open", f)
        if flt is not None:
            fs.apply(flt, "open", f, True)
        with R["open"](f, "wb", buffering=0) as out:
            buf = io.BytesIO()
            R["torch.save"](obj, buf, *a, **k)
            data = buf.getvalue()
            n = max(1, (len(data) + fs.chunks - 1) // fs.chunks)
            for i in range(0, len(data), n):
                chunk = data[i:i + n]
                flt = fs.fault_for("write", f)
                if flt is not None:
                    out.write(chunk[: int(len(chunk) * flt.get("frac", 0.0))])
                    fs.apply(flt, "write", f, True)
                out.write(chunk)
        flt = fs.fault_for("close", f)
        if flt is not None:
            fs.apply(flt, "close", f, True)

    torch_save.__doc__ = torch.save.__doc__
    torch.save = torch_save
    torch.serialization.save = torch_save


def install_base() -> None:
    """Install clock, identity and file-system shims (call after third-party imports, before qadence)."""
    _install_identity()
    _install_fs()
    _install_clock()
