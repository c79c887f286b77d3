"""Fork servers with their own hash seed.

The hash seed of an interpreter cannot be changed after start-up, so `start()` launches one interpreter per hash seed. Each boots the same system
and seams, listens on an abstract local socket, and forks one child per request that executes it with full control over the simulated environment.
"""
from __future__ import annotations

import ctypes
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time
from typing import Any

SOCKS: dict[int, str] = {}


def _send(s: socket.socket, obj: Any) -> None:
    d = pickle.dumps(obj)
    s.sendall(struct.pack(">Q", len(d)) + d)


def _recv(s: socket.socket) -> Any:
    def get(n: int) -> bytes:
        b = b""
        while len(b) < n:
            c = s.recv(n - len(b))
            if not c:
                raise EOFError("server went away")
            b += c
        return b
    return pickle.loads(get(struct.unpack(">Q", get(8))[0]))


def start(prop: str, hash_seeds: list[int]) -> None:
    procs = []
    for h in hash_seeds:
        name = f"dst-{os.getpid()}-{h}"
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        r, w = os.pipe()
        procs.append((h, name, r, subprocess.Popen([sys.executable, "-W", "ignore", "-m", "dst.zygote", prop, name, str(w)], env=env, pass_fds=[w],
                                                    stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=None if os.environ.get("DST_STDERR") else subprocess.DEVNULL)))
        os.close(w)
    for h, name, r, p in procs:
        ok = os.read(r, 1)
        os.close(r)
        if ok != b"1":
            raise RuntimeError(f"the interpreter with hash seed {h} did not start (exit {p.poll()})")
        SOCKS[h] = name


def call(hash_seed: int, req: Any) -> Any:
    s = socket.socket(socket.AF_UNIX)
    s.connect("\0" + SOCKS[hash_seed])
    try:
        _send(s, req)
        return _recv(s)
    finally:
        s.close()


def _serve() -> None:
    prop, name, wfd = sys.argv[1], sys.argv[2], int(sys.argv[3])
    parent = os.getppid()
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    if os.getppid() != parent:
        os._exit(0)
    from .boot import boot
    from .runner import load_prop
    mod = load_prop(prop)
    boot(mod.BOOT)
    mod.warm_server()
    s = socket.socket(socket.AF_UNIX)
    s.bind("\0" + name)
    s.listen(64)
    os.write(wfd, b"1")
    os.close(wfd)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = s.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            s.close()
            try:
                res = ("ok", mod.serve(_recv(c)))
            except BaseException as e:
                import traceback
                res = ("error", f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:])
            try:
                _send(c, res)
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    _ = time
    _serve()
