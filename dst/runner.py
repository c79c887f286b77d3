"""Seeded search over simulated runs: forked workers, minimisation, replay files, evidence.

A property module provides:
  PROP, BOOT (extra modules to import), QUICK/THOROUGH (numbers of runs), RULE, LEVEL, REAL, STUB, ASSUME
  gen(rng, i, tier) -> plan           JSON-able; decides every operation, fault and schedule choice of one run
  execute(plan, ctx) -> None          runs it in a forked process; raises Violation / uses ctx to record
  SIMPLE  {path: simplest value}      optional scalar simplifications for minimisation
  LISTS   [list fields to ddmin]      optional
  fixed_plans(tier) -> [plan]         optional, always executed first (e.g. known findings, regression shapes)
"""
from __future__ import annotations

import copy
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
now = time.perf_counter  # bound before the seams are installed


class Violation(Exception):
    def __init__(self, cls: str, msg: str, sig: str | None = None):
        super().__init__(msg)
        self.cls = cls
        self.sig = sig or cls


class Ctx:
    """Per-run recorder."""

    def __init__(self, scratch: str):
        self.scratch = scratch
        self.log: list[str] = []
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = True
        self.state_keys: list[str] = []

    def ev(self, *a: Any) -> None:
        self.log.append(" ".join(str(x) for x in a).replace(self.scratch, "$SCRATCH"))

    def fault(self, kind: str, n: int = 1) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] = self.probes.get(name, 0) + n

    def check(self, cond: bool, cls: str, msg: str = "", sig: str | None = None) -> None:
        if not cond:
            raise Violation(cls, msg or cls, sig)


def derive(seed: int, prop: str, i: int) -> int:
    return int.from_bytes(hashlib.sha256(f"{seed}:{prop}:{i}".encode()).digest()[:8], "big")


def _child_setup() -> None:
    signal.signal(signal.SIGINT, signal.default_int_handler)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("DST_STDERR"):
        os.dup2(dn, 2)


def seed_all(seed: int) -> None:
    import numpy as np
    import torch
    from .seams import S
    random.seed(seed)
    np.random.seed(seed % (2**32))
    torch.manual_seed(seed)
    S.urandom = random.Random(seed ^ 0x5EED)


def run_forked(mod: Any, plan: dict, timeout: float) -> dict:
    """Execute one plan in a fresh fork; never raises for simulated trouble."""
    r, w = os.pipe()
    scratch = tempfile.mkdtemp(prefix="dst-")
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            _child_setup()
            os.chdir(scratch)
            res = _run_here(mod, plan, scratch)
            data = pickle.dumps(res)
            from .seams import REAL
            wr = REAL.get("os.write", os.write)
            buf = struct.pack(">Q", len(data)) + data
            while buf:
                n = wr(w, buf)
                buf = buf[n:]
        except BaseException:
            code = 3
            try:
                os.write(w, b"")
            except Exception:
                pass
            if os.environ.get("DST_STDERR"):
                traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    deadline = now() + timeout
    data = b""
    timed_out = False
    while True:
        left = deadline - now()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 1.0))
        if rl:
            try:
                b = os.read(r, 1 << 16)
            except InterruptedError:
                continue
            if not b:
                break
            data += b
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        _, status = os.waitpid(pid, 0)
    except ChildProcessError:
        status = 0
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {"outcome": "timeout"}
    if len(data) < 8:
        return {"outcome": "died", "status": status}
    n = struct.unpack(">Q", data[:8])[0]
    if len(data) < 8 + n:
        return {"outcome": "died", "status": status}
    return pickle.loads(data[8:])


def _from_qadence(e: BaseException) -> bool:
    """Whether the error was raised by qadence (or below it) in a call of the harness that handles no error, not by the harness itself."""
    if isinstance(e, (SystemExit, KeyboardInterrupt, MemoryError, ImportError, AttributeError)):
        return False
    from .boot import REPO
    qa = os.path.join(os.path.realpath(REPO), "qadence") + os.sep
    here, last = os.path.dirname(os.path.realpath(__file__)) + os.sep, None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.realpath(f.filename)
        last = "q" if name.startswith(qa) else "h" if name.startswith(here) else last
    return last == "q"


def _run_here(mod: Any, plan: dict, scratch: str) -> dict:
    from .seams import SimBudget
    ctx = Ctx(scratch)
    seed_all(plan.get("rng", 0))
    res: dict[str, Any] = {"outcome": "ok"}
    try:
        mod.execute(copy.deepcopy(plan), ctx)
    except Violation as v:
        res = {"outcome": "violation", "cls": v.cls, "msg": str(v)[:2000], "sig": v.sig}
    except SimBudget as e:
        res = {"outcome": "violation", "cls": "no-progress", "msg": f"step budget exhausted: {e}", "sig": "no-progress"}
    except BaseException as e:
        if _from_qadence(e):
            res = {"outcome": "violation", "cls": "unexpected-error", "sig": "unexpected-error",
                   "msg": f"a call that should work raised {type(e).__name__}: {str(e)[:500]} ({traceback.format_exc()[-600:]})"}
        else:
            res = {"outcome": "harness", "msg": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-6000:]}
    finally:
        from .seams import S
        S.fs = S.clock = S.dist = S.spawn = None
        S.pid = None
    res["hash"] = hashlib.sha256("\n".join(ctx.log).encode()).hexdigest()
    res["nlog"] = len(ctx.log)
    res["log_head"] = ctx.log[:60]
    if os.environ.get("DST_FULLLOG"):
        res["log"] = ctx.log
    res["faults"], res["probes"] = ctx.faults, ctx.probes
    res["sim_time"], res["steps"], res["nontrivial"] = ctx.sim_time, ctx.steps, ctx.nontrivial
    res["state_keys"] = ctx.state_keys[:200]
    return res


# ------------------------------------------------------------------------------------------- known findings
def known_findings(prop: str) -> list[dict]:
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == prop]


# ------------------------------------------------------------------------------------------- minimisation
def _get(plan: Any, path: str) -> Any:
    for k in path.split("."):
        if isinstance(plan, list):
            k = int(k)
            if k >= len(plan):
                raise KeyError(path)
        plan = plan[k]
    return plan


def _set(plan: Any, path: str, v: Any) -> None:
    ks = path.split(".")
    for k in ks[:-1]:
        plan = plan[int(k)] if isinstance(plan, list) else plan[k]
    if isinstance(plan, list):
        plan[int(ks[-1])] = v
    else:
        plan[ks[-1]] = v


def candidates(mod: Any, plan: dict):
    """Smaller plans, most aggressive first."""
    if hasattr(mod, "shrink"):
        yield from mod.shrink(plan)
    for path in getattr(mod, "LISTS", []):
        try:
            xs = _get(plan, path)
        except (KeyError, TypeError):
            continue
        lo = getattr(mod, "LIST_MIN", {}).get(path, 0)
        n = len(xs)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                ys = xs[:i] + xs[i + size:]
                if len(ys) >= lo and len(ys) < n:
                    q = copy.deepcopy(plan)
                    _set(q, path, ys)
                    yield q
            size //= 2
    for path, simple in getattr(mod, "SIMPLE", {}).items():
        try:
            v = _get(plan, path)
        except (KeyError, TypeError):
            continue
        if v == simple:
            continue
        tries = [simple]
        if isinstance(v, int) and not isinstance(v, bool) and isinstance(simple, int) and not isinstance(simple, bool):
            if abs(v - simple) > 1:
                tries += [(v + simple) // 2, v - 1 if v > simple else v + 1]
        for t in tries:
            if t != v:
                q = copy.deepcopy(plan)
                _set(q, path, t)
                yield q


def _run_many(mod: Any, plans: list[dict], timeout: float, workers: int) -> list[dict]:
    """Run several plans concurrently (one forked helper each), results in order."""
    out: list[dict | None] = [None] * len(plans)
    active: dict[int, tuple[int, int]] = {}
    nxt = 0
    while nxt < len(plans) or active:
        while nxt < len(plans) and len(active) < workers:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    data = pickle.dumps(run_forked(mod, plans[nxt], timeout))
                    while data:
                        data = data[os.write(w, data):]
                finally:
                    os._exit(0)
            os.close(w)
            active[r] = (nxt, pid)
            nxt += 1
        rl, _, _ = select.select(list(active), [], [])
        for r in rl:
            i, pid = active.pop(r)
            data = b""
            while True:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                data += b
            os.close(r)
            os.waitpid(pid, 0)
            out[i] = pickle.loads(data) if data else {"outcome": "died"}
    return out  # type: ignore


def minimise(mod: Any, plan: dict, res: dict, workers: int, budget_s: float, timeout: float) -> tuple[dict, dict, int]:
    t0 = now()
    tried = 0
    improved = True
    seen = set()
    while improved and now() - t0 < budget_s:
        improved = False
        batch: list[dict] = []
        gen = candidates(mod, plan)
        done = False
        while not done and now() - t0 < budget_s:
            batch = []
            for q in gen:
                key = json.dumps(q, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                batch.append(q)
                if len(batch) >= workers:
                    break
            if not batch:
                break
            results = _run_many(mod, batch, timeout, workers)
            tried += len(batch)
            for q, r in zip(batch, results):
                if r["outcome"] == "violation" and r["cls"] == res["cls"] and r["sig"] == res["sig"]:
                    plan, res = q, r
                    improved = True
                    done = True
                    break
    return plan, res, tried


# ------------------------------------------------------------------------------------------- main entry
def load_prop(prop: str) -> Any:
    import importlib
    return importlib.import_module(f"dst.props.{prop.lower()}")


def write_replay(prop: str, seed: int, index: int, plan: dict, res: dict, orig: dict | None) -> str:
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12]}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "run": index, "violation": {k: res.get(k) for k in ("cls", "msg", "sig")},
                   "event_log_sha256": res.get("hash"), "plan": plan, "event_log_head": res.get("log_head"),
                   "original_plan": orig}, f, indent=1, sort_keys=True)
    return path


def main(argv: list[str]) -> int:
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--hashes", help="write the event-log hash of every run to this file")
    ap.add_argument("--one", type=int, help="run one index verbosely")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    t0 = now()
    print(f"dst property={prop} seed={seed} tier={tier}", flush=True)
    mod = load_prop(prop)
    from .boot import boot
    boot(getattr(mod, "BOOT", ()))
    if hasattr(mod, "warm"):
        sys.stdout.flush()
        keep = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        mod.warm()
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(dn)
        os.close(keep)
    import gc
    gc.collect()
    gc.freeze()
    timeout = float(getattr(mod, "RUN_TIMEOUT", 60.0))
    workers = a.workers or min(8, os.cpu_count() or 1)

    if a.replay:
        rec = json.load(open(a.replay))
        res = run_forked(mod, rec["plan"], timeout * 2)
        if res["outcome"] == "timeout":
            res = {"outcome": "violation", "cls": "hang", "sig": "hang", "msg": "no result within the wall limit", "hash": None}
        print(json.dumps({k: res.get(k) for k in ("outcome", "cls", "msg", "hash", "tb")}, indent=1))
        if res["outcome"] == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if res["outcome"] == "ok" else 2
    fixed = list(mod.fixed_plans(tier)) if hasattr(mod, "fixed_plans") else []
    n = a.runs if a.runs is not None else (mod.THOROUGH if tier == "thorough" else mod.QUICK)

    def plan_for(i: int) -> dict:
        if i < len(fixed):
            p = copy.deepcopy(fixed[i])
            p.setdefault("rng", 12345 + i)
            return p
        s = derive(seed, prop, i - len(fixed))
        p = mod.gen(random.Random(s), i - len(fixed), tier)
        p.setdefault("rng", s % (2**31))
        return p

    if a.one is not None:
        os.environ["DST_STDERR"] = "1"
        p = plan_for(a.one)
        print(json.dumps(p, indent=1))
        res = run_forked(mod, p, timeout)
        print(json.dumps({k: v for k, v in res.items() if k not in ("state_keys",)}, indent=1, default=str))
        return 0

    total = len(fixed) + n
    soft_deadline = t0 + float(getattr(mod, "WALL", {"quick": 240, "thorough": 3600})[tier])
    res_list = _pool(mod, plan_for, total, workers, timeout, soft_deadline)
    return _finish(mod, prop, seed, tier, a, t0, plan_for, res_list, total, len(fixed), workers, timeout)


def _pool(mod, plan_for, total, workers, timeout, soft_deadline) -> dict[int, dict]:
    """Static assignment i -> worker i % W, so that results never depend on worker timing."""
    procs = {}
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            nviol = 0
            for i in range(k, total, workers):
                if now() > soft_deadline or nviol >= 3:
                    break
                try:
                    res = run_forked(mod, plan_for(i), timeout)
                except BaseException:
                    res = {"outcome": "harness", "tb": traceback.format_exc()}
                if res["outcome"] in ("violation", "timeout", "died", "harness"):
                    nviol += 0 if _is_known(mod.PROP, res) else 0.25 if res["outcome"] == "harness" else 1
                data = pickle.dumps((i, res))
                data = struct.pack(">Q", len(data)) + data
                while data:
                    data = data[os.write(w, data):]
            os._exit(0)
        os.close(w)
        procs[r] = [pid, b""]
    out: dict[int, dict] = {}
    while procs:
        rl, _, _ = select.select(list(procs), [], [])
        for r in rl:
            b = os.read(r, 1 << 16)
            if not b:
                os.waitpid(procs[r][0], 0)
                os.close(r)
                del procs[r]
                continue
            procs[r][1] += b
            buf = procs[r][1]
            while len(buf) >= 8:
                n = struct.unpack(">Q", buf[:8])[0]
                if len(buf) < 8 + n:
                    break
                i, res = pickle.loads(buf[8:8 + n])
                out[i] = res
                buf = buf[8 + n:]
            procs[r][1] = buf
    return out


_KF: dict[str, list[dict]] = {}


def _is_known(prop: str, res: dict) -> dict | None:
    if prop not in _KF:
        _KF[prop] = known_findings(prop)
    if res.get("outcome") != "violation":
        return None
    for k in _KF[prop]:
        if k["signature"] == res.get("sig"):
            return k
    return None


def _finish(mod, prop, seed, tier, a, t0, plan_for, results, total, nfixed, workers, timeout) -> int:
    viol, harness, known = [], [], {}
    for i in sorted(results):
        r = results[i]
        if r["outcome"] == "violation":
            k = _is_known(prop, r)
            if k:
                known.setdefault(k["signature"], [0, k])[0] += 1
            else:
                viol.append(i)
        elif r["outcome"] in ("timeout", "died"):
            viol.append(i)      # confirmed below
        elif r["outcome"] == "harness":
            harness.append(i)
    if a.hashes:
        with open(a.hashes, "w") as f:
            for i in sorted(results):
                f.write(f"{i} {results[i]['outcome']} {results[i].get('hash')}\n")
    for sig, (cnt, k) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']} (seen in {cnt} runs)")
    replay = None
    nviol = 0
    err = None
    for i in viol:
        r = results[i]
        plan = plan_for(i)
        if r["outcome"] in ("timeout", "died"):
            again = [run_forked(mod, plan, timeout * 2) for _ in range(2)]
            if all(x["outcome"] == r["outcome"] for x in again):
                r = {"outcome": "violation", "cls": "hang" if r["outcome"] == "timeout" else "process-died",
                     "sig": "hang", "msg": f"run did not finish within {timeout * 2:.0f} s wall, twice again"
                     if r["outcome"] == "timeout" else f"process died: {r}"}
            else:
                bad = [x for x in again if x["outcome"] not in ("ok",)]
                if not bad:
                    # machine stall; the plan itself terminates and holds
                    results[i] = again[0]
                    continue
                r = bad[0]
                if r["outcome"] != "violation":
                    err = f"run {i}: {r}"
                    continue
        if r["outcome"] != "violation":
            continue
        nviol += 1
        if replay is not None:
            continue
        again = run_forked(mod, plan, timeout)
        loose = False
        if r["cls"] not in ("hang", "process-died") and (again["outcome"], again.get("hash")) != ("violation", r.get("hash")):
            # not the same execution: something outside the seams was drawn. It still counts if the plan fails every time.
            loose = all(x["outcome"] == "violation" for x in [again] + [run_forked(mod, plan, timeout) for _ in range(3)])
        if r["cls"] not in ("hang", "process-died") and not loose and (again["outcome"], again.get("hash")) != ("violation", r.get("hash")):
            err = f"run {i} is not reproducible: {r.get('cls')}/{r.get('hash')} vs {again.get('outcome')} {again.get('cls')}/{again.get('hash')}"
            nviol -= 1
            continue
        small, rs, tried = (plan, r, 0) if loose or r["cls"] in ("hang", "process-died") else \
            minimise(mod, plan, r, workers, float(getattr(mod, "MIN_S", 60.0)), timeout)
        path = write_replay(prop, seed, i, small, rs, plan)
        # replay in a fresh interpreter must fail the same way
        env = dict(os.environ)
        pr = subprocess.run([sys.executable, "-W", "ignore", "-m", "dst.check", prop, "--replay", path], cwd=HERE, env=env,
                            capture_output=True, text=True)
        if pr.returncode == 1 and (loose or rs["cls"] in pr.stdout):
            replay = path
            if loose:
                print("note: the code draws on something outside the seams; every execution of this plan failed, but not identically")
            print(f"violation class={rs['cls']}: {rs['msg']}")
            print(f"run={i} seed={seed} minimised with {tried} extra runs; replay confirmed in a fresh process")
        else:
            # fall back to the unminimised plan
            path = write_replay(prop, seed, i, plan, r, None)
            pr = subprocess.run([sys.executable, "-W", "ignore", "-m", "dst.check", prop, "--replay", path], cwd=HERE, env=env,
                                capture_output=True, text=True)
            if pr.returncode == 1:
                replay = path
                print(f"violation class={r['cls']}: {r['msg']}")
            else:
                err = f"run {i} did not replay in a fresh process: {pr.stdout[-500:]} {pr.stderr[-500:]}"
                nviol -= 1
    wall = now() - t0
    if not a.no_evidence:
        _evidence(mod, prop, seed, tier, results, plan_for, nfixed, wall, nviol, known, workers)
    done = len(results)
    cl: dict[str, int] = {}
    for r in results.values():
        if r["outcome"] != "ok":
            c = r.get("cls", r["outcome"])
            cl[c] = cl.get(c, 0) + 1
    if cl:
        print("outcomes:", cl)
    print(f"runs={done}/{total} wall={wall:.1f}s violations={nviol} known={sum(c for c, _ in known.values())} harness_errors={len(harness)}")
    if replay:
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    if err:
        print("HARNESS-ERROR:", err)
        return 2
    if harness:
        print("HARNESS-ERROR in run", harness[0], results[harness[0]].get("tb"))
        return 2
    missing = [k for k in _KF.get(prop, known_findings(prop)) if k["signature"] not in known]
    for k in missing:
        print(f"note: listed finding not observed in this run: {k['signature']}")
    if done < min(total, max(20, total // 4)):
        print("HARNESS-ERROR: too few runs completed before the soft deadline")
        return 2
    return 0


def _evidence(mod, prop, seed, tier, results, plan_for, nfixed, wall, nviol, known, workers) -> None:
    faults: dict[str, int] = {}
    probes: dict[str, int] = {}
    sim_time = 0.0
    steps = 0
    hashes = set()
    states = set()
    evals = 0
    for i, r in results.items():
        if r["outcome"] in ("timeout", "died", "harness"):
            continue
        evals += 1
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        sim_time += r.get("sim_time", 0.0)
        steps += r.get("steps", 0)
        if r.get("nontrivial"):
            hashes.add(r.get("hash"))
        states.update(r.get("state_keys", []))
    idx = sorted(results)
    sample_ids = idx[nfixed:nfixed + 2] or idx[:1]
    samples = [{"run": i, "plan": plan_for(i), "events": results[i].get("log_head", [])[:25]} for i in sample_ids]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": mod.RULE, "samples": samples,
                       "runs_per_hour": round(evals / max(wall, 1e-6) * 3600), "seeds_per_hour": round(evals / max(wall, 1e-6) * 3600),
                       "simulated_seconds": round(sim_time, 3), "simulated_steps": steps,
                       "faults_injected": faults, "probes": probes,
                       "distinct_interleavings_or_states": len(hashes) + len(states),
                       "distinct_event_histories": len(hashes), "distinct_states": len(states),
                       "distinct_measure": "sha256 of the complete event log of a run (operations, scheduling decisions, faults, observations); states: property-specific abstract states",
                       "components_real": mod.REAL, "components_stubbed": mod.STUB, "workers": workers,
                       "known_findings_seen": {s: c for s, (c, _) in known.items()}},
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
