"""Seeded simulation runner: workers, replay, minimisation, evidence.

A check module provides

    PROPERTY, LEVEL, FAKE_JEIG
    gen(r, i)           -> spec          one simulated run, as plain JSON data
    execute(spec, ctx)  -> None | dict   a violation {"class": ..., "detail": ...}
    shrink(spec)        -> iterable of simpler specs (optional)
    RULE, COMPONENTS, ASSUMPTIONS        texts for the evidence file
    runs(tier)          -> number of runs; budget(tier) -> seconds

Every choice of run number i is drawn from a generator seeded by (VERIF_SEED, property,
i): it does not depend on the number of workers, on time or on other runs.
"""
import collections
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

from fsim import env

OUT = os.path.join(env.VERIF, "out")


class Ctx:
    """Per-worker context: counters and the loaded library."""

    def __init__(self):
        self.faults = collections.Counter()   # fault kind -> times it actually fired
        self.probes = collections.Counter()   # rare condition -> times reached
        self.states = set()                   # digests of distinct interleavings/states
        self.steps = 0                        # simulated steps (the only notion of time)
        self.skipped = collections.Counter()
        self.maxdev = {}                      # comparison kind -> largest accepted deviation
        self.fm = None

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def dev(self, kind, value):
        if np.isfinite(value) and value > self.maxdev.get(kind, 0.0):
            self.maxdev[kind] = float(value)


def violation(cls, detail):
    return {"class": cls, "detail": str(detail)[:2000]}


def rng(seed, prop, i):
    h = hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:16], "little"))


class HarnessError(Exception):
    pass


def in_library(exc):
    """True if the exception passed through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(env.REPO + os.sep):
            return True
        tb = tb.tb_next
    if exc.__cause__ is not None:
        return in_library(exc.__cause__)
    return False


def run_one(mod, spec, ctx):
    """Executes one run. Unexpected exceptions out of the library are violations; any
    other exception is an error of the harness."""
    try:
        return mod.execute(spec, ctx)
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        if in_library(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb
                     if f.filename.startswith(env.REPO + os.sep)][-1:]
            return violation("unexpected-exception",
                             f"{type(e).__name__}: {str(e)[:600]} at {where}")
        if isinstance(e, (ValueError, TypeError, IndexError, ArithmeticError, np.linalg.LinAlgError)):
            # Results of a wrong shape, type or structure break the comparison itself.
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb
                     if f.filename.startswith(env.VERIF + os.sep)][-1:]
            return violation("malformed-result", f"{type(e).__name__}: {str(e)[:600]} at {where}")
        raise


# ---------------------------------------------------------------------------
# Worker side
# ---------------------------------------------------------------------------


def worker_main(argv):
    """python -m fsim.core worker <request.json>"""
    req = json.load(open(argv[0]))
    mod = importlib.import_module("fsim." + req["module"])
    env.boot(fake_jeig=mod.FAKE_JEIG)
    ctx = Ctx()
    out = {"results": [], "errors": []}
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    t0 = time.time()
    if req["mode"] == "search":
        prefix = []
        for i in req["indices"]:
            if time.time() > req["deadline"]:
                break
            spec = mod.gen(rng(req["seed"], mod.PROPERTY, i), i)
            spec = json.loads(json.dumps(spec))
            ts = time.time()
            try:
                v = run_one(mod, spec, ctx)
            except Exception:  # noqa: BLE001
                out["errors"].append({"i": i, "spec": spec, "tb": traceback.format_exc()[-3000:]})
                prefix.append(i)
                if len(out["errors"]) >= 3:
                    break
                continue
            digest = hashlib.blake2b(json.dumps(spec, sort_keys=True).encode(), digest_size=8).hexdigest()
            out["results"].append({"i": i, "digest": digest, "s": round(time.time() - ts, 3),
                                   "nontrivial": bool(mod.nontrivial(spec)) if hasattr(mod, "nontrivial") else True,
                                   "violation": v, "spec": spec if (v or i < 3) else None,
                                   "prefix": list(prefix) if v else None})
            prefix.append(i)
            if v:
                break
    elif req["mode"] == "replay":
        for s in req["prefix"]:
            try:
                run_one(mod, s, ctx)
            except Exception:  # noqa: BLE001
                pass
        out["violation"] = run_one(mod, req["spec"], ctx)
    elif req["mode"] == "minimise":
        spec, cls = req["spec"], req["class"]
        tried = accepted = 0
        improved = True
        last = None
        while improved and time.time() < req["deadline"]:
            improved = False
            for cand in mod.shrink(spec):
                if time.time() > req["deadline"]:
                    break
                cand = json.loads(json.dumps(cand))
                tried += 1
                try:
                    v = run_one(mod, cand, ctx)
                except Exception:  # noqa: BLE001
                    continue
                if v and v["class"] == cls:
                    spec, last, accepted, improved = cand, v, accepted + 1, True
                    break
        out.update(spec=spec, tried=tried, accepted=accepted, violation=last)
    out.update(faults=dict(ctx.faults), probes=dict(ctx.probes), states=sorted(ctx.states),
               steps=ctx.steps, skipped=dict(ctx.skipped), maxdev=ctx.maxdev, wall=time.time() - t0)
    if hasattr(mod, "worker_payload") and req["mode"] == "search":
        out["payload"] = mod.worker_payload(ctx)
    with open(req["out"], "w") as f:
        json.dump(out, f)
    sys.stdout.flush()
    os._exit(0)


# ---------------------------------------------------------------------------
# Parent side
# ---------------------------------------------------------------------------


def spawn(req, tmp, name, hashseed="0"):
    req = dict(req)
    req["out"] = os.path.join(tmp, name + ".out.json")
    path = os.path.join(tmp, name + ".req.json")
    with open(path, "w") as f:
        json.dump(req, f)
    log = open(os.path.join(tmp, name + ".log"), "w")
    e = env.worker_environ(hashseed)
    # The workers of one check share their XLA compilations. The cache starts empty, and
    # holds compiled kernels keyed by their program text: it cannot carry results.
    e.update(JAX_COMPILATION_CACHE_DIR=os.path.join(tmp, "xla"),
             JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
             JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")
    p = subprocess.Popen([env.PYTHON, "-m", "fsim.core", "worker", path],
                         env=e, cwd=env.VERIF,
                         stdout=log, stderr=subprocess.STDOUT)
    return p, req["out"], log.name


def wait(handle, timeout):
    p, out, log = handle
    try:
        p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, "timeout; log tail: " + open(log).read()[-1500:]
    if not os.path.exists(out):
        return None, f"exit {p.returncode}; log tail: " + open(log).read()[-1500:]
    return json.load(open(out)), None


def known_findings():
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


def run_check(module, tier, seed, workers=None, runs=None, keep=False, verbose=False):
    mod = importlib.import_module("fsim." + module)
    prop = mod.PROPERTY
    t0 = time.time()
    workers = workers or getattr(mod, "WORKERS", 8)
    workers = min(workers, os.cpu_count() or 8)
    n = runs or mod.runs(tier)
    budget = mod.budget(tier)
    deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix=f"fsim-{prop}-")
    print(f"fsim property={prop} tier={tier} seed={seed} runs={n} workers={workers} budget={budget}s", flush=True)
    try:
        return _run_check(mod, module, prop, tier, seed, workers, n, deadline, tmp, t0, verbose)
    finally:
        if not keep:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)


def _run_check(mod, module, prop, tier, seed, workers, n, deadline, tmp, t0, verbose):
    handles = []
    order = getattr(mod, "assign", None)
    for w in range(workers):
        idx = order(w, workers, n) if order else list(range(w, n, workers))
        handles.append(spawn({"mode": "search", "module": module, "seed": seed, "indices": idx,
                              "deadline": deadline}, tmp, f"w{w}",
                             hashseed=str((seed * 7919 + w * 104729) % 4294967295) if getattr(mod, "VARY_HASHSEED", True) else "0"))
    grace = getattr(mod, "GRACE", 150)
    outs, errors = [], []
    for h in handles:
        o, err = wait(h, deadline + grace - time.time())
        if o is None:
            errors.append(err)
        else:
            outs.append(o)
            errors.extend(f"run {e['i']}: {e['tb']}" for e in o["errors"])
    results = sorted((r for o in outs for r in o["results"]), key=lambda r: r["i"])
    viols = [r for r in results if r["violation"]]
    extra = None
    if not viols and hasattr(mod, "cross_check"):
        extra = mod.cross_check([o.get("payload") for o in outs])
    search_wall = time.time() - t0
    # ------- known findings: probes that must still fail exactly as listed
    for kf in known_findings():
        if kf.get("property") == prop and kf.get("status") == "known":
            print(f"KNOWN-FINDING: property={prop} {kf['what']}", flush=True)
    replay_path = None
    exit_code = 0
    nviol = len(viols) + (1 if extra else 0)
    if viols:
        replay_path = report(mod, module, prop, seed, viols[0], tmp, deadline)
        exit_code = 1
    elif extra:
        os.makedirs(OUT, exist_ok=True)
        replay_path = os.path.join(OUT, f"{prop}-seed{seed}-cross.json")
        json.dump({"property": prop, "module": module, "seed": seed, "cross": True, "violation": extra},
                  open(replay_path, "w"), indent=1)
        exit_code = 1
    elif errors or not results:
        exit_code = 3
    evidence(mod, prop, tier, seed, results, outs, n, search_wall, time.time() - t0, nviol, workers)
    for e in errors[:3]:
        print("HARNESS-ERROR", e[-2500:], flush=True)
    if verbose:
        for r in viols[:5]:
            print("violating run", r["i"], r["violation"])
    if exit_code == 0:
        print(f"held: {len(results)} runs, {search_wall:.0f}s", flush=True)
    if exit_code == 1:
        print(f"VIOLATION property={prop} replay={replay_path}", flush=True)
    return exit_code


def report(mod, module, prop, seed, r, tmp, deadline):
    """Minimises the violating run, confirms it in a fresh process, writes the replay."""
    os.makedirs(OUT, exist_ok=True)
    spec, cls, prefix_idx = r["spec"], r["violation"]["class"], r["prefix"]
    print(f"violation in run {r['i']}: {r['violation']}", flush=True)
    limit = time.time() + getattr(mod, "MINIMISE", 100)
    counter = [0]

    def replay(spec, prefix, timeout=180):
        counter[0] += 1
        h = spawn({"mode": "replay", "module": module, "spec": spec, "prefix": prefix}, tmp, f"r{counter[0]}")
        o, err = wait(h, timeout)
        return (o or {}).get("violation")

    mk = lambda i: json.loads(json.dumps(mod.gen(rng(seed, prop, i), i)))
    prefix = []
    v = replay(spec, [])
    reproduced = bool(v)
    if not v and prefix_idx:
        # The failure may need the history of the worker it occurred in.
        prefix = [mk(i) for i in prefix_idx]
        v = replay(spec, prefix, timeout=300)
        reproduced = bool(v)
        if v:
            size = len(prefix)
            while size >= 1 and time.time() < limit:
                size //= 2
                cut = prefix[len(prefix) - size:] if size else []
                v2 = replay(spec, cut)
                if v2:
                    prefix, v = cut, v2
                else:
                    break
    mini = {"tried": 0, "accepted": 0}
    if v:
        cls = v["class"]
    if v and not prefix and hasattr(mod, "shrink") and time.time() < limit:
        h = spawn({"mode": "minimise", "module": module, "spec": spec, "class": cls, "deadline": limit}, tmp, "min")
        o, err = wait(h, limit - time.time() + 60)
        if o:
            mini = {"tried": o["tried"], "accepted": o["accepted"]}
            if o["accepted"]:
                v2 = replay(o["spec"], [])
                if v2 and v2["class"] == cls:
                    spec, v = o["spec"], v2
    path = os.path.join(OUT, f"{prop}-seed{seed}-run{r['i']}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "module": module, "seed": seed, "run": r["i"],
                   "violation": v or r["violation"], "reproduced_in_fresh_process": reproduced,
                   "minimisation": mini, "prefix": prefix, "spec": spec,
                   "replay_cmd": f"cd /verif && bash run.sh --replay {path}"}, f, indent=1)
    print(f"minimised: {json.dumps(v or r['violation'])[:1500]}", flush=True)
    return path


def evidence(mod, prop, tier, seed, results, outs, planned, search_wall, wall, nviol, workers):
    faults, probes, skipped = collections.Counter(), collections.Counter(), collections.Counter()
    states, steps, maxdev = set(), 0, {}
    for o in outs:
        faults.update(o["faults"]); probes.update(o["probes"]); skipped.update(o["skipped"])
        states.update(o["states"]); steps += o["steps"]
        for k, x in o["maxdev"].items():
            maxdev[k] = max(maxdev.get(k, 0.0), x)
    digests = {r["digest"] for r in results if r["nontrivial"]}
    samples = [r["spec"] for r in results if r["spec"]][:3]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(digests),
            "rule": mod.RULE, "samples": samples,
            "runs_planned": planned,
            "runs_per_hour": round(3600 * len(results) / max(search_wall, 1e-9), 1),
            "simulated_steps": steps,
            "simulated_time": "the system has no clock; simulated time is counted in scheduler/fault-point steps",
            "faults_injected": dict(sorted(faults.items())),
            "rare_conditions_reached": dict(sorted(probes.items())),
            "distinct_states": len(states), "distinct_states_measure": getattr(mod, "STATES", "n/a"),
            "skipped": dict(sorted(skipped.items())),
            "largest_accepted_deviation": maxdev,
            "components": mod.COMPONENTS,
            "workers": workers, "search_wall_s": round(search_wall, 1),
        },
        "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def replay_file(path):
    req = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="fsim-replay-")
    h = spawn({"mode": "replay", "module": req["module"], "spec": req["spec"], "prefix": req.get("prefix", [])}, tmp, "r")
    o, err = wait(h, 600)
    if o is None:
        print("HARNESS-ERROR", err)
        return 3
    if o["violation"]:
        print(json.dumps(o["violation"], indent=1))
        print(f"VIOLATION property={req['property']} replay={path}")
        return 1
    print("not reproduced: the property holds on this replay")
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("module", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay_file(os.path.abspath(a.replay))
    return run_check(a.module, a.tier, a.seed, a.workers, a.runs, verbose=a.v)


if __name__ == "__main__":
    if sys.argv[1:2] == ["worker"]:
        from fsim import core as _core  # one module identity
        _core.worker_main(sys.argv[2:])
    else:
        from fsim import core as _core
        sys.exit(_core.main(sys.argv[1:]))
