"""C06: concurrent callers never affect each other.

Real threads, but only the holder of the baton runs. At every event inside the library
(source line or bytecode instruction) a seeded scheduler decides who runs next."""
import copy
import json
import os
import sys
import threading
import traceback

import numpy as np

from fsim import c07, c08, c12, core, env, ops, probe

PROPERTY, LEVEL, FAKE_JEIG = "C06", "exploration", False
TOL, TOL_GRAD, TOL32 = 1e-7, 1e-5, 3e-2
STALL = 40  # seconds without any event before the baton is taken away


def runs(tier):
    return 1600 if tier == "quick" else 20000


def budget(tier):
    return 60 if tier == "quick" else 1500


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)
    c07.c12_warm()
    ctx.traces = {}
    ctx.refs = {}
    ctx.refs32 = {}


def gen(r, i):
    def one():
        if i % 8 in (2, 5) and r.random() < 0.5:
            return {"op": "expand", "seed": int(r.integers(0, 6)), "lats": 2}
        op = c08.base_op(r, i)
        op["seed"] = int(r.integers(0, 4))
        if r.random() < 0.3 and op["op"] != "pml":
            op["expmod"] = str(r.choice(["swap", "rev"]))
        if op["op"] in ("stack", "scan") and r.random() < 0.5:
            op["x64solve"] = True
        return op
    first = one()
    threads = [{"op": first, "mode": "direct"}]
    for _ in range(int(r.choice([1, 1, 2]))):
        x = r.random()
        if x < 0.35:
            op = copy.deepcopy(first)
            op["seed"] = (int(op["seed"]) + int(r.integers(0, 4))) % 6
            if op["op"] not in ("pml", "expand"):
                op["expmod"] = "swap"
        elif x < 0.6:
            op = copy.deepcopy(first)
        else:
            op = one()
        threads.append({"op": op, "mode": "direct"})
    for t in threads:
        if r.random() < 0.12 and t["op"]["op"] != "expand":
            t["mode"] = "jit"
    kind = "line" if r.random() < 0.6 else "instr"
    policy = str(r.choice(["random", "focus", "focus", "points"]))
    return {"threads": threads, "kind": kind, "policy": policy, "sched": int(r.integers(0, 2**31)),
            "p": float(r.choice([0.003, 0.02, 0.1, 0.5])), "spots": [round(float(x), 6) for x in r.random(size=int(r.integers(1, 4)))],
            "observer": bool(r.random() < 0.5), "cold": bool(r.random() < 0.7), "share": bool(r.random() < 0.5),
            "x64": bool(r.random() < 0.85)}


# ---------------------------------------------------------------------------
# Scheduler
# ---------------------------------------------------------------------------


class Deadlock(BaseException):
    pass


class Task:
    def __init__(self, name):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked_on = None
        self.result = None
        self.error = None
        self.ident = None


class Scheduler:
    def __init__(self, seed, decide):
        self.r = np.random.default_rng(seed)
        self.decide = decide
        self.tasks = []
        self.current = None
        self.events = 0
        self.switches = 0
        self.trace = []
        self.finished = threading.Event()
        self.deadlock = None
        self.by_ident = {}
        self.broken = False

    def runnable(self, exclude=None):
        return [t for t in self.tasks if not t.done and t is not exclude and (t.blocked_on is None or t.blocked_on.free_for(t))]

    def hand_over(self, me, target):
        self.switches += 1
        self.current = target
        target.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.deadlock:
                raise Deadlock()

    def event(self, code, line, kind):
        me = self.by_ident.get(threading.get_ident())
        if me is None or self.broken or me is not self.current:
            return
        self.events += 1
        if not self.decide(self, me, code, line):
            return
        others = self.runnable(exclude=me)
        if not others:
            return
        if nested_compile(sys._getframe(3)):
            return
        target = others[int(self.r.integers(0, len(others)))]
        if len(self.trace) < 200:
            self.trace.append((me.name, probe.where(code, line), target.name))
        self.hand_over(me, target)

    def pause(self, me):
        """Voluntary yield of a simulator task."""
        others = self.runnable(exclude=me)
        if others:
            self.hand_over(me, others[int(self.r.integers(0, len(others)))])

    def block(self, me, lock):
        """The task waits for a lock of the library."""
        while not lock.free_for(me):
            me.blocked_on = lock
            others = self.runnable(exclude=me)
            if not others:
                self.fail("all threads wait for locks: " + ", ".join(f"{t.name} waits" for t in self.tasks if not t.done))
                raise Deadlock()
            self.hand_over(me, others[int(self.r.integers(0, len(others)))])
        me.blocked_on = None

    def fail(self, why):
        self.deadlock = why
        for t in self.tasks:
            t.sem.release()
        self.finished.set()

    def leave(self, me):
        me.done = True
        if all(t.done for t in self.tasks):
            self.finished.set()
            return
        others = self.runnable(exclude=me)
        if others:
            self.hand_over(me, others[int(self.r.integers(0, len(others)))])
        elif not self.deadlock:
            self.fail("no thread can run: " + ", ".join(t.name for t in self.tasks if not t.done))


ACTIVE = [None]


class SimLock:
    """Stands in for locks created by library code, so that waiting is a scheduling event."""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant
        self.real = threading._RLock() if reentrant else threading._allocate_lock()

    def free_for(self, t):
        return self.owner is None or (self.reentrant and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE[0]
        me = s.by_ident.get(threading.get_ident()) if s else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        if not self.free_for(me):
            if not blocking:
                return False
            s.block(me, self)
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        s = ACTIVE[0]
        me = s.by_ident.get(threading.get_ident()) if s else None
        if me is None and self.owner is None:
            return self.real.release()
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


def instance():
    """A fresh instance whose own locks are simulated."""
    real = threading.Lock, threading.RLock

    def mk(orig, re):
        def f(*a):
            fn = sys._getframe(1).f_code.co_filename
            return SimLock(re) if fn.startswith(env.PKG_DIR) else orig(*a)
        return f
    threading.Lock, threading.RLock = mk(real[0], False), mk(real[1], True)
    try:
        return c08.fresh_instance()
    finally:
        threading.Lock, threading.RLock = real


def nested_compile(frame):
    """True if library code is being traced by a compiled function the library itself
    called (jax makes other callers of that function wait, which is not ours to schedule)."""
    below = 0
    f = frame
    while f is not None:
        fn = f.f_code.co_filename
        if fn.endswith(("/pjit.py", "/linear_util.py", "/api_util.py", "/partial_eval.py")) and "/jax/_src/" in fn:
            below = 1
        elif below and fn.startswith(env.PKG_DIR):
            return True
        f = f.f_back
    return False


# ---------------------------------------------------------------------------
# Runs
# ---------------------------------------------------------------------------


def quick_settings():
    import jax
    import warnings
    return (str(np.asarray(jax.numpy.asarray(np.ones(1))).dtype), bool(jax.config.jax_enable_x64), str(jax.config.jax_default_matmul_precision),
            str(jax.config.jax_default_device), bool(jax.config.jax_debug_nans), bool(jax.config.jax_disable_jit),
            str(sorted(np.geterr().items())), str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
            repr(warnings.filters), hash(str(np.random.get_state()[1][:5])), os.getcwd(), str(sorted(os.environ)))


SETTING_NAMES = ("default float type", "jax_enable_x64", "jax_default_matmul_precision", "jax_default_device", "jax_debug_nans", "jax_disable_jit",
                 "np.seterr", "np.printoptions", "warnings.filters", "np.random", "cwd", "environ")


def spots_of(ctx, spec):
    """Distinct points the threads pass, from undisturbed runs."""
    out = set()
    for t in spec["threads"]:
        ev = c07.trace(ctx, {"op": t["op"], "mode": t["mode"], "numpy": False}, "line")
        out |= set(ev)
    return sorted(out)


def reference(ctx, op, x64):
    key = json.dumps(op, sort_keys=True) + str(x64)
    if key not in ctx.refs:
        if len(ctx.refs) > 100:
            ctx.refs.clear()
        ctx.refs[key] = c08.reference(op)
    return ctx.refs[key]


def execute(spec, ctx):
    import jax
    old = jax.config.jax_enable_x64
    jax.config.update("jax_enable_x64", spec["x64"])
    try:
        return execute_(spec, ctx)
    finally:
        jax.config.update("jax_enable_x64", old)
        ACTIVE[0] = None


def execute_(spec, ctx):
    fm = instance()
    codes = probe.code_objects(fm)
    ses = [c07.Session(fm, False) for _ in spec["threads"]]
    refs = [reference(ctx, t["op"], spec["x64"]) for t in spec["threads"]]
    args = []
    shared = {}
    for s, t in zip(ses, spec["threads"]):
        key = json.dumps(t["op"], sort_keys=True)
        if spec["share"] and key in shared:
            args.append(shared[key])
        else:
            shared[key] = s.prepare(t["op"])
            args.append(shared[key])
    if not spec["cold"]:
        ses[0].call(spec["threads"][0]["op"], "direct", args[0])

    focus = set()
    if spec["policy"] in ("focus", "points"):
        sp = spots_of(ctx, spec)
        if sp:
            focus = {sp[int(x * len(sp))] for x in spec["spots"]}
            if spec["policy"] == "points":
                focus |= {s for s in sp if (s[0], s[1]) in {(f[0], f[1]) for f in focus}}

    def decide(s, me, code, line):
        if spec["policy"] == "random":
            return s.r.random() < spec["p"]
        ln = probe.line_of(code, line) if spec["kind"] == "instr" else line
        if (code.co_filename, code.co_qualname, ln) in focus:
            return s.r.random() < (0.15 if spec["kind"] == "instr" and spec["policy"] == "points" else 0.5)
        return s.r.random() < 0.0005

    sch = Scheduler(spec["sched"], decide)
    before = c12.settings()
    qs = quick_settings()
    frozen = [{k: np.array(v).tobytes() for k, v in a[1].items()} for a in args]
    observed = []

    def body(task, fn):
        task.ident = threading.get_ident()
        sch.by_ident[task.ident] = task
        task.sem.acquire()
        try:
            if not sch.deadlock:
                task.result = fn(task)
        except Deadlock:
            pass
        except BaseException as e:  # noqa: BLE001
            task.error = e
        finally:
            sch.leave(task)

    def observer(task):
        # looks at the process settings whenever it is scheduled
        for _ in range(200):
            now = quick_settings()
            if now != qs:
                observed.append([(n, a, b) for n, a, b in zip(SETTING_NAMES, qs, now) if a != b][0])
                return
            if all(t.done for t in sch.tasks if t is not task):
                return
            sch.pause(task)

    threads = []
    for n, (s, t, a) in enumerate(zip(ses, spec["threads"], args)):
        task = Task(f"T{n}")
        sch.tasks.append(task)
        threads.append(threading.Thread(target=body, args=(task, lambda task, s=s, t=t, a=a: s.call(t["op"], t["mode"], a)), daemon=True))
    if spec["observer"]:
        task = Task("observer")
        sch.tasks.append(task)
        threads.append(threading.Thread(target=body, args=(task, observer), daemon=True))
    ACTIVE[0] = sch
    stalled = False
    with probe.Probe(fm, sch.event, spec["kind"], codes):
        for th in threads:
            th.start()
        import time
        while len(sch.by_ident) < len(threads):
            time.sleep(0.0005)
        start = sch.tasks[int(sch.r.integers(0, len(sch.tasks)))]
        sch.current = start
        start.sem.release()
        last, since, t0 = -1, time.time(), time.time()
        while not sch.finished.wait(0.5):
            now = (sch.events, sch.switches)
            if now != last:
                last, since = now, time.time()
            elif time.time() - since > STALL:
                # The holder waits for something outside the simulator; let everybody go.
                stalled = True
                ctx.probe("stall")
                sch.broken = True
                for t in sch.tasks:
                    t.sem.release()
                break
        for th in threads:
            th.join(60 if stalled else 20)
    ACTIVE[0] = None
    ctx.steps += sch.events
    ctx.fault("preemption", sch.switches)
    ctx.fault("granularity-" + spec["kind"])
    ctx.state(spec["policy"], [t["op"]["op"] for t in spec["threads"]], sch.trace)
    alive = [t.name for t, th in zip(sch.tasks, threads) if th.is_alive()]
    names = "+".join(sorted({t["op"]["op"] for t in spec["threads"]}))
    if sch.deadlock or alive:
        return core.violation(f"deadlock:{names}", f"{sch.deadlock or 'threads never finished: ' + str(alive)}; last switches {sch.trace[-4:]}")
    for t, task, ref in zip(spec["threads"], sch.tasks, refs):
        if task.error is not None:
            e = task.error
            if not core.in_library(e):
                raise core.HarnessError("".join(traceback.format_exception(e)))
            return core.violation(f"raises:{t['op']['op']}", f"{t['op']['op']} ({task.name}) raised {type(e).__name__}: {str(e)[:300]} when run concurrently with {names}; switches {sch.trace[-6:]}")
        tol = TOL32 if not spec["x64"] else TOL_GRAD if t["op"]["op"] in ("grad", "utils") else TOL
        e, name = ops.compare(task.result, ref, tol)
        ctx.dev(("" if spec["x64"] else "f32-") + t["op"]["op"], e)
        if e > tol:
            return core.violation(f"differs:{t['op']['op']}", f"{t['op']['op']} ({task.name}) result {name} differs by {e:.3g} from the same call run alone; run with {names}; switches {sch.trace[-6:]}")
        for k in ref:
            if not k.endswith("!") and task.result[k].dtype != ref[k].dtype:
                return core.violation(f"dtype:{t['op']['op']}", f"{t['op']['op']} ({task.name}) result {k} has type {task.result[k].dtype} instead of {ref[k].dtype}; switches {sch.trace[-6:]}")
    if observed:
        return core.violation("observed-setting", f"another thread saw {observed[0][0]} change from {observed[0][1][:200]} to {observed[0][2][:200]} while {names} ran; switches {sch.trace[-3:]}")
    d = c12.diff(before, c12.settings())
    if d:
        return core.violation("setting-changed", f"after concurrent {names}: {d}")
    for a, f in zip(args, frozen):
        for k, v in a[1].items():
            if np.array(v).tobytes() != f[k]:
                return core.violation("argument-changed", f"argument {k} of {names} was modified")
    return None


def nontrivial(spec):
    return len(spec["threads"]) > 1


def shrink(spec):
    if spec["observer"]:
        s = copy.deepcopy(spec); s["observer"] = False; yield s
    for i in range(len(spec["threads"])):
        if len(spec["threads"]) > 1:
            s = copy.deepcopy(spec); del s["threads"][i]; yield s
    for i, t in enumerate(spec["threads"]):
        if t["mode"] == "jit":
            s = copy.deepcopy(spec); s["threads"][i]["mode"] = "direct"; yield s
    for i in range(len(spec["spots"])):
        if len(spec["spots"]) > 1:
            s = copy.deepcopy(spec); del s["spots"][i]; yield s
    if spec["kind"] == "instr":
        s = copy.deepcopy(spec); s["kind"] = "line"; yield s


RULE = ("one run = 2-3 threads (plus, in half the runs, an observer of process settings), each making public calls with equal-shaped different or shared "
        "arguments, on an instance with or without warm caches; at every source line or instruction of library code a seeded scheduler chooses who runs "
        "next (at random, at focus lines, or throughout focus functions); non-trivial = two or more calling threads")
STATES = "distinct interleavings, by the sequence of the first 200 context switches (from, source position, to)"
COMPONENTS = {"real": ["all of fmmax on jax/CPU, real Python threads"], "stub": ["thread scheduling", "locks created by library code (none on the shipped tree)"]}
ASSUMPTIONS = ["threads are preempted inside library code only; jax, numpy and the interpreter are taken to be thread-safe",
               "library code traced by a compiled function that the library itself calls is not preempted"]
