"""C07: an interrupted call leaves no trace and can be retried."""
import copy
import json
import signal

import numpy as np

from fsim import c08, c12, core, env, ops, probe

PROPERTY, LEVEL, FAKE_JEIG = "C07", "exploration", False
TOL, TOL_GRAD = 1e-7, 1e-5
HANG = 60


def runs(tier):
    return 1600 if tier == "quick" else 20000


def budget(tier):
    return 60 if tier == "quick" else 1500


class Interrupt(Exception):
    pass


class Hard(BaseException):
    pass


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError, "SystemExit": SystemExit,
       "Interrupt": Interrupt, "Hard": Hard, "OSError": OSError}


class Hang(BaseException):
    pass


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)
    c12_warm()
    ctx.traces = {}
    ctx.refs = {}
    ctx.seen = {}


def c12_warm():
    import jax
    import jax.numpy as jnp
    jax.jit(jax.vmap(jnp.linalg.solve))(jnp.ones((1, 2, 2)) + jnp.eye(2), jnp.ones((1, 2, 1)))
    jnp.linalg.eig(jnp.eye(2))
    jax.grad(lambda x: jnp.sum(jnp.fft.fft2(x).real))(jnp.ones((2, 2)))


def gen(r, i):
    if i % 8 == 5 and r.random() < 0.4:
        op = {"op": "expand", "seed": int(r.integers(0, 6)), "lats": 2}
    else:
        op = c08.base_op(r, i)
        op["seed"] = int(r.integers(0, 4))
        if r.random() < 0.2 and op["op"] != "pml":
            op["expmod"] = "swap"
    mode = "jit" if r.random() < 0.2 and op["op"] != "expand" else "direct"
    crashes = [{"kind": str(r.choice(["line", "call"])), "where": round(float(r.random()), 6), "which": round(float(r.random()), 6),
                "exc": str(r.choice(sorted(EXC)))} for _ in range(int(r.choice([1, 1, 1, 2])))]
    after = []
    for _ in range(int(r.choice([1, 1, 2]))):
        after.append({"same": bool(r.random() < 0.55), "mode": mode if r.random() < 0.7 else "direct",
                      "seed": int(r.integers(0, 4)), "expmod": str(r.choice(["", "swap"]))})
    if not any(a["same"] for a in after):
        after[-1]["same"] = True
    return {"op": op, "mode": mode, "crashes": crashes, "after": after, "x64": True, "numpy": bool(r.random() < 0.4)}


def other(op, a):
    if a["same"]:
        return op
    op = copy.deepcopy(op)
    op["seed"] = a["seed"]
    op.pop("expmod", None)
    if a["expmod"] and op["op"] not in ("pml", "expand"):
        op["expmod"] = a["expmod"]
    return op


class Session:
    """One client of one library instance."""

    def __init__(self, fm, numpy_args):
        self.fm = fm
        self.jits = {}
        self.numpy = numpy_args

    def prepare(self, op):
        A = ops.arrays(op, [0], ()) if op["op"] != "expand" else {}
        objs = c08.records(self.fm, op) if op["op"] != "expand" else {}
        return objs, (dict(A) if self.numpy else ops.jx(A))

    def call(self, op, mode, args):
        import jax
        import jax.numpy as jnp
        objs, A = args
        if mode == "jit":
            key = json.dumps(c08.structure(op), sort_keys=True, default=str)
            if key not in self.jits:
                fixed = copy.deepcopy(op)
                self.jits[key] = jax.jit(lambda o, a: {k: jnp.asarray(v) for k, v in c08.call(self.fm, fixed, o, a).items()})
            return ops.to_np(self.jits[key](objs, A))
        return ops.to_np(c08.call(self.fm, op, objs, A))


NUMPY_OK = ("stack", "scan", "sops", "vector", "fourier", "matrices", "pml", "sources", "beam")


def uses_numpy(spec):
    return spec["numpy"] and spec["op"]["op"] in NUMPY_OK and spec["mode"] == "direct"


def trace(ctx, spec, kind):
    """The events of an undisturbed call on an instance without history."""
    key = (json.dumps(spec["op"], sort_keys=True), spec["mode"], kind, uses_numpy(spec))
    if key not in ctx.traces:
        fm = c08.fresh_instance()
        s = Session(fm, uses_numpy(spec))
        args = s.prepare(spec["op"])
        ev = []
        with probe.Probe(fm, lambda c, l, k: ev.append((c.co_filename, c.co_qualname, l)), kind):
            s.call(spec["op"], spec["mode"], args)
        if len(ctx.traces) > 60:
            ctx.traces.clear()
        ctx.traces[key] = ev
    return ctx.traces[key]


def reference(ctx, op):
    key = json.dumps(op, sort_keys=True)
    if key not in ctx.refs:
        if len(ctx.refs) > 100:
            ctx.refs.clear()
        ctx.refs[key] = c08.reference(op)
    return ctx.refs[key]


def alarm(seconds):
    def handler(sig, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)


def execute(spec, ctx):
    op = spec["op"]
    fm = c08.fresh_instance()
    ses = Session(fm, uses_numpy(spec))
    codes = probe.code_objects(fm)
    for cr in spec["crashes"]:
        ctx.steps += 1
        ev = trace(ctx, spec, cr["kind"])
        if cr["kind"] == "line":
            ok = [e for e in ev if e[2] not in probe.protected_lines(e[0])]
        else:
            ok = ev
        spots = sorted(set(ok))
        if not spots:
            ctx.skipped["no-event-in-library"] += 1
            continue
        spot = spots[int(cr["where"] * len(spots))]
        count = ok.count(spot)
        nth = int(cr["which"] * count)
        state = {"n": 0, "fired": None}
        exc = EXC[cr["exc"]]("injected")

        def handler(code, line, kind):
            if state["fired"] is None and code.co_filename == spot[0] and code.co_qualname == spot[1] and line == spot[2]:
                if kind == "call" and probe.line_of(code, line) in probe.protected_lines(code.co_filename):
                    return
                if state["n"] == nth:
                    state["fired"] = probe.where(code, probe.line_of(code, line) if kind == "call" else line)
                    raise exc
                state["n"] += 1

        args = ses.prepare(op)
        before = c12.settings()
        frozen = {k: np.array(v).tobytes() for k, v in args[1].items()}
        sk = c12.skeleton(args[0])
        outcome = None
        alarm(HANG)
        try:
            with probe.Probe(fm, handler, cr["kind"], codes):
                ses.call(op, spec["mode"], args)
            outcome = "returned"
        except Hang:
            return core.violation("hang", f"{op['op']} hung after an earlier interruption")
        except BaseException as e:  # noqa: BLE001
            signal.alarm(0)
            outcome = e
        finally:
            signal.alarm(0)
        if state["fired"] is None:
            if outcome != "returned":
                if not isinstance(outcome, Exception):
                    raise outcome
                if not core.in_library(outcome):
                    raise outcome
                return core.violation(f"call-fails-after-interrupt:{op['op']}", f"{type(outcome).__name__}: {str(outcome)[:300]} without any injected fault")
            ctx.skipped["point-not-reached"] += 1
            continue
        ctx.fault("interrupt-" + cr["exc"])
        ctx.fault("at-" + cr["kind"])
        ctx.state(op["op"], spec["mode"], state["fired"])
        loc = state["fired"]
        tag = loc.rsplit(":", 1)[0]
        if isinstance(outcome, str):
            return core.violation(f"swallowed:{tag}", f"{cr['exc']} raised at {loc} during {op['op']} did not reach the caller: the call returned a result")
        if not (outcome is exc or (type(outcome) is type(exc) and str(exc) in str(outcome))):
            return core.violation(f"converted:{tag}", f"{cr['exc']} raised at {loc} during {op['op']} reached the caller as {type(outcome).__name__}: {str(outcome)[:200]}")
        # drop every frame of the interrupted call
        exc.__traceback__ = None
        outcome = exc = None
        d = c12.diff(before, c12.settings())
        if d:
            return core.violation(f"setting-changed:{tag}", f"after {cr['exc']} at {loc} in {op['op']}: {d}")
        for k, v in args[1].items():
            if np.array(v).tobytes() != frozen[k]:
                return core.violation(f"argument-changed:{tag}", f"after {cr['exc']} at {loc} in {op['op']}: argument {k} was modified")
        if c12.skeleton(args[0]) != sk:
            return core.violation(f"argument-changed:{tag}", f"after {cr['exc']} at {loc} in {op['op']}: a record passed to the call was modified")
        ctx.last = loc
    for a in spec["after"]:
        ctx.steps += 1
        o = other(op, a)
        ref = reference(ctx, o)
        alarm(HANG)
        try:
            got = ses.call(o, a["mode"], ses.prepare(o))
        except Hang:
            return core.violation(f"hang:{op['op']}", f"{o['op']} did not finish after an interrupted {op['op']} (at {getattr(ctx, 'last', '?')})")
        except Exception as e:  # noqa: BLE001
            if not core.in_library(e):
                raise
            return core.violation(f"retry-fails:{op['op']}", f"{o['op']} raised {type(e).__name__}: {str(e)[:300]} after an interrupted {op['op']} (at {getattr(ctx, 'last', '?')})")
        finally:
            signal.alarm(0)
        tol = TOL_GRAD if o["op"] in ("grad", "utils") else TOL
        e, name = ops.compare(got, ref, tol)
        ctx.dev(o["op"], e)
        if e > tol:
            return core.violation(f"retry-differs:{op['op']}", f"{o['op']} result {name} differs by {e:.3g} after an interrupted {op['op']} (at {getattr(ctx, 'last', '?')})")
    return None


def shrink(spec):
    for i in range(len(spec["crashes"])):
        if len(spec["crashes"]) > 1:
            s = copy.deepcopy(spec); del s["crashes"][i]; yield s
    for i in range(len(spec["after"])):
        if len(spec["after"]) > 1:
            s = copy.deepcopy(spec); del s["after"][i]; yield s
    if spec["mode"] == "jit":
        s = copy.deepcopy(spec); s["mode"] = "direct"; yield s
    for i, c in enumerate(spec["crashes"]):
        if c["exc"] != "RuntimeError":
            s = copy.deepcopy(spec); s["crashes"][i]["exc"] = "RuntimeError"; yield s
        if c["which"]:
            s = copy.deepcopy(spec); s["crashes"][i]["which"] = 0.0; yield s


RULE = ("one run = a public operation on a library instance without history, interrupted at 1-2 chosen points (a source line or a call made by "
        "library code, chosen uniformly over the distinct points the operation passes) by one of seven exception kinds, directly or while being "
        "compiled, followed by a retry and other calls; all runs are non-trivial")
STATES = "distinct (operation, mode, interrupted source line) triples"
COMPONENTS = {"real": ["all of fmmax on jax/CPU"], "stub": ["the point at which an exception arises"]}
ASSUMPTIONS = ["interruptions inside cleanup code (finally blocks, re-raising handlers, __exit__) and on a bare `try:` line are not injected",
               "exceptions inside jax/numpy itself are represented by an exception at the call that library code makes"]
