"""C10: running the eigensolve through a host callback changes nothing.

The default device is simulated not to be the CPU. Host callbacks the library issues are
served by a simulated executor, which may duplicate, split, reorder, re-execute and retry
them, in other threads. The oracle is the same call of a second library instance for which
the CPU is the default device.
"""
import copy
import functools
import threading

import numpy as np

from fsim import core, env, ops, world

PROPERTY, LEVEL, FAKE_JEIG = "C10", "exploration", False
TOL, TOL_GRAD, TOL32 = 1e-8, 1e-6, 5e-3
EIG_TOL = {np.dtype(np.complex128): 1e-9, np.dtype(np.complex64): 2e-4}


def runs(tier):
    return 2400 if tier == "quick" else 30000


def budget(tier):
    return 60 if tier == "quick" else 1200


# ---------------------------------------------------------------------------
# Simulated system
# ---------------------------------------------------------------------------


class FakeDevice:
    platform = "gpu"
    device_kind = "simulated accelerator"
    id = 0
    process_index = 0
    host_id = 0

    def __repr__(self):
        return "SimulatedAccelerator(id=0)"

    __str__ = __repr__


class HostFailure(Exception):
    """The simulated host lost the worker that executed a request."""


class Sim:
    def __init__(self):
        self.on = False
        self.local = threading.local()
        self.queue = None       # executor of the current run
        self.real = {}

    def on_host(self):
        return getattr(self.local, "host", False)


SIM = Sim()


def install():
    import jax
    import jax.numpy as jnp
    SIM.real = {"devices": jax.devices, "local_devices": jax.local_devices, "default_backend": jax.default_backend,
                "pure_callback": jax.pure_callback, "eig": jnp.linalg.eig}
    fake = FakeDevice()

    def devices(backend=None):
        if SIM.on and not SIM.on_host() and backend in (None, "gpu", "cuda"):
            return [fake]
        return SIM.real["devices"](backend)

    def local_devices(process_index=None, backend=None, **kw):
        if SIM.on and not SIM.on_host() and backend in (None, "gpu", "cuda"):
            return [fake]
        return SIM.real["local_devices"](process_index, backend, **kw)

    def default_backend():
        return "gpu" if SIM.on and not SIM.on_host() else SIM.real["default_backend"]()

    @functools.wraps(SIM.real["eig"])
    def eig(a, *args, **kw):
        if SIM.on and not SIM.on_host():
            d = jax.config.jax_default_device
            if d is None or getattr(d, "platform", d) != "cpu":
                raise NotImplementedError("Nonsymmetric eigendecomposition is only implemented on the CPU backend (simulated accelerator)")
        return SIM.real["eig"](a, *args, **kw)

    @functools.wraps(SIM.real["pure_callback"])
    def pure_callback(callback, result_shape_dtypes, *args, **kw):
        if not SIM.on:
            return SIM.real["pure_callback"](callback, result_shape_dtypes, *args, **kw)
        vec = bool(kw.get("vectorized")) or kw.get("vmap_method") in ("expand_dims", "broadcast_all", "legacy_vectorized")
        queue = SIM.queue

        def host(*a):
            return queue.execute(callback, a, vec)

        return SIM.real["pure_callback"](host, result_shape_dtypes, *args, **kw)

    jax.devices, jax.local_devices, jax.default_backend = devices, local_devices, default_backend
    jax.pure_callback = pure_callback
    jnp.linalg.eig = eig


class Executor:
    """Serves host requests; every decision is drawn from the run's generator."""

    def __init__(self, seed, faults, ctx):
        self.r = np.random.default_rng(seed)
        self.f = faults
        self.ctx = ctx
        self.history = []
        self.trace = []
        self.requests = 0
        self.surface_at = None
        self.surfaced = False
        self.handed = []        # (what the callback returned, a copy made at once)

    def intact(self):
        """Results are handed on without copying, so nobody may write to them later."""
        for raw, kept in self.handed:
            for a, b in zip(raw, kept):
                if np.asarray(a).tobytes() != b.tobytes():
                    self.bad = f"the result of an earlier request (shape {b.shape}) was overwritten after it had been returned"
                    return

    def run(self, callback, args, other_thread):
        box = {}

        def go():
            import jax
            SIM.local.host = True
            try:
                with jax.default_device(SIM.real["devices"]("cpu")[0]):
                    raw = tuple(callback(*args))
                    box["out"] = tuple(np.array(x) for x in raw)
                    self.handed.append((raw, box["out"]))
                    del self.handed[:-8]
            except BaseException as e:  # noqa: BLE001
                box["err"] = e
            finally:
                SIM.local.host = False

        if other_thread:
            t = threading.Thread(target=go)
            t.start()
            t.join()
        else:
            outer = SIM.on_host()
            go()
            SIM.local.host = outer
        if "err" in box:
            raise box["err"]
        return box["out"]

    def execute(self, callback, args, vec):
        r, f, ctx = self.r, self.f, self.ctx
        n = self.requests
        self.requests += 1
        ctx.steps += 1
        ctx.probe("host-request")
        draws = r.random(6)
        order_seed = int(r.integers(0, 2**31))
        if self.surface_at is not None and n == self.surface_at:
            self.surface_at = None
            self.surfaced = True
            ctx.fault("host-failure-surfaced")
            self.trace.append((n, "lost"))
            raise HostFailure("simulated host failure")
        thread = "thread" in f and draws[0] < 0.6
        if thread:
            ctx.fault("other-thread")
        acts = []
        if "late" in f and self.history and draws[1] < 0.6:
            # an earlier request arrives again before this one
            k = int(order_seed % len(self.history))
            cb, a, _ = self.history[k]
            out = self.run(cb, a, thread)
            self.check_again(k, out)
            ctx.fault("stale-re-execution")
            acts.append(f"again{k}")
        if "retry" in f and draws[2] < 0.5:
            try:
                self.run(callback, args, thread)
                raise HostFailure
            except HostFailure:
                ctx.fault("retried-after-failure")
                acts.append("retry")
        if "split" in f and vec and args[0].ndim > 2 and draws[3] < 0.8:
            out = self.split(callback, args[0], order_seed, thread)
            acts.append("split")
        else:
            out = self.run(callback, args, thread)
        if "dup" in f and draws[4] < 0.6:
            again = self.run(callback, args, thread)
            if draws[5] < 0.5:
                out = again
            ctx.fault("duplicated-request")
            acts.append("dup")
        if len(self.history) < 12:
            self.history.append((callback, args, out))
        self.trace.append((n, tuple(np.shape(args[0])), str(args[0].dtype), tuple(acts), thread))
        return out

    def split(self, callback, m, seed, thread):
        import jax.numpy as jnp
        rr = np.random.default_rng(seed)
        lead = m.shape[:-2]
        flat = np.asarray(m).reshape((-1,) + m.shape[-2:])
        b = flat.shape[0]
        if b == 0:
            return self.run(callback, (m,), thread)
        cuts = np.sort(rr.permutation(np.arange(1, b))[: int(rr.integers(0, min(3, b)))]) if b > 1 else []
        pieces = np.split(np.arange(b), cuts)
        w = v = None
        for p in rr.permutation(len(pieces)):
            idx = pieces[p]
            out = self.run(callback, (jnp.asarray(flat[idx]),), thread)
            if w is None:
                w = np.zeros((b,) + out[0].shape[1:], out[0].dtype)
                v = np.zeros((b,) + out[1].shape[1:], out[1].dtype)
            w[idx], v[idx] = out
        self.ctx.fault("split-request")
        return w.reshape(lead + w.shape[1:]), v.reshape(lead + v.shape[1:])

    def check_again(self, k, out):
        for a, b in zip(out, self.history[k][2]):
            if a.shape != b.shape or a.dtype != b.dtype:
                self.bad = f"re-execution of request {k} changed shape or type: {a.shape} {a.dtype} instead of {b.shape} {b.dtype}"
                return
        w0, v0, w1, v1 = self.history[k][2][0], self.history[k][2][1], out[0], out[1]
        e = eig_distance(w1, v1, w0, v0)
        if e > EIG_TOL[np.dtype(np.result_type(w0.dtype, np.complex64))]:
            self.bad = f"re-execution of request {k} (shape {v0.shape}) gave a different answer (distance {e:.3g})"

    bad = None


# ---------------------------------------------------------------------------
# Runs
# ---------------------------------------------------------------------------

EIG_MODES = ("direct", "jit", "vmap", "jitvmap", "vmap2", "vmaplast", "grad", "jitgrad", "vmapgrad", "remat", "map", "scan", "eager2")
DTYPES = ("complex128", "complex128", "complex64", "float64", "float32")
# (operations, family, precision): workers take every 8th run
CLASSES = [("eig", 3), ("eig", 6), (("stack",), "D"), (("grad", "utils"), "D"), ("eig", 4), (("stack", "sops", "scan"), "D"), (("pml", "fieldamps", "utils"), "D"), ("eig", 5)]


def gen(r, i):
    names, par = CLASSES[i % 8]
    faults = sorted(x for x in ("dup", "split", "retry", "thread", "late") if r.random() < 0.55)
    spec = {"seed": int(r.integers(0, 2**31)), "faults": faults, "surface": int(r.integers(0, 3)) if r.random() < 0.3 else None}
    if names == "eig":
        spec["kind"] = "eig"
        spec["calls"] = []
        x64 = bool(r.random() < 0.8)
        spec["x64"] = x64
        for _ in range(int(r.integers(1, 4))):
            shape = [[], [2], [3], [2, 2], [1], [2, 1], [1, 3], [par], [2, par], [0]][int(r.choice(10, p=[.17, .14, .12, .14, .08, .08, .09, .08, .06, .04]))]
            mode = str(r.choice(EIG_MODES))
            if mode in ("vmap", "jitvmap", "vmapgrad", "map", "scan", "vmaplast") and (not shape or 0 in shape):
                shape = [2] + [s for s in shape if s]
            if mode == "vmap2" and (len(shape) < 2):
                shape = [2, 3]
            if 0 in shape and "grad" in mode:
                shape = [2]
            dt = str(r.choice(DTYPES))
            if not x64:
                dt = {"complex128": "complex64", "float64": "float32"}.get(dt, dt)
            n = par if r.random() < 0.9 else int(r.integers(1, 3))
            spec["calls"].append({"shape": shape, "n": n, "mode": mode, "dtype": dt, "seed": int(r.integers(0, 10**6)),
                                  "mag": float(np.round(10.0 ** r.uniform(-4, 4), 6)) if r.random() < 0.4 else 1.0,
                                  "nan": int(r.integers(0, 4)) if r.random() < 0.08 else None,
                                  "again": bool(r.random() < 0.2)})
    else:
        op = ops.gen(r, names=list(names), fams=(par,), vec=0.05)
        op.pop("expmod", None)
        op["f32"] = bool(r.random() < 0.25) and op["op"] in ("stack", "sops", "grad")
        spec.update(kind="op", op=op, batch=[[], [2], [2], [1, 2]][int(r.integers(0, 4))] if op["op"] not in ("utils", "grad", "scan") else [2],
                    elems=[int(x) for x in r.permutation(20)[:2]], x64=True)
        if op.get("layers"):
            for l in op["layers"][1:-1]:
                if l["kind"] == "u":
                    l.update(kind="p", form="FFT")
        spec["call"] = str(r.choice(["direct"] * 7 + ["jit"])) if op["op"] not in ("scan",) else "direct"
        if op["op"] == "stack" and spec["batch"] == [2] and r.random() < 0.15:
            spec["call"] = "vmap"
    return spec


def nontrivial(spec):
    return True


def setup(ctx):
    env.boot(fake_jeig=False)
    install()
    ctx.ref_fm = env.load(fresh=True)
    SIM.on = True
    try:
        ctx.fm = env.load(fresh=True)
    finally:
        SIM.on = False
    ops.check_families(ctx.ref_fm)


def matrix(c):
    r = world.rng_of("c10", c["seed"])
    shape = tuple(c["shape"]) + (c["n"], c["n"])
    dt = np.dtype(c["dtype"])
    m = r.standard_normal(shape)
    if dt.kind == "c":
        m = m + 1j * r.standard_normal(shape)
    # spread the eigenvalues so that the eigenvectors are well conditioned
    m = m * 0.3 + np.diag(np.arange(c["n"]) * 1.5 - 1.0)
    m = (m * c["mag"]).astype(dt)
    if c["nan"] is not None and m.size:
        flat = m.reshape((-1, c["n"], c["n"]))
        flat[c["nan"] % len(flat), 0, 0] = np.nan
    return m


def loss_of(eig, scale):
    """A function of the matrix itself, whatever the mode labelling."""
    import jax.numpy as jnp

    def loss(x):
        w, v = eig(x)
        n = v.shape[-1]
        wts = jnp.asarray(np.cos(np.arange(n * n)).reshape(n, n)).astype(w.real.dtype)
        f = (v * jnp.exp(0.3 * w * scale)[..., None, :]) @ jnp.linalg.inv(v)
        return jnp.sum(wts * jnp.abs(f) ** 2)

    return loss


def call_eig(fm, c, x):
    import jax
    import jax.numpy as jnp
    eig = fm.utils.eig
    s = np.asarray(1 / (c["mag"] * c["n"])).astype(x.real.dtype)
    loss = loss_of(eig, s)
    m = c["mode"]
    if m == "direct":
        return eig(x)
    if m == "eager2":
        a = eig(x)
        b = eig(x + c["mag"])
        del b
        return a
    if m == "jit":
        return jax.jit(lambda y: eig(y))(x)
    if m == "vmap":
        return jax.vmap(lambda y: eig(y))(x)
    if m == "jitvmap":
        return jax.jit(jax.vmap(lambda y: eig(y)))(x)
    if m == "vmap2":
        return jax.vmap(jax.vmap(lambda y: eig(y), in_axes=0), in_axes=1, out_axes=1)(x)
    if m == "vmaplast":
        return jax.vmap(lambda y: eig(y), in_axes=-1, out_axes=0)(jnp.moveaxis(x, 0, -1))
    if m == "map":
        return jax.lax.map(lambda y: eig(y), x)
    if m == "scan":
        _, out = jax.lax.scan(lambda carry, y: (carry + 1, eig(y)), 0, x)
        return out
    if m == "remat":
        return (jax.grad(jax.checkpoint(loss))(x),)
    if m == "grad":
        return (jax.grad(loss)(x),)
    if m == "jitgrad":
        return (jax.jit(jax.grad(loss))(x),)
    if m == "vmapgrad":
        return (jax.vmap(jax.grad(loss))(x),)
    raise core.HarnessError(m)


def eig_distance(w, v, w0, v0):
    """Distance of two sets of eigenpairs, up to order and the phase of each vector."""
    w, v, w0, v0 = [np.asarray(x) for x in (w, v, w0, v0)]
    n = w.shape[-1]
    worst = 0.0
    for a, p, b, q in zip(w.reshape(-1, n), v.reshape(-1, n, n), w0.reshape(-1, n), v0.reshape(-1, n, n)):
        fa, fb = np.all(np.isfinite(a)) and np.all(np.isfinite(p)), np.all(np.isfinite(b)) and np.all(np.isfinite(q))
        if fa != fb:
            return float("inf")
        if not fb:
            continue
        a, p, b, q = [x.astype(complex) for x in (a, p, b, q)]
        sc = np.abs(b).max() + 1e-300
        left = list(range(n))
        for j in range(n):
            k = min(left, key=lambda t: abs(a[t] - b[j]))
            left.remove(k)
            worst = max(worst, abs(a[k] - b[j]) / sc)
            ph = np.vdot(p[:, k], q[:, j])
            ph = ph / (abs(ph) + 1e-300)
            nq = np.linalg.norm(q[:, j])
            worst = max(worst, np.linalg.norm(p[:, k] * ph - q[:, j]) / nq)
    return float(worst)


def attempt(fn):
    try:
        import jax
        return jax.block_until_ready(fn()), None
    except Exception as e:  # noqa: BLE001
        return None, e


def execute(spec, ctx):
    import jax
    old = jax.config.jax_enable_x64
    try:
        jax.config.update("jax_enable_x64", spec["x64"])
        return (execute_eig if spec["kind"] == "eig" else execute_op)(spec, ctx)
    finally:
        SIM.on, SIM.queue = False, None
        jax.config.update("jax_enable_x64", old)


def simulated(spec, ctx, ex, fn, may_surface):
    """Runs fn on the simulated system; a surfaced host failure is retried by the caller."""
    SIM.queue, SIM.on = ex, True
    try:
        got, err = attempt(fn)
        if err is not None and may_surface and ex.surfaced:
            ex.surfaced = False
            if "simulated host failure" not in str(err):
                raise err
            got, err = attempt(fn)
            if err is None:
                ctx.probe("caller-retried-after-host-failure")
        if ex.surfaced:
            raise core.HarnessError("host failure vanished")
        return got, err
    finally:
        SIM.on, SIM.queue = False, None


def execute_eig(spec, ctx):
    import jax.numpy as jnp
    ex = Executor(spec["seed"], spec["faults"], ctx)
    for ci, c in enumerate(spec["calls"]):
        x = jnp.asarray(matrix(c))
        ref, rerr = attempt(lambda: call_eig(ctx.ref_fm, c, x))
        if spec["surface"] is not None and c["mode"] == "direct" and ci == 0:
            ex.surface_at = ex.requests
        for rep in range(2 if c["again"] else 1):
            before = ex.requests
            got, gerr = simulated(spec, ctx, ex, lambda: call_eig(ctx.fm, c, x), True)
            what = f"eig of {c['dtype']}{c['shape'] + [c['n'], c['n']]} ({c['mode']}, x64={spec['x64']}); host schedule {ex.trace[-3:]}"
            if (rerr is None) != (gerr is None):
                return core.violation(f"raises:{c['mode']}", f"{what}: direct execution {'raised ' + repr(rerr)[:300] if rerr is not None else 'succeeded'}, through the host {'raised ' + repr(gerr)[:500] if gerr is not None else 'succeeded'}")
            if rerr is not None:
                ctx.skipped["both-raise"] += 1
                break
            ex.intact()
            if ex.bad:
                return core.violation("re-execution-differs", f"{what}: {ex.bad}")
            if ex.requests == before and x.size:
                ctx.probe("no-host-request")
            got, ref_ = [np.asarray(y) for y in got], [np.asarray(y) for y in ref]
            for k, (a, b) in enumerate(zip(got, ref_)):
                if a.shape != b.shape or a.dtype != b.dtype:
                    return core.violation(f"shape-or-type:{c['mode']}", f"{what}: result {k} is {a.dtype}{list(a.shape)} instead of {b.dtype}{list(b.shape)}")
            cdt = np.dtype(np.result_type(ref_[0].dtype, np.complex64))
            if len(ref_) == 2:
                e, tol = eig_distance(got[0], got[1], ref_[0], ref_[1]), EIG_TOL[cdt]
            else:
                e, tol = world.rel_err(got[0], ref_[0]), {8: 2e-3, 16: 1e-8}[cdt.itemsize]
            ctx.dev(f"{c['mode']}-{cdt}", e)
            if e > tol:
                return core.violation(f"differs:{c['mode']}", f"{what}: differs from direct execution by {e:.3g}")
        ctx.state(c["mode"], c["shape"], c["n"], c["dtype"], spec["x64"], tuple(t[3] if len(t) > 3 else "lost" for t in ex.trace[-2:]))
    return None


def execute_op(spec, ctx):
    import jax
    op = spec["op"]
    ex = Executor(spec["seed"], spec["faults"], ctx)

    def run(fm):
        objs = ops.objects(fm, op)
        A = ops.jx(ops.arrays(op, spec["elems"] if spec["batch"] else spec["elems"][:1], spec["batch"]))
        fn = lambda B: {k: v for k, v in ops.call(fm, op, objs, B).items() if not k.endswith("!")}
        if spec["call"] == "jit":
            return jax.jit(fn)(A)
        if spec["call"] == "vmap":
            return jax.vmap(fn)(A)
        return fn(A)

    ref, rerr = attempt(lambda: run(ctx.ref_fm))
    if rerr is not None:
        raise rerr
    if spec["surface"] is not None and spec["call"] == "direct" and op["op"] not in ("grad",):
        ex.surface_at = spec["surface"]
    got, gerr = simulated(spec, ctx, ex, lambda: run(ctx.fm), True)
    what = f"{op['op']} ({spec['call']}, batch {spec['batch']}{', f32' if op.get('f32') else ''}); host schedule {ex.trace[-3:]}"
    if gerr is not None:
        return core.violation(f"raises:{op['op']}", f"{what}: raised {repr(gerr)[:600]}")
    ex.intact()
    if ex.bad:
        return core.violation("re-execution-differs", f"{what}: {ex.bad}")
    if not ex.requests:
        ctx.probe("no-host-request")
    got, ref = ops.to_np(got), ops.to_np(ref)
    for k in ref:
        if k in got and (got[k].dtype != ref[k].dtype or got[k].shape != ref[k].shape):
            return core.violation(f"shape-or-type:{op['op']}", f"{what}: {k} is {got[k].dtype}{list(got[k].shape)} instead of {ref[k].dtype}{list(ref[k].shape)}")
    tol = TOL32 if op.get("f32") else TOL_GRAD if op["op"] in ("grad", "utils") else TOL
    e, name = ops.compare(got, ref, tol)
    ctx.dev(("f32-" if op.get("f32") else "") + op["op"] + "-" + spec["call"], e)
    if e > tol:
        return core.violation(f"differs:{op['op']}", f"{what}: {name} differs from direct execution by {e:.3g}")
    ctx.state(op["op"], spec["call"], spec["batch"], bool(op.get("f32")), [l["kind"] for l in op.get("layers", [])], tuple(t[3] if len(t) > 3 else "lost" for t in ex.trace))
    return None


def shrink(spec):
    for f in spec["faults"]:
        s = copy.deepcopy(spec); s["faults"].remove(f); yield s
    if spec["surface"] is not None:
        s = copy.deepcopy(spec); s["surface"] = None; yield s
    if spec["kind"] == "eig":
        for j in range(len(spec["calls"])):
            if len(spec["calls"]) > 1:
                s = copy.deepcopy(spec); del s["calls"][j]; yield s
        for j, c in enumerate(spec["calls"]):
            for k, simple in (("again", False), ("nan", None), ("mag", 1.0), ("mode", "direct"), ("shape", []), ("shape", [2]), ("n", 2)):
                if c[k] != simple and not (k == "shape" and len(c["shape"]) <= len(simple)) and not (k == "n" and c["n"] < 2):
                    s = copy.deepcopy(spec); s["calls"][j][k] = simple
                    yield s
    else:
        if spec["call"] != "direct":
            s = copy.deepcopy(spec); s["call"] = "direct"; yield s
        op = spec["op"]
        if op["op"] == "stack" and len(op["want"]) > 1:
            for w in op["want"]:
                if w != "waves":
                    s = copy.deepcopy(spec); s["op"]["want"] = [x for x in op["want"] if x != w]; yield s
        if op["op"] in ("stack", "sops") and len(op["layers"]) > 3:
            s = copy.deepcopy(spec); del s["op"]["layers"][1]; del s["op"]["t"][1]; s["op"]["cut"] = 1; yield s


RULE = ("one run = 1-3 eigendecompositions (shapes, precisions, 13 combinations of direct, compiled, vectorised, mapped, rematerialised and "
        "differentiated calls) or one stack-level calculation, whose host requests are served by a seeded executor; every run is non-trivial")
STATES = "distinct (call kind, batch shape, type, executor decisions) tuples"
COMPONENTS = {"real": ["all of fmmax", "jax's pure_callback and its batching, compilation and differentiation rules", "LAPACK on the host"],
              "stub": ["device enumeration (the default device is a simulated accelerator, on which the eigendecomposition is not implemented)",
                       "execution of host callbacks (duplicated, split, re-executed late, retried, in other threads)"]}
ASSUMPTIONS = ["no accelerator is present: everything except the eigensolve runs on the CPU in both configurations",
               "eigenvectors are compared up to order and phase, since real matrices take another LAPACK routine on the host",
               "requests are split only if the library declares the callback vectorised"]
