"""C09: eigensolver failures surface to the caller and stay contained.

The eigensolver backend is the simulator's; a seeded plan decides which of its calls fails
and how. Two configurations: with the optional package installed (simulated `jeig`) and
without it (the library's own path, with the array library's eigensolver as the seam).
"""
import copy

import numpy as np

from fsim import core, env, gauge, ops, world

PROPERTY, LEVEL, FAKE_JEIG = "C09", "exploration", False
EXC = ("RuntimeError", "LinAlgError", "MemoryError", "KeyboardInterrupt", "ValueError", "ModuleNotFoundError",
       "ImportError", "FloatingPointError", "NotImplementedError", "TypeError", "AttributeError", "BackendError", "SystemExit",
       "OSError", "TimeoutError", "StopIteration", "XlaRuntimeError")
TOL = 1e-7


def runs(tier):
    return 1200 if tier == "quick" else 20000


def budget(tier):
    return 60 if tier == "quick" else 1200


CLASSES = [(("stack",), "D"), (("stack", "sops"), "D"), (("grad",), "D"), (("utils", "stack"), "D"),
           (("stack",), "D"), (("pml", "utils"), "D"), (("grad", "utils"), "D"), (("stack", "scan"), "D")]


def gen(r, i):
    names, fam = CLASSES[i % 8]
    op = ops.gen(r, names=list(names), fams=(fam,), vec=0.05)
    op.pop("expmod", None)
    if op["op"] in ("stack", "sops"):
        for l in op["layers"][1:-1]:
            if l["kind"] == "u":
                l["kind"] = "p"
                l["form"] = "FFT"
    mode = "jeig" if i % 2 == 0 else "jax"
    batch = [] if (r.random() < 0.9 and op["op"] != "grad" and i % 8 == 0) else [2]
    call = str(r.choice(["direct"] * 9 + ["jit"])) if op["op"] not in ("scan", "utils") else "direct"
    faults = []
    for _ in range(int(r.integers(1, 3))):
        if call == "direct" and r.random() < 0.5:
            faults.append({"kind": "raise", "exc": str(r.choice(EXC)), "at": int(r.integers(0, 4))})
        else:
            faults.append({"kind": "nan", "at": int(r.integers(0, 4)), "elems": [int(x) for x in r.permutation(2)[: int(r.integers(1, 3))]],
                           "part": str(r.choice(["both", "both", "values", "vectors", "one", "inf"]))})
    return {"op": op, "mode": mode, "batch": batch, "elems": [int(x) for x in r.permutation(20)[:2]], "call": call, "faults": faults}


def nontrivial(spec):
    return bool(spec["faults"])


class Solver:
    """Host eigensolver with a failure plan for one call of the library."""

    def __init__(self, ctx):
        self.ctx, self.calls, self.plan, self.hit = ctx, 0, None, []
        self.fired = None

    def arm(self, plan):
        self.calls, self.plan, self.hit, self.fired = 0, plan, [], None

    def __call__(self, m):
        n = self.calls
        self.calls += 1
        p = self.plan
        if p and p["kind"] == "raise" and n == p["at"]:
            self.fired = make_exc(p["exc"])
            raise self.fired
        m = np.asarray(m)
        flat = m.reshape((-1,) + m.shape[-2:])
        ws, vs = [], []
        for x in flat:
            if not np.all(np.isfinite(x)):
                ws.append(np.full(x.shape[0], np.nan, complex)); vs.append(np.full(x.shape, np.nan, complex))
                continue
            w, v = np.linalg.eig(x)
            ws.append(w); vs.append(v)
        w, v = np.asarray(ws, complex).copy(), np.asarray(vs, complex).copy()
        if p and p["kind"] == "nan" and n == p["at"]:
            for e in p["elems"]:
                if e >= len(w):
                    continue
                self.hit.append(e)
                bad = np.inf if p["part"] == "inf" else np.nan
                if p["part"] in ("both", "values", "inf"):
                    w[e] = bad
                if p["part"] in ("both", "vectors", "inf"):
                    v[e] = bad
                if p["part"] == "one":
                    w[e, 0] = np.nan
                    v[e, :, 0] = np.nan
                self.ctx.fault("non-convergence-" + p["part"])
        return w.reshape(m.shape[:-1]), v.reshape(m.shape)


def make_exc(name):
    msg = f"injected failure ({name})"
    if name == "SystemExit":
        return SystemExit(msg)
    if name == "XlaRuntimeError":
        import jax
        return jax.errors.JaxRuntimeError("INTERNAL: " + msg)
    special = {"OSError": OSError, "TimeoutError": TimeoutError, "StopIteration": StopIteration}
    return (special.get(name) or gauge.EXCEPTIONS[name])(msg)


def _install_jax_seam(solver_box):
    """Replaces the array library's eigensolver by one that asks the simulator."""
    import jax
    import jax.numpy as jnp

    def host(x):
        x = np.asarray(x)
        dtype = np.result_type(x.dtype, np.complex64)
        w, v = solver_box[0](x)
        return np.asarray(w, dtype), np.asarray(v, dtype)

    def eig(a, *args, **kw):
        if isinstance(a, jax.core.Tracer):
            dtype = jnp.promote_types(a.dtype, jnp.complex64)
            return jax.pure_callback(host, (jax.ShapeDtypeStruct(a.shape[:-1], dtype), jax.ShapeDtypeStruct(a.shape, dtype)), a, vmap_method="expand_dims")
        w, v = host(a)
        return jnp.asarray(w), jnp.asarray(v)

    jnp.linalg.eig = eig


def setup(ctx):
    import sys
    box = [None]
    ctx.box = box
    import jax.numpy as jnp
    real_eig = jnp.linalg.eig
    _install_jax_seam(box)
    env.boot(fake_jeig=False)
    sys.modules.pop("jeig", None)
    ctx.fm_jax = env.load(fresh=True)
    env.boot(fake_jeig=True)
    ctx.fm_jeig = env.load(fresh=True)
    import jeig
    jeig.HANDLER = lambda m: box[0](m)
    ops.check_families(ctx.fm_jeig)
    ctx.real_eig = real_eig
    ctx.refs = {}


def dependent(op, at):
    """Which outputs of an operation depend on eigensolve number `at`."""
    if op["op"] == "utils":  # two separate uses: the decomposition, then its gradient
        return {"rec", "tr"} if at == 0 else {"ge"}
    if op["op"] == "pml":
        return {"transmitted", "reflected"}
    return None  # all


def judge(spec, op, got, n_elems, hit, ref, at):
    """Checks finiteness per element. hit: elements whose eigensolve failed."""
    dep = dependent(op, at)
    for k, v in got.items():
        if k.endswith("!"):
            continue
        v = np.asarray(v)
        for e in range(n_elems):
            x = v[e] if spec["batch"] else v
            y = ref[k][e] if spec["batch"] else ref[k]
            affected = e in hit and (dep is None or k in dep)
            if affected and op["op"] in ("stack", "sops", "scan", "pml", "grad") and k.startswith(("tr",)) and k[2:].isdigit():
                # propagation constants of one layer: bad only if that layer failed
                affected = False
                if e in hit and not np.all(np.isfinite(x)):
                    continue
            if affected:
                if k == "z!":
                    continue
                if np.any(np.isfinite(x)) and not legit_finite(k, op, x, y):
                    return core.violation(f"plausible-number:{op['op']}:{k}", f"{k} of element {e} contains finite numbers although its eigensolve did not converge: {np.asarray(x).ravel()[:4]}")
            else:
                err = world.rel_err(x, y, scale=max(np.abs(np.where(np.isfinite(y), y, 0)).max(), 1e-9) if y.size else 1.0)
                if err > TOL:
                    return core.violation(f"leaks:{op['op']}:{k}", f"{k} of element {e} changed by {err:.3g} although only elements {sorted(hit)} failed")
    return None


def legit_finite(k, op, x, y):
    """Entries that are finite whatever the modes are (structural zeros)."""
    f = np.isfinite(x)
    yy = np.broadcast_to(np.asarray(y), np.shape(x))
    return bool(np.all((x[f] == 0) & (np.abs(yy[f]) <= 1e-12 * max(np.abs(yy).max(), 1e-30))))


def reference(ctx, fm, spec, key):
    if key not in ctx.refs:
        if len(ctx.refs) > 60:
            ctx.refs.clear()
        solver = Solver(ctx)
        ctx.box[0] = solver
        ctx.refs[key] = (ops.to_np(run(ctx, fm, spec, "direct")), solver.calls)
    return ctx.refs[key]


def run(ctx, fm, spec, call):
    import jax
    op = spec["op"]
    objs = ops.objects(fm, op)
    A = ops.jx(ops.arrays(op, spec["elems"] if spec["batch"] else spec["elems"][:1], spec["batch"]))
    fn = lambda B: {k: v for k, v in ops.call(fm, op, objs, B).items() if not k.endswith("!")}
    if call == "jit":
        out = jax.jit(fn)(A)
    else:
        out = fn(A)
    return jax.block_until_ready(out)


def execute(spec, ctx):
    import json
    fm = ctx.fm_jeig if spec["mode"] == "jeig" else ctx.fm_jax
    op = spec["op"]
    key = json.dumps([op, spec["mode"], spec["batch"], spec["elems"]], sort_keys=True)
    ref, calls = reference(ctx, fm, spec, key)
    if calls == 0:
        return core.violation("backend-not-used", f"no eigensolver call was made in configuration {spec['mode']}")
    for v in ref.values():
        if not np.all(np.isfinite(v)):
            ctx.skipped["non-finite-reference"] += 1
            return None
    n_elems = 2 if spec["batch"] else 1
    solver = Solver(ctx)
    ctx.box[0] = solver
    trail = []
    for f in spec["faults"]:
        f = dict(f)
        f["at"] = f["at"] % calls
        solver.arm(f)
        ctx.steps += 1
        if f["kind"] == "raise":
            try:
                got = run(ctx, fm, spec, spec["call"])
            except BaseException as e:  # noqa: BLE001
                if solver.fired is None:
                    raise
                ctx.fault("backend-raises-" + f["exc"])
                if not reaches(e, solver.fired):
                    return core.violation(f"exception-replaced:{op['op']}", f"the backend raised {solver.fired!r} but the caller got {e!r}")
            else:
                if solver.fired is not None:
                    return core.violation(f"exception-swallowed:{op['op']}", f"the backend raised {solver.fired!r} at call {f['at']} ({spec['mode']}) but a result was returned")
        else:
            got = ops.to_np(run(ctx, fm, spec, spec["call"]))
            hit = set(solver.hit)
            if hit and not spec["batch"]:
                hit = {0}
            if hit and op["op"] != "grad" and f["part"] in ("one", "values", "vectors", "inf"):
                v = judge_partial(spec, op, got, n_elems, hit, ref, f["at"])
            else:
                v = judge(spec, op, got, n_elems, hit, ref, f["at"])
            if v:
                return v
        trail.append(f)
        # the next call with a working backend
        solver.arm(None)
        again = ops.to_np(run(ctx, fm, spec, "direct"))
        e, name = ops.compare({k: v for k, v in again.items() if not k.endswith("!")}, {k: v for k, v in ref.items() if not k.endswith("!")}, TOL)
        if e > TOL:
            return core.violation(f"not-recovered:{op['op']}", f"after {f} the next call differs in {name} by {e:.3g}")
    ctx.state(op["op"], spec["mode"], spec["call"], spec["batch"], trail, [l["kind"] for l in op.get("layers", [])])
    return None


def reaches(got, fired):
    seen = 0
    while got is not None and seen < 10:
        if got is fired:
            return True
        got, seen = got.__cause__, seen + 1
    return False


def judge_partial(spec, op, got, n_elems, hit, ref, at):
    """Only part of the answer is non-finite, or infinite: results of the element must
    still not be plausible numbers as a whole, and the others are unaffected."""
    dep = dependent(op, at)
    for k, v in got.items():
        if k.endswith("!"):
            continue
        v = np.asarray(v)
        for e in range(n_elems):
            x = v[e] if spec["batch"] else v
            y = ref[k][e] if spec["batch"] else ref[k]
            if e in hit and (dep is None or k in dep):
                if k in ("transmitted", "reflected", "rec", "ptransmitted", "preflected") and np.all(np.isfinite(x)):
                    return core.violation(f"plausible-number:{op['op']}:{k}", f"{k} of element {e} is finite although part of its eigensolve failed")
            else:
                err = world.rel_err(x, y, scale=max(np.abs(y).max(), 1e-9) if y.size else 1.0)
                if err > TOL:
                    return core.violation(f"leaks:{op['op']}:{k}", f"{k} of element {e} changed by {err:.3g} although only elements {sorted(hit)} failed")
    return None


def shrink(spec):
    for i in range(len(spec["faults"])):
        if len(spec["faults"]) > 1:
            s = copy.deepcopy(spec); del s["faults"][i]; yield s
    if spec["call"] == "jit":
        s = copy.deepcopy(spec); s["call"] = "direct"; yield s
    op = spec["op"]
    if op["op"] == "stack" and len(op["want"]) > 1:
        for w in op["want"]:
            if w != "waves":
                s = copy.deepcopy(spec); s["op"]["want"] = [x for x in op["want"] if x != w]; yield s
    if op["op"] in ("stack", "sops") and len(op["layers"]) > 3:
        s = copy.deepcopy(spec); del s["op"]["layers"][1]; del s["op"]["t"][1]; s["op"]["cut"] = 1; yield s
    for i, l in enumerate(op.get("layers", [])):
        if l["kind"] not in ("u", "p") or l.get("form", "FFT") != "FFT":
            s = copy.deepcopy(spec); s["op"]["layers"][i].update(kind="p", form="FFT"); yield s
    for i, f in enumerate(spec["faults"]):
        if f["at"]:
            s = copy.deepcopy(spec); s["faults"][i]["at"] = 0; yield s


RULE = ("one run = one public calculation (stacks with all media, scans, gradients, absorbing boundaries, the eigensolve itself), "
        "1-2 failures injected at seeded positions of its eigensolver calls (17 exception kinds, or non-convergence of a subset of "
        "batch elements), each followed by a call with a working backend; every run is non-trivial")
STATES = "distinct (operation, configuration, direct/compiled, batch, failure sequence, layer kinds) tuples"
COMPONENTS = {"real": ["all of fmmax between the public call and the eigensolver"],
              "stub": ["eigensolver: simulated jeig package, or simulated jax.numpy.linalg.eig when jeig is absent"]}
ASSUMPTIONS = ["an exception counts as reaching the caller if it is the exception raised or its explicit cause chain contains it",
               "for compiled calls only non-convergence is injected: how exceptions cross a compiled program is jax's business",
               "partial non-convergence (single modes) must leave waves of the element non-finite"]
