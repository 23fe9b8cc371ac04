"""C08: results do not depend on what was computed before."""
import copy
import gc
import json
import pickle
import sys

import numpy as np

from fsim import core, env, ops, world
from fsim.world import FAMILIES

PROPERTY, LEVEL, FAKE_JEIG = "C08", "exploration", False
TOL, TOL_GRAD, TOL32 = 1e-7, 1e-5, 3e-2
CROSS = 6  # operations every worker computes, whatever its hash seed


def runs(tier):
    return 1600 if tier == "quick" else 20000


def budget(tier):
    return 60 if tier == "quick" else 1500


# ---------------------------------------------------------------------------
# Instances of the library
# ---------------------------------------------------------------------------


def fresh_instance():
    """A newly imported instance; the modules registered by name stay the long-lived ones."""
    saved = {k: v for k, v in sys.modules.items() if k == "fmmax" or k.startswith("fmmax.")}
    env.purge()
    try:
        return env.load(fresh=False)
    finally:
        env.purge()
        sys.modules.update(saved)


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)
    ctx.jits = {}
    ctx.cross = {}
    ctx.held = []


def cross_op(q):
    r = core.rng(0, "C08-cross", q)
    op = ops.gen(r, names=[["stack", "sops", "fourier", "farfield", "utils", "basis"][q]], fams=("D",), vec=0.0)
    if q == 5:
        op = {"op": "expand", "seed": 5, "lats": 4}
    return op


def summary(out):
    s = {}
    for k, v in sorted(out.items()):
        v = np.asarray(v, complex).ravel()
        v = np.where(np.isfinite(v), v, 0)
        w = np.cos(np.arange(v.size))
        t = complex(np.sum(v * w)) / max(1e-12, float(np.abs(v).max()) if v.size else 1.0)
        s[k] = [t.real, t.imag, float(np.abs(v).max()) if v.size else 0.0]
    return s


def worker_payload(ctx):
    # after the worker's whole history
    for q in range(CROSS):
        op = cross_op(q)
        A = {} if op["op"] == "expand" else ops.jx(ops.arrays(op, [0], ()))
        ctx.cross[str(q)] = summary(ops.to_np(call(ctx.fm, op, records(ctx.fm, op), A)))
    return {"cross": ctx.cross, "hashseed": env.os.environ.get("PYTHONHASHSEED")}


def cross_check(payloads):
    payloads = [p for p in payloads if p]
    ref = payloads[0]
    for p in payloads[1:]:
        for q in ref["cross"]:
            for k, a in ref["cross"][q].items():
                b = p["cross"][q].get(k)
                if b is None or max(abs(x - y) for x, y in zip(a, b)) > 1e-6 * (1 + abs(a[2])):
                    return core.violation("hash-seed", f"result {k} of operation {cross_op(int(q))} is {a} with PYTHONHASHSEED={ref['hashseed']} and {b} with {p['hashseed']}")
    return None


# ---------------------------------------------------------------------------
# Operations
# ---------------------------------------------------------------------------


def records(fm, op):
    if op["op"] == "expand":
        return {}
    objs = ops.objects(fm, op)
    if op["op"] in ("stack", "sops", "grad"):
        objs["forms"] = [ops.world.formulation(fm, l.get("form", "FFT")) for l in op["layers"]]
    elif op["op"] == "vector":
        objs["forms"] = [fm.fmm.Formulation[op["scheme"]]]
    return objs


def call(fm, op, objs, A):
    if op["op"] == "expand":
        return call_expand(fm, op)
    return ops.call(fm, op, objs, A)


def call_expand(fm, op):
    import jax.numpy as jnp
    r = world.rng_of("expand", op["seed"])
    out = {}
    for q in range(op["lats"]):
        u = np.asarray([r.uniform(0.5, 1.5), r.uniform(-0.2, 0.2)])
        v = np.asarray([r.uniform(-0.4, 0.4), r.uniform(0.5, 1.5)])
        n = int(r.choice([5, 9, 13, 20]))
        t = fm.basis.Truncation.CIRCULAR if r.random() < 0.6 else fm.basis.Truncation.PARALLELOGRAMIC
        lat = fm.basis.LatticeVectors(u=jnp.asarray(u), v=jnp.asarray(v))
        e = fm.basis.generate_expansion(lat, n, t)
        out[f"g{q}"] = np.asarray(e.basis_coefficients)
        out[f"m{q}"] = np.asarray(fm.fft.min_array_shape_for_expansion(e))
        out[f"rec{q}"] = np.asarray(lat.reciprocal.u)
        # the smallest grid that the expansion permits
        grid = tuple(int(n) for n in out[f"m{q}"])
        x = jnp.asarray(r.standard_normal(grid) + 0j)
        out[f"f{q}"] = np.asarray(fm.fft.fft(x, e))
        out[f"i{q}"] = np.asarray(fm.fft.ifft(jnp.asarray(r.standard_normal((e.num_terms, 1))), e, grid, axis=-2))
        if q == 0:
            out[f"c{q}"] = np.asarray(fm.fft.fourier_convolution_matrix(x, e))
    return out


def structure(op):
    """The part of an operation that a client fixes when it builds a compiled function."""
    s = {k: v for k, v in op.items() if k not in ("seed", "expmod", "pml", "form", "scheme", "f32", "trunc", "fam")}
    s["grid"] = FAMILIES[op["fam"]]["grid"] if op.get("fam") else None
    if "layers" in s:
        s["layers"] = [{k: v for k, v in l.items() if k not in ("form", "loss")} for l in s["layers"]]
    return s


def variant(r, base):
    """Another operation of the same structure and different contents."""
    op = copy.deepcopy(base)
    if r.random() < 0.6:
        op["seed"] = int(r.integers(0, 10**6))
    if op["op"] == "expand":
        return op
    op.pop("expmod", None)
    if op["op"] != "pml" and r.random() < 0.6:
        op["expmod"] = str(r.choice(["swap", "rev", "alt"]))
        if op["expmod"] == "alt" and op["op"] in ("vector", "farfield"):
            op["expmod"] = "swap"
    if r.random() < 0.12:
        op["f32"] = True
    if op["op"] == "pml" and r.random() < 0.8:
        k = str(r.choice(["num_x", "num_y", "a_max", "p", "sigma_max"]))
        op["pml"][k] = {"num_x": 3, "num_y": 2, "a_max": 3.0, "p": 3.0, "sigma_max": 0.7}[k]
    if op["op"] in ("stack", "sops") and r.random() < 0.25:
        for l in op["layers"][1:-1]:
            if l["kind"] in ("p", "s"):
                l["form"] = str(r.choice(["FFT", "JONES_DIRECT", "POL"]))
    if op["op"] == "vector" and r.random() < 0.5:
        op["scheme"] = str(r.choice(["JONES_DIRECT", "POL", "NORMAL"]))
    if op["op"] == "matrices" and op["kind"] == "p" and r.random() < 0.4:
        op["form"] = str(r.choice(["FFT", "JONES", "NORMAL"]))
    if op.get("fam") in ("C", "D") and op["op"] in ("basis", "sources", "utils", "beam") and r.random() < 0.5:
        op["fam"] = "C" if op["fam"] == "D" else "D"
    return op


MODES = ("direct", "direct", "direct", "jit", "jit", "jit", "jitpost", "trip", "buffer")


def base_op(r, i):
    """One of a few structures per worker class, so that a long-lived client's compiled
    functions are used again and again with different contents."""
    q = int(r.integers(0, 5))
    b = world.rng_of("structure", i % 8, q, i // 1600)
    op = ops.gen_class(b, i, vec=0.15)
    if op["op"] in ("stack", "sops"):
        if q:
            for l in op["layers"]:
                l["form"] = "FFT"
        if q in (0, 1, 2) and "want" in op:
            op["want"] = ["waves"]
    return op


def gen(r, i):
    if i % 8 == 5 and r.random() < 0.5:
        bases = [{"op": "expand", "seed": int(r.integers(0, 10**6)), "lats": 3}]
    else:
        bases = [base_op(r, i)]
    if r.random() < 0.3:
        bases.append(base_op(r, i))
    jitok = r.random() < 0.75
    steps = []
    for _ in range(int(r.integers(3, 7))):
        x = r.random()
        if i % 8 in (4, 5, 6) and x < 0.12:
            steps.append({"parade": True, "seed": int(r.integers(0, 10**6)), "kind": str(r.choice(["lat", "exp", "mix"]))})
        elif x < 0.015:
            steps.append({"event": "clear"})
        elif x < 0.17:
            steps.append({"event": str(r.choice(["gc", "lru", "churn", "drop-jit"]))})
        base = bases[int(r.integers(0, len(bases)))]
        op = variant(r, base)
        mode = str(r.choice(MODES))
        if mode.startswith("jit") and (not jitok or op["op"] in ("expand",)):
            mode = "direct"
        if mode == "jitpost" and op["op"] != "stack":
            mode = "jit"
        step = {"op": op, "mode": mode}
        if mode == "trip":
            step["how"] = str(r.choice(["pickle", "copy", "flatten", "twice", "device"]))
        steps.append(step)
    return {"steps": steps}


def nontrivial(spec):
    return sum("op" in s for s in spec["steps"]) > 1


# ---------------------------------------------------------------------------
# Execution
# ---------------------------------------------------------------------------


def trip(tree, how):
    import jax
    if how == "pickle":
        return pickle.loads(pickle.dumps(tree))
    if how == "copy":
        return copy.deepcopy(tree)
    if how == "flatten":
        leaves, td = jax.tree_util.tree_flatten(tree)
        return jax.tree_util.tree_unflatten(td, leaves)
    if how == "twice":
        return jax.tree_util.tree_map(lambda x: x, trip(trip(tree, "flatten"), "copy"))
    # moves every array to the device; records are rebuilt from the moved arrays
    leaves, td = jax.tree_util.tree_flatten(tree)
    return jax.tree_util.tree_unflatten(td, [jax.device_put(x) for x in leaves])


def clear_lru(fm):
    n = 0
    for m in env.MODULES:
        for v in list(vars(getattr(fm, m)).values()):
            f = getattr(v, "cache_clear", None)
            if callable(f):
                f()
                n += 1
    return n


def run_event(ctx, kind, r):
    import jax
    fm = ctx.fm
    ctx.fault("event-" + kind)
    if kind == "clear":
        jax.clear_caches()
    elif kind == "gc":
        ctx.held.clear()
        gc.collect()
    elif kind == "lru":
        clear_lru(fm)
    elif kind == "drop-jit":
        ctx.jits.clear()
        gc.collect()
    elif kind == "churn":
        # objects of all sizes come and go, so that addresses are reused
        for q in range(20):
            n = int(r.integers(1, 8))
            e = fm.basis.Expansion(basis_coefficients=r.integers(-3, 4, size=(2 * n + 1, 2)))
            fm.fft.min_array_shape_for_expansion(e)
            del e


PARADE = 14


def parade_item(fm, r, kind):
    """Small calls on newly created records and arrays."""
    import jax.numpy as jnp
    u = jnp.asarray(np.asarray([r.uniform(0.6, 1.4), r.uniform(-0.3, 0.3)]))
    v = jnp.asarray(np.asarray([r.uniform(-0.3, 0.3), r.uniform(0.6, 1.4)]))
    m = int(r.integers(1, 4))
    g = np.concatenate([np.zeros((1, 2), int), r.permutation(np.stack(np.meshgrid(np.arange(-m, m + 1), [-2, -1, 1, 2]), -1).reshape(-1, 2))[:8]])
    k = jnp.asarray(r.uniform(-1, 1, size=2))
    x = jnp.asarray(r.standard_normal((10, 10)))
    c = jnp.asarray(r.standard_normal((9, 2)))
    loc = jnp.asarray(r.uniform(-0.5, 0.5, size=(1, 2)))
    kind = kind or str(r.choice(["lat", "exp", "mix"]))
    lat, exp = fm.basis.LatticeVectors(u=u, v=v), fm.basis.Expansion(basis_coefficients=g)
    held = [u, v, g, k, x, c, loc, lat, exp]
    out = {}
    if kind in ("lat", "mix"):
        out["ru"], out["rv"] = lat.reciprocal.u, lat.reciprocal.v
        out["t"] = fm.basis.transverse_wavevectors(k, lat, exp)
        out["x"], out["y"] = fm.basis.unit_cell_coordinates(lat, (3, 4), (2, 1))
        out["bz"] = fm.basis.brillouin_zone_in_plane_wavevector((3, 2), lat)
        out["d"] = fm.sources.dirac_delta_source(loc, k, lat, exp)
        out["gen"] = np.asarray(fm.basis.generate_expansion(lat, 9, fm.basis.Truncation.CIRCULAR).basis_coefficients)[:5]
    if kind in ("exp", "mix"):
        out["m"] = np.asarray(fm.fft.min_array_shape_for_expansion(exp))
        out["f"] = fm.fft.fft(x, exp)
        out["i"] = fm.fft.ifft(c, exp, (10, 10), axis=-2)
        out["c"] = fm.fft.fourier_convolution_matrix(x, exp) if out["m"].max() <= 10 else np.zeros(1)
        out["uf"] = fm.farfield.unflatten(jnp.reshape(c[:, 0], (1, 1, 9)), exp)
    return {a: np.asarray(b) for a, b in out.items()}, held


def parade(ctx, step):
    """Short-lived records and arrays follow each other, so that each has the address of an
    earlier one; the reference has them all alive at once."""
    ref = fresh_instance()
    keep, want = [], []
    for q in range(PARADE):
        out, held = parade_item(ref, world.rng_of("parade", step["seed"], q), step["kind"])
        keep.append(held)
        want.append(out)
    for q in range(PARADE):
        got, held = parade_item(ctx.fm, world.rng_of("parade", step["seed"], q), step["kind"])
        del held
        e, name = ops.compare(got, want[q], TOL)
        ctx.dev("parade", e)
        if e > TOL:
            return core.violation(f"parade:{name.split()[0]}", f"result {name} for record number {q} of a sequence of short-lived records differs by {e:.3g} from a freshly imported library")
    ctx.fault("event-parade")
    return None


def call_step(ctx, fm, step):
    """One call as the client makes it on the long-lived instance."""
    import jax
    import jax.numpy as jnp
    op, mode = step["op"], step["mode"]
    A = ops.arrays(op, [0], ()) if op["op"] != "expand" else {}
    if mode == "buffer":
        # the client keeps its arrays and overwrites them between calls
        B = {}
        for k, v in A.items():
            buf = ctx.buffers.setdefault((v.shape, v.dtype.str, k), np.array(v))
            buf[...] = v
            B[k] = buf
        objs = records(fm, op)
        return ops.to_np(call(fm, op, objs, {k: jnp.array(v) for k, v in B.items()}))
    objs = records(fm, op)
    J = ops.jx(A)
    if mode == "jit":
        key = json.dumps(structure(op), sort_keys=True, default=str)
        if key not in ctx.jits:
            fixed = copy.deepcopy(op)
            ctx.jits[key] = jax.jit(lambda o, a: {k: jnp.asarray(v) for k, v in call(fm, fixed, o, a).items()})
        else:
            ctx.probe("compiled-function-reused")
        return ops.to_np(ctx.jits[key](objs, J))
    if mode == "jitpost":
        solves = ops.solve_layers(fm, op, objs, J)
        key = "post" + json.dumps(structure(op), sort_keys=True, default=str)
        if key not in ctx.jits:
            fixed = copy.deepcopy(op)
            ctx.jits[key] = jax.jit(lambda s, t: ops.post_stack(fm, fixed, s, t))
        else:
            ctx.probe("compiled-function-reused")
        t = [jnp.asarray(x, dtype=solves[0].eigenvalues.real.dtype) for x in op["t"]]
        return ops.to_np(ctx.jits[key](solves, t))
    if mode == "trip":
        objs = trip(objs, step["how"])
        ctx.fault("roundtrip-" + step["how"])
        if op["op"] == "stack":
            solves = trip(ops.solve_layers(fm, op, objs, J), step["how"])
            return ops.to_np(ops.post_stack(fm, op, solves, list(op["t"])))
    return ops.to_np(call(fm, op, objs, J))


def reference(op):
    ref = fresh_instance()
    out = ops.to_np(call(ref, op, records(ref, op), ops.jx(ops.arrays(op, [0], ())) if op["op"] != "expand" else {}))
    return out


def execute(spec, ctx):
    fm = ctx.fm
    ctx.buffers = {}
    refs = {}
    r = world.rng_of("c08", json.dumps(spec, sort_keys=True))
    for step in spec["steps"]:
        ctx.steps += 1
        if "event" in step:
            run_event(ctx, step["event"], r)
            continue
        if "parade" in step:
            bad = parade(ctx, step)
            if bad:
                return bad
            continue
        op = step["op"]
        key = json.dumps(op, sort_keys=True)
        if op["op"] == "fourier" or op["op"] == "matrices":
            grid = FAMILIES[op["fam"]]["grid"]
            mn = np.abs(ops.expansion(fm, op).basis_coefficients).max(axis=0) * 2 + 1
            if any(m > g for m, g in zip(mn, grid)):
                continue
        if key not in refs:
            refs[key] = reference(op)
        ref = refs[key]
        got = call_step(ctx, fm, step)
        tol = TOL32 if op.get("f32") else TOL_GRAD if op["op"] in ("grad", "utils") else TOL
        e, name = ops.compare(got, ref, tol)
        ctx.dev(("f32-" if op.get("f32") else "") + op["op"], e)
        ctx.fault("mode-" + step["mode"])
        if e > tol:
            return core.violation(f"history:{op['op']}:{name.split()[0]}",
                                  f"{op['op']} result {name} differs by {e:.3g} from a freshly imported library (mode {step['mode']})")
        for k in ref:
            if got[k].dtype != ref[k].dtype and not k.endswith("!"):
                return core.violation(f"history-dtype:{op['op']}", f"{op['op']} result {k} has type {got[k].dtype}, {ref[k].dtype} in a freshly imported library (mode {step['mode']})")
    ctx.state([(s.get("event"), s.get("kind"), s.get("mode"), s.get("op", {}).get("op"), s.get("op", {}).get("expmod")) for s in spec["steps"]])
    return None


def shrink(spec):
    for i in range(len(spec["steps"])):
        if len(spec["steps"]) > 1:
            s = copy.deepcopy(spec); del s["steps"][i]; yield s
    for i, st in enumerate(spec["steps"]):
        if st.get("mode") not in (None, "direct"):
            s = copy.deepcopy(spec); s["steps"][i]["mode"] = "direct"; yield s
        for k in ("expmod", "f32"):
            if st.get("op", {}).get(k):
                s = copy.deepcopy(spec); s["steps"][i]["op"].pop(k); yield s
        if len(st.get("op", {}).get("want", [])) > 1:
            for w in st["op"]["want"]:
                if w != "waves":
                    s = copy.deepcopy(spec)
                    for q in s["steps"]:
                        if "want" in q.get("op", {}):
                            q["op"]["want"] = [x for x in q["op"]["want"] if x != w]
                    yield s


RULE = ("one run = a history of 3-6 public operations of equal structure and different contents on one long-lived library instance, called "
        "directly, through reused compiled functions, after pickling/copying/flattening round trips or from reused buffers, with cache clears, "
        "garbage collection and object churn in between; each result is compared with a freshly imported library; non-trivial = two or more operations")
STATES = "distinct histories by (event, mode, operation, expansion variant)"
COMPONENTS = {"real": ["all of fmmax on jax/CPU, jit caches, pytree registrations"], "stub": []}
ASSUMPTIONS = ["jax's own caches are correct for jax's own functions",
               "tolerance 1e-7 (1e-5 gradients, 3e-2 single precision) against the largest magnitude of each result",
               "the process-wide precision setting is not changed after import"]
