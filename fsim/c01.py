"""C01: physical results do not depend on the eigensolver's legal choices."""
import copy

import numpy as np

from fsim import core, env, gauge, ops, physics, world

PROPERTY, LEVEL, FAKE_JEIG = "C01", "exploration", True
TOL = 2e-6
# Which of two opposite modes of a lossless interior layer is called forward is decided by
# rounding (fields do not depend on it); these results are compared for answers in which
# every mode keeps its eigenvalue bit by bit and is not combined with others.
DIRECTED = ("dir_", "given_transmitted")
KINDS = ("p", "p", "a", "m", "ua", "um", "u", "c", "s")


def runs(tier):
    return 160 if tier == "quick" else 4000


def budget(tier):
    return 85 if tier == "quick" else 1500


# (family, batch) of deep runs: workers take every 8th run
DEEP = [("D", ()), ("D", (2,)), ("B", ()), ("D", (2,)), ("C", ()), ("D", ()), ("C", (2,)), ("D", ())]
DEEP_KINDS = ("p", "p", "a", "m", "ua", "um", "u", "s")


def gen_deep(r, i):
    """One structure, compiled once, with many contents, each under many answers."""
    fam, batch = DEEP[i % 8]
    num = int(r.integers(3, 5))
    layers = []
    for j in range(num):
        kind = "u" if j in (0, num - 1) else str(r.choice(DEEP_KINDS))
        form = "FFT"
        if kind in ("p", "s", "a", "m") and r.random() < 0.2:
            form = str(r.choice(("JONES", "JONES_DIRECT", "CUSTOM") + (("NORMAL", "POL") if kind in ("p", "s") else ())))
        layers.append({"kind": kind, "form": form, "loss": bool(r.random() < 0.3) and 0 < j < num - 1})
    cut = int(r.integers(0, 5))
    if r.random() < 0.6:
        at = int(r.integers(1, num - 1))
        again = dict(layers[at], like=at)
        if r.random() < 0.2:
            again["same"] = True
        layers.insert(at + 1, again)
        cut = at if r.random() < 0.8 else cut
    return {"deep": [int(x) for x in r.integers(0, 10**9, size=80)], "fam": fam, "batch": list(batch), "layers": layers, "cut": cut}


def deep_contents(spec, seed):
    """Data arrays, thicknesses, excitation and answer choices of one deep round."""
    r = world.rng_of("deep", seed)
    op = {"op": "stack", "seed": int(r.integers(0, 10**9)), "fam": spec["fam"], "layers": spec["layers"]}
    if r.random() < 0.3:
        op["wild"] = True
    n = int(np.prod(spec["batch"])) if spec["batch"] else 1
    A = ops.arrays(op, [int(x) for x in r.permutation(20)[:n]], tuple(spec["batch"]))
    x = r.random()
    if x < 0.3:
        A["k"] = A["k"] * (0.0 if x < 0.15 else [1e-7, 1e-4, 1e-2][int(r.integers(0, 3))])
    for j, l in enumerate(spec["layers"]):
        if "like" in l:
            for k in [k for k in A if k.endswith(str(j)) and k not in ("wl", "k")]:
                A[k] = A[k[:-1] + str(l["like"])]
    t = r.uniform(0.0, 0.7, size=len(spec["layers"]))
    if r.random() < 0.3:
        t[int(r.integers(0, len(t)))] = r.choice([0.0, 1e-9, 1e-3, 5.0, 60.0])
    n2 = 2 * ops.NT[spec["fam"]]
    a, b = physics.incident({"inc": int(r.integers(0, 10**6))}, n2)
    opts = {"perm": bool(r.random() < 0.65), "scale": float(r.choice([0, 0.5, 2.0, 3.0])), "phase": bool(r.random() < 0.7),
            "mix": str(r.choice(["", "", "unitary", "skew"])), "noise": float(r.choice([0, 0, 1.0, 4.0]))}
    return A, t, a, b, opts, int(r.integers(0, 2**31))


def execute_deep(spec, ctx):
    import jax
    import jax.numpy as jnp
    fm = ctx.fm
    op = {"op": "stack", "fam": spec["fam"], "layers": spec["layers"]}
    objs = ops.objects(fm, op)

    def fn(A, t, a, b):
        solves = []
        for j, l in enumerate(spec["layers"]):
            solves.append(solves[l["like"]] if l.get("same") else ops._solve(fm, op, objs, A, j, l))
        solves_b = solves
        s = {"fam": spec["fam"], "cut": spec["cut"], "clear_flux": {str(j): True for j in range(len(solves))}}
        out = physics.observe(fm, s, solves_b, [t[j] for j in range(len(solves))], traced=True, excitation=(a, b))
        return out, [jnp.min(physics.clarity(fm, x)) for x in solves]

    f = jax.jit(fn)
    numeric = any(l["kind"] != "u" for l in spec["layers"])
    for seed in spec["deep"]:
        A, t, a, b, opts, bseed = deep_contents(spec, seed)
        args = (ops.jx(A), jnp.asarray(t), jnp.asarray(a), jnp.asarray(b))

        def run(backend):
            gauge.install(backend)
            try:
                out, clear = f(*args)
                return {k: np.asarray(v) for k, v in out.items()}, [float(c) for c in clear]
            finally:
                gauge.install(None)

        rb = gauge.Backend(0, {})
        ref, clear = run(rb)
        if numeric and not rb.calls:
            return core.violation("backend-not-used", "an installed eigensolver package was not used by the library")
        if rb.max_cond > 1e5:
            ctx.skipped["ill-conditioned-modes"] += 1
            continue
        base, _ = run(gauge.Backend(1, {"noise": 1.0}))
        # directions of single modes are defined only where no mode may be exchanged
        unclear = {f"{d}_{j}" for j, c in enumerate(clear) for d in ("dir_fwd", "dir_bwd") if c < 1e-7 or opts["mix"] or opts["noise"]}
        if opts["noise"] or opts["mix"]:
            unclear.add("given_transmitted")
        noise = max(dev(base, ref, k) for k in ref if not k.startswith(DIRECTED))
        if not noise < 1e-9:
            ctx.skipped["ill-conditioned-stack"] += 1
            continue
        backend = gauge.Backend(bseed, opts, ctx)
        got, _ = run(backend)
        ctx.steps += backend.calls
        ctx.probe("deep-round")
        ctx.state(spec["fam"], [(l["kind"], l["form"]) for l in spec["layers"]], seed)
        for k in ref:
            if k in unclear:
                continue
            e = dev(got, ref, k)
            ctx.dev("deep-" + k.rstrip("0123456789_"), e)
            if not e <= TOL:
                return core.violation("depends-on-eigensolver-answer:" + k.rstrip("0123456789_"),
                                      f"{k} deviates by {e:.3g} (relative) under backend choices {opts} (compiled, contents {seed})")
    return None


def dev(got, ref, k):
    return world.rel_err(got[k], ref[k], scale=max(np.abs(ref[k]).max(), scale_of(k, ref)))


def gen(r, i):
    if (i // 8) % 3 == 1:
        return gen_deep(r, i)
    fam = str(r.choice(["A", "B", "C", "D"]))
    batch = () if r.random() < 0.5 else (2,)
    wl, k = world.gen_wave(r, batch)
    if r.random() < 0.3:
        k = (np.asarray(k) * 0).tolist()
        fam = str(r.choice(["A", "D"]))
    forms = ("FFT",) if r.random() < 0.75 else ("FFT", "CUSTOM") + world.VECTOR_FORMS
    num = int(r.integers(3, 6))
    layers = world.gen_layers(r, num, batch, KINDS, forms)
    # the same medium again: solved a second time, or the same solve used twice
    cut = int(r.integers(0, 5))
    if r.random() < 0.5:
        i = int(r.integers(1, num - 1))
        j = int(r.integers(i + 1, num)) if r.random() < 0.4 else i + 1
        if r.random() < 0.7:
            cut = i  # the source is right behind the first of them
        again = dict(copy.deepcopy(layers[i]), t=float(np.round(r.uniform(0.0, 0.7), 6)))
        if r.random() < 0.25:
            again["same"] = True
        layers.insert(j, again)
    opts = {"perm": bool(r.random() < 0.65), "scale": float(r.choice([0, 0.5, 2.0, 3.0])),
            "phase": bool(r.random() < 0.7),
            "mix": str(r.choice(["", "unitary", "skew"])), "noise": float(r.choice([0, 1.0, 4.0]))}
    return {"fam": fam, "wl": wl, "k": k, "layers": layers, "inc": int(r.integers(0, 10**6)),
            "cut": cut, "backend": opts, "bseed": int(r.integers(0, 2**31))}


def nontrivial(spec):
    if spec.get("deep"):
        return any(l["kind"] != "u" for l in spec["layers"])
    o = spec["backend"]
    return any(o.values()) and any(l["kind"] != "u" for l in spec["layers"])


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)


def execute(spec, ctx):
    if spec.get("deep"):
        return execute_deep(spec, ctx)
    fm = ctx.fm
    import jeig
    spec = copy.deepcopy(spec)
    thick = [l["t"] for l in spec["layers"]]
    ref_backend = gauge.Backend(0, {})
    gauge.install(ref_backend)
    before = jeig.CALLS
    try:
        solves = physics.solve_all(fm, spec)
        if any(l["kind"] != "u" for l in spec["layers"]) and jeig.CALLS == before:
            # The optional package is importable but unused: the simulator has no seam.
            ctx.skipped["backend-not-used"] += 1
            return core.violation("backend-not-used", "an installed eigensolver package was not used by the library")
        if ref_backend.max_cond > 1e5:
            ctx.skipped["ill-conditioned-modes"] += 1
            return None
        if not spec["backend"].get("mix") and not spec["backend"].get("noise"):
            spec["clear_flux"] = {str(i): physics.flux_clarity(fm, s) > 1e-7 for i, s in enumerate(solves)}
        ref = physics.observe(fm, spec, solves, thick)
        # An ill-conditioned stack amplifies rounding itself; measure that first.
        gauge.install(gauge.Backend(1, {"noise": 1.0}))
        s2 = dict(spec); s2.pop("clear_flux", None)
        base = physics.observe(fm, s2, physics.solve_all(fm, spec), thick)
        noise = max(world.rel_err(base[k], ref[k], scale=max(np.abs(ref[k]).max(), scale_of(k, ref))) for k in base if not k.startswith(DIRECTED))
        if noise > 1e-9:
            ctx.skipped["ill-conditioned-stack"] += 1
            return None
        b = gauge.Backend(spec["bseed"], spec["backend"], ctx)
        gauge.install(b)
        got = physics.observe(fm, spec, physics.solve_all(fm, spec), thick)
    finally:
        gauge.install(None)
    ctx.steps += b.calls
    ctx.state(spec["fam"], [(l["kind"], l["form"]) for l in spec["layers"]], spec["backend"], spec["bseed"])
    if spec.get("clear_flux") and any(spec["clear_flux"].get(str(i)) for i in range(1, len(thick) - 1)):
        ctx.probe("interior-directional-flux-compared")
    for k in ref:
        if (spec["backend"].get("noise") or spec["backend"].get("mix")) and k.startswith(DIRECTED):
            continue
        e = world.rel_err(got[k], ref[k], scale=max(np.abs(ref[k]).max(), scale_of(k, ref)))
        ctx.dev(k.rstrip("0123456789_"), e)
        if e > TOL:
            return core.violation("depends-on-eigensolver-answer:" + k.rstrip("0123456789_"),
                                  f"{k} deviates by {e:.3g} (relative) under backend choices {spec['backend']}")
    return None


def scale_of(k, ref):
    """Quantities that may legitimately vanish are judged on the scale of their kind."""
    if "flux" in k or "dir" in k or "amplitude_" in k:
        return max(np.abs(ref["directional_fwd_0"]).max(), 1e-12)
    if k.endswith("field"):
        return 1e-12
    return 1e-12


def shrink(spec):
    d = spec.get("deep")
    if d:
        if len(d) > 1:
            for part in (d[:len(d) // 2], d[len(d) // 2:]):
                s = copy.deepcopy(spec); s["deep"] = part; yield s
        return
    L = spec["layers"]
    for i in range(1, len(L) - 1):
        if len(L) > 3:
            s = copy.deepcopy(spec); del s["layers"][i]; yield s
    for key in ("perm", "phase", "mix", "scale", "noise"):
        if spec["backend"].get(key):
            s = copy.deepcopy(spec)
            s["backend"][key] = "" if key == "mix" else (0 if key in ("scale", "noise") else False)
            yield s
    if isinstance(spec["wl"], list):
        s = copy.deepcopy(spec)
        s["wl"], s["k"] = spec["wl"][0], spec["k"][0]
        for l in s["layers"]:
            l["b"] = []
        yield s
    for i in range(1, len(L) - 1):
        for kind in ("u", "p"):
            if L[i]["kind"] not in ("u", kind):
                s = copy.deepcopy(spec); s["layers"][i].update(kind=kind, form="FFT"); yield s
    for i, l in enumerate(L):
        if l["t"] not in (0.0, 0.25):
            s = copy.deepcopy(spec); s["layers"][i]["t"] = 0.25; yield s


RULE = ("one run = one random stack (3-5 layers, mixed media, optional batch) solved with the "
        "canonical backend and again with a backend whose every answer is a seeded legal choice; "
        "every third run compiles one structure and varies contents and answers 80 times; non-trivial when at least one layer is solved numerically and at least one choice is enabled")
STATES = "distinct (family, layer kinds/formulations, backend choice set and seed) tuples"
COMPONENTS = {"real": ["fmmax (all of fmm, scattering, fields, sources)", "jax eager execution"],
              "stub": ["eigensolver backend (simulated jeig package over numpy LAPACK)"]}
ASSUMPTIONS = ["numpy's LAPACK eigendecomposition is correct to backward-error level",
               "stacks that amplify one-rounding noise above 1e-9, or with mode condition above 1e5, are skipped and counted",
               "relative tolerance 2e-6 in double precision"]
