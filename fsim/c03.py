"""C03: a stack's scattering matrix does not depend on how it was assembled.

A run is a history of builder steps over a pool of fragments. Every fragment carries the
list of (layer, thickness) it stands for; after every step its matrix is compared with the
one the reference model (dense continuity equations) gives for that list.
"""
import copy

import numpy as np

from fsim import core, env, ops, oracle, world

PROPERTY, LEVEL, FAKE_JEIG = "C03", "exploration", False
TOL, TOL32 = 2e-7, 3e-2
MAXLEN = 6


def runs(tier):
    return 1600 if tier == "quick" else 20000


def budget(tier):
    return 60 if tier == "quick" else 1200


# Runs of these classes (and so workers) are deep: {class: (family, batch)}
DEEP = {0: ("D", ()), 4: ("D", (2,))}
THICK = (0.0, 1e-9, 1e-3, 5.0, 60.0)


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)


def gen_deep(r, i):
    """Many short histories with their own contents; every builder function is compiled."""
    fam, batch = DEEP[i % 8]
    layers = [{"kind": k, "form": "FFT", "loss": l} for k, l in (("u", False), ("p", False), ("p", True), ("s", False), ("ua", False), ("a", False))]
    return {"deep": [int(x) for x in r.integers(0, 10**9, size=60)], "fam": fam, "batch": list(batch), "layers": layers,
            "vec": bool(batch), "mode": "deep", "f32": False}


def gen(r, i):
    if i % 8 in DEEP:
        return gen_deep(r, i)
    cls = i % 8
    fam = "D" if cls < 6 else "B"
    mode = {0: "scalar", 1: "scalar", 2: "batch", 3: "mutual", 4: "batch", 5: "f32", 6: "scalar", 7: "batch"}[cls]
    if cls == 5 and r.random() < 0.5:
        mode = "mixed"
    batch = () if mode in ("scalar", "mutual", "mixed") else (2,)
    wl, k = world.gen_wave(r, batch)
    num = int(r.integers(2, 5))
    layers = []
    for j in range(num):
        kind = str(r.choice(["u", "p", "p", "ua", "a"] if mode != "f32" else ["u", "p"]))
        if mode == "batch":
            b = [2] if r.random() < 0.7 else [1]
        elif mode == "mutual":
            b = [[2, 1], [1, 2], [1, 1], [2, 2]][int(r.integers(0, 4))]
        elif mode == "mixed":  # layers of different batch rank
            b = [[], [2], [2, 1]][int(r.integers(0, 3))] if i % 16 < 8 else [[], [10]][int(r.integers(0, 2))]
        elif mode == "f32":
            b = [2]
        else:
            b = []
        layers.append({"kind": kind, "form": "FFT", "seed": int(r.integers(0, 10**6)), "loss": bool(r.random() < 0.3) and mode != "f32", "b": b})
    steps = gen_steps(r, num, int(r.integers(5, 12)))
    return {"fam": fam, "wl": wl, "k": k, "layers": layers, "steps": steps, "mode": mode, "f32": mode == "f32",
            "x64off": bool(mode == "f32" and r.random() < 0.5)}


def gen_steps(r, num, count):
    steps = []
    for _ in range(count):
        op = str(r.choice(["new", "stack", "append", "append", "prepend", "prepend", "join", "join", "set_start",
                           "set_end", "interior", "scan", "checkpoint"]))
        s = {"op": op, "a": int(r.integers(0, 10**6)), "b": int(r.integers(0, 10**6)),
             "t": round(float(r.uniform(0, 0.5)), 4) if r.random() < 0.9 else 0.0,
             "tf": str(r.choice(["float", "np", "jnp", "vec", "int0"])), "x64": bool(r.random() < 0.25)}
        if op in ("stack", "interior", "scan"):
            m = int(r.integers(1 if op != "scan" else 2, 5))
            s["list"] = [[int(r.integers(0, num)), round(float(r.uniform(0, 0.5)), 4) if r.random() < (0.7 if op == "scan" else 0.9) else 0.0,
                          str(r.choice(["float", "np", "jnp", "vec"]))] for _ in range(m)]
        s["again"] = bool(r.random() < 0.15)
        steps.append(s)
    return steps


def nontrivial(spec):
    return bool(spec.get("deep")) or len(spec["steps"]) >= 3


class Frag:
    def __init__(self, s, items, *parents):
        self.s, self.items = s, items  # items: [(layer index, thickness as numpy array)]
        self.clear = all(p.clear for p in parents)  # made without amplifying rounding


def execute(spec, ctx):
    if spec.get("deep"):
        return execute_deep(spec, ctx)
    if spec.get("x64off"):
        from jax.experimental import disable_x64
        with disable_x64():
            return execute_once(spec, ctx)
    return execute_once(spec, ctx)


class Judge:
    """Compares fragments with the reference model for one set of contents."""

    def __init__(self, ctx, spec, solves, lat, tag=""):
        self.ctx, self.spec, self.solves, self.tag = ctx, spec, solves, tag
        self.batch = np.broadcast_shapes(*[s.batch_shape for s in solves])
        self.idxs = list(np.ndindex(*self.batch)) if self.batch else [()]
        self.data = [[oracle.LayerData(s, ix, self.batch, np.asarray(lat.u), np.asarray(lat.v)) for s in solves] for ix in self.idxs]
        self.tol = TOL32 if spec["f32"] else TOL
        self.cleared = {}
        # a mode at its cut-off or parallel modes: the modal description itself breaks down
        self.fit = all(np.abs(ld.q).min() >= 2e-2 and np.linalg.cond(ld.phi) <= 1e4 for d in self.data for ld in d)

    def clear(self, items):
        """Whether rounding is amplified little by a list of layers and all its beginnings
        and ends: only then are 7 digits to be expected of the library's matrices."""
        n = len(items)
        return all(self._clear(p) for p in [items[:q] for q in range(2, n + 1)] + [items[q:] for q in range(1, n - 1)])

    def _clear(self, items):
        key = tuple((i, np.asarray(t).tobytes()) for i, t in items)
        if key not in self.cleared:
            self.cleared[key] = all(self._clear_element(items, n) for n in range(len(self.idxs)))
        return self.cleared[key]

    def _clear_element(self, items, n):
        ls = [self.data[n][i] for i, _ in items]
        ts = [float(self.tval(t, n)) for _, t in items]
        ref = oracle.s_matrix(ls, ts)
        if not max(np.abs(x).max() for x in ref) < 1e4:
            return False
        r = np.random.default_rng(len(items))
        off = []
        for x in ls:
            x = copy.copy(x)
            x.q, x.e, x.h = [y * (1 + 1e-12 * r.uniform(-1, 1, size=y.shape)) for y in (x.q, x.e, x.h)]
            off.append(x)
        alt = oracle.s_matrix(off, ts)
        return all(np.abs(x - y).max() < 1e-8 * max(np.abs(x).max(), 1e-3) for x, y in zip(ref, alt))

    def tval(self, v, n):
        v = np.asarray(v)
        return np.broadcast_to(v.reshape((1,) * (len(self.batch) - v.ndim) + v.shape), self.batch)[self.idxs[n]]

    def check(self, s, items, what):
        blocks = [np.asarray(x) for x in (s.s11, s.s12, s.s21, s.s22)]
        for n, ix in enumerate(self.idxs):
            ls = [self.data[n][i] for i, _ in items]
            ts = [float(self.tval(t, n)) for _, t in items]
            ref = oracle.s_matrix(ls, ts)
            if max(np.abs(x).max() for x in ref) > 1e6:
                self.ctx.skipped["resonant"] += 1
                continue
            for name, b, rf in zip(("s11", "s12", "s21", "s22"), blocks, ref):
                got = oracle.bidx(b, 2, ix, self.batch)
                scale = max(1.0, max(np.abs(x).max() for x in ref)) if self.spec["f32"] else max(np.abs(rf).max(), 1e-3)
                e = np.abs(got - rf).max() / scale if np.all(np.isfinite(got)) else np.inf
                self.ctx.dev(self.tag + name + ("-f32" if self.spec["f32"] else ""), e)
                if e > self.tol:
                    return core.violation(f"wrong-matrix:{what}", f"{name} deviates by {e:.3g} from field continuity after {what}; list {[(i, np.asarray(t).tolist()) for i, t in items]} element {ix}")
        for end, (i, t) in (("start", items[0]), ("end", items[-1])):
            rec, th = getattr(s, end + "_layer_solve_result"), np.asarray(getattr(s, end + "_layer_thickness"))
            th = th[..., 0] if th.ndim and th.shape[-1] == 1 and th.ndim > len(np.shape(t)) else th
            try:
                ok_t = np.allclose(np.broadcast_to(th, np.shape(t)) if np.ndim(t) else th, t, rtol=1e-5, atol=1e-10)
            except ValueError:
                ok_t = False
            if not ok_t:
                return core.violation(f"recorded-thickness:{what}", f"{end} thickness {th} recorded, {t} used, after {what}")
            for f in ("eigenvalues", "eigenvectors", "z_permittivity_matrix", "transverse_permeability_matrix", "wavelength", "in_plane_wavevector"):
                x, y = np.asarray(getattr(rec, f)), np.asarray(getattr(self.solves[i], f))
                x, y = np.broadcast_arrays(x, y)
                if not np.array_equal(x, y, equal_nan=True):
                    return core.violation(f"recorded-layer:{what}", f"{end} layer record differs in {f} after {what}")
        return None


def execute_once(spec, ctx):
    import jax.numpy as jnp
    fm = ctx.fm
    lat = world.lattice(fm, spec["fam"])
    if spec["f32"]:
        lat = fm.basis.LatticeVectors(u=lat.u.astype(jnp.float32), v=lat.v.astype(jnp.float32))
    exp = world.make_expansion(fm, spec["fam"])
    wl, k = world.wave(spec, jnp)
    solves = [world.solve_layer(fm, spec, l, wl, k, lat, exp) for l in spec["layers"]]
    judge = Judge(ctx, spec, solves, lat)
    if not judge.fit:
        ctx.skipped["ill-conditioned-modes"] += 1
        return None
    rdt = np.float32 if spec["f32"] else np.float64

    def thickness(t, form, li):
        """A thickness in one of the accepted forms, and its value per batch element."""
        if form == "int0" and t == 0.0:
            return 0, np.zeros((), rdt)
        if form == "np":
            return rdt(t), np.asarray(t, rdt)
        if form == "jnp":
            return jnp.asarray(t, rdt), np.asarray(t, rdt)
        if form == "vec" and solves[li].batch_shape:
            v = spread(t, solves[li].batch_shape).astype(rdt)
            return jnp.asarray(v), v[..., 0]
        return float(t), np.asarray(t, rdt)

    pool, trace = [], []

    def emit(frag, what):
        v = judge.check(frag.s, frag.items, what)
        if v:
            v["detail"] += f"; history {trace}"
            return v
        ctx.steps += 1
        return None

    v = history(spec, fm.scattering, solves, lat, thickness, rdt, ctx, pool, trace, emit)
    if v:
        return v
    ctx.state(spec["mode"], trace)
    ctx.probe("mode-" + spec["mode"])
    if any(len(g.items) >= 5 for g in pool):
        ctx.probe("fragment-of-5-or-more-layers")
    return None


def spread(t, bs):
    """Different thicknesses of the elements of a batch, with a trailing unit axis."""
    f = 1 + 0.25 * np.arange(int(np.prod(bs)))
    return t * f.reshape(tuple(bs) + (1,))


class Compiled:
    """The builder functions of the library, compiled."""

    NAMES = ("stack_s_matrix", "stack_s_matrices_interior", "stack_s_matrix_scan", "append_layer", "prepend_layer",
             "redheffer_star_product", "set_start_layer_thickness", "set_end_layer_thickness")

    def __init__(self, S):
        import jax
        for name in self.NAMES:
            setattr(self, name, jax.jit(getattr(S, name)))


def deep_contents(spec, seed):
    """Layers and history of one round."""
    r = world.rng_of("deep", seed)
    num = int(r.integers(2, 5))
    layers = [spec["layers"][int(x)] for x in r.integers(0, len(spec["layers"]), size=num)]
    op = {"op": "stack", "seed": int(r.integers(0, 10**9)), "fam": spec["fam"], "layers": layers}
    if r.random() < 0.4:
        op["wild"] = True
    n = int(np.prod(spec["batch"])) if spec["batch"] else 1
    A = ops.arrays(op, [int(x) for x in r.permutation(20)[:n]], tuple(spec["batch"]))
    x = r.random()
    if x < 0.3:
        A["k"] = A["k"] * (0.0 if x < 0.15 else [1e-7, 1e-4, 1e-2][int(r.integers(0, 3))])
    # some layers are the same medium as another, or nearly so
    for j in range(1, num):
        for q in range(j):
            if layers[q] == layers[j] and r.random() < 0.3:
                near = r.random() < 0.5
                for name in [m for m in A if m.endswith(str(j)) and m not in ("wl", "k")]:
                    other = A[name[:-1] + str(q)]
                    A[name] = other + (1e-6 * (A[name] - other) if near else 0)
    if "steps" in spec:
        return layers, A, spec["steps"]
    steps = [dict(s, x64=False, again=False) for s in gen_steps(r, num, int(r.integers(3, 8)))]
    if spec["vec"]:
        steps = [dict(s, op="stack") if s["op"] == "scan" else s for s in steps]
    for s in steps:
        if "list" in s:  # few different lengths: every length is compiled
            s["list"] = [list(l) for l in (s["list"] * 3)[:2 + (s["op"] != "stack" or r.random() < 0.5)]]
        if r.random() < 0.15:
            s["t"] = float(r.choice(THICK))
        for l in s.get("list", ()):
            if r.random() < 0.15:
                l[1] = float(r.choice(THICK))
    if r.random() < 0.1:  # nothing but tunnelling through one thick layer, or nothing at all
        t = float(r.choice(THICK))
        for s in steps:
            s["t"] = t
            for l in s.get("list", ()):
                l[1] = t
    return layers, A, steps


def execute_deep(spec, ctx):
    import jax.numpy as jnp
    fm = ctx.fm
    if not hasattr(ctx, "compiled"):
        ctx.compiled, ctx.solvers = Compiled(fm.scattering), {}
    objs = ops.objects(fm, {"op": "stack", "fam": spec["fam"]})
    lat = objs["lat"]

    def solve(layer, j, A):
        kind = "p" if layer["kind"] == "s" else layer["kind"]
        key = (spec["fam"], kind)
        if key not in ctx.solvers:
            ctx.solvers[key] = ops.compiled_solve(fm, spec["fam"], objs, layer)
        B = {"wl": A["wl"], "k": A["k"]}
        B.update({m[:-1] + "0": x for m, x in A.items() if m.endswith(str(j)) and m not in B})
        return ctx.solvers[key](ops.jx(B))

    for seed in spec["deep"]:
        layers, A, steps = deep_contents(spec, seed)
        solves = [solve(l, j, A) for j, l in enumerate(layers)]
        judge = Judge(ctx, spec, solves, lat, "deep-")
        if not judge.fit:
            ctx.skipped["ill-conditioned-modes"] += 1
            continue

        def thickness(t, form, li):
            if spec["vec"]:
                v = spread(t, spec["batch"])
                return jnp.asarray(v), v[..., 0]
            return jnp.asarray(t), np.asarray(t)

        pool, trace = [], []

        def emit(frag, what):
            ctx.steps += 1
            frag.clear = frag.clear and judge.clear(frag.items)
            if not frag.clear:
                ctx.skipped["ill-conditioned-stack"] += 1
                return None
            v = judge.check(frag.s, frag.items, what)
            if v:
                v["detail"] += f"; compiled, contents {seed}, history {trace}"
            return v

        v = history({"steps": steps}, ctx.compiled, solves, lat, thickness, np.float64, ctx, pool, trace, emit)
        if v:
            return v
        ctx.probe("deep-round")
        ctx.state("deep", spec["fam"], [l["kind"] for l in layers], trace)
    return None


def history(spec, S, solves, lat, thickness, rdt, ctx, pool, trace, emit):
    """Performs the builder steps; `emit` receives every fragment made."""
    import jax
    import jax.numpy as jnp

    def add(frag, what):
        v = emit(frag, what)
        if v:
            return v
        if len(frag.items) <= MAXLEN:
            pool.append(frag)
        return None

    for st in spec["steps"]:
        op = st["op"]
        kw = {"force_x64_solve": True} if st["x64"] else {}
        what = op
        if not pool and op not in ("new", "stack", "interior", "scan"):
            op = what = "new"
        for attempt in range(2 if st["again"] else 1):
            new = []
            if op == "new":
                li = st["a"] % len(solves)
                th, tv = thickness(st["t"], st["tf"], li)
                new.append(Frag(S.stack_s_matrix([solves[li]], [th], **kw), [(li, tv)]))
            elif op in ("stack", "interior"):
                its = [(li, *thickness(t, f, li)) for li, t, f in st["list"]]
                sv, th, items = [solves[x[0]] for x in its], [x[1] for x in its], [(x[0], x[2]) for x in its]
                if op == "stack":
                    new.append(Frag(S.stack_s_matrix(sv, th, **kw), items))
                else:
                    res = S.stack_s_matrices_interior(sv, th, **kw)
                    if len(res) != len(sv):
                        return core.violation("interior-length", f"{len(res)} pairs for {len(sv)} layers")
                    for q, (bef, aft) in enumerate(res):
                        new.append(Frag(bef, items[: q + 1]))
                        new.append(Frag(aft, items[q:]))
            elif op == "scan":
                lst = [x for x in st["list"]]
                sv = [solves[x[0]] for x in lst]
                full = np.broadcast_shapes(*[s.batch_shape for s in sv])

                def expand(sol):
                    lead = len(full)

                    def go(x, tail):
                        x = jnp.reshape(x, (1,) * (lead + tail - x.ndim) + x.shape)
                        return jnp.broadcast_to(x, full + x.shape[lead:])
                    tails = {"wavelength": 0, "in_plane_wavevector": 1, "eigenvalues": 1}
                    kw2 = {}
                    for f in sol.__dataclass_fields__:
                        v = getattr(sol, f)
                        if v is None or f in ("primitive_lattice_vectors", "expansion", "formulation", "tangent_vector_field"):
                            continue
                        kw2[f] = go(jnp.asarray(v), tails.get(f, 2))
                    new_ = copy.copy(sol)
                    for f, v in kw2.items():
                        object.__setattr__(new_, f, v)
                    object.__setattr__(new_, "primitive_lattice_vectors", type(lat)(
                        u=jnp.broadcast_to(jnp.asarray(lat.u), full + (2,)), v=jnp.broadcast_to(jnp.asarray(lat.v), full + (2,))))
                    object.__setattr__(new_, "tangent_vector_field", None)
                    return new_
                st_ = jax.tree_util.tree_map(lambda *xs: jnp.stack(xs), *[expand(x) for x in sv])
                th = [thickness(x[1], "float", x[0]) for x in lst]
                ts = jnp.asarray([x[0] for x in th], rdt)
                new.append(Frag(S.stack_s_matrix_scan(st_, ts, **kw), [(x[0], y[1]) for x, y in zip(lst, th)]))
            else:
                f = pool[st["a"] % len(pool)]
                if op in ("append", "prepend"):
                    li = st["b"] % len(solves)
                    th, tv = thickness(st["t"], st["tf"], li)
                    if op == "append":
                        new.append(Frag(S.append_layer(f.s, solves[li], th, **kw), f.items + [(li, tv)], f))
                    else:
                        new.append(Frag(S.prepend_layer(f.s, solves[li], th, **kw), [(li, tv)] + f.items, f))
                elif op == "join":
                    g = pool[st["b"] % len(pool)]
                    new.append(Frag(S.redheffer_star_product(f.s, g.s, **kw), f.items + g.items, f, g))
                    what = "join"
                elif op in ("set_start", "set_end"):
                    if len(f.items) < 2:
                        continue
                    pos = 0 if op == "set_start" else -1
                    li, old = f.items[pos]
                    if float(np.max(old)) * np.abs(np.asarray(solves[li].eigenvalues).imag).max() > 500:
                        continue  # known finding: the wave is lost in underflow and cannot be restored
                    th, tv = thickness(st["t"], st["tf"], li)
                    items = list(f.items)
                    items[pos] = (li, tv)
                    fn = S.set_start_layer_thickness if op == "set_start" else S.set_end_layer_thickness
                    new.append(Frag(fn(f.s, th), items, f))
                elif op == "checkpoint":
                    leaves, tree = jax.tree_util.tree_flatten(f.s)
                    leaves = [np.array(x) for x in leaves]
                    new.append(Frag(jax.tree_util.tree_unflatten(tree, [jnp.asarray(x) for x in leaves]), f.items, f))
                    pool.remove(f)  # the process that held the original is gone
            trace.append([op, [[i for i, _ in g.items] for g in new]])
            if st["again"] and attempt == 0:
                ctx.fault("abandoned-step")
                if op == "checkpoint":
                    pool.append(f)
                continue  # the result is dropped, the step is retried
            if op == "checkpoint":
                ctx.fault("checkpoint-restart")
            for g in new:
                v = add(g, what)
                if v:
                    return v
        while len(pool) > 8:
            pool.pop(0)
    return None


def shrink(spec):
    d = spec.get("deep", [])
    if len(d) > 1:
        s = copy.deepcopy(spec); s["deep"] = d[:len(d) // 2]; yield s
        s = copy.deepcopy(spec); s["deep"] = d[len(d) // 2:]; yield s
        return
    if d and "steps" not in spec:
        s = copy.deepcopy(spec); s["steps"] = deep_contents(spec, d[0])[2]; yield s
        return
    n = len(spec["steps"])
    for i in range(n - 1, -1, -1):
        s = copy.deepcopy(spec); del s["steps"][i]
        if s["steps"]:
            yield s
    for i, st in enumerate(spec["steps"]):
        for key, val in (("x64", False), ("again", False), ("tf", "float")) + (() if d else (("t", 0.25),)):
            if st[key] != val:
                s = copy.deepcopy(spec); s["steps"][i][key] = val; yield s
        if len(st.get("list", [])) > 2:
            s = copy.deepcopy(spec); s["steps"][i]["list"].pop(); yield s
    for i, l in enumerate(spec["layers"] if not d else ()):
        if l["kind"] != "u":
            s = copy.deepcopy(spec); s["layers"][i]["kind"] = "u"; yield s
        if l.get("b") and any(x != 1 for x in l["b"]):
            s = copy.deepcopy(spec); s["layers"][i]["b"] = [1] * len(l["b"]); yield s


RULE = ("one run = a history of 5-11 builder steps (append, prepend, join, scan, interior, set thickness, checkpoint, "
        "abandoned steps) over a pool of fragments of 2-4 random layers; after every step the new matrices are compared with "
        "the dense continuity solution of the list they stand for; a quarter of the runs use the compiled builder functions for "
        "60 such histories with their own contents (media, wavelengths, thicknesses from 0 to 60); non-trivial with at least three steps")
STATES = "distinct (batch mode, step history) tuples"
COMPONENTS = {"real": ["fmmax.scattering, fmmax.fmm eigensolves on jax/CPU"], "stub": ["none; the reference is an independent dense numpy solve"]}
ASSUMPTIONS = ["modes taken from the library's eigensolve; layers with |q|<0.02 or mode condition above 1e4 are skipped and counted",
               "relative tolerance 2e-7 (double), 3e-2 of the largest entry (single)",
               "an outer thickness is changed only on stacks of two or more layers"]
