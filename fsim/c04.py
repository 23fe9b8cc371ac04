"""C04: waves and fields inside a stack satisfy continuity, for any split of the work.

A run is a seeded work plan: which pieces are assembled, in which grouping and order, how
layers are sliced and how the field evaluation is divided. Everything reported is compared
with the dense continuity solution of the whole stack (reference model).
"""
import copy

import numpy as np

from fsim import core, env, ops, oracle, world

PROPERTY, LEVEL, FAKE_JEIG = "C04", "exploration", False
TOL = 2e-7


def runs(tier):
    return 1000 if tier == "quick" else 20000


def budget(tier):
    return 60 if tier == "quick" else 1200


# Runs of these classes (and so workers) are deep: {class: (family, batch)}
DEEP = {0: ("D", ()), 4: ("D", (2,))}
DEEP_TASKS = ("interior", "pieces", "source", "source", "fields", "grid", "coords", "slice", "columns")


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)


def gen_deep(r, i):
    """Many work plans with their own contents; every function used is compiled."""
    fam, batch = DEEP[i % 8]
    return {"deep": [int(x) for x in r.integers(0, 10**9, size=30)], "fam": fam, "batch": list(batch), "num": 3 if i % 128 < 96 else 2}


def deep_contents(spec, seed):
    """The plan of one round, and the arrays of its layers."""
    r = world.rng_of("deep4", seed)
    kinds = [(str(r.choice(["u", "p", "p", "s", "ua", "a", "m"])), bool(r.random() < 0.3)) for _ in range(spec["num"])]
    layers = [{"kind": k, "form": "FFT", "loss": l and k in "ups"} for k, l in kinds]
    n = int(np.prod(spec["batch"])) if spec["batch"] else 1
    A = ops.arrays({"op": "stack", "seed": int(r.integers(0, 10**9)), "fam": spec["fam"], "layers": layers, "wild": bool(r.random() < 0.4)},
                   [int(x) for x in r.permutation(20)[:n]], tuple(spec["batch"]))
    x = r.random()
    if x < 0.3:
        A["k"] = A["k"] * (0.0 if x < 0.15 else [1e-7, 1e-4, 1e-2][int(r.integers(0, 3))])
    same = {}
    for j in range(1, len(layers)):  # the same medium again, as the same solve or a second one
        for q in range(j):
            if layers[q] == layers[j] and r.random() < 0.3:
                if r.random() < 0.5:
                    same[j] = same.get(q, q)
                for name in [m for m in A if m.endswith(str(j)) and m not in ("wl", "k")]:
                    A[name] = A[name[:-1] + str(q)]
    for j, l in enumerate(layers):
        l["t"] = round(float(r.uniform(0, 0.5)), 4) if r.random() < 0.75 else float(r.choice([0.0, 1e-9, 1e-3, 2.0, 10.0]))
    num = len(layers)
    tasks = spec.get("tasks") or [str(x) for x in r.choice(DEEP_TASKS, size=int(r.integers(2, 4)), replace=False)]
    plan = {"fam": spec["fam"], "layers": layers, "mode": "deep", "tasks": tasks, "plan": int(r.integers(0, 2**31)), "inc": int(r.integers(0, 10**6)),
            "cut": int(r.integers(0, 100)), "cols": 2, "spread": float(r.choice([0, 0, 4, 9])), "points": 3, "layer": int(r.integers(0, 100)),
            "unb": False, "num": num}
    return plan, A, same


class Compiled:
    """The library's functions, compiled (same signatures; sizes and shapes are static)."""

    def __init__(self, fm):
        import functools
        import types

        import jax
        S, F = fm.scattering, fm.fields
        self.scattering = types.SimpleNamespace(**{n: jax.jit(getattr(S, n)) for n in (
            "stack_s_matrix", "stack_s_matrices_interior", "append_layer", "prepend_layer", "redheffer_star_product")})

        def static(fn, pos, names=()):
            fn = jax.jit(fn, static_argnums=pos, static_argnames=names)

            @functools.wraps(fn)
            def call(*a, **kw):
                return fn(*[tuple(x) if i in pos and isinstance(x, list) else x for i, x in enumerate(a)], **kw)
            return call

        self.fields = types.SimpleNamespace(
            stack_amplitudes_interior=jax.jit(F.stack_amplitudes_interior),
            stack_amplitudes_interior_with_source=jax.jit(F.stack_amplitudes_interior_with_source),
            colocate_amplitudes=jax.jit(F.colocate_amplitudes),
            fields_from_wave_amplitudes=jax.jit(F.fields_from_wave_amplitudes),
            stack_fields_3d=static(F.stack_fields_3d, (3,), ("grid_shape", "num_unit_cells")),
            layer_fields_3d_on_coordinates=static(F.layer_fields_3d_on_coordinates, (4,)),
            stack_fields_3d_on_coordinates=static(F.stack_fields_3d_on_coordinates, (3,)),
            layer_fields_3d=static(F.layer_fields_3d, (4, 5, 6)))
        self.sources = types.SimpleNamespace(amplitudes_for_source=jax.jit(fm.sources.amplitudes_for_source))


def execute_deep(spec, ctx):
    fm = ctx.fm
    if not hasattr(ctx, "compiled"):
        ctx.compiled, ctx.solvers = Compiled(fm), {}
    objs = ops.objects(fm, {"op": "stack", "fam": spec["fam"]})
    for seed in spec["deep"]:
        plan, A, same = deep_contents(spec, seed)
        solves = []
        for j, layer in enumerate(plan["layers"]):
            if j in same:
                solves.append(solves[same[j]])
                continue
            key = (spec["fam"], "p" if layer["kind"] == "s" else layer["kind"])
            if key not in ctx.solvers:
                ctx.solvers[key] = ops.compiled_solve(fm, spec["fam"], objs, layer)
            B = {"wl": A["wl"], "k": A["k"]}
            B.update({m[:-1] + "0": x for m, x in A.items() if m.endswith(str(j)) and m not in B})
            solves.append(ctx.solvers[key](ops.jx(B)))
        before = ctx.steps
        try:
            _execute(plan, ctx, ctx.compiled, solves, objs["lat"], objs["exp"])
        except Bad as b:
            b.v["detail"] += f"; compiled, contents {seed}"
            return b.v
        if ctx.steps > before:
            ctx.probe("deep-round")
    return None


def clear(data, ts):
    """Whether rounding is amplified little by a stack and by all its parts."""
    n = len(data)
    for i in range(n - 1):
        for j in range(i + 2, n + 1):
            ref = oracle.s_matrix(data[i:j], ts[i:j])
            if not max(np.abs(x).max() for x in ref) < 1e4:
                return False
            r = np.random.default_rng(i)
            off = []
            for x in data[i:j]:
                x = copy.copy(x)
                x.q, x.e, x.h = [y * (1 + 1e-12 * r.uniform(-1, 1, size=y.shape)) for y in (x.q, x.e, x.h)]
                off.append(x)
            alt = oracle.s_matrix(off, ts[i:j])
            if not all(np.abs(x - y).max() < 1e-8 * max(np.abs(x).max(), 1e-3) for x, y in zip(ref, alt)):
                return False
    return True


def gen(r, i):
    if i % 8 in DEEP:
        return gen_deep(r, i)
    cls = i % 8
    fam = "D" if cls < 5 else ("B" if cls < 7 else "C")
    mode = {0: "scalar", 1: "scalar", 2: "batch", 3: "mutual", 4: "batch", 5: "scalar", 6: "batch", 7: "mixed"}[cls]
    batch = (2,) if mode == "batch" else ()
    wl, k = world.gen_wave(r, batch)
    num = int(r.integers(2, 6))
    layers = []
    for j in range(num):
        kind = str(r.choice(["u", "p", "p", "ua", "a", "m"]))
        b = []
        if mode == "batch":
            b = [2] if r.random() < 0.7 else [1]
        elif mode == "mutual":
            b = [[2, 1], [1, 2], [1, 1], [2, 2]][int(r.integers(0, 4))]
        elif mode == "mixed":
            b = [[], [2]][int(r.integers(0, 2))]
        layers.append({"kind": kind, "form": "FFT", "seed": int(r.integers(0, 10**6)), "loss": bool(r.random() < 0.3),
                       "b": b, "t": round(float(r.uniform(0, 0.5)), 4) if r.random() < 0.92 else 0.0})
    tasks = [str(x) for x in r.choice(["interior", "pieces", "source", "source", "fields", "grid", "coords", "auto", "slice", "columns"],
                                      size=int(r.integers(2, 5)), replace=False)]
    return {"fam": fam, "wl": wl, "k": k, "layers": layers, "mode": mode, "tasks": tasks, "plan": int(r.integers(0, 2**31)),
            "inc": int(r.integers(0, 10**6)), "cut": int(r.integers(0, 100)), "cols": int(r.choice([1, 2, 2, 3, 4])),
            "spread": float(r.choice([0, 0, 4, 9])), "points": int(r.choice([2, 3, 3, 33, 70, 129, 260, 515, 1100])),
            "layer": int(r.integers(0, 100)), "unb": bool(r.random() < 0.3)}


def nontrivial(spec):
    return bool(spec.get("deep")) or any(l["kind"] != "u" for l in spec["layers"])


def assemble(r, S, solves, ts, log):
    """One scattering matrix for a list of layers, put together in a random way."""
    n = len(solves)
    how = str(r.choice(["stack", "split", "append", "prepend"])) if n > 1 else "stack"
    log.append((how, n))
    if how == "split":
        c = int(r.integers(1, n))
        if r.random() < 0.5:
            left = assemble(r, S, solves[:c], ts[:c], log)
            right = assemble(r, S, solves[c:], ts[c:], log)
        else:
            right = assemble(r, S, solves[c:], ts[c:], log)
            left = assemble(r, S, solves[:c], ts[:c], log)
        return S.redheffer_star_product(left, right)
    if how == "append":
        return S.append_layer(assemble(r, S, solves[:-1], ts[:-1], log), solves[-1], ts[-1])
    if how == "prepend":
        return S.prepend_layer(assemble(r, S, solves[1:], ts[1:], log), solves[0], ts[0])
    return S.stack_s_matrix(solves, ts)


def interior(r, S, solves, ts, log):
    """(before, after) for every layer, each assembled in its own random way and order."""
    out = [None] * len(solves)
    for i in [int(x) for x in r.permutation(len(solves))]:
        out[i] = (assemble(r, S, solves[: i + 1], ts[: i + 1], log), assemble(r, S, solves[i:], ts[i:], log))
    return tuple(out)


class Bad(Exception):
    def __init__(self, v):
        self.v = v


def execute(spec, ctx):
    if spec.get("deep"):
        return execute_deep(spec, ctx)
    import jax.numpy as jnp
    fm = ctx.fm
    lat = world.lattice(fm, spec["fam"])
    exp = world.make_expansion(fm, spec["fam"])
    wl, k = world.wave(spec, jnp)
    solves = [world.solve_layer(fm, spec, l, wl, k, lat, exp) for l in spec["layers"]]
    try:
        return _execute(spec, ctx, fm, solves, lat, exp)
    except Bad as b:
        return b.v


def _execute(spec, ctx, fm, solves, lat, exp):
    """Performs the plan with the functions of `fm` (the library, or compiled ones)."""
    import jax.numpy as jnp
    S, F = fm.scattering, fm.fields
    compiled = spec["mode"] == "deep"
    ts = [l["t"] for l in spec["layers"]]
    num, n2 = len(solves), 2 * exp.num_terms
    batch = np.broadcast_shapes(*[s.batch_shape for s in solves])
    idxs = list(np.ndindex(*batch)) if batch else [()]
    data = [[oracle.LayerData(s, ix, batch, np.asarray(lat.u), np.asarray(lat.v)) for s in solves] for ix in idxs]
    for d in data:
        for ld in d:
            if np.abs(ld.q).min() < 2e-2 or np.linalg.cond(ld.phi) > 1e4:
                ctx.skipped["ill-conditioned-modes"] += 1
                return None
        if compiled and not clear(d, ts):
            ctx.skipped["ill-conditioned-stack"] += 1
            return None
    r = np.random.default_rng(spec["plan"])
    ri = world.rng_of("exc", spec["inc"])
    cols = spec["cols"]
    cn = lambda *s: ri.standard_normal(s) + 1j * ri.standard_normal(s)
    a0 = cn(*batch, n2, cols)
    bN = cn(*batch, n2, cols)
    # excitations of one group may differ in strength by orders of magnitude
    strength = 10.0 ** (-spec.get("spread", 0) * ri.permutation(cols) / max(cols - 1, 1))
    a0, bN = a0 * strength, bN * strength
    refs = [oracle.solve_stack(data[n], ts, a0[ix], bN[ix]) for n, ix in enumerate(idxs)]
    # amplitudes of strongly evanescent modes are tiny: judge them through the fields
    log = []

    def compare(name, got, want, scale, where):
        """`scale` is a number or one per excitation (last axis)."""
        got = np.asarray(got)
        if got.shape != want.shape:
            raise Bad(core.violation(f"shape:{name}", f"{name} has shape {got.shape}, expected {want.shape} ({where})"))
        d = np.abs(got - want)
        e = (d / np.maximum(scale, 1e-300)).max() if np.all(np.isfinite(got)) else np.inf
        ctx.dev(name, e)
        if e > TOL:
            raise Bad(core.violation(f"wrong:{name}", f"{name} deviates by {e:.3g} from the continuity solution, {where}; assembly {log[-12:]}"))

    def size(arrays):
        """Largest magnitude per excitation."""
        return np.max([np.abs(x).reshape(-1, x.shape[-1]).max(axis=0) for x in arrays], axis=0)

    def element(x, n, trailing=2):
        return oracle.bidx(np.asarray(x), trailing, idxs[n], batch)

    def check_amps(amps, refs_, name):
        if len(amps) != num:
            raise Bad(core.violation(f"length:{name}", f"{len(amps)} layers reported for {num}"))
        for n in range(len(idxs)):
            scale = size([x for ab in refs_[n] for x in ab])
            for i in range(num):
                for j in range(2):
                    compare(name, element(amps[i][j], n), refs_[n][i][j], scale, f"layer {i} {'ab'[j]} element {idxs[n]}")
                # and continuity of the tangential fields themselves
                e, h = oracle.layer_fields(data[n][i], element(amps[i][0], n), element(amps[i][1], n), ts[i], ts[i])
                er, hr = oracle.layer_fields(data[n][i], *refs_[n][i], ts[i], ts[i])
                fs = np.maximum(size(er[:2] + hr[:2]), 1e-12 * scale)
                for x, y in zip(e[:2] + h[:2], er[:2] + hr[:2]):
                    compare(name + "-tangential", x, y, fs, f"end of layer {i} element {idxs[n]}")

    if spec.get("unb"):  # one excitation for all batch elements, passed without batch axes
        a0, bN = a0[idxs[0]], bN[idxs[0]]
        refs = [oracle.solve_stack(data[n], ts, a0, bN) for n in range(len(idxs))]
    ja, jb = jnp.asarray(a0), jnp.asarray(bN)
    smi = None
    amps_ref = None

    def amps():
        nonlocal smi, amps_ref
        if amps_ref is None:
            smi = S.stack_s_matrices_interior(solves, ts)
            amps_ref = F.stack_amplitudes_interior(smi, ja, jb)
        return amps_ref

    def check_fields(name, ef, hf, x, y, zs, cols_idx=None, layer_of=None):
        """ef/hf: (3, batch, points..., z, cols); zs: list of (layer, offset)."""
        ef, hf = np.asarray(ef), np.asarray(hf)
        x, y = np.asarray(x), np.asarray(y)
        for n, ix in enumerate(idxs):
            xn = oracle.bidx(x, 2, ix, batch) if x.ndim > 2 else x
            yn = oracle.bidx(y, 2, ix, batch) if y.ndim > 2 else y
            nb = len(batch)
            eb = ef[(slice(None),) + (ix if ef.shape[1:1 + nb] == batch else tuple(0 if s == 1 else q for s, q in zip(ef.shape[1:1 + nb], ix)))]
            hb = hf[(slice(None),) + (ix if hf.shape[1:1 + nb] == batch else tuple(0 if s == 1 else q for s, q in zip(hf.shape[1:1 + nb], ix)))]
            for zi, (li, off) in enumerate(zs):
                a, b = refs[n][li]
                if cols_idx is not None:
                    a, b = a[:, cols_idx], b[:, cols_idx]
                fe, fh = oracle.layer_fields(data[n][li], a, b, ts[li], off)
                re_, rh = oracle.at_points(data[n][li], fe, xn, yn), oracle.at_points(data[n][li], fh, xn, yn)
                fl = 1e-9 * size([q for ab in refs[n] for q in ab])
                fl = fl[cols_idx] if cols_idx is not None else fl
                sc_e, sc_h = size(re_) + fl, size(rh) + fl
                for c in range(3):
                    compare(name, eb[c][..., zi, :], re_[c], sc_e, f"E{'xyz'[c]} layer {li} z {off:.3g}")
                    compare(name, hb[c][..., zi, :], rh[c], sc_h, f"H{'xyz'[c]} layer {li} z {off:.3g}")

    for task in spec["tasks"]:
        ctx.steps += 1
        if task == "interior":
            check_amps(amps(), refs, "interior")
        elif task == "pieces":
            got = F.stack_amplitudes_interior(interior(r, S, solves, ts, log), ja, jb)
            check_amps(got, refs, "pieces")
            ctx.fault("random-assembly")
        elif task == "source":
            cut = spec["cut"] % (num - 1)
            js = [cn(*batch, exp.num_terms, cols) for _ in range(3)]
            js = [x * f for x, f in zip(js, r.choice([0.0, 1.0], size=3) if r.random() < 0.5 else (1, 1, 1))]
            if spec.get("unb"):
                js = [x[idxs[0]] for x in js]
            js = [x * strength for x in js]
            je = [[x if spec.get("unb") else x[ix] for x in js] for ix in idxs]
            before = assemble(r, S, solves[: cut + 1], ts[: cut + 1], log)
            after = assemble(r, S, solves[cut + 1:], ts[cut + 1:], log)
            res = fm.sources.amplitudes_for_source(*[jnp.asarray(x) for x in js], before, after)
            z = np.zeros((n2, cols), complex)
            sref = []
            for n, ix in enumerate(idxs):
                jump = oracle.source_jump(data[n][cut], *je[n])
                sref.append(oracle.solve_stack(data[n], ts, z, z, source=(cut, jump)))
            for n in range(len(idxs)):
                s = sref[n]
                want = (s[0][1], s[cut][0], s[cut][1], s[cut + 1][0], s[cut + 1][1], s[-1][0])
                scale = size([x for ab in s for x in ab]) + 1e-12 * strength
                for q, (g, w) in enumerate(zip(res, want)):
                    compare("source-amplitude", element(g, n), w, scale, f"output {q} cut {cut} element {idxs[n]}")
            sb = interior(r, S, solves[: cut + 1], ts[: cut + 1], log)
            sa = interior(r, S, solves[cut + 1:], ts[cut + 1:], log)
            check_amps(F.stack_amplitudes_interior_with_source(sb, sa, res[2], res[3]), sref, "source-interior")
            ctx.fault("source-split")
        elif task == "fields":
            li = spec["layer"] % num
            z = float(r.uniform(0, 1)) * ts[li]
            ca, cb = F.colocate_amplitudes(*amps()[li], z, solves[li], ts[li])
            e, h = F.fields_from_wave_amplitudes(ca, cb, solves[li])
            for n in range(len(idxs)):
                er, hr = oracle.layer_fields(data[n][li], *refs[n][li], ts[li], z)
                for g, w in zip(e + h, er + hr):
                    compare("fields", element(g, n), w, size(er + hr) + 1e-9 * size([q for ab in refs[n] for q in ab]), f"layer {li} z {z:.3g}")
        elif task == "grid":
            shape, cells = world.FAMILIES[spec["fam"]]["grid"], [(1, 1), (2, 1), (1, 2)][1 if compiled else spec["layer"] % 3]
            zn = [1, 3, 2, 5][:num] if compiled else [[1, 2, 3, 5][int(x)] for x in r.integers(0, 4, size=num)]
            ef, hf, (x, y, z) = F.stack_fields_3d(amps(), solves, ts, zn, grid_shape=shape, num_unit_cells=cells)
            offs, zs = 0.0, []
            for li in range(num):
                zl = np.linspace(0, ts[li], zn[li])
                zs += [(li, float(q)) for q in zl]
                offs += ts[li]
            want_z = np.concatenate([sum(ts[:li]) + np.linspace(0, ts[li], zn[li]) for li in range(num)])
            compare("z", z, want_z, max(want_z.max(), 1e-3), "z coordinates")
            check_grid(spec, x, y, shape, cells)
            check_fields("grid", ef, hf, x, y, zs)
            ctx.fault("z-partition")
        elif task == "coords":
            li = spec["layer"] % num
            m = spec.get("points", 3)
            cx, cy = r.uniform(-1, 1, size=(2, m))
            order = r.permutation(m)
            zn = 3
            cut = 1 if compiled else int(r.integers(1, m))
            for sel in (order[:cut], order[cut:]):
                ef, hf, (x, y, z) = F.layer_fields_3d_on_coordinates(*amps()[li], solves[li], ts[li], zn, x=jnp.asarray(cx[sel]), y=jnp.asarray(cy[sel]))
                check_fields("coords", ef, hf, cx[sel], cy[sel], [(li, float(q)) for q in np.linspace(0, ts[li], zn)])
            ef, hf, _ = F.stack_fields_3d_on_coordinates(amps(), solves, ts, [1] * num, x=jnp.asarray(cx), y=jnp.asarray(cy))
            check_fields("coords", ef, hf, cx, cy, [(q, 0.0) for q in range(num)])
            ctx.fault("coordinate-partition")
        elif task == "auto":
            if batch:
                continue
            if any(round(t / 0.11) < 1 for t in ts):
                continue
            ef, hf, (x, y, z) = F.stack_fields_3d_auto_grid(amps(), solves, ts, 0.11, (1, 1))
            zn = [int(np.round(t / 0.11)) for t in ts]
            if len(np.asarray(z)) == sum(zn):
                check_fields("auto", ef, hf, x, y, [(li, float(q)) for li in range(num) for q in np.linspace(0, ts[li], zn[li])])
        elif task == "slice":
            li = spec["layer"] % num
            f = float(r.uniform(0, 1))
            sv = solves[:li] + [solves[li]] * 2 + solves[li + 1:]
            tt = ts[:li] + [ts[li] * f, ts[li] * (1 - f)] + ts[li + 1:]
            got = F.stack_amplitudes_interior(interior(r, S, sv, tt, log), ja, jb)
            # the same waves, seen in the two slices
            merged = got[:li] + ((got[li][0], got[li + 1][1]),) + got[li + 2:]
            check_amps(merged, refs, "slice")
            ctx.fault("layer-slicing")
        elif task == "columns":
            li = spec["layer"] % num
            for c in [int(q) for q in r.permutation(cols)]:
                e1, h1, (x, y, z) = F.layer_fields_3d(amps()[li][0][..., c:c + 1], amps()[li][1][..., c:c + 1], solves[li], ts[li], 2, world.FAMILIES[spec["fam"]]["grid"], (1, 1))
                check_fields("columns", e1, h1, x, y, [(li, 0.0), (li, ts[li])], cols_idx=[c])
            ctx.fault("amplitude-partition")
    ctx.state(spec["mode"], spec["tasks"], [l["kind"] for l in spec["layers"]], log)
    return None


def check_grid(spec, x, y, shape, cells):
    f = world.FAMILIES[spec["fam"]]
    u, v = np.asarray(f["u"]), np.asarray(f["v"])
    i, j = np.meshgrid(np.arange(shape[0] * cells[0]) / shape[0], np.arange(shape[1] * cells[1]) / shape[1], indexing="ij")
    for g, c in ((x, 0), (y, 1)):
        g = np.asarray(g)
        w = i * u[c] + j * v[c]
        if g.shape[-2:] != w.shape or np.abs(g - w).max() > 1e-9:
            raise Bad(core.violation("coordinates", "grid coordinates do not match the lattice"))


def shrink(spec):
    d = spec.get("deep", [])
    if len(d) > 1:
        s = copy.deepcopy(spec); s["deep"] = d[:len(d) // 2]; yield s
        s = copy.deepcopy(spec); s["deep"] = d[len(d) // 2:]; yield s
    elif d:
        tasks = deep_contents(spec, d[0])[0]["tasks"]
        for t in tasks if len(tasks) > 1 else ():
            s = copy.deepcopy(spec); s["tasks"] = [t]; yield s
    if d:
        return
    if len(spec["tasks"]) > 1:
        for t in spec["tasks"]:
            s = copy.deepcopy(spec); s["tasks"] = [t]; yield s
    for i in range(len(spec["layers"])):
        if len(spec["layers"]) > 2:
            s = copy.deepcopy(spec); del s["layers"][i]; yield s
    for i, l in enumerate(spec["layers"]):
        if l["kind"] != "u":
            s = copy.deepcopy(spec); s["layers"][i]["kind"] = "u"; yield s
        if l["t"] not in (0.0, 0.25):
            s = copy.deepcopy(spec); s["layers"][i]["t"] = 0.25; yield s
        if l["b"] and any(q != 1 for q in l["b"]):
            s = copy.deepcopy(spec); s["layers"][i]["b"] = [1] * len(l["b"]); yield s
    if spec.get("spread"):
        s = copy.deepcopy(spec); s["spread"] = 0; yield s
    if spec.get("points", 3) > 3:
        s = copy.deepcopy(spec); s["points"] = 3; yield s
    if spec["cols"] > 1:
        s = copy.deepcopy(spec); s["cols"] -= 1; yield s


RULE = ("one run = a stack of 2-5 random layers, an excitation and/or an interior source, and 2-4 tasks of a seeded work plan "
        "(random assembly of the pieces, source splits, layer slicing, partition of z, coordinates and amplitude columns), every "
        "reported amplitude and field compared with the dense continuity solution; a quarter of the runs use the compiled functions for 30 "
        "such plans with their own contents; non-trivial when a layer is not uniform")
STATES = "distinct (batch mode, tasks, layer kinds, assembly log) tuples"
COMPONENTS = {"real": ["fmmax.fields, fmmax.sources, fmmax.scattering, fmmax.fmm on jax/CPU"], "stub": ["none; the reference is an independent dense numpy solve"]}
ASSUMPTIONS = ["modes and z-permittivity/permeability matrices are taken from the library's eigensolve",
               "layers with |q|<0.02 or mode condition above 1e4 are skipped and counted", "relative tolerance 2e-7 in double precision"]
