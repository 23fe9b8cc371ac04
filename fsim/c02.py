"""C02: gradients are correct whatever legal answer the eigensolver gives."""
import copy

import numpy as np

from fsim import core, env, gauge, ops, world
from fsim.world import FAMILIES, rng_of

PROPERTY, LEVEL, FAKE_JEIG = "C02", "exploration", True
TOL_FD, TOL_GAUGE, TOL_ALONE = 1e-5, 1e-6, 1e-7
MIN_GAP = 3e-5


def runs(tier):
    return 600 if tier == "quick" else 8000


def budget(tier):
    return 72 if tier == "quick" else 1500


# (family, batch shape, figures, media): workers take every 8th run
CLASSES = [("D", [], ("waves", "flux", "amps"), ("p", "a", "m")), ("D", [2], ("waves", "amps", "inverse"), ("p",)),
           ("D", [], ("fields", "waves", "grid"), ("p", "m", "x")), ("D", [], ("source", "waves", "grid"), ("p", "a")),
           ("B", [], ("waves", "flux", "farfield"), ("p", "m")), ("D", [2], ("flux", "waves", "farfield"), ("p", "a")),
           ("D", [2], ("source", "fields", "grid"), ("p",)), ("C", [], ("amps", "source", "flux", "inverse"), ("p", "m", "x"))]


def gen(r, i):
    fam, batch, figs, media = CLASSES[i % 8]
    num = 3 if r.random() < 0.75 else 4
    layers = []
    for j in range(num):
        outer = j in (0, num - 1)
        kind = "u" if outer else str(r.choice(media + ("p",)))
        form = "FFT"
        if kind in ("p", "a", "m") and r.random() < 0.15:
            form = str(r.choice(("JONES_DIRECT", "NORMAL", "POL", "JONES_DIRECT_FOURIER", "CUSTOM") if kind == "p" else ("JONES_DIRECT", "CUSTOM")))
        weak = float(r.choice([0.03, 0.006])) if kind in ("p", "a", "m") and r.random() < 0.3 else 0.0  # weak contrast: modes close to each other
        layers.append({"kind": kind, "form": form, "weak": weak, "seed": int(r.integers(0, 10**6)), "loss": bool(not outer and r.random() < 0.5),
                       "t": float(np.round(r.uniform(0.08, 0.6), 5)), "shared": bool(batch and r.random() < 0.3)})
        if kind == "p" and r.random() < 0.2:
            layers[-1]["interp"] = True
    if num == 4 and r.random() < 0.4:
        layers[2]["kind"], layers[2]["form"] = "u", "FFT"
        layers[2].pop("interp", None)
    wl, k = world.gen_wave(r, batch)
    x = r.random()
    if x < 0.25:  # at or near normal incidence
        k = (np.asarray(k) * (0.0 if x < 0.12 else 0.01)).tolist()
    if r.random() < 0.15:
        layers[int(r.integers(0, num))]["t"] = 0.0
    cands = ["wl", "kx", "ky"] + [f"t{j}" for j in range(num)]
    for j, l in enumerate(layers):
        cands.append(f"off{j}")
        if l["kind"] != "u":
            cands.append(f"con{j}")
            if l["kind"] == "m":
                cands.append(f"mu{j}")
            if l["form"] == "FFT":
                cands += [f"pat{j}", f"pat{j}"]
    fig = str(r.choice(figs))
    if fig == "farfield":  # the angles of a far field are a fixed grid
        cands = [c for c in cands if c not in ("wl", "kx", "ky")]
    n = int(r.integers(2, 6))
    active = sorted({str(x) for x in r.choice(cands, size=n)})
    asm = str(r.choice(["interior", "append", "prepend", "join", "scan", "relayer", "relayer"]))
    if asm == "scan" and len({l["form"] for l in layers[1:-1]} | {"FFT"}) > 1:
        asm = "append"  # scanned layers have one structure, with or without tangent fields
    # a thickness differs between batch elements only where the functions accept that
    shared = [a for a in active if batch and (r.random() < 0.25 or a[0] == "t" and (fig != "waves" or asm == "scan"))]
    spec = {"fam": fam, "batch": batch, "layers": layers, "wl": wl, "k": k, "active": active,
            "shared_params": shared, "fig": fig, "asm": asm,
            "x64solve": bool(r.random() < 0.2), "inc": int(r.integers(0, 10**6)), "cut": int(r.integers(1, num)),
            "bseed": int(r.integers(0, 2**31)), "dseed": int(r.integers(0, 2**31)),
            "backend": {"perm": bool(r.random() < 0.85), "phase": bool(r.random() < 0.85), "scale": float(r.choice([0, 0.5, 2.0]))}}
    # Rounds: the same structure with other contents, directions and answers.
    spec["rounds"] = [contents(spec, r) for _ in range(int(r.integers(0, 2)))]
    if (i // 8) % 3 == 1:
        spec["rounds"] = []
        spec["deep"] = [int(x) for x in r.integers(0, 10**9, size=40)]
    return spec


def contents(spec, r):
    """Other contents, directions and answers for the same structure."""
    wl, k = world.gen_wave(r, spec["batch"])
    if r.random() < 0.3:
        k = (np.asarray(k) * float(r.choice([0.0, 0.01, 1e-5]))).tolist()
    ls = []
    for l in spec["layers"]:
        l = dict(l, seed=int(r.integers(0, 10**6)), t=float(np.round(r.uniform(0.08, 0.6), 5)), weak=float(r.choice([0.03, 0.006, 0.002])) if r.random() < 0.3 else 0.0)
        if l["kind"] != "u":
            l["loss"] = bool(r.random() < 0.5)
        ls.append(l)
    if r.random() < 0.2:
        ls[int(r.integers(0, len(ls)))]["t"] = float(r.choice([0.0, 1e-9, 3.0]))
    return {"layers": ls, "wl": wl, "k": k, "inc": 2 * int(r.integers(0, 10**6)) + spec["inc"] % 2,
            "bseed": int(r.integers(0, 2**31)), "dseed": int(r.integers(0, 2**31)),
            "backend": {"perm": bool(r.random() < 0.85), "phase": bool(r.random() < 0.85), "scale": float(r.choice([0, 0.5, 2.0]))}}


def deep_spec(base, seed):
    return dict({k: v for k, v in base.items() if k != "deep"}, **contents(base, rng_of("deep", seed)))


def nontrivial(spec):
    return any(l["kind"] != "u" for l in spec["layers"])


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)


# ---------------------------------------------------------------------------
# The forward calculation, as a function of the parameters
# ---------------------------------------------------------------------------


def base_arrays(spec, j, l, e):
    """Constant material data of layer j for batch element e."""
    grid = FAMILIES[spec["fam"]]["grid"]
    key = (l["seed"], j, 0 if l["shared"] else e)
    r = rng_of("c02", key)
    if l["kind"] == "u":
        return {"base": np.full((1, 1), r.uniform(1.0, 4.0) + 0j)}
    k = 1j * r.uniform(0.1, 0.5) if l["loss"] else 0.0
    if l.get("interp"):
        return {"solid": np.full((1, 1), r.uniform(3.0, 6.0) + k), "void": np.full((1, 1), r.uniform(1.0, 2.5) + 0j),
                "dens": 0.5 + (l.get("weak") or 0.8) * (world.pattern(key, grid) - 0.5)}
    if l["kind"] in ("p", "x"):
        return {"base": np.full(grid, r.uniform(1.3, 2.5) + 0.1 * k), "var": (l.get("weak") or 1.0) * (r.uniform(1.0, 4.0) + k) * world.pattern(key, grid)}
    T = world.tensor(("c02",) + key, grid, (), False)
    T = np.stack(T)
    if l.get("weak"):
        m = T.mean(axis=(-2, -1), keepdims=True)
        T = m + l["weak"] * (T - m)
    out = {"T": T * (1 + 0.1 * k)}
    if l["kind"] == "m":
        M = world.tensor(("c02m",) + key, grid, (), False)
        out["M"] = np.stack([(0.6 + 0.25 * x) if c in (0, 3, 4) else 0.1 * x for c, x in enumerate(M)])
    return out


def constants(spec, elems):
    """Stacked constants; elems is None for a scalar stack."""
    out = []
    for j, l in enumerate(spec["layers"]):
        per = [base_arrays(spec, j, l, e) for e in (elems if elems is not None else [0])]
        out.append({n: (np.stack([p[n] for p in per]) if elems is not None else per[0][n]) for n in per[0]})
    return out


def params(spec, elems):
    """Initial values and a random direction of every active parameter."""
    P, D = {}, {}
    grid = FAMILIES[spec["fam"]]["grid"]
    wl, k = np.asarray(spec["wl"]), np.asarray(spec["k"])
    for a in spec["active"]:
        shared = a in spec["shared_params"]

        def value(e):
            if a == "wl":
                return wl if elems is None else wl[e]
            if a in ("kx", "ky"):
                return (k if elems is None else k[e])[..., 0 if a == "kx" else 1]
            if a[0] == "t":
                return np.asarray(spec["layers"][int(a[1:])]["t"])
            if a.startswith("pat"):
                return np.zeros(grid, complex)
            return np.asarray(0.0)

        def direction(e):
            r = rng_of("dir", spec["dseed"], a, 0 if shared else e)
            if a.startswith("pat"):
                return r.standard_normal(grid) + 1j * r.standard_normal(grid)
            return np.asarray(r.choice([-1.0, 1.0]) * r.uniform(0.5, 1.5))

        if elems is None or shared:
            P[a], D[a] = value((elems or [0])[0]), direction((elems or [0])[0])
        else:
            P[a], D[a] = np.stack([value(e) for e in elems]), np.stack([direction(e) for e in elems])
    return P, D


def waves(spec, elems):
    """Wavelength, wavevector, thicknesses and excitation."""
    wl, k = np.asarray(spec["wl"]), np.asarray(spec["k"])
    if elems is not None:
        wl, k = wl[np.asarray(elems)], k[np.asarray(elems)]
    n2 = 2 * ops.NT[spec["fam"]]
    r = rng_of("c02inc", spec["inc"])
    a = np.zeros((n2, 2), complex)
    b = np.zeros((n2, 2), complex)
    a[[0, n2 // 2], 0] = r.standard_normal(2) + 1j * r.standard_normal(2)
    a[[0, 1], 1] = r.standard_normal(2)
    b[[0, n2 // 2], 1] = r.standard_normal(2) + 1j * r.standard_normal(2)
    return {"wl": wl, "k": k, "t": [np.asarray(l["t"]) for l in spec["layers"]], "a": a, "b": b}


def outputs(fm, spec, C, P, W, elems):
    """All results entering the figure of merit; batch axes lead."""
    import jax.numpy as jnp
    wl, k = W["wl"], W["k"]
    wl = P.get("wl", jnp.asarray(wl))
    kx, ky = P.get("kx", jnp.asarray(k[..., 0])), P.get("ky", jnp.asarray(k[..., 1]))
    kx, ky = jnp.broadcast_arrays(kx, ky)
    kk = jnp.stack([kx, ky], axis=-1)
    lat, exp = spec["_lat"], spec["_exp"]

    def par(name, extra):
        """A parameter with `extra` trailing unit axes."""
        x = P.get(name)
        if x is None:
            return None
        x = jnp.asarray(x)
        return x.reshape(x.shape + (1,) * extra)

    solves = []
    for j, (l, c) in enumerate(zip(spec["layers"], C)):
        common = dict(wavelength=wl, in_plane_wavevector=kk, primitive_lattice_vectors=lat, expansion=exp,
                      formulation=world.formulation(fm, l["form"]))
        off, con, mu, pat = par(f"off{j}", 2), par(f"con{j}", 2), par(f"mu{j}", 2), P.get(f"pat{j}")
        if l["kind"] in ("u", "p", "x"):
            if "dens" in c:
                d = jnp.asarray(c["dens"]) if con is None else (1 + 0.2 * con) * c["dens"]
                eps = fm.utils.interpolate_permittivity(jnp.asarray(c["solid"]), jnp.asarray(c["void"]), d)
            else:
                eps = jnp.asarray(c["base"])
            if "var" in c:
                eps = eps + (c["var"] if con is None else (1 + con) * c["var"])
            if off is not None:
                eps = eps + off
            if pat is not None:
                eps = eps + pat
            if l["kind"] == "x":  # absorbing boundaries inside the cell
                ten = fm.pml.apply_uniaxial_pml(eps, fm.pml.PMLParams(num_x=2, num_y=1 + j % 2))
                args = {}
                for what, t in zip(("permittivity", "permeability"), ten):
                    args.update({f"{what}_{n}": x for n, x in zip(("xx", "xy", "yx", "yy", "zz"), t)})
                solves.append(fm.fmm.eigensolve_general_anisotropic_media(**args, **common))
                continue
            solves.append(fm.fmm.eigensolve_isotropic_media(permittivity=eps, **common))
            continue
        T = [jnp.asarray(c["T"][..., q, :, :]) for q in range(5)]
        if con is not None:
            T = [(1 + 0.3 * con) * x for x in T]
        for q in (0, 3, 4):
            if off is not None:
                T[q] = T[q] + off
        if pat is not None:
            T[0], T[4] = T[0] + pat, T[4] + 0.5 * pat
        names = ("xx", "xy", "yx", "yy", "zz")
        args = {f"permittivity_{n}": x for n, x in zip(names, T)}
        if l["kind"] == "m":
            Mu = [jnp.asarray(c["M"][..., q, :, :]) for q in range(5)]
            if mu is not None:
                for q in (0, 3, 4):
                    Mu[q] = Mu[q] + mu
            args.update({f"permeability_{n}": x for n, x in zip(names, Mu)})
            solves.append(fm.fmm.eigensolve_general_anisotropic_media(**args, **common))
        else:
            solves.append(fm.fmm.eigensolve_anisotropic_media(**args, **common))
    thick = [P.get(f"t{j}", W["t"][j]) for j in range(len(spec["layers"]))]
    thick = [t[..., None] if np.ndim(t) else t for t in thick]
    return observables(fm, spec, solves, thick, W)


def assemble(fm, spec, solves, thick):
    import jax
    import jax.numpy as jnp
    S = fm.scattering
    how, x64 = spec["asm"], spec["x64solve"]
    if how == "append":
        s = S.stack_s_matrix(solves[:1], thick[:1], force_x64_solve=x64)
        for a, t in zip(solves[1:], thick[1:]):
            s = S.append_layer(s, a, t, force_x64_solve=x64)
        return s
    if how == "prepend":
        s = S.stack_s_matrix(solves[-1:], thick[-1:], force_x64_solve=x64)
        for a, t in list(zip(solves, thick))[-2::-1]:
            s = S.prepend_layer(s, a, t, force_x64_solve=x64)
        return s
    if how == "join":
        c = spec["cut"]
        left = S.stack_s_matrix(solves[:c], thick[:c], force_x64_solve=x64)
        right = S.stack_s_matrix(solves[c:], thick[c:], force_x64_solve=x64)
        return S.redheffer_star_product(left, right, force_x64_solve=x64)
    if how == "relayer":  # built with other outer thicknesses, which are changed afterwards
        r = rng_of("relayer", spec["inc"])
        first, last = [t * f + c for (f, c), t in zip(r.uniform(0.2, 1.5, size=(2, 2)), (thick[0], thick[-1]))]
        s = S.stack_s_matrix(solves, [first] + list(thick[1:-1]) + [last], force_x64_solve=x64)
        for e in r.permutation(2):
            s = S.set_start_layer_thickness(s, thick[0]) if e else S.set_end_layer_thickness(s, thick[-1])
        return s
    if how == "scan":
        sh = jnp.broadcast_shapes(*[jnp.shape(t) for t in thick])
        tt = jnp.stack([jnp.broadcast_to(jnp.asarray(t), sh) for t in thick])
        stacked = jax.tree_util.tree_map(lambda *xs: jnp.stack(jnp.broadcast_arrays(*xs)), *solves)
        return S.stack_s_matrix_scan(stacked, tt, force_x64_solve=x64)
    return S.stack_s_matrix(solves, thick, force_x64_solve=x64)


def observables(fm, spec, solves, thick, W):
    import jax.numpy as jnp
    out = {}
    fig = spec["fig"]
    batch = np.broadcast_shapes(*[s.batch_shape for s in solves])
    r = rng_of("c02dir", spec["inc"])
    a, b = W["a"], W["b"]
    a = jnp.broadcast_to(jnp.asarray(a), batch + a.shape)
    b = jnp.broadcast_to(jnp.asarray(b), batch + b.shape)
    if fig == "waves":
        s = assemble(fm, spec, solves, thick)
        out["t"], out["r"] = s.s11 @ a + s.s12 @ b, s.s21 @ a + s.s22 @ b
    if fig == "inverse":  # waves of given fields, scattered
        shape = FAMILIES[spec["fam"]]["grid"] + (1,)
        f = [jnp.asarray(r.standard_normal(shape) + 1j * r.standard_normal(shape)) for _ in range(4)]
        f = [jnp.broadcast_to(x, batch + x.shape) for x in f]
        fw, bw = fm.sources.amplitudes_for_fields(*f, solves[0], None)
        s = assemble(fm, spec, solves, thick)
        out["fw"], out["t"], out["r"] = fw, s.s11 @ fw, s.s21 @ fw
    if fig in ("flux", "fields", "amps", "grid", "farfield"):
        smi = fm.scattering.stack_s_matrices_interior(solves, thick, force_x64_solve=spec["x64solve"])
        amps = fm.fields.stack_amplitudes_interior(smi, a, b)
    if fig == "flux":
        for i in range(len(solves)):
            fa, ba = fm.fields.colocate_amplitudes(amps[i][0], amps[i][1], thick[i] * 0.4, solves[i], thick[i])
            f, g = fm.fields.amplitude_poynting_flux(fa, ba, solves[i])
            out[f"net{i}"] = jnp.sum(f + g, axis=-2, keepdims=True)
            f, g = fm.fields.directional_poynting_flux(fa, ba, solves[i])
            out[f"netd{i}"] = jnp.sum(f + g, axis=-2, keepdims=True)
            if i in (0, len(solves) - 1):
                out[f"fwd{i}"], out[f"bwd{i}"] = f, g
    if fig == "amps":
        out["r"], out["t"] = amps[0][1], amps[-1][0]
        for i in range(1, len(solves) - 1):
            fa, ba = fm.fields.colocate_amplitudes(amps[i][0], amps[i][1], thick[i] * 0.6, solves[i], thick[i])
            e, h = fm.fields.fields_from_wave_amplitudes(fa, ba, solves[i])
            out[f"e{i}"], out[f"h{i}"] = jnp.concatenate(e, axis=-2), jnp.concatenate(h, axis=-2)
    if fig == "fields":
        cx, cy = jnp.asarray([0.1, 0.33, -0.2]), jnp.asarray([0.0, 0.21, 0.4])
        ef, hf, _ = fm.fields.stack_fields_3d_on_coordinates(amps, solves, thick, [2] * len(solves), x=cx, y=cy)
        ef, hf = jnp.moveaxis(jnp.asarray(ef), 0, -1), jnp.moveaxis(jnp.asarray(hf), 0, -1)
        out["ef"], out["hf"] = ef, hf
    if fig == "grid":
        ef, hf, _ = fm.fields.stack_fields_3d(amps, solves, thick, [1, 2] + [1] * (len(solves) - 2), grid_shape=FAMILIES[spec["fam"]]["grid"], num_unit_cells=(1, 2))
        out["ef"], out["hf"] = [jnp.moveaxis(jnp.asarray(x)[..., ::3, ::5, :, :], 0, -1) for x in (ef, hf)]
    if fig == "farfield":
        flux, _ = fm.fields.directional_poynting_flux(amps[-1][0], amps[-1][1], solves[-1])
        w = jnp.asarray(r.uniform(0.2, 1.0, size=(2, 2, 1, 1)))
        flux = flux[..., None, None, :, :] * w
        kb = fm.basis.brillouin_zone_in_plane_wavevector((2, 2), spec["_lat"])
        axes = (len(batch), len(batch) + 1)
        wl = jnp.full((1,) * flux.ndim, 0.6)[..., 0, 0]
        kb = jnp.broadcast_to(kb, batch + kb.shape)
        args = (flux, wl, kb, spec["_lat"], solves[-1].expansion, axes)
        out["net"] = fm.farfield.integrated_flux(*args, lambda p, a: (p < 1.0) & (a > -2.0), 1 + spec["inc"] % 2)
        prof = fm.farfield.farfield_profile(*args)[3]
        out["net2"] = jnp.where(jnp.isfinite(prof), prof, 0.0)
    if fig == "source":
        cut = spec["cut"]
        loc = jnp.asarray([[0.11, -0.07]])
        if spec["inc"] % 2:
            j = fm.sources.gaussian_source(jnp.asarray(0.2), loc, solves[0].in_plane_wavevector, solves[0].primitive_lattice_vectors, solves[0].expansion)
        else:
            j = fm.sources.dirac_delta_source(loc, solves[0].in_plane_wavevector, solves[0].primitive_lattice_vectors, solves[0].expansion)
        zero = jnp.zeros_like(j)
        jx, jy, jz = [jnp.concatenate([j if q == p else zero for q in range(3)], axis=-1) for p in range(3)]
        before = fm.scattering.stack_s_matrix(solves[:cut], thick[:cut])
        after = fm.scattering.stack_s_matrix(solves[cut:], thick[cut:])
        res = fm.sources.amplitudes_for_source(jx, jy, jz, before, after)
        out["emit0"], out["emitN"] = res[0], res[-1]
    return out


def merit(out, scales, spec):
    """Figure of merit per batch element."""
    import jax.numpy as jnp
    total = 0.0
    for k in sorted(out):
        x = out[k]
        lead = x.shape[:len(spec["batch"]) if spec["_nb"] else 0]
        x = x.reshape(lead + (-1,))
        wts = 0.5 + np.cos(np.arange(x.shape[-1]) * 0.7 + len(k)) ** 2
        y = jnp.abs(x / scales[k]) ** 2 if jnp.iscomplexobj(x) else x / scales[k]
        total = total + jnp.sum(wts * y, axis=-1) / wts.sum()
    return total


class Backend(gauge.Backend):
    """Also measures the smallest eigenvalue separation, exact degeneracies included."""

    strict_gap = np.inf

    def _one(self, m, e):
        if np.all(np.isfinite(m)):
            w = np.linalg.eigvals(np.asarray(m, complex))
            d = np.abs(w[:, None] - w[None, :])
            g = d[~np.eye(len(w), dtype=bool)]
            if g.size:
                self.strict_gap = min(self.strict_gap, g.min() / (d.max() + 1e-300))
        return super()._one(m, e)


def execute(spec, ctx):
    base = {k: v for k, v in spec.items() if k != "rounds"}
    if spec.get("deep"):
        calc = Calculation(ctx.fm, dict(base, _nb=bool(spec["batch"])), compile=True)
        for seed in spec["deep"]:
            ctx.probe("deep-round")
            out = execute_round(deep_spec(base, seed), ctx, calc)
            if out:
                out["detail"] += f" (compiled, contents {seed})"
                return out
        return None
    out = execute_round(base, ctx)
    for q in spec.get("rounds", ()):
        if out:
            break
        ctx.probe("round-with-other-contents")
        out = execute_round(dict(base, **q), ctx)
    return out


class Calculation:
    """The forward calculation and its gradient, called directly or compiled."""

    def __init__(self, fm, spec, compile=False):
        import jax
        import jax.numpy as jnp
        spec = dict(spec, _lat=world.lattice(fm, spec["fam"]), _exp=world.make_expansion(fm, spec["fam"]))
        out = lambda C, P, W, nb: outputs(fm, spec, C, P, W, [0] if nb else None)
        pe = lambda C, P, W, scales, nb: merit(out(C, P, W, nb), scales, spec)
        vg = lambda C, P, W, scales, nb: jax.value_and_grad(lambda Q: jnp.sum(pe(C, Q, W, scales, nb)))(P)
        if compile:
            out, pe, vg = jax.jit(out, static_argnums=3), jax.jit(pe, static_argnums=4), jax.jit(vg, static_argnums=4)
        self._out, self._pe, self._vg = out, pe, vg

    def outputs(self, C, P, W, elems):
        return self._out(C, P, W, elems is not None)

    def per_element(self, C, P, W, scales, elems):
        return self._pe(C, P, W, scales, elems is not None)

    def value_and_grad(self, C, P, W, scales, elems):
        return self._vg(C, P, W, scales, elems is not None)


def execute_round(spec, ctx, compiled=None):
    import jax.numpy as jnp
    fm = ctx.fm
    elems = list(range(spec["batch"][0])) if spec["batch"] else None
    spec = dict(spec, _nb=bool(elems))
    C = constants(spec, elems)
    W = waves(spec, elems)
    calc = compiled or Calculation(fm, spec)
    P, D = params(spec, elems)
    jx = lambda Q: {n: jnp.asarray(v) for n, v in Q.items()}
    ref = Backend(0, {})
    gauge.install(ref)
    try:
        out0 = {k: np.asarray(v) for k, v in calc.outputs(C, jx(P), W, elems).items()}
        if ref.strict_gap < MIN_GAP:
            ctx.skipped["nearly-degenerate-modes"] += 1
            return None
        if ref.max_cond > 1e4:
            ctx.skipped["ill-conditioned-modes"] += 1
            return None
        if not all(np.all(np.isfinite(v)) for v in out0.values()):
            return core.violation("non-finite", "non-finite results")
        fl = [np.abs(v).max() for k, v in out0.items() if k.startswith(("net", "fwd", "bwd"))]
        scales = {k: (max(fl) if k.startswith(("net", "fwd", "bwd")) else np.abs(v).max()) + 1e-12 for k, v in out0.items()}

        def per_element(Q):
            return calc.per_element(C, Q, W, scales, elems)

        val, grad = calc.value_and_grad(C, jx(P), W, scales, elems)
        val, grad = float(val), {n: np.asarray(g) for n, g in grad.items()}
        ctx.steps += ref.calls
        # --- numerical derivative (fourth order, with an error estimate)
        def shifted(h):
            return np.asarray(per_element(jx({n: P[n] + h * D[n] for n in P})))
        mag = max([np.sqrt(np.mean(np.abs(D[n]) ** 2)) for n in D if n.startswith("pat")] + [1.0])
        h = 5e-5 / mag
        d1 = (shifted(h) - shifted(-h)) / (2 * h)
        d2 = (shifted(2 * h) - shifted(-2 * h)) / (4 * h)
        fd = d1 + (d1 - d2) / 3
        fd_err = np.abs(d1 - d2).max() * 0.05
        contrib = {n: np.real(grad[n] * D[n]) for n in grad}
        size = sum(np.abs(np.sum(c)) for c in contrib.values()) + np.abs(fd).sum() + 1e-3 * abs(val)
        # the reverse rule regularises 1 / (difference of eigenvalues), by this much
        tol = max(TOL_FD, 30 * 1e-12 / ref.strict_gap**2) * size + 4 * fd_err
        ctx.probe("close-modes" if ref.strict_gap < 1e-3 else "separate-modes")
        if fd_err > 1e-3 * size:
            ctx.skipped["numerical-derivative-inaccurate"] += 1
            return None
        if not all(np.all(np.isfinite(g)) for g in grad.values()):
            bad = [n for n, g in grad.items() if not np.all(np.isfinite(g))]
            return core.violation("gradient-non-finite", f"gradient of {spec['fig']} with respect to {bad} is not finite")
        total = sum(np.sum(c) for c in contrib.values())
        e = abs(total - fd.sum())
        ctx.dev("derivative", e / size)
        if e > tol:
            worst = attribute(shifted, P, D, h, contrib, per_element, jx)
            return core.violation("gradient-wrong", f"d({spec['fig']}) along a random direction of {spec['active']}: gradient gives {total:.8g}, numerical derivative {fd.sum():.8g} (relative error {e / size:.3g}); by parameter: {worst}")
        if elems and not spec["shared_params"]:
            pe = sum(np.sum(c.reshape(len(elems), -1), axis=1) for c in contrib.values())
            e = np.abs(pe - fd).max()
            if e > tol:
                return core.violation("gradient-of-element-wrong", f"per-element derivatives {pe} differ from numerical ones {fd}")
        # --- another legal sequence of answers
        b = Backend(spec["bseed"], spec["backend"], ctx)
        gauge.install(b)
        val2, grad2 = calc.value_and_grad(C, jx(P), W, scales, elems)
        ctx.steps += b.calls
        gs = max([np.abs(g).max() for g in grad.values()] + [1e-3 * abs(val)])
        for n in grad:
            e = np.abs(np.asarray(grad2[n]) - grad[n]).max() / max(np.abs(grad[n]).max(), 1e-4 * gs)
            ctx.dev("gauge", e)
            if not e <= TOL_GAUGE:
                return core.violation("gradient-depends-on-eigensolver-answer", f"gradient of {spec['fig']} with respect to {n} changes by {e:.3g} under backend choices {spec['backend']}")
        # --- one element alone
        if elems and not (compiled and not spec["bseed"] % 4):
            el = int(spec["bseed"] % len(elems))
            gauge.install(Backend(spec["bseed"] + 1, spec["backend"]))
            Ca = constants(spec, [el])
            Pa = {n: (np.asarray(P[n])[el:el + 1] if n not in spec["shared_params"] else P[n]) for n in P}

            ga = calc.value_and_grad(Ca, jx(Pa), waves(spec, [el]), scales, [el])[1]
            for n in grad:
                if n in spec["shared_params"]:
                    continue
                x = np.asarray(ga[n])[0]
                e = np.abs(x - grad[n][el]).max() / max(np.abs(x).max(), 1e-4 * gs)
                ctx.dev("alone", e)
                if not e <= TOL_GAUGE:
                    return core.violation("gradient-of-element-differs", f"gradient of {spec['fig']} with respect to {n} of element {el} differs by {e:.3g} from that of the element alone")
            ctx.probe("element-alone-compared")
    finally:
        gauge.install(None)
    ctx.probe("figure-" + spec["fig"])
    for a in spec["active"]:
        ctx.probe("parameter-" + a.rstrip("0123456789"))
    ctx.state(spec["fam"], spec["batch"], [(l["kind"], l["form"]) for l in spec["layers"]], spec["active"], spec["fig"], spec["asm"], spec["backend"], spec["bseed"])
    return None


def attribute(shifted, P, D, h, contrib, per_element, jx):
    out = {}
    for n in P:
        sh = lambda s: np.sum(np.asarray(per_element(jx({m: (P[m] + s * D[m] if m == n else P[m]) for m in P}))))
        out[n] = (round(float(np.sum(contrib[n])), 9), round(float((sh(h) - sh(-h)) / (2 * h)), 9))
    return out


def shrink(spec):
    d = spec.get("deep")
    if d:
        if len(d) > 1:
            for part in (d[:len(d) // 2], d[len(d) // 2:]):
                s = copy.deepcopy(spec); s["deep"] = part; yield s
        else:
            yield dict(deep_spec(spec, d[0]), rounds=[])
        return
    for q in spec.get("rounds", ()):
        s = copy.deepcopy({k: v for k, v in spec.items() if k != "rounds"}); s.update(copy.deepcopy(q)); yield s
    if spec.get("rounds"):
        s = copy.deepcopy(spec); s["rounds"] = []; yield s
        return
    for a in spec["active"]:
        if len(spec["active"]) > 1:
            s = copy.deepcopy(spec); s["active"].remove(a); s["shared_params"] = [x for x in s["shared_params"] if x != a]; yield s
    if spec["batch"]:
        s = copy.deepcopy(spec); s["batch"] = []; s["wl"], s["k"] = s["wl"][0], s["k"][0]; s["shared_params"] = []; yield s
    for key, v in (("asm", "interior"), ("x64solve", False), ("fig", "waves")):
        if spec[key] != v:
            s = copy.deepcopy(spec); s[key] = v; yield s
    for key in ("perm", "phase", "scale"):
        if spec["backend"][key]:
            s = copy.deepcopy(spec); s["backend"][key] = 0; yield s
    for j, l in enumerate(spec["layers"]):
        if l["form"] != "FFT":
            s = copy.deepcopy(spec); s["layers"][j]["form"] = "FFT"; yield s


RULE = ("one run = one random stack and figure of merit, its gradient with respect to 1-5 parameters (thickness, wavelength, wavevector, "
        "permittivity offset, contrast and full pattern, permeability) under the plain backend, compared with a fourth-order numerical "
        "directional derivative, with the gradient under a seeded sequence of legal answers, and with that of a batch element alone")
STATES = "distinct (family, batch, layer kinds, parameters, figure, assembly, backend choices and seed) tuples"
COMPONENTS = {"real": ["all of fmmax and its custom reverse rule", "jax automatic differentiation, eager execution"],
              "stub": ["eigensolver backend (simulated jeig package over numpy LAPACK)"]}
ASSUMPTIONS = ["relative separation of eigenvalues above 3e-5 (tolerance 3e-11 / separation^2 below 2e-3); other stacks are skipped and counted",
               "full-pattern gradients are judged for formulations without tangent fields, whose gradient is stopped by design"]
