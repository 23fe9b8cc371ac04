"""A catalogue of operations over the whole public interface, as plain data.

An operation is {"op": name, "seed": int, ...static parameters}. Its numerical data are
drawn per *element*: element e of an operation is the same whether it is computed alone,
inside a batch, or in another order. All results are independent of how the eigensolver
labels modes.

    gen(r)                        -> operation
    arrays(op, elems, shape)      -> {name: numpy array}, shape = batch shape
    objects(fm, op)               -> library records (lattice, expansion, formulation, ...)
    call(fm, op, objs, arrays)    -> flat {name: array}; batch axes lead
"""
import numpy as np

from fsim import world
from fsim.world import FAMILIES, rng_of

KINDS = ("p", "a", "m", "ua", "um", "u", "s")


# ---------------------------------------------------------------------------
# Data
# ---------------------------------------------------------------------------


def _alike(op, e, make):
    """Patterns of element e: its own, those of element 0, or something close to those of
    element 0 (far above rounding, far below what "close" usually means)."""
    how = op.get("alike")
    if not how or e == 0:
        return make(e)
    a = make(0)
    if how == "same":
        return a
    b = make(e)
    d = 3e-6 if how == "near" else 2e-4
    return {k: (1 - d) * a[k] + d * b[k] for k in a}


def _layer_arrays(op, i, layer, e):
    """Arrays describing layer i for element e."""
    grid = FAMILIES[op["fam"]]["grid"]
    seed = (op["seed"], i, e)
    kind = layer["kind"]
    r = rng_of("layer", seed)
    wild = op.get("wild") and rng_of("wild", seed).random() < 0.4
    if kind == "u":
        if wild and i not in (0, len(op.get("layers", ())) - 1):
            return {f"eps{i}": np.full((1, 1), [1.0, 2.25, -8 + 0.6j, 12.0, 1.0 + 1e-9j][int(r.integers(0, 5))] + 0j)}
        return {f"eps{i}": np.full((1, 1), r.uniform(1.0, 4.0) + (1j * r.uniform(0.01, 0.2) if layer.get("loss") else 0))}
    if kind in ("p", "s"):
        pat = world.pattern(seed, grid)
        if kind == "s":
            pat = 0.5 * (pat + pat[::-1, ::-1])
        if wild:
            lo, hi = [(1.0, 1e-7), (1.0, 11.0), (12.0, -11.0), (2.0, -11.0 + 1j), (2.25, 0.01)][int(r.integers(0, 5))]
            return {f"eps{i}": lo + 0.0j + hi * pat}
        return {f"eps{i}": r.uniform(1.3, 2.5) + 0.0j + (r.uniform(1.0, 4.0) + (1j * r.uniform(0.05, 0.3) if layer.get("loss") else 0)) * pat}
    uni = kind in ("ua", "um")
    names = ("xx", "xy", "yx", "yy", "zz")
    out = {f"e{c}{i}": x for c, x in zip(names, world.tensor(("e",) + seed, grid, (), uni))}
    if kind in ("m", "um"):
        for c, x in zip(names, world.tensor(("m",) + seed, grid, (), uni)):
            out[f"m{c}{i}"] = (0.6 + 0.25 * x) if c in ("xx", "yy", "zz") else 0.1 * x
    if layer.get("vfs") and kind == "m":
        out[f"vfs{i}"] = 1.0 + 2.0 * world.pattern(("vfs",) + seed, grid)
    return out


def _element(op, e):
    """All per-element arrays of an operation."""
    name = op["op"]
    r = rng_of("element", op["seed"], e)
    fam = FAMILIES.get(op.get("fam"))
    out = {}
    if name in ("stack", "scan", "sops", "grad"):
        out["wl"] = np.asarray(r.uniform(0.55, 1.6))
        out["k"] = r.uniform(-2, 2, size=2)
        if op.get("blat"):
            u, v = np.asarray(fam["u"]), np.asarray(fam["v"])
            out["u"] = u * r.uniform(0.9, 1.1)
            out["v"] = v * r.uniform(0.9, 1.1)
        if op.get("wild"):
            w = rng_of("wild", op["seed"], e)
            if w.random() < 0.3:
                out["wl"] = np.asarray(w.choice([0.11, 0.3, 3.0, 40.0]))
            if w.random() < 0.5:
                out["k"] = [0.0 * out["k"], 1e-6 * out["k"], 1e-2 * out["k"], 6.0 * out["k"], out["k"] * np.asarray([1.0, 0.0]), out["k"] * np.asarray([0.0, 1.0])][int(w.integers(0, 6))]
        for i, l in enumerate(op["layers"]):
            out.update(_alike(op, e, lambda q: _layer_arrays(op, i, l, q)))
    elif name == "vector":
        grid = fam["grid"]
        scale = 10.0 ** r.uniform(-2, 2) if op.get("spread") and not op.get("alike") else 1.0
        out.update(_alike(op, e, lambda q: {"arr": (1 + scale * world.pattern((op["seed"], q), grid)).astype(complex if op.get("cplx") else float)}))
        if op.get("blat"):
            out["u"] = np.asarray(fam["u"]) * r.uniform(0.8, 1.2)
            out["v"] = np.asarray(fam["v"]) * r.uniform(0.8, 1.2)
    elif name == "fourier":
        grid, n = fam["grid"], op["n"]
        out["x"] = r.standard_normal(grid) + 1j * r.standard_normal(grid)
        out["y"] = r.standard_normal((n, 3)) + 1j * r.standard_normal((n, 3))
    elif name == "matrices":
        out.update(_layer_arrays(op, 0, {"kind": op["kind"]}, e))
    elif name == "farfield":
        n = op["n"]
        out["flux"] = r.uniform(0, 1, size=tuple(op["bz"]) + (2 * n, 2))
        out["wl"] = np.full((1, 1), r.uniform(0.5, 1.5))
    elif name == "beam":
        out["x"], out["y"], out["z"] = r.standard_normal((3, 4, 5))
    elif name == "pml":
        grid = fam["grid"]
        out["eps"] = r.uniform(1.3, 2.5) + r.uniform(1.0, 4.0) * world.pattern((op["seed"], e), grid) + 0j
        out["wl"] = np.asarray(r.uniform(0.6, 1.6))
        out["k"] = r.uniform(-1, 1, size=2)
    elif name == "basis":
        out["k"] = r.uniform(-2, 2, size=2)
        out["u"] = np.asarray(fam["u"]) * r.uniform(0.8, 1.2)
        out["v"] = np.asarray(fam["v"]) * r.uniform(0.8, 1.2)
        out["wl"], out["polar"], out["azi"] = [np.asarray(x) for x in r.uniform(0.2, 1.4, size=3)]
        out["eps"] = np.asarray(r.uniform(1, 4) + 0.1j)
    elif name == "utils":
        m = r.standard_normal((6, 6)) + 1j * r.standard_normal((6, 6))
        out["m"] = m * 10.0 ** r.uniform(-3, 3)
        out["d"] = r.standard_normal((5,)) + 1j * r.standard_normal((5,))
        out["dens"] = r.uniform(0, 1, size=(4, 3))
        out["solid"] = np.full((1, 1), r.uniform(-6, 4) + 0.5j)
    elif name == "fieldamps":
        grid = fam["grid"]
        bz = op["bz"]
        s = (grid[0] * bz[0], grid[1] * bz[1], 2)
        for c in ("ex", "ey", "hx", "hy"):
            out[c] = r.standard_normal(s) + 1j * r.standard_normal(s)
        out["wl"] = np.asarray(r.uniform(0.6, 1.6))
        out["eps"] = np.full((1, 1), r.uniform(1, 3) + 0j)
    elif name == "sources":
        out["k"] = r.uniform(-2, 2, size=2)
        out["fwhm"] = np.full((1, 1), r.uniform(0.05, 0.3))
    return out


def shared_names(op):
    """Names whose data do not vary over the batch (and have no batch axes)."""
    out = set(op.get("shared", ()))
    if op["op"] == "beam":
        out |= set()
    return out


def arrays(op, elems, shape):
    """Stacks the elements `elems` into batch shape `shape`."""
    per = [_element(op, e) for e in elems]
    sh = shared_names(op)
    out = {}
    for name in per[0]:
        if name in sh or (name[:-1] + "#") in sh:
            out[name] = _element(op, op.get("shared_elem", 0))[name]
        else:
            out[name] = np.stack([p[name] for p in per]).reshape(tuple(shape) + per[0][name].shape)
    if op.get("f32"):
        out = {k: v.astype(np.complex64 if np.iscomplexobj(v) else np.float32) for k, v in out.items()}
    return out


def num_terms(fam, n=None):
    """Number of terms of the family's expansion (computed, not assumed)."""
    key = (fam, n)
    if key not in _NT:
        raise KeyError(key)
    return _NT[key]


_NT = {}


# ---------------------------------------------------------------------------
# Library records
# ---------------------------------------------------------------------------


def objects(fm, op):
    import jax.numpy as jnp
    fam = op.get("fam")
    out = {}
    if fam:
        f = FAMILIES[fam]
        dt = np.float32 if op.get("f32") else np.float64
        out["lat"] = fm.basis.LatticeVectors(u=jnp.asarray(np.asarray(f["u"], dt)), v=jnp.asarray(np.asarray(f["v"], dt)))
        out["exp"] = expansion(fm, op)
    if op["op"] == "pml":
        out["pml"] = fm.pml.PMLParams(**op["pml"])
    if op.get("form"):
        out["form"] = fm.fmm.Formulation[op["form"]]
    return out


def expansion(fm, op):
    """Expansions with the same number of terms but different content are obtained by
    exchanging the two axes ("swap") or by replacing the outermost pair ("alt")."""
    exp = world.make_expansion(fm, op["fam"], trunc=op.get("trunc"))
    how = op.get("expmod")
    if not how:
        return exp
    g = np.array(exp.basis_coefficients)
    if how == "swap":
        g = g[:, ::-1].copy()
    elif how == "rev":
        g = np.concatenate([g[:1], g[1:][::-1]])
    elif how == "alt":
        m = np.abs(g).max() + 1
        g[-1], g[-2] = (m, 0), (-m, 0)
    return fm.basis.Expansion(basis_coefficients=g)


# ---------------------------------------------------------------------------
# Calls
# ---------------------------------------------------------------------------


def _lat(fm, objs, A):
    if "u" in A:
        return fm.basis.LatticeVectors(u=A["u"], v=A["v"])
    return objs["lat"]


def _solve(fm, op, objs, A, i, layer):
    common = dict(wavelength=A["wl"], in_plane_wavevector=A["k"], primitive_lattice_vectors=_lat(fm, objs, A),
                  expansion=objs["exp"], formulation=objs["forms"][i] if "forms" in objs else world.formulation(fm, layer.get("form", "FFT")))
    if f"eps{i}" in A:
        return fm.fmm.eigensolve_isotropic_media(permittivity=A[f"eps{i}"], **common)
    eps = {f"permittivity_{c}": A[f"e{c}{i}"] for c in ("xx", "xy", "yx", "yy", "zz")}
    if f"vfs{i}" in A:
        eps["vector_field_source"] = A[f"vfs{i}"]
    if f"mxx{i}" in A:
        mu = {f"permeability_{c}": A[f"m{c}{i}"] for c in ("xx", "xy", "yx", "yy", "zz")}
        return fm.fmm.eigensolve_general_anisotropic_media(**eps, **mu, **common)
    return fm.fmm.eigensolve_anisotropic_media(**eps, **common)


def compiled_solve(fm, fam, objs, layer):
    """A compiled eigensolve of one layer, with the same array types for all media (so
    that functions of the result are compiled once)."""
    import jax
    import jax.numpy as jnp
    op = {"op": "stack", "fam": fam, "layers": [dict(layer)]}
    n = objs["exp"].num_terms

    def fn(B):
        res = _solve(fm, op, objs, B, 0, op["layers"][0])
        return jax.tree_util.tree_map(lambda x: x.astype(jnp.complex128) if x.shape[-2:] == (n, n) else x, res)

    return jax.jit(fn)


def solve_layers(fm, op, objs, A):
    return [_solve(fm, op, objs, A, i, l) for i, l in enumerate(op["layers"])]


def _excite(solves, batch, dtype):
    import jax.numpy as jnp
    n2 = 2 * solves[0].expansion.num_terms
    a = np.zeros((n2, 2), complex)
    b = np.zeros((n2, 2), complex)
    a[0, 0] = 1
    a[n2 // 2, 1] = 0.7 - 0.2j
    b[1, 1] = 0.4j
    return (jnp.broadcast_to(jnp.asarray(a, dtype=dtype), batch + a.shape),
            jnp.broadcast_to(jnp.asarray(b, dtype=dtype), batch + b.shape))


def post_stack(fm, op, solves, thick):
    """Everything after the eigensolves."""
    import jax.numpy as jnp
    out = {}
    want = op.get("want", ("waves",))
    batch = np.broadcast_shapes(*[s.batch_shape for s in solves])
    dtype = solves[0].eigenvectors.dtype
    a, b = _excite(solves, batch, dtype)
    force = bool(op.get("x64solve"))
    smi = fm.scattering.stack_s_matrices_interior(solves, thick, force_x64_solve=force)
    s = smi[-1][0]
    out["transmitted"] = s.s11 @ a + s.s12 @ b
    out["reflected"] = s.s21 @ a + s.s22 @ b
    if set(want) - {"waves"}:
        amps = fm.fields.stack_amplitudes_interior(smi, a, b)
    if "flux" in want:
        for i in range(len(solves)):
            fa, ba = fm.fields.colocate_amplitudes(amps[i][0], amps[i][1], thick[i] * 0.4, solves[i], thick[i])
            f, g = fm.fields.amplitude_poynting_flux(fa, ba, solves[i])
            out[f"net{i}"] = f + g
            f, g = fm.fields.directional_poynting_flux(fa, ba, solves[i])
            out[f"netd{i}"] = f + g
            if i in (0, len(solves) - 1):
                out[f"fwd{i}"], out[f"bwd{i}"] = f, g
    if "fields" in want:
        grid = FAMILIES[op["fam"]]["grid"]
        ef, hf, (x, y, z) = fm.fields.stack_fields_3d(amps, solves, thick, [2] * len(solves), grid_shape=grid, num_unit_cells=(1, 2))
        out["ef"], out["hf"] = jnp.moveaxis(ef[..., ::4, ::5, :, :], 0, -1), jnp.moveaxis(hf[..., ::4, ::5, :, :], 0, -1)
        out["z!"] = z
    if "coords" in want:
        cx, cy = jnp.asarray([0.1, 0.33, -0.2], dtype=out["reflected"].real.dtype), jnp.asarray([0.0, 0.21, 0.4], dtype=out["reflected"].real.dtype)
        ef, hf, (_, _, z) = fm.fields.stack_fields_3d_on_coordinates(amps, solves, thick, [1, 3] + [2] * (len(solves) - 2), x=cx, y=cy)
        out["cef"], out["chf"] = jnp.moveaxis(ef, 0, -1), jnp.moveaxis(hf, 0, -1)
    if "source" in want:
        cut = op.get("cut", 1)
        loc = jnp.asarray([[0.11, -0.07]], dtype=out["reflected"].real.dtype)
        j = fm.sources.dirac_delta_source(loc, solves[0].in_plane_wavevector, solves[0].primitive_lattice_vectors, solves[0].expansion)
        zero = jnp.zeros_like(j)
        jx, jy, jz = [jnp.concatenate([j if q == p else zero for q in range(3)], axis=-1) for p in range(3)]
        before = fm.scattering.stack_s_matrix(solves[:cut], thick[:cut])
        after = fm.scattering.stack_s_matrix(solves[cut:], thick[cut:])
        res = fm.sources.amplitudes_for_source(jx, jy, jz, before, after)
        out["emit0"], out["emitN"] = res[0], res[-1]
        sb = fm.scattering.stack_s_matrices_interior(solves[:cut], thick[:cut])
        sa = fm.scattering.stack_s_matrices_interior(solves[cut:], thick[cut:])
        samps = fm.fields.stack_amplitudes_interior_with_source(sb, sa, res[2], res[3])
        e, h = fm.fields.fields_from_wave_amplitudes(samps[cut][0], samps[cut][1], solves[cut])
        if op["layers"][cut]["kind"] == "u":
            out["se"] = jnp.stack(e, axis=-1)
    if "modes" in want:
        for i, sv in enumerate(solves):
            q2 = sv.eigenvalues ** 2
            out[f"tr{i}"] = jnp.stack([jnp.sum(q2, axis=-1), jnp.sum(q2 ** 2, axis=-1)], axis=-1)
    return out


def call_stack(fm, op, objs, A):
    return post_stack(fm, op, solve_layers(fm, op, objs, A), list(op["t"]))


def call_scan(fm, op, objs, A):
    import jax
    import jax.numpy as jnp
    solves = solve_layers(fm, op, objs, A)
    batch = np.broadcast_shapes(*[s.batch_shape for s in solves])
    solves = [jax.tree_util.tree_map(lambda x: x, s) for s in solves]
    stacked = jax.tree_util.tree_map(lambda *xs: jnp.stack(jnp.broadcast_arrays(*xs)), *solves)
    t = jnp.asarray(op["t"], dtype=stacked.eigenvalues.real.dtype)
    s = fm.scattering.stack_s_matrix_scan(stacked, t, force_x64_solve=bool(op.get("x64solve")))
    a, b = _excite(solves, batch, s.s11.dtype)
    return {"transmitted": s.s11 @ a + s.s12 @ b, "reflected": s.s21 @ a + s.s22 @ b}


def call_sops(fm, op, objs, A):
    S = fm.scattering
    solves = solve_layers(fm, op, objs, A)
    t = list(op["t"])
    batch = np.broadcast_shapes(*[s.batch_shape for s in solves])
    a, b = _excite(solves, batch, solves[0].eigenvectors.dtype)
    m = len(solves) // 2
    left = S.stack_s_matrix(solves[:m], t[:m])
    right = S.stack_s_matrix(solves[m:-1], t[m:-1])
    right = S.append_layer(right, solves[-1], t[-1] * 0.5)
    whole = S.redheffer_star_product(left, right)
    whole = S.set_end_layer_thickness(whole, t[-1])
    whole = S.set_start_layer_thickness(whole, t[0] + 0.1)
    pre = S.prepend_layer(S.stack_s_matrix(solves[1:], t[1:]), solves[0], t[0])
    return {"transmitted": whole.s11 @ a + whole.s12 @ b, "reflected": whole.s21 @ a + whole.s22 @ b,
            "ptransmitted": pre.s11 @ a + pre.s12 @ b, "preflected": pre.s21 @ a + pre.s22 @ b}


def call_grad(fm, op, objs, A):
    """Per-element gradients of a sum over elements of a per-element figure of merit."""
    import jax
    import jax.numpy as jnp
    names = sorted(n for n in A if n.startswith(("eps", "exx", "wl")))
    names = [n for n in names if n not in shared_names(op)]

    def loss(P):
        B = dict(A)
        B.update(P)
        out = call_stack(fm, op, objs, B)
        w = 1.0 + 0.3 * jnp.arange(out["reflected"].shape[-2])[:, None]
        return jnp.sum(w * jnp.abs(out["reflected"]) ** 2 + 0.5 * jnp.abs(out["transmitted"]) ** 2 * w)

    g = jax.grad(loss)({n: jnp.asarray(A[n]) for n in names})
    return {"g_" + n: x for n, x in g.items()}


def call_vector(fm, op, objs, A):
    form = objs["forms"][0] if "forms" in objs else fm.fmm.Formulation[op["scheme"]]
    fn = fm.vector.VECTOR_FIELD_SCHEMES[form.value]
    tx, ty = fn(A["arr"], objs["exp"], _lat(fm, objs, A))
    return {"tx": tx, "ty": ty}


def call_fourier(fm, op, objs, A):
    import jax.numpy as jnp
    grid = FAMILIES[op["fam"]]["grid"]
    E = objs["exp"]
    out = {"f": fm.fft.fft(A["x"], E), "i": fm.fft.ifft(A["y"], E, grid, axis=-2)}
    out["f2"] = fm.fft.fft(jnp.expand_dims(A["x"], -1) * np.arange(1, 3), E, axes=(-3, -2))
    mn = fm.fft.min_array_shape_for_expansion(E)
    out["min!"] = np.asarray(mn)
    if mn[0] <= grid[0] and mn[1] <= grid[1]:
        out["c"] = fm.fft.fourier_convolution_matrix(A["x"], E)
    return out


def call_matrices(fm, op, objs, A):
    import jax.numpy as jnp
    form = objs["form"]
    if op["kind"] == "p":
        r = fm.fmm.fourier_matrices_patterned_isotropic_media(objs["lat"], A["eps0"], objs["exp"], form)
    else:
        c = ("xx", "xy", "yx", "yy", "zz")
        r = fm.fmm.fourier_matrices_patterned_anisotropic_media(
            objs["lat"], tuple(A[f"e{x}0"] for x in c), tuple(A[f"m{x}0"] for x in c), objs["exp"], form,
            vector_field_source=(A["exx0"] + A["eyy0"]) / 2)
    out = {f"m{i}": x for i, x in enumerate(r[:-1])}
    if r[-1] is not None:
        out["tv"] = jnp.stack(r[-1], axis=-1)
    return out


def _bounds(polar, azimuth):
    return (polar < 1.1) & (azimuth > -2.0)


def call_farfield(fm, op, objs, A):
    import jax.numpy as jnp
    F = fm.farfield
    flux = A["flux"]
    nb = flux.ndim - 4
    axes = (nb, nb + 1)
    k = fm.basis.brillouin_zone_in_plane_wavevector(tuple(op["bz"]), objs["lat"])
    k = jnp.broadcast_to(k.astype(flux.dtype), flux.shape[:nb] + k.shape)
    pol, azi, sa, prof = F.farfield_profile(flux, A["wl"], k, objs["lat"], objs["exp"], axes)
    out = {"polar": pol, "azi": azi, "sa": sa, "prof": prof} if op.get("profile") else {}
    out["int"] = F.integrated_flux(flux, A["wl"], k, objs["lat"], objs["exp"], axes, _bounds, op.get("up", 1))
    out["uf"] = F.unflatten_flux(flux, objs["exp"], axes)
    t = fm.basis.transverse_wavevectors(k, objs["lat"], objs["exp"])
    ut = F.unflatten_transverse_wavevectors(t, objs["exp"], axes)
    out["ut"] = ut
    wl = A["wl"][..., 0, 0]
    wl = jnp.reshape(wl, (1,) * (ut.ndim - 3 - wl.ndim) + wl.shape)  # these require equal ranks
    out["angp"], out["anga"] = F.angles_from_unflattened_transverse_wavevectors(ut, wl)
    out["sol"] = F.solid_angle_from_unflattened_transverse_wavevectors(ut, wl)
    return out


def _paraxial(xf, yf, zf):
    import jax.numpy as jnp
    g = jnp.exp(-(xf**2 + yf**2)) * jnp.exp(1j * zf)
    return (g, 0.1 * g * xf, 0.2 * g * yf), (-0.3 * g, g, 0.1j * g)


def call_beam(fm, op, objs, A):
    import jax.numpy as jnp
    p = op["angles"]
    e, h = fm.beams.shifted_rotated_fields(_paraxial, A["x"], A["y"], A["z"], *[jnp.asarray(v) for v in op["origin"]],
                                           polar_angle=jnp.asarray(p[0]), azimuthal_angle=jnp.asarray(p[1]), polarization_angle=jnp.asarray(p[2]))
    return {"e": jnp.stack(e, axis=-1), "h": jnp.stack(h, axis=-1),
            "r!": fm.beams.rotation_matrix(jnp.asarray(p[0]), jnp.asarray(p[1]), jnp.asarray(p[2]))}


def call_pml(fm, op, objs, A):
    import jax.numpy as jnp
    eps, mu = fm.pml.apply_uniaxial_pml(A["eps"], objs["pml"])
    out = {f"e{i}": x for i, x in enumerate(eps)}
    out.update({f"mu{i}": x for i, x in enumerate(mu)})
    c = ("xx", "xy", "yx", "yy", "zz")
    common = dict(wavelength=A["wl"], in_plane_wavevector=A["k"], primitive_lattice_vectors=objs["lat"], expansion=objs["exp"], formulation=fm.fmm.Formulation.FFT)
    outer = fm.fmm.eigensolve_isotropic_media(permittivity=jnp.ones(A["eps"].shape[:-2] + (1, 1), dtype=complex), **common)
    mid = fm.fmm.eigensolve_general_anisotropic_media(**{"permittivity_" + x: v for x, v in zip(c, eps)}, **{"permeability_" + x: v for x, v in zip(c, mu)}, **common)
    o2 = dict(op); o2.update(want=("waves",), layers=[{"kind": "u"}] * 3)
    out.update(post_stack(fm, o2, [outer, mid, outer], [0.1, 0.3, 0.1]))
    return out


def call_basis(fm, op, objs, A):
    B = fm.basis
    lat = B.LatticeVectors(u=A["u"], v=A["v"])
    rec = lat.reciprocal
    x, y = B.unit_cell_coordinates(lat, (3, 4), (2, 1))
    return {"ru": rec.u, "rv": rec.v, "x": x, "y": y,
            "t": B.transverse_wavevectors(A["k"], lat, objs["exp"]),
            "pw": B.plane_wave_in_plane_wavevector(A["wl"], A["polar"], A["azi"], A["eps"]),
            "bz": B.brillouin_zone_in_plane_wavevector((3, 2), lat),
            "g!": np.asarray(objs["exp"].basis_coefficients)}


def _eig_grad(fm, m):
    """Gradient, through the eigendecomposition, of a function of the matrix itself."""
    import jax
    import jax.numpy as jnp
    scale = 1 / jax.lax.stop_gradient(jnp.max(jnp.abs(m), axis=(-2, -1), keepdims=True))
    wts = jnp.asarray(np.cos(np.arange(36)).reshape(6, 6)).astype(jnp.asarray(m).real.dtype)

    def loss(x):
        w, v = fm.utils.eig(x)
        f = (v * jnp.exp(0.5 * w * scale[..., 0])[..., None, :]) @ jnp.linalg.inv(v)
        return jnp.sum(wts * jnp.abs(f) ** 2)

    return jax.grad(loss)(jnp.asarray(m)) / scale


def call_utils(fm, op, objs, A):
    import jax.numpy as jnp
    U = fm.utils
    w, v = U.eig(A["m"])
    s = 1 / jnp.max(jnp.abs(A["m"]), axis=(-2, -1), keepdims=True)
    out = {"rec": (v * w[..., None, :]) @ jnp.linalg.inv(v) * s, "tr": jnp.sum(w, axis=-1) * s[..., 0, 0],
           "diag": U.diag(A["d"]), "adj": U.matrix_adjoint(A["m"]) * s,
           "interp": U.interpolate_permittivity(A["solid"], jnp.asarray(1.5 + 0j), A["dens"]),
           "w": U.angular_frequency_for_wavelength(A["dens"]),
           "nd": U.atleast_nd(A["d"], A["d"].ndim),
           "ge": _eig_grad(fm, A["m"]),
           "bc!": np.asarray([U.batch_compatible_shapes((2, 1), (1, 3)), U.batch_compatible_shapes((2,), (3,))])}
    return out


def call_fieldamps(fm, op, objs, A):
    import jax.numpy as jnp
    bz = tuple(op["bz"])
    rdt = A["wl"].dtype
    if bz == (1, 1):
        k = jnp.asarray([0.3, -0.4], dtype=rdt)
        axes = None
        eps, wl = A["eps"], A["wl"]
        f = {c: A[c] for c in ("ex", "ey", "hx", "hy")}
    else:
        k = fm.basis.brillouin_zone_in_plane_wavevector(bz, objs["lat"]).astype(rdt)
        nb = A["wl"].ndim
        axes = (nb, nb + 1)
        eps = A["eps"][..., None, None, :, :]
        wl = A["wl"][..., None, None]
        f = {c: A[c][..., None, None, :, :, :] for c in ("ex", "ey", "hx", "hy")}
    s = fm.fmm.eigensolve_isotropic_media(wavelength=wl, in_plane_wavevector=k, primitive_lattice_vectors=objs["lat"],
                                          permittivity=eps, expansion=objs["exp"], formulation=fm.fmm.Formulation.FFT)
    fw, bw = fm.sources.amplitudes_for_fields(f["ex"], f["ey"], f["hx"], f["hy"], s, axes)
    return {"fw": fw, "bw": bw}


def call_sources(fm, op, objs, A):
    import jax.numpy as jnp
    loc = jnp.asarray(op["loc"], dtype=A["k"].dtype)
    return {"d": fm.sources.dirac_delta_source(loc, A["k"], objs["lat"], objs["exp"]),
            "g": fm.sources.gaussian_source(A["fwhm"], loc, A["k"], objs["lat"], objs["exp"])}


CALLS = {"stack": call_stack, "scan": call_scan, "sops": call_sops, "grad": call_grad, "vector": call_vector,
         "fourier": call_fourier, "matrices": call_matrices, "farfield": call_farfield, "beam": call_beam,
         "pml": call_pml, "basis": call_basis, "utils": call_utils, "fieldamps": call_fieldamps, "sources": call_sources}


def call(fm, op, objs, A):
    return CALLS[op["op"]](fm, op, objs, A)


# ---------------------------------------------------------------------------
# Generation
# ---------------------------------------------------------------------------

NT = {"A": 9, "B": 7, "C": 5, "D": 5}  # verified against the library by `check_families`


def check_families(fm):
    for f in FAMILIES:
        n = world.make_expansion(fm, f).num_terms
        NT[f] = n


# Run number i draws from class i % 8: workers (which take every 8th run) then reuse their
# compilations, while the run still depends on nothing but its number and the seed.
CLASSES = [(("stack",), "D"), (("stack",), "B"), (("sops", "scan", "stack"), "D"), (("grad", "grad", "stack"), "D"),
           (("vector", "vector", "matrices"), "B"), (("farfield", "fourier", "basis", "sources"), "B"),
           (("pml", "utils", "beam", "fieldamps"), "D"), (("vector", "matrices", "farfield", "fieldamps", "utils"), "D")]


def gen_class(r, i, **kw):
    names, fam = CLASSES[i % 8]
    if r.random() < 0.12:
        fam = str(r.choice(["B", "C", "D"]))
    return gen(r, names=list(names), fams=(fam,), **kw)


def gen(r, names=None, light=False, fams=("B", "C", "D"), vec=0.6):
    names = names or ["stack", "stack", "stack", "scan", "sops", "grad", "vector", "vector", "fourier", "matrices",
                      "farfield", "beam", "pml", "basis", "utils", "fieldamps", "sources"]
    name = str(r.choice(names))
    op = {"op": name, "seed": int(r.integers(0, 10**6)), "fam": str(r.choice(fams))}
    if r.random() < 0.3:
        op["expmod"] = str(r.choice(["swap", "rev"]))
    fam = FAMILIES[op["fam"]]
    if name in ("stack", "sops"):
        num = 3 if light or name == "stack" and r.random() < 0.5 else 4
        kinds = [str(r.choice(KINDS)) for _ in range(num - 2)]
        op["layers"] = [{"kind": "u"}] + [{"kind": k, "loss": bool(r.random() < 0.5)} for k in kinds] + [{"kind": "u"}]
        for l in op["layers"][1:-1]:
            if l["kind"] in ("p", "s", "a", "m"):
                f = str(r.choice(world.VECTOR_FORMS + ("CUSTOM",))) if r.random() < vec else "FFT"
                if l["kind"] in ("a", "m") and f.startswith(("NORMAL", "POL")):
                    f = "JONES"
                l["form"] = f
                if l["kind"] == "m" and f != "FFT" and r.random() < 0.5:
                    l["vfs"] = True
        op["t"] = [round(float(x), 4) for x in r.uniform(0.05, 0.6, size=num)]
        if name == "stack":
            op["want"] = sorted({"waves", str(r.choice(["flux", "fields", "coords", "source", "modes", "waves"])),
                                 str(r.choice(["flux", "fields", "waves", "modes"]))})
            op["cut"] = int(r.integers(1, num))
            op["x64solve"] = bool(r.random() < 0.2)
    elif name == "scan":
        op["layers"] = [{"kind": "u"}, {"kind": "p", "form": "FFT"}, {"kind": "u"}, {"kind": "u"}]
        op["t"] = [round(float(x), 4) for x in r.uniform(0.05, 0.6, size=4)]
    elif name == "grad":
        op["layers"] = [{"kind": "u"}, {"kind": str(r.choice(["p", "p", "a"])), "form": "FFT", "loss": True}, {"kind": "u"}]
        op["t"] = [0.1, round(float(r.uniform(0.1, 0.5)), 4), 0.1]
    elif name == "vector":
        op["scheme"] = str(r.choice(world.VECTOR_FORMS))
        op["spread"] = bool(r.random() < 0.5)
        op["cplx"] = bool(r.random() < 0.5)
        op["blat"] = bool(r.random() < 0.5)
    elif name == "fourier":
        op["n"] = NT[op["fam"]]
    elif name == "matrices":
        op["kind"] = str(r.choice(["p", "m"]))
        op["form"] = str(r.choice(["FFT", "JONES", "JONES_DIRECT", "NORMAL"] if op["kind"] == "p" else ["FFT", "JONES", "JONES_DIRECT_FOURIER"]))
    elif name == "farfield":
        op["n"] = NT[op["fam"]]
        op["bz"] = [int(r.integers(1, 4)), int(r.integers(2, 4))]
        op["up"] = int(r.integers(1, 3))
        op["profile"] = True
    elif name == "beam":
        op["angles"] = [round(float(x), 4) for x in r.uniform(-1, 1, size=3)]
        op["origin"] = [round(float(x), 4) for x in r.uniform(-1, 1, size=3)]
    elif name == "pml":
        op["fam"] = str(r.choice(["C", "D"]))
        op.pop("expmod", None)
        op["pml"] = {"num_x": int(r.integers(1, 4)), "num_y": int(r.integers(0, 4)), "a_max": float(r.choice([2.0, 4.0])),
                     "p": float(r.choice([2.0, 4.0])), "sigma_max": float(r.choice([0.5, 1.0]))}
    elif name == "fieldamps":
        op["bz"] = [1, 1] if r.random() < 0.5 else [2, 3]
    elif name == "sources":
        op["loc"] = [[round(float(x), 4) for x in r.uniform(-0.5, 0.5, size=2)] for _ in range(2)]
    if name in ("stack", "scan", "sops", "grad", "vector") and r.random() < (0.5 if name == "vector" else 0.3):
        op["alike"] = "same" if r.random() < 0.5 else "close"
    return op


def compare(got, ref, tol, scale_all=True):
    """Largest relative deviation and its name; results are judged on the scale of the
    reference, entry by entry of the dictionary."""
    if set(got) != set(ref):
        return float("inf"), f"keys {sorted(got)} != {sorted(ref)}"
    worst, name = 0.0, ""
    net = [np.nanmax(np.abs(np.where(np.isfinite(v), v, 0))) if np.size(v) else 0.0 for k, v in ref.items() if k.startswith(("net", "fwd", "bwd"))]
    fscale = max(net + [1e-6])  # of waves of order one
    grads = [np.nanmax(np.abs(np.where(np.isfinite(v), v, 0))) if np.size(v) else 0.0 for k, v in ref.items() if k.startswith("g_")]
    gfloor = 1e-4 * max(grads) if grads else 0.0
    for k in ref:
        a, b = np.asarray(got[k]), np.asarray(ref[k])
        if a.shape != b.shape:
            return float("inf"), f"{k} shape {a.shape} != {b.shape}"
        sc = None
        if k.startswith(("net", "fwd", "bwd")):
            sc = fscale
        elif b.size:
            sc = max(np.abs(np.where(np.isfinite(b), b, 0)).max(), 1e-12, gfloor if k.startswith("g_") else 0.0)
        e = world.rel_err(a, b, scale=sc)
        if e > worst:
            worst, name = e, k
    return worst, name


def to_np(out):
    return {k: np.asarray(v) for k, v in out.items()}


def jx(A):
    import jax.numpy as jnp
    return {k: jnp.asarray(v) for k, v in A.items()}
