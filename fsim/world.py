"""Simulated worlds: layer stacks described by small JSON specifications.

A specification is plain data; `build` turns it into the library's own objects, for
whichever instance (import) of the library it is given.
"""
import numpy as np

# A small number of lattice/expansion/grid families keeps the number of distinct array
# shapes (and so of compilations) per worker small.
FAMILIES = {
    "A": dict(u=(1.0, 0.0), v=(0.0, 1.0), n=9, trunc="parallelogramic", grid=(12, 12)),
    "B": dict(u=(0.9, 0.1), v=(0.25, 0.8), n=7, trunc="circular", grid=(12, 10)),
    "C": dict(u=(0.7, 0.0), v=(0.0, 1.1), n=5, trunc="circular", grid=(10, 12)),
    "D": dict(u=(0.8, 0.0), v=(0.0, 0.8), n=5, trunc="circular", grid=(10, 10)),
}
VECTOR_FORMS = ("JONES_DIRECT", "JONES", "NORMAL", "POL",
                "JONES_DIRECT_FOURIER", "JONES_FOURIER", "NORMAL_FOURIER", "POL_FOURIER")


def rng_of(*key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def pattern(seed, grid):
    """A blocky two-level pattern that varies in both directions."""
    r = rng_of("pattern", seed)
    nx, ny = grid
    p = np.zeros(grid)
    for _ in range(int(r.integers(1, 4))):
        i0, j0 = int(r.integers(0, nx)), int(r.integers(0, ny))
        wi = int(r.integers(2, max(3, nx - 2)))
        wj = int(r.integers(2, max(3, ny - 2)))
        ii = (np.arange(i0, i0 + wi)) % nx
        jj = (np.arange(j0, j0 + wj)) % ny
        p[np.ix_(ii, jj)] = 1.0
    if p.min() == p.max():
        p[: nx // 2, : ny // 3] = 1 - p[0, 0]
    return p


def permittivity(seed, grid, loss, batch=()):
    """Isotropic patterned permittivity, shape batch + grid; elements differ."""
    num = int(np.prod(batch)) if batch else 1
    out = []
    for b in range(num):
        r = rng_of("eps", seed, b)
        lo, hi = r.uniform(1.3, 2.6), r.uniform(2.8, 7.0)
        k = (r.uniform(0.05, 0.4) if loss else 0.0)
        out.append(lo + (hi - lo + 1j * k) * pattern((seed, b), grid) + (0.02j if loss else 0))
    return np.asarray(out).reshape(tuple(batch) + tuple(grid)).astype(complex)


def tensor(seed, grid, batch, uniform):
    """xx, xy, yx, yy, zz with a mild symmetric anisotropy."""
    shape = (1, 1) if uniform else tuple(grid)
    num = int(np.prod(batch)) if batch else 1
    comps = [[] for _ in range(5)]
    for b in range(num):
        r = rng_of("tensor", seed, b, uniform)
        base = r.uniform(1.6, 3.0)
        p = np.ones(shape) if uniform else pattern((seed, b, "t"), grid)
        d = r.uniform(0.3, 2.0)
        xx = base + d * p
        yy = base + r.uniform(0.3, 2.0) * p
        zz = base + r.uniform(0.3, 2.0) * p
        xy = r.uniform(-0.2, 0.2) * p
        for c, a in zip(comps, (xx, xy, xy, yy, zz)):
            c.append(a)
    return [np.asarray(c).reshape(tuple(batch) + shape).astype(complex) for c in comps]


def make_expansion(fm, fam, n=None, trunc=None):
    f = FAMILIES[fam]
    return fm.basis.generate_expansion(
        primitive_lattice_vectors=lattice(fm, fam),
        approximate_num_terms=n or f["n"],
        truncation=fm.basis.Truncation(trunc or f["trunc"]),
    )


def lattice(fm, fam):
    import jax.numpy as jnp
    f = FAMILIES[fam]
    return fm.basis.LatticeVectors(u=jnp.asarray(f["u"], dtype=float),
                                   v=jnp.asarray(f["v"], dtype=float))


def custom_field(arr, expansion, primitive_lattice_vectors):
    """A tangent field given by the user as a function."""
    import jax.numpy as jnp
    a = jnp.real(arr)
    angle = 0.7 * a + 0.3 * jnp.roll(a, 1, axis=-1) - 0.2 * jnp.roll(a, 2, axis=-2)
    return jnp.cos(angle), jnp.sin(angle)


def formulation(fm, name):
    """A formulation by its name; "CUSTOM" is a tangent field given as a function."""
    if name == "CUSTOM":
        return custom_field
    return fm.fmm.Formulation[name]


def solve_layer(fm, spec, layer, wl, k, lat, exp, eps_override=None):
    """Runs the eigensolve of one layer. `layer["b"]` is its own batch shape."""
    import jax.numpy as jnp
    grid = FAMILIES[spec["fam"]]["grid"]
    batch = tuple(layer.get("b", ()))
    kind = layer["kind"]
    common = dict(wavelength=wl, in_plane_wavevector=k, primitive_lattice_vectors=lat,
                  expansion=exp, formulation=formulation(fm, layer.get("form", "FFT")))
    cdt = jnp.complex64 if spec.get("f32") else jnp.complex128
    cast = lambda x: jnp.asarray(x, dtype=cdt)
    if kind == "u":
        num = int(np.prod(batch)) if batch else 1
        vals = []
        for b in range(num):
            r = rng_of("ueps", layer["seed"], b)
            vals.append(r.uniform(1.0, 4.0) + 1j * (r.uniform(0.01, 0.2) if layer.get("loss") else 0.0))
        eps = np.asarray(vals).reshape(batch + (1, 1))
        if eps_override is not None:
            eps = eps_override(eps)
        return fm.fmm.eigensolve_isotropic_media(permittivity=cast(eps), **common)
    if kind in ("p", "c", "s"):
        if kind == "p":
            eps = permittivity(layer["seed"], grid, layer.get("loss", False), batch)
        elif kind == "c":  # a uniform medium given on a grid: exactly degenerate modes
            num = int(np.prod(batch)) if batch else 1
            eps = np.asarray([rng_of("ceps", layer["seed"], b).uniform(1.5, 4.0) * np.ones(grid) for b in range(num)])
            eps = eps.reshape(batch + tuple(grid)).astype(complex)
        else:  # a centred, mirror-symmetric pattern: degenerate at normal incidence
            x = np.cos(2 * np.pi * np.arange(grid[0]) / grid[0])[:, None]
            y = np.cos(2 * np.pi * np.arange(grid[1]) / grid[1])[None, :]
            num = int(np.prod(batch)) if batch else 1
            eps = np.asarray([2 + rng_of("seps", layer["seed"], b).uniform(1.0, 4.0) * ((x + y) > 0.3) for b in range(num)])
            eps = eps.reshape(batch + tuple(grid)).astype(complex)
        if eps_override is not None:
            eps = eps_override(eps)
        return fm.fmm.eigensolve_isotropic_media(permittivity=cast(eps), **common)
    if kind in ("a", "ua"):
        xx, xy, yx, yy, zz = [cast(x) for x in tensor(layer["seed"], grid, batch, kind == "ua")]
        return fm.fmm.eigensolve_anisotropic_media(
            permittivity_xx=xx, permittivity_xy=xy, permittivity_yx=yx,
            permittivity_yy=yy, permittivity_zz=zz, **common)
    if kind in ("m", "um"):
        uni = kind == "um"
        e = [cast(x) for x in tensor(layer["seed"], grid, batch, uni)]
        m = [cast(1 + 0.2 * (x - np.mean(x)) + (0.3 if i in (0, 3, 4) else -1.0)) if i in (0, 3, 4) else cast(0.1 * x)
             for i, x in enumerate(tensor(layer["seed"] + 7777, grid, batch, uni))]
        return fm.fmm.eigensolve_general_anisotropic_media(
            permittivity_xx=e[0], permittivity_xy=e[1], permittivity_yx=e[2],
            permittivity_yy=e[3], permittivity_zz=e[4],
            permeability_xx=m[0], permeability_xy=m[1], permeability_yx=m[2],
            permeability_yy=m[3], permeability_zz=m[4], **common)
    raise ValueError(kind)


def wave(spec, jnp):
    """Wavelength and in-plane wavevector arrays of a specification."""
    f = jnp.float32 if spec.get("f32") else jnp.float64
    return jnp.asarray(spec["wl"], dtype=f), jnp.asarray(spec["k"], dtype=f)


def gen_wave(r, batch):
    """Random wavelength/wavevector for a (possibly empty) batch shape."""
    if batch:
        wl = np.round(r.uniform(0.55, 1.6, size=batch), 6)
        k = np.round(r.uniform(-2.0, 2.0, size=tuple(batch) + (2,)), 6)
    else:
        wl = np.round(r.uniform(0.55, 1.6), 6)
        k = np.round(r.uniform(-2.0, 2.0, size=(2,)), 6)
    return np.asarray(wl).tolist(), np.asarray(k).tolist()


def gen_layers(r, num, batch, kinds, forms=("FFT",), outer="u", tmax=0.7, batched_prob=0.7):
    layers = []
    for i in range(num):
        is_outer = i in (0, num - 1)
        kind = outer if (is_outer and outer) else str(r.choice(kinds))
        b = tuple(batch) if (batch and r.random() < batched_prob) else (1,) * len(batch)
        form = "FFT"
        if kind in ("p", "a", "m", "s"):
            form = str(r.choice(forms))
            if kind not in ("p", "s") and form.startswith(("NORMAL", "POL")):
                # A real tangent field vanishes somewhere, where the tensor formulation
                # has no inverse rotation: such media need the other formulations.
                form = "JONES" if form.startswith("NORMAL") else "JONES_DIRECT"
        layers.append({"kind": kind, "form": form, "seed": int(r.integers(0, 10**6)),
                       "loss": bool(r.random() < 0.4) and not is_outer, "b": list(b),
                       "t": float(np.round(r.uniform(0.0, tmax), 6))})
    return layers


def to_np(tree):
    """A nested structure of numpy arrays (any registered container is flattened)."""
    import jax
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(tree)]


# ---------------------------------------------------------------------------
# Comparison
# ---------------------------------------------------------------------------


def rel_err(a, b, scale=None):
    """Largest deviation relative to the largest reference magnitude."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return float("inf")
    if not fb.any():
        return 0.0
    d = np.abs(np.where(fa, a, 0) - np.where(fb, b, 0)).max()
    s = np.abs(np.where(fb, b, 0)).max() if scale is None else scale
    return float(d / (s + 1e-30)) if d > 0 else 0.0
