"""C12: calls never modify their arguments or process-wide settings."""
import copy
import os
import random
import signal
import sys
import warnings

import numpy as np

from fsim import core, env, ops, world
from fsim.world import FAMILIES

PROPERTY, LEVEL, FAKE_JEIG = "C12", "exploration", False
TOL = 1e-6
FORMS = ("writable", "writable", "readonly", "guarded", "strided", "fortran", "shared", "jax")


def runs(tier):
    return 2400 if tier == "quick" else 30000


def budget(tier):
    return 60 if tier == "quick" else 1500


# ---------------------------------------------------------------------------
# The values a client holds
# ---------------------------------------------------------------------------

_POOLS = {}


def master(fm, fam, bat, seed):
    """A pool of mutually consistent arguments, as trees with plain numpy leaves."""
    key = (fam, bat, seed)
    if key in _POOLS:
        return _POOLS[key]
    import jax
    import jax.numpy as jnp
    op = {"op": "stack", "seed": seed, "fam": fam, "want": ["waves"], "t": [0.1, 0.25, 0.3, 0.2], "cut": 2,
          "layers": [{"kind": "u"}, {"kind": "p", "form": "FFT"}, {"kind": "m", "form": "FFT"}, {"kind": "u"}]}
    n = int(np.prod(bat)) if bat else 1
    A = ops.arrays(op, list(range(n)), bat)
    J = ops.jx(A)
    objs = ops.objects(fm, op)
    S, F, B = fm.scattering, fm.fields, fm.basis
    solves = ops.solve_layers(fm, op, objs, J)
    t = [jnp.asarray(x) for x in op["t"]]
    r = world.rng_of("pool", key)
    grid = FAMILIES[fam]["grid"]
    nt = objs["exp"].num_terms
    cx = lambda *s: r.standard_normal(s) + 1j * r.standard_normal(s)
    fwd, bwd = cx(*bat, 2 * nt, 2), cx(*bat, 2 * nt, 2)
    fwd, bwd = fwd * (np.abs(fwd) > 0.8), bwd * (np.abs(bwd) > 1.0)  # contains exact zeros
    smi = S.stack_s_matrices_interior(solves, t)
    sb, sa = S.stack_s_matrices_interior(solves[:2], t[:2]), S.stack_s_matrices_interior(solves[2:], t[2:])
    amps = F.stack_amplitudes_interior(smi, jnp.asarray(fwd), jnp.asarray(bwd))
    ef, hf = F.fields_from_wave_amplitudes(amps[1][0], amps[1][1], solves[1])
    kbz = B.brillouin_zone_in_plane_wavevector((3, 2), objs["lat"])
    kt = B.transverse_wavevectors(J["k"], objs["lat"], objs["exp"])
    ktbz = B.transverse_wavevectors(kbz, objs["lat"], objs["exp"])
    V = fm.vector
    tx, ty = V.VECTOR_FIELD_SCHEMES["jones_direct_fourier" if "jones_direct_fourier" in V.VECTOR_FIELD_SCHEMES else sorted(V.VECTOR_FIELD_SCHEMES)[0]](J["eps1"], objs["exp"], objs["lat"])
    dens = r.uniform(0, 1, size=grid)
    dens[::3] = 0.0
    fld = cx(6, 5, 2)
    fld[2:4] = 0
    js = [fm.sources.dirac_delta_source(jnp.asarray([[0.1, 0.2]]), J["k"], objs["lat"], objs["exp"]) * c for c in (1.0, 0.5j, 0.0)]
    pool = dict(
        lat=objs["lat"], wl=J["wl"], k=J["k"], eps=J["eps1"], ueps=J["eps0"], solves=list(solves), t=list(t),
        et=[J[f"e{c}2"] for c in ("xx", "xy", "yx", "yy", "zz")], mt=[J[f"m{c}2"] for c in ("xx", "xy", "yx", "yy", "zz")],
        stacked=jax.tree_util.tree_map(lambda *x: jnp.stack(x), solves[0], solves[3]), tarr=jnp.asarray([0.2, 0.3]),
        smi=tuple(smi), sb=tuple(sb), sa=tuple(sa), fwd=fwd, bwd=bwd, amps=tuple(amps), ef=ef, hf=hf,
        xc=np.asarray([0.1, 0.0, -0.3]), yc=np.asarray([0.0, 0.2, 0.4]), znum=[1, 2, 1, 2],
        kbz=kbz, kt=kt, ktj=kt, ktbz=ktbz, uk=fm.farfield.unflatten_transverse_wavevectors(ktbz, objs["exp"], (0, 1)),
        flux=np.maximum(r.standard_normal((3, 2, 2 * nt, 2)), 0), bwl=np.asarray([[0.8]]), wl0=np.asarray(0.7),
        fx=[cx(*grid, 2) for _ in range(4)], j=js, tx=tx, ty=ty, dens=dens, field=fld, arr=np.real(np.asarray(J["eps1"])),
        xg=cx(*grid), yg=cx(nt, 3), m=cx(*bat, 6, 6), d=cx(*bat, 5), loc=np.asarray([[0.1, 0.2], [0.0, -0.3]]), fwhm=np.asarray(0.2),
        xyz=[np.asarray(v) for v in r.standard_normal((3, 4, 5))], ang=[np.asarray(v) for v in (0.3, -0.4, 0.2)], org=[np.asarray(v) for v in (0.1, 0.0, -0.2)],
        zm=solves[2].z_permittivity_matrix, tm=solves[2].transverse_permeability_matrix, sol=np.asarray(-3 + 0.5j), void=np.asarray(1.5 + 0j),
        flat=cx(2 * nt), target=cx(6, 6, 2), align=r.uniform(0, 1, size=(6, 6, 1)), a1=cx(6, 6) + 3 * np.eye(6), b1=cx(6, 4),
        deps=dens * 3 + 1 + 0j, axes=[-2, -1], flat5=r.standard_normal((3, 2, nt)),
    )
    pool = jax.tree_util.tree_map(np.asarray, pool)
    pool["exp"] = np.array(objs["exp"].basis_coefficients)
    _POOLS[key] = pool
    return pool


def _bounds(polar, azimuth):
    return (polar < 1.1) & (azimuth > -2.0)


# name -> (function of (fm, P)); P is the pool with dressed leaves, P["exp"] a library expansion
C = {}


def entry(f):
    C[f.__name__] = f
    return f


def _common(fm, P, form="FFT"):
    return dict(wavelength=P["wl"], in_plane_wavevector=P["k"], primitive_lattice_vectors=P["lat"], expansion=P["exp"],
                formulation=fm.fmm.Formulation[form])


C.update({
    "reciprocal": lambda fm, P: fm.basis.reciprocal(P["lat"]),
    "generate_expansion": lambda fm, P: fm.basis.generate_expansion(P["lat"], 9, fm.basis.Truncation.CIRCULAR).basis_coefficients,
    "generate_expansion_p": lambda fm, P: fm.basis.generate_expansion(P["lat"], 9, fm.basis.Truncation.PARALLELOGRAMIC).basis_coefficients,
    "unit_cell_coordinates": lambda fm, P: fm.basis.unit_cell_coordinates(P["lat"], (3, 4), (2, 1)),
    "plane_wave": lambda fm, P: fm.basis.plane_wave_in_plane_wavevector(P["wl0"], P["ang"][0], P["ang"][1], P["sol"]),
    "brillouin": lambda fm, P: fm.basis.brillouin_zone_in_plane_wavevector((2, 3), P["lat"]),
    "transverse": lambda fm, P: fm.basis.transverse_wavevectors(P["k"], P["lat"], P["exp"]),
    "min_shape": lambda fm, P: np.asarray(fm.fft.min_array_shape_for_expansion(P["exp"])),
    "fft": lambda fm, P: fm.fft.fft(P["xg"], P["exp"]),
    "fft_axes": lambda fm, P: fm.fft.fft(P["fx"][0], P["exp"], axes=(-3, -2)),
    "ifft": lambda fm, P: fm.fft.ifft(P["yg"], P["exp"], (10, 12), axis=-2),
    "convolution": lambda fm, P: fm.fft.fourier_convolution_matrix(P["eps"], P["exp"]),
    "iso": lambda fm, P: solve_out(fm.fmm.eigensolve_isotropic_media(permittivity=P["eps"], **_common(fm, P))),
    "iso_uniform": lambda fm, P: solve_out(fm.fmm.eigensolve_isotropic_media(permittivity=P["ueps"], **_common(fm, P))),
    "iso_vector": lambda fm, P: solve_out(fm.fmm.eigensolve_isotropic_media(permittivity=P["eps"], **_common(fm, P, "JONES_DIRECT"))),
    "aniso": lambda fm, P: solve_out(fm.fmm.eigensolve_anisotropic_media(*_aniso(P), **{k: v for k, v in zip(("permittivity_xx", "permittivity_xy", "permittivity_yx", "permittivity_yy", "permittivity_zz"), P["et"])})),
    "general": lambda fm, P: solve_out(_general(fm, P, "FFT")),
    "general_vector": lambda fm, P: solve_out(_general(fm, P, "JONES")),
    "matrices_iso": lambda fm, P: fm.fmm.fourier_matrices_patterned_isotropic_media(P["lat"], P["eps"], P["exp"], fm.fmm.Formulation.NORMAL)[:-1],
    "matrices_aniso": lambda fm, P: fm.fmm.fourier_matrices_patterned_anisotropic_media(P["lat"], tuple(P["et"]), tuple(P["mt"]), P["exp"], fm.fmm.Formulation.FFT, vector_field_source=P["eps"])[:-1],
    "omega_script_k": lambda fm, P: fm.fmm_matrices.omega_script_k_matrix_patterned(P["wl"], P["zm"], P["tm"], P["ktj"]),
    "script_k_uniform": lambda fm, P: fm.fmm_matrices.script_k_matrix_uniform(P["ueps"], P["kt"]),
    "script_k": lambda fm, P: fm.fmm_matrices.script_k_matrix_patterned(P["zm"], P["ktj"]),
    "k_matrix": lambda fm, P: fm.fmm_matrices.k_matrix_patterned(P["zm"], P["ktj"]),
    "tp_fft": lambda fm, P: fm.fmm_matrices.transverse_permittivity_fft(P["eps"], P["exp"]),
    "tp_vector": lambda fm, P: fm.fmm_matrices.transverse_permittivity_vector(P["eps"], P["tx"], P["ty"], P["exp"]),
    "tp_fft_a": lambda fm, P: fm.fmm_matrices.transverse_permittivity_fft_anisotropic(*P["et"][:4], P["exp"]),
    "tm_fft_a": lambda fm, P: fm.fmm_matrices.transverse_permeability_fft_anisotropic(*P["mt"][:4], P["exp"]),
    "tp_vector_a": lambda fm, P: fm.fmm_matrices.transverse_permittivity_vector_anisotropic(*P["et"][:4], P["tx"], P["ty"], P["exp"]),
    "tm_vector_a": lambda fm, P: fm.fmm_matrices.transverse_permeability_vector_anisotropic(*P["mt"][:4], P["tx"], P["ty"], P["exp"]),
    "pml": lambda fm, P: fm.pml.apply_uniaxial_pml(P["deps"], P["pml"]),
    "pml_b": lambda fm, P: fm.pml.apply_uniaxial_pml(P["eps"], P["pml"]),
    "s_matrix": lambda fm, P: fm.scattering.stack_s_matrix(P["solves"], P["t"]),
    "s_matrix64": lambda fm, P: fm.scattering.stack_s_matrix(P["solves"], P["t"], force_x64_solve=True),
    "s_interior": lambda fm, P: fm.scattering.stack_s_matrices_interior(P["solves"], P["t"], force_x64_solve=True),
    "s_scan": lambda fm, P: fm.scattering.stack_s_matrix_scan(P["stacked"], P["tarr"]),
    "star": lambda fm, P: fm.scattering.redheffer_star_product(P["smi"][1][0], P["smi"][2][1]),
    "star64": lambda fm, P: fm.scattering.redheffer_star_product(P["smi"][1][0], P["smi"][2][1], force_x64_solve=True),
    "append": lambda fm, P: fm.scattering.append_layer(P["smi"][1][0], P["solves"][2], P["t"][2]),
    "prepend": lambda fm, P: fm.scattering.prepend_layer(P["smi"][1][1], P["solves"][0], P["t"][0], force_x64_solve=True),
    "set_end": lambda fm, P: fm.scattering.set_end_layer_thickness(P["smi"][2][0], P["t"][0]),
    "set_start": lambda fm, P: fm.scattering.set_start_layer_thickness(P["smi"][1][1], P["t"][0]),
    "solve": lambda fm, P: (fm.scattering.solve(P["a1"], P["b1"], force_x64_solve=True), fm.scattering.solve(P["a1"], P["b1"], force_x64_solve=False)),
    "propagate": lambda fm, P: fm.fields.propagate_amplitude(P["fwd"], P["t"][0], P["solves"][1]),
    "colocate": lambda fm, P: fm.fields.colocate_amplitudes(P["fwd"], P["bwd"], P["t"][0], P["solves"][1], P["t"][1]),
    "amp_flux": lambda fm, P: fm.fields.amplitude_poynting_flux(P["fwd"], P["bwd"], P["solves"][2]),
    "dir_flux": lambda fm, P: fm.fields.directional_poynting_flux(P["fwd"], P["bwd"], P["solves"][1]),
    "mode_flux": lambda fm, P: fm.fields.eigenmode_poynting_flux(P["solves"][1]),
    "from_amps": lambda fm, P: fm.fields.fields_from_wave_amplitudes(P["fwd"], P["bwd"], P["solves"][2]),
    "conversion": lambda fm, P: fm.fields.field_conversion_matrix(P["solves"][1]),
    "on_grid": lambda fm, P: fm.fields.fields_on_grid(P["ef"], P["hf"], P["solves"][1], (10, 12), (1, 2)),
    "on_coords": lambda fm, P: fm.fields.fields_on_coordinates(P["ef"], P["hf"], P["solves"][1], P["xc"], P["yc"]),
    "stack_amps": lambda fm, P: fm.fields.stack_amplitudes_interior(P["smi"], P["fwd"], P["bwd"]),
    "stack_amps_src": lambda fm, P: fm.fields.stack_amplitudes_interior_with_source(P["sb"], P["sa"], P["bwd"], P["fwd"]),
    "amps_interior": lambda fm, P: fm.fields.amplitudes_interior(P["smi"][1][0], P["smi"][1][1], P["fwd"], P["bwd"]),
    "f3d_auto": lambda fm, P: fm.fields.stack_fields_3d_auto_grid(P["amps"], P["solves"], P["t"], 0.12, (1, 1)),
    "f3d": lambda fm, P: fm.fields.stack_fields_3d(P["amps"], P["solves"], P["t"], P["znum"], (10, 12), (1, 1)),
    "f3d_coords": lambda fm, P: fm.fields.stack_fields_3d_on_coordinates(P["amps"], P["solves"], P["t"], P["znum"], P["xc"], P["yc"]),
    "layer3d": lambda fm, P: fm.fields.layer_fields_3d(P["fwd"], P["bwd"], P["solves"][1], P["t"][1], 3, (10, 12), (1, 1)),
    "layer3d_coords": lambda fm, P: fm.fields.layer_fields_3d_on_coordinates(P["fwd"], P["bwd"], P["solves"][1], P["t"][1], 3, P["xc"], P["yc"]),
    "amps_for_fields": lambda fm, P: fm.sources.amplitudes_for_fields(*_fx(P), P["solves"][0], None),
    "dirac": lambda fm, P: fm.sources.dirac_delta_source(P["loc"], P["k"], P["lat"], P["exp"]),
    "gaussian": lambda fm, P: fm.sources.gaussian_source(P["fwhm"], P["loc"], P["k"], P["lat"], P["exp"]),
    "amps_for_source": lambda fm, P: fm.sources.amplitudes_for_source(*P["j"], P["sb"][-1][0], P["sa"][0][1]),
    "polarization": lambda fm, P: fm.sources.polarization_terms(*P["j"], P["solves"][0]),
    "emission": lambda fm, P: fm.sources.emission_matrix(P["sb"][-1][0], P["sa"][0][1]),
    "profile": lambda fm, P: fm.farfield.farfield_profile(P["flux"], P["bwl"], P["kbz"], P["lat"], P["exp"], (0, 1)),
    "angles": lambda fm, P: fm.farfield.angles_from_unflattened_transverse_wavevectors(P["uk"], P["wl0"]),
    "solid_angle": lambda fm, P: fm.farfield.solid_angle_from_unflattened_transverse_wavevectors(P["uk"], P["wl0"]),
    "integrated": lambda fm, P: fm.farfield.integrated_flux(P["flux"], P["bwl"], P["kbz"], P["lat"], P["exp"], (0, 1), P["bounds"], 2),
    "unflatten": lambda fm, P: fm.farfield.unflatten(P["flat5"], P["exp"]),
    "unflatten_flux": lambda fm, P: fm.farfield.unflatten_flux(P["flux"], P["exp"], (0, 1)),
    "unflatten_k": lambda fm, P: fm.farfield.unflatten_transverse_wavevectors(P["ktbz"], P["exp"], (0, 1)),
    "beam": lambda fm, P: fm.beams.shifted_rotated_fields(P["fieldfn"], *P["xyz"], *P["org"], *P["ang"]),
    "rotation": lambda fm, P: fm.beams.rotation_matrix(*P["ang"]),
    "normalize": lambda fm, P: fm.vector.normalize(P["field"]),
    "normalize_e": lambda fm, P: fm.vector.normalize_elementwise(P["field"]),
    "normalize_j": lambda fm, P: fm.vector.normalize_jones(np.real(P["field"]) if isinstance(P["field"], np.ndarray) and False else P["field"]),
    "gradient": lambda fm, P: fm.vector.compute_gradient(P["dens"], P["lat"]),
    "tangent": lambda fm, P: fm.vector.compute_tangent_field(P["arr"], P["exp"], P["lat"], True, 0.01, 0.01),
    "field_pol": lambda fm, P: fm.vector.compute_field_pol(P["arr"], P["exp"], P["lat"], 0.01, 0.01),
    "field_jones": lambda fm, P: fm.vector.compute_field_jones(P["arr"], P["exp"], P["lat"], 0.01, 0.01),
    "field_normal": lambda fm, P: fm.vector.compute_field_normal(P["arr"], P["exp"], P["lat"], 0.01, 0.01),
    "loss": lambda fm, P: fm.vector.field_loss_value_jac_and_hessian(P["flat"], P["exp"], P["lat"], P["target"], P["align"], 0.01, 0.02),
    "eig": lambda fm, P: eig_out(*fm.utils.eig(P["m"])),
    "diag": lambda fm, P: fm.utils.diag(P["d"]),
    "adjoint": lambda fm, P: fm.utils.matrix_adjoint(P["m"]),
    "frequency": lambda fm, P: fm.utils.angular_frequency_for_wavelength(P["wl"]),
    "atleast": lambda fm, P: fm.utils.atleast_nd(P["d"], 4),
    "abs_axes": lambda fm, P: np.asarray(fm.utils.absolute_axes(P["axes"], 4)),
    "interpolate": lambda fm, P: fm.utils.interpolate_permittivity(P["sol"], P["void"], P["dens"]),
    "grad_eig": lambda fm, P: ops._eig_grad(fm, P["m"]),
})


def _aniso(P):
    # wavelength, in-plane wavevector, lattice are positional in C["aniso"]
    return ()


def _general(fm, P, form):
    c = ("xx", "xy", "yx", "yy", "zz")
    kw = {"permittivity_" + x: v for x, v in zip(c, P["et"])}
    kw.update({"permeability_" + x: v for x, v in zip(c, P["mt"])})
    return fm.fmm.eigensolve_general_anisotropic_media(**kw, **_common(fm, P, form))


C["aniso"] = lambda fm, P: solve_out(fm.fmm.eigensolve_anisotropic_media(
    **{"permittivity_" + x: v for x, v in zip(("xx", "xy", "yx", "yy", "zz"), P["et"])}, **_common(fm, P)))


def _fx(P):
    return P["fx"]


def solve_out(s):
    """What of an eigensolve is independent of the labelling of modes."""
    q2 = np.asarray(s.eigenvalues) ** 2
    return [np.sum(q2, -1), np.sum(q2 ** 2, -1), s.z_permittivity_matrix, s.inverse_z_permittivity_matrix,
            s.z_permeability_matrix, s.inverse_z_permeability_matrix, s.transverse_permeability_matrix,
            s.wavelength, s.in_plane_wavevector]


def eig_out(w, v):
    w, v = np.asarray(w), np.asarray(v)
    return [np.sum(w, -1), (v * w[..., None, :]) @ np.linalg.inv(v)]


# names of the pool used by each catalogue entry, found by recording
_USES = {}


class Recorder(dict):
    def __init__(self, base):
        super().__init__(base)
        self.used = set()

    def __getitem__(self, k):
        self.used.add(k)
        return super().__getitem__(k)


# ---------------------------------------------------------------------------
# Runs
# ---------------------------------------------------------------------------


def setup(ctx):
    ctx.fm = env.load(fresh=True)
    ops.check_families(ctx.fm)
    import jax
    import jax.numpy as jnp
    import jax.experimental  # noqa: F401
    # the few lazy imports of jax and numpy happen here, not inside an observed call
    jax.jit(jax.vmap(jnp.linalg.solve))(jnp.ones((1, 2, 2)) + jnp.eye(2), jnp.ones((1, 2, 1)))
    jnp.linalg.eig(jnp.eye(2))
    jax.grad(lambda x: jnp.sum(jnp.fft.fft2(x).real))(jnp.ones((2, 2)))
    warnings.catch_warnings().__enter__()


CLASS = {}


def gen(r, i):
    names = sorted(C)
    # worker classes concentrate on parts of the catalogue, so that compilations are reused
    part = i % 8
    mine = [n for j, n in enumerate(names) if j % 8 == part]
    calls = []
    for _ in range(int(r.integers(3, 8))):
        name = str(r.choice(mine)) if r.random() < 0.9 else str(r.choice(names))
        c = {"f": name}
        if r.random() < 0.15:
            c["break"] = {"at": int(r.integers(0, 100)), "how": str(r.choice(["trim", "trim", "flatten", "none", "callback"]))}
        calls.append(c)
    spec = {"fam": "B" if i > 2000 and r.random() < 0.05 else "D", "bat": [2] if r.random() < (0.93 if (i // 8) % 60 >= 35 else 0.0) else [],
            "seed": int(r.integers(0, 3)) if i > 2000 else 0, "calls": calls, "dress": int(r.integers(0, 10**6)),
            "form": str(r.choice(FORMS + ("mixed", "mixed"))), "alias": int(r.integers(0, 4)),
            "x64": bool(r.random() < (0.97 if (i // 8) % 13 else 0.3)), "np": str(r.choice(["warn", "ignore", "call"])),
            "cfg": str(r.choice(["", "", "matmul", "promotion", "nans"]))}
    return spec


def nontrivial(spec):
    return len(spec["calls"]) > 1


class Sim:
    """The buffers of one client, and what they must still contain."""

    def __init__(self, r, form):
        self.r, self.form = r, form
        self.owned = []  # (description, buffer, expected bytes)
        self.memo = {}
        self.shared = {}

    def dress(self, a, path):
        import jax.numpy as jnp
        a = np.asarray(a)
        form = self.form if self.form != "mixed" else str(self.r.choice(FORMS))
        if form == "jax":
            x = jnp.asarray(a)
            self.owned.append((path, x, np.array(x).tobytes()))
            return x
        if form == "shared":
            key = (a.shape, a.dtype.str, a.tobytes())
            if key in self.shared:
                return self.shared[key]
            x = np.array(a)
            self.shared[key] = x
        elif form == "guarded":
            buf = np.full((a.size + 16,), 7.25, a.dtype) if a.dtype.kind in "fc" else np.full((a.size + 16,), 77, a.dtype)
            x = buf[8:8 + a.size].reshape(a.shape)
            x[...] = a
            self.owned.append((path + " (guard)", buf, buf.tobytes()))
        elif form == "strided" and a.ndim:
            buf = np.full(tuple(2 * s + 1 for s in a.shape), 7.25 if a.dtype.kind in "fc" else 77, a.dtype)
            x = buf[tuple(slice(1, None, 2) for _ in a.shape)]
            x[...] = a
            self.owned.append((path + " (base)", buf, buf.tobytes()))
        elif form == "fortran":
            x = np.array(a, order="F")
        else:
            x = np.array(a)
            if form == "readonly":
                x.flags.writeable = False
        self.owned.append((path, x, np.array(x).tobytes()))
        return x

    def changed(self):
        for path, x, b in self.owned:
            if hasattr(x, "is_deleted") and x.is_deleted():
                return f"{path} was deleted (donated)"
            if np.array(x).tobytes() != b:
                return f"{path} was modified"
        return None


def skeleton(tree, depth=0):
    """Structure and identity of containers and leaves."""
    if isinstance(tree, dict):
        return ("dict", id(tree), tuple((k, skeleton(v, depth + 1)) for k, v in tree.items()))
    if isinstance(tree, (list, tuple)):
        return (type(tree).__name__, id(tree), tuple(skeleton(v, depth + 1) for v in tree))
    if hasattr(tree, "__dataclass_fields__"):
        return (type(tree).__name__, id(tree), tuple((f, skeleton(v, depth + 1)) for f, v in sorted(vars(tree).items())))
    if isinstance(tree, np.ndarray):
        return ("leaf", id(tree), tree.shape, tree.strides, tree.dtype.str, tree.flags.writeable)
    if hasattr(tree, "shape"):
        return ("leaf", id(tree), tuple(tree.shape), str(tree.dtype))
    return ("leaf", type(tree).__name__, repr(tree) if isinstance(tree, (int, float, str)) else id(tree))


def settings():
    import jax
    out = {"jax." + k: repr(v) for k, v in jax.config.values.items() if not k.startswith(("jax_compilation_cache", "jax_persistent"))}
    for k in ("jax_enable_x64", "jax_default_matmul_precision", "jax_default_device", "jax_debug_nans", "jax_disable_jit",
              "jax_numpy_dtype_promotion", "jax_numpy_rank_promotion", "jax_default_prng_impl", "jax_transfer_guard"):
        try:
            out["eff." + k] = repr(getattr(jax.config, k))
        except AttributeError:
            pass
    out["np.err"] = repr(sorted(np.geterr().items()))
    out["np.call"] = repr(np.geterrcall())
    out["np.print"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    out["np.random"] = repr([str(x) for x in np.random.get_state()])
    out["random"] = str(hash(random.getstate()))
    out["warnings"] = repr(warnings.filters)
    out["warnings.show"] = repr((id(warnings.showwarning), id(warnings.filters)))
    out["environ"] = repr(sorted(os.environ.items()))
    out["cwd"] = os.getcwd()
    out["recursion"] = str(sys.getrecursionlimit())
    out["sigint"] = repr(signal.getsignal(signal.SIGINT))
    import logging
    import gc
    out["logging"] = repr((logging.root.level, logging.root.handlers, logging.root.manager.disable))
    out["gc"] = repr((gc.isenabled(), gc.get_threshold()))
    out["x64now"] = str(jax.numpy.asarray(np.ones(1)).dtype)
    return out


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"{k}: {str(a.get(k))[:200]} -> {str(b.get(k))[:200]}"
    return None


class Callback(Exception):
    pass


def assemble(fm, pool, leaf, fail):
    """The pool with every leaf passed through `leaf`, and library records around them."""
    import jax
    P = {}
    # The records' z-matrices have to be jax arrays: the library takes their data type in a
    # way numpy arrays do not support.
    L = fm.fmm.LayerSolveResult
    only = set()
    for rec in jax.tree_util.tree_leaves({k: v for k, v in pool.items() if k != "exp"}, is_leaf=lambda x: isinstance(x, (L, fm.scattering.ScatteringMatrix))):
        for q in ([rec] if isinstance(rec, L) else [rec.start_layer_solve_result, rec.end_layer_solve_result] if hasattr(rec, "s11") else []):
            only |= {id(q.z_permittivity_matrix), id(q.z_permeability_matrix)}
    for k in sorted(pool):
        v = pool[k]
        if k == "exp":
            continue
        if k in ("znum", "axes"):
            P[k] = [int(x) for x in v]
            continue
        flat, tree = jax.tree_util.tree_flatten_with_path(v)
        P[k] = jax.tree_util.tree_unflatten(tree, [leaf(x, k + jax.tree_util.keystr(p), "jax" if id(x) in only or k in ("zm", "ktj") else "") for p, x in flat])
    P["exp"] = fm.basis.Expansion(basis_coefficients=leaf(pool["exp"], "exp", "numpy"))
    P["pml"] = fm.pml.PMLParams(num_x=2, num_y=1)

    def bounds(polar, azimuth):
        if fail:
            raise Callback("angle bounds")
        return _bounds(polar, azimuth)

    def fieldfn(x, y, z):
        if fail:
            raise Callback("field function")
        return ops._paraxial(x, y, z)

    P["bounds"], P["fieldfn"] = bounds, fieldfn
    return P


def broken(pool, spec_break, used):
    """The pool with one leaf the call uses made invalid."""
    import jax
    how = spec_break["how"]
    if how == "callback":
        return pool
    cand = []
    for k in sorted(used):
        if k in ("exp", "znum", "axes") or k not in pool:
            continue
        flat, tree = jax.tree_util.tree_flatten(pool[k])
        cand += [(k, i) for i, x in enumerate(flat) if x.ndim]
    if not cand:
        return pool
    k, i = cand[spec_break["at"] % len(cand)]
    flat, tree = jax.tree_util.tree_flatten(pool[k])
    x = flat[i]
    if how == "trim":
        x = x[..., :-1] if x.shape[-1] > 1 else x[..., None]
    elif how == "flatten":
        x = x.reshape((-1,))
    else:
        x = np.asarray(x[..., :0])
    flat[i] = x
    pool = dict(pool)
    try:
        pool[k] = jax.tree_util.tree_unflatten(tree, flat)
    except Exception:  # noqa: BLE001  records that validate themselves
        return None
    return pool


def outcome(fn):
    import jax
    try:
        res = fn()
        return "ok", [np.array(x) for x in jax.tree_util.tree_leaves(res)]
    except Exception as e:  # noqa: BLE001
        return "raised", type(e).__name__


def execute(spec, ctx):
    import jax
    fm = ctx.fm
    bat = tuple(spec["bat"])
    pool0 = master(fm, spec["fam"], bat, spec["seed"])
    r = world.rng_of("dress", spec["dress"])
    # Aliasing of arguments with one another: same object for two arguments of one shape.
    pool0 = dict(pool0)
    pairs = [("fwd", "bwd"), ("tx", "ty"), ("xc", "yc"), ("sol", "void")]
    groups = ("j", "et", "mt", "fx", "xyz", "ang", "org", "t")
    for _ in range(spec["alias"]):
        if r.random() < 0.5:
            a, b = pairs[int(r.integers(0, len(pairs)))]
            pool0[b] = pool0[a]
        else:
            g = groups[int(r.integers(0, len(groups)))]
            lst = list(pool0[g])
            p, q = int(r.integers(0, len(lst))), int(r.integers(0, len(lst)))
            lst[q] = lst[p]
            pool0[g] = lst
        ctx.fault("same-object-for-two-arguments")
    sim = Sim(r, spec["form"])
    memo, alive = {}, []

    def leaf(x, path, kind=""):
        # equal master objects (one solve inside several records) stay one object
        if (id(x), kind) in memo:
            return memo[id(x), kind]
        keep = sim.form
        if kind == "jax":
            sim.form = "jax"
        elif kind == "numpy" and sim.form in ("jax", "mixed"):
            sim.form = "writable"
        y = sim.dress(x, path)
        sim.form = keep
        memo[id(x), kind] = y
        alive.append(x)
        return y

    old = jax.config.jax_enable_x64
    olderr = np.geterr()
    cfg = {"matmul": ("jax_default_matmul_precision", "highest"), "promotion": ("jax_numpy_rank_promotion", "allow"),
           "nans": ("jax_debug_infs", False)}.get(spec["cfg"])
    try:
        jax.config.update("jax_enable_x64", spec["x64"])
        np.seterr(over=spec["np"], under="ignore")
        if cfg:
            oldcfg = getattr(jax.config, cfg[0])
            jax.config.update(*cfg)
        P = assemble(fm, pool0, leaf, False)
        ctx.fault("argument-form-" + spec["form"])
        for c in spec["calls"]:
            ctx.steps += 1
            f = C[c["f"]]
            Q, br = P, c.get("break")
            pool = pool0
            if br:
                if c["f"] not in _USES:
                    rec = Recorder(P)
                    outcome(lambda: f(fm, rec))
                    _USES[c["f"]] = rec.used
                pool = broken(pool0, br, _USES[c["f"]])
                alive.append(pool)
                if pool is None:
                    ctx.skipped["record-rejects-broken-leaf"] += 1
                    continue
                try:
                    Q = assemble(fm, pool, leaf, br["how"] == "callback")
                except ValueError:  # records that validate themselves
                    ctx.skipped["record-rejects-broken-leaf"] += 1
                    continue
            before = settings()
            sk = skeleton(Q)
            got = outcome(lambda: f(fm, Q))
            after = settings()
            d = diff(before, after)
            if d:
                return core.violation(f"setting-changed:{c['f']}", f"{c['f']} ({got[0]}) changed {d}")
            if skeleton(Q) != sk:
                return core.violation(f"container-changed:{c['f']}", f"{c['f']} ({got[0]}) changed a record or container passed to it")
            ch = sim.changed()
            if ch:
                return core.violation(f"argument-changed:{c['f']}", f"{c['f']} ({got[0]}): {ch}; form {spec['form']}")
            # the same call on fresh, writable, unshared copies
            keepj = spec["form"] == "jax"
            fresh = assemble(fm, pool, lambda x, p, kind="": (np.array(x) if kind == "numpy" or (not keepj and kind != "jax") else jax.numpy.array(x)), bool(br) and br["how"] == "callback")
            want = outcome(lambda: f(fm, fresh))
            if spec["form"] == "mixed" and (got[0] == "raised" or want[0] == "raised"):
                # Whether numpy input is accepted at all may depend on the kind of array;
                # such calls are judged on their arguments and settings only.
                if got[0] != want[0]:
                    ctx.skipped["mixed-kinds-not-accepted"] += 1
                    continue
            if got[0] != want[0]:
                return core.violation(f"form-changes-outcome:{c['f']}", f"{c['f']}: {got if got[0] == 'raised' else 'ok'} with {spec['form']} arguments, {want if want[0] == 'raised' else 'ok'} with fresh writable copies")
            if got[0] == "raised":
                ctx.fault("failing-call-" + got[1])
                continue
            if len(got[1]) != len(want[1]):
                return core.violation(f"form-changes-result:{c['f']}", "number of results")
            for a, b in zip(got[1], want[1]):
                e = world.rel_err(a, b)
                ctx.dev("result" if spec["x64"] else "result32", e)
                if e > (TOL if spec["x64"] else 2e-2):
                    return core.violation(f"form-changes-result:{c['f']}", f"{c['f']}: result differs by {e:.3g} between {spec['form']} arguments and fresh writable copies")
            ctx.probe("completed-" + c["f"])
        ctx.state(tuple((c["f"], str(c.get("break"))) for c in spec["calls"]), spec["form"], spec["alias"], spec["x64"])
        return None
    finally:
        jax.config.update("jax_enable_x64", old)
        np.seterr(**olderr)
        if cfg:
            jax.config.update(cfg[0], oldcfg)


def shrink(spec):
    for i in range(len(spec["calls"])):
        if len(spec["calls"]) > 1:
            s = copy.deepcopy(spec); del s["calls"][i]; yield s
        if spec["calls"][i].get("break"):
            s = copy.deepcopy(spec); s["calls"][i].pop("break"); yield s
    for k, v in (("alias", 0), ("form", "writable"), ("x64", True), ("np", "warn"), ("bat", []), ("fam", "D"), ("cfg", "")):
        if spec[k] != v:
            s = copy.deepcopy(spec); s[k] = v; yield s


RULE = ("one run = a sequence of 3-7 public calls by one client whose arguments live in buffers of one form (writable, read-only, "
        "guarded, strided, Fortran, shared, jax, mixed) with random aliasing, about 15% of the calls failing; non-trivial = at least two calls")
STATES = "distinct (call sequence, failures, buffer form, aliasing, precision) tuples"
COMPONENTS = {"real": ["all of fmmax on jax/CPU"], "stub": ["argument buffers owned and watched by the simulator"]}
ASSUMPTIONS = ["modification is observed on argument bytes, container structure and identity, guard bytes around arguments, and about 250 process settings",
               "results under different buffer forms are compared to 1e-6 (2e-2 in single precision)"]
