"""Observable results of a stack, through the library's public interface only."""
import numpy as np

from fsim import world


def solve_all(fm, spec):
    import jax.numpy as jnp
    lat = world.lattice(fm, spec["fam"])
    exp = world.make_expansion(fm, spec["fam"])
    wl, k = world.wave(spec, jnp)
    out, seen = [], {}
    for l in spec["layers"]:
        key = (l["kind"], l["form"], l["seed"], l["loss"], tuple(l["b"]))
        if l.get("same") and key in seen:
            out.append(seen[key])
            continue
        out.append(world.solve_layer(fm, spec, l, wl, k, lat, exp))
        seen[key] = out[-1]
    return out


def incident(spec, n2, cols=2):
    """Physical excitation in the (analytic) modes of the uniform outer layers."""
    r = world.rng_of("inc", spec.get("inc", 0))
    a = np.zeros((n2, cols), complex)
    b = np.zeros((n2, cols), complex)
    a[0, 0] = 1.0
    for c in range(1, cols):
        idx = [0, n2 // 2, 1]
        a[idx, c] = r.standard_normal(3) + 1j * r.standard_normal(3)
        b[idx, c] = r.standard_normal(3) + 1j * r.standard_normal(3)
    return a, b


def observe(fm, spec, solves, thick, want=("waves", "fields", "flux", "source", "modes"), traced=False, excitation=None):
    """Returns {name: numpy array}: only quantities that do not depend on how interior
    modes are labelled or scaled. Works for batched solves too."""
    import jax.numpy as jnp
    out = {}
    n2 = 2 * solves[0].expansion.num_terms
    nb = max(len(s.batch_shape) for s in solves)
    batch = np.broadcast_shapes(*[s.batch_shape for s in solves])
    a, b = excitation if excitation is not None else incident(spec, n2)
    cdt = jnp.complex64 if spec.get("f32") else jnp.complex128
    a = jnp.broadcast_to(jnp.asarray(a, dtype=cdt), batch + a.shape)
    b = jnp.broadcast_to(jnp.asarray(b, dtype=cdt), batch + b.shape)
    del nb
    smi = fm.scattering.stack_s_matrices_interior(solves, thick)
    amps = fm.fields.stack_amplitudes_interior(smi, a, b)
    s = smi[-1][0]
    if "waves" in want:
        out["transmitted"] = s.s11 @ a + s.s12 @ b
        out["reflected"] = s.s21 @ a + s.s22 @ b
        out["interior_first_b"] = amps[0][1]
        out["interior_last_a"] = amps[-1][0]
    if "flux" in want:
        for i in (0, len(solves) - 1):
            fa, ba = fm.fields.colocate_amplitudes(amps[i][0], amps[i][1], thick[i] / 2, solves[i], thick[i])
            f, g = fm.fields.directional_poynting_flux(fa, ba, solves[i])
            out[f"directional_fwd_{i}"] = f
            out[f"directional_bwd_{i}"] = g
            f, g = fm.fields.amplitude_poynting_flux(fa, ba, solves[i])
            out[f"amplitude_fwd_{i}"] = f
            out[f"amplitude_bwd_{i}"] = g
        for i in range(1, len(solves) - 1):
            fa, ba = fm.fields.colocate_amplitudes(amps[i][0], amps[i][1], thick[i] * 0.3, solves[i], thick[i])
            f, g = fm.fields.amplitude_poynting_flux(fa, ba, solves[i])
            out[f"net_flux_{i}"] = f + g
            f, g = fm.fields.directional_poynting_flux(fa, ba, solves[i])
            out[f"net_dir_flux_{i}"] = f + g
            if spec.get("clear_flux", {}).get(str(i)):
                out[f"dir_fwd_{i}"] = f
                out[f"dir_bwd_{i}"] = g
    if "fields" in want:
        ef, hf, xyz = fm.fields.stack_fields_3d(amps, solves, thick, [2] * len(solves), grid_shape=world.FAMILIES[spec["fam"]]["grid"], num_unit_cells=(1, 1))
        out["efield"] = ef[..., ::3, ::3, :, :]
        out["hfield"] = hf[..., ::3, ::3, :, :]
        out["z"] = xyz[2]
        # fields decomposed into waves and rebuilt, inside the first interior layer
        if len(solves) > 2 and not spec.get("no_roundtrip"):
            i = 1
            ca, cb = fm.fields.colocate_amplitudes(amps[i][0], amps[i][1], thick[i] * 0.6, solves[i], thick[i])
            e, h = fm.fields.fields_from_wave_amplitudes(ca, cb, solves[i])
            m = fm.fields.field_conversion_matrix(solves[i])
            stacked = jnp.concatenate([-e[1], e[0], h[0], h[1]], axis=-2)
            ab = jnp.linalg.solve(m, stacked)
            fa, ba = jnp.split(ab, 2, axis=-2)
            e2, h2 = fm.fields.fields_from_wave_amplitudes(fa, ba, solves[i])
            out["roundtrip_e"] = jnp.stack(e2)
            out["roundtrip_h"] = jnp.stack(h2)
    if "fields" in want and len(solves) > 2:
        # given fields inside an interior layer, expressed in waves and carried further
        grid = world.FAMILIES[spec["fam"]]["grid"]
        r = world.rng_of("given", spec.get("inc", 0))
        given = r.standard_normal((4,) + grid + (2,)) + 1j * r.standard_normal((4,) + grid + (2,))
        i = 1
        g = [jnp.broadcast_to(jnp.asarray(x, cdt), solves[i].batch_shape + x.shape) for x in given]
        ga, gb = fm.sources.amplitudes_for_fields(*g, solves[i])
        e, h = fm.fields.fields_from_wave_amplitudes(ga, gb, solves[i])
        out["given_e"] = jnp.stack(e)
        out["given_h"] = jnp.stack(h)
        sg = fm.scattering.stack_s_matrix(solves[i:], thick[i:])
        out["given_transmitted"] = sg.s11 @ ga
        c = int(spec.get("cut", 1)) % (len(solves) - 1) + 1
        sj = fm.scattering.redheffer_star_product(
            fm.scattering.stack_s_matrix(solves[:c], thick[:c]),
            fm.scattering.prepend_layer(fm.scattering.stack_s_matrix(solves[-1:], thick[-1:]), solves[c], thick[c]) if c == len(solves) - 2 else fm.scattering.stack_s_matrix(solves[c:], thick[c:]))
        out["joined_transmitted"], out["joined_reflected"] = sj.s11 @ a, sj.s22 @ b + sj.s21 @ a
        for li in range(1, len(solves) - 1):
            fe, fh, _ = fm.fields.layer_fields_3d_on_coordinates(amps[li][0], amps[li][1], solves[li], thick[li], 3, x=jnp.asarray([0.05, 0.3, -0.4]), y=jnp.asarray([0.0, 0.17, 0.23]))
            out[f"points_e_{li}"], out[f"points_h_{li}"] = jnp.stack(fe), jnp.stack(fh)
    if "source" in want and len(solves) > 2:
        cut = int(spec.get("cut", 1)) % (len(solves) - 1) + 1
        loc = jnp.asarray([[0.11, -0.07], [0.31, 0.2]], dtype=float)
        j = fm.sources.dirac_delta_source(loc, solves[0].in_plane_wavevector, solves[0].primitive_lattice_vectors, solves[0].expansion)
        zero = jnp.zeros_like(j)
        jx = jnp.concatenate([j, zero, zero], axis=-1)
        jy = jnp.concatenate([zero, j, zero], axis=-1)
        jz = jnp.concatenate([zero, zero, j], axis=-1)
        before = fm.scattering.stack_s_matrix(solves[:cut], thick[:cut])
        after = fm.scattering.stack_s_matrix(solves[cut:], thick[cut:])
        res = fm.sources.amplitudes_for_source(jx, jy, jz, before, after)
        out["emitted_back"] = res[0]
        out["emitted_fwd"] = res[-1]
        sb = fm.scattering.stack_s_matrices_interior(solves[:cut], thick[:cut])
        sa = fm.scattering.stack_s_matrices_interior(solves[cut:], thick[cut:])
        samps = fm.fields.stack_amplitudes_interior_with_source(sb, sa, res[2], res[3])
        for i in range(len(solves)):
            e, h = fm.fields.fields_from_wave_amplitudes(*fm.fields.colocate_amplitudes(samps[i][0], samps[i][1], thick[i] * 0.5, solves[i], thick[i]), solves[i])
            out[f"source_e_{i}"] = jnp.stack(e)
            out[f"source_h_{i}"] = jnp.stack(h)
    if "modes" in want and traced:
        for i, sv in enumerate(solves):
            q2 = sv.eigenvalues ** 2
            q2 = q2 / jnp.mean(jnp.abs(q2), axis=-1, keepdims=True)
            out[f"modes_{i}"] = jnp.stack([jnp.sum(q2, axis=-1), jnp.sum(q2**2, axis=-1), jnp.sum(q2**3, axis=-1)], axis=-1)
    if traced:
        return out
    if "modes" in want:
        for i, sv in enumerate(solves):
            q2 = np.asarray(sv.eigenvalues) ** 2
            order = np.lexsort((np.round(q2.imag, 6), np.round(q2.real, 6)), axis=-1)
            out[f"modes_{i}"] = np.take_along_axis(q2, order, axis=-1).real
    return {k: np.asarray(v) for k, v in out.items()}


def flux_clarity(fm, solve):
    """Smallest normalised |flux| over the modes of a layer: how clearly each mode has a
    direction of energy flow."""
    return float(np.asarray(clarity(fm, solve)).min())


def clarity(fm, solve):
    import jax.numpy as jnp
    fl = jnp.abs(fm.fields.eigenmode_poynting_flux(solve))
    phi = solve.eigenvectors
    m = fm.fields.field_conversion_matrix(solve)
    n2 = phi.shape[-1]
    e = jnp.linalg.norm(m[..., :n2, :n2], axis=-2)
    h = jnp.linalg.norm(phi, axis=-2)
    return jnp.min(fl / (e * h + 1e-300), axis=-1)
