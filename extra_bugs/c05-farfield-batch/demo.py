"""The integrated flux of a batch with one wavelength and several wavevector grids is that of its elements."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import jax
import jax.numpy as jnp
import numpy as np

jax.config.update("jax_enable_x64", True)
from fmmax import basis, farfield

lattice = basis.LatticeVectors(u=basis.X, v=basis.Y)
expansion = basis.generate_expansion(lattice, 9, basis.Truncation.CIRCULAR)
k = basis.brillouin_zone_in_plane_wavevector((2, 2), lattice)
k = jnp.stack([k, k + jnp.asarray([0.6, 0.4])], axis=0)
flux = jnp.asarray(np.random.RandomState(0).rand(2, 2, 2, 2 * expansion.num_terms, 1))


def total(flux, k):
    return farfield.integrated_flux(
        flux, jnp.full((1, 1, 1), 0.6), k, lattice, expansion, (1, 2),
        lambda polar, azimuth: polar < 0.7, 4,
    )


batch = total(flux, k)
worst = max(float(jnp.abs(batch[i] - total(flux[i : i + 1], k[i : i + 1])[0]).max()) for i in range(2))
print(worst)
sys.exit(0 if worst < 1e-8 else 1)
