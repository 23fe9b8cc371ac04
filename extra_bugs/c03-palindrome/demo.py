"""The interior scattering matrix of the substack behind the first layer is that of the whole stack."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from fmmax import basis, fields, fmm, scattering, sources

LATTICE = basis.LatticeVectors(u=basis.X, v=basis.Y)
EXPANSION = basis.generate_expansion(LATTICE, 9, basis.Truncation.CIRCULAR)
WAVELENGTH = jnp.asarray(0.63)
WAVEVECTOR = jnp.asarray([0.4, 0.25])


def pattern(hi=4.0, lo=1.5, shift=0):
    x, y = np.meshgrid(np.arange(12), np.arange(12), indexing="ij")
    inside = (np.abs(x - 5) < 3) & (np.abs(y - 4) < 2)
    return jnp.asarray(np.roll(np.where(inside, hi, lo), shift, axis=0))


def eigensolve(permittivity, formulation=fmm.Formulation.FFT, wavelength=WAVELENGTH, wavevector=WAVEVECTOR):
    return fmm.eigensolve_isotropic_media(
        wavelength, wavevector, LATTICE, jnp.asarray(permittivity), EXPANSION, formulation
    )


def uniform(value):
    return eigensolve(jnp.full((1, 1), value))


def report(deviation, tolerance):
    print("deviation", deviation)
    sys.exit(0 if deviation < tolerance else 1)


def s_diff(a, b):
    return max(float(jnp.abs(getattr(a, n) - getattr(b, n)).max()) for n in ("s11", "s12", "s21", "s22"))

ambient, middle = uniform(1.0), eigensolve(pattern())
solves = [ambient, middle, uniform(3.0), middle, ambient]
t = [jnp.asarray(v) for v in (0.0, 0.2, 0.3, 0.1, 0.0)]
report(
    max(
        s_diff(scattering.stack_s_matrix(solves[i:], t[i:]), after)
        for i, (_, after) in enumerate(scattering.stack_s_matrices_interior(solves, t))
    ),
    1e-8,
)
