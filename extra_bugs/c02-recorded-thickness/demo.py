"""A gradient through a stack whose end layer thickness was changed equals the numerical derivative."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from fmmax import basis, fields, fmm, scattering, sources

LATTICE = basis.LatticeVectors(u=basis.X, v=basis.Y)
EXPANSION = basis.generate_expansion(LATTICE, 9, basis.Truncation.CIRCULAR)
WAVELENGTH = jnp.asarray(0.63)
WAVEVECTOR = jnp.asarray([0.4, 0.25])


def pattern(hi=4.0, lo=1.5, shift=0):
    x, y = np.meshgrid(np.arange(12), np.arange(12), indexing="ij")
    inside = (np.abs(x - 5) < 3) & (np.abs(y - 4) < 2)
    return jnp.asarray(np.roll(np.where(inside, hi, lo), shift, axis=0))


def eigensolve(permittivity, formulation=fmm.Formulation.FFT, wavelength=WAVELENGTH, wavevector=WAVEVECTOR):
    return fmm.eigensolve_isotropic_media(
        wavelength, wavevector, LATTICE, jnp.asarray(permittivity), EXPANSION, formulation
    )


def uniform(value):
    return eigensolve(jnp.full((1, 1), value))


def report(deviation, tolerance):
    print("deviation", deviation)
    sys.exit(0 if deviation < tolerance else 1)


def s_diff(a, b):
    return max(float(jnp.abs(getattr(a, n) - getattr(b, n)).max()) for n in ("s11", "s12", "s21", "s22"))

layer, ambient = eigensolve(pattern()), uniform(1.0)
source = sources.dirac_delta_source(jnp.asarray([[0.3, 0.1]]), WAVEVECTOR, LATTICE, EXPANSION)


def flux(t):
    s = scattering.stack_s_matrix([ambient, layer], [jnp.asarray(0.0), t])
    s = scattering.set_end_layer_thickness(s, jnp.asarray(0.25))
    after = scattering.stack_s_matrix([layer, ambient], [jnp.asarray(0.1), jnp.asarray(0.0)])
    zero = jnp.zeros_like(source)
    out = sources.amplitudes_for_source(source, zero, zero, s, after)
    return jnp.sum(jnp.abs(out[0]) ** 2)


h = 1e-4
numerical = (flux(0.3 + h) - flux(0.3 - h)) / (2 * h)
print(jax.grad(flux)(0.3), numerical)
report(float(jnp.abs(jax.grad(flux)(0.3) - numerical)), 1e-4)
