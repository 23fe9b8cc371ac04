"""Emission does not depend on the phase of the modes the eigensolver returns for the layer behind the source."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import types

import jax
import jax.numpy as jnp

PHASE = [False]


def fake_eig(matrix):
    values, vectors = jnp.linalg.eig(matrix)
    if PHASE[0]:
        vectors = vectors * jnp.exp(1j * jnp.arange(vectors.shape[-1]))
    return values, vectors


sys.modules["jeig"] = types.ModuleType("jeig")
sys.modules["jeig"].eig = fake_eig

import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from fmmax import basis, fields, fmm, scattering, sources

LATTICE = basis.LatticeVectors(u=basis.X, v=basis.Y)
EXPANSION = basis.generate_expansion(LATTICE, 9, basis.Truncation.CIRCULAR)
WAVELENGTH = jnp.asarray(0.63)
WAVEVECTOR = jnp.asarray([0.4, 0.25])


def pattern(hi=4.0, lo=1.5, shift=0):
    x, y = np.meshgrid(np.arange(12), np.arange(12), indexing="ij")
    inside = (np.abs(x - 5) < 3) & (np.abs(y - 4) < 2)
    return jnp.asarray(np.roll(np.where(inside, hi, lo), shift, axis=0))


def eigensolve(permittivity, formulation=fmm.Formulation.FFT, wavelength=WAVELENGTH, wavevector=WAVEVECTOR):
    return fmm.eigensolve_isotropic_media(
        wavelength, wavevector, LATTICE, jnp.asarray(permittivity), EXPANSION, formulation
    )


def uniform(value):
    return eigensolve(jnp.full((1, 1), value))


def report(deviation, tolerance):
    print("deviation", deviation)
    sys.exit(0 if deviation < tolerance else 1)


def s_diff(a, b):
    return max(float(jnp.abs(getattr(a, n) - getattr(b, n)).max()) for n in ("s11", "s12", "s21", "s22"))

layer = eigensolve(pattern())
before = scattering.stack_s_matrix([uniform(1.0), layer], [jnp.asarray(0.0), jnp.asarray(0.2)])
source = sources.dirac_delta_source(jnp.asarray([[0.3, 0.1]]), WAVEVECTOR, LATTICE, EXPANSION)


def emitted(second):
    after = scattering.stack_s_matrix([second, uniform(2.25)], [jnp.asarray(0.3), jnp.asarray(0.0)])
    zero = jnp.zeros_like(source)
    out = sources.amplitudes_for_source(source, zero, zero, before, after)
    return jnp.concatenate([out[0], out[-1]])


a = emitted(eigensolve(pattern()))
PHASE[0] = True
b = emitted(eigensolve(pattern()))
report(float(jnp.abs(a - b).max() / jnp.abs(a).max()), 1e-6)
