"""Transverse wavevectors of a lattice do not depend on lattices used before it."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import jax.numpy as jnp
import numpy as np
from fmmax import basis

expansion = basis.generate_expansion(basis.LatticeVectors(basis.X, basis.Y), 9, basis.Truncation.CIRCULAR)
k = jnp.zeros((2,))
worst = 0.0
for i in range(400):
    period = 1.0 + 0.01 * i
    lattice = basis.LatticeVectors(np.asarray([period, 0.0], np.float32), np.asarray([0.0, period], np.float32))
    kt = basis.transverse_wavevectors(k, lattice, expansion)
    expected = 2 * np.pi * expansion.basis_coefficients / period
    worst = max(worst, float(np.abs(np.asarray(kt) - expected).max()))
    del lattice
print(worst)
sys.exit(0 if worst < 1e-3 else 1)
