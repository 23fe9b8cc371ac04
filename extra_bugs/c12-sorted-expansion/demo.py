"""An expansion with read-only coefficients may be passed to unflatten."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import jax.numpy as jnp
import numpy as np
from fmmax import basis, farfield

lattice = basis.LatticeVectors(u=basis.X, v=basis.Y)
expansion = basis.generate_expansion(lattice, 9, basis.Truncation.CIRCULAR)
flat = jnp.asarray(np.random.RandomState(0).rand(2, 2, expansion.num_terms))
expected = farfield.unflatten(flat, expansion)
coefficients = expansion.basis_coefficients.copy()
coefficients.flags.writeable = False
try:
    result = farfield.unflatten(flat, basis.Expansion(coefficients))
except ValueError as e:
    print(e)
    sys.exit(1)
sys.exit(0 if np.array_equal(np.asarray(result), np.asarray(expected), equal_nan=True) else 1)
