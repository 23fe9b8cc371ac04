"""The tangent fields of a batch of patterns on different lattices are those of the elements."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import jax
import jax.numpy as jnp
import numpy as np

jax.config.update("jax_enable_x64", True)
from fmmax import basis, vector

x, y = np.meshgrid(np.arange(14), np.arange(14), indexing="ij")
arr = jnp.asarray(np.where((np.abs(x - 5) < 3) & (np.abs(y - 4) < 2), 4.0, 1.0))
u = jnp.asarray([[1.0, 0.0], [1.0, 0.0]])
v = jnp.asarray([[0.0, 1.0], [0.5, 0.8]])
expansion = basis.generate_expansion(basis.LatticeVectors(u[0], v[0]), 9, basis.Truncation.CIRCULAR)
fn = vector.VECTOR_FIELD_SCHEMES["pol"]
tx, ty = fn(jnp.stack([arr, arr]), expansion, basis.LatticeVectors(u, v))
worst = 0.0
for i in range(2):
    txi, tyi = fn(arr, expansion, basis.LatticeVectors(u[i], v[i]))
    worst = max(worst, float(jnp.abs(tx[i] - txi).max()), float(jnp.abs(ty[i] - tyi).max()))
print(worst)
sys.exit(0 if worst < 1e-6 else 1)
