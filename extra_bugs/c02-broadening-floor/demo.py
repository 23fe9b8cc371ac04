"""The gradient of a stack having close but distinct modes equals the numerical derivative."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import jax
import jax.numpy as jnp
import numpy as np

jax.config.update("jax_enable_x64", True)
from fmmax import utils

rng = np.random.RandomState(0)
v = jnp.asarray(rng.randn(4, 4))
d = jnp.diag(jnp.asarray([1.0, 1.003, 3.0, 9.0]))
m = (v @ d @ jnp.linalg.inv(v)).astype(complex)
dm = jnp.asarray(rng.randn(4, 4)).astype(complex)


def fn(x):
    # A smooth function of the matrix: independent of order, scale and phase of the modes.
    values, vectors = utils.eig(m + x * dm)
    root = vectors @ utils.diag(jnp.exp(1j * values)) @ jnp.linalg.inv(vectors)
    return jnp.abs(root[0, 1]) ** 2


h = 1e-5
numerical = (fn(h) - fn(-h)) / (2 * h)
print(jax.grad(fn)(0.0), numerical)
sys.exit(0 if abs(jax.grad(fn)(0.0) - numerical) < 1e-3 * abs(numerical) else 1)
