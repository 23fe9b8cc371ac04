"""Results of a host callback remain valid if the host runs another."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import jax
import jax.numpy as jnp
import numpy as np
from fmmax import utils

host = jax.devices("cpu")


class Accelerator:
    platform = "gpu"


_devices = jax.devices
jax.devices = lambda backend=None: host if backend == "cpu" else [Accelerator()]
captured = []


def pure_callback(fn, shapes, *args, **kwargs):
    # The runtime hands the buffers of the host function on without copying them.
    result = fn(*[np.asarray(a) for a in args])
    captured.append((result, jax.tree_util.tree_map(np.array, result)))
    return jax.tree_util.tree_map(jnp.asarray, captured[-1][1])


jax.pure_callback = pure_callback
rng = np.random.RandomState(0)
for _ in range(3):
    utils.eig(jnp.asarray(rng.randn(4, 4)))
same = all(np.array_equal(np.asarray(a), b) for kept, copy in captured for a, b in zip(kept, copy))
print(len(captured), same)
sys.exit(0 if same and captured else 1)
