"""A thread which uses `force_x64_solve` does not change the process-wide settings other threads see."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import threading

import jax
import jax.numpy as jnp
from fmmax import scattering

a = jnp.asarray([[2.0, 0.3], [0.1, 1.0]])
b = jnp.eye(2)
seen = set()
stop = threading.Event()


def observe():
    while not stop.is_set():
        try:
            seen.add(bool(jax.config.read("jax_enable_x64")))
            seen.add(str(jnp.asarray(1.5).dtype))
        except Exception as e:
            seen.add(type(e).__name__)


thread = threading.Thread(target=observe)
thread.start()
for _ in range(300):
    scattering.solve(a, b, force_x64_solve=True)
stop.set()
thread.join()
print(seen)
sys.exit(0 if seen == {False, "float32"} else 1)
