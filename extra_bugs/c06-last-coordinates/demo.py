"""Two threads using different expansions do not disturb each other."""
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import threading

import jax.numpy as jnp
from fmmax import basis, fft

lattice = basis.LatticeVectors(u=basis.X, v=basis.Y)
small = basis.generate_expansion(lattice, 5, basis.Truncation.CIRCULAR)
large = basis.generate_expansion(lattice, 40, basis.Truncation.CIRCULAR)
x_small, x_large = jnp.ones((3, 3)), jnp.ones((15, 15))
error = None


def other():
    fft.fourier_convolution_matrix(x_large, large)


class Switcher:
    """Lets another thread run when the given line is reached."""

    def __init__(self, at):
        self.at, self.count = at, 0

    def __call__(self, frame, event, arg):
        if "fmmax" not in frame.f_code.co_filename:
            return None
        self.count += 1
        if self.count == self.at:
            thread = threading.Thread(target=other)
            thread.start()
            thread.join()
        return self


at = 0
while error is None:
    at += 1
    other()
    switcher = Switcher(at)
    sys.settrace(switcher)
    try:
        fft.fourier_convolution_matrix(x_small, small)
    except ValueError as e:
        error = e
    finally:
        sys.settrace(None)
    if switcher.count < at:
        break
print(at, error)
sys.exit(1 if error else 0)
