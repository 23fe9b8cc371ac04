"""The simulator's stand-in for the optional `jeig` package.

Every request goes to the handler the simulator has installed. Without a handler the
package behaves like an ordinary eigensolver.
"""
import jax
import jax.numpy as jnp
import numpy as onp

HANDLER = None  # callable(matrix: numpy array (..., n, n)) -> (values, vectors)
CALLS = 0


def _plain(matrix):
    return onp.linalg.eig(matrix)


def _host(matrix):
    global CALLS
    CALLS += 1
    matrix = onp.asarray(matrix)
    dtype = jnp.promote_types(matrix.dtype, jnp.complex64)
    w, v = (HANDLER or _plain)(matrix.astype(dtype))
    return onp.asarray(w).astype(dtype), onp.asarray(v).astype(dtype)


def eig(matrix, *args, **kwargs):
    del args, kwargs
    if isinstance(matrix, jax.core.Tracer):
        dtype = jnp.promote_types(matrix.dtype, jnp.complex64)
        return jax.pure_callback(
            _host,
            (
                jax.ShapeDtypeStruct(matrix.shape[:-1], dtype),
                jax.ShapeDtypeStruct(matrix.shape, dtype),
            ),
            matrix,
            vmap_method="expand_dims",
        )
    w, v = _host(matrix)
    return jnp.asarray(w), jnp.asarray(v)
