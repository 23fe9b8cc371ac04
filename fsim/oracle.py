"""Independent reference models (numpy only): dense interface-continuity systems."""
import numpy as np


def bidx(a, trailing, index, batch):
    """Element `index` of the batch of `a` (whose last `trailing` axes are data)."""
    a = np.asarray(a)
    lead = a.shape[: a.ndim - trailing]
    a = a.reshape((1,) * (len(batch) - len(lead)) + a.shape)
    idx = tuple(0 if s == 1 else i for s, i in zip(a.shape[: len(batch)], index))
    return a[idx]


class LayerData:
    """What the reference needs of one layer, for one batch element: the modes and the
    matrix relating them to tangential fields. The wavevector algebra is recomputed here
    from the definition rather than taken from the library."""

    def __init__(self, lsr, index, batch, lat_u, lat_v):
        wl = np.asarray(lsr.wavelength)
        w = 2 * np.pi / bidx(wl, 0, index, batch)
        k0 = bidx(lsr.in_plane_wavevector, 1, index, batch).astype(float)
        u = bidx(lat_u, 1, index, batch).astype(float)
        v = bidx(lat_v, 1, index, batch).astype(float)
        cross = u[0] * v[1] - u[1] * v[0]
        ru = np.array([v[1], -v[0]]) / cross
        rv = np.array([-u[1], u[0]]) / cross
        g = np.asarray(lsr.expansion.basis_coefficients)
        kx = k0[0] + 2 * np.pi * (g[:, 0] * ru[0] + g[:, 1] * rv[0])
        ky = k0[1] + 2 * np.pi * (g[:, 0] * ru[1] + g[:, 1] * rv[1])
        ez = bidx(lsr.z_permittivity_matrix, 2, index, batch).astype(complex)
        mu = bidx(lsr.transverse_permeability_matrix, 2, index, batch).astype(complex)
        inv = np.linalg.inv(ez)
        kk = np.vstack([np.diag(ky), np.diag(-kx)])  # acts on the z component
        # omega^2 mu - K eps_z^-1 K^T, in the ordering (x-like, y-like) of the library
        script = np.block([
            [np.diag(ky) @ inv @ np.diag(ky), -np.diag(ky) @ inv @ np.diag(kx)],
            [-np.diag(kx) @ inv @ np.diag(ky), np.diag(kx) @ inv @ np.diag(kx)],
        ])
        del kk
        self.omega = w
        self.kx, self.ky = kx, ky
        self.mu_inv = bidx(lsr.inverse_z_permeability_matrix, 2, index, batch).astype(complex)
        self.eta = bidx(lsr.inverse_z_permittivity_matrix, 2, index, batch).astype(complex)
        self.q = bidx(lsr.eigenvalues, 1, index, batch).astype(complex)
        self.phi = bidx(lsr.eigenvectors, 2, index, batch).astype(complex)
        self.osk = w**2 * mu - script
        # E-like rows (-ey, ex) and H-like rows (hx, hy) of forward modes at their plane
        self.e = self.osk @ self.phi / (w * self.q)[None, :]
        self.h = self.phi

    def phase(self, t):
        return np.exp(1j * self.q * t)


def interface_rows(layers, ts, n2):
    """Homogeneous continuity equations over unknowns [a_0, b_0, a_1, b_1, ...]."""
    num = len(layers)
    rows = []
    for i in range(num - 1):
        L, R = layers[i], layers[i + 1]
        m = np.zeros((2 * n2, 2 * n2 * num), complex)
        f = L.phase(ts[i])
        fr = R.phase(ts[i + 1])
        c = 2 * n2 * i
        # left layer at its end: forward a*f, backward b
        m[:n2, c:c + n2] = L.e * f[None, :]
        m[:n2, c + n2:c + 2 * n2] = -L.e
        m[n2:, c:c + n2] = L.h * f[None, :]
        m[n2:, c + n2:c + 2 * n2] = L.h
        # right layer at its start: forward a, backward b*f
        c2 = c + 2 * n2
        m[:n2, c2:c2 + n2] = -R.e
        m[:n2, c2 + n2:c2 + 2 * n2] = R.e * fr[None, :]
        m[n2:, c2:c2 + n2] = -R.h
        m[n2:, c2 + n2:c2 + 2 * n2] = -R.h * fr[None, :]
        rows.append(m)
    return rows


def solve_stack(layers, ts, a0, bN, source=None):
    """All amplitudes [(a_i, b_i)] given the incoming waves.

    `source` is (i, jump): the tangential field after interface i minus that before it.
    """
    num = len(layers)
    n2 = layers[0].q.shape[0]
    cols = a0.shape[1]
    rows = interface_rows(layers, ts, n2)
    A = np.zeros((2 * n2 * num, 2 * n2 * num), complex)
    B = np.zeros((2 * n2 * num, cols), complex)
    r = 0
    for i, m in enumerate(rows):
        A[r:r + 2 * n2] = m
        if source is not None and source[0] == i:
            B[r:r + 2 * n2] = -source[1]
        r += 2 * n2
    A[r:r + n2, :n2] = np.eye(n2)
    B[r:r + n2] = a0
    r += n2
    A[r:r + n2, -n2:] = np.eye(n2)
    B[r:r + n2] = bN
    # Column scaling and row equilibration keep the dense solve accurate.
    rs = 1 / np.abs(A).max(axis=1)
    A2 = A * rs[:, None]
    cs = 1 / np.abs(A2).max(axis=0)
    A2 = A2 * cs[None, :]
    x = np.linalg.solve(A2, B * rs[:, None])
    res = B * rs[:, None] - A2 @ x
    x = x + np.linalg.solve(A2, res)
    x = x * cs[:, None]
    out = []
    for i in range(num):
        c = 2 * n2 * i
        out.append((x[c:c + n2], x[c + n2:c + 2 * n2]))
    return out


def s_matrix(layers, ts):
    """s11, s12, s21, s22 of the list of layers, from continuity alone."""
    n2 = layers[0].q.shape[0]
    eye, zero = np.eye(n2, dtype=complex), np.zeros((n2, n2), complex)
    if len(layers) == 1:
        return eye, zero, zero, eye
    sol = solve_stack(layers, ts, np.hstack([eye, zero]), np.hstack([zero, eye]))
    aN, b0 = sol[-1][0], sol[0][1]
    return aN[:, :n2], aN[:, n2:], b0[:, :n2], b0[:, n2:]


def source_jump(layer_before, jx, jy, jz):
    """Jump of (omega-normalised) tangential fields across a current sheet."""
    w = layer_before.omega
    p = layer_before.eta @ jz
    e = np.vstack([-(layer_before.ky[:, None] * p), layer_before.kx[:, None] * p]) / w
    h = np.vstack([jy, -jx])
    return np.vstack([e, h])


def layer_fields(ld, a, b, t, z):
    """Fourier amplitudes (ex, ey, ez), (hx, hy, hz) at offset z in a layer, from the
    forward amplitude at its start and the backward amplitude at its end."""
    f = np.exp(1j * ld.q * z)[:, None] * a
    g = np.exp(1j * ld.q * (t - z))[:, None] * b
    e, h = ld.e @ (f - g), ld.h @ (f + g)
    n = ld.kx.shape[0]
    ey, ex, hx, hy = -e[:n], e[n:], h[:n], h[n:]
    kx, ky = ld.kx[:, None], ld.ky[:, None]
    ez = -ld.eta @ (kx * hy - ky * hx) / ld.omega
    hz = ld.mu_inv @ (kx * ey - ky * ex) / ld.omega
    return (ex, ey, ez), (hx, hy, hz)


def at_points(ld, comps, x, y):
    """Real-space values of Fourier amplitudes at points, shape x.shape + (cols,)."""
    ph = np.exp(1j * (np.multiply.outer(x, ld.kx) + np.multiply.outer(y, ld.ky)))
    return [ph @ c for c in comps]
