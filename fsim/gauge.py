"""Simulated eigensolver backends: every legal answer, and every failure, is a choice of
the simulator."""
import numpy as np


class Backend:
    """Eigensolver whose answer to each request is drawn from a seeded generator.

    opts: perm, scale (decades), phase, mix, noise (in units of rounding), and a failure
    plan {call number: {"kind": "raise", "exc": name} | {"kind": "nan", "elems": [..]}}.
    """

    def __init__(self, seed, opts, ctx=None, plan=None):
        self.r = np.random.default_rng(seed)
        self.o = opts
        self.ctx = ctx
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.calls = 0
        self.min_gap = np.inf
        self.max_cond = 0.0
        self.log = []

    def __call__(self, matrix):
        call = self.calls
        self.calls += 1
        act = self.plan.get(call)
        if act and act["kind"] == "raise":
            if self.ctx:
                self.ctx.fault("backend-raises-" + act["exc"])
            raise EXCEPTIONS[act["exc"]]("injected eigensolver failure")
        m = np.asarray(matrix)
        cdt = np.result_type(m.dtype, np.complex64)
        n = m.shape[-1]
        flat = m.reshape((-1, n, n))
        ws = np.zeros(flat.shape[:-1], cdt)
        vs = np.zeros(flat.shape, cdt)
        for e in range(flat.shape[0]):
            ws[e], vs[e] = self._one(flat[e], e)
        if act and act["kind"] == "nan":
            for e in act["elems"]:
                if e < flat.shape[0]:
                    ws[e] = np.nan
                    vs[e] = np.nan
                    if self.ctx:
                        self.ctx.fault("backend-nonconvergence")
        return ws.reshape(m.shape[:-1]), vs.reshape(m.shape)

    def _one(self, m, e):
        o, r, ctx = self.o, self.r, self.ctx
        n = m.shape[-1]
        if not np.all(np.isfinite(m)):
            return np.full(n, np.nan), np.full((n, n), np.nan)
        cdt = np.result_type(m.dtype, np.complex64)
        m = m.astype(np.complex128)
        scale = np.abs(m).max() + 1e-300
        # draw everything every time, so that options do not shift the stream
        noise = r.standard_normal((n, n)) + 1j * r.standard_normal((n, n))
        perm = r.permutation(n)
        mag = r.uniform(-1, 1, size=n)
        ph = r.uniform(0, 2 * np.pi, size=n)
        mixm = r.standard_normal((n, n)) + 1j * r.standard_normal((n, n))
        eps = np.finfo(cdt).eps
        if o.get("noise"):
            m = m + o["noise"] * eps * scale * noise
            self._hit("rounding-noise")
        w, v = np.linalg.eig(m)
        d = np.abs(w[:, None] - w[None, :])
        rng_ = d.max() + 1e-300
        if n > 1:
            g = d[~np.eye(n, dtype=bool)]
            g = g[g > 1e-10 * rng_]
            if g.size:
                self.min_gap = min(self.min_gap, g.min() / rng_)
        if o.get("mix"):
            done = np.zeros(n, bool)
            for i in range(n):
                if done[i]:
                    continue
                c = np.where((d[i] < 2e-12 * rng_) & ~done)[0]
                done[c] = True
                if len(c) > 1:
                    q, _ = np.linalg.qr(mixm[np.ix_(c, c)])
                    t = q * (1 + 0.5 * mag[c])[None, :]
                    if o["mix"] == "skew":
                        t = t + 0.3 * np.triu(mixm[np.ix_(c, c)], 1)
                    v[:, c] = v[:, c] @ t
                    v[:, c] /= np.linalg.norm(v[:, c], axis=0)
                    self._hit("degenerate-mixing")
        if o.get("scale"):
            v = v * 10.0 ** (o["scale"] * mag)[None, :]
            self._hit("mode-scaling")
        if o.get("phase"):
            v = v * np.exp(1j * ph)[None, :]
            self._hit("mode-phase")
        if o.get("perm"):
            w, v = w[perm], v[:, perm]
            self._hit("mode-permutation")
        vn = v / np.linalg.norm(v, axis=0)
        self.max_cond = max(self.max_cond, np.linalg.cond(vn))
        return w, v

    def _hit(self, k):
        if self.ctx:
            self.ctx.fault(k)


class BackendError(Exception):
    pass


EXCEPTIONS = {
    "RuntimeError": RuntimeError,
    "LinAlgError": np.linalg.LinAlgError,
    "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "ValueError": ValueError,
    "ModuleNotFoundError": ModuleNotFoundError,
    "ImportError": ImportError,
    "FloatingPointError": FloatingPointError,
    "NotImplementedError": NotImplementedError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "BackendError": BackendError,
}


def install(handler):
    import jeig
    jeig.HANDLER = handler
