"""Independent dense reference solver and reference functionals.

minimise  sum_i phi_i(K_i X - B_i)  (+ 0.5 ||A X - S||^2 style quadratics)

over a matrix X (n, m); the K_i act from the left.  Every phi_i is given by a
value function and a proximal map written here from its definition, not taken
from the code under test.  The method is plain SDMM/ADMM with dense
factorisations; the value returned is the lowest true objective met at a
(near-)feasible candidate, so an inaccurate run only makes it larger, i.e. the
comparison F(code) <= F(ref) + tol weaker, never wrong."""
import numpy as np
import scipy.linalg as sla


# -- values and proximal maps -------------------------------------------------

class L1(object):
    def __init__(self, w):
        self.w = w

    def val(self, z):
        return float(np.sum(self.w * np.abs(z)))

    def prox(self, v, t):
        return np.sign(v) * np.maximum(np.abs(v) - t * self.w, 0)


class L1NN(L1):
    """Weighted l1 plus non-negativity."""

    def val(self, z):
        return float(np.sum(self.w * np.abs(z))) if z.min() >= -1e-12 else np.inf

    def prox(self, v, t):
        return np.maximum(v - t * self.w, 0)


class SqL2(object):
    """0.5 * sum w z^2"""

    def __init__(self, w=1.0):
        self.w = w

    def val(self, z):
        return float(0.5 * np.sum(self.w * z**2))

    def prox(self, v, t):
        return v / (1.0 + t * self.w)


class L1L21(object):
    """sum w|z| + mu * sum_groups ||z_g||, groups: reshape to `shape`, norm
    over `axes`; optionally non-negative."""

    def __init__(self, w, mu, shape, axes, nn=False):
        self.w, self.mu, self.shape, self.axes, self.nn = w, mu, shape, axes, nn

    def val(self, z):
        if self.nn and z.min() < -1e-12:
            return np.inf
        g = np.sqrt(np.sum(z.reshape(self.shape)**2, axis=self.axes, keepdims=True))
        return float(np.sum(self.w * np.abs(z)) + np.sum(self.mu * g))

    def prox(self, v, t):
        if self.nn:
            v = np.maximum(v, 0)
        v = np.sign(v) * np.maximum(np.abs(v) - t * self.w, 0)
        r = v.reshape(self.shape)
        g = np.sqrt(np.sum(r**2, axis=self.axes, keepdims=True))
        s = np.maximum(0, 1 - t * self.mu / np.where(g > 0, g, 1.0))
        return (r * s).reshape(v.shape)


def simplex_thresh(a, gamma):
    """Threshold tau with sum(max(a - tau, 0)) = gamma, a >= 0 vector."""
    s = np.sort(a)[::-1]
    c = np.cumsum(s)
    k = np.arange(1, a.size + 1)
    idx = np.nonzero(s - (c - gamma) / k > 0)[0][-1]
    return (c[idx] - gamma) / (idx + 1)


class BallL1(object):
    """Indicator of the l1 ball, groups = arrays over `axes` of the reshape."""

    def __init__(self, gamma, shape, axes, nn=False, zero=None):
        self.gamma, self.shape, self.axes, self.nn, self.zero = gamma, shape, axes, nn, zero

    def _groups(self, z):
        r = z.reshape(self.shape)
        nd = r.ndim
        ax = tuple(a % nd for a in self.axes)
        oth = tuple(a for a in range(nd) if a not in ax)
        m = np.transpose(r, oth + ax)
        return m.reshape((int(np.prod([r.shape[a] for a in oth], dtype=int)), -1)), m.shape, oth + ax

    def val(self, z):
        g, _, _ = self._groups(z)
        ok = np.abs(g).sum(axis=1).max() <= self.gamma * (1 + 1e-9) + 1e-12
        if self.nn and z.min() < -1e-12:
            ok = False
        if self.zero is not None and np.abs(z[self.zero]).sum() > 1e-12:
            ok = False
        return 0.0 if ok else np.inf

    def prox(self, v, t):
        if self.nn:
            v = np.maximum(v, 0)
        if self.zero is not None:
            v = np.where(self.zero, 0.0, v)
        g, shp, perm = self._groups(v)
        out = g.copy()
        for i in range(g.shape[0]):
            a = np.abs(g[i])
            if a.sum() > self.gamma:
                tau = simplex_thresh(a, self.gamma)
                out[i] = np.sign(g[i]) * np.maximum(a - tau, 0)
        out = out.reshape(shp)
        return np.transpose(out, np.argsort(perm)).reshape(v.shape)


class BallL2(object):
    """Indicator of the l2 ball (centre 0), columns or all."""

    def __init__(self, eps, shape=None, axes=None, tol=1e-6):
        self.eps, self.shape, self.axes, self.tol = eps, shape, axes, tol

    def _n(self, z):
        r = z if self.shape is None else z.reshape(self.shape)
        return np.sqrt(np.sum(r**2, axis=self.axes, keepdims=True)), r

    def val(self, z):
        n, _ = self._n(z)
        return 0.0 if n.max() <= self.eps * (1 + self.tol) + 1e-10 else np.inf

    def prox(self, v, t):
        n, r = self._n(v)
        s = np.where(n > self.eps, self.eps / np.where(n > 0, n, 1.0), 1.0)
        return (r * s).reshape(v.shape)


class Nuclear(object):
    def __init__(self, w, shape):
        self.w, self.shape = w, shape

    def val(self, z):
        return float(self.w * np.linalg.svd(z.reshape(self.shape), compute_uv=False).sum())

    def prox(self, v, t):
        U, s, Vt = np.linalg.svd(v.reshape(self.shape), full_matrices=False)
        return ((U * np.maximum(s - t * self.w, 0)) @ Vt).reshape(v.shape)


class Zero(object):
    """Indicator of z == 0 on a boolean mask."""

    def __init__(self, mask):
        self.mask = mask

    def val(self, z):
        return 0.0 if np.abs(np.where(self.mask, z, 0)).sum() <= 1e-9 else np.inf

    def prox(self, v, t):
        return np.where(self.mask, 0.0, v)


class NonNeg(object):
    def val(self, z):
        return 0.0 if z.min() >= -1e-12 else np.inf

    def prox(self, v, t):
        return np.maximum(v, 0)


class WithZero(object):
    """phi restricted to z == 0 on mask (phi separable or decreasing in |z|)."""

    def __init__(self, phi, mask):
        self.phi, self.mask = phi, mask

    def val(self, z):
        if np.abs(np.where(self.mask, z, 0)).sum() > 1e-12:
            return np.inf
        return self.phi.val(z)

    def prox(self, v, t):
        return self.phi.prox(np.where(self.mask, 0.0, v), t)


def objective(X, terms):
    f = 0.0
    for K, B, phi in terms:
        f += phi.val((X if K is None else K @ X) - B)
    return f


def solve(n, m, terms, quad=None, iters=3000, tol=1e-9, extra=()):
    """terms: list of (K or None, B, phi).  quad: list of (A, S, w) adding
    0.5*w*||A X - S||^2 handled in the linear step.  Returns (F, X)."""
    quad = quad or []
    H = np.zeros((n, n))
    h = np.zeros((n, m))
    for A, S, w in quad:
        H += w * (A.T @ A)
        h += w * (A.T @ S)
    KK = np.zeros((n, n))
    for K, B, phi in terms:
        KK += np.eye(n) if K is None else K.T @ K

    def full(X):
        f = objective(X, terms)
        for A, S, w in quad:
            f += 0.5 * w * np.sum((A @ X - S)**2)
        return f

    sc = max(np.abs(h).max() if h.size else 0.0, 1e-3)
    hs = np.trace(H) / max(n, 1)
    rho = max(hs, 1e-2) if hs > 0 else 1.0

    def fac(rho):
        return sla.cho_factor(H + rho * KK + 1e-12 * (1 + rho) * np.eye(n))
    cf = fac(rho)
    X = np.zeros((n, m))
    z = [np.zeros_like((X if K is None else K @ X) - B) for K, B, phi in terms]
    u = [np.zeros_like(zi) for zi in z]
    best, bx = np.inf, X

    def consider(c):
        nonlocal best, bx
        f = full(c)
        if f < best:
            best, bx = f, c.copy()
    consider(X)
    for c in extra:
        consider(np.asarray(c, dtype=float).reshape(n, m))
    for k in range(iters):
        rhs = h.copy()
        for (K, B, phi), zi, ui in zip(terms, z, u):
            t = zi + B - ui
            rhs += rho * (t if K is None else K.T @ t)
        X = sla.cho_solve(cf, rhs)
        r2 = s2 = rn = sn = 0.0
        st = np.zeros_like(X)
        su = np.zeros_like(X)
        for i, (K, B, phi) in enumerate(terms):
            v = (X if K is None else K @ X) - B
            vr = 1.6 * v - 0.6 * z[i]
            zn = phi.prox(vr + u[i], 1.0 / rho)
            u[i] = u[i] + vr - zn
            d = zn - z[i]
            z[i] = zn
            r2 += np.sum((v - zn)**2)
            rn = max(rn, np.sum(v**2), np.sum(zn**2))
            st += d if K is None else K.T @ d
            su += u[i] if K is None else K.T @ u[i]
        r = np.sqrt(r2) / (np.sqrt(rn) + 1e-12)
        s = np.linalg.norm(st) / (np.linalg.norm(su) + 1e-12 + 1e-9 * sc)
        if k % 25 == 24 or max(r, s) < tol:
            consider(X)
            for i, (K, B, phi) in enumerate(terms):
                if K is None:
                    consider(z[i] + B)
            if max(r, s) < tol:
                break
        if k % 20 == 19 and k < iters * 0.6:
            f = None
            if r > 5 * s:
                f = 2.0
            elif s > 5 * r:
                f = 0.5
            if f is not None and 1e-8 < rho * f < 1e8:
                rho *= f
                u = [ui / f for ui in u]
                cf = fac(rho)
    return best, bx


# -- convolution ---------------------------------------------------------------

def convmat(d, Nv):
    """Matrix of circular convolution with filter d (d.ndim == len(Nv)), origin
    at index 0, acting on C-ordered vectors of shape Nv."""
    Nv = tuple(Nv)
    n = int(np.prod(Nv))
    M = np.zeros((n, n))
    idx = np.arange(n).reshape(Nv)
    for p in np.ndindex(*d.shape):
        if d[p] != 0:
            # out[x] += d[p] * in[x - p]
            src = np.roll(idx, p, axis=tuple(range(len(Nv))))
            M[np.arange(n), src.ravel()] += d[p]
    return M


def cconv(d, x):
    """Direct circular convolution of filter d with array x (same ndim)."""
    out = np.zeros(x.shape, dtype=np.result_type(d, x))
    ax = tuple(range(x.ndim))
    for p in np.ndindex(*d.shape):
        if d[p] != 0:
            out += d[p] * np.roll(x, p, axis=ax)
    return out


def synth(D, X, dimN):
    """Direct convolution sum.  D: N... + (Cd, 1, M) internal layout, X:
    Nv... + (Cx, K, M).  Returns Nv... + (C, K, 1)."""
    Cd, M = D.shape[dimN], D.shape[-1]
    Cx, K = X.shape[dimN], X.shape[dimN + 1]
    C = max(Cd, Cx)
    dt = np.result_type(D, X)
    out = np.zeros(X.shape[:dimN] + (C, K, 1), dtype=dt)
    sp = (slice(None),) * dimN
    for c in range(C):
        for k in range(K):
            acc = np.zeros(X.shape[:dimN], dtype=dt)
            for m in range(M):
                acc += cconv(D[sp + (c if Cd > 1 else 0, 0, m)],
                             X[sp + (c if Cx > 1 else 0, k, m)])
            out[sp + (c, k, 0)] = acc
    return out
