"""Registry of the denoising and decomposition solvers: construction on a
generated problem, documented functionals evaluated independently, dense
reference problems."""
import numpy as np
from vlib.core import st, seeds, rng, stdopt
from vlib import ref
from sporco.admm import tvl1, tvl2, spline, rpca

TV = ['TVL1Denoise', 'TVL2Denoise', 'TVL1Deconv', 'TVL2Deconv']
ALL = TV + ['SplineL1', 'RobustPCA']
CLS = {'TVL1Denoise': tvl1.TVL1Denoise, 'TVL1Deconv': tvl1.TVL1Deconv, 'TVL2Denoise': tvl2.TVL2Denoise,
       'TVL2Deconv': tvl2.TVL2Deconv, 'SplineL1': spline.SplineL1, 'RobustPCA': rpca.RobustPCA}


@st.composite
def case(draw, kinds=tuple(ALL), minN=1):
    kind = draw(st.sampled_from(list(kinds)))
    if kind == 'RobustPCA':
        shp = [draw(st.integers(1, 7)), draw(st.integers(1, 7))]
        axes, caxis = [0, 1], None
    else:
        nd = draw(st.sampled_from([1, 2, 2, 2, 3, 3]))
        mx = {1: 12, 2: 6, 3: 4}[nd]
        shp = [draw(st.integers(minN, mx)) for _ in range(nd)]
        axes = list(draw(st.permutations(range(nd))))[:draw(st.integers(1, nd))]
        oth = [a for a in range(nd) if a not in axes]
        caxis = draw(st.sampled_from([None] + oth + oth)) if kind in TV else None
        if draw(st.booleans()):
            axes = sorted(axes)
    return dict(kind=kind, shp=shp, axes=list(axes), caxis=caxis, seed=draw(seeds()),
                skind=draw(st.sampled_from(['normal', 'blocky', 'smallint', 'const'])),
                lam=draw(st.sampled_from([0.0, 0.05, 0.3, 1.0, 3.0])),
                cplx=draw(st.sampled_from([False, False, False, True])),
                wdf=draw(st.sampled_from(['one', 'scalar', 'full', 'bin'])),
                wtv=draw(st.sampled_from(['one', 'scalar', 'full', 'bcast'])),
                fsz=draw(st.integers(1, 3)))


def fdiff(n):
    G = np.zeros((n, n))
    for k in range(n - 1):
        G[k, k], G[k, k + 1] = -1.0, 1.0
    return G


def cdiffm(n):
    if n == 1:
        return np.zeros((1, 1))
    return np.eye(n) - np.roll(np.eye(n), -1, axis=1).T if False else np.eye(n) - np.eye(n)[(np.arange(n) - 1) % n]


def on_axis(M, shp, ax):
    """Dense matrix of applying M along axis ax of C-ordered arrays of shape shp."""
    K = np.eye(1)
    for a, n in enumerate(shp):
        K = np.kron(K, M if a == ax else np.eye(n))
    return K


class Model(object):
    inner = None

    def __init__(self, c, dtype='float64'):
        self.c = c = dict(c)
        self.kind = kind = c['kind']
        self.shp = tuple(c['shp'])
        self.axes = tuple(c['axes'])
        self.caxis = c['caxis']
        rs = rng(c['seed'], 31)
        self.cplx = bool(c['cplx']) and kind in TV and np.dtype(dtype).kind == 'f'
        self.rdtype = np.dtype(dtype)
        self.dtype = np.result_type(dtype, np.complex64) if self.cplx else np.dtype(dtype)

        def sig():
            if c['skind'] == 'normal':
                return rs.randn(*self.shp)
            if c['skind'] == 'smallint':
                return rs.randint(-3, 4, size=self.shp).astype(float)
            if c['skind'] == 'const':
                return np.full(self.shp, rs.randn())
            a = np.cumsum(rs.randn(*self.shp) * (rs.rand(*self.shp) < 0.3), axis=0)
            return a + 0.1 * rs.randn(*self.shp)
        S = sig()
        if self.cplx:
            S = S + 1j * sig()
        self.S = np.asarray(S).astype(self.dtype)
        self.lmbda = float(c['lam'])
        self.W = None
        self.Wtv = None
        one = np.ones(())
        self.wdf = one
        if kind in ('TVL1Denoise', 'TVL2Denoise', 'TVL1Deconv', 'SplineL1'):
            w = {'one': one, 'scalar': np.asarray(0.5 + rs.rand()), 'full': 0.2 + rs.rand(*self.shp),
                 'bin': (rs.rand(*self.shp) < 0.7) * 1.0}[c['wdf']]
            # a sample with zero data weight and no neighbour is undetermined
            if c['wdf'] == 'bin' and (not w.any() or all(self.shp[a] == 1 for a in self.axes)):
                w = np.ones(self.shp)
            self.wdf = w.astype(self.rdtype)
        self.wtv = one
        if kind in TV:
            shp = list(self.shp)
            if self.caxis is not None:
                shp[self.caxis] = 1
            if c['wtv'] == 'bcast':
                shp = [n if rs.rand() < 0.5 else 1 for n in shp]
            w = {'one': one, 'scalar': np.asarray(0.5 + rs.rand())}.get(c['wtv'])
            if w is None:
                w = 0.2 + 2 * rs.rand(*shp)
            self.wtv = w.astype(self.rdtype)
        self.H = None
        if 'Deconv' in kind:
            fs = [min(c['fsz'], n) if a in self.axes else 1 for a, n in enumerate(self.shp)]
            A = 0.3 * rs.randn(*fs)
            A.ravel()[0] += 1.0
            if np.abs(A).sum() > 1e-6 and abs(A.sum()) < 0.3:
                A.ravel()[0] += 0.7
            self.A = A.astype(self.dtype)
        self._ref = None

    # -- operators -------------------------------------------------------------
    def gradm(self):
        M = cdiffm if 'Deconv' in self.kind else fdiff
        return [on_axis(M(self.shp[a]), self.shp, a) for a in self.axes]

    def hmat(self):
        n = int(np.prod(self.shp))
        return ref.convmat(np.asarray(self.A.real, dtype=float), self.shp) if 'Deconv' in self.kind else np.eye(n)

    def Hx(self, X):
        X = np.asarray(X)
        if 'Deconv' not in self.kind:
            return X
        return (self.hmat() @ X.ravel()).reshape(self.shp)

    def G(self, X):
        X = np.asarray(X)
        out = []
        for a in self.axes:
            if 'Deconv' in self.kind:
                out.append(X - np.roll(X, 1, axis=a))
            else:
                d = np.zeros_like(X)
                n = X.shape[a]
                if n > 1:
                    sl = (slice(None),) * a
                    d[sl + (slice(0, n - 1),)] = np.diff(X, axis=a)
                out.append(d)
        return np.stack(out, axis=-1)

    def tv_of(self, Gv):
        q = np.abs(np.asarray(Gv))**2
        q = q.sum(axis=-1)
        if self.caxis is not None:
            q = q.sum(axis=self.caxis, keepdims=True)
        return float(np.sum(np.asarray(self.wtv, dtype=float) * np.sqrt(q)))

    def dfid_of(self, R):
        R = np.abs(np.asarray(R))
        if 'L2' in self.kind:
            return float(0.5 * np.sum((self.wdf * R)**2))
        return float(np.sum(self.wdf * R))

    def spl(self, X):
        L = np.zeros(self.shp)
        for a in self.axes:
            L = L + (self.lapm(a) @ np.asarray(X, dtype=float).ravel()).reshape(self.shp)
        return float(0.5 * np.sum(L**2))

    def lapm(self, a):
        F = fdiff(self.shp[a])
        return on_axis(-F.T @ F, self.shp, a)

    def objective(self, X):
        if self.kind == 'RobustPCA':
            return float(np.linalg.svd(X[0], compute_uv=False).sum() + self.lmbda * np.abs(X[1]).sum())
        X = np.asarray(X)
        if self.kind == 'SplineL1':
            return self.dfid_of(X - self.S) + self.lmbda * self.spl(X)
        return self.dfid_of(self.Hx(X) - self.S) + self.lmbda * self.tv_of(self.G(X))

    def fzero(self):
        """A scale: the objective at the data itself and at zero."""
        Z = np.zeros(self.shp)
        if self.kind == 'RobustPCA':
            return float(min(self.objective((self.S, Z)), self.objective((Z, self.S))))
        return float(min(self.objective(Z), self.objective(self.S)) + 1e-12)

    def reference(self):
        if self._ref is None:
            n = int(np.prod(self.shp))
            S = np.asarray(self.S)
            s = np.concatenate((S.real.ravel(), S.imag.ravel())) if self.cplx else S.ravel().astype(float)
            r = 2 if self.cplx else 1
            s = s.reshape(-1, 1)
            bd = (lambda M: np.kron(np.eye(2), M)) if self.cplx else (lambda M: M)
            w = np.broadcast_to(np.asarray(self.wdf, dtype=float), self.shp)
            quad, terms = [], []
            if self.kind == 'RobustPCA':
                terms = [(None, 0.0, ref.Nuclear(1.0, self.shp)), (None, s, ref.L1(self.lmbda))]
            else:
                H = bd(self.hmat())
                if 'L2' in self.kind:
                    wd = np.tile(w.ravel(), r).reshape(-1, 1)
                    quad.append((wd * H, wd * s, 1.0))
                elif self.cplx:
                    terms.append((H, s, ref.L1L21(0.0, w.reshape(1, n), (2, n), (0,))))
                else:
                    terms.append((H, s, ref.L1(w.reshape(-1, 1))))
                if self.kind == 'SplineL1':
                    quad.append((sum(self.lapm(a) for a in self.axes), np.zeros((n, 1)), self.lmbda))
                elif self.lmbda > 0:
                    K = np.concatenate([bd(g) for g in self.gradm()], axis=0)
                    ax = (0, 1)
                    if self.caxis is not None:
                        ax = (0, 1, 2 + self.caxis)
                    wt = np.asarray(self.wtv, dtype=float)
                    gshp = tuple(1 if a == self.caxis else k for a, k in enumerate(self.shp))
                    wt = np.broadcast_to(wt, gshp).reshape((1, 1) + gshp)
                    terms.append((K, 0.0, ref.L1L21(0.0, self.lmbda * wt, (len(self.axes), r) + self.shp, ax)))
            if not terms:
                # plain least squares
                A, b, _ = quad[0]
                V = np.linalg.lstsq(A, b, rcond=None)[0]
                F = 0.5 * np.sum((A @ V - b)**2)
            else:
                F, V = ref.solve(n * r, 1, terms, quad)
            V = V.ravel()
            X = (V[:n] + 1j * V[n:]) if self.cplx else V
            self._ref = (F, X.reshape(self.shp))
        return self._ref

    # -- construction ------------------------------------------------------------
    def base_opts(self):
        d = {'Verbose': False}
        if self.c['wdf'] != 'one' and self.kind in ('TVL1Denoise', 'TVL2Denoise', 'TVL1Deconv', 'SplineL1'):
            d['DFidWeight'] = self.wdf if self.wdf.ndim else float(self.wdf)
        if self.kind in TV and self.c['wtv'] != 'one':
            d['TVWeight'] = self.wtv if self.wtv.ndim else float(self.wtv)
        return d

    def optcls(self):
        return CLS[self.kind].Options

    def inputs(self):
        d = {'S': self.S.copy()}
        if 'Deconv' in self.kind:
            d['A'] = self.A.copy()
        return d

    def make(self, opts=None, inp=None, lmbda='own'):
        K = CLS[self.kind]
        opt = stdopt(opts, K.Options, self.base_opts)
        inp = self.inputs() if inp is None else inp
        lm = self.lmbda if lmbda == 'own' else lmbda
        S = inp['S']
        if self.kind == 'RobustPCA':
            return K(S, lm, opt)
        if self.kind == 'SplineL1':
            return K(S, lm, opt, axes=self.axes)
        kw = dict(axes=self.axes, caxis=self.caxis)
        if 'Deconv' in self.kind:
            return K(inp['A'], S, lm, opt, **kw)
        return K(S, lm, opt, **kw)

    def yshape(self):
        if self.kind in ('SplineL1', 'RobustPCA'):
            return self.shp
        return self.shp + (len(self.axes) + (1 if 'L1' in self.kind else 0),)
